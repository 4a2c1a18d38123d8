/* Compiled together with the monitor sources from /repo into a shared object.
 * Only uses the monitor's public API; holds NMON statically allocated default monitors. */
#include "r2u2.h"
#include <stdint.h>
#ifndef NMON
#define NMON 1
#endif
#if NMON == 1
static r2u2_monitor_t shim_m0 = R2U2_DEFAULT_MONITOR;
static r2u2_monitor_t *shim_m[1] = {&shim_m0};
#else
static r2u2_monitor_t shim_m0 = R2U2_DEFAULT_MONITOR;
static r2u2_monitor_t shim_m1 = R2U2_DEFAULT_MONITOR;
static r2u2_monitor_t *shim_m[2] = {&shim_m0, &shim_m1};
#endif
static void (*shim_cb)(uint32_t, uint32_t, int);
static r2u2_status_t shim_out(r2u2_mltl_instruction_t instr, r2u2_verdict *v) {
  shim_cb(instr.op2_value, get_verdict_time(*v), get_verdict_truth(*v) ? 1 : 0);
  return R2U2_OK;
}
int shim_nmon(void) { return NMON; }
void shim_init(void (*cb)(uint32_t, uint32_t, int)) {
  shim_cb = cb;
  for (int i = 0; i < NMON; i++) shim_m[i]->out_func = shim_out;
}
void shim_file(int m, void *f) { shim_m[m]->out_file = (FILE *)f; }
int shim_load(int m, uint8_t *spec, uint32_t len) { (void)len; return (int)r2u2_load_specification(spec, shim_m[m]); }
int shim_step(int m) { return (int)r2u2_step(shim_m[m]); }
void shim_bool(int m, uint32_t i, int v) { r2u2_load_bool_signal(shim_m[m], i, v != 0); }
void shim_int(int m, uint32_t i, int32_t v) { r2u2_load_int_signal(shim_m[m], i, v); }
void shim_float(int m, uint32_t i, double v) { r2u2_load_float_signal(shim_m[m], i, v); }
void shim_str(int m, uint32_t i, char *v) { r2u2_load_string_signal(shim_m[m], i, v); }
void shim_reset(int m, int kind) {
  if (kind == 0) r2u2_monitor_clock_reset(shim_m[m]);
  else if (kind == 1) r2u2_monitor_soft_reset(shim_m[m]);
  else r2u2_monitor_hard_reset(shim_m[m]);
}
/* sets the clock to `t`, used only to start explorations late in a run */
