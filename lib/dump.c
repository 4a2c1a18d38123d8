/* Reads length-prefixed binaries on stdin; for each prints what the monitor's own loader made of it. Every binary is loaded in a forked child
 * from an exactly sized heap block. Compiled together with the monitor sources (AddressSanitizer). */
#include "r2u2.h"
#include "internals/process_binary.h"
#include <stdint.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#include <string.h>
#include <sys/wait.h>
static r2u2_monitor_t m = R2U2_DEFAULT_MONITOR;
static void tl(const char *tag, r2u2_mltl_instruction_t i) {
  printf("%s %u %u %u %u %u %u\n", tag, i.memory_reference, i.opcode, i.op1_type, i.op1_value, i.op2_type, i.op2_value);
}
static int rd(void *p, size_t n) { return fread(p, 1, n, stdin) == n; }
int main(void) {
  uint32_t h[2];
  while (rd(h, 8)) {
    uint8_t *spec = malloc(h[0]);
    if (!rd(spec, h[0])) return 1;
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0) {
      /* what the instruction readers make of every record */
      size_t o = spec[0];
      for (; spec[o]; o += spec[o]) {
        if (spec[o + 1] == 5) {
          r2u2_bz_instruction_t i = r2u2_bz_set_from_binary(&spec[o + 2]);
          if (i.opcode == R2U2_BZ_OP_ICONST) printf("d BI %u %u %d\n", i.memory_reference, i.opcode, r2u2_bz_get_param1_int_from_binary(&spec[o + 2]));
          else if (i.opcode == R2U2_BZ_OP_FCONST) printf("d BF %u %u %.17g\n", i.memory_reference, i.opcode, (double)r2u2_bz_get_param1_float_from_binary(&spec[o + 2]));
          else printf("d BZ %u %u %u %u\n", i.memory_reference, i.opcode, i.param1, i.param2);
        } else if (spec[o + 1] == 4) tl("d TL", r2u2_mltl_set_from_binary(&spec[o + 2]));
        else if (spec[o + 1] == 2) tl("d CG", r2u2_mltl_set_from_binary(&spec[o + 3]));
        else printf("d ?? %u\n", spec[o + 1]);
      }
      if (h[1]) { /* and what a full load stores */
        int st = (int)r2u2_load_specification(spec, &m);
        printf("l ST %d\n", st);
        for (size_t k = 0; k < m.bz_program_count.max_program_count; k++) {
          r2u2_bz_instruction_t i = m.bz_instruction_tbl[k];
          printf("l BZ %u %u %u %u\n", i.memory_reference, i.opcode, i.param1, i.param2);
        }
        for (size_t k = 0; k < m.mltl_program_count.max_program_count; k++) tl("l TL", m.mltl_instruction_tbl[k]);
        for (size_t k = 0; k < h[1] - 1; k++) { /* value buffer and queues of the given number of ids */
          r2u2_scq_control_block_t *c = &m.queue_arena.control_blocks[k];
          if (k < R2U2_MAX_BZ_INSTRUCTIONS) printf("l VB %zu %d %.17g\n", k, m.value_buffer[k].i, (double)m.value_buffer[k].f);
          if (k < m.mltl_program_count.max_program_count) {
            r2u2_scq_temporal_block_t *t = r2u2_scq_temporal_get(m.queue_arena, k);
            printf("l CB %zu %u %td", k, (unsigned)c->length, c->queue - m.queue_arena.queue_mem);
            uint8_t op = m.mltl_instruction_tbl[k].opcode;
            if ((op >= 8 && op <= 11) || (op >= 24 && op <= 27)) printf(" %u %u", (unsigned)t->lower_bound, (unsigned)t->upper_bound);
            printf("\n");
          }
        }
#if R2U2_AUX_STRING_SPECS
        for (size_t k = 0; k < m.aux_info_arena.max_aux_formula; k++)
          printf("l F %s %u\n", m.aux_info_arena.formula_control_blocks[k].spec_str, (unsigned)m.aux_info_arena.formula_control_blocks[k].spec);
        for (size_t k = 0; k < m.aux_info_arena.max_aux_contract; k++) {
          r2u2_contract_aux_info_t *c = &m.aux_info_arena.contract_control_blocks[k];
          printf("l C %s %u %u %u\n", c->spec_str, (unsigned)c->spec_0, (unsigned)c->spec_1, (unsigned)c->spec_2);
        }
#endif
      }
      fflush(stdout);
      _exit(0);
    }
    int ws = 0;
    waitpid(pid, &ws, 0);
    printf("end %d\n", WIFEXITED(ws) ? WEXITSTATUS(ws) : 1000 + WTERMSIG(ws));
    fflush(stdout);
    free(spec);
  }
  return 0;
}
