/* Explicit-state explorer for the real R2U2 C monitor.
 *
 * Loads a shared object with the monitor (built from /repo) and explores the complete tree of input letters
 * up to a depth by depth-first search.  A state is the complete writable image of the shared object, saved and
 * restored around every transition.  A transition is one letter: a list of calls of the monitor's public API.
 *
 * Jobs arrive on stdin, answers go to stdout (binary, little endian):
 *  job : u32 magic, u32 nspec, {u32 len, bytes}*, u32 npre, {action}*, u32 nletters, {u32 na, {action}*}*,
 *        u32 depth, u32 flags, u32 base, {u32 nf, {i32 deadline}*} for each monitor, u64 maxnodes
 *  action: u32 op, u32 mon, u32 idx, u32 pad, 8 bytes value (int32 / double / 8 chars)
 *  reply: u32 magic, u32 status, u32 mon, u32 formula, u32 time, u32 pathlen, u32*path, u64 nodes, u64 steps,
 *         u64 events, u64 maxround, u64 nleaf, leaf records {T[mw],F[mw]} per monitor/formula as u64 words.
 *  flags: 1 keep leaf records, 2 log events (linear runs), 4 run `pre` only, 8 no shape checks in `pre`,
 *         16 monitor 0 also writes to the file named by argv[2] (linear runs), 32 verdicts need not be in order,
 *         bits 8..15 mw = words per truth mask (1..16; 0 means 1)
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <link.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <unistd.h>

#define MAGIC 0x52325532u
#define MAXF 300
#define MAXW 16
#define MAXM 2
#define MAXSEG 8
#define MAXD 64

enum { ST_OK = 0, ST_ORDER = 1, ST_LATE = 2, ST_HANG = 3, ST_CRASH = 4, ST_STATUS = 5, ST_BADID = 6, ST_FLOOD = 7, ST_LOADFAIL = 8, ST_NODES = 9 };
enum { A_LOAD = 0, A_STEP, A_BOOL, A_INT, A_FLOAT, A_STR, A_CLOCK, A_SOFT, A_HARD, A_REPEAT };

typedef struct { uint32_t op, mon, idx, pad; union { int32_t i; double f; char s[8]; uint64_t u; } v; } action_t;

static int nmon;
static int (*f_load)(int, uint8_t *, uint32_t), (*f_step)(int);
static void (*f_bool)(int, uint32_t, int), (*f_int)(int, uint32_t, int32_t), (*f_float)(int, uint32_t, double), (*f_str)(int, uint32_t, char *), (*f_reset)(int, int), (*f_file)(int, void *);

static struct { char *base; size_t len; } seg[MAXSEG]; static int nseg; static size_t segtotal;
static char *init_img;
static char *stack_img[MAXD + 2];
/* bookkeeping of one path, all in one block so that it is saved with the state: for each monitor
 * steps, then per formula {next, T[mw], F[mw]} */
static uint64_t *bk, *stack_bk[MAXD + 2]; static size_t bkwords, bkoff[MAXM]; static uint32_t mw, base; /* masks start at time `base` */
#define STEPS(m) bk[bkoff[m]]
#define FST(m, f) (bk + bkoff[m] + 1 + (size_t)(f) * (1 + 2 * mw))
static uint32_t nf[MAXM]; static int32_t dl[MAXM][MAXF];
static int curmon;
static uint32_t path[4096]; static volatile int pathlen; static uint32_t st, st_mon, st_f, st_t;
static uint64_t n_nodes, n_steps, n_events, n_round, maxnodes; static volatile uint64_t tick; static int inpre;
static uint32_t flags; static int logging;
static uint32_t *evlog; static size_t nev, capev;
static uint64_t *leaf; static size_t nleafw, capleaf, nleaf;
static uint8_t **spec; static uint32_t nspec, *speclen;
static action_t *pre; static uint32_t npre;
static struct { uint32_t na; action_t *a; } *let; static uint32_t nlet, depth;

__attribute__((no_sanitize("address"), noinline)) static void rawcopy(char *d, const char *s, size_t n) {
  __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n)::"memory");
}
__attribute__((no_sanitize("address"))) static void save(char *img) { for (int i = 0; i < nseg; i++) { rawcopy(img, seg[i].base, seg[i].len); img += seg[i].len; } }
__attribute__((no_sanitize("address"))) static void restore(char *img) { for (int i = 0; i < nseg; i++) { rawcopy(seg[i].base, img, seg[i].len); img += seg[i].len; } }

static void wr(const void *p, size_t n) { const char *c = p; while (n) { ssize_t k = write(1, c, n); if (k <= 0) _exit(3); c += k; n -= (size_t)k; } }
static void rd(void *p, size_t n) { char *c = p; while (n) { ssize_t k = read(0, c, n); if (k <= 0) _exit(0); c += k; n -= (size_t)k; } }
static uint32_t r32(void) { uint32_t x; rd(&x, 4); return x; }

static void reply(void) {
  uint32_t h[6] = {MAGIC, st, st_mon, st_f, st_t, (uint32_t)pathlen}; wr(h, sizeof h); wr(path, 4u * (uint32_t)pathlen);
  uint64_t c[6] = {n_nodes, n_steps, n_events, n_round, nleaf, nev}; wr(c, sizeof c);
  wr(leaf, 8 * nleafw); wr(evlog, 16 * nev);
}
static void die(uint32_t s) { st = s; st_mon = (uint32_t)curmon; nleaf = 0; nleafw = 0; reply(); _exit(0); }
static void on_alarm(int s) { (void)s; static uint64_t last = ~0ull; static int same; if (last == tick) { if (++same >= 3) die(ST_HANG); } else { same = 0; last = tick; } }
static void on_crash(int s) { st_t = (uint32_t)s; die(ST_CRASH); }
static void death(void) { st_t = 999; die(ST_CRASH); }
static void bad(uint32_t s, uint32_t f, uint32_t t) { if (!st) { st = s; st_mon = (uint32_t)curmon; st_f = f; st_t = t; } }

static void cb(uint32_t f, uint32_t t, int truth) {
  n_events++;
  if (logging) {
    if (nev == capev) { capev = capev ? capev * 2 : 1024; evlog = realloc(evlog, capev * 16); }
    uint32_t *e = evlog + 4 * nev++; e[0] = (uint32_t)curmon | ((uint32_t)STEPS(curmon) << 1); e[1] = f; e[2] = t; e[3] = (uint32_t)truth;
  }
  if (++n_round > 20000) { die(ST_FLOOD); }
  if (inpre == 2) return;
  if (f >= nf[curmon]) { bad(ST_BADID, f, t); return; }
  uint64_t *x = FST(curmon, f);
  uint64_t *w = truth ? x + 1 : x + 1 + mw;
  if (t < x[0]) {
    if (!(flags & 32)) bad(ST_ORDER, f, t);
    else if (t >= base && t - base < 64 * mw) w[(t - base) >> 6] |= 1ull << ((t - base) & 63);
    return;
  }
  for (uint64_t k = x[0] > base ? x[0] - base : 0; t >= base && k <= t - base && k < 64ull * mw; k++) w[k >> 6] |= 1ull << (k & 63);
  x[0] = (uint64_t)t + 1;
}
static void act(action_t *a) {
  int m = (int)a->mon; curmon = m; tick++;
  switch (a->op) {
    case A_LOAD: memset(bk + bkoff[m], 0, 8 * (1 + nf[m] * (1 + 2 * (size_t)mw))); if (f_load(m, spec[a->idx], speclen[a->idx]) != 0) bad(ST_LOADFAIL, a->idx, 0); break;
    case A_STEP: {
      n_round = 0; n_steps++;
      int r = f_step(m); if (r != 0) bad(ST_STATUS, 0, (uint32_t)r);
      uint32_t s = (uint32_t)STEPS(m)++;
      if (inpre == 2) break;
      for (uint32_t f = 0; f < nf[m]; f++) if (dl[m][f] >= 0 && (int64_t)FST(m, f)[0] <= (int64_t)s - dl[m][f]) bad(ST_LATE, f, (uint32_t)FST(m, f)[0]);
      break; }
    case A_BOOL: f_bool(m, a->idx, a->v.i); break;
    case A_INT: f_int(m, a->idx, a->v.i); break;
    case A_FLOAT: f_float(m, a->idx, a->v.f); break;
    case A_STR: { char b[16]; memcpy(b, a->v.s, 8); b[8] = 0; f_str(m, a->idx, b); break; }
    case A_CLOCK: f_reset(m, 0); break;
    case A_SOFT: f_reset(m, 1); break;
    case A_HARD: f_reset(m, 2); break;
  }
}
static void putleaf(void) {
  nleaf++;
  if (!(flags & 1)) return;
  for (int m = 0; m < nmon; m++) for (uint32_t f = 0; f < nf[m]; f++) {
    if (nleafw + 2 * mw > capleaf) { capleaf = capleaf ? capleaf * 2 : 1 << 16; leaf = realloc(leaf, capleaf * 8); }
    memcpy(leaf + nleafw, FST(m, f) + 1, 16 * mw); nleafw += 2 * mw;
  }
}
static void dfs(uint32_t d) {
  if (st) return;
  if (d == depth) { putleaf(); return; }
  if (maxnodes && n_nodes > maxnodes) { bad(ST_NODES, 0, 0); return; }
  if (nlet > 1) { save(stack_img[d]); memcpy(stack_bk[d], bk, 8 * bkwords); }
  for (uint32_t l = 0; l < nlet; l++) {
    if (l) { restore(stack_img[d]); memcpy(bk, stack_bk[d], 8 * bkwords); }
    path[d] = l; pathlen = (int)d + 1; n_nodes++;
    for (uint32_t i = 0; i < let[l].na; i++) act(&let[l].a[i]);
    if (st) return;
    dfs(d + 1);
    if (st) return;
    pathlen = (int)d;
  }
}
static int phdr(struct dl_phdr_info *i, size_t sz, void *data) {
  (void)sz;
  if (!i->dlpi_name || !strstr(i->dlpi_name, (char *)data)) return 0;
  for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_W) && nseg < MAXSEG) {
    seg[nseg].base = (char *)i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; seg[nseg].len = i->dlpi_phdr[k].p_memsz; segtotal += seg[nseg].len; nseg++;
  }
  return 1;
}
#define SYM(v, n) do { *(void **)&v = dlsym(h, n); if (!v) { fprintf(stderr, "missing %s\n", n); return 2; } } while (0)
extern void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));
int main(int argc, char **argv) {
  if (argc < 2) return 2;
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_LOCAL); if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  int (*f_nmon)(void); void (*f_init)(void (*)(uint32_t, uint32_t, int));
  SYM(f_load, "shim_load"); SYM(f_step, "shim_step"); SYM(f_bool, "shim_bool"); SYM(f_int, "shim_int"); SYM(f_float, "shim_float"); SYM(f_str, "shim_str"); SYM(f_reset, "shim_reset"); SYM(f_file, "shim_file");
  SYM(f_nmon, "shim_nmon"); SYM(f_init, "shim_init");
  nmon = f_nmon(); f_init(cb);
  dl_iterate_phdr(phdr, strrchr(argv[1], '/') ? strrchr(argv[1], '/') + 1 : argv[1]);
  if (!nseg) { fprintf(stderr, "no segments\n"); return 2; }
  init_img = malloc(segtotal); save(init_img);
  for (int i = 0; i < MAXD + 2; i++) stack_img[i] = malloc(segtotal);
  if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(death);
  else { static char alt[65536]; stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt}; sigaltstack(&ss, 0);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK;
    sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0); sigaction(SIGFPE, &sa, 0); sigaction(SIGABRT, &sa, 0); sigaction(SIGILL, &sa, 0); }
  signal(SIGPROF, on_alarm);
  struct itimerval tv = {{0, 700000}, {0, 700000}}; setitimer(ITIMER_PROF, &tv, 0);
  for (;;) {
    tick++;
    if (r32() != MAGIC) return 4;
    nspec = r32(); spec = calloc(nspec + 1, sizeof *spec); speclen = calloc(nspec + 1, 4);
    for (uint32_t i = 0; i < nspec; i++) { speclen[i] = r32(); spec[i] = malloc(speclen[i] ? speclen[i] : 1); rd(spec[i], speclen[i]); }
    npre = r32(); pre = calloc(npre + 1, sizeof *pre); rd(pre, npre * sizeof *pre);
    nlet = r32(); let = calloc(nlet + 1, sizeof *let);
    for (uint32_t i = 0; i < nlet; i++) { let[i].na = r32(); let[i].a = calloc(let[i].na + 1, sizeof(action_t)); rd(let[i].a, let[i].na * sizeof(action_t)); }
    depth = r32(); flags = r32(); base = r32();
    for (int m = 0; m < nmon; m++) { nf[m] = r32(); if (nf[m] > MAXF) return 5; rd(dl[m], 4 * nf[m]); }
    rd(&maxnodes, 8);
    mw = (flags >> 8) & 255; if (!mw) mw = 1; if (mw > MAXW || depth > MAXD) return 6;
    bkwords = 0; for (int m = 0; m < nmon; m++) { bkoff[m] = bkwords; bkwords += 1 + nf[m] * (1 + 2 * (size_t)mw); }
    bk = calloc(bkwords, 8); for (uint32_t i = 0; i <= depth; i++) stack_bk[i] = malloc(8 * bkwords);
    st = st_mon = st_f = st_t = 0; pathlen = 0; n_nodes = n_steps = n_events = n_round = 0; nev = nleafw = nleaf = 0; curmon = 0;
    logging = (flags & 2) != 0; inpre = (flags & 8) ? 2 : 0;
    restore(init_img);
    FILE *of = 0; if ((flags & 16) && argc > 2) { of = fopen(argv[2], "w"); if (!of) return 7; f_file(0, of); }
    for (uint32_t i = 0; i < npre; i++) { if (pathlen < 4096 && (flags & 4)) path[pathlen++] = i; 
      if (pre[i].op == A_REPEAT) { /* the idx actions that follow, v.i times */
        for (int32_t k = 0; k < pre[i].v.i && (inpre == 2 || !st); k++) for (uint32_t j = 1; j <= pre[i].idx && i + j < npre; j++) act(&pre[i + j]);
        i += pre[i].idx; continue;
      }
      act(&pre[i]); if (inpre != 2 && st) break; }
    if (!(flags & 4)) pathlen = 0;
    inpre = 0;
    if (flags & 8) { st = 0; }
    if (!(flags & 4)) { if (!st) dfs(0); }
    if (of) fclose(of);
    reply();
    for (uint32_t i = 0; i < nspec; i++) free(spec[i]);
    for (uint32_t i = 0; i < nlet; i++) free(let[i].a);
    free(bk); for (uint32_t i = 0; i <= depth; i++) free(stack_bk[i]);
    free(spec); free(speclen); free(pre); free(let);
  }
}
