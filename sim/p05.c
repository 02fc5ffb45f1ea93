#include "labs.h"
// P05: every random choice comes from the installed source. Three executions of the same calls see the
// same source bits but different ambient generators, clocks, memory and earlier work; they must agree.
enum { C_SRC, C_BE, C_SEED, C_PRE, C_FILL };
enum { O_REINSTALL = L_N, O_FRESH, O_N };
static const char *const ops[] = { LAB_NAMES, "install_source", "other_bits" };
enum { S_FUN, S_FILE, S_DET, S_N };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_SRC] = rng_n(r, S_N); p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_SEED] = rng_n(r, 1 << 20); p->cfg[C_PRE] = rng_n(r, 4); p->cfg[C_FILL] = rng_n(r, 4);
  int budget = 6 + (int)rng_n(r, 12);
  while (budget > 0) {
    u32 k = rng_n(r, 10);
    if (k == 0) { plan_add(p, O_REINSTALL, 0, rng_n(r, S_N), rng_next(r) >> 40, 0, 0); budget--; continue; }
    if (k == 1) { plan_add(p, O_FRESH, 0, 0, rng_next(r), rng_next(r), 0); budget -= 3; continue; }
    int l = lab_pick(r, L_ALL & ~LM(L_HILBERT)); plan_add(p, l, 0, 0, rng_next(r), 0, 0); budget -= lab_cost(l) < 10 ? lab_cost(l) : 8;
  }
}
static rsrc_t rs; static ffile_t ff;
static void install(int k, u64 seed) {
  if (k == S_FUN) { rsrc_init(&rs, seed); rsrc_install(&rs); count("probe.source_function"); }
  else if (k == S_FILE) { ffile_clear(); memset(&ff, 0, sizeof ff); ff.noise = 1; ff.r.s = seed; ff.fail_at = ff.eof_at = (size_t)-1; ffile_register("/sim/entropy", &ff); pbc_random_set_file("/sim/entropy"); count("probe.source_file"); }
  else { pbc_random_set_deterministic((unsigned)seed); count("probe.source_seeded"); }
}
static void lab(u64 seed, int kind, int be, int notr, lab_t *L) { memset(L, 0, sizeof *L); L->seed = seed; L->be = be; L->notr = notr; lab_run(L, kind); }
static void run_(plan_t *p, int v); static void run(plan_t *p, int v) { volatile char *pad = __builtin_alloca(16 * (1 + mix(p->seed, 31 + (u64)v) % 3000)); *pad = 1; run_(p, v); } // the stack lies elsewhere, too
__attribute__((noinline)) static void run_(plan_t *p, int v) {
  stdout_mute(); lab_t L;
  static const int fl[3] = { FILL_ZERO, FILL_NOISE, FILL_FF };
  amode_t m = { fl[v], v & 1, v == 2 ? 1 : 0, p->seed + (u64)v }; arena_install(&m);
  ambient_rand(mix(p->seed, 77 + (u64)v)); clock_fake = 1; clock_us = (long long)(mix(p->seed, (u64)v) >> 20);
  count("fault.ambient_change");
  // work done before the source is installed: other source, other draws, different in every variant
  rng_t h; rng_init(&h, mix(p->seed, 900 + (u64)v));
  if (p->cfg[C_PRE] && v) { install((int)rng_n(&h, S_N), rng_next(&h) >> 40); for (int i = 0; i < p->cfg[C_PRE]; i++) lab(rng_next(&h), lab_pick(&h, L_ALL & ~(L_GENS | LM(L_PAIRREAL) | LM(L_TYPEI) | LM(L_HILBERT))), (int)p->cfg[C_BE], 1, &L); count("fault.different_history"); }
  install((int)p->cfg[C_SRC], (u64)p->cfg[C_SEED]);
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    if (e->op == O_REINSTALL) {
      if (v) { install((int)rng_n(&h, S_N), rng_next(&h) >> 40); lab(rng_next(&h), L_ZOO, (int)p->cfg[C_BE], 1, &L); } // unrelated draws from another source
      install((int)e->x % S_N, e->a);
    } else if (e->op == O_FRESH) { // the same calls with other source bits must give other values
      if (!v) { lab_t A, B; install((int)p->cfg[C_SRC], e->b & 0xffffff); lab(e->a, L_PAIR, (int)p->cfg[C_BE], 1, &A); install((int)p->cfg[C_SRC], (e->b & 0xffffff) + 1); lab(e->a, L_PAIR, (int)p->cfg[C_BE], 1, &B);
      if (A.rh == B.rh) sim_fail("bits-ignored", "random elements are the same for different source bits");
      count("probe.other_bits"); }
      install((int)p->cfg[C_SRC], e->b & 0xffff);
    } else { lab(e->a, e->op, (int)p->cfg[C_BE], 0, &L); state(mix(e->op, L.n)); count_n("probe.observations", L.n); }
  }
  ev_begin(p->n, NULL);
}
scen_t scen_p05 = { "P05", "single source of randomness", 3, gen, run, ops, O_N,
  "all of libpbc including parameter generation and the three kinds of random source; GMP",
  "random function, entropy file, libc generator, clock, allocator contents and placement",
  "distinct (workload, number of observations) pairs", 0, 0 };
