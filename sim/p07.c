#include "labs.h"
// P07: every block is released exactly once through the matching function, nothing is overrun, nothing remains.
enum { C_FILL, C_MOVE, C_REUSE, C_BE };
enum { O_RNG = L_N, O_FILE, O_DET, O_N };
static const char *const ops[] = { LAB_NAMES, "biased_random", "entropy_file", "seeded_generator" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_MOVE] = rng_n(r, 2); p->cfg[C_REUSE] = rng_n(r, 3); p->cfg[C_BE] = rng_n(r, 4);
  int budget = 10 + (int)rng_n(r, 20);
  while (budget > 0) {
    u32 k = rng_n(r, 12);
    if (k == 0) { plan_add(p, O_RNG, 0, rng_n(r, 60), rng_n(r, NRM), 0, 0); budget--; continue; }
    if (k == 1) { plan_add(p, O_FILE, 0, rng_n(r, 5), rng_next(r), rng_n(r, 40), 0); budget--; continue; }
    if (k == 2 && rng_p(r, 1, 3)) { plan_add(p, O_DET, 0, rng_n(r, 5), 0, 0, 0); continue; }
    int l = lab_pick(r, L_ALL); plan_add(p, l, 0, 0, rng_next(r), 0, 0); budget -= lab_cost(l);
  }
}
static rsrc_t rs; static ffile_t ff;
static void run(plan_t *p, int v) {
  (void)v; stdout_mute();
  amode_t m = { (int)p->cfg[C_FILL], (int)p->cfg[C_MOVE], (int)p->cfg[C_REUSE], p->seed }; arena_install(&m);
  wrap_track = 1;
  rsrc_init(&rs, p->seed); rsrc_install(&rs);
  u64 held = 0; // the seeded generator keeps its state for the life of the process
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    u64 b0 = arena_live(0), b1 = arena_live(1), b2 = arena_live(2), mark = arena_mark();
    if (e->op < L_N) { lab_t L; memset(&L, 0, sizeof L); L.seed = e->a; L.be = (int)p->cfg[C_BE]; lab_run(&L, e->op); state(mix(e->op, L.n)); trace(L.h); count_n("probe.observations", L.n); }
    else if (e->op == O_RNG) { rsrc_fault(&rs, (int)(e->a % NRM), (long)e->x + 1); continue; }
    else if (e->op == O_DET) { pbc_random_set_deterministic((unsigned)e->x); mpz_t z, l; mpz_init(z); mpz_init_set_ui(l, 1000); pbc_mpz_random(z, l); mpz_clear(z); mpz_clear(l); rsrc_install(&rs); held++; count("probe.deterministic_generator"); continue; }
    else { // a draw from a file that cannot be opened, ends early or fails
      memset(&ff, 0, sizeof ff); ff.noise = 1; ff.r.s = e->a; ff.fail_at = ff.eof_at = (size_t)-1; ffile_clear(); ffile_register("/sim/entropy", &ff);
      if (e->x == 0) ff.open_fails = 1; if (e->x == 1) ff.eof_at = e->b; if (e->x == 2) ff.fail_at = e->b; if (e->x == 3) ff.fail_reads = 1;
      pbc_random_set_file("/sim/entropy"); mpz_t z, l; mpz_init(z); mpz_init(l); mpz_setbit(l, 60 + (e->a >> 8) % 400); pbc_mpz_random(z, l); pbc_mpz_randomb(z, (unsigned)(e->a >> 20) % 300); mpz_clear(z); mpz_clear(l);
      if (ff.opens != ff.closes) sim_fail("open-files", "%ld entropy files opened, %ld closed", ff.opens, ff.closes);
      rsrc_install(&rs); ffile_clear();
    }
    arena_check_all("after the workload");
    if (arena_live(0) != b0 || arena_live(1) != b1 || arena_live(2) != b2) {
      char b[400]; arena_live_since(mark, b, sizeof b);
      char cls[64]; snprintf(cls, 64, "leak:%s", ops[e->op]); sim_fail(cls, "%s (a=%llx): %lld library, %lld bignum, %lld system blocks remain after everything was cleared:%s", ops[e->op] ? ops[e->op] : "entropy", (unsigned long long)e->a, (long long)(arena_live(0) - b0), (long long)(arena_live(1) - b1), (long long)(arena_live(2) - b2), b);
    }
  }
  ev_begin(p->n, NULL);
}
scen_t scen_p07 = { "P07", "block accounting", 1, gen, run, ops, O_N,
  "all of libpbc (pairing sessions, fields, generation, parsing, codecs, printing, searches); GMP",
  "allocator (counting, red zones, moves, reuse, poisoned fresh and released blocks), random source, entropy files",
  "distinct (workload, number of observations) pairs", 0, 0 };
