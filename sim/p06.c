#include "labs.h"
// P06: an allocation failure always ends in a diagnostic and the fatal status.
enum { C_BE, C_PERSIST, C_QUIET };
static const char *const ops[] = { LAB_NAMES };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_PERSIST] = rng_n(r, 2);
  int n = (int)rng_n(r, 3), l; // warm-up, then the workload that runs out of memory
  for (int i = 0; i < n; i++) { do l = lab_pick(r, L_ALL); while (lab_cost(l) > 5); plan_add(p, l, 0, 0, rng_next(r), 0, 0); }
  l = lab_pick(r, L_ALL); u64 k = 1 + (rng_next(r) % (1ull << rng_n(r, 14)));
  plan_add(p, l, 0, 1, rng_next(r), k, 0);
}
static rsrc_t rs; static int dead_op;
static void died(int code) {
  char b[2000]; size_t n = errcap_read(b, sizeof b - 1); b[n] = 0;
  if (code != 128) sim_fail("status", "ended with status %d after an allocation failed in %s", code, ops[dead_op]);
  if (!strstr(b, "fatal")) sim_fail("silent", "no fatal message after an allocation failed in %s, only: %s", ops[dead_op], b);
  count("probe.stopped_with_message"); state(mix((u64)dead_op, wrap_malloc_count)); trace(hash_bytes(b, n, 1));
  sim_done();
}
static void run(plan_t *p, int v) {
  (void)v; stdout_mute(); wrap_track = 1;
  amode_t m = { FILL_A5, 0, 1, p->seed }; arena_mode(&m);
  rsrc_init(&rs, p->seed); rsrc_install(&rs);
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e); dead_op = e->op;
    if (e->x) { exit_expected = 1; exit_hook = died; errcap_reset(); wrap_fail_persist = (int)p->cfg[C_PERSIST]; wrap_fail_at = wrap_malloc_count + (long)e->b; }
    lab_t L; memset(&L, 0, sizeof L); L.seed = e->a; L.be = (int)p->cfg[C_BE]; lab_run(&L, e->op); trace(L.h);
    if (e->x) {
      long at = wrap_fail_at; wrap_fail_at = 0;
      if (wrap_malloc_count >= at) sim_fail("ignored", "allocation %ld of %s failed but the workload finished as if nothing had happened", (long)e->b, ops[e->op]);
      count("probe.not_reached");
    }
  }
  ev_begin(p->n, NULL);
}
scen_t scen_p06 = { "P06", "memory exhaustion", 1, gen, run, ops, L_N,
  "all of libpbc with its default allocators, in the ordinary and the memory-wiping build (there including GMP's storage)",
  "system malloc/realloc (fails at the chosen call, once or from then on), process exit, stderr capture, random source",
  "distinct (workload, position of the failing allocation) pairs", 0, 0 };
