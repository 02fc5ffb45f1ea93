#include "labs.h"
// P10: in the memory-wiping build every block is zero when it goes back to the system.
enum { C_BE, C_FILL, C_REUSE };
enum { O_RESIZE = L_N, O_RNG, O_N };
static const char *const ops[] = { LAB_NAMES, "resize_blocks", "biased_random" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_FILL] = 1 + rng_n(r, 3); p->cfg[C_REUSE] = rng_n(r, 3);
  int budget = 8 + (int)rng_n(r, 14);
  while (budget > 0) {
    u32 k = rng_n(r, 10);
    if (k == 0) { plan_add(p, O_RESIZE, 0, rng_n(r, 12), rng_next(r), 0, 0); budget--; continue; }
    if (k == 1) { plan_add(p, O_RNG, 0, rng_n(r, 40), rng_n(r, NRM), 0, 0); budget--; continue; }
    int l = lab_pick(r, L_ALL); plan_add(p, l, 0, 0, rng_next(r), 0, 0); budget -= lab_cost(l) < 10 ? lab_cost(l) : 8;
  }
}
static rsrc_t rs; static int checking; static u64 nblocks, nbytes;
static void on_free(void *q, size_t n) {
  if (!checking) return;
  const unsigned char *b = q; nblocks++; nbytes += n;
  for (size_t i = 0; i < n; i++) if (b[i]) sim_fail("not-wiped", "block of %zu bytes released with byte %zu = %02x", n, i, b[i]);
}
static void run(plan_t *p, int v) {
  (void)v; stdout_mute(); wrap_track = 1;
#ifdef SAFE_CLEAN
  checking = 1;
#endif
  wrap_free_hook = on_free;
  amode_t m = { (int)p->cfg[C_FILL], 0, (int)p->cfg[C_REUSE], p->seed }; arena_mode(&m);
  rsrc_init(&rs, p->seed); rsrc_install(&rs);
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    if (e->op == O_RNG) { rsrc_fault(&rs, (int)(e->a % NRM), (long)e->x + 1); continue; }
    if (e->op == O_RESIZE) { // grow, shrink and move blocks holding secrets, as the library's own lists do
      rng_t r; rng_init(&r, e->a); size_t n = 1 + rng_n(&r, 200); unsigned char *b = pbc_malloc(n); memset(b, 0x5e, n); mpz_t z; mpz_init(z); mpz_set_ui(z, 7);
      for (u32 k = 0; k < e->x; k++) {
        size_t n2 = 1 + rng_n(&r, rng_p(&r, 1, 2) ? 30 : 4000), keep = n < n2 ? n : n2; b = pbc_realloc(b, n2);
        for (size_t j = 0; j < keep; j++) if (b[j] != 0x5e) sim_fail("resize-lost", "byte %zu of %zu lost when resizing to %zu", j, n, n2);
        memset(b, 0x5e, n2); n = n2;
        if (rng_p(&r, 1, 2)) mpz_mul_2exp(z, z, rng_n(&r, 900)); else mpz_fdiv_q_2exp(z, z, rng_n(&r, 900)); if (rng_p(&r, 1, 3)) _mpz_realloc(z, (mp_size_t)(1 + mpz_size(z))); mpz_add_ui(z, z, 3);
      }
      trace(mpz_get_ui(z)); pbc_free(b); mpz_clear(z); char *s = pbc_strdup("secret"); pbc_free(s); count("probe.resizes"); continue;
    }
    lab_t L; memset(&L, 0, sizeof L); L.seed = e->a; L.be = (int)p->cfg[C_BE]; lab_run(&L, e->op); trace(L.h); state(mix(e->op, L.n));
  }
  if (checking) { count_n("probe.blocks_released", nblocks); count_n("probe.bytes_checked", nbytes); }
  ev_begin(p->n, NULL);
}
scen_t scen_p10 = { "P10", "wiping before release", 1, gen, run, ops, O_N,
  "all of libpbc with its default allocators in the memory-wiping build, including GMP's storage; the ordinary build for comparison",
  "system malloc/realloc/free (every released block inspected), random source",
  "distinct (workload, number of observations) pairs", 0, 0 };
