#include "kit.h"
#include "pbc_test.h"
#include <math.h>
// P16: elapsed time follows the clock.
enum { O_STEP, O_JUMP, O_READ, O_WORK, O_N };
static const char *const ops[] = { "clock_step", "clock_jump", "read", "work" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[0] = (int64_t)(rng_next(r) % 4000000000000000ull); // start, microseconds
  if (rng_p(r, 1, 6)) p->cfg[0] = (int64_t)rng_n(r, 3000000) - 1500000;
  int n = 3 + (int)rng_n(r, 60);
  for (int i = 0; i < n; i++) {
    u32 k = rng_n(r, 10);
    if (k < 4) plan_add(p, O_STEP, 0, 0, rng_next(r) % (u64)(1ull << (1 + rng_n(r, 40))), 0, 0);
    else if (k < 5) plan_add(p, O_JUMP, 0, rng_n(r, 2), rng_next(r) % (u64)(1ull << (1 + rng_n(r, 50))), 0, 0);
    else if (k < 9) plan_add(p, O_READ, 0, 0, 0, 0, 0);
    else plan_add(p, O_WORK, 0, 0, rng_next(r), 0, 0);
  }
}
static void run(plan_t *p, int v) {
  (void)v;
  amode_t m = { FILL_NOISE, 0, 1, p->seed }; arena_install(&m);
  rsrc_t rs; rsrc_init(&rs, p->seed); rsrc_install(&rs);
  clock_fake = 1; clock_us = p->cfg[0];
  long long first = 0, maxd = 1; int reads = 0;
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    switch (e->op) {
      case O_STEP: clock_us += (long long)e->a; sim_time(e->a / 1000000); break;
      case O_JUMP: if (e->x) { clock_us -= (long long)e->a; count("fault.clock_backward"); } else { clock_us += (long long)e->a; count("fault.clock_forward"); }
        if (clock_us < -2000000000000000ll) clock_us = -2000000000000000ll; break;
      case O_WORK: { mpz_t z; mpz_init_set_ui(z, 10007); field_t f; field_init_fp(f, z); element_t x; element_init(x, f); element_random(x); element_square(x, x); element_clear(x); field_clear(f); mpz_clear(z); break; }
      default: {
        double got = pbc_get_time();
        if (!reads++) { first = clock_us; if (got != 0) sim_fail("first", "the first reading is %.9g, not zero", got); break; }
        long long d = clock_us - first; double want = (double)d / 1e6;
        if (llabs(d) > maxd) maxd = llabs(d);
        double tol = 1e-6 + 8.0 * reads * 2.3e-16 * ((double)maxd / 1e6 + 1); // rounding of double sums
        if (!(fabs(got - want) <= tol)) sim_fail("elapsed", "elapsed time is %.9f, the clock moved %.6f seconds (reading %d)", got, want, reads);
        count("probe.readings"); if (d < 0) count("probe.negative_elapsed");
        trace((u64)d);
      }
    }
    long long dd = clock_us - first; u64 mag = 0; for (long long q = llabs(dd); q; q >>= 2) mag++;
    state(mix((u64)(e->op * 4 + (dd < 0) * 2 + (reads > 1)), mag * 16 + (u64)((((clock_us % 1000000) + 1000000) % 1000000) < (((first % 1000000) + 1000000) % 1000000))));
  }
}
scen_t scen_p16 = { "P16", "clock", 1, gen, run, ops, O_N, "misc/get_time.c", "the system clock is simulated",
  "distinct (event, sign and magnitude of the elapsed time, sub-second borrow) tuples", 0, 0 };
