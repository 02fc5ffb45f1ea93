#include "world.h"
// P01: independent parties agree on every protocol value.
enum { C_FAM, C_NN, C_BE, C_ME = C_BE + 4, C_FILL = C_ME + 4, C_MOVE, C_REUSE };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FAM] = fam_pick(r, 1, 1, 14);
  int nn = (int)(p->cfg[C_NN] = 1 + rng_n(r, 3));
  for (int i = 0; i < 4; i++) { p->cfg[C_BE + i] = rng_n(r, 4); p->cfg[C_ME + i] = rng_n(r, 4); }
  p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_MOVE] = rng_n(r, 2); p->cfg[C_REUSE] = 1 + rng_n(r, 2);
  const fam_t *f = &fams[p->cfg[C_FAM]];
  int nev = f->type == 'i' ? 12 : f->toy ? 20 + (int)rng_n(r, 60) : 8 + (int)rng_n(r, 10);
  world_gen(r, p, nev, nn);
}
static void run(plan_t *p, int v) {
  (void)v;
  static world_t w;
  amode_t m = { (int)p->cfg[C_FILL], (int)p->cfg[C_MOVE], (int)p->cfg[C_REUSE], p->seed };
  arena_install(&m);
  int be[4], me[4];
  for (int i = 0; i < 4; i++) { be[i] = (int)p->cfg[C_BE + i]; me[i] = (int)p->cfg[C_ME + i]; }
  int nn = (int)p->cfg[C_NN]; if (nn < 1) nn = 1;
  world_init(&w, &fams[p->cfg[C_FAM] % nfams], p->seed, nn, be, me, 1);
  count(w.f->toy ? "config.toy_params" : "config.real_params");
  for (int i = 0; i < p->n; i++) { ev_begin(i, &p->ev[i]); world_event(&w, &p->ev[i]); state(world_state(&w)); }
  ev_begin(p->n, NULL);
  world_check_all(&w);
  world_clear(&w);
}
scen_t scen_p01 = { "P01", "ledger of parties", 1, gen, run, world_ops, W_NOPS,
  "all of libpbc (arith, ecc, misc) compiled from the tree; GMP",
  "network, disk, process restarts, random source and allocator are simulated; reference curve arithmetic, exponent ledger",
  "distinct (family, per-party up/backend/method, identity pattern of all slots, in-flight count) tuples", 6000, 400000 };
