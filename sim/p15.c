#include "world.h"
#include "zoo.h"
// P15: precomputed pairing and power objects against the direct operations, through long
// histories in which originals are changed, cleared and their storage reused.
enum { C_FILL, C_REUSE, C_BE, C_MOVE };
enum { O_OPEN, O_CLOSE, O_MUTATE, O_PPMAP, O_PPPOW, O_MAP, O_POW, O_DROP, O_RNG, O_CHURN, O_N };
static const char *const ops[] = { "open_system", "close_system", "change_original", "precompute_pairing", "precompute_power", "apply", "power", "clear_precomputed", "biased_random", "other_work" };
enum { NSYS = 3, NEL = 3, NPP = 10 };
typedef struct { int up, zoo; const fam_t *f; pairing_t pr; zoo_t z; element_t e[4][NEL]; } sys_t;
typedef struct { int kind, s, g; element_t ref; pairing_pp_t mp; element_pp_t pp; u64 uses; } obj_t;
static sys_t S[NSYS]; static obj_t O[NPP]; static rsrc_t rs; static int be;

static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_REUSE] = rng_n(r, 3); p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_MOVE] = rng_n(r, 2);
  int n = 20 + (int)rng_n(r, 60);
  static const int w[] = { 3, 1, 10, 8, 8, 16, 18, 4, 1, 1 };
  plan_add(p, O_OPEN, 0, rng_p(r, 1, 60), rng_next(r), rng_n(r, 5), 0);
  for (int i = 0; i < n; i++) {
    int t = (int)rng_n(r, 70), k = 0; while (t >= w[k]) t -= w[k++];
    plan_add(p, k, (int)rng_n(r, NSYS), (u32)(rng_next(r) >> 32), rng_next(r), rng_next(r), rng_next(r));
    if (k == O_OPEN) { p->ev[p->n - 1].x = rng_p(r, 1, 60); p->ev[p->n - 1].b = rng_n(r, 5); }
  }
}
static int ngroups(sys_t *s) { return s->zoo ? 1 : 4; }
static field_ptr grp(sys_t *s, int g) { return s->zoo ? s->z.F : world_field(s->pr, g); }
static void obj_drop(obj_t *o) {
  if (!o->kind) return;
  if (o->kind == 1) pairing_pp_clear(o->mp); else element_pp_clear(o->pp);
  element_clear(o->ref); o->kind = 0; count("probe.cleared");
}
static void sys_close(int i) {
  sys_t *s = &S[i]; if (!s->up) return;
  for (int k = 0; k < NPP; k++) if (O[k].kind && O[k].s == i) obj_drop(&O[k]);
  for (int g = 0; g < ngroups(s); g++) for (int k = 0; k < NEL; k++) element_clear(s->e[g][k]);
  if (s->zoo) zoo_close(&s->z); else pairing_clear(s->pr);
  s->up = 0;
}
static void fresh(sys_t *s, int g, element_ptr e, rng_t *r) {
  int k = (int)rng_n(r, 10);
  if (k == 0) element_set0(e); else if (k == 1) element_set1(e);
  else if (k < 4 && (s->zoo || s->f->type != 'i')) { unsigned char b[20]; for (int i = 0; i < 20; i++) b[i] = (unsigned char)rng_next(r); if (!s->zoo || s->z.caps & ZC_HASH) element_from_hash(e, b, 20); else element_random(e); }
  else element_random(e);
  (void)g;
}
static void sys_open(int i, const ev_t *e) {
  sys_close(i); sys_t *s = &S[i]; rng_t r; rng_init(&r, e->a); pbc_tweak_use_fp(backends[be]);
  s->zoo = e->b == 4;
  if (s->zoo) { static const int ks[] = { ZK_FP, ZK_FP, ZK_FI, ZK_QUAD, ZK_PMOD, ZK_PMODQ, ZK_QPMOD, ZK_GF3, ZK_GF32 }; zoo_open(&s->z, ks[rng_n(&r, 9)], rng_next(&r), be, 160); }
  else {
    s->f = &fams[fam_pick(&r, 1, (int)e->x, 1)]; if (pairing_init_set_str(s->pr, s->f->text)) sim_fail("load", "good parameters rejected");
    int m = (int)rng_n(&r, (u32)nmethods(s->f)); if (m) pairing_option_set(s->pr, "method", method_name(s->f, m));
  }
  s->up = 1;
  for (int g = 0; g < ngroups(s); g++) for (int k = 0; k < NEL; k++) { element_init(s->e[g][k], grp(s, g)); fresh(s, g, s->e[g][k], &r); }
}
static int slot(void) { for (int k = 0; k < NPP; k++) if (!O[k].kind) return k; obj_drop(&O[0]); return 0; }
static obj_t *pick(u64 a, int kind) { for (int k = 0; k < NPP; k++) { obj_t *o = &O[(a + (u64)k) % NPP]; if (o->kind == kind) return o; } return NULL; }
static void same(sys_t *s, obj_t *o, element_ptr got, element_ptr want, const char *what) {
  if (element_cmp(got, want) || element_cmp(want, got)) sim_fail(what, "%s object for group %d of %s gives a different %s than the direct operation on the element it was made from (use %llu)", o->kind == 1 ? "pairing" : "power", o->g, s->zoo ? zoo_names[s->z.kind] : s->f->name, what, (unsigned long long)o->uses);
}
static void run(plan_t *p, int v) {
  (void)v; amode_t m = { (int)p->cfg[C_FILL], (int)p->cfg[C_MOVE], (int)p->cfg[C_REUSE], p->seed }; arena_install(&m);
  rsrc_init(&rs, p->seed); rsrc_install(&rs); be = (int)p->cfg[C_BE];
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e); rng_t r; rng_init(&r, e->a ^ 77);
    int si = e->who % NSYS; for (int k = 0; k < NSYS && !S[si].up; k++) si = (si + 1) % NSYS;
    sys_t *s = &S[si]; if (!s->up && e->op != O_OPEN && e->op != O_RNG) continue;
    int g = s->up ? (int)(e->b % (u64)ngroups(s)) : 0, k = (int)(e->c % NEL);
    switch (e->op) {
      case O_OPEN: sys_open(e->who % NSYS, e); break;
      case O_CLOSE: sys_close(si); break;
      case O_RNG: rsrc_fault(&rs, (int)(e->a % NRM), (long)(e->x % 30) + 1); break;
      case O_MUTATE: { element_ptr x = s->e[g][k]; rsrc_fault(&rs, RM_UNIFORM, 0);
        switch (e->x % 6) {
          case 0: element_set0(x); break;
          case 1: element_clear(x); element_init(x, grp(s, g)); fresh(s, g, x, &r); count("fault.original_cleared"); break;
          case 2: element_set(x, s->e[g][(k + 1) % NEL]); break;
          case 3: element_mul(x, x, s->e[g][(k + 1) % NEL]); break;
          case 4: if (s->zoo ? s->z.caps & ZC_FIN : 1) element_neg(x, x); break;
          default: fresh(s, g, x, &r); break;
        } count("fault.original_changed"); break; }
      case O_PPMAP: { if (s->zoo) break; obj_t *o = &O[slot()]; o->kind = 1; o->s = si; o->g = G1_; o->uses = 0; element_ptr x = s->e[G1_][k];
        element_init(o->ref, x->field); element_set(o->ref, x); pairing_pp_init(o->mp, x, s->pr); count("probe.pairing_objects");
        if (element_cmp(x, o->ref)) sim_fail("changed", "precomputation changed its element"); break; }
      case O_PPPOW: { obj_t *o = &O[slot()]; o->kind = 2; o->s = si; o->g = g; o->uses = 0; element_ptr x = s->e[g][k];
        element_init(o->ref, x->field); element_set(o->ref, x); element_pp_init(o->pp, x); count("probe.power_objects");
        if (element_cmp(x, o->ref)) sim_fail("changed", "precomputation changed its element"); break; }
      case O_MAP: { obj_t *o = pick(e->a, 1); if (!o) break; s = &S[o->s]; o->uses++;
        element_t want, in2; element_init_GT(want, s->pr); element_init_G2(in2, s->pr);
        element_set(in2, s->e[G2_][k]); if (e->x % 9 == 0) element_set0(in2);
        pairing_apply(want, o->ref, in2, s->pr);
        element_ptr out = s->e[GT_][e->x % NEL]; pairing_pp_apply(out, in2, o->mp); same(s, o, out, want, "pairing");
        if (e->x % 9 && element_cmp(in2, s->e[G2_][k])) sim_fail("changed", "applying changed the second argument");
        trace(element_is1(out) + 1); state(mix(mix((u64)s->f->type, (u64)s->f->toy), mix((u64)element_is0(o->ref), (u64)element_is0(in2) + 2 * (o->uses > 2))));
        if (element_is0(o->ref) || element_is0(in2)) count("probe.identity"); element_clear(want); element_clear(in2); count("probe.applied"); break; }
      case O_POW: { obj_t *o = pick(e->a, 2); if (!o) break; s = &S[o->s]; o->uses++;
        field_ptr F = grp(s, o->g); mpz_t x, n; mpz_init(x); mpz_init_set(n, F->order); if (mpz_sgn(n) <= 0) mpz_set_ui(n, 1000003);
        int kind = (int)(e->x % 8);
        switch (kind) {
          case 0: mpz_set_ui(x, 0); break; case 1: mpz_set(x, n); break; case 2: mpz_add_ui(x, n, 1 + (unsigned)rng_n(&r, 5)); break;
          case 3: mpz_mul_ui(x, n, 2 + rng_n(&r, 7)); mpz_add_ui(x, x, rng_n(&r, 3)); break;
          case 4: mpz_setbit(x, mpz_sizeinbase(n, 2)); if (rng_p(&r, 1, 2)) mpz_sub_ui(x, x, 1); else if (rng_p(&r, 1, 2)) mpz_fdiv_q_2exp(x, x, 1); break;
          case 5: mpz_ui_pow_ui(x, 2, (unsigned)mpz_sizeinbase(n, 2) * 3 + rng_n(&r, (s->zoo || s->f->toy) && rng_p(&r, 1, 6) ? 9500 : 64)); mpz_uniform(x, &r, x); break;
          default: mpz_edge(x, &r, n); break;
        }
        element_t want, t; element_init(want, F); element_init(t, F); element_ptr out = s->e[o->g][k];
        if (!s->zoo && kind >= 6 && e->x % 3 == 0) { element_ptr y = s->e[GZ][e->x % NEL]; element_to_mpz(x, y); if (o->g == GZ && y == out) { element_set(t, y); y = t; } element_pp_pow_zn(out, y, o->pp); }
        else element_pp_pow(out, x, o->pp);
        element_pow_mpz(want, o->ref, x); same(s, o, out, want, "power");
        if (mpz_sizeinbase(x, 2) < 80 || e->x % 16 == 3) { // and by plain repeated multiplication
          element_set1(t); for (long b = (long)mpz_sizeinbase(x, 2) - 1; b >= 0; b--) { element_mul(t, t, t); if (mpz_tstbit(x, (mp_bitcnt_t)b)) element_mul(t, t, o->ref); }
          same(s, o, out, t, "power"); }
        if (mpz_cmp(x, n) >= 0) count("probe.exponent_beyond_order"); if (!mpz_sgn(x)) count("probe.exponent_zero");
        trace(element_is1(out) + 3); state(mix(mix((u64)(s->zoo ? s->z.kind + 300 : s->f->type), (u64)o->g), mix((u64)kind, (u64)element_is1(o->ref) + 2 * (o->uses > 2))));
        mpz_clear(x); mpz_clear(n); element_clear(want); element_clear(t); count("probe.powered"); break; }
      case O_DROP: { obj_t *o = &O[e->a % NPP]; obj_drop(o); break; }
      case O_CHURN: { rng_t q; rng_init(&q, e->c); const fam_t *f = &fams[fam_pick(&q, 0, 0, 1)]; pairing_t pr; if (!pairing_init_set_str(pr, f->text)) { element_t a; element_init_G1(a, pr); element_random(a); pairing_pp_t x; pairing_pp_init(x, a, pr); element_pp_t y; element_pp_init(y, a); element_clear(a); pairing_pp_clear(x); element_pp_clear(y); pairing_clear(pr); } break; }
    }
  }
  for (int k = 0; k < NSYS; k++) sys_close(k);
  if (arena_live(0) || arena_live(1)) { char b[300]; arena_live_since(0, b, sizeof b); sim_fail("leak", "blocks remain after all precomputed objects were cleared:%s", b); }
  ev_begin(p->n, NULL);
}
scen_t scen_p15 = { "P15", "precomputation", 1, gen, run, ops, O_N,
  "pairings of all families and methods, all groups and finite fields, pairing and power precomputation",
  "allocator (fresh blocks filled, released storage reused), random source",
  "distinct (family or field, group, argument class, repeated use) combinations", 0, 0 };
