#include "labs.h"
#include "pbc_curve.h"
// P17: randomised algorithms checked against independent answers, under biased and stuck streams.
enum { C_BE, C_FILL };
enum { O_SQRT, O_NQR, O_ROOT, O_IRRED, O_DLOG, O_POINT, O_INIT, O_N };
static const char *const ops[] = { "square_roots", "non_residue", "find_root", "irreducible", "discrete_log", "random_points", "open_pairing" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_FILL] = rng_n(r, 4);
  int n = 4 + (int)rng_n(r, 10); static const int w[] = { 10, 4, 8, 5, 5, 5, 3 };
  for (int i = 0; i < n; i++) {
    int t = (int)rng_n(r, 40), k = 0; while (t >= w[k]) t -= w[k++];
    // b: how the stream misbehaves, c: for how many draws (0: it does not)
    plan_add(p, k, 0, (u32)rng_next(r), rng_next(r), rng_n(r, NRM), rng_p(r, 1, 3) ? 0 : 1 + rng_n(r, rng_p(r, 1, 2) ? 6 : 60));
  }
}
static rsrc_t rs;
static void arm(const ev_t *e) { rsrc_fault(&rs, e->c ? (int)e->b : RM_UNIFORM, (long)e->c); rs.draws = 0; rs.budget = (long)e->c + 60000; }
// ---- independent helpers ----
static void slow_pow(element_ptr out, element_ptr a, const mpz_t n) { // multiplication only
  element_t t; element_init(t, a->field); element_set1(t);
  for (long b = (long)mpz_sizeinbase(n, 2) - 1; b >= 0; b--) { element_mul(t, t, t); if (mpz_tstbit(n, (mp_bitcnt_t)b)) element_mul(t, t, a); }
  element_set(out, t); element_clear(t);
}
static int euler(element_ptr a) { // 0 zero, 1 square, -1 not
  if (element_is0(a)) return 0;
  mpz_t z; mpz_init(z); mpz_sub_ui(z, a->field->order, 1); mpz_fdiv_q_2exp(z, z, 1);
  element_t t; element_init(t, a->field); slow_pow(t, a, z); int s = element_is1(t) ? 1 : -1; element_clear(t); mpz_clear(z); return s;
}
static void set_uniform(element_ptr e, rng_t *r) { // independent of the library's random source
  int m = element_item_count(e);
  if (m) { for (int i = 0; i < m; i++) set_uniform(element_item(e, i), r); return; }
  mpz_t t; mpz_init(t); mpz_edge(t, r, e->field->order); element_set_mpz(e, t); mpz_clear(t);
}
static void big2_prime(mpz_t p, rng_t *r) { // p - 1 divisible by a high power of two
  for (;;) { mpz_set_ui(p, 1 + 2 * (u64)rng_n(r, 1u << (1 + rng_n(r, 16)))); mpz_mul_2exp(p, p, 3 + rng_n(r, 90)); mpz_add_ui(p, p, 1); if (mpz_probab_prime_p(p, 25)) return; }
}
static void pick_prime(mpz_t p, rng_t *r, int kind, int maxb) {
  static const int b[] = { 2, 3, 3, 4, 5, 8, 13, 31, 33, 48, 64, 65, 80, 128, 160 };
  if (kind != 3 && rng_p(r, 1, 4)) { do big2_prime(p, r); while (mpz_sizeinbase(p, 2) > (size_t)maxb); return; }
  int bits; do bits = b[rng_n(r, 15)]; while (bits > maxb);
  zoo_prime(p, rng_next(r), bits, kind);
}
// ---- towers ----
enum { T_FP, T_FI, T_QUAD, T_PMOD, T_QQ, T_QPMOD, T_PMODQ, T_GF3, T_N };
static const char *const tname[] = { "Fp", "Fi", "quadratic", "polymod", "quadratic over quadratic", "quadratic over polymod", "polymod over quadratic", "gf3m" };
typedef struct { int kind, nf, np; field_t f[5]; element_t poly; field_ptr F; mpz_t p; } tow_t;
static void open_poly(tow_t *t, rng_t *r, int deg) { // t->F[x] / irreducible found with the library's own stream
  field_init_poly(t->f[t->nf], t->F); element_init(t->poly, t->f[t->nf]); t->nf++; t->np = 1;
  for (int k = 0;; k++) { if (k & 1 || rng_p(r, 1, 2)) poly_random_monic(t->poly, deg); else { element_t c; element_init(c, t->F); element_set0(t->poly); poly_set_coeff1(t->poly, deg); set_uniform(c, r); if (!element_is0(c)) poly_set_coeff(t->poly, c, 0); set_uniform(c, r); if (!element_is0(c)) poly_set_coeff(t->poly, c, 1); element_clear(c); } if (poly_is_irred(t->poly)) break; }
  field_init_polymod(t->f[t->nf], t->poly); t->F = t->f[t->nf++];
}
static void choose_nqr(field_ptr f, rng_t *r) {
  if (rng_p(r, 1, 2)) return; // let the library draw one when it needs it
  element_t e; element_init(e, f); do set_uniform(e, r); while (euler(e) != -1);
  field_set_nqr(f, e); if (rng_p(r, 1, 3)) field_set_nqr(f, e); element_clear(e); count("probe.chosen_nonresidue");
}
static void tow_open(tow_t *t, rng_t *r, int kind, int be) {
  memset(t, 0, sizeof *t); t->kind = kind; mpz_init(t->p); pbc_tweak_use_fp(backends[be & 3]);
  if (kind == T_GF3) { static const unsigned mt[][2] = { { 97, 12 }, { 163, 80 } }; u32 k = rng_n(r, 2); field_init_gf3m(t->f[0], mt[k][0], mt[k][1]); t->nf = 1; t->F = t->f[0]; return; }
  pick_prime(t->p, r, kind == T_FI ? 3 : 0, kind == T_FP ? 200 : kind >= T_QPMOD ? 70 : 130);
  field_init_fp(t->f[0], t->p); t->nf = 1; t->F = t->f[0];
  if (kind == T_FP) { choose_nqr(t->F, r); return; }
  if (kind == T_FI) { field_init_fi(t->f[1], t->F); t->F = t->f[1]; t->nf = 2; if (rng_p(r, 1, 2)) choose_nqr(t->f[0], r); return; }
  if (kind == T_PMOD) { open_poly(t, r, 2 + (int)rng_n(r, 5)); return; }
  if (kind == T_QPMOD) { open_poly(t, r, 3); choose_nqr(t->F, r); }
  else choose_nqr(t->F, r);
  field_init_quadratic(t->f[t->nf], t->F); t->F = t->f[t->nf++];
  if (kind == T_QQ) { choose_nqr(t->F, r); field_init_quadratic(t->f[t->nf], t->F); t->F = t->f[t->nf++]; }
  if (kind == T_PMODQ) open_poly(t, r, 2 + (int)rng_n(r, 2));
}
static void tow_close(tow_t *t) {
  for (int i = t->nf - 1; i >= 0; i--) { if (t->np && i > 0 && t->f[i - 1] == t->poly->field) { field_clear(t->f[i]); element_clear(t->poly); t->np = 0; continue; } field_clear(t->f[i]); }
  mpz_clear(t->p);
}
static void ev_char2(rng_t *r) { // F_2 and extensions: every element is a square
  static const unsigned char ir[][2] = { { 2, 3 }, { 3, 3 }, { 4, 3 }, { 5, 5 }, { 6, 3 }, { 7, 3 }, { 9, 17 } }; mpz_t p; mpz_init_set_ui(p, 2); field_t f2, fx, fe; field_init_naive_fp(f2, p); field_ptr F = f2; int ext = rng_p(r, 2, 3);
  if (ext) { int k = (int)rng_n(r, 7); field_init_poly(fx, f2); element_t f; element_init(f, fx); poly_set_coeff1(f, ir[k][0]); for (int i = 0; i < 8; i++) if (ir[k][1] >> i & 1) poly_set_coeff1(f, (unsigned)i); field_init_polymod(fe, f); element_clear(f); F = fe; }
  element_t a, b; element_init(a, F); element_init(b, F);
  for (int i = 0; i < 6; i++) {
    set_uniform(a, r); if (!element_is_sqr(a)) sim_fail("residue", "an element of a field of characteristic two is refused as a square");
    if (i & 1) { element_set(b, a); element_sqrt(b, b); } else element_sqrt(b, a); element_mul(b, b, b); if (element_cmp(a, b)) sim_fail("sqrt", "wrong square root in characteristic two");
  }
  element_clear(a); element_clear(b); if (ext) { field_clear(fe); field_clear(fx); } field_clear(f2); mpz_clear(p); count("probe.characteristic_two"); state(mix(1002, (u64)ext));
}
static void ev_sqrt(const ev_t *e, int be, int only_nqr) {
  rng_t r; rng_init(&r, e->a); if (!only_nqr && e->x % 23 == 0) { arm(e); ev_char2(&r); return; } tow_t t; static const int ks[] = { T_FP, T_FP, T_FP, T_FI, T_QUAD, T_QUAD, T_PMOD, T_PMOD, T_QQ, T_QPMOD, T_PMODQ, T_GF3 };
  int kind = ks[rng_n(&r, only_nqr ? 11 : 12)]; arm(e); tow_open(&t, &r, kind, be);
  element_t a, b, c; element_init(a, t.F); element_init(b, t.F); element_init(c, t.F);
  if (only_nqr) {
    element_ptr q = field_get_nqr(t.F); element_set(a, q);
    if (element_is0(a) || euler(a) != -1) sim_fail("nqr", "the non-residue of a %s field is a square", tname[kind]);
    if (element_is_sqr(a)) sim_fail("nqr", "the non-residue of a %s field is reported as a square", tname[kind]);
    if (element_cmp(field_get_nqr(t.F), a)) sim_fail("nqr", "the non-residue of a %s field changed by itself", tname[kind]);
    if (t.F->nqr && rng_p(&r, 1, 2)) { element_square(b, a); element_mul(b, b, a); field_set_nqr(t.F, b); if (element_cmp(field_get_nqr(t.F), b)) sim_fail("nqr", "a chosen non-residue of a %s field was not kept", tname[kind]); }
    state(mix(1000, mix((u64)kind, mpz_sizeinbase(t.p, 2)))); count("probe.nonresidues");
  } else for (int i = 0; i < 5; i++) {
    if (t.kind == T_GF3) { rsrc_fault(&rs, RM_UNIFORM, 0); element_random(b); element_mul(a, b, b); }
    else switch (rng_n(&r, 8)) {
      case 0: element_set0(a); break;
      case 1: element_set1(a); if (rng_p(&r, 1, 2)) element_neg(a, a); break;
      case 2: case 3: set_uniform(b, &r); element_mul(a, b, b); break;
      case 4: element_set0(a); { element_ptr x = a; while (element_item_count(x)) x = element_item(x, 0); mpz_t z; mpz_init(z); mpz_edge(z, &r, t.p); element_set_mpz(x, z); mpz_clear(z); } break; // from the prime field
      case 5: element_set0(a); { element_ptr x = a; while (element_item_count(x)) x = element_item(x, element_item_count(x) - 1); mpz_t z; mpz_init(z); mpz_edge(z, &r, t.p); element_set_mpz(x, z); mpz_clear(z); } break;
      default: set_uniform(a, &r); break;
    }
    if (t.kind != T_GF3) {
      int eu = euler(a), sq = element_is_sqr(a);
      if ((eu >= 0) != (sq != 0)) sim_fail("residue", "%s field, %zu-bit prime: residue test says %d, Euler's criterion %d", tname[kind], mpz_sizeinbase(t.p, 2), sq, eu);
      if (eu < 0) { count("probe.nonsquares"); trace(7); continue; }
      if (!eu) count("probe.sqrt_of_zero");
    }
    element_set(c, a); set_uniform(b, &r); if (rng_p(&r, 1, 3)) { element_set(b, a); element_sqrt(b, b); } else element_sqrt(b, a);
    if (element_cmp(c, a)) sim_fail("sqrt", "%s field: taking a root changed its operand", tname[kind]);
    element_mul(c, b, b); if (element_cmp(c, a)) sim_fail("sqrt", "%s field, %zu-bit prime: the square root of a square does not square back", tname[kind], mpz_sizeinbase(t.p, 2));
    count("probe.roots"); trace(mix(8, t.kind == T_FP ? canon(b) : 1)); state(mix(mix((u64)kind, mpz_sizeinbase(t.p, 2)), mix(mpz_fdiv_ui(t.p, 16), (u64)element_is0(a))));
  }
  count_n("probe.draws", rs.draws);
  element_clear(a); element_clear(b); element_clear(c); tow_close(&t);
}
// polynomials over F_p with small integer coefficients, independent arithmetic modulo p < 2^31
typedef struct { int d; u64 c[40]; } sp_t;
static u64 sp_eval(const sp_t *f, u64 x, u64 p) { u64 v = 0; for (int i = f->d; i >= 0; i--) v = (v * x + f->c[i]) % p; return v; }
static int sp_divides(const sp_t *g, const sp_t *f, u64 p) { // g monic
  u64 c[40]; memcpy(c, f->c, sizeof c);
  for (int i = f->d; i >= g->d; i--) { u64 k = c[i]; if (!k) continue; for (int j = 0; j <= g->d; j++) c[i - g->d + j] = (c[i - g->d + j] + (p - k) * g->c[j]) % p; }
  for (int i = 0; i < g->d; i++) if (c[i]) return 0; return 1;
}
static int sp_irred(const sp_t *f, u64 p) {
  for (int d = 1; 2 * d <= f->d; d++) {
    sp_t g; memset(&g, 0, sizeof g); g.d = d; g.c[d] = 1;
    for (;;) { if (sp_divides(&g, f, p)) return 0; int i = 0; while (i < d && ++g.c[i] == p) g.c[i++] = 0; if (i == d) break; }
  }
  return 1;
}
static void sp_to(element_t e, field_ptr F, const sp_t *f) { element_t c; element_init(c, F); element_set0(e); for (int i = f->d; i >= 0; i--) { mpz_t z; mpz_init_set_ui(z, f->c[i]); element_set_mpz(c, z); mpz_clear(z); if (!element_is0(c)) poly_set_coeff(e, c, i); } element_clear(c); }
static void lin(element_t e, element_t root) { element_t c; element_init(c, root->field); element_neg(c, root); element_set0(e); poly_set_coeff1(e, 1); if (!element_is0(c)) poly_set_coeff(e, c, 0); element_clear(c); }
static void ev_poly(const ev_t *e, int be, int irr) {
  rng_t r; rng_init(&r, e->a); mpz_t p; mpz_init(p); int small = irr ? rng_p(&r, 3, 4) : rng_p(&r, 1, 2);
  if (small) { static const int sp[] = { 3, 5, 7, 11, 13, 31, 61 }; mpz_set_ui(p, (unsigned)sp[rng_n(&r, irr ? 5 : 7)]); } else pick_prime(p, &r, 0, 110);
  pbc_tweak_use_fp(backends[be & 3]); field_t F, Fx; field_init_fp(F, p); field_init_poly(Fx, F); element_t f, g, x, y; element_init(f, Fx); element_init(g, Fx); element_init(x, F); element_init(y, F); arm(e);
  int want = -1; sp_t sf; memset(&sf, 0, sizeof sf); u64 sp = mpz_get_ui(p);
  if (small) { sf.d = irr ? 1 + (int)rng_n(&r, sp < 6 ? 7 : 5) : 1 + (int)rng_n(&r, 6); for (int i = 0; i < sf.d; i++) sf.c[i] = rng_p(&r, 1, 3) ? 0 : rng_n(&r, (u32)sp); sf.c[sf.d] = 1;
    if (rng_p(&r, 1, 4)) { // repeated and zero roots: (x-u)^2 times something
      sp_t q; memset(&q, 0, sizeof q); u64 u = rng_p(&r, 1, 3) ? 0 : rng_n(&r, (u32)sp); q.d = sf.d + 1; for (int i = 0; i <= sf.d; i++) { q.c[i + 1] = (q.c[i + 1] + sf.c[i]) % sp; q.c[i] = (q.c[i] + (sp - u) * sf.c[i]) % sp; } sf = q; }
    sp_to(f, F, &sf);
    if (irr) want = sp_irred(&sf, sp); else { want = 0; for (u64 v = 0; v < sp; v++) if (!sp_eval(&sf, v, sp)) want = 1; }
    if (!irr && rng_p(&r, 1, 3)) { mpz_t z; mpz_init_set_ui(z, 1 + rng_n(&r, (u32)sp - 1)); element_set_mpz(x, z); mpz_clear(z); poly_const_mul(f, x, f); } // not monic
  } else {
    element_set1(f); int k = (int)rng_n(&r, 4), q = (int)rng_n(&r, 3); if (!k && !q) q = 1; if (irr && k + q > 1 && rng_p(&r, 1, 3)) { k = 0; q = 1; }
    for (int i = 0; i < k; i++) { if (!i || rng_p(&r, 3, 4)) set_uniform(x, &r); lin(g, x); element_mul(f, f, g); }
    for (int i = 0; i < q; i++) { // (X - s)^2 - n, n not a square
      do set_uniform(y, &r); while (euler(y) != -1); set_uniform(x, &r); lin(g, x); element_mul(g, g, g); element_t c; element_init(c, Fx); element_set0(c); poly_set_coeff(c, y, 0); element_sub(g, g, c); element_clear(c); element_mul(f, f, g); }
    want = irr ? (k + q == 1) : k > 0;
  }
  int deg = poly_degree(f); element_set(g, f);
  if (irr) { int got = poly_is_irred(f) != 0; if (got != want) sim_fail("irreducible", "degree %d over a %zu-bit field: reported %s", deg, mpz_sizeinbase(p, 2), got ? "irreducible" : "reducible"); count(want ? "probe.irreducible" : "probe.reducible"); }
  else {
    set_uniform(x, &r); int rc = poly_findroot(x, f); if ((rc == 0) != want) sim_fail("root", "degree %d over a %zu-bit field: %s", deg, mpz_sizeinbase(p, 2), rc ? "no root found though one exists" : "a root reported though none exists");
    if (!rc) { element_t v; element_init(v, F); element_set0(v); for (int i = deg; i >= 0; i--) { element_mul(v, v, x); element_add(v, v, element_item(f, i)); } if (!element_is0(v)) sim_fail("root", "degree %d over a %zu-bit field: the value returned is not a root", deg, mpz_sizeinbase(p, 2)); trace(canon(x)); element_clear(v); count("probe.roots_found"); } else count("probe.no_root");
  }
  if (element_cmp(f, g)) sim_fail("changed", "%s changed the polynomial", irr ? "the irreducibility test" : "root finding");
  count_n("probe.draws", rs.draws); state(mix(mix(irr ? 2000 : 3000, (u64)deg), mix((u64)want, mpz_sizeinbase(p, 2))));
  element_clear(f); element_clear(g); element_clear(x); element_clear(y); field_clear(Fx); field_clear(F); mpz_clear(p);
}
static void ev_dlog(const ev_t *e, int be) {
  rng_t r; rng_init(&r, e->a); mpz_t p, q, k, t; mpz_init(p); mpz_init(q); mpz_init(k); mpz_init(t); pbc_tweak_use_fp(backends[be & 3]);
  int comp = rng_p(&r, 1, 4), brute = rng_p(&r, 1, 4);
  zoo_prime(q, rng_next(&r), brute ? 2 + (int)rng_n(&r, 7) : 2 + (int)rng_n(&r, 13), 0); if (comp) { zoo_prime(t, rng_next(&r), 2 + (int)rng_n(&r, 5), 0); mpz_mul(q, q, t); }
  mpz_set_ui(p, 1); do mpz_add(p, p, q); while (!mpz_probab_prime_p(p, 20));
  field_t F, Z; field_init_fp(F, p); field_init_fp(Z, q); element_t g, h, x, y; element_init(g, F); element_init(h, F); element_init(x, Z); element_init(y, Z);
  mpz_sub_ui(t, p, 1); mpz_divexact(t, t, q);
  for (;;) { // an element whose order is exactly q
    set_uniform(g, &r); if (element_is0(g)) continue; slow_pow(g, g, t); if (element_is1(g)) continue;
    if (!comp) break; int ok = 1; mpz_t d, m; mpz_init(d); mpz_init_set(m, q); for (mpz_set_ui(d, 2); mpz_cmp(d, m) <= 0;) { if (mpz_divisible_p(m, d)) { mpz_divexact(k, q, d); slow_pow(h, g, k); if (element_is1(h)) ok = 0; mpz_divexact(m, m, d); } else mpz_nextprime(d, d); } mpz_clear(d); mpz_clear(m); if (ok) break; }
  mpz_edge(k, &r, q); slow_pow(h, g, k); arm(e); set_uniform(y, &r);
  if (brute) element_dlog_brute_force(y, g, h); else element_dlog_pollard_rho(y, g, h);
  element_to_mpz(t, y); slow_pow(g, g, t); if (element_cmp(g, h)) gmp_fprintf(stderr, "order %Zd log %Zd got %Zd\n", q, k, t), sim_fail("dlog", "%s search in a group of %s order (%zu bits) returned a wrong logarithm", brute ? "exhaustive" : "rho", comp ? "composite" : "prime", mpz_sizeinbase(q, 2));
  trace(mpz_get_ui(t)); count(brute ? "probe.log_exhaustive" : "probe.log_rho"); count_n("probe.draws", rs.draws); state(mix(mix(4000, mpz_sizeinbase(q, 2)), (u64)comp * 2 + (u64)brute));
  element_clear(g); element_clear(h); element_clear(x); element_clear(y); field_clear(F); field_clear(Z); mpz_clear(p); mpz_clear(q); mpz_clear(k); mpz_clear(t);
}
static void on_group(pairing_ptr pr, element_ptr P, const char *what, const fam_t *f) {
  if (element_is0(P)) { count("probe.identity_drawn"); return; }
  element_t Q; element_init_same_as(Q, P); chain_mul(Q, P, pr->r, 0); element_t Z; element_init_same_as(Z, P); element_set0(Z); int bad = element_cmp(Q, Z); element_clear(Z); if (bad) sim_fail("point", "%s of %s is not in the group of the stated order", what, f->name); element_clear(Q);
}
static void ev_point(const ev_t *e, int be) {
  rng_t r; rng_init(&r, e->a); const fam_t *f; do f = &fams[fam_pick(&r, 0, 0, 1)]; while (!f->curve); pbc_tweak_use_fp(backends[be & 3]); rsrc_fault(&rs, RM_UNIFORM, 0); rs.budget = 0;
  pairing_t pr; if (pairing_init_set_str(pr, f->text)) sim_fail("load", "good parameters rejected");
  element_t a, b; element_init_G1(a, pr); element_init_G2(b, pr); arm(e);
  rcurve_t rc; rcurve_init(&rc, f); rpt_t P; rpt_init(&P); unsigned char buf[MSGB];
  for (int i = 0; i < 4; i++) {
    switch (rng_n(&r, 3)) {
      case 0: element_random(a); break;
      case 1: { unsigned char h[20]; for (int j = 0; j < 20; j++) h[j] = (unsigned char)rng_next(&r); element_from_hash(a, h, 1 + (int)rng_n(&r, 19)); break; }
      default: { int l = pairing_length_in_bytes_x_only_G1(pr); memset(buf, 0, (size_t)l); mpz_t x; mpz_init(x); mpz_edge(x, &r, rc.q); pbc_mpz_out_raw_n(buf, l, x); mpz_clear(x); element_from_bytes_x_only(a, buf); break; }
    }
    if (!element_is0(a)) { int l = element_to_bytes(buf, a); rpt_from_bytes(&P, buf, l); if (!rpt_on(&rc, &P)) sim_fail("point", "a point constructed in G1 of %s is not on the curve", f->name); }
    trace(elem_hash(a)); element_random(a); on_group(pr, a, "a random element of G1", f); element_random(b); on_group(pr, b, "a random element of G2", f); count("probe.points");
  }
  count_n("probe.draws", rs.draws); state(mix(5000, (u64)(f - fams) * 8 + e->b * (e->c != 0)));
  element_clear(a); element_clear(b); pairing_clear(pr); mpz_clear(rc.q); mpz_clear(rc.a); mpz_clear(rc.b); mpz_clear(P.x); mpz_clear(P.y);
}
// one party opens its pairing while the stream misbehaves, the other with a healthy one
static void ev_init(const ev_t *e, int be) {
  rng_t r; rng_init(&r, e->a); const fam_t *f; do f = &fams[fam_pick(&r, 0, 0, 1)]; while (!f->wire); pbc_tweak_use_fp(backends[be & 3]);
  pairing_t A, B; arm(e); if (pairing_init_set_str(A, f->text)) sim_fail("load", "good parameters rejected"); rsrc_fault(&rs, RM_UNIFORM, 0); if (pairing_init_set_str(B, f->text)) sim_fail("load", "good parameters rejected");
  element_t a[2], b[2], t[2]; unsigned char buf[MSGB], buf2[MSGB];
  for (int i = 0; i < 2; i++) { pairing_ptr pr = i ? B : A; element_init_G1(a[i], pr); element_init_G2(b[i], pr); element_init_GT(t[i], pr); }
  int who = (int)rng_n(&r, 2); element_random(a[who]); element_random(b[who]); element_to_bytes(buf, a[who]); element_from_bytes(a[!who], buf); element_to_bytes(buf, b[who]); element_from_bytes(b[!who], buf);
  pairing_apply(t[0], a[0], b[0], A); pairing_apply(t[1], a[1], b[1], B); int l = element_to_bytes(buf, t[0]), l2 = element_to_bytes(buf2, t[1]);
  if (l != l2 || memcmp(buf, buf2, (size_t)l)) sim_fail("open", "a pairing of %s opened under a biased stream computes different values", f->name);
  trace(hash_bytes(buf, (size_t)l, 9)); state(mix(6000, (u64)(f - fams) * 8 + e->b * (e->c != 0))); count("probe.pairings_opened");
  for (int i = 0; i < 2; i++) { element_clear(a[i]); element_clear(b[i]); element_clear(t[i]); } pairing_clear(A); pairing_clear(B);
}
static void run(plan_t *p, int v) {
  (void)v; stdout_mute(); amode_t m = { (int)p->cfg[C_FILL], 0, 1, p->seed }; arena_install(&m); rsrc_init(&rs, p->seed); rsrc_install(&rs); int be = (int)p->cfg[C_BE];
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    switch (e->op) { case O_SQRT: ev_sqrt(e, be, 0); break; case O_NQR: ev_sqrt(e, be, 1); break; case O_ROOT: ev_poly(e, be, 0); break; case O_IRRED: ev_poly(e, be, 1); break; case O_DLOG: ev_dlog(e, be); break; case O_POINT: ev_point(e, be); break; default: ev_init(e, be); break; }
    rsrc_fault(&rs, RM_UNIFORM, 0);
  }
  ev_begin(p->n, NULL);
}
scen_t scen_p17 = { "P17", "randomised algorithms", 1, gen, run, ops, O_N,
  "square roots, residue tests, non-residues, root finding, irreducibility, discrete logarithms, point construction, pairing set-up; all Fp backends and extension towers",
  "random source (uniform, stuck, biased, alternating, repeating for a chosen number of draws), allocator",
  "distinct (algorithm, field kind and size or family, answer class, stream fault) combinations", 0, 0 };
