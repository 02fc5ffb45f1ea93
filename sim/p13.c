#define _GNU_SOURCE
#include "labs.h"
#include <setjmp.h>
#include "pbc_curve.h"
#include "pbc_mnt.h"
#include "pbc_a_param.h"
#include "pbc_a1_param.h"
#include "pbc_d_param.h"
#include "pbc_e_param.h"
#include "pbc_f_param.h"
#include "pbc_g_param.h"
#include "pbc_i_param.h"
// P13: parameters generated while the random stream misbehaves, checked with plain GMP
// arithmetic, written out, reloaded and used.
enum { C_FILL, C_BE };
enum { O_A, O_A1, O_D, O_E, O_F, O_G, O_I, O_SIZES, O_TOOL, O_HILBERT, O_N };
static const char *const ops[] = { "generate_a", "generate_a1", "generate_d", "generate_e", "generate_f", "generate_g", "generate_i", "usual_sizes", "generator_program", "class_polynomial_program" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_BE] = rng_n(r, 4);
  int n = 1 + (int)rng_n(r, 3); static const int w[] = { 9, 4, 5, 7, 5, 2, 1, 2, 3, 2 };
  for (int i = 0; i < n; i++) {
    int t = (int)rng_n(r, 40), k = 0; while (t >= w[k]) t -= w[k++];
    plan_add(p, k, 0, (u32)rng_next(r), rng_next(r), rng_n(r, NRM), rng_p(r, 1, 4) ? 0 : 1 + rng_n(r, rng_p(r, 1, 2) ? 8 : rng_p(r, 3, 4) ? 80 : 600));
  }
}
static rsrc_t rs; static const char *what;
static char *to_text(pbc_param_t p) {
  char *b = NULL; size_t n = 0; FILE *fp = open_memstream(&b, &n); pbc_param_out_str(fp, p); fclose(fp); return b;
}
static void get(const fam_t *f, const char *k, mpz_t z) { if (fam_param(f, k, z)) sim_fail("field", "%s: generated parameters lack a readable %s", what, k); }
static int prime(const mpz_t z) { return mpz_sgn(z) > 0 && mpz_probab_prime_p(z, 30); }
static void need_prime(const mpz_t z, const char *n) { if (!prime(z)) sim_fail("prime", "%s: %s is not prime", what, n); }
static void size_is(const mpz_t z, size_t bits, const char *n) { if (mpz_sizeinbase(z, 2) != bits) sim_fail("size", "%s: %s has %zu bits, %zu requested", what, n, mpz_sizeinbase(z, 2), bits); }
// every point of y^2 = x^3 + ax + b over F_q is killed by n
static void order_kills(rcurve_t *c, const mpz_t n, rng_t *r, int count_) {
  rpt_t P, Q; rpt_init(&P); rpt_init(&Q); mpz_t t; mpz_init(t);
  mpz_t d; mpz_init(d); mpz_powm_ui(t, c->a, 3, c->q); mpz_mul_ui(t, t, 4); mpz_mul(d, c->b, c->b); mpz_mul_ui(d, d, 27); mpz_add(t, t, d); if (mpz_divisible_p(t, c->q)) sim_fail("singular", "%s: the curve is singular", what);
  for (int i = 0; i < count_; i++) {
    for (;;) { // a point found without the library: x, then y by brute residue test and Tonelli from GMP pieces
      mpz_uniform(P.x, r, c->q); mpz_mul(t, P.x, P.x); mpz_add(t, t, c->a); mpz_mul(t, t, P.x); mpz_add(t, t, c->b); mpz_mod(t, t, c->q);
      if (mpz_sgn(t) && mpz_jacobi(t, c->q) != 1) continue;
      // square root modulo q by Cipolla in GMP
      if (!mpz_sgn(t)) { mpz_set_ui(P.y, 0); break; }
      if (mpz_fdiv_ui(c->q, 4) == 3) { mpz_add_ui(d, c->q, 1); mpz_fdiv_q_2exp(d, d, 2); mpz_powm(P.y, t, d, c->q); break; }
      mpz_t a, w, x0, x1, y0, y1, m; mpz_init(a); mpz_init(w); mpz_init_set_ui(x0, 1); mpz_init(x1); mpz_init(y0); mpz_init_set_ui(y1, 1); mpz_init(m);
      do { mpz_uniform(a, r, c->q); mpz_mul(w, a, a); mpz_sub(w, w, t); mpz_mod(w, w, c->q); } while (mpz_jacobi(w, c->q) != -1);
      mpz_set(y0, a); mpz_add_ui(d, c->q, 1); mpz_fdiv_q_2exp(d, d, 1);
      for (mp_bitcnt_t k = 0; k < mpz_sizeinbase(d, 2); k++) {
        if (mpz_tstbit(d, k)) { mpz_t u, v; mpz_init(u); mpz_init(v); mpz_mul(u, x1, y1); mpz_mul(u, u, w); mpz_addmul(u, x0, y0); mpz_mul(v, x0, y1); mpz_addmul(v, x1, y0); mpz_mod(x0, u, c->q); mpz_mod(x1, v, c->q); mpz_clear(u); mpz_clear(v); }
        mpz_mul(m, y0, y1); mpz_mul(y1, y1, y1); mpz_mul(y1, y1, w); mpz_mul(y0, y0, y0); mpz_add(y0, y0, y1); mpz_mod(y0, y0, c->q); mpz_mul_2exp(y1, m, 1); mpz_mod(y1, y1, c->q);
      }
      mpz_set(P.y, x0); mpz_clear(a); mpz_clear(w); mpz_clear(x0); mpz_clear(x1); mpz_clear(y0); mpz_clear(y1); mpz_clear(m); break;
    }
    P.inf = 0; if (!rpt_on(c, &P)) sim_fail("oracle", "reference point is not on the curve");
    rpt_mul(c, &Q, &P, n); if (!Q.inf) sim_fail("order", "%s: a point of the curve is not killed by the stated order", what);
  }
  mpz_clear(t); mpz_clear(d); mpz_clear(P.x); mpz_clear(P.y); mpz_clear(Q.x); mpz_clear(Q.y);
}
static void trace_n(mpz_t out, const mpz_t q, const mpz_t n, int k) { // #E(F_q^k) from #E(F_q)
  mpz_t t, a, b, c; mpz_init(t); mpz_init_set_ui(a, 2); mpz_init(b); mpz_init(c); mpz_add_ui(t, q, 1); mpz_sub(t, t, n); mpz_set(b, t);
  for (int i = 1; i < k; i++) { mpz_mul(c, t, b); mpz_submul(c, q, a); mpz_set(a, b); mpz_set(b, c); }
  mpz_pow_ui(out, q, (unsigned)k); mpz_add_ui(out, out, 1); mpz_sub(out, out, b); mpz_clear(t); mpz_clear(a); mpz_clear(b); mpz_clear(c);
}
static void use(const fam_t *f, rng_t *r, const mpz_t order, int prime_order) {
  pairing_t pr; if (pairing_init_set_str(pr, f->text)) sim_fail("reload", "%s: generated parameters do not load", what);
  if (mpz_cmp(pr->r, order)) sim_fail("reload", "%s: reloaded group order differs", what);
  int nm = nmethods(f), m = (int)rng_n(r, (u32)nm); if (m && method_name(f, m)) pairing_option_set(pr, "method", method_name(f, m));
  element_t P, Q, P2, Q2, t, u; element_init_G1(P, pr); element_init_G1(P2, pr); element_init_G2(Q, pr); element_init_G2(Q2, pr); element_init_GT(t, pr); element_init_GT(u, pr);
  int ok = 0; for (int i = 0; i < 60 && !ok; i++) { element_random(P); element_random(Q); pairing_apply(t, P, Q, pr); if (!element_is1(t)) ok = 1; }
  if (!ok) { vlog("%s", f->text); sim_fail("degenerate", "%s: the pairing of 60 random pairs is always 1", what); }
  mpz_t a, b; mpz_init(a); mpz_init(b); mpz_edge(a, r, order); mpz_edge(b, r, order);
  chain_mul(P2, P, a, 0); chain_mul(Q2, Q, b, 0); pairing_apply(u, P2, Q2, pr); mpz_mul(a, a, b);
  mpz_mod(b, a, order); chain_mul(t, t, b, 1); if (element_cmp(t, u)) sim_fail("bilinear", "%s: e(aP,bQ) != e(P,Q)^ab", what);
  chain_mul(P2, P, order, 0); if (!element_is0(P2)) sim_fail("order", "%s: r times a random element of G1 is not O", what);
  chain_mul(u, u, order, 1); if (!element_is1(u)) sim_fail("order", "%s: a pairing value raised to r is not 1", what);
  (void)prime_order; mpz_clear(a); mpz_clear(b); element_clear(P); element_clear(Q); element_clear(P2); element_clear(Q2); element_clear(t); element_clear(u); pairing_clear(pr); count("probe.used");
}
static void verify(char *text, int type, rng_t *r, int rbits, int qbits, mpz_ptr order) {
  fam_t f = { "generated", text, (char)type, 1, type == 'a' || type == '1' || type == 'e' || type == 'i', type == 'd' || type == 'f' || type == 'g', type != 'i', type != 'i' };
  mpz_t q, rr, h, n, t; mpz_init(q); mpz_init(rr); mpz_init(h); mpz_init(n); mpz_init(t); rcurve_t c;
  switch (type) {
    case 'a': case 'e': {
      mpz_t e2, e1, s1, s0; mpz_init(e2); mpz_init(e1); mpz_init(s1); mpz_init(s0); get(&f, "q", q); get(&f, "h", h); get(&f, "r", rr); get(&f, "exp2", e2); get(&f, "exp1", e1); get(&f, "sign1", s1); get(&f, "sign0", s0);
      need_prime(q, "q"); need_prime(rr, "r"); size_is(rr, (size_t)rbits, "r");
      mpz_set_ui(t, 0); mpz_setbit(t, mpz_get_ui(e1)); if (mpz_sgn(s1) < 0) mpz_neg(t, t); mpz_set_ui(n, 0); mpz_setbit(n, mpz_get_ui(e2)); mpz_add(n, n, t); mpz_add(n, n, s0); if (mpz_cmp(n, rr)) sim_fail("form", "%s: r is not 2^exp2 + sign1 2^exp1 + sign0", what);
      mpz_clear(e2); mpz_clear(e1); mpz_clear(s1); mpz_clear(s0);
      mpz_mul(n, h, rr); if (type == 'e') mpz_mul(n, n, rr); mpz_set(t, n); if (type == 'a') mpz_sub_ui(t, t, 1); else mpz_add_ui(t, t, 1); if (mpz_cmp(t, q)) sim_fail("form", "%s: q and h r do not match", what);
      if (mpz_sizeinbase(q, 2) > (size_t)qbits + 2) sim_fail("size", "%s: q has %zu bits, %d requested", what, mpz_sizeinbase(q, 2), qbits);
      rcurve_init(&c, &f); order_kills(&c, n, r, 3); break; }
    case '1': get(&f, "p", q); get(&f, "n", rr); get(&f, "l", h); need_prime(q, "p"); mpz_mul(n, rr, h); mpz_sub_ui(t, n, 1); if (mpz_cmp(t, q)) sim_fail("form", "%s: p is not l n - 1", what); if (order && mpz_cmp(rr, order)) sim_fail("order", "%s: the group order is not the one asked for", what); rcurve_init(&c, &f); order_kills(&c, n, r, 3); break;
    case 'd': case 'g': { int k = type == 'd' ? 6 : 10; get(&f, "q", q); get(&f, "n", n); get(&f, "h", h); get(&f, "r", rr); need_prime(q, "q"); need_prime(rr, "r"); mpz_mul(t, h, rr); if (mpz_cmp(t, n)) sim_fail("form", "%s: h r is not n", what);
      if (order && mpz_cmp(rr, order)) sim_fail("order", "%s: the group order is not the one asked for", what);
      rcurve_init(&c, &f); order_kills(&c, n, r, 3);
      mpz_powm_ui(t, q, (unsigned)k, rr); if (mpz_cmp_ui(t, 1)) sim_fail("form", "%s: r does not divide q^%d - 1", what, k);
      mpz_t nk, hk; mpz_init(nk); mpz_init(hk); get(&f, "nk", nk); get(&f, "hk", hk); trace_n(t, q, n, k); if (mpz_cmp(t, nk)) sim_fail("form", "%s: nk is not the order over the extension", what); mpz_mul(t, rr, rr); mpz_mul(t, t, hk); if (mpz_cmp(t, nk)) sim_fail("form", "%s: hk r^2 is not nk", what);
      get(&f, "nqr", t); if (mpz_jacobi(t, q) != -1) sim_fail("nqr", "%s: nqr is a square", what); mpz_clear(nk); mpz_clear(hk); break; }
    case 'f': { get(&f, "q", q); get(&f, "r", rr); need_prime(q, "q"); need_prime(rr, "r"); rcurve_init(&c, &f); order_kills(&c, rr, r, 3); get(&f, "beta", t); if (mpz_jacobi(t, q) != -1) sim_fail("nqr", "%s: beta is a square", what);
      mpz_powm_ui(t, q, 12, rr); if (mpz_cmp_ui(t, 1)) sim_fail("form", "%s: r does not divide q^12 - 1", what);
      int d = (int)mpz_sizeinbase(q, 2) - qbits; if (qbits < 60 ? d > 8 || d < -8 : d > 4 || d < -4) sim_fail("size", "%s: q has %zu bits, %d requested", what, mpz_sizeinbase(q, 2), qbits); break; }
    default: { get(&f, "n", rr); get(&f, "n2", h); need_prime(rr, "n"); mpz_t m; mpz_init(m); get(&f, "m", m); unsigned long mm = mpz_get_ui(m); mpz_ui_pow_ui(n, 3, mm); mpz_ui_pow_ui(t, 3, (mm + 1) / 2); mpz_add_ui(n, n, 1); mpz_mul(m, rr, h); mpz_sub(m, m, n); mpz_abs(m, m); if (mpz_cmp(m, t)) sim_fail("form", "%s: n n2 is not the order of the ternary curve", what); mpz_clear(m);
      if (mpz_sizeinbase(rr, 2) <= (size_t)rbits) sim_fail("size", "%s: order of %zu bits for group size %d", what, mpz_sizeinbase(rr, 2), rbits); break; }
  }
  if (type != 'i') { mpz_clear(c.q); mpz_clear(c.a); mpz_clear(c.b); }
  if (type != 'i' || (rbits <= 206 && rng_p(r, 1, rbits <= 150 ? 6 : 12)) || (rbits <= 320 && rng_p(r, 1, 30))) use(&f, r, rr, type != '1');
  trace(hash_bytes(text, strlen(text), 1)); mpz_clear(q); mpz_clear(rr); mpz_clear(h); mpz_clear(n); mpz_clear(t);
}
static const ev_t *cur; static rng_t cr; static int made;
static void settle(char *s, int type, int rbits, int qbits, mpz_ptr order) { // only the text survives
  u64 d = rs.draws; count_n("probe.draws", d); rs.budget = 0; rsrc_fault(&rs, RM_UNIFORM, 0); pbc_param_t p2;
  if (pbc_param_init_set_str(p2, s)) sim_fail("reload", "%s: generated parameters do not load", what);
  char *s2 = to_text(p2); if (strcmp(s, s2)) sim_fail("reload", "%s: parameters change when written out again", what); pbc_param_clear(p2); free(s2);
  verify(s, type, &cr, rbits, qbits, order); made++;
  state(mix(mix((u64)type, (u64)rbits), mix((u64)qbits, cur->c ? cur->b + 1 : 0)));
}
static void finish(pbc_param_t p, int type, int rbits, int qbits, mpz_ptr order) { char *s = to_text(p); pbc_param_clear(p); settle(s, type, rbits, qbits, order); free(s); }
// The shipped programs, run as a user would: arguments in, text out.
int genaparam_main(), gena1param_main(), gendparam_main(), geneparam_main(), genfparam_main(), gengparam_main(), hilbertpoly_main();
static jmp_buf tool_env; static int tool_status; static void tool_exit(int code) { tool_status = code; longjmp(tool_env, 1); }
static char *tool(int (*prog)(), char **argv, int argc) { // its standard output; status in tool_status
  static char *b; static FILE *fp, *old; static size_t n; b = NULL; fflush(stdout); old = stdout; fp = open_memstream(&b, &n); stdout = fp; tool_status = 0;
  exit_hook = tool_exit; exit_expected = 1; if (!setjmp(tool_env)) tool_status = prog(argc, argv); exit_expected = 0;
  stdout = old; fclose(fp); return b;
}
static void gen_tool(rng_t *r) {
  static const int okD[] = { 67, 603, 723, 1723, 9563 }, okG[] = { 29707, 28267, 18883, 35707 };
  char a1[24], a2[24], *argv[] = { "gen", a1, a2, NULL }, *s; int argc = 3, kind = (int)rng_n(r, 16), rb, qb, dflt = rng_p(r, 1, 10);
  if (kind < 5) { what = "genaparam"; rb = 8 + (int)rng_n(r, 100); qb = rb + 20 + (int)rng_n(r, 90); if (rng_p(r, 1, 8)) { rb = 150 + (int)rng_n(r, 20); argc = 2; qb = 512; } if (dflt) { argc = 1; rb = 160; qb = 512; } sprintf(a1, "%d", rb); sprintf(a2, "%d", qb); s = tool(genaparam_main, argv, argc); if (!tool_status) settle(s, 'a', rb, qb, NULL); }
  else if (kind < 8) { what = "geneparam"; rb = 10 + (int)rng_n(r, 60); qb = 2 * rb + 26 + (int)rng_n(r, 60); if (dflt) { argc = 1; rb = 160; qb = 1024; } sprintf(a1, "%d", rb); sprintf(a2, "%d", qb); s = tool(geneparam_main, argv, argc); if (!tool_status) settle(s, 'e', rb, qb, NULL); }
  else if (kind < 11) { what = "genfparam"; rb = 14 + (int)rng_n(r, 100); argc = 2; if (dflt) { argc = 1; rb = 160; } sprintf(a1, "%d", rb); s = tool(genfparam_main, argv, argc); if (!tool_status) settle(s, 'f', rb, rb, NULL); }
  else if (kind < 13) { what = "gendparam"; argc = 2; int D = okD[rng_n(r, 5)], bad = rng_p(r, 1, 4); if (bad) D = rng_p(r, 1, 3) ? -(int)rng_n(r, 50) : 4 * (int)rng_n(r, 3000) + 1 + (int)rng_n(r, 2); else if (dflt) { D = 9563; argc = 1; } sprintf(a1, "%d", D); s = tool(gendparam_main, argv, argc);
    if (bad) { if (!tool_status || *s) sim_fail("tool", "gendparam accepts discriminant %d", D); count("probe.tool_refused"); free(s); return; }
    if (!tool_status) settle(s, 'd', 0, 0, NULL); }
  else if (kind < 15) { what = "gengparam"; argc = 2; int D = okG[rng_n(r, 4)], bad = rng_p(r, 1, 2); if (bad) { do D = (int)rng_n(r, 40000); while (D % 120 == 43 || D % 120 == 67); } else if (dflt) { D = 35707; argc = 1; } sprintf(a1, "%d", D); s = tool(gengparam_main, argv, argc);
    if (bad) { if (!tool_status || *s) sim_fail("tool", "gengparam accepts discriminant %d", D); count("probe.tool_refused"); free(s); return; }
    if (!tool_status) settle(s, 'g', 0, 0, NULL); }
  else if (rng_p(r, 1, 6)) { what = "gena1param"; rsrc_fault(&rs, RM_UNIFORM, 0); s = tool(gena1param_main, argv, 1); if (!tool_status) settle(s, '1', 0, 0, NULL); }
  else return;
  if (tool_status) sim_fail("tool", "%s %s %s ends with status %d", what, argc > 1 ? a1 : "", argc > 2 ? a2 : "", tool_status);
  free(s); count("probe.tool");
}
// H_D as printed: one line per coefficient. It has as many coefficients as there are reduced forms, and splits into distinct linear factors modulo every prime p with 4p = u^2 + D v^2 (not dividing its discriminant).
static int forms(long D, int primitive) { int h = 0; for (long b = D & 1; 3 * b * b <= D; b += 2) { long m = (b * b + D) / 4; for (long a = b > 1 ? b : 1; a * a <= m; a++) if (m % a == 0) { long c = m / a, x = a, y = b; while (y) { long t = x % y; x = y; y = t; } long z = c; while (z) { long t = x % z; x = z; z = t; } if (primitive && x != 1) continue; h += (b == 0 || a == b || a == c) ? 1 : 2; } } return h; }
static void pmulmod(mpz_t *o, mpz_t *a, mpz_t *b, mpz_t *H, int n, const mpz_t p) { // modulo monic H of degree n
  mpz_t t[2 * 64]; for (int i = 0; i < 2 * n; i++) mpz_init(t[i]);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mpz_addmul(t[i + j], a[i], b[j]);
  for (int i = 2 * n - 1; i >= n; i--) { mpz_mod(t[i], t[i], p); for (int j = 0; j < n; j++) mpz_submul(t[i - n + j], t[i], H[j]); }
  for (int i = 0; i < n; i++) mpz_mod(o[i], t[i], p); for (int i = 0; i < 2 * n; i++) mpz_clear(t[i]);
}
static void hilbert_tool(rng_t *r) {
  what = "hilbertpoly"; char a1[24], a2[24], *argv[] = { "hilbertpoly", a1, a2, NULL }; int lo = 3 + (int)rng_n(r, rng_p(r, 1, 2) ? 60 : 900), hi = lo + (int)rng_n(r, 9), argc = 3; if (rng_p(r, 1, 4)) { argc = 2; hi = lo; } if (rng_p(r, 1, 12)) { argc = 1; lo = hi = 3; }
  sprintf(a1, "%d", lo); sprintf(a2, "%d", hi); char *s = tool(hilbertpoly_main, argv, argc), *q = s; if (tool_status) sim_fail("tool", "hilbertpoly ends with status %d", tool_status);
  for (int D = lo; D <= hi; D++) {
    if (D % 4 == 1 || D % 4 == 2) continue;
    int got = -1, used = 0; if (sscanf(q, "D = %d\n%n", &got, &used) != 1 || got != D) sim_fail("hilbert", "hilbertpoly does not print D = %d", D);
    q += used; while (*q == ' ') q++;
    // of a discriminant that is not fundamental, the roots of the smaller ones may be included
    int h = forms(D, 0), hp = forms(D, 1), dg = *q != 'X' ? 0 : q[1] == '^' ? atoi(q + 2) : 1; if (dg == hp) h = hp; if (h > 60) sim_fail("oracle", "class number"); mpz_t H[64]; for (int i = 0; i < 64; i++) mpz_init(H[i]);
    for (int i = h; i >= 0; i--) { char *e = strchr(q, '\n'); if (!e) sim_fail("hilbert", "D = %d: polynomial ends early", D); *e = 0; char *x = strchr(q, 'X'); int deg = !x ? 0 : x[1] == '^' ? atoi(x + 2) : 1; if (deg != i) sim_fail("hilbert", "D = %d: term %s where one of degree %d is due (class number %d)", D, q, i, h); if (x) *x = 0; if (i == h) { if (*q) sim_fail("hilbert", "D = %d: not monic", D); mpz_set_ui(H[i], 1); } else if (mpz_set_str(H[i], *q == '+' ? q + 1 : q, 10)) sim_fail("hilbert", "D = %d: unreadable coefficient %s", D, q); q = e + 1; }
    mpz_t p, t, w; mpz_init(p); mpz_init(t); mpz_init(w); int seen = 0;
    for (int tries = 0; tries < 4000 && seen < 2; tries++) { long u = (long)rng_n(r, 1 << 22), v = 1 + (long)rng_n(r, 1 << 18); mpz_set_si(p, u); mpz_mul_si(p, p, u); mpz_set_si(t, v); mpz_mul_si(t, t, v); mpz_mul_si(t, t, D); mpz_add(p, p, t); if (mpz_fdiv_ui(p, 4)) continue; mpz_fdiv_q_2exp(p, p, 2); if (!mpz_probab_prime_p(p, 20)) continue;
      seen++; mpz_t M[64], X[64]; for (int i = 0; i < 64; i++) { mpz_init(M[i]); mpz_init(X[i]); mpz_mod(M[i], H[i], p); }
      if (h > 1) { mpz_set_ui(X[1], 1); mpz_t A[64]; for (int i = 0; i < h; i++) { mpz_init(A[i]); mpz_set(A[i], X[i]); } for (long k = (long)mpz_sizeinbase(p, 2) - 2; k >= 0; k--) { pmulmod(A, A, A, M, h, p); if (mpz_tstbit(p, (mp_bitcnt_t)k)) pmulmod(A, A, X, M, h, p); } for (int i = 0; i < h; i++) { if (mpz_cmp_ui(A[i], i == 1) ) sim_fail("hilbert", "D = %d: the polynomial does not split modulo a prime of norm form", D); mpz_clear(A[i]); } }
      else { // one root: the curve with that j has p + 1 +- u' points
        static const struct { int D; const char *j; } one[] = { { 3, "0" }, { 4, "1728" }, { 7, "-3375" }, { 8, "8000" }, { 11, "-32768" }, { 12, "54000" }, { 16, "287496" }, { 19, "-884736" }, { 27, "-12288000" }, { 28, "16581375" }, { 43, "-884736000" }, { 67, "-147197952000" }, { 163, "-262537412640768000" } };
        int k; for (k = 0; k < 13 && one[k].D != D; k++); if (k == 13) sim_fail("oracle", "class number one for D = %d", D); mpz_set_str(w, one[k].j, 10); mpz_add(w, w, H[0]); if (mpz_sgn(w)) sim_fail("hilbert", "D = %d: wrong polynomial", D); }
      for (int i = 0; i < 64; i++) { mpz_clear(M[i]); mpz_clear(X[i]); } }
    count_n("probe.class_polynomial", 1); state(mix(7717, (u64)D)); mpz_clear(p); mpz_clear(t); mpz_clear(w); for (int i = 0; i < 64; i++) mpz_clear(H[i]);
  }
  if (*q) sim_fail("hilbert", "hilbertpoly prints more than was asked for: %s", q); free(s);
}
static int cm_cb(pbc_cm_ptr cm, void *data) {
  int type = *(int *)data; if (mpz_sizeinbase(cm->r, 2) < 16 || (type == 'd' && mpz_sizeinbase(cm->q, 2) > 90)) return 0;
  if (rng_p(&cr, 1, 4)) return 0;
  mpz_t o; mpz_init_set(o, cm->r); pbc_param_t p; if (type == 'd') pbc_param_init_d_gen(p, cm); else pbc_param_init_g_gen(p, cm);
  finish(p, type, 0, 0, o); mpz_clear(o); return 1;
}
// requests leave room for a cofactor: with few candidates there may be no parameters at all (162-bit order, 334-bit field), and 2^135 +- 2^k +- 1 holds a single prime
static int big_r(int rb) { return rb == 135 ? 136 : rb; }
static void run(plan_t *p, int v) {
  (void)v; stdout_mute(); amode_t m = { (int)p->cfg[C_FILL], 0, 1, p->seed }; arena_install(&m); rsrc_init(&rs, p->seed); rsrc_install(&rs);
  static const int dD[] = { 3, 11, 19, 27, 35, 43, 59, 67, 75, 83, 91, 99, 107, 123, 131, 603, 723, 1723, 4123 }, gD[] = { 29707, 28267, 18883 };
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e); cur = e; rng_init(&cr, e->a); rng_t *r = &cr; what = ops[e->op]; pbc_param_t par; pbc_tweak_use_fp(backends[p->cfg[C_BE] & 3]);
    rsrc_fault(&rs, e->c ? (int)e->b : RM_UNIFORM, (long)e->c); rs.draws = 0; rs.budget = (long)e->c + 300000;
    switch (e->op) {
      case O_A: { int rb = 8 + (int)rng_n(r, 60), qb = rb + 14 + (int)rng_n(r, 82); if (rng_p(r, 1, 9)) { rb = big_r(100 + (int)rng_n(r, 120)); qb = rb + 24 + (int)rng_n(r, 312); } pbc_param_init_a_gen(par, rb, qb); finish(par, 'a', rb, qb, NULL); break; }
      case O_A1: { mpz_t n, q; mpz_init(n); mpz_init(q); zoo_prime(n, rng_next(r), 8 + (int)rng_n(r, 40), 0); zoo_prime(q, rng_next(r), 5 + (int)rng_n(r, 40), 0); if (rng_p(r, 2, 3)) mpz_mul(n, n, q); pbc_param_init_a1_gen(par, n); finish(par, '1', 0, 0, n); mpz_clear(n); mpz_clear(q); break; }
      case O_E: { int rb = 10 + (int)rng_n(r, 40), qb = 2 * rb + 22 + (int)rng_n(r, 50); if (rng_p(r, 1, 12)) { rb = big_r(80 + (int)rng_n(r, 90)); qb = 2 * rb + 34 + (int)rng_n(r, 96); } pbc_param_init_e_gen(par, rb, qb); finish(par, 'e', rb, qb, NULL); break; }
      case O_F: { int b = 14 + (int)rng_n(r, 70); if (rng_p(r, 1, 9)) b = 100 + (int)rng_n(r, 80); pbc_param_init_f_gen(par, b); finish(par, 'f', b, b, NULL); break; }
      case O_D: case O_G: { int type = e->op == O_D ? 'd' : 'g'; made = 0; if (type == 'd') pbc_cm_search_d(cm_cb, &type, (unsigned)dD[rng_n(r, 19)], 70); else pbc_cm_search_g(cm_cb, &type, (unsigned)gD[rng_n(r, 3)], 160); if (!made) count("probe.no_curve"); break; }
      case O_SIZES: { // of many generations with a uniform stream, a good part fills the size asked for (about four in five do)
        rsrc_fault(&rs, RM_UNIFORM, 0); int ty = (int)rng_n(r, 2), rb = 10 + (int)rng_n(r, 30), qb = (ty ? 2 : 1) * rb + 30 + (int)rng_n(r, 40), full = 0;
        for (int k = 0; k < 20; k++) { rs.draws = 0; if (ty) pbc_param_init_e_gen(par, rb, qb); else pbc_param_init_a_gen(par, rb, qb); char *s = to_text(par); fam_t f = { "generated", s, ty ? 'e' : 'a', 1 }; mpz_t q; mpz_init(q); get(&f, "q", q); if ((int)mpz_sizeinbase(q, 2) >= qb - 4) full++; mpz_clear(q); free(s); pbc_param_clear(par); }
        if (full < 4) sim_fail("size", "type %s: only %d of 20 fields have about the %d bits requested", ty ? "E" : "A", full, qb); count("probe.sizes"); state(mix(991 + (u64)ty, (u64)rb * 100 + (u64)qb)); break; }
      case O_TOOL: gen_tool(r); break;
      case O_HILBERT: hilbert_tool(r); break;
      default: { static const int gs[] = { 100, 150, 151, 206, 207, 259, 260, 316, 317, 376, 377, 430, 431, 484, 485, 552, 553, 644, 645, 696, 697, 803, 804, 892 }; int g = gs[rng_n(r, 24)]; pbc_param_init_i_gen(par, g); finish(par, 'i', g, 0, NULL); break; }
    }
    if (e->op != O_D && e->op != O_G) made++;
  }
  ev_begin(p->n, NULL);
}
scen_t scen_p13 = { "P13", "parameter generation", 1, gen, run, ops, O_N,
  "generation for all families, curve search, class polynomials, parameter output and loading, pairings",
  "random source (uniform, stuck, biased, repeating for a chosen number of draws), allocator",
  "distinct (family, requested sizes, stream fault) combinations", 0, 0 };
