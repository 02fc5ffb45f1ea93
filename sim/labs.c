#define _GNU_SOURCE
#include "labs.h"
#include <fcntl.h>
#include <unistd.h>
#include "pbc_curve.h"
#include "pbc_mnt.h"
#include "pbc_hilbert.h"
#include "pbc_a_param.h"
#include "pbc_a1_param.h"
#include "pbc_d_param.h"
#include "pbc_e_param.h"
#include "pbc_f_param.h"
#include "pbc_g_param.h"
#include "pbc_i_param.h"
const char *const lab_names[] = { LAB_NAMES };
static const int wt[L_N] = { 14, 1, 14, 2, 2, 2, 2, 2, 1, 1, 5, 5, 4, 6, 6, 6, 2, 1, 4, 6, 2 };
int lab_pick(rng_t *r, u64 mask) { int t = 0, i; for (i = 0; i < L_N; i++) if (mask >> i & 1) t += wt[i]; int k = (int)rng_n(r, (u32)t); for (i = 0; i < L_N; i++) if (mask >> i & 1) { if (k < wt[i]) return i; k -= wt[i]; } return 0; }
int lab_cost(int k) { return k == L_PAIRREAL ? 30 : k == L_TYPEI ? 2 : (LM(k) & L_GENS) ? 10 : 1; }
static void out(lab_t *L, u32 tag, u64 h) { L->h = mix(L->h, mix(tag, h)); L->n++; if (!L->notr) tr(tag, h); }
static void outr(lab_t *L, u32 tag, u64 h) { L->rh = mix(L->rh, h); out(L, tag, h); } // value that is supposed to be random
static void obytes(lab_t *L, u32 tag, const void *p, size_t n) { out(L, tag, hash_bytes(p, n, 3)); }
void stdout_mute(void) { if (sim_verbose()) return; int fd = open("/dev/null", O_WRONLY); if (fd >= 0) { fflush(stdout); dup2(fd, 1); close(fd); } }
static void hashed(element_t e, rng_t *r) { unsigned char b[24]; int n = 1 + (int)rng_n(r, 23); for (int i = 0; i < n; i++) b[i] = (unsigned char)rng_next(r); element_from_hash(e, b, n); }
static void otext(lab_t *L, u32 tag, element_t e) {
  char b[300]; int n = element_snprint(b, sizeof b, e); out(L, tag, (u64)n); if (n >= 0 && n < 300) obytes(L, tag, b, (size_t)n);
}

static u64 text_hash(element_t e) { // for groups without a byte encoding
  char *b = NULL; size_t n = 0; int w = wrap_track; wrap_track = 0; FILE *fp = open_memstream(&b, &n); wrap_track = w;
  size_t k = element_out_str(fp, 10, e);
  w = wrap_track; wrap_track = 0; fclose(fp); u64 h = hash_bytes(b, n, k); free(b); wrap_track = w; return h;
}
#define elem_hash(e) (f->wire ? elem_hash(e) : text_hash(e))
static void pair_session(lab_t *L, const fam_t *f, int pp) {
  rng_t *r = &L->r; pairing_t pr; mpz_t z, z2, z3; mpz_init(z); mpz_init(z2); mpz_init(z3);
  if (pairing_init_set_str(pr, f->text)) { out(L, 1, 99); mpz_clear(z); mpz_clear(z2); mpz_clear(z3); return; }
  int nm = nmethods(f), m = (int)rng_n(r, (u32)nm);
  if (m && method_name(f, m)) pairing_option_set(pr, "method", method_name(f, m));
  element_t a, b, c, d, x, y, t, u; element_init_G1(a, pr); element_init_G1(c, pr); element_init_G2(b, pr); element_init_G2(d, pr); element_init_Zr(x, pr); element_init_Zr(y, pr); element_init_GT(t, pr); element_init_GT(u, pr);
  element_random(a); outr(L, 10, elem_hash(a)); element_random(b); outr(L, 11, f->g2quot ? 0 : elem_hash(b)); element_random(x); outr(L, 12, elem_hash(x)); element_random(t); outr(L, 13, elem_hash(t));
  if (f->type == 'i') { element_random(c); element_random(d); } else { hashed(c, r); hashed(d, r); } out(L, 14, elem_hash(c)); hashed(y, r); out(L, 15, elem_hash(y));
  int n = 4 + (int)rng_n(r, 7); unsigned char buf[MSGB];
  for (int i = 0; i < n; i++) {
    element_to_mpz(z, x); element_to_mpz(z2, y); mpz_edge(z3, r, pr->r);
    switch (rng_n(r, pp ? 4 : 18)) {
      case 0: { pairing_pp_t q; pairing_pp_init(q, a, pr); pairing_pp_apply(t, b, q); out(L, 20, elem_hash(t)); pairing_pp_apply(u, d, q); out(L, 21, elem_hash(u)); pairing_pp_clear(q); break; }
      case 1: { element_pp_t q; element_pp_init(q, c); element_pp_pow(c, z3, q); out(L, 22, elem_hash(c)); element_pp_pow_zn(c, x, q); out(L, 22, elem_hash(c)); element_pp_clear(q); break; }
      case 2: { element_pp_t q; element_pp_init(q, t); element_pp_pow(u, z, q); out(L, 23, elem_hash(u)); element_pp_clear(q); break; }
      case 3: { element_pp_t q; element_pp_init(q, y); element_pp_pow(x, z3, q); out(L, 23, elem_hash(x)); element_pp_clear(q); break; }
      case 4: pairing_apply(t, a, b, pr); out(L, 24, elem_hash(t)); break;
      case 5: { element_t P[3], Q[3]; int k = 1 + (int)rng_n(r, 3); for (int j = 0; j < k; j++) { element_init_G1(P[j], pr); element_init_G2(Q[j], pr); element_set(P[j], j & 1 ? c : a); element_set(Q[j], j & 2 ? d : b); } if (rng_p(r, 1, 5)) element_set0(P[0]);
        element_prod_pairing(u, P, Q, k); out(L, 25, elem_hash(u)); for (int j = 0; j < k; j++) { element_clear(P[j]); element_clear(Q[j]); } break; }
      case 6: element_pow_zn(a, a, y); out(L, 26, elem_hash(a)); break;
      case 7: element_mul_zn(b, b, x); element_add(b, b, d); out(L, 27, f->g2quot ? (u64)element_is0(b) : elem_hash(b)); break;
      case 8: element_pow2_mpz(c, a, z, c, z3); out(L, 28, elem_hash(c)); break;
      case 9: element_pow3_mpz(c, a, z, c, z3, a, z2); out(L, 29, elem_hash(c)); break;
      case 10: element_pow2_zn(t, t, x, u, y); out(L, 30, elem_hash(t)); break;
      case 11: if (f->wire) { int l = element_length_in_bytes(a); element_to_bytes(buf, a); obytes(L, 31, buf, (size_t)l); element_from_bytes(c, buf); out(L, 31, (u64)element_cmp(a, c));
        if (f->curve) { l = element_to_bytes_compressed(buf, a); obytes(L, 32, buf, (size_t)l); element_from_bytes_compressed(c, buf); out(L, 32, elem_hash(c)); l = element_to_bytes_x_only(buf, a); obytes(L, 33, buf, (size_t)l); element_from_bytes_x_only(c, buf); out(L, 33, elem_hash(c)); } } break;
      case 12: if (f->type != 'i') { int v = is_almost_coddh(a, c, b, d, pr); out(L, 34, (u64)v); } break;
      case 13: out(L, 35, (u64)(element_cmp(a, c) != 0) + 2 * (u64)(element_is0(a) != 0) + 4 * (u64)(element_is1(t) != 0) + 8 * (u64)(element_cmp(t, u) != 0)); break;
      case 14: if (f->wire) { otext(L, 36, a); otext(L, 37, t); otext(L, 38, x); } break;
      case 15: element_random(x); outr(L, 39, elem_hash(x)); element_add(x, x, y); if (!element_is0(x) && f->type != '1') { element_invert(y, x); out(L, 40, elem_hash(y)); } element_sub(x, x, y); element_mul(x, x, x); element_halve(x, x); out(L, 41, elem_hash(x)); out(L, 42, (u64)(element_sign(x) + 3)); break;
      case 16: if (f->curve) { element_t A[4]; for (int j = 0; j < 4; j++) { element_init_G1(A[j], pr); if (j == 2) element_set0(A[j]); else element_set(A[j], j ? c : a); } element_multi_double(A, A, 4); element_multi_add(A, A, A, 3); for (int j = 0; j < 4; j++) { out(L, 43, elem_hash(A[j])); element_clear(A[j]); } break; }
      case 17: if (f->type != '1') { element_div(t, t, u); out(L, 44, elem_hash(t)); element_invert(u, u); element_div(a, a, c); out(L, 45, elem_hash(a)); element_mul_si(a, a, -3); out(L, 45, elem_hash(a)); } break;
    }
  }
  pairing_apply(t, a, b, pr); out(L, 46, elem_hash(t));
  element_clear(a); element_clear(b); element_clear(c); element_clear(d); element_clear(x); element_clear(y); element_clear(t); element_clear(u);
  pairing_clear(pr); mpz_clear(z); mpz_clear(z2); mpz_clear(z3);
}
#undef elem_hash
static void zoo_session(lab_t *L, int kind, int n) {
  rng_t *r = &L->r; zoo_t z; zoo_open(&z, kind, rng_next(r), L->be, 200);
  element_t s[5]; for (int i = 0; i < 5; i++) { element_init(s[i], z.F); element_set0(s[i]); }
  unsigned char buf[MSGB];
  for (int i = 0; i < n; i++) {
    u64 a = rng_next(r); u32 x = (u32)rng_next(r);
    int d = zoo_op(&z, s, 5, a, x); out(L, 100, canon(s[d]));
    if (rng_p(r, 1, 5)) { int e = (int)rng_n(r, 5); out(L, 101, (u64)(element_cmp(s[d], s[e]) != 0) + 2 * (u64)(element_is0(s[e]) != 0) + 4 * (u64)(element_is1(s[e]) != 0)); }
    if (z.caps & ZC_SGN && rng_p(r, 1, 6)) out(L, 102, (u64)(element_sign(s[d]) + 3));
    if (z.caps & ZC_BYTES && rng_p(r, 1, 5)) { int l = element_length_in_bytes(s[d]); if (l < MSGB) { element_to_bytes(buf, s[d]); obytes(L, 103, buf, (size_t)l); int e = (int)rng_n(r, 5); element_from_bytes(s[e], buf); out(L, 104, canon(s[e])); } }
    if (z.caps & ZC_SNP && rng_p(r, 1, 8)) { otext(L, 105, s[d]); if (z.caps & ZC_STR) { char b[3000]; int k = element_snprint(b, sizeof b, s[d]); if (k > 0 && k < 3000) { int e = (int)rng_n(r, 5); out(L, 106, (u64)element_set_str(s[e], b, 10)); out(L, 106, canon(s[e])); } } }
    if (z.caps & ZC_RAND && rng_p(r, 1, 10)) { element_random(s[d]); outr(L, 107, canon(s[d])); }
    if (kind == ZK_POLY || kind == ZK_PMOD) if (rng_p(r, 1, 10)) out(L, 108, (u64)element_item_count(s[d]));
  }
  for (int i = 0; i < 5; i++) element_clear(s[i]);
  zoo_close(&z);
}
static void param_text(lab_t *L, pbc_param_t p, u32 tag, char type) {
  char *b = NULL; size_t n = 0; int w = wrap_track; wrap_track = 0; FILE *fp = open_memstream(&b, &n); wrap_track = w;
  pbc_param_out_str(fp, p); w = wrap_track; wrap_track = 0; fclose(fp); wrap_track = w;
  outr(L, tag, hash_bytes(b, n, 5));
  fam_t f = { "generated", b, type, 1, type == 'a' || type == '1' || type == 'e', type == 'd' || type == 'f' || type == 'g', type != 'i', type != 'i' };
  if (rng_p(&L->r, 1, 3)) { pairing_t pr; if (pairing_init_set_str(pr, b)) out(L, tag, 1); else { element_t a, c, t; element_init_G1(a, pr); element_init_G2(c, pr); element_init_GT(t, pr); element_random(a); element_random(c); pairing_apply(t, a, c, pr); outr(L, tag, elem_hash(t)); element_clear(a); element_clear(c); element_clear(t); pairing_clear(pr); } }
  (void)f;
  w = wrap_track; wrap_track = 0; free(b); wrap_track = w;
}
typedef struct { lab_t *L; int kind, n; } cmx_t;
static int cm_cb(pbc_cm_ptr cm, void *d) {
  cmx_t *x = d; if (mpz_sizeinbase(cm->r, 2) < 20 || (x->kind == L_GEND && mpz_sizeinbase(cm->q, 2) > 64)) return 0;
  pbc_param_t p; out(x->L, 120, mpz_get_ui(cm->q) ^ mpz_get_ui(cm->r)); if (x->kind == L_GEND) pbc_param_init_d_gen(p, cm); else pbc_param_init_g_gen(p, cm);
  param_text(x->L, p, 121, x->kind == L_GEND ? 'd' : 'g'); pbc_param_clear(p); x->n++;
  return 1;
}
static void gen_lab(lab_t *L, int kind) {
  rng_t *r = &L->r; pbc_param_t p;
  static const int dD[] = { 11, 43, 1723, 67, 723, 603, 99 }, gD[] = { 29707, 28267, 18883 };
  switch (kind) {
    case L_GENA: { int rb = 8 + (int)rng_n(r, 30); pbc_param_init_a_gen(p, rb, rb + 10 + (int)rng_n(r, 60)); param_text(L, p, 122, 'a'); pbc_param_clear(p); break; }
    case L_GENA1: { mpz_t n, q; mpz_init(n); mpz_init(q); zoo_prime(n, rng_next(r), 10 + (int)rng_n(r, 30), 0); zoo_prime(q, rng_next(r), 10 + (int)rng_n(r, 30), 0); if (rng_p(r, 2, 3)) mpz_mul(n, n, q); pbc_param_init_a1_gen(p, n); param_text(L, p, 123, '1'); pbc_param_clear(p); mpz_clear(n); mpz_clear(q); break; }
    case L_GENE: { int rb = 10 + (int)rng_n(r, 20); pbc_param_init_e_gen(p, rb, 2 * rb + 10 + (int)rng_n(r, 40)); param_text(L, p, 124, 'e'); pbc_param_clear(p); break; }
    case L_GENF: pbc_param_init_f_gen(p, 12 + (int)rng_n(r, 40)); param_text(L, p, 125, 'f'); pbc_param_clear(p); break;
    case L_GEND: { cmx_t x = { L, kind, 0 }; out(L, 126, (u64)pbc_cm_search_d(cm_cb, &x, (unsigned)dD[rng_n(r, 7)], 60)); break; }
    case L_GENG: { cmx_t x = { L, kind, 0 }; out(L, 127, (u64)pbc_cm_search_g(cm_cb, &x, (unsigned)gD[rng_n(r, 3)], 150)); break; }
    case L_GENI: pbc_param_init_i_gen(p, 100 + (int)rng_n(r, 50)); { char *b = NULL; size_t n = 0; int w = wrap_track; wrap_track = 0; FILE *fp = open_memstream(&b, &n); wrap_track = w; pbc_param_out_str(fp, p); w = wrap_track; wrap_track = 0; fclose(fp); obytes(L, 128, b, n); free(b); wrap_track = w; } pbc_param_clear(p); break;
  }
}
static void param_lab(lab_t *L) {
  rng_t *r = &L->r; const fam_t *f = &fams[rng_n(r, (u32)nfams)]; int n = 3 + (int)rng_n(r, 4);
  for (int i = 0; i < n; i++) {
    size_t l = strlen(f->text); char *b = (char *)edge_buf(8 + 2 * (fiber_current() + 1), l + 80, 0); memcpy(b, f->text, l + 1);
    int k = (int)rng_n(r, 6); size_t lim = 0;
    if (k == 0) lim = 1 + rng_n(r, (u32)l);
    if (k == 1) { b[rng_n(r, (u32)l)] = "x \n#-9"[rng_n(r, 6)]; }
    if (k == 2) { char *q = strchr(b, '\n'); if (q) memmove(b, q + 1, strlen(q)); }
    if (k == 3) { memcpy(b + l, "\nq 12z\nq 55\nfoo bar\n", 21); }
    if (k == 4) lim = l;
    pbc_param_t p; int rc = lim ? pbc_param_init_set_buf(p, b, lim) : pbc_param_init_set_str(p, b);
    out(L, 130, (u64)rc); if (!rc) pbc_param_clear(p);
    if (k == 2 || k == 0) { pairing_t pr; if (k == 2) { rc = pairing_init_set_str(pr, b); out(L, 131, (u64)rc); if (!rc) pairing_clear(pr); } }
  }
}
static void poly_lab(lab_t *L) {
  rng_t *r = &L->r; mpz_t p; mpz_init(p); zoo_prime(p, rng_next(r), rng_p(r, 1, 3) ? 3 + (int)rng_n(r, 4) : 8 + (int)rng_n(r, 80), 0);
  pbc_tweak_use_fp(backends[L->be & 3]); field_t F, Fx; field_init_fp(F, p); field_init_poly(Fx, F);
  element_t a, b, c, x; element_init(a, Fx); element_init(b, Fx); element_init(c, Fx); element_init(x, F);
  for (int k = 2 + (int)rng_n(r, 4); k; k--) {
    int da = 1 + (int)rng_n(r, 5), db = 1 + (int)rng_n(r, 4);
    poly_random_monic(a, da); poly_random_monic(b, db); outr(L, 140, canon(a)); outr(L, 140, canon(b));
    out(L, 141, (u64)(poly_is_irred(a) != 0)); element_mul(c, a, b); out(L, 142, canon(c)); out(L, 143, (u64)(poly_is_irred(c) != 0));
    if (poly_degree(c) > 1) { int rc = poly_findroot(x, c); out(L, 144, (u64)(rc + 5)); if (!rc) outr(L, 145, canon(x)); }
    element_add(c, a, b); element_sub(c, c, a); out(L, 146, (u64)(element_cmp(c, b) != 0)); element_mul_si(c, c, 7); poly_const_mul(c, x, c); out(L, 147, canon(c)); element_set0(c); out(L, 148, (u64)(element_is0(c) != 0) + 2 * (u64)(element_is1(b) != 0));
    if (rng_p(r, 1, 2) && poly_is_irred(a) && da > 1) { field_t M; field_init_polymod(M, a); element_t u, v; element_init(u, M); element_init(v, M); element_random(u); outr(L, 149, canon(u)); if (!element_is0(u)) { element_invert(v, u); element_mul(v, v, u); out(L, 150, (u64)(element_is1(v) != 0)); } element_field_to_polymod(v, x); out(L, 150, canon(v)); element_clear(u); element_clear(v); field_clear(M); }
  }
  element_clear(a); element_clear(b); element_clear(c); element_clear(x); field_clear(Fx); field_clear(F); mpz_clear(p);
}
static void dlog_lab(lab_t *L) {
  rng_t *r = &L->r; mpz_t p, q; mpz_init(p); mpz_init(q);
  pbc_tweak_use_fp(backends[L->be & 3]);
  // group of prime order q in F_p^*, p = k q + 1
  zoo_prime(q, rng_next(r), 5 + (int)rng_n(r, 8), 0); mpz_set(p, q); do { mpz_add(p, p, q); mpz_add_ui(p, p, 1); if (mpz_probab_prime_p(p, 20)) break; mpz_sub_ui(p, p, 1); } while (1);
  field_t F, Z; field_init_fp(F, p); field_init_fp(Z, q); element_t g, h, x, y; element_init(g, F); element_init(h, F); element_init(x, Z); element_init(y, Z);
  mpz_t e; mpz_init(e); mpz_sub_ui(e, p, 1); mpz_divexact(e, e, q);
  do { element_random(g); element_pow_mpz(g, g, e); } while (element_is1(g) || element_is0(g));
  mpz_uniform(e, r, q); element_set_mpz(x, e); element_pow_zn(h, g, x);
  element_dlog_brute_force(y, g, h); out(L, 151, (u64)(element_cmp(x, y) != 0)); element_set0(y);
  if (!element_is1(h)) { element_dlog_pollard_rho(y, g, h); out(L, 152, (u64)(element_cmp(x, y) != 0)); }
  element_clear(g); element_clear(h); element_clear(x); element_clear(y); field_clear(F); field_clear(Z); mpz_clear(e); mpz_clear(p); mpz_clear(q);
}
static void sqrt_lab(lab_t *L) {
  rng_t *r = &L->r; static const int ks[] = { ZK_FP, ZK_FP, ZK_FI, ZK_QUAD, ZK_PMOD }; zoo_t z; zoo_open(&z, ks[rng_n(r, 5)], rng_next(r), L->be, 130);
  element_t a, b; element_init(a, z.F); element_init(b, z.F);
  if (rng_p(r, 1, 2) && z.kind == ZK_FP) outr(L, 160, canon(field_get_nqr(z.F)));
  for (int i = 0; i < 4; i++) { element_random(a); outr(L, 161, canon(a)); if (i == 3) element_set0(a); out(L, 162, (u64)(element_is_sqr(a) != 0)); element_square(b, a); element_sqrt(a, b); element_square(a, a); out(L, 163, (u64)(element_cmp(a, b) != 0)); }
  element_clear(a); element_clear(b); zoo_close(&z);
}
static void bad_lab(lab_t *L) {
  rng_t *r = &L->r; const fam_t *f; do f = &fams[fam_pick(r, 0, 0, 1)]; while (!f->wire || !f->curve); pairing_t pr; if (pairing_init_set_str(pr, f->text)) { out(L, 170, 1); return; }
  element_t e[4]; element_init_G1(e[0], pr); element_init_G2(e[1], pr); element_init_GT(e[2], pr); element_init_Zr(e[3], pr);
  for (int i = 0; i < 10; i++) {
    int g = (int)rng_n(r, 4), l = element_length_in_bytes(e[g]); unsigned char *b = edge_buf(9 + 2 * (fiber_current() + 1), (size_t)l + 1, 0); if (g < 2) hashed(e[g], r); 
    if (rng_p(r, 1, 2) && g < 2) { element_to_bytes(b, e[g]); b[rng_n(r, (u32)l)] ^= (unsigned char)(1 << rng_n(r, 8)); } else for (int k = 0; k <= l; k++) b[k] = (unsigned char)rng_next(r);
    switch (rng_n(r, 4)) {
      case 0: case 1: element_from_bytes(e[g], b); out(L, 171, elem_hash(e[g])); break;
      case 2: if (g < 2) { element_from_bytes_compressed(e[g], b); out(L, 172, elem_hash(e[g])); element_from_bytes_x_only(e[g], b); out(L, 173, elem_hash(e[g])); } break;
      case 3: { static const char *t[] = { "", "O", "[", "[1,2]", "[1,2", "x", "[[1,2],[3,4]]", "123", "-7", "[,]", "  [ 0 , 0 ]", "[5" }; out(L, 174, (u64)element_set_str(e[g], t[rng_n(r, 12)], 10)); out(L, 175, elem_hash(e[g])); break; }
    }
  }
  for (int i = 0; i < 4; i++) element_clear(e[i]);
  pairing_clear(pr);
}
static void print_lab(lab_t *L) {
  rng_t *r = &L->r; const fam_t *f; do f = &fams[fam_pick(r, 0, 0, 1)]; while (!f->wire); pairing_t pr; if (pairing_init_set_str(pr, f->text)) { out(L, 180, 1); return; }
  element_t a, t; element_init_G1(a, pr); element_init_GT(t, pr); hashed(a, r); if (rng_p(r, 1, 5)) element_set0(a); element_random(t); outr(L, 181, elem_hash(t));
  mpz_t z; mpz_init(z); mpz_uniform(z, r, pr->r);
  char b[900];
  for (int i = 0; i < 5; i++) {
    int n; size_t cap = rng_p(r, 1, 2) ? sizeof b : 1 + rng_n(r, 200);
    switch (rng_n(r, 4)) {
      case 0: n = element_snprintf(b, cap, "%B|%d|%s|%%", a, 42, "text"); break;
      case 1: n = element_snprintf(b, cap, "%Zd %B %ld", z, t, 77L); break;
      case 2: n = element_snprintf(b, cap, "%05d%c%B", 325, 'q', a); break;
      default: n = element_snprintf(b, cap, "plain"); break;
    }
    out(L, 182, (u64)n); obytes(L, 183, b, strnlen(b, cap));
  }
  char sbuf[9100]; fsink_t s; memset(&s, 0, sizeof s); s.buf = sbuf; s.cap = s.limit = 9000; int w = wrap_track; wrap_track = 0; FILE *fp = fsink_open(&s, _IOFBF); wrap_track = w;
  if (!L->notext) { int n = element_fprintf(fp, "%B\n%s %B", a, "mid", t); out(L, 184, (u64)n); out(L, 185, (u64)element_out_str(fp, 16, a)); }
  w = wrap_track; wrap_track = 0; fclose(fp); wrap_track = w; if (!L->notext) obytes(L, 186, s.buf, s.len);
  element_clear(a); element_clear(t); mpz_clear(z); pairing_clear(pr);
}
static void hilbert_lab(lab_t *L) {
  rng_t *r = &L->r; static const int D[] = { 7, 11, 15, 20, 23, 24, 31, 39, 47, 56, 71, 84, 95, 3, 4, 8, 19 };
  for (int i = 0; i < 2; i++) { mpz_t *c; size_t n = pbc_hilbert(&c, D[rng_n(r, 17)]); out(L, 190, n); for (size_t k = 0; k < n; k++) out(L, 191, mpz_get_ui(c[k]) + (u64)mpz_sgn(c[k])); pbc_hilbert_free(c, n); }
}
static void multiz_lab(lab_t *L) { zoo_session(L, ZK_MULTIZ, 20); }
static void info_lab(lab_t *L) {
  rng_t *r = &L->r; const fam_t *f; do f = &fams[fam_pick(r, 0, 0, 1)]; while (f->type == 'i'); pairing_t pr; if (pairing_init_set_str(pr, f->text)) { out(L, 200, 1); return; }
  char *b = NULL; size_t n = 0; int w = wrap_track; wrap_track = 0; FILE *fp = open_memstream(&b, &n); wrap_track = w;
  field_out_info(fp, pr->G1); field_out_info(fp, pr->G2); field_out_info(fp, pr->GT); field_out_info(fp, pr->Zr);
  w = wrap_track; wrap_track = 0; fclose(fp); wrap_track = w; out(L, 201, n > 20); // wording may name addresses, only its existence counts
  w = wrap_track; wrap_track = 0; free(b); wrap_track = w;
  out(L, 202, (u64)pairing_length_in_bytes_G1(pr) + 1000 * (u64)pairing_length_in_bytes_GT(pr) + 1000000 * (u64)pairing_length_in_bytes_Zr(pr) + (u64)pairing_is_symmetric(pr));
  out(L, 203, (u64)pairing_length_in_bytes_x_only_G1(pr) + 1000 * (u64)pairing_length_in_bytes_compressed_G1(pr));
  pairing_clear(pr);
}
void lab_run(lab_t *L, int kind) {
  rng_init(&L->r, L->seed); rng_t *r = &L->r;
  if (L->be >= 0) pbc_tweak_use_fp(backends[L->be & 3]);
  switch (kind) {
    case L_PAIR: pair_session(L, &fams[fam_pick(r, 0, 0, 1)], 0); break;
    case L_PAIRREAL: pair_session(L, &fams[fam_pick(r, 0, 1, 1)], 0); break;
    case L_TYPEI: { int i, toy = !rng_p(&L->r, 1, 6); do i = (int)rng_n(&L->r, (u32)nfams); while (fams[i].type != 'i' || !fams[i].toy != !toy); pair_session(L, &fams[i], 0); break; }
    case L_PP: pair_session(L, &fams[fam_pick(r, 0, 0, 1)], 1); break;
    case L_ZOO: zoo_session(L, zoo_kind_pick(r), 25); break;
    case L_PARAM: param_lab(L); break; case L_POLY: poly_lab(L); break; case L_DLOG: dlog_lab(L); break; case L_SQRT: sqrt_lab(L); break; case L_BAD: bad_lab(L); break;
    case L_PRINT: print_lab(L); break; case L_HILBERT: hilbert_lab(L); break; case L_MULTIZ: multiz_lab(L); break; case L_INFO: info_lab(L); break;
    default: gen_lab(L, kind); break;
  }
}
