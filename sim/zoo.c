#include "zoo.h"
const char *const zoo_names[] = { "Fp", "Fi", "quadratic", "polymod", "polymod-over-quadratic", "quadratic-over-polymod", "poly", "Z", "multiz", "gf3m", "gf32m", "gf33m" };
int zoo_kind_pick(rng_t *r) { static const int w[] = { 6, 2, 3, 4, 2, 2, 3, 2, 2, 2, 1, 1 }; int t = 0, i; for (i = 0; i < ZK_N; i++) t += w[i]; int k = (int)rng_n(r, (u32)t); for (i = 0; k >= w[i]; i++) k -= w[i]; return i; }

void zoo_prime(mpz_t p, u64 seed, int bits, int mod4) {
  rng_t r; rng_init(&r, seed ^ 0xB0B);
  if (bits < 2) bits = 2;
  for (int t = 0;; t++) {
    mpz_set_ui(p, 0); mpz_setbit(p, (mp_bitcnt_t)bits);
    if (rng_p(&r, 1, 4) && t < 4) { // primes hugging a power of two
      if (rng_p(&r, 1, 2)) mpz_sub_ui(p, p, 1u + 2 * rng_n(&r, 40)); else { mpz_fdiv_q_2exp(p, p, 1); mpz_add_ui(p, p, 1u + 2 * rng_n(&r, 40)); }
    } else { mpz_uniform(p, &r, p); mpz_setbit(p, (mp_bitcnt_t)bits - 1); }
    if (mpz_cmp_ui(p, 3) < 0) mpz_set_ui(p, 3);
    mpz_sub_ui(p, p, 1); mpz_nextprime(p, p);
    if (!mpz_odd_p(p)) continue;
    if (mod4 == 3 && mpz_fdiv_ui(p, 4) != 3) continue;
    if (mod4 == 1 && mpz_fdiv_ui(p, 4) != 1) continue;
    return;
  }
}
static int pick_bits(rng_t *r, int maxb) {
  static const int b[] = { 2, 3, 3, 5, 8, 13, 16, 31, 32, 33, 48, 63, 64, 65, 65, 66, 80, 96, 127, 128, 129, 160, 192, 256, 512 };
  for (;;) { int k = b[rng_n(r, sizeof b / sizeof *b)]; if (k <= maxb) return k; }
}
// irreducible polynomial of degree n over the coefficient field of kx, from the seed
static void irred(element_t poly, int n, rng_t *r) {
  field_ptr b = poly_base_field(poly);
  element_t c; element_init(c, b);
  for (;;) {
    element_set0(poly);
    poly_set_coeff1(poly, n);
    int sparse = rng_p(r, 1, 2);
    for (int i = n - 1; i >= 0; i--) {
      if (sparse && i && rng_p(r, 2, 3)) continue;
      int m = element_item_count(c);
      if (!m) { mpz_t t; mpz_init(t); mpz_uniform(t, r, b->order); element_set_mpz(c, t); mpz_clear(t); }
      else { mpz_t t; mpz_init(t); for (int j = 0; j < m; j++) { element_ptr e = element_item(c, j); mpz_uniform(t, r, e->field->order); element_set_mpz(e, t); } mpz_clear(t); }
      if (!element_is0(c)) poly_set_coeff(poly, c, i);
    }
    if (n < 2 || poly_is_irred(poly)) break;
  }
  element_clear(c);
}
static void small_nqr(field_ptr f, const mpz_t p) {
  unsigned long k = 2; mpz_t t; mpz_init(t);
  for (;; k++) { mpz_set_ui(t, k); if (mpz_jacobi(t, p) == -1) break; }
  element_t e; element_init(e, f); element_set_mpz(e, t); field_set_nqr(f, e); element_clear(e); mpz_clear(t);
}
static void (*multiz_init_fn)(element_ptr), (*gf3m_init_fn)(element_ptr);
void zoo_open(zoo_t *z, int kind, u64 seed, int backend, int maxb) {
  rng_t r; rng_init(&r, seed ^ 0x200);
  memset(z, 0, sizeof *z);
  z->kind = kind; mpz_init(z->p);
  pbc_tweak_use_fp(backends[backend & 3]);
  if (kind <= ZK_POLY) {
    if (kind == ZK_PMODQ || kind == ZK_QPMOD) maxb = maxb > 96 ? 96 : maxb;
    z->bits = pick_bits(&r, maxb);
    if (kind != ZK_FP && kind != ZK_POLY && z->bits < 3) z->bits = 3;
    zoo_prime(z->p, rng_next(&r), z->bits, kind == ZK_FI ? 3 : 0);
    field_init_fp(z->f[0], z->p); z->nf = 1;
  }
  unsigned fld = ZC_BYTES | ZC_STR | ZC_INV | ZC_RAND | ZC_HASH | ZC_SQRT | ZC_FIN | ZC_SI | ZC_SGN | ZC_SNP | ZC_SUBOK;
  switch (kind) {
    case ZK_FP: z->F = z->f[0]; z->caps = fld; break;
    case ZK_FI: field_init_fi(z->f[1], z->f[0]); z->nf = 2; z->F = z->f[1]; z->caps = fld; break;
    case ZK_QUAD: small_nqr(z->f[0], z->p); field_init_quadratic(z->f[1], z->f[0]); z->nf = 2; z->F = z->f[1]; z->caps = fld; break;
    case ZK_PMOD: case ZK_QPMOD:
      field_init_poly(z->f[1], z->f[0]); element_init(z->poly[0], z->f[1]); z->npoly = 1;
      z->deg = 2 + (int)rng_n(&r, 6); if (rng_p(&r, 1, 3)) z->deg = rng_p(&r, 1, 2) ? 3 : 6;
      if (kind == ZK_QPMOD) z->deg = 3;
      irred(z->poly[0], z->deg, &r);
      field_init_polymod(z->f[2], z->poly[0]); z->nf = 3; z->F = z->f[2]; z->caps = fld & ~(unsigned)ZC_SQRT;
      if (kind == ZK_PMOD) z->caps |= ZC_SQRT;
      if (kind == ZK_QPMOD) { // as in type D/G: quadratic on top of an odd-degree extension
        element_t e; element_init(e, z->f[2]); element_item(e, 0);
        unsigned long k = 2; mpz_t t; mpz_init(t);
        for (;; k++) { mpz_set_ui(t, k); if (mpz_jacobi(t, z->p) == -1) break; }
        element_set_mpz(e, t); mpz_clear(t);
        field_set_nqr(z->f[2], e); element_clear(e);
        field_init_quadratic(z->f[3], z->f[2]); z->nf = 4; z->F = z->f[3];
      }
      break;
    case ZK_PMODQ:
      small_nqr(z->f[0], z->p); field_init_quadratic(z->f[1], z->f[0]); field_init_poly(z->f[2], z->f[1]); element_init(z->poly[0], z->f[2]); z->npoly = 1;
      z->deg = 2 + (int)rng_n(&r, 2); if (rng_p(&r, 1, 6)) z->deg = 6;
      irred(z->poly[0], z->deg, &r);
      field_init_polymod(z->f[3], z->poly[0]); z->nf = 4; z->F = z->f[3]; z->caps = fld & ~(unsigned)ZC_SQRT;
      break;
    case ZK_POLY: field_init_poly(z->f[1], z->f[0]); z->nf = 2; z->F = z->f[1]; z->caps = ZC_BYTES | ZC_SI | ZC_SGN | ZC_SNP | ZC_SUBOK; break;
    case ZK_Z: field_init_z(z->f[0]); z->nf = 1; z->F = z->f[0]; z->caps = ZC_BYTES | ZC_SI | ZC_SGN | ZC_HASH | ZC_SUBOK; break;
    case ZK_MULTIZ: field_init_multiz(z->f[0]); multiz_init_fn = z->f[0]->init; z->nf = 1; z->F = z->f[0]; z->caps = ZC_SI; break;
    case ZK_GF3: case ZK_GF32: case ZK_GF33: {
      static const unsigned mt[][2] = { { 97, 12 }, { 97, 16 }, { 97, 12 }, { 163, 80 }, { 167, 96 }, { 193, 64 }, { 239, 24 } };
      u32 k = rng_n(&r, 7);
      field_init_gf3m(z->f[0], mt[k][0], mt[k][1]); gf3m_init_fn = z->f[0]->init; z->nf = 1; z->F = z->f[0]; z->caps = ZC_RAND | ZC_INV | ZC_FIN | ZC_SUBOK | ZC_BYTES;
      if (kind == ZK_GF32) { field_init_gf32m(z->f[1], z->f[0]); z->nf = 2; z->F = z->f[1]; z->caps = ZC_RAND | ZC_INV | ZC_FIN | ZC_SUBOK; }
      if (kind == ZK_GF33) { field_init_gf33m(z->f[1], z->f[0]); z->nf = 2; z->F = z->f[1]; z->caps = ZC_RAND | ZC_INV | ZC_FIN | ZC_SUBOK; }
      break; }
  }
}
void zoo_close(zoo_t *z) {
  for (int i = z->nf - 1; i >= 0; i--) {
    // the polynomial lives in field nf-2 (or one below a quadratic on top)
    if (z->npoly && z->poly[0]->field == z->f[i]) { element_clear(z->poly[0]); z->npoly = 0; }
    field_clear(z->f[i]);
  }
  mpz_clear(z->p);
}
static u64 text_hash(element_ptr e) {
  char *b = NULL; size_t n = 0;
  FILE *fp = open_memstream(&b, &n);
  element_out_str(fp, 16, e);
  fclose(fp);
  u64 h = hash_bytes(b, n, 9);
  free(b);
  return h;
}
u64 canon(element_ptr e) {
  field_ptr f = e->field;
  if (f->init == multiz_init_fn) return text_hash(e);
  if (f->init == gf3m_init_fn) {
    unsigned char b[256]; int n = element_length_in_bytes(e);
    element_to_bytes(b, e);
    return hash_bytes(b, (size_t)n, 21);
  }
  int m = element_item_count(e);
  if (m > 0) {
    u64 h = mix(77, (u64)m);
    for (int i = 0; i < m; i++) h = mix(h, canon(element_item(e, i)));
    return h;
  }
  mpz_t t; mpz_init(t);
  element_to_mpz(t, e);
  size_t n = mpz_sizeinbase(t, 256); unsigned char *b = raw_malloc(n + 8);
  memset(b, 0, n + 8);
  mpz_export(b, NULL, 1, 1, 1, 0, t);
  u64 h = hash_bytes(b, n, (u64)(mpz_sgn(t) + 5) + (element_is0(e) ? 100 : 0));
  free(b); mpz_clear(t);
  return h;
}
static void zoo_canon_guard(zoo_t *z, element_ptr e) { // keep values of infinite rings small
  if (z->kind == ZK_Z) { if (mpz_sizeinbase((mpz_ptr)e->data, 2) > 500) element_set_si(e, -7); }
  else if (z->kind == ZK_POLY) { if (element_item_count(e) > 24) element_set_si(e, 5); }
  else if (z->kind == ZK_MULTIZ) {
    char *b = NULL; size_t n = 0; FILE *fp = open_memstream(&b, &n); element_out_str(fp, 10, e); fclose(fp); free(b);
    if (n > 400) element_set_si(e, 3);
  }
}
static void rand_into(zoo_t *z, element_ptr e, rng_t *r) {
  mpz_t t; mpz_init(t);
  switch (z->kind) {
    case ZK_Z: mpz_set_ui(t, 0); mpz_setbit(t, 1 + rng_n(r, 200)); mpz_edge(t, r, t); if (rng_p(r, 1, 2)) mpz_neg(t, t); element_set_mpz(e, t); break;
    case ZK_POLY: { element_set0(e); int n = (int)rng_n(r, 7); element_t c; element_init(c, z->f[0]);
      for (int i = 0; i < n; i++) { mpz_edge(t, r, z->p); element_set_mpz(c, t); if (!element_is0(c)) poly_set_coeff(e, c, i); }
      element_clear(c); break; }
    case ZK_MULTIZ: { static const char *const txt[] = { "[1,2]", "[[1,2],3]", "-5", "123456789012345678901", "[0,1,[2,3]]", "[7]", "0" };
      element_set_str(e, txt[rng_n(r, 7)], 10); break; }
    default: element_random(e); break;
  }
  mpz_clear(t);
}
static void comp_set(element_ptr e, rng_t *r) { // set every component from the seed, edges included
  int m = element_item_count(e);
  if (m > 0) { for (int i = 0; i < m; i++) comp_set(element_item(e, i), r); return; }
  mpz_t t; mpz_init(t); mpz_edge(t, r, e->field->order); element_set_mpz(e, t); mpz_clear(t);
}
int zoo_op(zoo_t *z, element_t *s, int ns, u64 a, u32 x) {
  rng_t r; rng_init(&r, a);
  int d = (int)(x & 15) % ns, p = (int)(x >> 4 & 15) % ns, q = (int)(x >> 8 & 15) % ns;
  element_ptr D = s[d], A = s[p], B = s[q];
  mpz_t t; mpz_init(t);
  unsigned c = z->caps;
  switch (rng_n(&r, 26)) {
    case 0: case 1: rand_into(z, D, &r); break;
    case 2: if (c & ZC_SI) { long k = rng_p(&r, 1, 2) ? (long)rng_n(&r, 7) - 3 : (long)rng_next(&r) >> rng_n(&r, 60); element_set_si(D, k); } else element_set1(D); break;
    case 3: if (c & ZC_SI) { if (c & ZC_FIN) { mpz_mul_2exp(t, z->F->order, rng_n(&r, 100)); mpz_edge(t, &r, t); } else mpz_set_ui(t, rng_n(&r, 1u << 30)); if (rng_p(&r, 1, 3)) mpz_neg(t, t); element_set_mpz(D, t); } else element_set(D, A); break;
    case 4: case 5: element_add(D, A, B); break;
    case 6: case 7: element_sub(D, A, B); break;
    case 8: case 9: element_mul(D, A, B); break;
    case 10: if (z->kind != ZK_MULTIZ) element_square(D, A); else element_set(D, A); break;
    case 11: if (z->kind != ZK_MULTIZ) element_double(D, A); else element_set(D, A); break;
    case 12: if (c & ZC_INV && c & ZC_SI) element_halve(D, A); else if (z->kind != ZK_GF33) element_neg(D, A); else element_set(D, A); break;
    case 13: if (z->kind != ZK_GF33) element_neg(D, A); else element_set(D, A); break;
    case 14: if (c & ZC_INV && !element_is0(A)) element_invert(D, A); else element_set(D, A); break;
    case 15: if (c & ZC_INV && !element_is0(B) && z->kind != ZK_GF33) element_div(D, A, B); else element_set(D, A); break;
    case 16: if (c & ZC_SI) element_mul_si(D, A, (long)rng_n(&r, 200) - 100); else element_set(D, A); break;
    case 17: if (c & ZC_SI) { if (c & ZC_FIN) { mpz_mul_2exp(t, z->F->order, 3); mpz_edge(t, &r, t); } else mpz_set_ui(t, rng_n(&r, 1000)); element_mul_mpz(D, A, t); } else element_set(D, A); break;
    case 18: if (c & ZC_FIN) { mpz_mul_2exp(t, z->F->order, 2); mpz_edge(t, &r, t); if (!mpz_sgn(t) && element_is0(A)) mpz_set_ui(t, 1); if (z->kind > ZK_FI && mpz_sizeinbase(t, 2) > 200) mpz_fdiv_r_2exp(t, t, 60); element_pow_mpz(D, A, t); }
      else if (z->kind == ZK_Z || z->kind == ZK_POLY) { mpz_set_ui(t, 1 + rng_n(&r, 4)); element_pow_mpz(D, A, t); } else element_set(D, A); break;
    case 19: if (c & ZC_HASH) { unsigned char h[64]; int n = 1 + (int)rng_n(&r, 63); for (int i = 0; i < n; i++) h[i] = (unsigned char)rng_next(&r); element_from_hash(D, h, n); } else element_set(D, A); break;
    case 20: element_set0(D); break;
    case 21: element_set1(D); break;
    case 22: element_set(D, A); break;
    case 23: if (c & ZC_SI && z->kind != ZK_MULTIZ && z->kind != ZK_Z) element_add_ui(D, A, rng_n(&r, 1000)); else element_set(D, A); break;
    case 24: if (c & ZC_FIN && c & ZC_SI) comp_set(D, &r); else element_set(D, A); break;
    default: if (z->kind == ZK_GF3 || z->kind == ZK_GF32 || z->kind == ZK_GF33) D->field->cubic(D, A); else if (c & ZC_FIN) { element_t u; element_init(u, D->field); element_set(u, A); element_mul(D, A, A); element_sub(D, D, u); element_clear(u); } else element_set(D, A); break;
  }
  mpz_clear(t);
  zoo_canon_guard(z, D);
  return d;
}
