#include "world.h"
#include <assert.h>

const char *const world_ops[] = {
  "zr_arith", "group_op", "power", "power2", "power3", "power_table", "set_base", "hash_to_group", "pairing", "pairing_pp", "prod_pairings",
  "coddh", "compare", "batch", "random_element", "send", "deliver", "drop", "persist", "crash", "restart", "rng_fault", "hash_to_gt", "print", "pairing_swapped" };

static int vn(int g) { return g == GZ ? 1 : g == GT_ ? NB * NB : NB; }
static void v_init(vec_t *v, int g) { for (int i = 0; i < vn(g); i++) mpz_init(v->c[i]); }
static void v_clear(vec_t *v, int g) { for (int i = 0; i < vn(g); i++) mpz_clear(v->c[i]); }
static void v_set(vec_t *d, const vec_t *s, int g) { for (int i = 0; i < vn(g); i++) mpz_set(d->c[i], s->c[i]); }
static void v_zero(vec_t *d, int g) { for (int i = 0; i < vn(g); i++) mpz_set_ui(d->c[i], 0); }
static void v_mod(vec_t *d, int g, mpz_t r) { for (int i = 0; i < vn(g); i++) mpz_mod(d->c[i], d->c[i], r); }
static void v_mul(vec_t *d, const vec_t *s, const mpz_t k, int g, mpz_t r) { for (int i = 0; i < vn(g); i++) { mpz_mul(d->c[i], s->c[i], k); mpz_mod(d->c[i], d->c[i], r); } }
static void v_addmul(vec_t *d, const vec_t *s, const mpz_t k, int g, mpz_t r) { for (int i = 0; i < vn(g); i++) { mpz_addmul(d->c[i], s->c[i], k); mpz_mod(d->c[i], d->c[i], r); } }

field_ptr world_field(pairing_ptr p, int g) { return g == GZ ? p->Zr : g == G1_ ? p->G1 : g == G2_ ? p->G2 : p->GT; }
static field_ptr fld(pairing_ptr p, int g) { return g == GZ ? p->Zr : g == G1_ ? p->G1 : g == G2_ ? p->G2 : p->GT; }
static void use_backend(int b) { pbc_tweak_use_fp(backends[b & 3]); }
static void use_rng(rsrc_t *s) { rsrc_install(s); }

void node_up(world_t *w, int i) {
  node_t *n = &w->n[i];
  use_backend(n->backend); use_rng(&n->rs);
  if (pairing_init_set_str(n->pr, w->f->text)) sim_fail("load", "good parameters were rejected");
  char *m = method_name(w->f, n->method);
  if (m) pairing_option_set(n->pr, "method", m);
  for (int g = 0; g < 4; g++) for (int s = 0; s < NS; s++) { element_init(n->s[g][s], fld(n->pr, g)); if (w->model) v_zero(&n->m[g][s], g); }
  n->up = 1;
}
void node_down(world_t *w, int i) {
  node_t *n = &w->n[i];
  if (!n->up) return;
  for (int g = 0; g < 4; g++) for (int s = 0; s < NS; s++) element_clear(n->s[g][s]);
  pairing_clear(n->pr);
  n->up = 0;
}
static void carry(element_t dst, element_t src) { // move a value between instances over the wire format
  if (dst->field == src->field) { element_set(dst, src); return; }
  if (element_is0(src)) { element_set0(dst); return; }
  int len = element_length_in_bytes(src);
  unsigned char *b = raw_malloc((size_t)len);
  element_to_bytes(b, src); element_from_bytes(dst, b);
  free(b);
}

int world_own_observer;
static const fam_t *wfam;
void world_init(world_t *w, const fam_t *f, u64 seed, int nn, const int *backend, const int *method, int model) {
  memset(w, 0, sizeof *w);
  w->f = f; wfam = f; w->seed = seed; w->nn = f->wire ? nn : 1; w->model = model;
  rng_t r; rng_init(&r, seed ^ 0x57a7);
  for (int i = 0; i < w->nn; i++) {
    node_t *n = &w->n[i];
    n->backend = backend[i] & 3; n->method = method[i];
    rsrc_init(&n->rs, mix(seed, (u64)i + 11));
    if (model) for (int g = 0; g < 4; g++) for (int s = 0; s < NS; s++) { v_init(&n->m[g][s], g); v_init(&n->dm[g][s], g); }
    node_up(w, i);
  }
  rsrc_init(&w->obrs, mix(seed, 99));
  use_rng(&w->obrs);
  for (int i = 0; i < NB; i++) { w->hlen[i] = 1 + (int)rng_n(&r, i == 1 ? 4 : rng_p(&r, 1, 4) ? 255 : 60); for (int k = 0; k < w->hlen[i]; k++) w->hmsg[i][k] = (unsigned char)rng_next(&r); }
  if (rng_p(&r, 1, 4)) memset(w->hmsg[2], rng_p(&r, 1, 2) ? 0xff : 0, 256);
  if ((model || world_own_observer) && f->wire) {
    use_backend(1);
    if (pairing_init_set_str(w->ob, f->text)) sim_fail("load", "good parameters were rejected");
    w->ob_own = 1;
  }
  pairing_ptr ob = w->ob_own ? w->ob : w->n[0].pr;
  for (int i = 0; i < NB; i++) { element_init(w->base1[i], ob->G1); element_init(w->base2[i], ob->G2); for (int j = 0; j < NB; j++) element_init(w->baseT[i * NB + j], ob->GT); }
  for (int t = 0; t < 4; t++) {
    element_random(w->base1[0]); element_random(w->base2[0]);
    if (!f->wire && !element_is0(w->base1[0]) && !element_is0(w->base2[0])) break;
    element_pairing(w->baseT[0], w->base1[0], w->base2[0]);
    if (!element_is1(w->baseT[0])) break;
    if (t == 3) sim_fail("degenerate", "pairing of independent random elements is always the identity");
  }
  for (int i = 1; i < NB; i++) {
    if (f->wire) { element_from_hash(w->base1[i], w->hmsg[i], w->hlen[i]); element_from_hash(w->base2[i], w->hmsg[i], w->hlen[i]); }
    else { element_random(w->base1[i]); element_random(w->base2[i]); }
  }
  if (model && f->wire) {
    rcurve_init(&w->rc, f);
    int len = element_length_in_bytes(w->base1[0]);
    unsigned char b[1024];
    rpt_t t; rpt_init(&t);
    for (int i = 0; i < NB; i++) {
      rpt_init(&w->rbase[i]);
      if (element_is0(w->base1[i])) continue;
      if (element_to_bytes(b, w->base1[i]) != len) sim_fail("length", "element wrote a different number of bytes than advertised");
      rpt_from_bytes(&w->rbase[i], b, len);
      if (!rpt_on(&w->rc, &w->rbase[i])) sim_fail("off-curve", "base element %d does not satisfy the curve equation", i);
      rpt_mul(&w->rc, &t, &w->rbase[i], ob->r);
      if (!t.inf) sim_fail("bad-order", "base element %d of G1 does not have order dividing r", i);
    }
    mpz_clear(t.x); mpz_clear(t.y);
  }
  // every party starts with the dealer's bases in its first slots
  for (int i = 0; i < w->nn; i++) {
    node_t *n = &w->n[i];
    carry(n->s[G1_][0], w->base1[0]); carry(n->s[G2_][0], w->base2[0]);
    if (model) { mpz_set_ui(n->m[G1_][0].c[0], 1); mpz_set_ui(n->m[G2_][0].c[0], 1); }
  }
}

static element_ptr base_T(world_t *w, int i, int j) {
  int k = i * NB + j;
  if (!w->haveT[k]) { element_pairing(w->baseT[k], w->base1[i], w->base2[j]); w->haveT[k] = 1; }
  return w->baseT[k];
}
static void expect(world_t *w, element_t out, const vec_t *v, int g) { // in the observer's instance
  element_t t; element_init_same_as(t, out);
  if (g == GT_) element_set1(out); else element_set0(out);
  for (int i = 0; i < vn(g); i++) if (mpz_sgn(v->c[i])) {
    element_ptr b = g == G1_ ? w->base1[i] : g == G2_ ? w->base2[i] : base_T(w, i / NB, i % NB);
    chain_mul(t, b, v->c[i], g == GT_);
    if (g == GT_) element_mul(out, out, t); else element_add(out, out, t);
  }
  element_clear(t);
}

static void check_slot(world_t *w, int ni, int g, int s, const char *what) {
  node_t *n = &w->n[ni];
  element_ptr e = n->s[g][s];
  if (!w->model) {
    if (w->quiet) return;
    if (w->f->wire || g == GZ) tr((u32)(g * 16 + s), elem_hash(e)); else tr((u32)(g * 16 + s), (u64)!!element_is0(e));
    return;
  }
  vec_t *v = &n->m[g][s];
  pairing_ptr ob = w->ob_own ? w->ob : w->n[0].pr;
  use_rng(&w->obrs);
  if (g == GZ) {
    mpz_t z; mpz_init(z);
    element_to_mpz(z, e);
    if (mpz_cmp(z, v->c[0])) { gmp_snprintf(NULL, 0, ""); char a[200], b[200]; gmp_snprintf(a, 200, "%Zx", z); gmp_snprintf(b, 200, "%Zx", v->c[0]); sim_fail("scalar", "%s: scalar is %s, reference %s (party %d slot %d, backend %s, %s)", what, a, b, ni, s, backends[n->backend], w->f->name); }
    if (!!element_is0(e) != !mpz_sgn(v->c[0]) || !!element_is1(e) != !mpz_cmp_ui(v->c[0], 1)) sim_fail("scalar-test", "%s: zero/one test of a scalar is wrong (%s)", what, w->f->name);
    unsigned char b1[600], b2[600]; int len = element_length_in_bytes(e);
    memset(b1, 0, sizeof b1); memset(b2, 0, sizeof b2);
    int k = element_to_bytes(b1, e);
    size_t kk = mpz_sgn(z) ? (mpz_sizeinbase(z, 2) + 7) / 8 : 0;
    if (kk) mpz_export(b2 + len - kk, NULL, 1, 1, 1, 0, z);
    if (k != len || memcmp(b1, b2, sizeof b1)) sim_fail("scalar-bytes", "%s: scalar encodes wrongly (%s)", what, w->f->name);
    trace_bytes(b1, (size_t)len);
    mpz_clear(z);
    return;
  }
  element_t x; element_init(x, fld(ob, g));
  if (!w->f->wire) {
    expect(w, x, v, g);
    if (element_cmp(x, e) || element_cmp(e, x)) sim_fail("value", "%s: group %d value differs from the reference (%s)", what, g, w->f->name);
    if (!!element_is1(x) != !!element_is1(e)) sim_fail("identity-test", "%s: identity test of group %d disagrees (%s)", what, g, w->f->name);
    element_clear(x);
    return;
  }
  int len = element_length_in_bytes(e);
  unsigned char b1[MSGB], b2[MSGB];
  if (g == G1_) {
    rpt_t acc, t; rpt_init(&acc); rpt_init(&t);
    for (int i = 0; i < NB; i++) if (mpz_sgn(v->c[i])) { rpt_mul(&w->rc, &t, &w->rbase[i], v->c[i]); rpt_add(&w->rc, &acc, &acc, &t); }
    if (!!element_is0(e) != acc.inf || !!element_is1(e) != acc.inf) sim_fail("identity", "%s: G1 value is %sthe identity but the reference is %s (party %d, backend %s, %s)", what, element_is0(e) ? "" : "not ", acc.inf ? "O" : "finite", ni, backends[n->backend], w->f->name);
    if (!acc.inf) {
      if (element_to_bytes(b1, e) != len) sim_fail("length", "%s: wrong byte count", what);
      rpt_to_bytes(b2, &acc, len);
      if (memcmp(b1, b2, (size_t)len)) { hexlog("got", b1, len); hexlog("ref", b2, len); sim_fail("value-g1", "%s: G1 value differs from the reference curve arithmetic (party %d, backend %s, %s)", what, ni, backends[n->backend], w->f->name); }
      trace_bytes(b1, (size_t)len);
    }
    mpz_clear(acc.x); mpz_clear(acc.y); mpz_clear(t.x); mpz_clear(t.y);
  } else {
    expect(w, x, v, g);
    element_t y; element_init(y, fld(ob, g));
    carry(y, e);
    if (element_cmp(x, y)) sim_fail(g == G2_ ? "value-g2" : "value-gt", "%s: %s value differs from the reference (party %d, backend %s, method %s, %s)", what, g == G2_ ? "G2" : "GT", ni, backends[n->backend], method_name(w->f, n->method) ? method_name(w->f, n->method) : "default", w->f->name);
    if (!(g == G2_ && w->f->g2quot)) {
      if (!!element_is1(x) != !!element_is1(e)) sim_fail("identity", "%s: identity test disagrees with the reference in group %d (%s)", what, g, w->f->name);
      if (!element_is1(x) || g == GT_) {
        if (element_to_bytes(b1, e) != len || element_to_bytes(b2, x) != len) sim_fail("length", "%s: wrong byte count", what);
        if (memcmp(b1, b2, (size_t)len)) { hexlog("got", b1, len); hexlog("ref", b2, len); sim_fail("bytes", "%s: equal values encode differently in group %d (%s)", what, g, w->f->name); }
        trace_bytes(b1, (size_t)len);
      }
    }
    element_clear(y);
  }
  element_clear(x);
}

void world_check_all(world_t *w) {
  for (int i = 0; i < w->nn; i++) if (w->n[i].up) for (int g = 0; g < 4; g++) for (int s = 0; s < NS; s++) check_slot(w, i, g, s, "final audit");
}
u64 world_state(world_t *w) {
  u64 h = hash_bytes(w->f->name, strlen(w->f->name), 5);
  for (int i = 0; i < w->nn; i++) {
    node_t *n = &w->n[i];
    h = mix(h, (u64)n->up * 64 + (u64)n->backend * 8 + (u64)n->method);
    if (n->up) for (int g = 1; g < 4; g++) for (int s = 0; s < NS; s++) h = h * 3 + (u64)!!element_is0(n->s[g][s]);
  }
  int infl = 0; for (int i = 0; i < MAXMSG; i++) infl += w->msg[i].used;
  return mix(h, (u64)infl);
}

static void edge_mpz(mpz_t z, u64 seed, mpz_t r) {
  rng_t g; rng_init(&g, seed);
  u32 k = rng_n(&g, 12);
  if (wfam && wfam->type == '1' && rng_p(&g, 1, 3) && !fam_param(wfam, rng_p(&g, 1, 2) ? "n0" : "n1", z)) { mpz_mul_ui(z, z, 1 + rng_n(&g, 3)); return; } // a multiple of one factor of a composite order
  if (k == 0) mpz_set(z, r);
  else if (k == 1) mpz_add_ui(z, r, 1);
  else if (k == 2) { mpz_mul_ui(z, r, 2); if (rng_p(&g, 1, 2)) mpz_sub_ui(z, z, 1); }
  else if (k == 3) { mpz_mul(z, r, r); mpz_uniform(z, &g, z); }
  else if (k == 4) { mpz_mul_2exp(z, r, 1 + rng_n(&g, rng_p(&g, 1, 4) && wfam && wfam->toy ? 11000 : 700)); mpz_uniform(z, &g, z); } // every window size of the powering code
  else mpz_edge(z, &g, r);
}
#define SL(k) ((int)((e->x >> (4 * (k))) & 15) % NS)

static void do_zr(world_t *w, int ni, const ev_t *e) {
  node_t *n = &w->n[ni];
  int d = SL(0), a = SL(1), b = SL(2);
  element_ptr D = n->s[GZ][d], A = n->s[GZ][a], B = n->s[GZ][b];
  mpz_ptr r = n->pr->r;
  mpz_t z, t, ma, mb; mpz_init(z); mpz_init(t);
  mpz_init(ma); mpz_init(mb);
  int M = w->model;
  element_to_mpz(ma, A); element_to_mpz(mb, B);
  if (M && (mpz_cmp(ma, n->m[GZ][a].c[0]) || mpz_cmp(mb, n->m[GZ][b].c[0]))) sim_fail("scalar", "scalar changed on its own");
  mpz_ptr md = t;
  rng_t g; rng_init(&g, e->a);
  switch (e->b % 27) {
    case 0: element_random(D); element_to_mpz(md, D); if (mpz_cmp(md, r) >= 0 || mpz_sgn(md) < 0) sim_fail("range", "random scalar out of range"); break;
    case 1: edge_mpz(z, e->a, r); element_set_mpz(D, z); mpz_mod(md, z, r); break;
    case 2: element_add(D, A, B); mpz_add(md, ma, mb); break;
    case 3: element_sub(D, A, B); mpz_sub(md, ma, mb); break;
    case 4: element_mul(D, A, B); mpz_mul(md, ma, mb); break;
    case 5: if (mpz_invert(z, mb, r)) { element_div(D, A, B); mpz_mul(md, ma, z); } else { element_set0(D); mpz_set_ui(md, 0); } break;
    case 6: if (mpz_invert(z, ma, r)) { element_invert(D, A); mpz_set(md, z); } else { element_set1(D); mpz_set_ui(md, 1); } break;
    case 7: element_neg(D, A); mpz_neg(md, ma); break;
    case 8: element_double(D, A); mpz_mul_ui(md, ma, 2); break;
    case 9: element_halve(D, A); mpz_set_ui(z, 2); mpz_invert(z, z, r); mpz_mul(md, ma, z); break;
    case 10: element_square(D, A); mpz_mul(md, ma, ma); break;
    case 11: { long k = rng_p(&g, 1, 3) ? (long)rng_n(&g, 5) - 2 : (long)rng_next(&g) >> rng_n(&g, 60); element_set_si(D, k); mpz_set_si(md, k); break; }
    case 12: { long k = rng_p(&g, 1, 3) ? (long)rng_n(&g, 5) - 2 : (long)rng_next(&g) >> rng_n(&g, 60); element_mul_si(D, A, k); mpz_mul_si(md, ma, k); break; }
    case 13: edge_mpz(z, e->a, r); element_mul_mpz(D, A, z); mpz_mul(md, ma, z); break;
    case 14: { unsigned long k = (unsigned long)rng_next(&g) >> rng_n(&g, 62); element_add_ui(D, A, k); mpz_add_ui(md, ma, k); break; }
    case 15: edge_mpz(z, e->a, r); if (!mpz_sgn(ma) && !mpz_sgn(z)) mpz_set_ui(z, 1); element_pow_mpz(D, A, z); mpz_powm(md, ma, z, r); break;
    case 16: if (!mpz_sgn(ma) && !mpz_sgn(mb)) { element_set1(D); mpz_set_ui(md, 1); } else { element_pow_zn(D, A, B); mpz_powm(md, ma, mb, r); } break;
    case 17: element_set(D, A); mpz_set(md, ma); break;
    case 18: element_set0(D); mpz_set_ui(md, 0); break;
    case 19: element_set1(D); mpz_set_ui(md, 1); break;
    case 20: { unsigned char h[300]; int len = 1 + (int)rng_n(&g, rng_p(&g, 1, 6) ? 299 : 70); for (int i = 0; i < len; i++) h[i] = (unsigned char)rng_next(&g);
      element_from_hash(D, h, len); element_to_mpz(md, D);
      if (mpz_cmp(md, r) >= 0) sim_fail("range", "hashed scalar out of range");
      if (M && w->ob_own) { element_t x; element_init(x, w->ob->Zr); element_from_hash(x, h, len); element_to_mpz(z, x); if (mpz_cmp(z, md)) sim_fail("hash-scalar", "two parties hash the same message to different scalars (%s, backend %s)", w->f->name, backends[n->backend]); element_clear(x); }
      break; }
    case 21: if (mpz_probab_prime_p(r, 10) && mpz_sgn(ma)) { // square roots of a residue
        element_square(D, A); if (!element_is_sqr(D)) sim_fail("residue", "a square is reported as non-residue (%s)", w->f->name);
        element_t x; element_init(x, n->pr->Zr); element_sqrt(x, D); element_square(x, x);
        if (element_cmp(x, D)) sim_fail("sqrt", "square root is wrong (%s)", w->f->name); element_clear(x); mpz_mul(md, ma, ma); }
      else { element_set0(D); mpz_set_ui(md, 0); } break;
    case 22: { char buf[700]; int base = 2 + (int)rng_n(&g, 35); (void)base; element_snprint(buf, sizeof buf, A); element_set_str(D, buf, 10); mpz_set(md, ma); break; }
    case 23: { int s1 = element_sign(A); element_t x; element_init(x, n->pr->Zr); element_neg(x, A); int s2 = element_sign(x);
      if (s1 != -s2 || (!s1 != !mpz_sgn(ma))) sim_fail("sign", "sign of a scalar and its negative are inconsistent (%s)", w->f->name);
      element_clear(x); element_set(D, A); mpz_set(md, ma); break; }
    case 25: case 26: { // a burst of single operations on awkward scalars
      mpz_t x, y; mpz_init(x); mpz_init(y); element_t X; element_init(X, n->pr->Zr); int prime = mpz_probab_prime_p(r, 10);
      for (int i = 0; i < 80; i++) {
        edge_mpz(x, rng_next(&g), r); edge_mpz(y, rng_next(&g), r); if (rng_p(&g, 1, 6)) mpz_set(y, x); if (rng_p(&g, 1, 4)) mpz_sub_ui(x, r, 1 + rng_n(&g, 3)); if (rng_p(&g, 1, 4)) mpz_sub_ui(y, r, 1 + rng_n(&g, 3));
        element_set_mpz(X, x); element_set_mpz(D, y); static const char *nm[] = { "sum", "difference", "product", "square", "quotient", "half", "power", "multiple" }; int o = (int)rng_n(&g, 8); if (o == 6 && i % 8) o = 2;
        switch (o) { case 0: element_add(D, X, D); mpz_add(md, x, y); break; case 1: element_sub(D, X, D); mpz_sub(md, x, y); break; case 2: element_mul(D, X, D); mpz_mul(md, x, y); break; case 3: element_square(D, X); mpz_mul(md, x, x); break;
          case 4: mpz_mod(z, y, r); if (prime && mpz_sgn(z) && mpz_invert(z, z, r)) { element_div(D, X, D); mpz_mul(md, x, z); } else mpz_set(md, y); break;
          case 5: element_halve(D, X); mpz_set_ui(z, 2); mpz_invert(z, z, r); mpz_mul(md, x, z); break;
          case 6: mpz_mod(z, x, r); if (!mpz_sgn(z) || !mpz_sgn(y)) mpz_set(md, y); else { element_pow_mpz(D, X, y); mpz_powm(md, x, y, r); } break;
          default: element_mul_mpz(D, X, y); mpz_mul(md, x, y); break; }
        mpz_mod(md, md, r); element_to_mpz(z, D);
        if (mpz_cmp(z, md)) sim_fail("scalar-op", "%s of awkward scalars is wrong (%s, backend %s)", nm[o], w->f->name, backends[n->backend]);
        if (element_is0(D) != !mpz_sgn(md) || element_is1(D) != !mpz_cmp_ui(md, 1)) sim_fail("scalar-op", "%s of awkward scalars is misjudged to be zero or one (%s)", nm[o], w->f->name);
      }
      mpz_clear(x); mpz_clear(y); element_clear(X); break; }
    default: { mpz_t z2; mpz_init(z2); edge_mpz(z, e->a, r); edge_mpz(z2, e->c, r);
      if (!mpz_sgn(z)) mpz_set_ui(z, 3); if (!mpz_sgn(z2)) mpz_set_ui(z2, 5);
      element_pow2_mpz(D, A, z, B, z2); mpz_powm(md, ma, z, r); mpz_powm(z, mb, z2, r); mpz_mul(md, md, z); mpz_clear(z2); break; }
  }
  mpz_mod(md, md, r);
  if (M) mpz_set(n->m[GZ][d].c[0], md);
  mpz_clear(z); mpz_clear(t); mpz_clear(ma); mpz_clear(mb);
  check_slot(w, ni, GZ, d, "scalar operation");
}

static void do_gop(world_t *w, int ni, const ev_t *e) {
  node_t *n = &w->n[ni];
  int g = 1 + (int)(e->b % 3), op = (int)(e->b / 3 % 14);
  int d = SL(0), a = SL(1), b = SL(2);
  element_ptr D = n->s[g][d], A = n->s[g][a], B = n->s[g][b];
  mpz_ptr r = n->pr->r;
  vec_t vd; mpz_t k; 
  if (w->model) { v_init(&vd, g); mpz_init(k); }
  #define VSET(s) do { if (w->model) v_set(&vd, &n->m[g][s], g); } while (0)
  #define VADD(s, kk) do { if (w->model) { mpz_set_si(k, kk); v_addmul(&vd, &n->m[g][s], k, g, r); } } while (0)
  switch (op) {
    case 0: element_add(D, A, B); VSET(a); VADD(b, 1); break;
    case 1: element_mul(D, A, B); VSET(a); VADD(b, 1); break;
    case 2: element_sub(D, A, B); VSET(a); VADD(b, -1); break;
    case 3: element_div(D, A, B); VSET(a); VADD(b, -1); break;
    case 4: element_neg(D, A); VADD(a, -1); break;
    case 5: element_invert(D, A); VADD(a, -1); break;
    case 6: element_double(D, A); VSET(a); VADD(a, 1); break;
    case 7: element_square(D, A); VSET(a); VADD(a, 1); break;
    case 8: element_set(D, A); VSET(a); break;
    case 9: element_set0(D); break;
    case 10: element_set1(D); break;
    case 11: element_add(D, D, A); VSET(d); VADD(a, 1); break;
    case 12: element_mul(D, A, D); VSET(a); VADD(d, 1); break;
    default: // cancel: D = A - A through separate objects
      { element_t x; element_init_same_as(x, A); element_neg(x, A);
        if (g != GT_ && w->f->curve && element_sign(A) != -element_sign(x)) sim_fail("sign", "a point and its negative have inconsistent signs (%s)", w->f->name);
        element_add(D, A, x); element_clear(x); } break;
  }
  if (w->model) { v_mod(&vd, g, r); v_set(&n->m[g][d], &vd, g); v_clear(&vd, g); mpz_clear(k); }
  check_slot(w, ni, g, d, "group operation");
}

static void do_pow(world_t *w, int ni, const ev_t *e, int kind) {
  node_t *n = &w->n[ni];
  int g = 1 + (int)(e->b % 3), zn = (int)(e->b / 3 & 1), add = (int)(e->b / 6 & 1);
  int d = SL(0), a[3] = { SL(1), SL(2), SL(3) }, z[3] = { SL(4), SL(5), SL(6) };
  element_ptr D = n->s[g][d];
  mpz_ptr r = n->pr->r;
  mpz_t k[3];
  for (int i = 0; i < 3; i++) { mpz_init(k[i]); if (zn) element_to_mpz(k[i], n->s[GZ][z[i]]); else edge_mpz(k[i], mix(e->a, (u64)i), r); }
  vec_t vd; if (w->model) v_init(&vd, g);
  int na = kind == W_POW2 ? 2 : kind == W_POW3 ? 3 : 1;
  if (w->model) for (int i = 0; i < na; i++) v_addmul(&vd, &n->m[g][a[i]], k[i], g, r);
  #define EA(i) n->s[g][a[i]]
  #define EZ(i) n->s[GZ][z[i]]
  if (kind == W_POW) {
    if (zn) { if (add) element_mul_zn(D, EA(0), EZ(0)); else element_pow_zn(D, EA(0), EZ(0)); }
    else { if (add) element_mul_mpz(D, EA(0), k[0]); else element_pow_mpz(D, EA(0), k[0]); }
  } else if (kind == W_POW2) {
    if (zn) element_pow2_zn(D, EA(0), EZ(0), EA(1), EZ(1)); else element_pow2_mpz(D, EA(0), k[0], EA(1), k[1]);
  } else if (kind == W_POW3) {
    if (zn) element_pow3_zn(D, EA(0), EZ(0), EA(1), EZ(1), EA(2), EZ(2)); else element_pow3_mpz(D, EA(0), k[0], EA(1), k[1], EA(2), k[2]);
  } else {
    element_pp_t pp; element_pp_init(pp, EA(0));
    if (zn) element_pp_pow_zn(D, EZ(0), pp); else element_pp_pow(D, k[0], pp);
    element_pp_clear(pp);
  }
  for (int i = 0; i < 3; i++) mpz_clear(k[i]);
  if (w->model) { v_set(&n->m[g][d], &vd, g); v_clear(&vd, g); }
  check_slot(w, ni, g, d, world_ops[kind]);
}

static void pair_vec(world_t *w, vec_t *out, vec_t *p, vec_t *q, mpz_t r) { // out += p (x) q
  for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) { mpz_addmul(out->c[i * NB + j], p->c[i], q->c[j]); mpz_mod(out->c[i * NB + j], out->c[i * NB + j], r); }
  (void)w;
}
static void do_pair(world_t *w, int ni, const ev_t *e, int kind) {
  node_t *n = &w->n[ni];
  mpz_ptr r = n->pr->r;
  int d = SL(0);
  element_ptr D = n->s[GT_][d];
  vec_t vd; if (w->model) v_init(&vd, GT_);
  if (kind == W_PAIR || kind == W_PAIRPP || kind == W_SWAPPAIR) {
    int a = SL(1), b = SL(2);
    element_ptr A = n->s[G1_][a], B = n->s[G2_][b];
    if (w->model) pair_vec(w, &vd, &n->m[G1_][a], &n->m[G2_][b], r);
    if (kind == W_PAIR) { if (e->b & 1) pairing_apply(D, A, B, n->pr); else element_pairing(D, A, B); }
    else if (kind == W_SWAPPAIR) { if (w->f->sym) element_pairing(D, B, A); else element_pairing(D, A, B); }
    else {
      pairing_pp_t pp; pairing_pp_init(pp, A, n->pr);
      if (e->b & 1) { element_t x, y; element_init_GT(x, n->pr); element_init_G2(y, n->pr); element_random(y); pairing_pp_apply(x, y, pp); element_clear(x); element_clear(y); }
      pairing_pp_apply(D, B, pp);
      pairing_pp_clear(pp);
    }
  } else {
    int k = 1 + (int)(e->b % 5); if (w->f->toy && (e->b >> 8) % 12 == 0) k += (int)((e->b >> 16) % 36);
    element_t P[40], Q[40];
    for (int i = 0; i < k; i++) {
      u64 h = i < 7 ? e->a >> (8 * i) : mix(e->a, (u64)i); int a = (int)(h & 15) % NS, b = (int)(h >> 4 & 15) % NS;
      element_init_G1(P[i], n->pr); element_init_G2(Q[i], n->pr);
      element_set(P[i], n->s[G1_][a]); element_set(Q[i], n->s[G2_][b]);
      if (w->model) pair_vec(w, &vd, &n->m[G1_][a], &n->m[G2_][b], r);
    }
    element_prod_pairing(D, P, Q, k);
    for (int i = 0; i < k; i++) { element_clear(P[i]); element_clear(Q[i]); }
  }
  if (w->model) { v_set(&n->m[GT_][d], &vd, GT_); v_clear(&vd, GT_); }
  check_slot(w, ni, GT_, d, world_ops[kind]);
}

static void do_multi(world_t *w, int ni, const ev_t *e) {
  node_t *n = &w->n[ni];
  mpz_ptr r = n->pr->r;
  int g = e->b & 1 ? G2_ : G1_, dbl = (int)(e->b >> 1 & 1), k = 1 + (int)((e->b >> 2) % NS), keep, inplace = (int)(e->b >> 8 & 1);
  if (!w->f->curve) return;
  keep = k; if (w->f->toy && (e->b >> 16) % 12 == 0) k = keep + (int)((e->b >> 24) % 32);
  element_t C[NS + 32], A[NS + 32], B[NS + 32]; vec_t vd[NS + 32]; mpz_t one; mpz_init_set_ui(one, 1);
  for (int i = 0; i < k; i++) {
    u64 h = i < 7 ? e->a >> (8 * i) : mix(e->a, (u64)i); int a = (int)(h & 15) % NS, b = (int)(h >> 4 & 15) % NS;
    element_init(C[i], fld(n->pr, g)); element_init(A[i], fld(n->pr, g)); element_init(B[i], fld(n->pr, g));
    element_set(A[i], n->s[g][a]); element_set(B[i], n->s[g][b]);
    element_set(C[i], n->s[g][i % NS]);
    if (w->model) { v_init(&vd[i], g); v_addmul(&vd[i], &n->m[g][a], one, g, r); v_addmul(&vd[i], &n->m[g][dbl ? a : b], one, g, r); }
  }
  element_t *out = inplace ? A : C;
  if (dbl) element_multi_double(out, A, k); else element_multi_add(out, A, B, k);
  for (int i = 0, o = k - keep; i < keep; i++) { element_set(n->s[g][i], out[i + o]); if (w->model) v_set(&n->m[g][i], &vd[i + o], g); } // the last ones of a long batch
  for (int i = 0; i < k; i++) { element_clear(C[i]); element_clear(A[i]); element_clear(B[i]); if (w->model) v_clear(&vd[i], g); }
  mpz_clear(one);
  for (int i = 0; i < keep; i++) check_slot(w, ni, g, i, "batched group operation");
}

static int encode(unsigned char *b, element_t e, int kind, int grp) {
  int len, k;
  if (kind == 1 && (grp == G1_ || grp == G2_) && !element_is0(e)) { len = element_length_in_bytes_compressed(e); k = element_to_bytes_compressed(b, e); }
  else { len = element_length_in_bytes(e); k = element_to_bytes(b, e); }
  if (k != len) sim_fail("length", "encoding wrote %d bytes, advertised %d", k, len);
  return len;
}
static void decode(element_t e, const unsigned char *b, int len, int kind, int compressed) {
  int k = compressed ? element_from_bytes_compressed(e, b) : element_from_bytes(e, b);
  (void)kind;
  if (k != len) sim_fail("length", "decoding consumed %d bytes of %d", k, len);
}

void world_event(world_t *w, const ev_t *e) {
  int ni = e->who % w->nn;
  node_t *n = &w->n[ni];
  if (!n->up && e->op != W_RESTART && e->op != W_DELIVER && e->op != W_DROP) return;
  use_backend(n->backend);
  use_rng(&n->rs);
  switch (e->op) {
    case W_ZR: do_zr(w, ni, e); break;
    case W_GOP: do_gop(w, ni, e); break;
    case W_POW: case W_POW2: case W_POW3: case W_PP: do_pow(w, ni, e, e->op); break;
    case W_PAIR: case W_PAIRPP: case W_PROD: case W_SWAPPAIR: do_pair(w, ni, e, e->op); break;
    case W_MULTI: do_multi(w, ni, e); break;
    case W_SETBASE: {
      if (!w->f->wire) break;
      int g = e->b & 1 ? G2_ : G1_, d = SL(0);
      carry(n->s[g][d], g == G1_ ? w->base1[0] : w->base2[0]);
      if (w->model) { v_zero(&n->m[g][d], g); mpz_set_ui(n->m[g][d].c[0], 1); }
      check_slot(w, ni, g, d, "set base");
      break; }
    case W_HASH: {
      int g = e->b & 1 ? G2_ : G1_, d = SL(0), h = 1 + (int)(e->a % (NB - 1));
      if (w->f->wire) element_from_hash(n->s[g][d], w->hmsg[h], w->hlen[h]); else element_set(n->s[g][d], g == G1_ ? w->base1[h] : w->base2[h]);
      if (w->model) { v_zero(&n->m[g][d], g); mpz_set_ui(n->m[g][d].c[h], 1); }
      check_slot(w, ni, g, d, "hash to group");
      break; }
    case W_GTHASH: {
      if (!w->f->wire) break;
      element_t x; element_init_GT(x, n->pr);
      int h = (int)(e->a % NB);
      element_from_hash(x, w->hmsg[h], w->hlen[h]);
      if (w->model) {
        element_t y, z; element_init_GT(y, w->ob); element_init_GT(z, w->ob);
        use_rng(&w->obrs);
        element_from_hash(y, w->hmsg[h], w->hlen[h]); carry(z, x);
        if (element_cmp(y, z)) sim_fail("hash-gt", "two parties hash the same message to different GT elements (%s)", w->f->name);
        chain_mul(z, y, n->pr->r, 1);
        if (!element_is1(z)) sim_fail("hash-gt-order", "hashed GT element is not in the group (%s)", w->f->name);
        element_clear(y); element_clear(z);
      } else if (!w->quiet) tr(500, elem_hash(x));
      element_clear(x);
      break; }
    case W_CODDH: {
      if (!w->f->wire && 0) break;
      element_t a, b, c, d; mpz_t x; mpz_init(x);
      element_init_G1(a, n->pr); element_init_G1(b, n->pr); element_init_G2(c, n->pr); element_init_G2(d, n->pr);
      element_set(a, n->s[G1_][0]); element_set(c, n->s[G2_][0]);
      int want = -1;
      if (!element_is0(a) && !element_is0(c)) {
        edge_mpz(x, e->a, n->pr->r);
        element_mul_mpz(b, a, x);
        int mode = (int)(e->b % 3);
        if (mode == 1) mpz_sub(x, n->pr->r, x), mpz_mod(x, x, n->pr->r);
        if (mode == 2) { mpz_t y; mpz_init(y); mpz_mod(y, x, n->pr->r); mpz_add_ui(x, x, 1); mpz_mod(x, x, n->pr->r); 
          want = !mpz_cmp(x, y); mpz_sub(y, n->pr->r, y); mpz_mod(y, y, n->pr->r); if (!mpz_cmp(x, y)) want = 1; mpz_clear(y); } else want = 1;
        element_mul_mpz(d, c, x);
        {
          int got = is_almost_coddh(a, b, c, d, n->pr);
          // Only judged when the operands are known to be independent of full order.
          if (w->model && mpz_probab_prime_p(n->pr->r, 10) && (mode != 2 || w->f->wire)) {
            element_t q; element_init_GT(q, n->pr); element_pairing(q, a, c);
            if (!element_is1(q) && !!got != want) sim_fail("coddh", "is_almost_coddh says %d, expected %d (%s)", got, want, w->f->name);
            element_clear(q);
          } else if (!w->model && !w->quiet) tr(501, (u64)!!got);
        }
      }
      element_clear(a); element_clear(b); element_clear(c); element_clear(d); mpz_clear(x);
      break; }
    case W_CMP: {
      int g = (int)(e->b % 4), a = SL(1), b = SL(2);
      int c1 = element_cmp(n->s[g][a], n->s[g][b]), c2 = element_cmp(n->s[g][b], n->s[g][a]);
      if (!c1 != !c2) sim_fail("cmp-asym", "comparison is not symmetric in group %d (%s)", g, w->f->name);
      if (w->model) {
        int eq;
        use_rng(&w->obrs);
        if (g == GZ) eq = !mpz_cmp(n->m[g][a].c[0], n->m[g][b].c[0]);
        else {
          pairing_ptr ob = w->ob_own ? w->ob : w->n[0].pr;
          element_t x, y; element_init(x, fld(ob, g)); element_init(y, fld(ob, g));
          expect(w, x, &n->m[g][a], g); expect(w, y, &n->m[g][b], g);
          eq = !element_cmp(x, y);
          element_clear(x); element_clear(y);
        }
        if (eq != !c1) sim_fail("cmp", "comparison in group %d says %s but values are %s (%s, backend %s)", g, c1 ? "different" : "equal", eq ? "equal" : "different", w->f->name, backends[n->backend]);
      } else if (!w->quiet) tr(502, (u64)!!c1);
      break; }
    case W_RANDOM: {
      int g = 1 + (int)(e->b % 3);
      element_t x; element_init(x, fld(n->pr, g));
      element_random(x);
      if (w->model && w->f->wire && !element_is0(x)) {
        int len = element_length_in_bytes(x); unsigned char b[MSGB];
        element_to_bytes(b, x);
        if (g == G1_) {
          rpt_t p, q; rpt_init(&p); rpt_init(&q); rpt_from_bytes(&p, b, len);
          if (!rpt_on(&w->rc, &p)) sim_fail("random-off-curve", "random G1 element is not on the curve (%s)", w->f->name);
          rpt_mul(&w->rc, &q, &p, n->pr->r);
          if (!q.inf) sim_fail("random-order", "random G1 element is not in the group of order r (%s)", w->f->name);
          mpz_clear(p.x); mpz_clear(p.y); mpz_clear(q.x); mpz_clear(q.y);
        } else {
          use_rng(&w->obrs);
          element_t y; element_init(y, fld(w->ob, g)); carry(y, x);
          element_t z; element_init(z, fld(w->ob, g)); element_set(z, y);
          chain_mul(z, y, n->pr->r, g == GT_);
          element_t o; element_init(o, fld(w->ob, g)); element_set1(o);
          if (element_cmp(z, o)) sim_fail("random-order", "random element of group %d is not in the group of order r (%s)", g, w->f->name);
          element_clear(y); element_clear(z); element_clear(o);
        }
        trace_bytes(b, (size_t)len);
      } else if (!w->model && !w->quiet && w->f->wire) tr(503, elem_hash(x));
      element_clear(x);
      break; }
    case W_SEND: {
      int g = (int)(e->b % 4), s = SL(1), k = -1;
      if (!w->f->wire) break;
      for (int i = 0; i < MAXMSG; i++) if (!w->msg[i].used) { k = i; break; }
      if (k < 0) break;
      msg_t *m = &w->msg[k];
      m->grp = g; m->kind = (g == G1_ || g == G2_) && (e->b >> 4 & 1) && !element_is0(n->s[g][s]) ? 1 : 0;
      m->len = encode(m->b, n->s[g][s], m->kind, g);
      if (w->model) { v_init(&m->m, g); v_set(&m->m, &n->m[g][s], g); }
      m->used = 1;
      break; }
    case W_DELIVER: case W_DROP: {
      int k = -1, c = 0;
      for (int i = 0; i < MAXMSG; i++) c += w->msg[i].used;
      if (!c) break;
      int pick = (int)(e->a % (u64)c); // any in-flight message: reordering
      for (int i = 0; i < MAXMSG; i++) if (w->msg[i].used && pick-- == 0) { k = i; break; }
      msg_t *m = &w->msg[k];
      if (e->op == W_DELIVER && n->up) {
        int d = SL(0);
        if (pick) count("fault.net_reorder");
        decode(n->s[m->grp][d], m->b, m->len, m->grp, m->kind);
        if (w->model) v_set(&n->m[m->grp][d], &m->m, m->grp);
        check_slot(w, ni, m->grp, d, "message delivery");
        if (e->b & 1) { count("fault.net_duplicate"); break; } // stays in flight: will be delivered again
      } else count("fault.net_loss");
      if (w->model) v_clear(&m->m, m->grp);
      m->used = 0;
      break; }
    case W_PERSIST:
      if (!w->f->wire) break;
      for (int g = 0; g < 4; g++) for (int s = 0; s < NS; s++) {
        free(n->disk[g][s]);
        n->disk[g][s] = raw_malloc(MSGB);
        n->dlen[g][s] = encode(n->disk[g][s], n->s[g][s], 0, g);
        if (w->model) v_set(&n->dm[g][s], &n->m[g][s], g);
      }
      n->saved = 1;
      break;
    case W_CRASH:
      if (!w->f->wire) break; // the observer lives in this instance
      count("fault.crash");
      node_down(w, ni);
      break;
    case W_RESTART: {
      if (n->up || !w->f->wire) break;
      count("fault.restart");
      n->backend = (int)(e->a & 3); n->method = (int)(e->b & 3);
      node_up(w, ni);
      if (n->saved) for (int g = 0; g < 4; g++) for (int s = 0; s < NS; s++) {
        decode(n->s[g][s], n->disk[g][s], n->dlen[g][s], g, 0);
        if (w->model) v_set(&n->m[g][s], &n->dm[g][s], g);
        check_slot(w, ni, g, s, "restart from disk");
      }
      break; }
    case W_RNGFAULT: rsrc_fault(&n->rs, 1 + (int)(e->a % (NRM - 1)), 1 + (long)(e->b % 12)); break;
    case W_PRINT: {
      int g = (int)(e->b % 4), s = SL(1);
      if (!w->f->wire && g != GZ) break;
      char buf[8192]; int k = element_snprint(buf, sizeof buf, n->s[g][s]);
      if (k < 0 || k >= (int)sizeof buf || (int)strlen(buf) != k) sim_fail("print", "printed length is wrong (%s)", w->f->name);
      element_t x; element_init(x, fld(n->pr, g));
      int c = element_set_str(x, buf, 10);
      if (c != k) sim_fail("print-parse", "printed text of group %d is not read back completely: %d of %d (%s)", g, c, k, w->f->name);
      if (element_cmp(x, n->s[g][s])) sim_fail("print-parse", "printed text of group %d reads back as another value (%s)", g, w->f->name);
      element_clear(x);
      if (!w->quiet) tr_bytes(504, buf, (size_t)k);
      break; }
  }
}

void world_clear(world_t *w) {
  for (int i = 0; i < NB; i++) { element_clear(w->base1[i]); element_clear(w->base2[i]); for (int j = 0; j < NB; j++) element_clear(w->baseT[i * NB + j]); }
  for (int i = 0; i < w->nn; i++) {
    node_down(w, i);
    for (int g = 0; g < 4; g++) for (int s = 0; s < NS; s++) { free(w->n[i].disk[g][s]); if (w->model) { v_clear(&w->n[i].m[g][s], g); v_clear(&w->n[i].dm[g][s], g); } }
  }
  if (w->ob_own) pairing_clear(w->ob);
}

void world_gen_event(rng_t *r, plan_t *p, int nn) {
  static const int wt[W_NOPS] = { 10, 14, 8, 3, 3, 3, 2, 5, 8, 3, 4, 2, 3, 4, 2, 6, 7, 1, 2, 1, 2, 2, 1, 2, 2 };
  int tot = 0, op; for (int i = 0; i < W_NOPS; i++) tot += wt[i];
  int k = (int)rng_n(r, (u32)tot);
  for (op = 0; k >= wt[op]; op++) k -= wt[op];
  u32 x = (u32)rng_next(r);
  if (rng_p(r, 1, 5)) x = (x & ~0xffu) | ((x & 15) * 0x11);      // alias dst and first operand
  if (rng_p(r, 1, 6)) x = (x & ~0xff0u) | ((x >> 4 & 15) * 0x110); // equal operands
  plan_add(p, op, (int)rng_n(r, (u32)nn), x, rng_next(r), rng_next(r), rng_next(r));
}
void world_gen(rng_t *r, plan_t *p, int nev, int nn) {
  for (int i = 0; i < nev; i++) {
    world_gen_event(r, p, nn);
    ev_t *e = &p->ev[p->n - 1];
    if (e->op == W_CRASH) { // bias: usually come back soon
      if (rng_p(r, 1, 2) && p->n >= 2) { ev_t c = *e; e->op = W_PERSIST; plan_add(p, W_CRASH, c.who, 0, 0, 0, 0); }
      if (rng_p(r, 3, 4)) plan_add(p, W_RESTART, e->who, 0, rng_next(r), rng_next(r), 0);
    }
  }
}
