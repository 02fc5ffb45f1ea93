#include "world.h"
#include "zoo.h"
#include "pbc_z.h"
#include "pbc_fieldquadratic.h"
#include "pbc_poly.h"
// P02: stored values survive crash and restart unchanged.
enum { C_FAM, C_BE, C_ME, C_FILL, C_MOVE, C_REUSE, C_Z0, C_Z1, C_ZS0, C_ZS1 };
enum { O_WORLD, O_ZOO, O_STORE, O_TORN, O_CRASH, O_RING, O_N };
static const char *const ops[] = { "world_op", "field_op", "store", "torn_store", "crash_restart", "integer_coefficients" };
enum { E_BYTES, E_COMP, E_XONLY, E_SNP, E_OUT, E_N };
static const char *const encn[] = { "bytes", "compressed", "x-only", "snprint", "out_str" };
typedef struct { int used, src, grp, enc, base, len, is0; u64 h; unsigned char *b; } rec2_t;
enum { NREC = 48, ZSL = 4 };
static rec2_t rc[NREC]; static int nrc;
static world_t w; static zoo_t zo[2]; static element_t zs[2][ZSL];
static int be;
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FAM] = fam_pick(r, 0, 1, 12);
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_ME] = rng_n(r, 4);
  p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_MOVE] = rng_n(r, 2); p->cfg[C_REUSE] = 1 + rng_n(r, 2);
  p->cfg[C_Z0] = zoo_kind_pick(r); p->cfg[C_Z1] = rng_n(r, ZK_N);
  p->cfg[C_ZS0] = (int64_t)(rng_next(r) >> 2); p->cfg[C_ZS1] = (int64_t)(rng_next(r) >> 2);
  static const int ok[] = { W_ZR, W_ZR, W_GOP, W_GOP, W_GOP, W_POW, W_SETBASE, W_HASH, W_PAIR, W_PROD, W_MULTI, W_RNGFAULT };
  int n = fams[p->cfg[C_FAM]].toy ? 30 + (int)rng_n(r, 60) : 10 + (int)rng_n(r, 14);
  for (int i = 0; i < n; i++) {
    u32 k = rng_n(r, 41) / 2, x = (u32)rng_next(r);
    if (rng_p(r, 1, 5)) x = (x & ~0xffu) | ((x & 15) * 0x11);
    if (k < 5) { plan_add(p, O_WORLD, ok[rng_n(r, sizeof ok / sizeof *ok)], x, rng_next(r), rng_next(r), rng_next(r)); }
    else if (k < 9) plan_add(p, O_ZOO, (int)rng_n(r, 2), x, rng_next(r), 0, 0);
    else if (k < 17) plan_add(p, O_STORE, (int)rng_n(r, 6), x, rng_n(r, E_N), 0, 0);
    else if (k < 18) plan_add(p, O_TORN, (int)rng_n(r, 6), x, rng_n(r, E_N), rng_next(r), 0);
    else if (k < 20) plan_add(p, O_CRASH, 0, 0, rng_n(r, 4), rng_n(r, 4), rng_next(r));
    else plan_add(p, O_RING, (int)rng_n(r, 3), x, rng_next(r), 0, 0);
  }
  plan_add(p, O_CRASH, 0, 0, rng_n(r, 4), rng_n(r, 4), rng_next(r));
}
static field_ptr field_of(int src, int grp) { return src < 4 ? world_field(w.n[0].pr, grp) : zo[src - 4].F; }
static const char *src_name(int src, int grp) { static const char *const g[] = { "Zr", "G1", "G2", "GT" }; return src < 4 ? g[grp] : zoo_names[zo[src - 4].kind]; }
static void store(const ev_t *e, int torn) {
  int src = e->who % 6, grp = src & 3;
  element_ptr el = src < 4 ? w.n[0].s[grp][e->x % NS] : zs[src - 4][e->x % ZSL];
  int enc = (int)(e->a % E_N);
  unsigned caps = src < 4 ? ZC_BYTES | ZC_STR : zo[src - 4].caps;
  int is0 = !!element_is0(el), curve = src < 4 && (grp == G1_ || grp == G2_);
  if ((enc == E_COMP || enc == E_XONLY) && (!curve || is0)) enc = E_BYTES;
  if ((enc == E_SNP || enc == E_OUT) && !(caps & ZC_STR)) enc = E_BYTES;
  if (enc == E_BYTES && !(caps & ZC_BYTES)) return;
  const char *nm = src_name(src, grp);
  static const int bases[] = { 10, 16, 2, 36, 8, 35, 3, 10 };
  rec2_t t; memset(&t, 0, sizeof t);
  t.src = src; t.grp = grp; t.enc = enc; t.is0 = is0; t.base = enc == E_OUT ? bases[e->x >> 8 & 7] : 10;
  t.h = canon(el);
  u64 before = t.h;
  if (enc <= E_XONLY) {
    int len = enc == E_BYTES ? element_length_in_bytes(el) : enc == E_COMP ? element_length_in_bytes_compressed(el) : element_length_in_bytes_x_only(el);
    if (src < 4 && w.f->wire) {
      pairing_ptr pr = w.n[0].pr; int pl = -1;
      if (enc == E_BYTES) pl = grp == GZ ? pairing_length_in_bytes_Zr(pr) : grp == G1_ ? pairing_length_in_bytes_G1(pr) : grp == G2_ ? pairing_length_in_bytes_G2(pr) : pairing_length_in_bytes_GT(pr);
      else if (enc == E_COMP) pl = grp == G1_ ? pairing_length_in_bytes_compressed_G1(pr) : pairing_length_in_bytes_compressed_G2(pr);
      else pl = grp == G1_ ? pairing_length_in_bytes_x_only_G1(pr) : pairing_length_in_bytes_x_only_G2(pr);
      if (pl != len) sim_fail("length-pairing", "the pairing advertises %d bytes for %s, the element %d (%s)", pl, nm, len, w.f->name);
    }
    if (len <= 0 || len > 60000) sim_fail("length", "advertised length %d of %s", len, nm);
    unsigned char *first = NULL;
    for (int pass = 0; pass < 2; pass++) {
      int fill = pass ? 0xC3 : 0x00;
      unsigned char *b = edge_buf(0, (size_t)len, fill);
      int k = enc == E_BYTES ? element_to_bytes(b, el) : enc == E_COMP ? element_to_bytes_compressed(b, el) : element_to_bytes_x_only(b, el);
      if (k != len) sim_fail("length-written", "%s %s encoding wrote %d bytes, advertised %d (%s)", nm, encn[enc], k, len, w.f->name);
      for (int i = 1; i <= 64; i++) if (b[-i] != (unsigned char)fill) sim_fail("underrun", "%s %s encoding wrote before its buffer", nm, encn[enc]);
      if (!pass) { first = malloc((size_t)len); memcpy(first, b, (size_t)len); }
      else if (memcmp(first, b, (size_t)len)) sim_fail("unwritten", "%s %s encoding depends on what the buffer held before (%s)", nm, encn[enc], w.f->name);
    }
    t.len = len; t.b = first;
  } else {
    char buf[16384]; int k;
    if (enc == E_SNP) { k = element_snprint(buf, sizeof buf, el); }
    else {
      fsink_t sk; memset(&sk, 0, sizeof sk); sk.buf = buf; sk.cap = sizeof buf - 1; sk.limit = sizeof buf - 1;
      FILE *fp = fsink_open(&sk, _IOFBF);
      element_out_str(fp, t.base, el);
      fclose(fp); buf[sk.len] = 0; k = (int)sk.len;
    }
    if (k <= 0 || k >= (int)sizeof buf || (int)strlen(buf) != k) sim_fail("text-length", "%s printed as %d characters", nm, k);
    t.len = k; t.b = malloc((size_t)k + 1); memcpy(t.b, buf, (size_t)k + 1);
  }
  if (canon(el) != before) sim_fail("encode-changes", "encoding %s changed it", nm);
  if (torn) { count("fault.torn_store"); free(t.b); return; } // incomplete record: recovery discards it
  count(is0 ? "probe.stored_identity" : "probe.stored_value");
  int i = nrc < NREC ? nrc++ : (int)(e->x % NREC);
  free(rc[i].b); t.used = 1; rc[i] = t;
  trace_bytes(t.b, (size_t)t.len);
}
static void recover(void) {
  for (int i = 0; i < nrc; i++) {
    rec2_t *t = &rc[i];
    element_t x; element_init(x, field_of(t->src, t->grp));
    const char *nm = src_name(t->src, t->grp);
    if (i & 1) { // decode over an existing value
      if (t->src < 4) element_set(x, w.n[0].s[t->grp][i % NS]); else element_set(x, zs[t->src - 4][i % ZSL]);
    }
    int k;
    if (t->enc <= E_XONLY) {
      unsigned char *b = edge_buf(1, (size_t)t->len, 0x99);
      memcpy(b, t->b, (size_t)t->len); edge_lock(1, 1);
      k = t->enc == E_BYTES ? element_from_bytes(x, b) : t->enc == E_COMP ? element_from_bytes_compressed(x, b) : element_from_bytes_x_only(x, b);
    } else {
      unsigned char *b = edge_buf(1, (size_t)t->len + 2, 0x99);
      memcpy(b, t->b, (size_t)t->len); b[t->len] = ';'; b[t->len + 1] = 0;
      edge_lock(1, 1);
      k = element_set_str(x, (char *)b, t->base);
    }
    if (k != t->len) sim_fail("length-consumed", "reloading %s from %s consumed %d of %d (%s)", nm, encn[t->enc], k, t->len, t->src < 4 ? w.f->name : "");
    u64 h = canon(x);
    int ok = h == t->h;
    if (!ok && t->enc == E_XONLY) { element_neg(x, x); ok = canon(x) == t->h; }
    if (!ok) sim_fail("lost-value", "%s stored as %s (base %d, %d bytes) reloads as another value (backend %s, %s)", nm, encn[t->enc], t->base, t->len, backends[be], t->src < 4 ? w.f->name : "");
    if (t->is0 != !!element_is0(x)) sim_fail("lost-value", "identity test of reloaded %s differs", nm);
    // the reloaded value compares equal to one rebuilt from its own encoding
    element_clear(x);
  }
  count_n("probe.records_recovered", (u64)nrc);
}
// values of extensions of the integers have no fixed length: each says its own
typedef struct { field_t Z, A, B; field_ptr F; int kind, n; } ring_t;
static void ring_up(ring_t *g, int kind, rng_t *r) {
  g->kind = kind; field_init_z(g->Z);
  if (kind < 2) { field_init_fi(g->A, g->Z); g->F = g->A; g->n = 2; if (kind) { field_init_fi(g->B, g->A); g->F = g->B; g->n = 4; } }
  else { field_init_poly(g->A, g->Z); element_t f; element_init(f, g->A); g->n = 2 + (int)rng_n(r, 4); element_t c; element_init(c, g->Z); for (int i = 0; i <= g->n; i++) { element_set_si(c, i == g->n ? 1 : (long)rng_n(r, 9) - 4); poly_set_coeff(f, c, (unsigned)i); } element_clear(c); field_init_polymod(g->B, f); element_clear(f); g->F = g->B; }
}
static void ring_down(ring_t *g) { if (g->kind) field_clear(g->B); field_clear(g->A); field_clear(g->Z); }
static element_ptr ring_coeff(ring_t *g, element_ptr e, int i) { return g->kind == 1 ? element_item(element_item(e, i >> 1), i & 1) : element_item(e, i); }
static void ring_store(const ev_t *e) {
  rng_t r; rng_init(&r, e->a); ring_t g; u64 shape = rng_next(&r); rng_t r1; rng_init(&r1, shape); ring_up(&g, e->who % 3, &r1);
  element_t x, y; element_init(x, g.F); element_init(y, g.F); mpz_t z[8], t; mpz_init(t);
  for (int pass = 0; pass < 2; pass++) for (int i = 0; i < g.n; i++) { mpz_init(z[i]); int b = (int)rng_n(&r, rng_p(&r, 1, 4) ? 8 : 140); mpz_set_ui(z[i], 1); mpz_mul_2exp(z[i], z[i], (mp_bitcnt_t)b); mpz_uniform(z[i], &r, z[i]); if (rng_p(&r, 1, 6)) { mpz_set_ui(z[i], 1); mpz_mul_2exp(z[i], z[i], 8 * rng_n(&r, 6)); mpz_sub_ui(z[i], z[i], rng_n(&r, 2)); } if (rng_p(&r, 1, 2)) mpz_neg(z[i], z[i]); element_set_mpz(ring_coeff(&g, pass ? y : x, i), z[i]); mpz_clear(z[i]); }
  if (rng_p(&r, 1, 2)) element_mul(x, x, y); if (rng_p(&r, 1, 2)) element_sub(x, x, y);
  for (int i = 0; i < g.n; i++) { mpz_init(z[i]); element_to_mpz(z[i], ring_coeff(&g, x, i)); }
  int len = element_length_in_bytes(x); if (len < 4 * g.n || len > 60000) sim_fail("length", "advertised length %d of integer extension element", len);
  unsigned char *b = edge_buf(0, (size_t)len, 0x5a), keep[4096]; int k = element_to_bytes(b, x); if (k != len) sim_fail("length-written", "extension of the integers: wrote %d bytes, advertised %d", k, len);
  for (int i = 1; i <= 64; i++) if (b[-i] != 0x5a) sim_fail("underrun", "extension of the integers: encoding wrote before its buffer");
  if (len > (int)sizeof keep) { count("probe.long"); len = 0; } memcpy(keep, b, (size_t)len); element_clear(x); element_clear(y); ring_down(&g); count("fault.crash");
  if (len) {
    rng_init(&r1, shape); ring_up(&g, e->who % 3, &r1); element_init(x, g.F); unsigned char *c = edge_buf(1, (size_t)len, 0x99); memcpy(c, keep, (size_t)len); edge_lock(1, 1);
    k = element_from_bytes(x, c); if (k != len) sim_fail("length-consumed", "extension of the integers: reloading consumed %d of %d", k, len);
    for (int i = 0; i < g.n; i++) { element_to_mpz(t, ring_coeff(&g, x, i)); if (mpz_cmp(t, z[i])) sim_fail("lost-value", "extension of the integers: a coefficient reloads as another value"); }
    element_clear(x); ring_down(&g); trace_bytes(keep, (size_t)len); count("probe.integer_extension");
  }
  for (int i = 0; i < g.n; i++) mpz_clear(z[i]); mpz_clear(t);
}
static void zup(plan_t *p) {
  for (int i = 0; i < 2; i++) {
    zoo_open(&zo[i], (int)p->cfg[C_Z0 + i] % ZK_N, (u64)p->cfg[C_ZS0 + i], be, 192);
    for (int k = 0; k < ZSL; k++) { element_init(zs[i][k], zo[i].F); }
  }
}
static void zdown(void) { for (int i = 0; i < 2; i++) { for (int k = 0; k < ZSL; k++) element_clear(zs[i][k]); zoo_close(&zo[i]); } }
static void run(plan_t *p, int v) {
  (void)v;
  amode_t m = { (int)p->cfg[C_FILL], (int)p->cfg[C_MOVE], (int)p->cfg[C_REUSE], p->seed };
  arena_install(&m);
  int b[4] = { (int)p->cfg[C_BE] }, me[4] = { (int)p->cfg[C_ME] };
  be = b[0]; world_own_observer = 1;
  world_init(&w, &fams[p->cfg[C_FAM] % nfams], p->seed, 1, b, me, 0);
  w.quiet = 1;
  rsrc_install(&w.n[0].rs);
  zup(p);
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    rsrc_install(&w.n[0].rs);
    switch (e->op) {
      case O_WORLD: { ev_t f = *e; f.op = e->who; f.who = 0; world_event(&w, &f); break; }
      case O_ZOO: { int k = e->who & 1; int d = zoo_op(&zo[k], zs[k], ZSL, e->a, e->x); trace(canon(zs[k][d])); break; }
      case O_STORE: store(e, 0); break;
      case O_TORN: store(e, 1); break;
      case O_RING: ring_store(e); break;
      case O_CRASH: {
        count("fault.crash");
        zdown();
        node_down(&w, 0);
        be = w.n[0].backend = (int)(e->a & 3); w.n[0].method = (int)(e->b & 3);
        rsrc_init(&w.n[0].rs, e->c);
        node_up(&w, 0);
        zup(p);
        recover();
        // resume from the durable records
        for (int k = 0; k < nrc; k++) if (rc[k].enc == E_BYTES) { if (rc[k].src < 4) element_from_bytes(w.n[0].s[rc[k].grp][k % NS], rc[k].b); else element_from_bytes(zs[rc[k].src - 4][k % ZSL], rc[k].b); }
        break; }
    }
    u64 h = mix((u64)be, (u64)nrc); for (int k = 0; k < nrc; k++) h = mix(h, (u64)rc[k].enc * 64 + (u64)rc[k].src * 8 + (u64)rc[k].grp + (u64)rc[k].is0 * 1024);
    state(h);
  }
  ev_begin(p->n, NULL);
  for (int i = 0; i < nrc; i++) free(rc[i].b);
}
scen_t scen_p02 = { "P02", "durable records", 1, gen, run, ops, O_N,
  "all of libpbc: element codecs of every field and group, all four Fp backends",
  "disk (record store), process crash and restart, random source and allocator are simulated",
  "distinct multisets of (encoding, element kind, identity) held durable under each backend", 0, 0 };
