#include "world.h"
#include "zoo.h"
#include "pbc_curve.h"
// P03: damaged bytes never become an invalid element.
enum { C_FAM, C_BE, C_ME, C_FILL, C_MOVE, C_REUSE };
enum { O_WORLD, O_RECORD, O_BYTES, O_COMP, O_XONLY, O_TEXT, O_N };
static const char *const ops[] = { "world_op", "record", "bad_bytes", "bad_compressed", "bad_x_only", "bad_text" };
enum { NR = 12 };
static struct { int grp, len; unsigned char b[MSGB]; u64 h; } good[NR]; static int ng;
static world_t w; static rcurve_t rcv;
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FAM] = fam_pick(r, 0, 1, 12);
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_ME] = rng_n(r, 4);
  p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_MOVE] = rng_n(r, 2); p->cfg[C_REUSE] = 1 + rng_n(r, 2);
  static const int ok[] = { W_ZR, W_ZR, W_GOP, W_GOP, W_POW, W_SETBASE, W_HASH, W_PAIR };
  int n = fams[p->cfg[C_FAM]].toy ? 30 + (int)rng_n(r, 50) : 10 + (int)rng_n(r, 10);
  for (int i = 0; i < n; i++) {
    u32 k = rng_n(r, 20), x = (u32)rng_next(r);
    if (k < 4) plan_add(p, O_WORLD, ok[rng_n(r, 8)], x, rng_next(r), rng_next(r), rng_next(r));
    else if (k < 7) plan_add(p, O_RECORD, (int)rng_n(r, 4), x, 0, 0, 0);
    else if (k < 12) plan_add(p, O_BYTES, (int)rng_n(r, 4), x, rng_next(r), rng_next(r), rng_n(r, 16));
    else if (k < 14) plan_add(p, O_COMP, 1 + (int)rng_n(r, 2), x, rng_next(r), rng_next(r), rng_n(r, 16));
    else if (k < 16) plan_add(p, O_XONLY, 1 + (int)rng_n(r, 2), x, rng_next(r), rng_next(r), rng_n(r, 16));
    else plan_add(p, O_TEXT, (int)rng_n(r, 4), x, rng_next(r), rng_next(r), rng_n(r, 16));
  }
}
static const char *const gn[] = { "Zr", "G1", "G2", "GT" };
// Is e the identity or on its curve? Evaluated from its coordinates with separate objects.
static int valid_point(element_ptr e) {
  if (element_is0(e)) return 1;
  element_ptr X = element_item(e, 0), Y = element_item(e, 1);
  element_t x, y, t, u; field_ptr f = X->field;
  element_init(x, f); element_init(y, f); element_init(t, f); element_init(u, f);
  element_set(x, X); element_set(y, Y);
  element_mul(t, x, x); element_add(t, t, curve_a_coeff(e)); element_mul(t, t, x); element_add(t, t, curve_b_coeff(e));
  element_mul(u, y, y);
  int ok = !element_cmp(t, u);
  element_clear(x); element_clear(y); element_clear(t); element_clear(u);
  return ok;
}
static void normal(element_ptr e, int g, const char *what) {
  unsigned char b1[MSGB], b2[MSGB]; const char *fam = w.f->name;
  int len = element_length_in_bytes(e);
  if (g == G1_ || g == G2_) {
    if (!valid_point(e)) sim_fail("off-curve", "%s: decoded %s element is not on its curve (%s)", what, gn[g], fam);
    if (g == G1_ && !element_is0(e)) { // independent arithmetic
      element_to_bytes(b1, e); rpt_t q; rpt_init(&q); rpt_from_bytes(&q, b1, len);
      if (!rpt_on(&rcv, &q)) sim_fail("off-curve", "%s: decoded G1 element does not satisfy the curve equation (%s)", what, fam);
      mpz_clear(q.x); mpz_clear(q.y);
    }
  }
  if (element_to_bytes(b1, e) != len) sim_fail("length", "%s: re-encoding has the wrong length", what);
  element_t d, s, t; element_init_same_as(d, e); element_init_same_as(s, e); element_init_same_as(t, e);
  element_from_bytes(d, b1);
  element_to_bytes(b2, d);
  if (memcmp(b1, b2, (size_t)len)) sim_fail("re-encode", "%s: re-encoding a decoded %s element is not stable (%s, backend %s)", what, gn[g], fam, backends[w.n[0].backend]);
  if (canon(d) != canon(e)) sim_fail("re-encode", "%s: %s element differs from its own re-encoding (%s, backend %s)", what, gn[g], fam, backends[w.n[0].backend]);
  if (element_cmp(d, e) || element_cmp(e, d)) sim_fail("compare", "%s: decoded %s element is not equal to its own re-encoding (%s, backend %s)", what, gn[g], fam, backends[w.n[0].backend]);
  if (!!element_is0(d) != !!element_is0(e) || !!element_is1(d) != !!element_is1(e)) sim_fail("identity-test", "%s: identity tests of a decoded %s element and its re-encoding differ (%s, backend %s)", what, gn[g], fam, backends[w.n[0].backend]);
  // computing with it: same results as with the canonical copy, also against another value
  element_ptr o = w.n[0].s[g][1];
  for (int k = 0; k < 7; k++) {
    if (g == GT_ && (k == 1 || k == 3)) continue; // GT bytes may encode a non-invertible value
    switch (k) {
      case 0: element_add(s, e, o); element_add(t, d, o); break;
      case 1: element_sub(s, o, e); element_sub(t, o, d); break;
      case 2: element_mul(s, e, o); element_mul(t, d, o); break;
      case 3: element_neg(s, e); element_neg(t, d); break;
      case 4: element_double(s, e); element_double(t, d); break;
      case 5: if (g == GZ) { element_halve(s, e); element_halve(t, d); } else { element_set(s, e); element_set(t, d); } break;
      case 6: if (g == GZ && !element_is0(e) && mpz_probab_prime_p(w.n[0].pr->r, 5)) { element_invert(s, e); element_invert(t, d); element_mul(s, s, o); element_mul(t, t, o); } else { element_square(s, e); element_square(t, d); } break;
    }
    if (canon(s) != canon(t)) sim_fail("compute", "%s: operation %d on a decoded %s element gives another result than on its re-encoding (%s, backend %s)", what, k, gn[g], fam, backends[w.n[0].backend]);
    if ((g == G1_ || g == G2_) && !valid_point(s)) sim_fail("compute", "%s: operation %d on a decoded %s element leaves the curve (%s)", what, k, gn[g], fam);
  }
  if (g == GZ) {
    mpz_t z; mpz_init(z); element_to_mpz(z, e);
    if (mpz_sgn(z) < 0 || mpz_cmp(z, w.n[0].pr->r) >= 0) sim_fail("range", "%s: decoded scalar is out of range (%s, backend %s)", what, fam, backends[w.n[0].backend]);
    element_set_mpz(d, z);
    if (element_cmp(d, e) || element_sign(d) != element_sign(e) || canon(d) != canon(e)) sim_fail("residue", "%s: decoded scalar does not behave as its residue (%s, backend %s)", what, fam, backends[w.n[0].backend]);
    mpz_clear(z);
  }
  trace(canon(e));
  if (g == GT_) element_set1(e); // what was decoded need not be in the group
  element_clear(d); element_clear(s); element_clear(t);
}
// Bytes as an attacker, a torn record or line noise would leave them.
static const char *const kinds[] = { "noise", "zeros", "ones", "bitflip", "truncated", "other group", "unreduced", "prefix zero", "value+modulus", "swap halves", "equal modulus" };
static int damage(unsigned char *b, int len, int g, const ev_t *e) {
  rng_t r; rng_init(&r, e->a);
  int k = (int)(e->b % 11);
  const unsigned char *src = NULL; int sl = 0;
  if (ng) { int i = (int)(e->x % (u32)ng); for (int t = 0; t < ng; t++, i = (i + 1) % ng) if (k == 5 ? good[i].grp != g : good[i].grp == g) { src = good[i].b; sl = good[i].len; break; } }
  if (!src && (k == 3 || k == 4 || k == 5 || k == 8 || k == 9)) k = 0;
  mpz_t m, z; mpz_init(m); mpz_init(z);
  if (g == GZ) mpz_set(m, w.n[0].pr->r); else mpz_set(m, rcv.q);
  int cl = (int)(mpz_sizeinbase(m, 2) + 7) / 8; // bytes per component
  switch (k) {
    case 0: for (int i = 0; i < len; i++) b[i] = (unsigned char)rng_next(&r); break;
    case 1: memset(b, 0, (size_t)len); break;
    case 2: memset(b, 0xff, (size_t)len); break;
    case 3: memset(b, 0, (size_t)len); memcpy(b, src, (size_t)(sl < len ? sl : len)); for (int i = 1 + (int)rng_n(&r, 3); i; i--) b[rng_n(&r, (u32)len)] ^= (unsigned char)(1 << rng_n(&r, 8)); break;
    case 4: { int c = (int)rng_n(&r, (u32)(len < sl ? len : sl)); memset(b, rng_p(&r, 1, 2) ? 0 : 0xEE, (size_t)len); memcpy(b, src, (size_t)c); break; }
    case 5: memset(b, 0, (size_t)len); memcpy(b, src, (size_t)(sl < len ? sl : len)); break;
    case 6: for (int i = 0; i + cl <= len; i += cl) { mpz_set_ui(z, 1); mpz_mul_2exp(z, z, (mp_bitcnt_t)cl * 8); mpz_sub(z, z, m); if (mpz_sgn(z) > 0) { mpz_uniform(z, &r, z); mpz_add(z, z, m); } unsigned char t[600]; memset(t, 0, 600); size_t kk = (mpz_sizeinbase(z, 2) + 7) / 8; mpz_export(t + cl - kk, NULL, 1, 1, 1, 0, z); memcpy(b + i, t, (size_t)cl); } break;
    case 7: for (int i = 0; i < len; i++) b[i] = (unsigned char)rng_next(&r); memset(b, 0, (size_t)rng_n(&r, (u32)len)); break;
    case 8: case 10: { // every component replaced by an equal residue (value + modulus), or by the modulus itself
      memset(b, 0, (size_t)len); if (src) memcpy(b, src, (size_t)(sl < len ? sl : len));
      for (int i = 0; i + cl <= len; i += cl) { mpz_import(z, (size_t)cl, 1, 1, 1, 0, b + i); if (k == 10) { if (rng_p(&r, 1, 2)) mpz_set(z, m); } else mpz_add(z, z, m);
        if ((int)((mpz_sizeinbase(z, 2) + 7) / 8) <= cl) { size_t kk = mpz_sgn(z) ? (mpz_sizeinbase(z, 2) + 7) / 8 : 0; memset(b + i, 0, (size_t)cl); if (kk) mpz_export(b + i + cl - kk, NULL, 1, 1, 1, 0, z); } }
      break; }
    default: memcpy(b, src, (size_t)(sl < len ? sl : len)); for (int i = 0; i < len / 2; i++) { unsigned char t = b[i]; b[i] = b[len - len / 2 + i]; b[len - len / 2 + i] = t; } break;
  }
  char nm[48]; snprintf(nm, sizeof nm, "fault.bytes_%s", kinds[k]); for (char *c = nm; *c; c++) if (*c == ' ' || *c == '+') *c = '_';
  count(nm);
  mpz_clear(m); mpz_clear(z);
  return k;
}
static void check_good(element_ptr el, int g, u32 x) {
  if (!ng) return;
  int i = (int)(x % (u32)ng);
  for (int t = 0; t < ng; t++, i = (i + 1) % ng) if (good[i].grp == g) {
    if (element_from_bytes(el, good[i].b) != good[i].len) sim_fail("length", "good record not fully consumed after a bad one");
    if (canon(el) != good[i].h) sim_fail("after-bad", "good %s record decodes wrongly after a bad one (%s)", gn[g], w.f->name);
    return;
  }
}
static void run(plan_t *p, int v) {
  (void)v;
  amode_t m = { (int)p->cfg[C_FILL], (int)p->cfg[C_MOVE], (int)p->cfg[C_REUSE], p->seed };
  arena_install(&m);
  int b[4] = { (int)p->cfg[C_BE] }, me[4] = { (int)p->cfg[C_ME] };
  world_init(&w, &fams[p->cfg[C_FAM] % nfams], p->seed, 1, b, me, 0);
  if (!w.f->wire) return;
  w.quiet = 1; rcurve_init(&rcv, w.f);
  node_t *n = &w.n[0];
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    rsrc_install(&n->rs);
    int g = e->who & 3; element_ptr el = n->s[g][e->x % NS];
    switch (e->op) {
      case O_WORLD: { ev_t f = *e; f.op = e->who; f.who = 0; world_event(&w, &f); break; }
      case O_RECORD: { int k = ng < NR ? ng++ : (int)(e->x >> 8) % NR; good[k].grp = g; good[k].len = element_to_bytes(good[k].b, el); good[k].h = canon(el); break; }
      case O_BYTES: {
        int len = element_length_in_bytes(el);
        unsigned char *q = edge_buf(0, (size_t)len, 0x55);
        int k = damage(q, len, g, e); edge_lock(0, 1);
        int c = element_from_bytes(el, q);
        if (c != len) sim_fail("consumed", "decoding %s from %s consumed %d, advertised %d", gn[g], kinds[k], c, len);
        if (g == GZ) { // exact residue
          mpz_t z; mpz_init(z); mpz_import(z, (size_t)len, 1, 1, 1, 0, q); mpz_mod(z, z, n->pr->r);
          element_t d; element_init(d, n->pr->Zr); element_set_mpz(d, z);
          if (canon(d) != canon(el) || element_cmp(d, el)) sim_fail("residue", "decoded scalar is not the residue of its bytes (%s, backend %s)", w.f->name, backends[n->backend]);
          element_clear(d); mpz_clear(z);
        } else if (g == G1_) { // a pair that satisfies the equation is that point, anything else the identity
          rpt_t t; rpt_init(&t); rpt_from_bytes(&t, q, len); mpz_mod(t.x, t.x, rcv.q); mpz_mod(t.y, t.y, rcv.q);
          if (rpt_on(&rcv, &t) == !!element_is0(el)) sim_fail("accept", "bytes that %s the curve equation decode to %s (%s, backend %s)", rpt_on(&rcv, &t) ? "satisfy" : "break", element_is0(el) ? "O" : "a point", w.f->name, backends[n->backend]);
          mpz_clear(t.x); mpz_clear(t.y);
        }
        normal(el, g, kinds[k]);
        element_t d; element_init_same_as(d, el); check_good(d, g, e->x >> 4); element_clear(d);
        if (e->c & 1) check_good(el, g, e->x >> 4);
        break; }
      case O_COMP: case O_XONLY: {
        if (g != G1_ && g != G2_) break;
        int comp = e->op == O_COMP;
        int len = comp ? element_length_in_bytes_compressed(el) : element_length_in_bytes_x_only(el);
        unsigned char *q = edge_buf(0, (size_t)len, 0x55);
        int k = damage(q, len, g, e);
        if (comp) q[len - 1] = (unsigned char)(e->c & 2 ? e->c & 1 : e->a >> 40);
        edge_lock(0, 1);
        int c = comp ? element_from_bytes_compressed(el, q) : element_from_bytes_x_only(el, q);
        if (c != len) sim_fail("consumed", "decoding %s %s from %s consumed %d, advertised %d", comp ? "compressed" : "x-only", gn[g], kinds[k], c, len);
        if (g == G1_) {
          rpt_t t; rpt_init(&t); int cl = comp ? len - 1 : len;
          mpz_import(t.x, (size_t)cl, 1, 1, 1, 0, q); mpz_mod(t.x, t.x, rcv.q); t.inf = 0;
          mpz_t z; mpz_init(z); mpz_mul(z, t.x, t.x); mpz_add(z, z, rcv.a); mpz_mul(z, z, t.x); mpz_add(z, z, rcv.b); mpz_mod(z, z, rcv.q);
          int sq = !mpz_sgn(z) || mpz_jacobi(z, rcv.q) == 1;
          if (sq == !!element_is0(el)) sim_fail("accept", "an x-coordinate that %s on the curve decodes to %s (%s)", sq ? "is" : "is not", element_is0(el) ? "O" : "a point", w.f->name);
          if (sq) { unsigned char bb[MSGB]; int l2 = element_to_bytes(bb, el); rpt_t u; rpt_init(&u); rpt_from_bytes(&u, bb, l2); if (mpz_cmp(u.x, t.x)) sim_fail("accept", "decoded point has another x-coordinate (%s)", w.f->name); mpz_clear(u.x); mpz_clear(u.y); }
          mpz_clear(t.x); mpz_clear(t.y); mpz_clear(z);
        }
        normal(el, g, comp ? "bad compressed bytes" : "bad x-only bytes");
        check_good(el, g, e->x >> 4);
        break; }
      case O_TEXT: {
        rng_t r; rng_init(&r, e->a);
        char t[9000]; int l = 0;
        int mode = (int)(e->b % 7);
        if (mode < 4) {
          l = element_snprint(t, sizeof t, n->s[g][(e->x >> 4) % NS]);
          if (mode == 1) { l = (int)rng_n(&r, (u32)l + 1); t[l] = 0; count("fault.text_cut"); }
          else if (mode == 2) { for (int k = 1 + (int)rng_n(&r, 4); k; k--) t[rng_n(&r, (u32)l)] = (char)(32 + rng_n(&r, 95)); count("fault.text_garbled"); }
          else if (mode == 3) { int a = (int)rng_n(&r, (u32)l), k = 1 + (int)rng_n(&r, 3); static const char *ins[] = { " ", "[", "]", ",", "O", "-", "99999999999999999999999999", "\t\n", "[[", "x" }; const char *s = ins[rng_n(&r, 10)]; (void)k; size_t sl = strlen(s); memmove(t + a + sl, t + a, (size_t)(l - a) + 1); memcpy(t + a, s, sl); l += (int)sl; count("fault.text_inserted"); }
          else if (rng_p(&r, 1, 2)) { char u[9000]; int a = 0; for (int k = 0; k < l; k++) { if (strchr("[],", t[k]) && rng_p(&r, 1, 2)) u[a++] = " \t\n"[rng_n(&r, 3)]; u[a++] = t[k]; } u[a] = 0; memcpy(t, u, (size_t)a + 1); l = a; count("probe.text_spaced"); }
        } else if (mode == 4) { l = (int)rng_n(&r, 60); for (int k = 0; k < l; k++) t[k] = (char)(1 + rng_n(&r, 255)); t[l] = 0; count("fault.text_noise"); }
        else if (mode == 5) { static const char *s[] = { "", "[", "[1", "[1,", "[1,2", "[1,2]", "[,]", "[[1,2],[3,4]]", "O", "o", "]", "[0,0]", "[ 0 , 0 ]", "1", "-1", "[[,],[,]]", "[[1,2,3],[4,5,6]]", "[[1", "0", "[O,O]", "[1,2,3]", "[1;2]" }; strcpy(t, s[rng_n(&r, 22)]); l = (int)strlen(t); count("fault.text_malformed"); }
        else { l = element_snprint(t, sizeof t, n->s[(g + 1) & 3][(e->x >> 4) % NS]); count("fault.text_other_group"); }
        char *q = (char *)edge_buf(0, (size_t)l + 1, 0x55); memcpy(q, t, (size_t)l + 1); edge_lock(0, 1);
        static const int bs[] = { 10, 10, 10, 0, 16, 2, 36 }; int base = bs[rng_n(&r, 7)];
        int c = element_set_str(el, q, base);
        if (c < 0 || c > l) sim_fail("consumed", "reading text consumed %d of %d characters", c, l);
        vlog("    text '%s' base %d -> %d\n", q, base, c);
        normal(el, g, "bad text");
        trace((u64)c);
        check_good(el, g, e->x >> 8);
        break; }
    }
    u64 h = mix((u64)p->cfg[C_FAM], (u64)e->op * 64 + (u64)g); if (e->op >= O_BYTES) h = mix(h, (e->b % 77) + 1000 * (u64)n->backend + (element_is0(el) ? 100000 : 0));
    state(h);
  }
}
scen_t scen_p03 = { "P03", "hostile bytes", 1, gen, run, ops, O_N,
  "all of libpbc: decoding of every group, all four Fp backends",
  "the wire and the disk that damage the bytes, allocator and random source are simulated; acceptance judged by independent GMP curve arithmetic for G1",
  "distinct (family, decoder, group, kind of damage, backend, identity result) tuples", 0, 0 };
