#include "labs.h"
// P08: the same values in different memory, objects, representations and histories.
enum { C_BE, C_F1, C_F2, C_MV };
enum { O_OPEN, O_ZOP, O_POPEN, O_POP, O_LAB, O_LOOK, O_N };
static const char *const ops[] = { "open_field", "field_operation", "open_pairing", "group_operation", "workload", "observe" };
enum { NZ = 5, NP = 3 };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_F1] = 1 + rng_n(r, 3); p->cfg[C_F2] = 1 + rng_n(r, 3); p->cfg[C_MV] = rng_n(r, 4);
  int pairs = rng_p(r, 1, 3), labs = rng_p(r, 1, 6);
  if (labs) { int n = 1 + (int)rng_n(r, 3), l; for (int i = 0; i < n; i++) { do l = lab_pick(r, L_ALL & ~LM(L_INFO)); while (lab_cost(l) > 10); plan_add(p, O_LAB, l, 0, rng_next(r), 0, 0); } return; }
  if (pairs) { plan_add(p, O_POPEN, 0, rng_p(r, 1, 100), rng_next(r), 0, 0); int n = 10 + (int)rng_n(r, 25); for (int i = 0; i < n; i++) plan_add(p, rng_p(r, 1, 6) ? O_LOOK : O_POP, 0, (u32)rng_next(r), rng_next(r), rng_next(r), 1); }
  else { plan_add(p, O_OPEN, zoo_kind_pick(r), 0, rng_next(r), 0, 0); int n = 20 + (int)rng_n(r, 60); for (int i = 0; i < n; i++) plan_add(p, rng_p(r, 1, 6) ? O_LOOK : O_ZOP, 0, (u32)rng_next(r), rng_next(r), rng_next(r), 0); }
}
static rsrc_t rs, other; static int var; static rng_t vr; // vr: this variant's own choices
static zoo_t Z; static int zup; static element_t zs[NZ];
static int pup; static const fam_t *pf; static pairing_t pr; static element_t pe[4][NP];
static void junk(element_ptr e, unsigned caps) {
  int m = element_item_count(e);
  if (m > 0 && caps & ZC_FIN) { for (int i = 0; i < m; i++) junk(element_item(e, i), caps); return; }
  if (caps & ZC_SI) { mpz_t t; mpz_init(t); if (caps & ZC_FIN) mpz_edge(t, &vr, e->field->order); else mpz_set_ui(t, rng_n(&vr, 100000)); element_set_mpz(e, t); mpz_clear(t); }
  else if (caps & ZC_RAND) { rsrc_install(&other); element_random(e); rsrc_install(&rs); }
}
static void junk_pt(element_ptr e, int g) { rsrc_install(&other); if (rng_p(&vr, 1, 3)) { if (rng_p(&vr, 1, 2)) element_set0(e); else element_set1(e); } else if (g == GZ) junk(e, ZC_FIN | ZC_SI); else { element_set(e, pe[g][rng_n(&vr, NP)]); element_double(e, e); } rsrc_install(&rs); }
// replace e by another object with the same value
static void represent(element_ptr e, unsigned caps, int kind, int g) {
  if (!var) return;
  int grp = g >= 0; unsigned char buf[MSGB];
  for (int k = (int)rng_n(&vr, 3); k; k--) {
    element_t n; element_init(n, e->field); if (rng_p(&vr, 1, 2)) { if (grp) junk_pt(n, g); else junk(n, caps); }
    switch (rng_n(&vr, 9)) {
      case 0: element_set(n, e); break;
      case 1: if (caps & ZC_BYTES && element_length_in_bytes(e) < MSGB && (g < G1_ || g == GT_ || 1)) { element_to_bytes(buf, e); element_from_bytes(n, buf); } else element_set(n, e); break;
      case 2: if (kind == ZK_GF33) { element_set(n, e); break; } if (g == GT_ && (pf->type == '1')) { element_set(n, e); break; } element_neg(n, e); element_neg(n, n); break;
      case 3: { element_t z; element_init(z, e->field); element_set0(z); element_add(n, e, z); element_clear(z); break; }
      case 4: { element_t z; element_init(z, e->field); element_set1(z); element_mul(n, z, e); element_clear(z); break; }
      case 5: { if (grp ? g == GT_ && pf->type == '1' : !(caps & ZC_FIN)) { element_set(n, e); break; } element_t j; element_init(j, e->field); if (grp) junk_pt(j, g); else junk(j, caps); element_sub(n, e, j); element_add(n, n, j); element_clear(j); break; }
      case 6: if (caps & ZC_STR && caps & ZC_SNP) { char *b = (char *)buf; int l = element_snprint(b, MSGB, e); if (l > 0 && l < MSGB) element_set_str(n, b, 10); else element_set(n, e); } else element_set(n, e); break;
      case 7: if (!grp && caps & ZC_INV && !element_is0(e) && kind != ZK_GF33) { element_invert(n, e); element_invert(n, n); } else element_set(n, e); break;
      default: element_set(e, e); element_set(n, e); break;
    }
    element_clear(e); e[0] = n[0]; count("fault.other_representation"); // a different object from here on
  }
}
static unsigned pcaps(int g) { unsigned c = ZC_FIN | ZC_BYTES; if (g == GZ) c |= ZC_STR | ZC_SNP | ZC_SI; if (g == G1_ || g == GT_) c |= ZC_STR | ZC_SNP; if (g == GZ && pf->type != '1') c |= ZC_INV; return c; }
static void look(element_ptr e, unsigned caps, u32 tag, int g) {
  unsigned char buf[MSGB]; tr(tag, (u64)(element_is0(e) != 0) + 2 * (u64)(element_is1(e) != 0));
  if (caps & ZC_SGN) { int s = element_sign(e); tr(tag + 1, (u64)((s > 0) - (s < 0) + 3)); }
  if (caps & ZC_BYTES && element_length_in_bytes(e) < MSGB) { int l = element_to_bytes(buf, e); tr_bytes(tag + 2, buf, (size_t)l); }
  if (caps & ZC_SNP) { char b[600]; int l = element_snprint(b, sizeof b, e); tr(tag + 3, (u64)l); tr_bytes(tag + 3, b, strnlen(b, sizeof b)); }
  if (g == G1_ && pf->curve && !element_is0(e)) { int l = element_to_bytes_compressed(buf, e); tr_bytes(tag + 4, buf, (size_t)l); l = element_to_bytes_x_only(buf, e); tr_bytes(tag + 5, buf, (size_t)l); }
}
static void zop(const ev_t *e) {
  element_t T[NZ]; int d = (int)(e->x & 15) % NZ, p = (int)(e->x >> 4 & 15) % NZ, q = (int)(e->x >> 8 & 15) % NZ, d2, p2 = 1, q2 = p == q && (!var || rng_p(&vr, 1, 2)) ? 1 : 2;
  switch (var ? rng_n(&vr, 4) : 0) { case 0: d2 = 0; break; case 1: d2 = p2; break; case 2: d2 = q2; break; default: d2 = 3; break; }
  for (int i = 0; i < NZ; i++) { element_init(T[i], Z.F); if (i == 3) junk(T[i], Z.caps); }
  element_set(T[p2], zs[p]); if (q2 != p2) element_set(T[q2], zs[q]); represent(T[p2], Z.caps, Z.kind, -1); if (q2 != p2) represent(T[q2], Z.caps, Z.kind, -1);
  // operations that keep the destination's value when they do not apply must see the same one
  element_t keep; element_init(keep, Z.F); element_set(keep, zs[d]);
  if (d2 == 0 || d2 == 3) { if (d2 == 3 && rng_p(&vr, 1, 2)) element_set(T[d2], keep); }
  u32 x = (u32)d2 | (u32)p2 << 4 | (u32)q2 << 8;
  u64 before = canon(T[d2]); zoo_op(&Z, T, NZ, e->a, x); int dst = d2; (void)before;
  element_set(zs[d], T[dst]); tr(100, canon(zs[d])); represent(zs[d], Z.caps, Z.kind, -1); tr(101, canon(zs[d])); state(mix((u64)Z.kind, mix((u64)d2, e->a % 26)));
  if (d2 != p2 && d2 != 1 && q2 != d2) { if (element_cmp(T[p2], zs[p]) && p != d) sim_fail("operand", "an operation on %s changed its operand", zoo_names[Z.kind]); }
  for (int i = 0; i < NZ; i++) element_clear(T[i]); element_clear(keep);
}
static void pop(const ev_t *e) {
  rng_t r; rng_init(&r, e->a); int g = (int)rng_n(&r, 4), d = (int)rng_n(&r, NP), p = (int)rng_n(&r, NP), q = (int)rng_n(&r, NP), k = (int)rng_n(&r, 16);
  element_t A, B, D, x, y; field_ptr F = world_field(pr, g); element_init(A, F); element_init(B, F); element_init(D, F); element_init_Zr(x, pr); element_init_Zr(y, pr);
  element_set(A, pe[g][p]); element_set(B, pe[g][q]); element_set(x, pe[GZ][d]); element_set(y, pe[GZ][q]);
  represent(A, pcaps(g), -1, g); represent(B, pcaps(g), -1, g); represent(x, pcaps(GZ), -1, GZ); represent(y, pcaps(GZ), -1, GZ); if (var && rng_p(&vr, 1, 2)) junk_pt(D, g);
  element_ptr O = D; if (var && k < 12) switch (rng_n(&vr, 3)) { case 0: O = A; break; case 1: O = B; break; default: break; }
  mpz_t z, z2; mpz_init(z); mpz_init(z2); mpz_edge(z, &r, pr->r); mpz_edge(z2, &r, pr->r); int inv = pf->type != '1' || g == G1_ || g == G2_; unsigned char buf[MSGB];
  switch (k) {
    case 0: element_add(O, A, B); break; case 1: if (inv) element_sub(O, A, B); else element_mul(O, A, B); break; case 2: element_double(O, A); break; case 3: if (inv) element_neg(O, A); else element_square(O, A); break;
    case 4: if (g == GZ) element_mul(O, A, x); else element_mul_zn(O, A, x); break; case 5: element_pow_mpz(O, A, z); break; case 6: element_pow2_zn(O, A, x, B, y); break; case 7: element_pow3_mpz(O, A, z, B, z2, A, z2); break;
    case 8: element_mul(O, A, B); break; case 9: element_mul_si(O, A, (long)rng_n(&r, 40) - (inv ? 20 : 0)); break; case 10: element_pow2_mpz(O, A, z, B, z2); break;
    case 11: if (g == G1_ && pf->curve && !element_is0(A)) { int l = element_to_bytes_compressed(buf, A); tr_bytes(50, buf, (size_t)l); element_from_bytes_compressed(O, buf); } else element_set(O, A); break;
    case 12: { unsigned char h[40]; int n = 1 + (int)rng_n(&r, 39); for (int i = 0; i < n; i++) h[i] = (unsigned char)rng_next(&r); element_from_hash(D, h, n); break; }
    case 13: element_random(D); break;
    case 14: { element_pp_t pp; element_pp_init(pp, A); element_pp_pow(D, z, pp); element_pp_clear(pp); break; }
    default: { element_t P, Q, t; element_init_G1(P, pr); element_init_G2(Q, pr); element_init_GT(t, pr); element_set(P, pe[G1_][p]); element_set(Q, pe[G2_][q]); represent(P, pcaps(G1_), -1, G1_); represent(Q, pcaps(G2_), -1, G2_); if (var && rng_p(&vr, 1, 2)) junk_pt(t, GT_);
      int how = var ? (int)rng_n(&vr, 3) : 0;
      if (how == 0) pairing_apply(t, P, Q, pr); else if (how == 1) { pairing_pp_t pp; pairing_pp_init(pp, P, pr); pairing_pp_apply(t, Q, pp); pairing_pp_clear(pp); } else { element_t Pa[1], Qa[1]; Pa[0][0] = P[0]; Qa[0][0] = Q[0]; element_prod_pairing(t, Pa, Qa, 1); }
      element_set(pe[GT_][d], t); tr(201, elem_hash(t)); element_clear(P); element_clear(Q); element_clear(t); break; }
  }
  if (k < 15) { element_set(pe[g][d], O); tr(200, elem_hash(pe[g][d])); represent(pe[g][d], pcaps(g), -1, g); tr(202, elem_hash(pe[g][d])); }
  state(mix(500 + (u64)pf->type, (u64)g * 16 + (u64)k));
  mpz_clear(z); mpz_clear(z2); element_clear(A); element_clear(B); element_clear(D); element_clear(x); element_clear(y);
}
static void close_all(void) {
  if (zup) { for (int i = 0; i < NZ; i++) element_clear(zs[i]); zoo_close(&Z); zup = 0; }
  if (pup) { for (int g = 0; g < 4; g++) for (int i = 0; i < NP; i++) element_clear(pe[g][i]); pairing_clear(pr); pup = 0; }
}
static void run(plan_t *p, int v) {
  var = v; rng_init(&vr, p->seed ^ (u64)v * 7919); stdout_mute();
  amode_t m = { v == 0 ? FILL_ZERO : v == 1 ? (int)p->cfg[C_F1] : (int)p->cfg[C_F2], v == 0 ? 0 : v == 1 ? (int)(p->cfg[C_MV] & 1) : (int)(p->cfg[C_MV] >> 1 & 1), v, p->seed + (u64)v }; arena_install(&m);
  rsrc_init(&other, p->seed ^ (0x77 + (u64)v)); int be = (int)p->cfg[C_BE];
  if (v && rng_p(&vr, 1, 4)) { rsrc_install(&other); int l; do l = lab_pick(&vr, L_ALL & ~LM(L_INFO)); while (lab_cost(l) > 1); lab_t L; memset(&L, 0, sizeof L); L.seed = rng_next(&vr); L.be = (int)rng_n(&vr, 4); L.notr = 1; lab_run(&L, l); count("fault.other_history"); }
  rsrc_init(&rs, p->seed); rsrc_install(&rs); pbc_tweak_use_fp(backends[be]);
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    switch (e->op) {
      case O_OPEN: close_all(); zoo_open(&Z, e->who % ZK_N, e->a, be, 200); zup = 1; for (int k = 0; k < NZ; k++) { element_init(zs[k], Z.F); element_set0(zs[k]); } break;
      case O_ZOP: if (zup) zop(e); break;
      case O_POPEN: { close_all(); rng_t r; rng_init(&r, e->a); pf = &fams[fam_pick(&r, 0, (int)e->x, 1)]; if (pairing_init_set_str(pr, pf->text)) sim_fail("load", "good parameters rejected"); pup = 1; int mt = (int)rng_n(&r, (u32)nmethods(pf)); if (mt) pairing_option_set(pr, "method", method_name(pf, mt));
        for (int g = 0; g < 4; g++) for (int k = 0; k < NP; k++) { element_init(pe[g][k], world_field(pr, g)); if (k) element_random(pe[g][k]); else element_set0(pe[g][k]); } break; }
      case O_POP: if (pup) pop(e); break;
      case O_LAB: { lab_t L; memset(&L, 0, sizeof L); L.seed = e->a; L.be = be; lab_run(&L, e->who % L_N); state(mix(900, e->who)); break; }
      case O_LOOK: if (e->c && pup) { int g = (int)(e->a % 4), a = (int)(e->a >> 8) % NP, b = (int)(e->b % NP); if (a < 0) a = -a; element_t x; element_init(x, world_field(pr, g)); element_set(x, pe[g][a]); represent(x, pcaps(g), -1, g); look(x, pcaps(g) & ~(unsigned)(g == G2_ ? ZC_SNP : 0), 300, g); tr(310, (u64)(element_cmp(x, pe[g][b]) != 0)); tr(311, (u64)(element_cmp(x, pe[g][a]) != 0)); element_clear(x); }
        else if (!e->c && zup) { int a = (int)((e->a >> 8) % NZ), b = (int)(e->b % NZ); element_t x; element_init(x, Z.F); element_set(x, zs[a]); represent(x, Z.caps, Z.kind, -1); look(x, Z.caps, 320, -1); tr(330, (u64)(element_cmp(x, zs[b]) != 0)); if (Z.kind != ZK_MULTIZ) tr(331, (u64)(element_cmp(zs[a], x) != 0)); element_clear(x); } break;
    }
  }
  close_all(); ev_begin(p->n, NULL);
}
scen_t scen_p08 = { "P08", "values only", 3, gen, run, ops, O_N,
  "every field and group operation, codecs, printing, comparisons, pairings and workloads; three executions per seed",
  "allocator (contents of fresh blocks, placement, moves, reuse), random source; operands replaced by equal ones reached differently, results written over operands or used objects, unrelated earlier work",
  "distinct (kind or family, operation, where the result is written) combinations", 0, 0 };
