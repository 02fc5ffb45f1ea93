#include "core.h"
#include "kit.h"
#include <pbc.h>
#include <unistd.h>
#include <errno.h>
#include <setjmp.h>
// P14: calculator sessions with bad statements, arriving in any way. The real calculator
// (pbc.c, its scanner and parser, its line reader) runs on simulated input and output; a small
// model predicts what every statement prints.
int pbc_main(int argc, char **argv);
enum { C_MODE1, C_EASY1, C_CHUNK1, C_MODE2, C_EASY2, C_CHUNK2, C_CUT, C_FILL, C_TAIL, C_PAD, C_LAY, C_NAMES, C_EXIT };
enum { O_INT, O_ZM, O_EXT, O_LIST, O_FIELD, O_DEF, O_CALL, O_BASE, O_PEQ, O_INIT, O_MISC, O_REC, O_BSYN, O_BNAME, O_BARG, O_BFLD, O_BDIV, O_BIDX, O_BRES, O_BNOSEMI, O_N };
static const char *const ops[] = { "integers", "residues", "extension", "lists", "field", "define", "call", "group_elements", "bilinearity", "init_pairing", "misc", "recursion", "bad_syntax", "bad_name", "bad_arguments", "bad_fields", "bad_division", "bad_index", "bad_reserved", "bad_line" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_MODE1] = rng_n(r, 2); p->cfg[C_EASY1] = rng_p(r, 1, 3); p->cfg[C_CHUNK1] = rng_p(r, 1, 2) ? 0 : 1 + (int)rng_n(r, 40);
  p->cfg[C_MODE2] = rng_n(r, 2); p->cfg[C_EASY2] = rng_p(r, 1, 3); p->cfg[C_CHUNK2] = rng_p(r, 1, 2) ? 0 : 1 + (int)rng_n(r, 2000);
  p->cfg[C_CUT] = rng_p(r, 1, 2) ? 0 : 1 + (int)rng_n(r, 1000); p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_TAIL] = rng_n(r, 4); p->cfg[C_PAD] = rng_n(r, 4); p->cfg[C_LAY] = (int64_t)(rng_next(r) >> 1); p->cfg[C_NAMES] = rng_p(r, 1, 2) ? 0 : 1 + (int)rng_n(r, 120); p->cfg[C_EXIT] = rng_p(r, 1, 3) ? 1 + (int)rng_n(r, 3) : 0;
  int n = 10 + (int)rng_n(r, 50), bad = 1 + (int)rng_n(r, 4);
  for (int i = 0; i < n; i++) {
    int op;
    if ((int)rng_n(r, 10) < bad) op = O_BSYN + (int)rng_n(r, O_N - O_BSYN);
    else { static const int g[] = { O_INT, O_INT, O_INT, O_INT, O_INT, O_INT, O_ZM, O_ZM, O_ZM, O_ZM, O_EXT, O_EXT, O_EXT, O_LIST, O_LIST, O_LIST, O_FIELD, O_FIELD, O_DEF, O_DEF, O_CALL, O_CALL, O_CALL, O_BASE, O_PEQ, O_PEQ, O_INIT, O_MISC, O_MISC, O_MISC, O_REC }; op = g[rng_n(r, sizeof g / sizeof *g)]; }
    plan_add(p, op, (int)rng_n(r, 8), (u32)rng_next(r), rng_next(r), rng_next(r), 0);
  }
}
// ---- text pool ----
static char *pool; static size_t pn; enum { POOL = 8 << 20, MAXS = 600 };
static char *cat(const char *f, ...) { va_list a; va_start(a, f); char *o = pool + pn; int k = gmp_vsnprintf(o, POOL - pn, f, a); va_end(a); pn += (size_t)k + 1; if (pn > POOL - 65536) sim_fail("pool", "text pool"); return o; }
// ---- model ----
enum { K_NONE, K_INT, K_LIST, K_ZM, K_EXT, K_FLD, K_EFLD, K_FUN, K_G1, K_G2, K_GT };
enum { ND = 4, NV = 8, NF = 8, NP = 6, NL = 5 };
typedef struct { int k, f, n; mpz_t c[NL]; } val_t;      // integer c[0], list c[0..n), residue c[0] of field f, extension element, exponent c[0] of group elements of base f
static struct { mpz_t p; int deg; mpz_t m[ND]; } fld[64]; static int nfld; // deg 0: residues; else extension of fld[0-based base]
static int ebase[64];
static val_t vars[NV]; static struct { int def, np; int tgt, a, b, c, tgt2; } fun[4];
static val_t parm[4][2]; static int parmset[4][2];
static int nbase; static char curty; static rng_t R; static int noasg, ncalls;
static void vinit(val_t *v) { memset(v, 0, sizeof *v); for (int i = 0; i < NL; i++) mpz_init(v->c[i]); }
static void vset(val_t *d, const val_t *s) { d->k = s->k; d->f = s->f; d->n = s->n; for (int i = 0; i < NL; i++) mpz_set(d->c[i], s->c[i]); }
// every named place: v0..v7 and the parameters of functions, which are ordinary variables here
enum { NN = NV + 8 };
static val_t *slot(int i) { return i < NV ? &vars[i] : &parm[(i - NV) / 2][(i - NV) & 1]; }
static const char *nameof(int i) { static char b[8][8]; static int k; char *o = b[k++ & 7]; if (i < NV) sprintf(o, "v%d", i); else sprintf(o, "p%d%c", (i - NV) / 2, 'a' + ((i - NV) & 1)); return o; }
static int pick_var(int k, int f) { int c[NN], n = 0; for (int i = 0; i < NN; i++) { val_t *v = slot(i); if (v->k == k && (f < 0 || v->f == f)) c[n++] = i; } return n ? c[rng_n(&R, (u32)n)] : -1; }
// expressions: text, precedence, value
typedef struct { char *s; int pr, asg; val_t v; } ex_t;
enum { P_TERN, P_CMP, P_ASG, P_ADD, P_MUL, P_NEG, P_POW, P_ATOM };
static char *par(ex_t *e, int min) { return e->pr < min || rng_p(&R, 1, 12) ? cat("( %s )", e->s) : e->s; }
static ex_t *ex_new(void) { ex_t *e = raw_malloc(sizeof *e); memset(e, 0, sizeof *e); vinit(&e->v); return e; }
static ex_t *gint(int d);
static int bigok(mpz_t z) { return mpz_sizeinbase(z, 2) < 300; }
static ex_t *lit(void) {
  ex_t *e = ex_new(); e->v.k = K_INT; e->pr = P_ATOM;
  switch (rng_n(&R, 8)) { case 0: mpz_set_ui(e->v.c[0], 0); break; case 1: mpz_set_ui(e->v.c[0], 1); break; case 2: mpz_set_ui(e->v.c[0], (unsigned long)rng_next(&R) >> rng_n(&R, 60)); break;
    case 3: mpz_set_ui(e->v.c[0], 1); mpz_mul_2exp(e->v.c[0], e->v.c[0], rng_n(&R, 150)); mpz_sub_ui(e->v.c[0], e->v.c[0], rng_n(&R, 2)); break; default: mpz_set_ui(e->v.c[0], rng_n(&R, 40)); }
  e->s = cat("%Zd", e->v.c[0]); return e;
}
static ex_t *glist(int d) { // a list of integers, never empty
  int i = pick_var(K_LIST, -1); ex_t *e;
  if (d > 0 && rng_p(&R, 1, 3)) { // sum, difference, opposite
    ex_t *a = glist(d - 1); e = ex_new(); e->v.k = K_LIST;
    if (rng_p(&R, 1, 3)) { e->v.n = a->v.n; for (int j = 0; j < a->v.n; j++) mpz_neg(e->v.c[j], a->v.c[j]); e->s = cat("- %s", par(a, P_NEG)); e->pr = P_NEG; return e; }
    if (rng_p(&R, 1, 3)) { // with an integer: a constant polynomial
      ex_t *b = lit(); int o = (int)rng_n(&R, 5), big = 0; e->v.n = a->v.n;
      for (int j = 0; j < a->v.n; j++) switch (o) {
        case 0: mpz_set(e->v.c[j], a->v.c[j]); if (!j) mpz_add(e->v.c[j], e->v.c[j], b->v.c[0]); break; case 1: mpz_set(e->v.c[j], a->v.c[j]); if (!j) mpz_sub(e->v.c[j], e->v.c[j], b->v.c[0]); break;
        case 2: mpz_neg(e->v.c[j], a->v.c[j]); if (!j) mpz_add(e->v.c[j], e->v.c[j], b->v.c[0]); break; default: mpz_mul(e->v.c[j], a->v.c[j], b->v.c[0]); if (!bigok(e->v.c[j])) big = 1; break; }
      if (big) return a; // b has no effects
      e->s = o < 2 ? cat("%s %c %s", par(a, P_ADD), o ? '-' : '+', par(b, P_MUL)) : o == 2 ? cat("%s - %s", par(b, P_ADD), par(a, P_MUL)) : o == 3 ? cat("%s * %s", par(a, P_MUL), par(b, P_NEG)) : cat("%s * %s", par(b, P_MUL), par(a, P_NEG)); e->pr = o < 3 ? P_ADD : P_MUL; return e;
    }
    ex_t *b = glist(d - 1);
    if (rng_p(&R, 1, 4) && a->v.n + b->v.n - 1 <= NL) { // the product of polynomials
      int big = 0; e->v.n = a->v.n + b->v.n - 1; for (int i2 = 0; i2 < a->v.n; i2++) for (int j = 0; j < b->v.n; j++) { mpz_addmul(e->v.c[i2 + j], a->v.c[i2], b->v.c[j]); if (!bigok(e->v.c[i2 + j])) big = 1; }
      if (!big) { e->s = cat("%s * %s", par(a, P_MUL), par(b, P_NEG)); e->pr = P_MUL; return e; }
      for (int j = 0; j < NL; j++) mpz_set_ui(e->v.c[j], 0);
    } int sub = (int)rng_n(&R, 2); e->v.n = a->v.n > b->v.n ? a->v.n : b->v.n;
    for (int j = 0; j < e->v.n; j++) { mpz_set_ui(e->v.c[j], 0); if (j < a->v.n) mpz_set(e->v.c[j], a->v.c[j]); if (j < b->v.n) { if (sub) mpz_sub(e->v.c[j], e->v.c[j], b->v.c[j]); else mpz_add(e->v.c[j], e->v.c[j], b->v.c[j]); } }
    e->s = cat("%s %c %s", par(a, P_ADD), sub ? '-' : '+', par(b, P_MUL)); e->pr = P_ADD; return e;
  }
  if (i >= 0 && rng_p(&R, 1, 2)) { e = ex_new(); vset(&e->v, slot(i)); e->s = cat("%s", nameof(i)); e->pr = P_ATOM; return e; }
  e = ex_new(); e->v.k = K_LIST; e->v.n = 1 + (int)rng_n(&R, 4); e->pr = P_NEG; e->s = cat("[ ");
  for (int j = 0; j < e->v.n; j++) { ex_t *a = gint(d > 1 ? 1 : 0); mpz_set(e->v.c[j], a->v.c[0]); e->s = cat("%s%s%s", e->s, j ? " , " : "", a->s); }
  e->s = cat("%s ]", e->s); return e; // not an operand of a call or an index, hence below P_ATOM; parenthesised there
}
// nested lists: polynomials whose coefficients are polynomials
typedef struct tn { int n; mpz_t z; struct tn *c[4]; } tn;
static tn *tnew(void) { tn *t = raw_malloc(sizeof *t); memset(t, 0, sizeof *t); mpz_init(t->z); return t; }
static tn *tgen(int d, int top) { tn *t = tnew(); if (!top && (!d || rng_p(&R, 1, 2))) { mpz_set_ui(t->z, rng_n(&R, rng_p(&R, 1, 3) ? 3 : 5000)); return t; } t->n = 1 + (int)rng_n(&R, 3); for (int i = 0; i < t->n; i++) t->c[i] = tgen(d - 1, 0); return t; }
static tn *tmap(const tn *a, long k) { tn *t = tnew(); t->n = a->n; mpz_mul_si(t->z, a->z, k); for (int i = 0; i < a->n; i++) t->c[i] = tmap(a->c[i], k); return t; }
static tn *tadd(const tn *a, const tn *b) { // an integer is added to the constant term
  if (!a->n && !b->n) { tn *t = tnew(); mpz_add(t->z, a->z, b->z); return t; }
  if (!a->n) return tadd(b, a);
  tn *t = tmap(a, 1); if (!b->n) { t->c[0] = tadd(a->c[0], b); return t; }
  for (int i = 0; i < b->n; i++) t->c[i] = i < a->n ? tadd(a->c[i], b->c[i]) : tmap(b->c[i], 1);
  if (b->n > a->n) t->n = b->n; return t;
}
static char *ttext(const tn *t, const char *sep) { if (!t->n) return cat("%Zd", t->z); char *s = cat("["); for (int i = 0; i < t->n; i++) s = cat("%s%s%s", s, i ? sep : "", ttext(t->c[i], sep)); return cat("%s]", s); }
static tn *tcopy(const tn *a) { return tmap(a, 1); }
static tn *tbump(tn *a, int up) { tn *t = a; while (t->n) t = t->c[rng_n(&R, (u32)t->n)]; if (up) mpz_add_ui(t->z, t->z, 1); return a; }
static val_t keep[16][NV]; static int kd;
static void snap(int k) { for (int i = 0; i < NV; i++) { if (!keep[k][i].c[0]->_mp_d) vinit(&keep[k][i]); vset(&keep[k][i], &vars[i]); } }
static void undo(int k) { for (int i = 0; i < NV; i++) vset(&vars[i], &keep[k][i]); }
static ex_t *gz(int f, int d); static ex_t *gext(int f, int d);
static ex_t *tern(ex_t *c, ex_t *a, ex_t *b) { ex_t *e = ex_new(); vset(&e->v, mpz_sgn(c->v.c[0]) ? &a->v : &b->v); e->s = cat("%s ? %s : %s", par(c, P_CMP), par(a, P_CMP), par(b, P_CMP)); e->pr = P_TERN; return e; }
static int cond(ex_t *c) { return mpz_sgn(c->v.c[0]) != 0; }
// the branch not taken has no effects
#define TERN(X, Y) do { ex_t *c = gint(d - 1), *a, *b; if (cond(c)) { a = X; int k = kd++ % 16; snap(k); b = Y; undo(k); kd--; } else { int k = kd++ % 16; snap(k); a = X; undo(k); kd--; b = Y; } return tern(c, a, b); } while (0)
static ex_t *gint_(int d); static ex_t *gint(int d) { // text that is dropped has no effects
  int k = kd++ % 16; snap(k); ex_t *e = gint_(d); kd--;
  if (!bigok(e->v.c[0])) { undo(k); ex_t *l = ex_new(); l->v.k = K_INT; mpz_fdiv_r_2exp(l->v.c[0], e->v.c[0], 20); l->s = cat("%Zd", l->v.c[0]); l->pr = P_ATOM; return l; }
  return e;
}
static ex_t *gint_(int d) {
  int i = pick_var(K_INT, -1); ex_t *e;
  if (d <= 0 || rng_p(&R, 1, 8)) { if (i >= 0 && rng_p(&R, 2, 3)) { e = ex_new(); vset(&e->v, slot(i)); e->s = cat("%s", nameof(i)); e->pr = P_ATOM; return e; } return lit(); }
  e = ex_new(); e->v.k = K_INT;
  switch (rng_n(&R, 15)) {
    case 0: case 1: case 2: { ex_t *a = gint(d - 1), *b = gint(d - 1); int sub = (int)rng_n(&R, 2); if (sub) mpz_sub(e->v.c[0], a->v.c[0], b->v.c[0]); else mpz_add(e->v.c[0], a->v.c[0], b->v.c[0]); e->s = cat("%s %c %s", par(a, P_ADD), sub ? '-' : '+', par(b, P_MUL)); e->pr = P_ADD; break; }
    case 3: case 4: { ex_t *a = gint(d - 1), *b = gint(d - 1); mpz_mul(e->v.c[0], a->v.c[0], b->v.c[0]); e->s = cat("%s * %s", par(a, P_MUL), par(b, P_NEG)); e->pr = P_MUL; break; }
    case 5: { ex_t *a = gint(d - 1); int sv = noasg; noasg = 1; ex_t *b = gint(d - 1); noasg = sv; if (!mpz_sgn(b->v.c[0])) return a; mpz_tdiv_q(e->v.c[0], a->v.c[0], b->v.c[0]); e->s = cat("%s / %s", par(a, P_MUL), par(b, P_NEG)); e->pr = P_MUL; break; }
    case 6: { ex_t *a = gint(d - 1); unsigned k = rng_n(&R, 6); if (mpz_sizeinbase(a->v.c[0], 2) > 50) k %= 3; mpz_pow_ui(e->v.c[0], a->v.c[0], k); e->s = cat("%s ^ %u", par(a, P_ATOM), k); e->pr = P_POW; break; }
    case 7: { ex_t *a = gint(d - 1); mpz_neg(e->v.c[0], a->v.c[0]); e->s = cat("- %s", par(a, P_NEG)); e->pr = P_NEG; break; }
    case 8: { ex_t *a = gint(d - 1), *b = gint(d - 1); int c = mpz_cmp(a->v.c[0], b->v.c[0]), k = (int)rng_n(&R, 6); static const char *o[] = { "==", "!=", "<=", ">=", "<", ">" }; int t[] = { c == 0, c != 0, c <= 0, c >= 0, c < 0, c > 0 }; mpz_set_si(e->v.c[0], t[k]); e->s = cat("%s %s %s", par(a, P_CMP), o[k], par(b, P_ASG + 1)); e->pr = P_CMP; break; }
    case 9: TERN(gint(d - 1), gint(d - 1));
    case 14: { int sv = noasg; noasg = 1; ex_t *a = glist(d - 1), *b = glist(d - 1); noasg = sv; if (a->v.n != b->v.n) b = a; int c = 0; for (int j = a->v.n - 1; j >= 0 && !c; j--) c = mpz_cmp(a->v.c[j], b->v.c[j]); // the highest coefficient decides
      int k = (int)rng_n(&R, 6); static const char *o[] = { "==", "!=", "<=", ">=", "<", ">" }; int t[] = { c == 0, c != 0, c <= 0, c >= 0, c < 0, c > 0 }; mpz_set_si(e->v.c[0], t[k]); e->s = cat("%s %s %s", par(a, P_CMP), o[k], par(b, P_ASG + 1)); e->pr = P_CMP; break; }
    case 10: { ex_t *l = glist(d - 1); int k = (int)rng_n(&R, (u32)l->v.n); mpz_set(e->v.c[0], l->v.c[k]); e->s = cat("%s [ %d ]", par(l, P_ATOM), k); e->pr = P_NEG; break; }
    case 11: { ex_t *a = gint(d - 1); if (mpz_sgn(a->v.c[0]) < 0 || mpz_sizeinbase(a->v.c[0], 2) > 120) return a; mpz_nextprime(e->v.c[0], a->v.c[0]); e->s = cat("nextprime( %s )", a->s); e->pr = P_ATOM; break; }
    case 12: { int f = pick_var(K_FLD, -1); if (f < 0) return lit(); int fi = slot(f)->f; if (rng_p(&R, 1, 2)) { mpz_set(e->v.c[0], fld[fi].p); e->s = cat("%s( %s )", rng_p(&R, 1, 2) ? "order" : "ord", nameof(f)); } else { int sv = noasg; noasg = 1; ex_t *a = gz(fi, d - 1); noasg = sv; mpz_set(e->v.c[0], a->v.c[0]); e->s = cat("M( %s )", a->s); } e->pr = P_ATOM; break; }
    default: { if (noasg) return lit(); int k = (int)rng_n(&R, NV); ex_t *a = gint(d - 1); e->s = cat("( v%d := %s )", k, par(a, P_ADD)); e->pr = P_ATOM; e->asg = 1; mpz_set(e->v.c[0], a->v.c[0]); vset(&vars[k], &e->v); break; }
  }
  return e;
}
static int fname(int f) { int c[NN], n = 0; for (int i = 0; i < NN; i++) if ((slot(i)->k == K_FLD || slot(i)->k == K_EFLD) && slot(i)->f == f) c[n++] = i; return n ? c[rng_n(&R, (u32)n)] : -1; }
static ex_t *gz(int f, int d) { // a residue; needs a variable naming the field or an element
  int i = pick_var(K_ZM, f), fv = fname(f); ex_t *e = ex_new(); e->v.k = K_ZM; e->v.f = f; mpz_ptr p = fld[f].p, z = e->v.c[0];
  if (fv < 0 && i < 0) { int sv = noasg; noasg = 1; ex_t *a = gint(0); noasg = sv; mpz_mod(z, a->v.c[0], p); e->s = cat("zmod( %Zd )( %s )", p, a->s); e->pr = -1; return e; } // another field object: callers check pr
  if (d <= 0 || rng_p(&R, 1, 6)) {
    if (i >= 0 && (fv < 0 || rng_p(&R, 1, 2))) { vset(&e->v, slot(i)); e->s = cat("%s", nameof(i)); e->pr = P_ATOM; return e; }
    const char *nm = nameof(fv); int sv = noasg; noasg = 1; ex_t *a = gint(d > 0 ? 1 : 0); noasg = sv; mpz_mod(z, a->v.c[0], p); e->s = cat("%s( %s )", nm, a->s); e->pr = P_ATOM; return e;
  }
  switch (rng_n(&R, 10)) {
    case 0: case 1: case 2: { ex_t *a = gz(f, d - 1), *b = gz(f, d - 1); int sub = (int)rng_n(&R, 2); if (sub) mpz_sub(z, a->v.c[0], b->v.c[0]); else mpz_add(z, a->v.c[0], b->v.c[0]); e->s = cat("%s %c %s", par(a, P_ADD), sub ? '-' : '+', par(b, P_MUL)); e->pr = P_ADD; break; }
    case 3: case 4: { ex_t *a = gz(f, d - 1), *b = gz(f, d - 1); mpz_mul(z, a->v.c[0], b->v.c[0]); e->s = cat("%s * %s", par(a, P_MUL), par(b, P_NEG)); e->pr = P_MUL; break; }
    case 5: { ex_t *a = gz(f, d - 1), *b = gz(f, d - 1); if (!mpz_sgn(b->v.c[0])) return a; mpz_invert(z, b->v.c[0], p); mpz_mul(z, z, a->v.c[0]); e->s = cat("%s / %s", par(a, P_MUL), par(b, P_NEG)); e->pr = P_MUL; break; }
    case 6: { ex_t *a = gz(f, d - 1); int k = (int)rng_n(&R, 40) - (mpz_sgn(a->v.c[0]) ? 12 : 0); mpz_t t; mpz_init_set_si(t, k); mpz_powm(z, a->v.c[0], t, p); mpz_clear(t); e->s = k < 0 ? cat("%s ^ ( - %d )", par(a, P_ATOM), -k) : cat("%s ^ %d", par(a, P_ATOM), k); e->pr = P_POW; break; }
    case 7: { ex_t *a = gz(f, d - 1); mpz_neg(z, a->v.c[0]); e->s = cat("- %s", par(a, P_NEG)); e->pr = P_NEG; break; }
    case 8: { ex_t *a = gz(f, d - 1); if (!mpz_sgn(a->v.c[0])) return a; mpz_invert(z, a->v.c[0], p); e->s = cat("inv( %s )", a->s); e->pr = P_ATOM; break; }
    default: TERN(gz(f, d - 1), gz(f, d - 1));
  }
  mpz_mod(z, z, p); return e;
}
static void emul(val_t *o, val_t *a, val_t *b, int f) {
  int n = fld[f].deg; mpz_t t[2 * ND]; for (int i = 0; i < 2 * n; i++) mpz_init(t[i]);
  for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) mpz_addmul(t[i + j], a->c[i], b->c[j]);
  for (int i = 2 * n - 2; i >= n; i--) for (int j = 0; j < n; j++) mpz_submul(t[i - n + j], t[i], fld[f].m[j]);
  o->k = K_EXT; o->f = f; o->n = n; for (int i = 0; i < n; i++) mpz_mod(o->c[i], t[i], fld[f].p); for (int i = 0; i < 2 * n; i++) mpz_clear(t[i]);
}
static ex_t *gext(int f, int d) {
  int i = pick_var(K_EXT, f), fv = fname(f); ex_t *e = ex_new(); e->v.k = K_EXT; e->v.f = f; int n = e->v.n = fld[f].deg;
  if (d <= 0 || rng_p(&R, 1, 6)) {
    if (i >= 0 && (fv < 0 || rng_p(&R, 1, 2))) { vset(&e->v, slot(i)); e->s = cat("%s", nameof(i)); e->pr = P_ATOM; return e; }
    const char *nm = nameof(fv); int sv = noasg; noasg = 1;
    if (rng_p(&R, 1, 4)) { ex_t *a = gint(0); mpz_mod(e->v.c[0], a->v.c[0], fld[f].p); e->s = cat("%s( %s )", nm, a->s); }
    else { ex_t *l = glist(0); for (int j = 0; j < n && j < l->v.n; j++) mpz_mod(e->v.c[j], l->v.c[j], fld[f].p); e->s = cat("%s( %s )", nm, l->s); }
    noasg = sv; e->pr = P_ATOM; return e;
  }
  switch (rng_n(&R, 7)) {
    case 0: case 1: case 2: { ex_t *a = gext(f, d - 1), *b = gext(f, d - 1); int sub = (int)rng_n(&R, 2); for (int j = 0; j < n; j++) { if (sub) mpz_sub(e->v.c[j], a->v.c[j], b->v.c[j]); else mpz_add(e->v.c[j], a->v.c[j], b->v.c[j]); mpz_mod(e->v.c[j], e->v.c[j], fld[f].p); } e->s = cat("%s %c %s", par(a, P_ADD), sub ? '-' : '+', par(b, P_MUL)); e->pr = P_ADD; return e; }
    case 3: case 4: { ex_t *a = gext(f, d - 1), *b = gext(f, d - 1); emul(&e->v, &a->v, &b->v, f); e->s = cat("%s * %s", par(a, P_MUL), par(b, P_NEG)); e->pr = P_MUL; return e; }
    case 5: { ex_t *a = gext(f, d - 1); int k = (int)rng_n(&R, 9); mpz_set_ui(e->v.c[0], 1); for (int j = 0; j < k; j++) { val_t t; vinit(&t); vset(&t, &e->v); emul(&e->v, &t, &a->v, f); } e->s = cat("%s ^ %d", par(a, P_ATOM), k); e->pr = P_POW; return e; }
    default: { ex_t *a = gext(f, d - 1); for (int j = 0; j < n; j++) { mpz_neg(e->v.c[j], a->v.c[j]); mpz_mod(e->v.c[j], e->v.c[j], fld[f].p); } e->s = cat("- %s", par(a, P_NEG)); e->pr = P_NEG; return e; }
  }
}
static char *vtext(val_t *v) {
  if (v->k == K_INT || v->k == K_ZM) return cat("%Zd\n", v->c[0]);
  char *s = cat("["); for (int i = 0; i < v->n; i++) s = cat("%s%s%Zd", s, i ? ", " : "", v->c[i]); return cat("%s]\n", s);
}
// ---- sessions ----
enum { S_GOOD, S_BAD, S_LINE, S_DEF };                  // S_LINE: malformed, ended by the end of its line only; S_DEF: no terminator
typedef struct { char *t, *exp; int kind, op, ev; } st_t; // exp NULL: compared between executions only
static st_t *S; static int nS;
static void stmt(int kind, char *t, char *exp, int op, int ev) { if (nS < MAXS) { S[nS].t = t; S[nS].exp = exp; S[nS].kind = kind; S[nS].op = op; S[nS].ev = ev; nS++; } }
static ex_t *gany(int d) { // some element expression with a printable value
  u32 k = rng_n(&R, 4); int f;
  if (k == 1 && (f = pick_var(K_ZM, -1)) >= 0) return gz(slot(f)->f, d);
  if (k == 2 && (f = pick_var(K_EXT, -1)) >= 0) return gext(slot(f)->f, d);
  if (k == 3) return glist(d);
  return gint(d);
}
// a subexpression of a statement that must fail: changes nothing
static char *sub(int d) { int sv = noasg; noasg = 1; ex_t *e = gany(d); noasg = sv; return par(e, P_ATOM); }
static char *subi(void) { int sv = noasg; noasg = 1; ex_t *e = gint(1); noasg = sv; return par(e, P_ATOM); }
static const char *const PL = "adefgi";
static int funpick(void) { int c[4], n = 0; for (int i = 0; i < 4; i++) if (fun[i].def) c[n++] = i; return n ? c[rng_n(&R, (u32)n)] : -1; }
static void nested(int op, int idx) {
  tn *a = tgen(3, 1), *b = tgen(3, 0), *r; char *as = ttext(a, " , "), *bs = ttext(b, " , "), *t; long k = (long)rng_n(&R, 9);
  switch (rng_n(&R, 8)) {
    case 0: case 1: r = tadd(a, b); t = cat("( %s ) + ( %s )", as, bs); break;
    case 2: r = tadd(a, tmap(b, -1)); t = cat("( %s ) - ( %s )", as, bs); break;
    case 3: r = tadd(b, tmap(a, -1)); t = cat("( %s ) - ( %s )", bs, as); break;
    case 4: r = tmap(a, -1); t = cat("- ( %s )", as); break;
    case 5: r = tmap(a, k); t = rng_p(&R, 1, 2) ? cat("( %s ) * %ld", as, k) : cat("%ld * ( %s )", k, as); break;
    case 6: { int up = (int)rng_n(&R, 2); tn *c = tbump(tcopy(a), up); stmt(S_GOOD, cat("( %s ) == ( %s )", as, ttext(c, " , ")), up ? "0\n" : "1\n", op, idx); return; }
    default: { t = cat("( %s )", as); for (r = a; r->n && (r == a || rng_p(&R, 2, 3)); ) { int j = (int)rng_n(&R, (u32)r->n); t = cat("( %s [ %d ] )", t, j); r = r->c[j]; } break; }
  }
  count("probe.nested_list"); stmt(S_GOOD, t, cat("%s\n", ttext(r, ", ")), op, idx);
}
static void event(int idx, ev_t *e) {
  rng_init(&R, e->a); noasg = 0; int d = 1 + (int)rng_n(&R, 3), to = e->who % NV, f;
  switch (e->op) {
    case O_INT: case O_LIST: case O_ZM: case O_EXT: {
      ex_t *x; noasg = e->op == O_ZM || e->op == O_EXT;
      if (e->op == O_LIST && rng_p(&R, 1, 4)) { nested(e->op, idx); return; }
      if (e->op == O_ZM) { if ((f = pick_var(K_FLD, -1)) < 0 && (f = pick_var(K_ZM, -1)) < 0) return; x = gz(slot(f)->f, d); if (x->pr < 0) return; }
      else if (e->op == O_EXT) { if ((f = pick_var(K_EFLD, -1)) < 0 && (f = pick_var(K_EXT, -1)) < 0) return; x = gext(slot(f)->f, d); }
      else x = e->op == O_LIST ? glist(d) : gint(d + 1);
      if (e->op == O_EXT && rng_p(&R, 1, 4)) { int j = (int)rng_n(&R, (u32)x->v.n); val_t t; vinit(&t); t.k = K_ZM; mpz_set(t.c[0], x->v.c[j]); stmt(S_GOOD, cat("%s [ %d ]", par(x, P_ATOM), j), vtext(&t), e->op, idx); return; }
      if (rng_p(&R, 3, 5)) { char *t = cat("v%d := %s", to, par(x, P_ADD)); vset(&vars[to], &x->v); stmt(S_GOOD, t, "", e->op, idx); }
      else stmt(S_GOOD, x->s, x->asg ? "" : vtext(&x->v), e->op, idx);
      return; }
    case O_FIELD: {
      if (nfld >= 60) return;
      static const char *pr[] = { "2", "3", "5", "7", "13", "101", "65537", "2305843009213693951", "340282366920938463463374607431768211297", "730750818665451621361119245571504901405976559617", "18446744073709551629", "170141183460469231731687303715884105727" };
      int b = pick_var(K_FLD, -1);
      if (b >= 0 && rng_p(&R, 1, 2)) { // extension: arithmetic does not need an irreducible modulus
        int fi = slot(b)->f, n = 2 + (int)rng_n(&R, 2); char *l = cat("[ "); fld[nfld].deg = n; mpz_init_set(fld[nfld].p, fld[fi].p); ebase[nfld] = fi;
        for (int i = 0; i < n; i++) { long c = (long)rng_n(&R, 20) + (i == 0); mpz_init(fld[nfld].m[i]); mpz_set_si(fld[nfld].m[i], c); mpz_mod(fld[nfld].m[i], fld[nfld].m[i], fld[nfld].p); l = cat("%s%ld , ", l, c); }
        char *t = rng_p(&R, 1, 2) ? cat("v%d := extend( %s , %s1 ] )", to, nameof(b), l) : cat("v%d := polymod( poly( %s )( %s1 ] ) )", to, nameof(b), l);
        vars[to].k = K_EFLD; vars[to].f = nfld++; stmt(S_GOOD, t, "", e->op, idx); return;
      }
      mpz_init_set_str(fld[nfld].p, pr[rng_n(&R, sizeof pr / sizeof *pr)], 10); fld[nfld].deg = 0;
      stmt(S_GOOD, cat("v%d := zmod( %Zd )", to, fld[nfld].p), "", e->op, idx); vars[to].k = K_FLD; vars[to].f = nfld++; return; }
    case O_DEF: {
      int k = (int)rng_n(&R, 4); fun[k].def = 1; fun[k].np = (int)rng_n(&R, 3); fun[k].tgt = (int)rng_n(&R, NV); fun[k].tgt2 = rng_p(&R, 1, 2) ? -1 : (int)rng_n(&R, NV);
      fun[k].a = (int)rng_n(&R, 50); fun[k].b = (int)rng_n(&R, 50); fun[k].c = (int)rng_n(&R, 1000);
      char *ps = fun[k].np == 0 ? "" : fun[k].np == 1 ? cat("p%da", k) : cat("p%da , p%db", k, k);
      char *bd = fun[k].np == 0 ? cat("%d", fun[k].c) : fun[k].np == 1 ? cat("%d * p%da + %d", fun[k].a, k, fun[k].c) : cat("%d * p%da - %d * p%db + %d", fun[k].a, k, fun[k].b, k, fun[k].c);
      char *t2 = fun[k].tgt2 < 0 ? rng_p(&R, 1, 2) ? cat("nosuch1 ; ") : "" : cat("v%d := v%d ^ 2 ; ", fun[k].tgt2, fun[k].tgt);
      if (fun[k].tgt2 < 0) t2 = rng_p(&R, 1, 2) ? cat("v%d ; ", fun[k].tgt) : "";
      stmt(S_DEF, cat("define~f%d( %s ) { v%d := %s ; %s}", k, ps, fun[k].tgt, bd, t2), cat("user-defined function f%d\n", k), e->op, idx); return; }
    case O_CALL: {
      int k = funpick(); if (k < 0) return; ex_t *a = NULL, *b = NULL; noasg = 1; if (fun[k].np > 0) a = gint(1); if (fun[k].np > 1) b = gint(1); noasg = 0;
      char *t = fun[k].np == 0 ? cat("f%d( )", k) : fun[k].np == 1 ? cat("f%d( %s )", k, a->s) : cat("f%d( %s , %s )", k, a->s, b->s);
      if (a) vset(&parm[k][0], &a->v); if (b) vset(&parm[k][1], &b->v);
      val_t r; vinit(&r); r.k = K_INT; mpz_set_si(r.c[0], fun[k].c); if (a) mpz_addmul_ui(r.c[0], a->v.c[0], (unsigned long)fun[k].a); if (b) mpz_submul_ui(r.c[0], b->v.c[0], (unsigned long)fun[k].b);
      vset(&vars[fun[k].tgt], &r); if (fun[k].tgt2 >= 0) { mpz_mul(r.c[0], r.c[0], r.c[0]); vset(&vars[fun[k].tgt2], &r); }
      stmt(S_GOOD, t, "", e->op, idx);
      for (int i = 0; i < NN; i++) if (slot(i)->k == K_INT && !bigok(slot(i)->c[0])) { mpz_set_ui(slot(i)->c[0], 7); stmt(S_GOOD, cat("%s := 7", nameof(i)), "", e->op, idx); }
      return; }
    case O_BASE: { // a point of each group, their pairing
      if (nbase >= NP) return; int b = nbase++;
      stmt(S_GOOD, cat("g%d := rnd( G1 )", b), "", e->op, idx); stmt(S_GOOD, cat("h%d := random( G2 )", b), "", e->op, idx); stmt(S_GOOD, cat("t%d := pairing( g%d , h%d )", b, b, b), "", e->op, idx);
      if (curty && curty != 'i' && rng_p(&R, 1, 2)) { // an element from the list of its coordinates
        int off = rng_p(&R, 1, 4), dg = curty == 'd' ? 3 : curty == 'f' ? 2 : 5; char n = "ght"[rng_n(&R, 3)]; char *l = cat("[ ");
        if (n == 't' && curty != 'a' && curty != 'd') n = 'g';
        if (n == 'h' && (curty == 'a' || curty == 'e')) n = 'g';
        for (int i = 0; i < 2; i++) { if (n == 'g' || (n == 't' && curty == 'a')) l = cat("%s%s%sM( %c%d [ %d ] )", l, i ? " , " : "", off && i ? "1 + " : "", n, b, i);
          else { l = cat("%s%s[ ", l, i ? " , " : ""); for (int j = 0; j < dg; j++) l = cat("%s%s%sM( ( %c%d [ %d ] ) [ %d ] )", l, j ? " , " : "", off && i && !j ? "1 + " : "", n, b, i, j); l = cat("%s ]", l); } }
        if (off && n != 't') count("probe.off_curve"); else stmt(S_GOOD, cat("%s( %s ] ) == %c%d", n == 'g' ? "G1" : n == 'h' ? "G2" : "GT", l, n, b), off ? "0\n" : "1\n", e->op, idx);
        count("probe.coordinates");
      }
      return; }
    case O_PEQ: {
      if (!nbase) return; int b = (int)rng_n(&R, (u32)nbase); noasg = 1;
      long x = (long)rng_n(&R, 100000), y = (long)rng_n(&R, 100000); int neg = rng_p(&R, 1, 3), off = rng_p(&R, 1, 3);
      char *xs = neg ? cat("( - %ld )", x) : cat("%ld", x);
      long long w = (neg ? -1LL : 1LL) * x * y; char *ws = w < 0 ? cat("( - %lld )", -w) : cat("%lld", w);
      char *wo = off ? (w - 1 < 0 ? cat("( - %lld )", 1 - w) : cat("%lld", w - 1)) : ws;
      switch (rng_n(&R, 4)) {
        case 0: stmt(S_GOOD, cat("pairing( g%d ^ %s , h%d ^ %ld ) == t%d ^ %s", b, xs, b, y, b, wo), off ? "0\n" : "1\n", e->op, idx); break;
        case 1: stmt(S_GOOD, cat("g%d ^ %s * g%d ^ %ld %s g%d ^ ( %s + %ld )", b, xs, b, y, off ? "!=" : "==", b, xs, y), off ? "0\n" : "1\n", e->op, idx); break;
        case 2: stmt(S_GOOD, cat("t%d ^ %s / t%d ^ %ld == t%d ^ ( %s - %ld )", b, xs, b, y, b, off ? cat("1 + %s", xs) : xs, y), off ? "0\n" : "1\n", e->op, idx); break;
        default: stmt(S_GOOD, cat("pairing( g%d , h%d ^ %ld * h%d ) == t%d ^ ( %ld + %d )", b, b, y, b, b, y, off ? 2 : 1), off ? "0\n" : "1\n", e->op, idx); break;
      }
      return; }
    case O_INIT: curty = PL[rng_n(&R, 6)]; stmt(S_GOOD, cat("init_pairing_%c( )", curty), "", e->op, idx); return;
    case O_MISC:
      switch (rng_n(&R, 6)) {
        case 0: { ex_t *a = gint(1); stmt(S_GOOD, cat("type( %s )", a->s), cat("element\n%s", vtext(&a->v)), e->op, idx); return; }
        case 1: { int v = pick_var(K_FLD, -1); if (v < 0) return; stmt(S_GOOD, cat("%s", nameof(v)), NULL, e->op, idx); return; }
        case 2: { static const char *o[] = { "sqrt", "order( G1 )", "nextprime", "order( Zr )", "order( G1 )", "M", "Z", "sqrt", "pairing", "init_pairing_a" }; stmt(S_GOOD, cat("%s", o[rng_n(&R, 10)]), NULL, e->op, idx); return; }
        case 3: { int n = (int)rng_n(&R, 100000); stmt(S_GOOD, cat("Zr( %d )", n), cat("%d\n", n), e->op, idx); return; }
        case 4: { int k = funpick(); if (k < 0) return; stmt(S_GOOD, cat("f%d", k), cat("user-defined function f%d\n", k), e->op, idx); return; }
        default: { int v = pick_var(K_ZM, -1); if (v < 0) return; f = slot(v)->f; if (fname(f) < 0) return; noasg = 1; ex_t *a = gz(f, 1); if (a->pr < 0) return; char *q = cat("( %s ) ^ 2", a->s); stmt(S_GOOD, cat("sqrt( %s ) ^ 2 == %s", q, q), "1\n", e->op, idx); return; }
      }
    case O_REC: { // the sum of the numbers up to n, one call per number
      int n = (int)rng_n(&R, 150), c = (int)rng_n(&R, 1000), v = to; const char *q = rng_p(&R, 1, 2) ? "loop" : "loop_again";
      stmt(S_DEF, cat("define~%s( pz ) { v%d := v%d + pz ; pz == 0 ? 0 : %s( pz - 1 ) ; }", q, v, v, q), cat("user-defined function %s\n", q), e->op, idx);
      stmt(S_GOOD, cat("v%d := %d", v, c), "", e->op, idx); vars[v].k = K_INT; mpz_set_si(vars[v].c[0], c + n * (n + 1) / 2);
      stmt(S_GOOD, cat("%s( %d )", q, n), "", e->op, idx); return; }
    // bad statements: whatever they say, they must say something and change nothing
    case O_BSYN: {
      char *a = sub(1), *b = sub(0), *t; int v = (int)rng_n(&R, NV);
      switch (rng_n(&R, 24)) {
        case 0: t = cat("%s +", a); break; case 1: t = cat(") %s", a); break; case 2: t = cat("%s~7", a); break; case 3: t = cat("v%d :=", v); break;
        case 4: t = cat(":= %s", a); break; case 5: t = cat("nextprime( %s ,", a); break; case 6: t = cat("v%d := [ %s ,", v, a); break; case 7: t = cat("v%d := [ ]", v); break;
        case 8: t = cat("%s @ %s", a, b); break; case 9: t = cat("? %s : %s", a, b); break; case 10: t = cat("%s ? %s", a, b); break; case 11: t = cat("v%d [ %s", v, b); break;
        case 12: t = cat("$"); break; case 13: t = cat("%s + * %s", a, b); break; case 14: t = cat("( %s", a); break; case 15: t = cat("v%d := %s )", v, a); break;
        case 16: t = cat("7( %s )", a); break; case 17: t = cat("%s , %s", a, b); break; case 18: t = cat("define~7"); break; case 19: t = cat("define~f%d", v & 3); break;
        case 20: t = cat("v%d := %s v%d := %s ]", v, a, v, b); break; case 21: t = cat("v%d !~= %s", v, b); break; case 22: t = cat("\"%s\"", b); break;
        default: t = cat("%s == == %s", a, b); break;
      }
      stmt(S_BAD, t, NULL, e->op, idx); return; }
    case O_BNOSEMI: {
      char *a = sub(1), *b = sub(0), *t; int v = (int)rng_n(&R, NV);
      switch (rng_n(&R, 8)) { case 0: t = cat(") %s", a); break; case 1: t = cat("%s~7 + %s", a, b); break; case 2: t = cat(":= %s", a); break; case 3: t = cat("%s @ %s", a, b); break;
        case 4: t = cat("? %s : %s", a, b); break; case 5: t = cat("v%d := %s ) v%d := %s", v, a, v, b); break; case 6: t = cat("define~7~v%d := %s", v, a); break; default: t = cat("%s == == v%d := %s", a, v, b); break; }
      stmt(S_LINE, t, NULL, e->op, idx); return; }
    case O_BNAME: {
      char *a = sub(1), *t; int v = (int)rng_n(&R, NV), k = funpick();
      switch (rng_n(&R, 8)) { case 0: t = cat("v%d := %s + nosuch", v, a); break; case 1: t = cat("v%d := nosuch", v); break; case 2: t = cat("v%d := nosuch( %s )", v, a); break; case 3: t = k >= 0 && fun[k].np == 2 ? cat("f%d( %s , nosuch )", k, a) : cat("nosuch"); break;
        case 4: t = cat("v%d := [ %s , nosuch ]", v, subi()); break; case 5: t = cat("v%d := ( nosuch ? %s : 3 )", v, a); break; case 6: t = cat("v%d := - nosuch", v); break; default: t = cat("v%d := ( 1 ? nosuch : %s )", v, a); break; }
      stmt(S_BAD, t, NULL, e->op, idx); return; }
    case O_BARG: {
      char *a = sub(1), *t; int v = (int)rng_n(&R, NV), k = funpick();
      switch (rng_n(&R, 16)) {
        case 0: t = cat("v%d := pairing( %s )", v, a); break; case 1: t = cat("v%d := order( %s )", v, a); break; case 2: t = cat("v%d := rnd( %s )", v, a); break; case 3: t = cat("v%d := nextprime( )", v); break;
        case 4: t = cat("v%d := zmod( 1 )", v); break; case 5: t = cat("v%d := zmod( - 7 )", v); break; case 6: t = cat("v%d := zmod( Zr )", v); break; case 7: t = cat("v%d := sqrt( M )", v); break;
        case 8: t = k < 0 ? cat("inv( )") : fun[k].np == 0 ? cat("f%d( %s )", k, a) : cat("f%d( )", k); break; case 9: t = cat("v%d := pairing( %s , %s )", v, a, a); break;
        case 10: t = cat("v%d := ( %s )( 3 )", v, a); break; case 11: t = cat("v%d := M( M )", v); break; case 12: t = cat("v%d := Zr( )", v); break; case 13: t = cat("v%d := extend( Zr , 5 )", v); break;
        case 14: t = cat("v%d := poly( %s )", v, a); break; default: t = cat("v%d := init_pairing_a( %s )", v, a); break;
      }
      stmt(S_BAD, t, NULL, e->op, idx); return; }
    case O_BFLD: {
      char *t; int v = (int)rng_n(&R, NV); char *a = subi(); static const char *o[] = { "+", "-", "*", "==", "/", "<" }; const char *q = o[rng_n(&R, 6)];
      switch (rng_n(&R, 5)) { case 0: t = cat("v%d := ( ( %s ) %s Zr( 5 ) )", v, a, q); break; case 1: t = cat("v%d := ( zmod( 11 )( 3 ) %s zmod( 11 )( 4 ) )", v, q); break; case 2: t = cat("v%d := ( M %s %s )", v, q, a); break;
        case 3: if (nbase) { t = cat("v%d := ( g%d %s t%d )", v, (int)rng_n(&R, (u32)nbase), q, (int)rng_n(&R, (u32)nbase)); break; } /* fall through */ default: t = cat("v%d := [ Zr( 2 ) , %s ]", v, a); break; }
      stmt(S_BAD, t, NULL, e->op, idx); return; }
    case O_BDIV: {
      char *t; int v = (int)rng_n(&R, NV); char *a = subi(); int z = pick_var(K_ZM, -1);
      switch (rng_n(&R, 6)) { case 0: t = cat("v%d := %s / 0", v, a); break; case 1: t = cat("v%d := %s / ( 3 - 3 )", v, a); break; case 2: t = cat("v%d := Zr( 3 ) / Zr( 0 )", v); break; case 3: t = cat("v%d := inv( Zr( 0 ) )", v); break;
        case 4: t = z >= 0 ? cat("v%d := %s / ( %s - %s )", v, nameof(z), nameof(z), nameof(z)) : cat("1 / 0"); break; default: t = cat("v%d := Zr( 0 ) ^ ( - 3 )", v); break; }
      stmt(S_BAD, t, NULL, e->op, idx); return; }
    case O_BIDX: {
      char *t; int v = (int)rng_n(&R, NV); int l = pick_var(K_LIST, -1), x = pick_var(K_EXT, -1), z = pick_var(K_INT, -1);
      switch (rng_n(&R, 5)) { case 0: if (l >= 0) { t = cat("v%d := %s [ %d ]", v, nameof(l), slot(l)->n + (int)rng_n(&R, 3)); break; } /* fall through */ case 1: if (z >= 0) { t = cat("v%d := %s [ 0 ]", v, nameof(z)); break; } /* fall through */
        case 2: if (x >= 0) { t = cat("v%d := %s [ %d ]", v, nameof(x), slot(x)->n); break; } /* fall through */ case 3: t = cat("v%d := ( [ 1 , 2 ] ) [ - 1 ]", v); break; default: t = cat("v%d := ( [ 1 , 2 ] ) [ 340282366920938463463374607431768211456 ]", v); break; }
      stmt(S_BAD, t, NULL, e->op, idx); return; }
    case O_BRES: {
      static const char *o[] = { "order", "M", "Z", "pairing", "rnd", "CHECK", "exit", "sqrt" }; const char *q = o[rng_n(&R, 8)];
      if (rng_p(&R, 1, 3)) stmt(S_DEF + 10, cat("define~%s( x ) { v%d := x ; }", q, (int)rng_n(&R, NV)), NULL, e->op, idx); else stmt(S_BAD, cat("%s := %s", q, sub(1)), NULL, e->op, idx);
      return; }
  }
}
static const char *marker(int i) { return cat("7301%09d", i); }
// ---- layout: how the same statements arrive ----
typedef struct { char *b; size_t n; size_t end[MAXS]; int shown[MAXS]; } in_t;
static void put(in_t *o, const char *s) { size_t k = strlen(s); memcpy(o->b + o->n, s, k); o->n += k; }
static void gap(in_t *o, rng_t *r, int nl, int must, int pad) {
  switch (rng_n(r, pad ? 14 : 30)) {
    case 0: put(o, "\t"); return; case 1: put(o, "  \t "); return; case 2: put(o, "/* ; v0 := 5; */"); return; case 3: put(o, " /**/ "); return;
    case 4: if (nl) { put(o, "\n"); return; } break; case 5: if (nl) { put(o, " # note; ) + \n"); return; } break;
    case 6: if (pad > 1 && rng_p(r, 1, 4)) { int k = 900 + (int)rng_n(r, 300); for (int i = 0; i < k; i++) put(o, " "); return; } break;
    case 7: if (pad > 1 && rng_p(r, 1, 4)) { put(o, "/*"); int k = 990 + (int)rng_n(r, 60); for (int i = 0; i < k; i++) put(o, "x"); put(o, "*/"); return; } break;
    case 8: case 9: case 10: if (!must) return; break;
    default: break;
  }
  put(o, " ");
}
// names of the variables: short, long with a common beginning, beginnings of one another, differing in case only
static int names;
static int idch(char c) { return c == '_' || (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
static void putname(in_t *o, int i) {
  char b[200]; int n = 0, k = names;
  if (k % 3 == 0) { for (; n < k; n++) b[n] = "abcdefghij_klmnop"[n % 17]; n += sprintf(b + n, "%d", i); if (k & 1) n += sprintf(b + n, "_z"); }
  else if (k % 3 == 1) { b[n++] = 'q'; for (int j = 0; j < i; j++) b[n++] = 'q'; }
  else { n = sprintf(b, "abcd"); for (int j = 0; j < 3; j++) if (i >> j & 1) b[j] = (char)(b[j] - 32); }
  b[n] = 0; put(o, b);
}
static void body(in_t *o, rng_t *r, const char *t, int nl, int easy, int pad) {
  const char *t0 = t;
  for (; *t; t++) {
    if (names && *t == 'v' && t[1] >= '0' && t[1] < '0' + NV && !idch(t[2]) && (t == t0 || !idch(t[-1]))) { putname(o, t[1] - '0'); t++; }
    else if (*t == ' ') gap(o, r, nl, 0, pad); else if (*t == '~') gap(o, r, nl, 1, pad);
    else if (easy && t[0] == ':' && t[1] == '=' && rng_p(r, 1, 2)) { put(o, "="); t++; }
    else { char c[2] = { *t, 0 }; put(o, c); }
  }
}
static void eol(in_t *o, rng_t *r) { put(o, rng_p(r, 1, 9) ? "\r\n" : "\n"); }
static void sep(in_t *o, rng_t *r, int easy, int pad) { // between statements
  switch (rng_n(r, pad ? 8 : 3)) { case 0: case 1: eol(o, r); break; case 2: if (easy) eol(o, r); else put(o, " "); break; case 3: eol(o, r); put(o, "# comment; 5;"); eol(o, r); break; case 4: put(o, "/* over\n v1 := 3; lines */"); break; case 5: eol(o, r); eol(o, r); break; default: put(o, "\t"); }
}
static void layout(in_t *o, plan_t *p, int v, int file, int easy) {
  rng_t r; rng_init(&r, (u64)p->cfg[C_LAY] + (u64)v * 77); int pad = v ? (int)p->cfg[C_PAD] : 0, line = !file; names = (int)p->cfg[C_NAMES] % 121; o->b = raw_malloc(4 << 20); o->n = 0;
  for (int i = 0; i < nS; i++) {
    int k = S[i].kind % 10, bad = S[i].kind == S_BAD || S[i].kind == S_LINE || S[i].kind > S_DEF;
    o->shown[i] = 0; if (bad && !v) continue;
    if (k == S_LINE && file && !easy) k = S_BAD;
    o->shown[i] = 1;
    if (k == S_LINE || (k == S_BAD && (line || easy))) body(o, &r, S[i].t, 0, easy, pad); else body(o, &r, S[i].t, v && !easy, easy, pad);
    if (k == S_LINE) eol(o, &r); else if (k == S_DEF) { if (rng_p(&r, 1, 2)) sep(o, &r, easy, pad); } else if (easy && rng_p(&r, 1, 2)) eol(o, &r); else { put(o, v && rng_p(&r, 1, 6) ? " ;" : ";"); sep(o, &r, easy, pad); }
    put(o, marker(i)); if (!v) put(o, ";\n"); else if (easy && rng_p(&r, 1, 2)) eol(o, &r); else { put(o, ";"); if (i + 1 < nS || rng_p(&r, 1, 2)) sep(o, &r, easy, pad); }
    o->end[i] = o->n;
  }
  static const char *tails[] = { "", "\n", "# end of session", "  \t" }; if (v) put(o, tails[p->cfg[C_TAIL] & 3]);
}
// ---- simulated terminal ----
static char *out; static size_t on, ocap; static size_t *eoff; // error text length when each byte of output was written
static ssize_t t_write(void *c, const char *b, size_t n) { (void)c; size_t el = errcap_len(); for (size_t i = 0; i < n && on < ocap; i++) { out[on] = b[i]; eoff[on++] = el; } return (ssize_t)n; }
static jmp_buf jb; static int excode;
static void on_exit_(int code) { excode = code; longjmp(jb, 1); }
static void run(plan_t *p, int v) {
  errcap_start(); pool = raw_malloc(POOL); pn = 0; S = raw_malloc(MAXS * sizeof *S); nS = 0; nfld = 0; nbase = 0; curty = 0; memset(fun, 0, sizeof fun);
  amode_t m = { v == 0 ? FILL_ZERO : v == 1 ? (int)p->cfg[C_FILL] : FILL_A5, 1, v, p->seed + (u64)v }; arena_install(&m);
  static rsrc_t rs; rsrc_init(&rs, p->seed ^ 0x14); rsrc_install(&rs);
  for (int i = 0; i < NN; i++) { vinit(slot(i)); }
  for (int i = 0; i < p->n; i++) if (nS < MAXS - 6) event(i, &p->ev[i]);
  for (int i = 0; p->n && i < NN && nS < MAXS; i++) { int k = slot(i)->k; if (k == K_INT || k == K_LIST || k == K_ZM || k == K_EXT) stmt(S_GOOD, cat("%s", nameof(i)), vtext(slot(i)), O_MISC, p->n - 1); } // everything as it should be in the end
  static in_t in[3]; int file[3] = { 1, (int)p->cfg[C_MODE1] & 1, (int)p->cfg[C_MODE2] & 1 }, easy[3] = { 0, (int)p->cfg[C_EASY1] & 1, (int)p->cfg[C_EASY2] & 1 };
  for (int i = 0; i < 3; i++) layout(&in[i], p, i, file[i], easy[i]);
  size_t cut = p->cfg[C_CUT] ? (size_t)((double)in[2].n * (double)(p->cfg[C_CUT] % 1001) / 1001.0) : in[2].n; int K = nS;
  if (p->cfg[C_CUT]) { for (K = 0; K < nS && in[2].end[K] <= cut; K++) { } }
  ffile_t f; memset(&f, 0, sizeof f); f.data = (unsigned char *)in[v].b; f.len = in[v].n; f.fail_at = f.eof_at = SIZE_MAX; int bye = -1;
  if (v == 2 && p->cfg[C_CUT]) {
    if (p->cfg[C_EXIT] && K) { // ended by a statement instead
      cut = in[2].end[K - 1]; bye = (int)p->cfg[C_EXIT] - 1; char x[64]; int xn = sprintf(x, "\nexit( %d );", bye); memmove(in[2].b + cut + xn, in[2].b + cut, in[2].n - cut); memcpy(in[2].b + cut, x, (size_t)xn); in[2].n += (size_t)xn; cut = in[2].n; f.len = cut; count("fault.session_exit");
    } else { f.eof_at = cut; count("fault.input_cut"); }
  }
  f.chunk = v == 0 ? 0 : (size_t)(v == 1 ? p->cfg[C_CHUNK1] : p->cfg[C_CHUNK2]); ffile_register("/sim/session", &f);
  if (sim_verbose()) fprintf(sim_verbose() > 1 ? stderr : stdout, "---- session %d (%s%s) ----\n%.*s\n----\n", v, file[v] ? "file" : "lines", easy[v] ? ", -y" : "", (int)(v == 2 ? cut : in[v].n), in[v].b);
  ev_begin(0, p->n ? &p->ev[0] : NULL);
  ocap = 8 << 20; out = raw_malloc(ocap); eoff = raw_malloc(ocap * sizeof *eoff); on = 0;
  cookie_io_functions_t io = { NULL, t_write, NULL, NULL }; FILE *so = stdout, *si = stdin; FILE *fo = fopencookie(NULL, "w", io); setvbuf(fo, NULL, v == 2 ? _IONBF : _IOLBF, 0);
  fflush(so); stdout = fo; if (!file[v]) stdin = fopen("/sim/session", "r");
  char *argv[4] = { "pbc" }; int argc = 1; if (easy[v]) argv[argc++] = "-y"; if (file[v]) argv[argc++] = "/sim/session"; argv[argc] = NULL; optind = 1;
  exit_expected = 1; exit_hook = on_exit_; int rc = -1, died = 0;
  if (!setjmp(jb)) rc = pbc_main(argc, argv); else died = 1;
  exit_expected = 0; fflush(fo); stdout = so; stdin = si;
  if (sim_verbose()) fprintf(sim_verbose() > 1 ? stderr : so, "---- output %d ----\n%.*s\n----\n", v, (int)on, out);
  char eb[200]; 
  if (bye >= 0 && !died) sim_fail("exit-ignored", "the session goes on after exit( %d )", bye);
  if (bye >= 0 && died) { if (excode != bye) sim_fail("status", "exit( %d ) ended the session with status %d", bye, excode); died = 0; rc = 0; }
  if (died) { errcap_reset(); eb[0] = 0; sim_fail("session-ended", "the calculator ended the session with status %d", excode); }
  if (rc) sim_fail("status", "the session ended with status %d", rc);
  // lines of output, prompts left out
  size_t pos = 0, elast = 0; int trunc = v == 2 && p->cfg[C_CUT];
  for (int i = 0; i < nS; i++) {
    if (!in[v].shown[i]) continue;
    if (trunc && i >= K) break;
    ev_begin(S[i].ev, &p->ev[S[i].ev]);
    const char *mk = marker(i); char *seg = pool + pn; size_t sn = 0; int found = 0; size_t enow = elast;
    while (pos < on) {
      size_t e = pos; while (e < on && out[e] != '\n') e++;
      size_t b = pos; if (easy[v]) while (b + 1 < e && out[b] == '>' && out[b + 1] == ' ') b += 2;
      size_t k = e - b; if (e < on) { enow = eoff[e]; }
      pos = e + 1;
      if (k == strlen(mk) && !memcmp(out + b, mk, k)) { found = 1; break; }
      memcpy(seg + sn, out + b, k); sn += k; seg[sn++] = '\n';
    }
    seg[sn] = 0; pn += sn + 1;
    if (!found) sim_fail(S[i].kind == S_GOOD || S[i].kind == S_DEF ? "statement-lost" : "later-statement-lost", "nothing is printed for the number after `%.120s` (%s input%s)", S[i].t, file[v] ? "file" : "line", easy[v] ? ", newlines end statements" : "");
    if (S[i].kind == S_GOOD || S[i].kind == S_DEF) {
      if (S[i].exp && strcmp(S[i].exp, seg)) { for (char *c = seg; *c; c++) if (*c == '\n') *c = '|'; char *w = cat("%s", S[i].exp); for (char *c = w; *c; c++) if (*c == '\n') *c = '|'; sim_fail("wrong-output", "`%.140s` printed `%.80s`, expected `%.80s`", S[i].t, seg, w); }
      if (i < K) tr_bytes((u32)i, seg, sn);
      trace_bytes(seg, sn);
    } else {
      if (!sn && enow == elast) sim_fail("silent", "`%.140s` reported nothing", S[i].t);
      count("fault.bad_statement"); trace_bytes(seg, sn);
    }
    state(mix((u64)S[i].op * 131 + (u64)file[v] * 2 + (u64)easy[v], i ? (u64)S[i - 1].op : 99));
    elast = enow;
  }
  if (!trunc || bye >= 0) for (; pos < on; pos++) if (out[pos] != '\n' && !(easy[v] && (out[pos] == '>' || out[pos] == ' '))) sim_fail("extra-output", "text after the last statement: `%.60s`", out + pos);
  if (f.chunk) count("probe.chunked_session"); if (!file[v]) count("probe.line_session"); sim_time((u64)nS);
  arena_check_all("at the end of the session");
  ev_begin(p->n, NULL);
}
scen_t scen_p14 = { "P14", "calculator sessions", 3, gen, run, ops, O_N,
  "the calculator (pbc.c, parser.y, parser.lex, pbc_getline.c) and the whole library under it",
  "standard input and the script file (chunked, cut anywhere), standard output and error, exit, allocator, random source",
  "distinct pairs of consecutive statement kinds by input mode", 0, 0 };
