#include "world.h"
#include "zoo.h"
#include <unistd.h>
// P11: printed output is complete, counted right and never overruns.
enum { C_FAM, C_BE, C_Z0, C_ZS0, C_FILL, C_I };
enum { O_WORLD, O_ZOO, O_SNPRINT, O_SNPRINTF, O_STREAM, O_FPRINTF, O_MSG, O_PARAM, O_N };
static const char *const ops[] = { "world_op", "zoo_op", "snprint", "snprintf", "out_str", "fprintf", "message", "param_out" };
enum { ZSL = 4, TX = 20000 };
static world_t w; static zoo_t zo; static element_t zs[ZSL]; static int world_on; static const fam_t *FM;
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_I] = rng_p(r, 1, 12); // the ternary family
  p->cfg[C_FAM] = fam_pick(r, 0, 1, 10);
  if (p->cfg[C_I]) for (int i = 0; i < nfams; i++) if (fams[i].type == 'i' && fams[i].toy) p->cfg[C_FAM] = i;
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_Z0] = zoo_kind_pick(r); p->cfg[C_ZS0] = (int64_t)(rng_next(r) >> 1); p->cfg[C_FILL] = rng_n(r, 4);
  static const int ok[] = { W_ZR, W_ZR, W_GOP, W_GOP, W_POW, W_SETBASE, W_HASH, W_PAIR };
  int n = 20 + (int)rng_n(r, 40);
  for (int i = 0; i < n; i++) {
    u32 k = rng_n(r, 20), x = (u32)rng_next(r);
    if (k < 3) plan_add(p, O_WORLD, ok[rng_n(r, 8)], x, rng_next(r), rng_next(r), rng_next(r));
    else if (k < 6) plan_add(p, O_ZOO, 0, x, rng_next(r), 0, 0);
    else plan_add(p, k < 9 ? O_SNPRINT : k < 13 ? O_SNPRINTF : k < 15 ? O_STREAM : k < 18 ? O_FPRINTF : k < 19 ? O_MSG : O_PARAM, (int)rng_n(r, 5), x, rng_next(r), rng_next(r), rng_next(r));
  }
}
static element_ptr pick(int src, u32 x) { return src < 4 ? w.n[0].s[src][x % NS] : zs[x % ZSL]; }
static const char *nm(int src) { static const char *g[] = { "Zr", "G1", "G2", "GT" }; return src < 4 ? g[src] : zoo_names[zo.kind]; }
static int ternary(int src) { return src < 4 ? FM->type == 'i' && src != GZ : zo.kind >= ZK_GF3; }
static int bounded(int src) { return !ternary(src) && !(src == 4 && zo.kind == ZK_MULTIZ); } // has a bounded-buffer text form
// the text through the plainest path: a healthy stream
static char *full(element_ptr e, int base, size_t *ret) {
  static char b[4][TX]; static int k; char *t = b[k++ & 3];
  fsink_t s; memset(&s, 0, sizeof s); s.buf = t; s.cap = s.limit = TX - 1;
  FILE *fp = fsink_open(&s, _IOFBF); *ret = element_out_str(fp, base, e); fclose(fp); t[s.len] = 0; return t;
}
// value text from coordinates, white space left out
static void ref(element_ptr e, char *o, int point, int poly) {
  size_t l = strlen(o);
  if (point && element_is0(e)) { strcpy(o + l, "O"); return; }
  int m = element_item_count(e);
  if (m > 0 || poly) { strcpy(o + l, "["); for (int i = 0; i < m; i++) { if (i) strcat(o, ","); ref(element_item(e, i), o, 0, 0); } strcat(o, "]"); return; }
  mpz_t z; mpz_init(z); element_to_mpz(z, e); mpz_get_str(o + l, 10, z); mpz_clear(z);
}
static void squeeze(char *d, const char *s) { while (*s) { if (*s != ' ') *d++ = *s; s++; } *d = 0; }
static void check_text(element_ptr e, int src) {
  size_t r; char *t = full(e, 0, &r);
  if (r != strlen(t)) sim_fail("count", "printing %s to a stream reported %zu characters, wrote %zu", nm(src), r, strlen(t));
  if (!bounded(src)) return;
  static char a[TX], b[TX]; a[0] = 0;
  ref(e, a, src == G1_ || src == G2_, src == 4 && zo.kind == ZK_POLY); squeeze(b, t);
  if (strcmp(a, b)) sim_fail("text", "%s prints as '%.80s', its value is '%.80s'", nm(src), b, a);
}
static size_t pick_size(rng_t *r, size_t len) {
  switch (rng_n(r, 9)) { case 0: return 0; case 1: return 1; case 2: return 2; case 3: return len; case 4: return len + 1; case 5: return len ? len - 1 : 0; case 6: return len + 2; case 7: return len + rng_n(r, 40); default: return rng_n(r, (u32)len + 1); }
}
static void check_bounded(const char *what, const char *want, size_t len, int got, const unsigned char *b, size_t n) {
  if (got < 0 || (size_t)got != len) sim_fail("count", "%s into %zu bytes reported %d characters, the full text has %zu", what, n, got, len);
  if (!n) return;
  size_t k = len < n ? len : n - 1;
  if (memcmp(b, want, k)) sim_fail("prefix", "%s into %zu bytes wrote other text than printing to a stream ('%.60s' vs '%.60s')", what, n, (const char *)b, want);
  if (b[k]) sim_fail("unterminated", "%s into %zu bytes is not terminated", what, n);
  for (int i = 1; i <= 64; i++) if (b[-i] != 0x7e) sim_fail("underrun", "%s wrote before its buffer", what);
  for (size_t i = k + 1; i < n; i++) if (b[i] != 0x7e && len + 1 <= i) sim_fail("overrun", "%s wrote after its terminator", what);
}
// a random valid format; arguments all fit one machine word, as the interface expects
typedef struct { char fmt[512]; void *arg[8]; int na; char want[TX]; int elems; } fm_t;
static int build(fm_t *f, rng_t *r, int allow_unbounded) {
  static mpz_t mz; static int init; if (!init) { mpz_init(mz); init = 1; }
  memset(f, 0, sizeof *f);
  int n = (int)rng_n(r, 8);
  size_t fl = 0, wl = 0;
  mpz_set_ui(mz, 1); mpz_mul_2exp(mz, mz, rng_n(r, 200)); mpz_sub_ui(mz, mz, rng_n(r, 9)); if (rng_p(r, 1, 3)) mpz_neg(mz, mz);
  for (int i = 0; i < n; i++) {
    char *q = f->fmt + fl, *o = f->want + wl; size_t left = TX - wl;
    switch (rng_n(r, 12)) {
      case 0: case 1: { static const char *lit[] = { "x", " = ", "hello, world", "[", "\n", "100", "a b c d", ", " }; const char *s = lit[rng_n(r, 8)]; strcpy(q, s); strcpy(o, s); break; }
      case 2: strcpy(q, "%%"); strcpy(o, "%"); break;
      case 3: case 4: case 5: if (f->na < 6 && f->elems < 3) {
        int src = (int)rng_n(r, 5); if (!world_on && src < 4) src = 4; if (!allow_unbounded && !bounded(src)) break;
        element_ptr e = pick(src, (u32)rng_next(r)); size_t rr; char *t = full(e, 0, &rr); if (strlen(t) + wl > TX / 2) break;
        strcpy(q, "%B"); strcpy(o, t); f->arg[f->na++] = e; f->elems++; } break;
      case 6: if (f->na < 6) { static const char *c[] = { "%d", "%5d", "%-6d|", "%04d", "%+d", "%u", "%x", "%X", "%o", "%i" }; const char *s = c[rng_n(r, 10)]; int v = (int)rng_n(r, 2000) - (strchr(s, 'u') || strchr(s, 'x') || strchr(s, 'X') || strchr(s, 'o') ? 0 : 1000); strcpy(q, s); snprintf(o, left, s, v); f->arg[f->na++] = (void *)(long)v; } break;
      case 7: if (f->na < 6) { static const char *c[] = { "%s", "%10s", "%-10s|", "%.3s" }; static char *sv[] = { "", "abc", "some longer text", "%d" }; const char *s = c[rng_n(r, 4)]; char *v = sv[rng_n(r, 4)]; strcpy(q, s); snprintf(o, left, s, v); f->arg[f->na++] = v; } break;
      case 8: if (f->na < 6) { static const char *c[] = { "%Zd", "%ZX", "%20Zd" }; const char *s = c[rng_n(r, 3)]; strcpy(q, s); gmp_snprintf(o, left, s, mz); f->arg[f->na++] = mz; } break;
      case 9: if (f->na < 6) { static const char *c[] = { "%lu", "%ld", "%lx" }; const char *s = c[rng_n(r, 3)]; long v = (long)rng_next(r); strcpy(q, s); snprintf(o, left, s, v); f->arg[f->na++] = (void *)v; } break;
      case 10: if (f->na < 6) { int v = 'a' + (int)rng_n(r, 26); strcpy(q, "%c"); snprintf(o, left, "%c", v); f->arg[f->na++] = (void *)(long)v; } break;
      default: if (rng_p(r, 1, 6)) { char s[200]; int k = (int)rng_n(r, 190); memset(s, 'z', (size_t)k); s[k] = 0; if (fl + 200 < sizeof f->fmt) { strcpy(q, s); strcpy(o, s); } } break;
    }
    fl = strlen(f->fmt); wl = strlen(f->want);
    if (fl + 220 > sizeof f->fmt || wl > TX - 2000) break;
  }
  return 1;
}
#define ARGS f.arg[0], f.arg[1], f.arg[2], f.arg[3], f.arg[4], f.arg[5]
static void sink_fault(fsink_t *s, rng_t *r, size_t len) {
  switch (rng_n(r, 5)) { case 0: s->limit = rng_n(r, (u32)len + 2); break; case 1: s->chunk = 1 + rng_n(r, 7); break; case 2: s->limit = rng_n(r, (u32)len + 2); s->chunk = 1 + rng_n(r, 9); break; case 3: s->err = 5; break; default: break; }
}
static void run(plan_t *p, int v) {
  (void)v;
  amode_t m = { (int)p->cfg[C_FILL], 1, 1, p->seed }; arena_install(&m);
  int b[4] = { (int)p->cfg[C_BE] }, me[4] = { 0 };
  FM = &fams[p->cfg[C_FAM] % nfams];
  world_init(&w, FM, p->seed, 1, b, me, 0); w.quiet = 1; world_on = 1;
  rsrc_install(&w.n[0].rs);
  zoo_open(&zo, (int)p->cfg[C_Z0] % ZK_N, (u64)p->cfg[C_ZS0], b[0], 192);
  for (int i = 0; i < ZSL; i++) element_init(zs[i], zo.F);
  static char sb[TX];
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e); rsrc_install(&w.n[0].rs);
    rng_t r; rng_init(&r, e->a); int src = e->who; if (src > 4) src = 4;
    u64 st = 0;
    switch (e->op) {
      case O_WORLD: { ev_t f = *e; f.op = e->who; f.who = 0; world_event(&w, &f); break; }
      case O_ZOO: { int d = zoo_op(&zo, zs, ZSL, e->a, e->x); trace(canon(zs[d])); break; }
      case O_SNPRINT: {
        element_ptr el = pick(src, e->x); check_text(el, src);
        if (!bounded(src)) break;
        size_t rr; char *t = full(el, 0, &rr); size_t len = strlen(t), n = pick_size(&r, len);
        unsigned char *q = edge_buf(0, n ? n : 1, 0x7e);
        int got = element_snprint((char *)q, n, el);
        if (!n && q[0] != 0x7e) sim_fail("overrun", "printing %s into an empty buffer wrote a byte", nm(src));
        check_bounded("element_snprint", t, len, got, q, n);
        trace_bytes(t, len); st = 1 + (n == 0) + 2 * (n == 1) + 4 * (n <= len) + 8 * (n == len + 1);
        break; }
      case O_SNPRINTF: {
        fm_t f; build(&f, &r, 0); size_t len = strlen(f.want), n = pick_size(&r, len);
        vlog("    fmt '%s' size %zu\n", f.fmt, n);
        unsigned char *q = edge_buf(0, n ? n : 1, 0x7e);
        int got = element_snprintf((char *)q, n, f.fmt, ARGS);
        check_bounded("element_snprintf", f.want, len, got, q, n);
        trace_bytes(f.want, len); st = 1 + (n == 0) + 2 * (n == 1) + 4 * (n <= len) + 8 * (n == len + 1) + 16 * (u64)f.elems;
        break; }
      case O_STREAM: {
        element_ptr el = pick(src, e->x); static const int bs[] = { 0, 10, 16, 2, 36 }; int base = ternary(src) ? (e->b & 1 ? 10 : 16) : bs[e->b % 5];
        size_t rr; char *t = full(el, base, &rr); size_t len = strlen(t);
        if (rr != len) sim_fail("count", "printing %s in base %d reported %zu characters, wrote %zu", nm(src), base, rr, len);
        fsink_t s; memset(&s, 0, sizeof s); s.buf = sb; s.cap = s.limit = TX - 1; sink_fault(&s, &r, len);
        FILE *fp = fsink_open(&s, (int)(e->c % 3) == 0 ? _IONBF : (int)(e->c % 3) == 1 ? _IOLBF : _IOFBF);
        size_t got = element_out_str(fp, base, el); int er = ferror(fp); int fl = fflush(fp);
        if (er && got) sim_fail("false-success", "printing %s to a failing stream reported %zu characters", nm(src), got);
        if (!er && got != len) sim_fail("count", "printing %s to a stream reported %zu of %zu characters without an error", nm(src), got, len);
        if (!er && !fl && (s.len != len || memcmp(s.buf, t, len))) sim_fail("lost-output", "%s text did not reach the stream intact", nm(src));
        fclose(fp); st = 100 + (u64)er + 2 * (u64)!!fl + 4 * (e->c % 3);
        if (er) count("probe.failed_print_reported"); break; }
      case O_FPRINTF: {
        fm_t f; build(&f, &r, 1); size_t len = strlen(f.want);
        vlog("    fmt '%s'\n", f.fmt);
        fsink_t s; memset(&s, 0, sizeof s); s.buf = sb; s.cap = s.limit = TX - 1; if (e->b & 3) sink_fault(&s, &r, len);
        FILE *fp = fsink_open(&s, (int)(e->c % 3) == 0 ? _IONBF : (int)(e->c % 3) == 1 ? _IOLBF : _IOFBF);
        int got; int viaout = (int)(e->b >> 8) & 1;
        if (viaout) { FILE *sv = stdout; stdout = fp; got = element_printf(f.fmt, ARGS); stdout = sv; } else got = element_fprintf(fp, f.fmt, ARGS);
        int er = ferror(fp), fl = fflush(fp);
        if (er && got >= 0 && !strstr(f.fmt, "Z")) /* GMP itself reports short counts */ sim_fail("false-success", "formatted print to a failing stream reported %d characters", got);
        if (!er && (got < 0 || (size_t)got != len)) sim_fail("count", "formatted print reported %d of %zu characters", got, len);
        if (!er && !fl && (s.len != len || memcmp(s.buf, f.want, len))) sim_fail("lost-output", "formatted text did not reach the stream intact: '%.*s' for '%.80s'", (int)(s.len < 80 ? s.len : 80), s.buf, f.want);
        fclose(fp); st = 200 + (u64)er + 2 * (u64)!!fl + 4 * (e->c % 3) + 16 * (u64)f.elems + 64 * (u64)viaout;
        if (er) count("probe.failed_print_reported"); break; }
      case O_MSG: {
        fm_t f; build(&f, &r, 0); if (strlen(f.fmt) == 0) break;
        errcap_reset(); static char got[TX * 2];
        int k = (int)(e->b % 3); static const char *pre[] = { "", "warning: ", "error: " };
        if (k == 0) pbc_info(f.fmt, ARGS); else if (k == 1) pbc_warn(f.fmt, ARGS); else pbc_error(f.fmt, ARGS);
        fflush(stderr);
        size_t gl = errcap_read(got, sizeof got - 1); got[gl] = 0; errcap_reset();
        static char want[TX]; snprintf(want, sizeof want, "%s%.1023s\n", pre[k], f.want);
        if (sim_verbose() < 2 && strcmp(got, want)) sim_fail("message", "message '%.200s' instead of '%.200s'", got, want);
        st = 400 + (u64)k + 4 * (strlen(f.want) > 1023); break; }
      case O_PARAM: { // parameters to a stream: whole text or a visible stream error
        pbc_param_t pp; if (pbc_param_init_set_str(pp, FM->text)) break;
        static char t1[TX]; fsink_t s; memset(&s, 0, sizeof s); s.buf = t1; s.cap = s.limit = TX - 1;
        FILE *fp = fsink_open(&s, _IOFBF); pbc_param_out_str(fp, pp); fclose(fp); size_t l1 = s.len;
        memset(&s, 0, sizeof s); s.buf = sb; s.cap = s.limit = TX - 1; sink_fault(&s, &r, l1);
        fp = fsink_open(&s, (int)(e->c % 3) == 0 ? _IONBF : (int)(e->c % 3) == 1 ? _IOLBF : _IOFBF);
        pbc_param_out_str(fp, pp); int er = ferror(fp), fl = fflush(fp);
        if (!er && !fl && (s.len != l1 || memcmp(sb, t1, l1))) sim_fail("lost-output", "parameters did not reach the stream intact");
        fclose(fp); pbc_param_clear(pp); st = 500 + (u64)er; break; }
    }
    state(mix(st, (u64)e->op * 1000 + (e->op == O_SNPRINT || e->op == O_STREAM ? (u64)src * 32 + (src == 4 ? (u64)zo.kind : 0) : 0) + 100000 * (u64)b[0]));
  }
}
scen_t scen_p11 = { "P11", "printing", 1, gen, run, ops, O_N,
  "misc/extend_printf.c, misc/utils.c and the text output of every field and group; C stdio and GMP formatting",
  "output streams (short writes, full disk, write errors), buffers ending at an unmapped page",
  "distinct (call, element kind, buffer-size relation or stream outcome, backend) tuples", 0, 0 };
