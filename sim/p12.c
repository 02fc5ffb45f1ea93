#include "world.h"
#include "zoo.h"
// P12: damaged parameter text is rejected, intact text reloads alike.
enum { C_FAM, C_FAM2, C_BE, C_FILL, C_MOVE };
enum { O_MISSING, O_MALFORMED, O_TYPE, O_CUT, O_NOISE, O_GOOD, O_ROUND, O_OTHER, O_N };
static const char *const ops[] = { "lost_fields", "malformed_number", "bad_type", "cut", "noise", "variant_text", "write_and_reload", "other_pairing" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FAM] = fam_pick(r, 1, 1, 8); p->cfg[C_FAM2] = fam_pick(r, 0, 0, 1);
  p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_FILL] = rng_n(r, 4); p->cfg[C_MOVE] = rng_n(r, 2);
  int toy = fams[p->cfg[C_FAM]].toy, n = 6 + (int)rng_n(r, 24);
  for (int i = 0; i < n; i++) {
    u32 k = rng_n(r, 20); int op = k < 4 ? O_MISSING : k < 8 ? O_MALFORMED : k < 9 ? O_TYPE : k < 12 ? O_CUT : k < 13 ? O_NOISE : k < 16 ? O_GOOD : k < 18 ? O_ROUND : O_OTHER;
    if (!toy && (op == O_GOOD || op == O_ROUND) && rng_p(r, 2, 3)) op = O_MALFORMED;
    plan_add(p, op, (int)rng_n(r, 2), (u32)rng_next(r), rng_next(r), rng_next(r), rng_next(r));
  }
}
typedef struct { char k[24], v[2600]; } kv_t;
static kv_t kv[24]; static int nkv; static const fam_t *FM;
static void split(const char *t) {
  nkv = 0;
  while (*t) { while (*t == ' ' || *t == '\n') t++; if (!*t) break; int i = 0; while (*t > ' ') { if (i < 23) kv[nkv].k[i++] = *t; t++; } kv[nkv].k[i] = 0; while (*t == ' ' || *t == '\n') t++; i = 0; while (*t > ' ') { if (i < 2599) kv[nkv].v[i++] = *t; t++; } kv[nkv].v[i] = 0; if (!(FM->type == 'g' && !strcmp(kv[nkv].k, "k")) && !(kv[nkv].k[0] == 'n' && kv[nkv].k[1] >= '0' && kv[nkv].k[1] <= '9' && FM->type != 'i')) nkv++; } // n0, n1, ...: factors noted by the generator, not read
}
static char T[70000]; static size_t tl;
static void putc_(int c) { if (tl < sizeof T - 2) T[tl++] = (char)c; T[tl] = 0; }
static void puts_(const char *s) { while (*s) putc_(*s++); }
static void line(const char *k, const char *v) { puts_(k); putc_(' '); puts_(v); putc_('\n'); }
static u64 pairing_sig(pairing_ptr pr) { // groups and pairing as seen through fixed, seedless inputs
  u64 h = 1; mpz_t z; mpz_init(z);
  element_t a, b, c, t; unsigned char buf[MSGB];
  h = mix(h, mpz_get_ui(pr->r)); h = mix(h, mpz_sizeinbase(pr->r, 2));
  element_init_Zr(a, pr); element_from_hash(a, "abc", 3); h = mix(h, canon(a)); element_clear(a);
  if (FM->type != 'i') {
    element_init_G1(a, pr); element_init_G2(b, pr); element_init_GT(c, pr); element_init_GT(t, pr);
    element_from_hash(a, "party one", 9); element_from_hash(b, "party two", 9);
    element_to_bytes(buf, a); h = hash_bytes(buf, (size_t)element_length_in_bytes(a), h);
    element_pairing(c, a, b);
    int l = element_to_bytes(buf, c); h = hash_bytes(buf, (size_t)l, h);
    // bilinear, non-degenerate
    element_mul_si(a, a, 3); element_pairing(t, a, b); mpz_set_ui(z, 3); element_pow_mpz(c, c, z);
    if (element_cmp(t, c)) sim_fail("pairing", "loaded parameters give a pairing that is not bilinear (%s)", FM->name);
    element_clear(a); element_clear(b); element_clear(c); element_clear(t);
  } else {
    element_init_GT(c, pr); element_init_G1(a, pr); element_init_G1(b, pr); element_init_GT(t, pr); element_random(a); element_random(b);
    element_pairing(c, a, b); element_mul(a, a, a); element_pairing(t, a, b); element_mul(c, c, c); if (element_cmp(t, c)) sim_fail("pairing", "loaded parameters give a pairing that is not bilinear (%s)", FM->name);
    element_clear(a); element_clear(b); element_clear(c); element_clear(t);
  }
  mpz_clear(z);
  return h;
}
static rsrc_t rs;
static u64 live0, live1;
static void leak(const char *what) {
  if (arena_live(0) != live0 || arena_live(1) != live1) { char b[200]; arena_live_since(0, b, 0); sim_fail("leak", "%s: %lld library and %lld bignum blocks remain after a failed load (%s)", what, (long long)(arena_live(0) - live0), (long long)(arena_live(1) - live1), FM->name); }
}
// load T[0..len) ; want: 1 must fail, 0 must load, -1 either (a value may have been shortened)
static void load(const char *what, size_t len, int how, int want, u64 sig) {
  char *q; size_t lim;
  if (how == 0) { q = (char *)edge_buf(0, len + 1, 0x20); memcpy(q, T, len); q[len] = 0; lim = 0; }   // C string
  else if (how == 1 && len) { q = (char *)edge_buf(0, len, 0x20); memcpy(q, T, len); lim = len; }       // exactly len bytes, then unmapped
  else { q = (char *)edge_buf(0, tl + 1, 0x20); memcpy(q, T, tl); q[tl] = 0; lim = len; if (!len) lim = 0; } // longer text follows the limit
  edge_lock(0, 1);
  live0 = arena_live(0); live1 = arena_live(1);
  pbc_param_t par; errcap_reset();
  int rc = lim ? pbc_param_init_set_buf(par, q, lim) : pbc_param_init_set_str(par, q);
  if (rc != 0 && rc != 1) sim_fail("status", "%s: loading returned %d", what, rc);
  if (want == 1 && !rc) sim_fail("accepted", "%s: damaged parameters were accepted (%s)", what, FM->name);
  if (want == 0 && rc) sim_fail("rejected", "%s: complete parameters were rejected (%s)", what, FM->name);
  if (rc) { leak(what); count("probe.rejected"); 
    pairing_t pr; rc = lim ? pairing_init_set_buf(pr, q, lim) : pairing_init_set_str(pr, q);
    if (rc != 1) sim_fail("accepted", "%s: pairing_init accepted what the parameter loader refused (%d)", what, rc);
    leak(what); return; }
  if (want == 0) {
    pairing_t pr; pairing_init_pbc_param(pr, par); u64 h = pairing_sig(pr); pairing_clear(pr);
    if (h != sig) sim_fail("different", "%s: the same parameters give other groups or another pairing (%s)", what, FM->name);
    rc = lim ? pairing_init_set_buf(pr, q, lim) : pairing_init_set_str(pr, q);
    if (rc) sim_fail("rejected", "%s: complete parameters were rejected by pairing_init (%s)", what, FM->name);
    h = pairing_sig(pr); pairing_clear(pr);
    if (h != sig) sim_fail("different", "%s: pairing_init gives other groups or another pairing (%s)", what, FM->name);
    count("probe.loaded");
  }
  pbc_param_clear(par); leak(what);
}
static void plain(void) { tl = 0; for (int i = 0; i < nkv; i++) line(kv[i].k, kv[i].v); }
static void run(plan_t *p, int v) {
  (void)v;
  amode_t m = { (int)p->cfg[C_FILL], (int)p->cfg[C_MOVE], 1, p->seed }; arena_install(&m);
  rsrc_init(&rs, p->seed); rsrc_install(&rs);
  FM = &fams[p->cfg[C_FAM] % nfams];
  pbc_tweak_use_fp(backends[p->cfg[C_BE] & 3]);
  split(FM->text);
  const fam_t *F2 = &fams[p->cfg[C_FAM2] % nfams]; pairing_t other; if (pairing_init_set_str(other, F2->text)) sim_fail("setup", "parameters rejected");
  const fam_t *sv = FM; FM = F2; u64 osig = pairing_sig(other); FM = sv;
  pairing_t pr0; if (pairing_init_set_str(pr0, FM->text)) sim_fail("rejected", "shipped parameters rejected"); u64 sig = pairing_sig(pr0); pairing_clear(pr0);
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e); rng_t r; rng_init(&r, e->a);
    int how = (int)(e->b % 3); u64 st = 0;
    rsrc_init(&rs, e->c); rsrc_install(&rs);
    switch (e->op) {
      case O_MISSING: { // one or more lines, or just a key or just a value at the end, lost
        int drop = (int)rng_n(&r, (u32)nkv), drop2 = rng_p(&r, 1, 3) ? (int)rng_n(&r, (u32)nkv) : -1; tl = 0;
        int mode = (int)rng_n(&r, 3);
        for (int k = 0; k < nkv; k++) if (k != drop && k != drop2) line(kv[k].k, kv[k].v);
        if (mode == 1) { puts_(kv[drop].k); putc_('\n'); } // key without value at the end
        if (mode == 2) { puts_("# "); line(kv[drop].k, kv[drop].v); } // commented out
        vlog("    without %s\n", kv[drop].k);
        count("fault.field_lost"); load("lost field", tl, how, 1, sig); st = (u64)drop * 4 + (u64)mode; break; }
      case O_MALFORMED: {
        int bad = 1 + (int)rng_n(&r, (u32)nkv - 1); for (int t = 0; t < nkv && !strcmp(kv[bad].k, "type"); t++) bad = (bad + 1) % nkv;
        static const char *g[] = { "x", "12x4", "-", "0xx", "0xfg", "1.5", "--3", "ten", "0b12", "9a", "+", "12;", "\x80\xff", "089" };
        tl = 0; for (int k = 0; k < nkv; k++) {
          if (k != bad) { line(kv[k].k, kv[k].v); continue; }
          char b[2700]; if (rng_p(&r, 1, 2)) snprintf(b, sizeof b, "%s", g[rng_n(&r, 14)]); else { snprintf(b, sizeof b, "%s", kv[k].v); size_t q = rng_n(&r, (u32)strlen(b)); b[q] = "gz!,.:_@"[rng_n(&r, 8)]; }
          line(kv[k].k, b); vlog("    %s %s\n", kv[k].k, b);
        }
        count("fault.number_garbled"); load("malformed number", tl, how, 1, sig); st = 100 + (u64)bad; break; }
      case O_TYPE: {
        static const char *g[] = { "z", "A", "a2", "aa", "1", "", "type", "d1", "ee", "#a" }; const char *s = g[rng_n(&r, 10)];
        tl = 0; for (int k = 0; k < nkv; k++) if (strcmp(kv[k].k, "type")) line(kv[k].k, kv[k].v); else if (rng_p(&r, 2, 3)) { if (*s && *s != '#') line("type", s); else { puts_("type "); puts_(s); putc_('\n'); } }
        // an empty or commented type swallows the next word as its value: still no known family
        count("fault.type_bad"); load("bad family name", tl, how, 1, sig); st = 200; break; }
      case O_CUT: {
        plain(); size_t cut = rng_n(&r, (u32)tl); if (rng_p(&r, 1, 3)) cut = tl - 1 - rng_n(&r, 12); if ((int64_t)cut < 0) cut = 0;
        if (rng_p(&r, 1, 4)) { // exactly behind a word or a line
          while (cut && T[cut - 1] != '\n' && T[cut - 1] != ' ') cut--; }
        // complete values before the cut; a value touched by the cut is shorter but well formed
        int whole = 0; size_t pos = 0; int touched = 0;
        for (int k = 0; k < nkv; k++) { size_t ks = pos + strlen(kv[k].k) + 1, ve = ks + strlen(kv[k].v); if (cut >= ve) whole++; else if (cut > ks) touched = 1; pos = ve + 1; }
        count("fault.text_cut"); int want = whole == nkv ? 0 : whole + touched == nkv ? -1 : 1;
        if (touched) { // the shortened value may not even be a number ("-", "0x") or may be an unknown family
          if (want == 0) want = -1; }
        vlog("    cut at %zu of %zu, want %d\n", cut, tl, want);
        if (!cut) { T[0] = 0; tl = 0; how = 0; want = 1; }
        load("cut text", cut, how, want, sig); st = 300 + (u64)whole * 4 + (u64)touched + 2 * (u64)(how == 1); break; }
      case O_NOISE: {
        tl = 0; int n = (int)rng_n(&r, 400); for (int k = 0; k < n; k++) putc_(1 + (int)rng_n(&r, 255)); if (rng_p(&r, 1, 2)) { puts_("\ntype "); puts_(kv[0].v); putc_('\n'); }
        count("fault.text_noise"); load("noise", tl, how, 1, sig); st = 400; break; }
      case O_GOOD: { // same fields: shuffled, comments, spaces, repeats, unknown fields, hexadecimal numbers
        tl = 0; int ord[24]; for (int k = 0; k < nkv; k++) ord[k] = k;
        if (rng_p(&r, 3, 4)) for (int k = nkv - 1; k > 0; k--) { int j = (int)rng_n(&r, (u32)k + 1), t = ord[k]; ord[k] = ord[j]; ord[j] = t; }
        if (rng_p(&r, 1, 3)) puts_("# generated\n\n");
        for (int k = 0; k < nkv; k++) {
          kv_t *q = &kv[ord[k]];
          for (int s = (int)rng_n(&r, 3); s; s--) putc_(" \t\n\r"[rng_n(&r, 4)]);
          puts_(q->k); for (int s = 1 + (int)rng_n(&r, 3); s; s--) putc_(" \t\n\r"[rng_n(&r, 4)]);
          if (rng_p(&r, 1, 6)) puts_("# note\n");
          if (rng_p(&r, 1, 8) && strcmp(q->k, "type") && q->v[0] != '-') { mpz_t z; mpz_init(z); mpz_set_str(z, q->v, 0); puts_("0x"); static char hx[3000]; mpz_get_str(hx, 16, z); puts_(hx); mpz_clear(z); } else puts_(q->v);
          putc_(k == nkv - 1 ? '\n' : " \n\t"[rng_n(&r, 3)]);
          if (rng_p(&r, 1, 5)) { count("probe.repeated_field"); line(q->k, q->v); }
          if (rng_p(&r, 1, 6)) line(rng_p(&r, 1, 2) ? "unknown" : "zz9", "12 ");
          if (rng_p(&r, 1, 8)) puts_("# comment line\n");
        }
        size_t full = tl; if (rng_p(&r, 1, 3)) { tl--; full--; T[tl] = 0; } // no final newline
        if (how == 2) { T[full] = '\n'; tl = full + 1; puts_("type z q"); }
        count("probe.variant_text"); load("complete text", full, how, 0, sig); st = 500; break; }
      case O_ROUND: { // written out, process gone, reloaded; a torn file is refused
        pbc_param_t par; if (pbc_param_init_set_str(par, FM->text)) sim_fail("rejected", "shipped parameters rejected");
        fsink_t s; memset(&s, 0, sizeof s); s.buf = T; s.cap = s.limit = sizeof T - 1; FILE *fp = fsink_open(&s, _IOFBF); pbc_param_out_str(fp, par); fclose(fp); pbc_param_clear(par);
        tl = s.len; T[tl] = 0;
        load("rewritten text", tl, how, 0, sig); st = 600; break; }
      case O_OTHER: { FM = F2; u64 h = pairing_sig(other); FM = sv; if (h != osig) sim_fail("interference", "loading parameters changed another pairing"); st = 700; break; }
    }
    state(mix(st * 3 + (u64)how, (u64)p->cfg[C_FAM]));
  }
  ev_begin(p->n, NULL);
  FM = F2; u64 h = pairing_sig(other); FM = sv; if (h != osig) sim_fail("interference", "loading parameters changed another pairing");
  pairing_clear(other);
}
scen_t scen_p12 = { "P12", "parameter text", 1, gen, run, ops, O_N,
  "ecc/param.c, misc/symtab.c, misc/darray.c, every family's parameter loader and pairing setup",
  "the file holding the text (lost lines, torn tail, noise), buffers ending at an unmapped page, allocator",
  "distinct (family, kind and place of damage, way of loading) tuples", 0, 0 };
