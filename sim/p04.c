#include "world.h"
// P04: random draws under entropy-file faults. Two variants differ only in memory contents and placement.
enum { C_FAM, C_BE, C_SRC, C_SEED, C_OPENFAIL, C_NOURANDOM };
enum { O_DRAW, O_DRAWB, O_ELEM, O_EOF, O_READERR, O_OPENFAIL, O_CHUNK, O_FAILAT, O_HEAL, O_SWITCH, O_DEPEND, O_N };
static const char *const ops[] = { "draw_below", "draw_bits", "draw_element", "early_eof", "read_error", "open_failure", "short_reads", "error_at_offset", "heal", "switch_file", "dependence" };
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_FAM] = fam_pick(r, 0, 0, 1); p->cfg[C_BE] = rng_n(r, 4); p->cfg[C_SEED] = (int64_t)(rng_next(r) >> 1);
  p->cfg[C_SRC] = rng_n(r, 3); p->cfg[C_OPENFAIL] = rng_p(r, 1, 3); // src 0: implicit system source
  int n = 10 + (int)rng_n(r, 50);
  for (int i = 0; i < n; i++) {
    u32 k = rng_n(r, 24);
    if (k < 9) plan_add(p, O_DRAW, 0, rng_n(r, 8), rng_next(r), 0, 0);
    else if (k < 11) plan_add(p, O_DRAWB, 0, rng_n(r, 300), 0, 0, 0);
    else if (k < 13) plan_add(p, O_ELEM, (int)rng_n(r, 4), 0, 0, 0, 0);
    else if (k < 14) plan_add(p, O_EOF, 0, rng_n(r, 90), 0, 0, 0);
    else if (k < 16) plan_add(p, O_READERR, 0, 1 + rng_n(r, 3), 0, 0, 0);
    else if (k < 17) plan_add(p, O_OPENFAIL, 0, 1 + rng_n(r, 3), 0, 0, 0);
    else if (k < 19) plan_add(p, O_CHUNK, 0, 1 + rng_n(r, 40), 0, 0, 0);
    else if (k < 20) plan_add(p, O_FAILAT, 0, rng_n(r, 60), 0, 0, 0);
    else if (k < 22) plan_add(p, O_HEAL, 0, 0, 0, 0, 0);
    else if (k < 23) plan_add(p, O_SWITCH, 0, rng_n(r, 2), 0, 0, 0);
    else plan_add(p, O_DEPEND, 0, rng_n(r, 200), rng_next(r), 0, 0);
  }
}
static ffile_t F[2]; static char *const path[2] = { "/dev/urandom", "entropy.bin" };
static void heal(ffile_t *f) { f->fail_at = f->eof_at = (size_t)-1; f->chunk = 0; f->open_fails = 0; f->fail_reads = 0; }
static int has(const char *what) { char b[4096]; size_t n = errcap_read(b, sizeof b - 1); b[n] = 0; return strstr(b, what) != NULL; }
static int faulty(ffile_t *f) { return f->fail_at != (size_t)-1 || f->eof_at != (size_t)-1 || f->open_fails || f->fail_reads; }
static u64 lp, lg; static long op0, cl0;
static void before(ffile_t *f) { errcap_reset(); lp = arena_live(0); lg = arena_live(1); op0 = f->opens; cl0 = f->closes; (void)op0; (void)cl0; f->pos = 0; }
static void after(int cur, const char *what, int keep) {
  ffile_t *f = &F[cur];
  if (F[0].opens != F[0].closes || F[1].opens != F[1].closes) sim_fail("file-leak", "%s left %ld entropy files open", what, F[0].opens + F[1].opens - F[0].closes - F[1].closes);
  if (!keep && (arena_live(0) != lp || arena_live(1) != lg)) sim_fail("memory-leak", "%s left %lld library and %lld bignum blocks", what, (long long)(arena_live(0) - lp), (long long)(arena_live(1) - lg));
  (void)f;
}
static int det; // the deterministic fallback is in use
static void draw(int cur, mpz_t limit, int bits, u64 seed) {
  ffile_t *f = &F[cur];
  mpz_t z, sent; mpz_init(z); mpz_init(sent);
  mpz_set_si(sent, -1); mpz_mul_2exp(sent, sent, 300); mpz_sub_ui(sent, sent, (unsigned long)(seed & 0xffff)); mpz_set(z, sent);
  f->r.s = seed; // this draw's bytes
  before(f);
  int wasfaulty = faulty(f);
  if (bits >= 0) pbc_mpz_randomb(z, (unsigned)bits); else pbc_mpz_random(z, limit);
  int warned = has("warning");
  if (mpz_cmp(z, sent) == 0) {
    if (!warned) sim_fail("silent", "a failed draw reported nothing");
    if (det || !wasfaulty) sim_fail("refused", "a draw from a healthy source failed");
    count("probe.refused_draw");
  } else {
    if (warned && !det) sim_fail("warned-yet-set", "the draw reported an error but stored a value");
    if (mpz_sgn(z) < 0 || mpz_cmp(z, limit) >= 0) sim_fail("range", "drawn value is not below its limit");
    count("probe.value_drawn");
  }
  size_t n = mpz_sizeinbase(z, 2) / 8 + 16; unsigned char *b = calloc(1, n); mpz_export(b, NULL, 1, 1, 1, 0, z); tr_bytes(1 + (u32)(mpz_sgn(z) < 0), b, n - 16); free(b);
  mpz_clear(sent);
  { mpz_t t; mpz_init(t); mpz_swap(t, z); mpz_clear(t); } mpz_clear(z);
  after(cur, bits >= 0 ? "drawing bits" : "drawing below a limit", 1);
}
static void run(plan_t *p, int v) {
  amode_t m = { v ? FILL_NOISE : FILL_ZERO, v, v ? 2 : 0, p->seed + (u64)v * 77 };
  arena_install(&m);
  memset(F, 0, sizeof F);
  for (int i = 0; i < 2; i++) { F[i].noise = 1; F[i].r.s = (u64)p->cfg[C_SEED] + (u64)i; heal(&F[i]); ffile_register(path[i], &F[i]); }
  ffile_register("/dev/random", &F[0]);
  ambient_rand(p->seed + (u64)v);
  int cur = 0; det = 0;
  mpz_t lim, z; mpz_init(lim); mpz_init(z);
  if (p->cfg[C_SRC] == 0) { // nothing installed: first use picks the system source
    if (p->cfg[C_OPENFAIL]) F[0].open_fails = 50;
    errcap_reset();
    mpz_set_ui(lim, 0); mpz_setbit(lim, 160);
    mpz_t s[3]; for (int i = 0; i < 3; i++) { mpz_init(s[i]); pbc_mpz_random(s[i], lim); }
    if (p->cfg[C_OPENFAIL]) {
      if (!has("warning")) sim_fail("silent", "the system source could not be opened and nothing was reported");
      for (int i = 0; i < 3; i++) { if (mpz_sgn(s[i]) < 0 || mpz_cmp(s[i], lim) >= 0) sim_fail("range", "fallback draw out of range"); for (int k = 0; k < i; k++) if (!mpz_cmp(s[i], s[k])) sim_fail("fallback", "the fallback generator repeats itself"); }
      pbc_random_set_deterministic(0);
      for (int i = 0; i < 3; i++) { pbc_mpz_random(z, lim); if (mpz_cmp(z, s[i])) sim_fail("fallback", "the fallback is not the seeded generator"); }
      det = 1; heal(&F[0]); count("probe.fallback");
    } else { if (has("warning")) sim_fail("refused", "warning from a healthy system source"); if (!F[0].delivered) sim_fail("source", "draws did not come from the system source"); }
    if (F[0].opens != F[0].closes) sim_fail("file-leak", "choosing the source left it open");
    for (int i = 0; i < 3; i++) mpz_clear(s[i]);
  } else { cur = (int)p->cfg[C_SRC] - 1; pbc_random_set_file(path[cur]); }
  pairing_t pr; const fam_t *fm = &fams[p->cfg[C_FAM] % nfams];
  pbc_tweak_use_fp(backends[p->cfg[C_BE] & 3]);
  F[cur].r.s = (u64)p->cfg[C_SEED]; F[cur].pos = 0; // healthy while setting up; keep the stream moving between opens
  rsrc_t rs; rsrc_init(&rs, p->seed); rsrc_install(&rs);
  if (pairing_init_set_str(pr, fm->text)) sim_fail("setup", "parameters rejected");
  element_t el[4]; element_init_Zr(el[0], pr); element_init_G1(el[1], pr); element_init_G2(el[2], pr); element_init_GT(el[3], pr);
  if (det) pbc_random_set_deterministic(1); else pbc_random_set_file(path[cur]);
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i]; ev_begin(i, e);
    ffile_t *f = &F[cur]; rng_t r; rng_init(&r, e->a);
    switch (e->op) {
      case O_DRAW: {
        static const int bl[] = { 1, 2, 7, 8, 9, 64, 160, 257 };
        mpz_set_ui(lim, 1); mpz_mul_2exp(lim, lim, (mp_bitcnt_t)bl[e->x & 7]); if (rng_p(&r, 1, 2)) mpz_sub_ui(lim, lim, 1); else if (rng_p(&r, 1, 3)) mpz_add_ui(lim, lim, 1);
        else if (rng_p(&r, 1, 2)) { mpz_uniform(lim, &r, lim); mpz_add_ui(lim, lim, 1); }
        if (mpz_sgn(lim) <= 0) mpz_set_ui(lim, 1);
        draw(cur, lim, -1, mix(p->seed, (u64)i)); break; }
      case O_DRAWB: mpz_set_ui(lim, 0); mpz_setbit(lim, e->x); draw(cur, lim, (int)e->x, mix(p->seed, (u64)i)); break;
      case O_ELEM: {
        if ((e->who & 3) == 1 || (e->who & 3) == 2) f->eof_at = f->fail_at = (size_t)-1; // point search repeats draws until the source recovers
        f->r.s = mix(p->seed, (u64)i); before(f);
        int flt = faulty(f);
        element_random(el[e->who & 3]);
        after(cur, "element_random", 1);
        if (!flt && !det && has("warning")) sim_fail("refused", "random element from a healthy source failed");
        tr(3, elem_hash(el[e->who & 3]));
        break; }
      case O_EOF: f->eof_at = e->x; break;
      case O_READERR: f->fail_reads = (long)e->x; break;
      case O_OPENFAIL: if (!det) f->open_fails = (int)e->x; break;
      case O_CHUNK: f->chunk = e->x; break;
      case O_FAILAT: f->fail_at = e->x; break;
      case O_HEAL: heal(f); mpz_set_ui(lim, 0); mpz_setbit(lim, 128); draw(cur, lim, -1, mix(p->seed, (u64)i)); break;
      case O_SWITCH: cur = (int)e->x & 1; pbc_random_set_file(path[cur]); det = 0; break;
      case O_DEPEND: { // every delivered byte matters: another byte in the stream gives another value
        if (det) break;
        ffile_t sv = *f; heal(f);
        int n = 8 + (int)e->x % 56; unsigned char d[1024]; for (int k = 0; k < 1024; k++) d[k] = (unsigned char)rng_next(&r);
        mpz_set_ui(lim, 0); mpz_setbit(lim, (mp_bitcnt_t)n * 8 - (e->a & 7)); mpz_sub_ui(lim, lim, 1); mpz_t y; mpz_init(y);
        f->noise = 0; f->data = d; f->len = 1024; f->pos = 0; pbc_mpz_random(z, lim);
        int j = (int)((e->a >> 8) % (u64)n); d[j] ^= 0xff; f->pos = 0; pbc_mpz_random(y, lim);
        if (!mpz_cmp(y, z)) sim_fail("ignores-bytes", "a draw of %d bits does not depend on byte %d of the source", n * 8, j);
        d[j] ^= 0xff; f->pos = 0; pbc_mpz_random(y, lim);
        if (mpz_cmp(y, z)) sim_fail("not-a-function", "the same source bytes gave another value");
        long o = f->opens, c = f->closes; *f = sv; f->opens = o; f->closes = c; mpz_clear(y);
        count("probe.dependence"); break; }
    }
    state(mix((u64)e->op * 64 + (u64)cur * 2 + (u64)det, (u64)(f->eof_at < 64) + 2 * (u64)(f->fail_at < 64) + 4 * (u64)(f->chunk > 0 ? 1 + f->chunk / 8 : 0) + 64 * (u64)(f->open_fails > 0) + 128 * (u64)f->fail_reads + 1024 * (u64)(e->op <= O_DRAWB ? e->x & 7 : 0)));
  }
  ev_begin(p->n, NULL);
  for (int i = 0; i < 4; i++) element_clear(el[i]);
  pairing_clear(pr); mpz_clear(lim); mpz_clear(z);
  if (arena_live(0)) sim_fail("memory-leak", "%llu library blocks remain", (unsigned long long)arena_live(0));
  if (!det && p->cfg[C_SRC] && arena_live(1)) sim_fail("memory-leak", "%llu bignum blocks remain", (unsigned long long)arena_live(1));
}
scen_t scen_p04 = { "P04", "entropy faults", 2, gen, run, ops, O_N,
  "arith/random.c, arith/init_random.c, element_random of every group; C stdio",
  "the entropy files (open, read, end, errors), allocator and memory contents are simulated",
  "distinct (operation, active faults, size class, fallback) tuples", 0, 0 };
