#include "kit.h"
#include <ctype.h>
#include <sys/mman.h>
#include "params_gen.h"   // generated: static const fam_t table body
const int nfams = sizeof(fams) / sizeof(fams[0]);
char *const backends[4] = { "mont", "naive", "fast", "faster" };

int fam_pick(rng_t *r, int allow_i, int num, int den) {
  int real = rng_p(r, num, den);
  for (;;) {
    int k = (int)rng_n(r, (u32)nfams);
    if (fams[k].type == 'i') { if (allow_i && rng_p(r, 1, fams[k].toy ? 3 : 6) && (fams[k].toy || rng_p(r, 1, 2))) return k; continue; }
    if (!!fams[k].toy == !real) return k;
  }
}
int nmethods(const fam_t *f) {
  switch (f->type) { case 'a': case '1': case 'e': case 'g': return 4; case 'd': return 3; default: return 1; }
}
char *method_name(const fam_t *f, int m) {
  static char *n[] = { NULL, "miller", "miller-affine", "shipsey-stange" };
  m %= nmethods(f);
  return n[m];
}
int fam_param(const fam_t *f, const char *key, mpz_t out) {
  const char *s = f->text; size_t k = strlen(key);
  while (*s) {
    if (!strncmp(s, key, k) && s[k] == ' ') {
      char b[4096]; size_t i = 0;
      for (s += k + 1; *s && !isspace((unsigned char)*s) && i < sizeof b - 1; s++) b[i++] = *s;
      b[i] = 0;
      return mpz_set_str(out, b, 10) ? -1 : 0;
    }
    while (*s && *s != '\n') s++;
    if (*s) s++;
  }
  return -1;
}

void rcurve_init(rcurve_t *c, const fam_t *f) {
  mpz_init(c->q); mpz_init(c->a); mpz_init(c->b);
  fam_param(f, f->type == '1' ? "p" : "q", c->q);
  switch (f->type) {
    case 'a': case '1': mpz_set_ui(c->a, 1); break;
    case 'f': fam_param(f, "b", c->b); break;
    default: fam_param(f, "a", c->a); fam_param(f, "b", c->b); break;
  }
}
void rpt_init(rpt_t *p) { p->inf = 1; mpz_init(p->x); mpz_init(p->y); }
void rpt_set(rpt_t *d, const rpt_t *s) { d->inf = s->inf; mpz_set(d->x, s->x); mpz_set(d->y, s->y); }
int rpt_on(const rcurve_t *c, const rpt_t *p) {
  if (p->inf) return 1;
  if (mpz_cmp(p->x, c->q) >= 0 || mpz_cmp(p->y, c->q) >= 0) return 0;
  mpz_t t, u; mpz_init(t); mpz_init(u);
  mpz_mul(t, p->x, p->x); mpz_add(t, t, c->a); mpz_mul(t, t, p->x); mpz_add(t, t, c->b);
  mpz_mul(u, p->y, p->y); mpz_sub(t, t, u);
  int ok = mpz_divisible_p(t, c->q);
  mpz_clear(t); mpz_clear(u);
  return ok;
}
void rpt_add(const rcurve_t *c, rpt_t *d, const rpt_t *p, const rpt_t *q) {
  if (p->inf) { rpt_set(d, q); return; }
  if (q->inf) { rpt_set(d, p); return; }
  mpz_t l, t, x; mpz_init(l); mpz_init(t); mpz_init(x);
  int done = 0;
  if (!mpz_cmp(p->x, q->x)) {
    if (mpz_cmp(p->y, q->y) || !mpz_sgn(p->y)) { d->inf = 1; done = 1; }
    else {
      mpz_mul(l, p->x, p->x); mpz_mul_ui(l, l, 3); mpz_add(l, l, c->a);
      mpz_mul_2exp(t, p->y, 1); mpz_mod(t, t, c->q); mpz_invert(t, t, c->q); mpz_mul(l, l, t); mpz_mod(l, l, c->q);
    }
  } else {
    mpz_sub(t, q->x, p->x); mpz_mod(t, t, c->q); mpz_invert(t, t, c->q);
    mpz_sub(l, q->y, p->y); mpz_mul(l, l, t); mpz_mod(l, l, c->q);
  }
  if (!done) {
    mpz_mul(x, l, l); mpz_sub(x, x, p->x); mpz_sub(x, x, q->x); mpz_mod(x, x, c->q);
    mpz_sub(t, p->x, x); mpz_mul(t, t, l); mpz_sub(t, t, p->y); mpz_mod(t, t, c->q);
    d->inf = 0; mpz_set(d->x, x); mpz_set(d->y, t);
  }
  mpz_clear(l); mpz_clear(t); mpz_clear(x);
}
void rpt_mul(const rcurve_t *c, rpt_t *d, const rpt_t *p, const mpz_t k) {
  rpt_t r, b; rpt_init(&r); rpt_init(&b); rpt_set(&b, p);
  size_t n = mpz_sgn(k) ? mpz_sizeinbase(k, 2) : 0;
  for (size_t i = 0; i < n; i++) { if (mpz_tstbit(k, i)) rpt_add(c, &r, &r, &b); if (i + 1 < n) rpt_add(c, &b, &b, &b); }
  rpt_set(d, &r);
  mpz_clear(r.x); mpz_clear(r.y); mpz_clear(b.x); mpz_clear(b.y);
}
void rpt_from_bytes(rpt_t *p, const unsigned char *b, int len) {
  p->inf = 0;
  mpz_import(p->x, (size_t)len / 2, 1, 1, 1, 0, b);
  mpz_import(p->y, (size_t)len / 2, 1, 1, 1, 0, b + len / 2);
}
static void be(unsigned char *b, int n, const mpz_t z) {
  size_t k = mpz_sgn(z) ? (mpz_sizeinbase(z, 2) + 7) / 8 : 0;
  memset(b, 0, (size_t)n);
  if (k && (int)k <= n) mpz_export(b + n - k, NULL, 1, 1, 1, 0, z);
}
void rpt_to_bytes(unsigned char *b, const rpt_t *p, int len) { be(b, len / 2, p->x); be(b + len / 2, len / 2, p->y); }

void chain_mul(element_t out, element_t base, const mpz_t k, int mult) {
  element_t r, b, t;
  element_init_same_as(r, base); element_init_same_as(b, base); element_init_same_as(t, base);
  if (mult) element_set1(r); else element_set0(r);
  element_set(b, base);
  size_t n = mpz_sgn(k) ? mpz_sizeinbase(k, 2) : 0;
  for (size_t i = 0; i < n; i++) {
    if (mpz_tstbit(k, i)) { if (mult) element_mul(t, r, b); else element_add(t, r, b); element_set(r, t); }
    if (i + 1 < n) { if (mult) element_mul(t, b, b); else element_add(t, b, b); element_set(b, t); }
  }
  element_set(out, r);
  element_clear(r); element_clear(b); element_clear(t);
}
void hexlog(const char *tag, const unsigned char *b, int n) {
  if (!sim_verbose()) return;
  printf("    %s ", tag); for (int i = 0; i < n; i++) printf("%02x", b[i]); printf("\n"); fflush(stdout);
}
u64 elem_hash(element_t e) {
  int n = element_length_in_bytes(e);
  if (n <= 0 || n > 65536) return 0x1234;
  unsigned char *b = raw_malloc((size_t)n);
  memset(b, 0x3c, (size_t)n);
  int k = element_to_bytes(b, e);
  u64 h = hash_bytes(b, (size_t)n, (u64)k + ((u64)!!element_is0(e) << 32));
  free(b);
  return h;
}

static struct { unsigned char *p; size_t cap; } eb[40];
unsigned char *edge_buf(int i, size_t n, int fill) {
  size_t need = (n + 64 + 8191) / 4096 * 4096;
  if (eb[i].cap < need) {
    if (eb[i].p) munmap(eb[i].p, eb[i].cap + 4096);
    eb[i].p = mmap(NULL, need + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    eb[i].cap = need;
    mprotect(eb[i].p + need, 4096, PROT_NONE);
  }
  mprotect(eb[i].p, eb[i].cap, PROT_READ | PROT_WRITE);
  memset(eb[i].p, fill, eb[i].cap);
  return eb[i].p + eb[i].cap - n;
}
void edge_lock(int i, int ro) { mprotect(eb[i].p, eb[i].cap, ro ? PROT_READ : PROT_READ | PROT_WRITE); }
