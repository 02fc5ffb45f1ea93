#define _GNU_SOURCE
#include "core.h"
#include <errno.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include "pbc.h"
#include "pbc_memory.h"

#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
const char *__asan_default_options(void) { return "detect_leaks=0:abort_on_error=1:handle_segv=0:allocator_may_return_null=1:symbolize=0:detect_stack_use_after_return=0"; }
#define POISON(p, n) __asan_poison_memory_region((p), (n))
#define UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#else
#define POISON(p, n) ((void)0)
#define UNPOISON(p, n) ((void)0)
#endif

void (*yield_hook)(int kind);
#define YIELD(k) do { if (yield_hook) yield_hook(k); } while (0)

// ---------------------------------------------------------------------------
// Arena: every block the library asks for comes from here, at addresses fixed by
// the seed; contents of fresh blocks, placement and moves are under our control.
typedef struct hdr_s {
  u64 magic; u64 size; u64 seq; u32 fam; u32 live;
  struct hdr_s *next;      // free list
  struct hdr_s *all;       // all blocks, newest first
  u64 pad[2];
} hdr_t;
enum { RZ = 32 };
#define MAGIC 0x51A110C8D00DF00Dull
static char *ar_base, *ar_cur, *ar_end;
static hdr_t *ar_all;
static hdr_t *ar_free[512], *ar_tail[512];
static u64 ar_seq, ar_nlive[4];
static amode_t am;
static rng_t am_rng;

static void ar_setup(void) {
  if (ar_base) return;
  size_t sz = (size_t)2 << 30;
  ar_base = mmap((void *)0x200000000000ull, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (ar_base == MAP_FAILED) { perror("arena"); _exit(9); }
  ar_cur = ar_base + 64; ar_end = ar_base + sz;
}
static int in_arena(const void *p) { return ar_base && (const char *)p >= ar_base && (const char *)p < ar_end; }
void arena_mode(const amode_t *m) { am = *m; rng_init(&am_rng, m->seed ^ 0xA110C); }
static void fillblk(unsigned char *p, size_t n) {
  switch (am.fill) {
    case FILL_ZERO: memset(p, 0, n); break;
    case FILL_FF: memset(p, 0xff, n); break;
    case FILL_A5: memset(p, 0xa5, n); break;
    case FILL_NOISE: { rng_t *r = &am_rng; size_t i; for (i = 0; i + 8 <= n; i += 8) { u64 v = rng_next(r); memcpy(p + i, &v, 8); } for (; i < n; i++) p[i] = (unsigned char)rng_next(r); } break;
    default: break;
  }
}
static int all_byte(const unsigned char *p, size_t n, unsigned char v) {
  if (!n) return 1;
  if (p[0] != v) return 0;
  u64 w = 0x0101010101010101ull * v, x, d = 0; size_t i = 0;
  for (; i + 8 <= n; i += 8) { memcpy(&x, p + i, 8); d |= x ^ w; }
  for (; i < n; i++) d |= (u64)(p[i] ^ v);
  return !d;
}
static size_t cls_of(size_t n) { return (n + 15) / 16; }
static unsigned char *payload(hdr_t *h) { return (unsigned char *)(h + 1); }
void *arena_alloc(size_t n, int fam) {
  ar_setup();
  size_t c = cls_of(n);
  hdr_t *h = NULL;
  if ((am.reuse || ar_cur - ar_base > (192 << 20)) && c < 512 && ar_free[c]) { // bounded memory even when blocks are not reused
    h = ar_free[c]; ar_free[c] = h->next;
    if (!ar_free[c]) ar_tail[c] = NULL;
    UNPOISON(payload(h), h->size); if (!all_byte(payload(h), h->size, 0xDD)) for (size_t i = 0; i < h->size; i++) if (payload(h)[i] != 0xDD) sim_fail("write-after-release", "block #%llu of %llu bytes was written at offset %zu after its release", (unsigned long long)h->seq, (unsigned long long)h->size, i);
  } else {
    size_t tot = sizeof(hdr_t) + c * 16 + RZ;
    if (ar_cur + tot > ar_end) { fprintf(stderr, "arena exhausted\n"); _exit(9); }
    h = (hdr_t *)ar_cur; ar_cur += tot;
    h->all = ar_all; ar_all = h;
    memset(payload(h), 0, 0);
  }
  h->magic = MAGIC; h->size = n; h->seq = ++ar_seq; h->fam = (u32)fam; h->live = 1; h->next = NULL;
  unsigned char *p = payload(h);
  UNPOISON(p, c * 16 + RZ);
  fillblk(p, n);
  memset(p + n, 0xBD, c * 16 + RZ - n);
  POISON(p + n, c * 16 + RZ - n);
  ar_nlive[fam]++;
  return p;
}
static void rz_check(hdr_t *h, const char *when) {
  unsigned char *p = payload(h);
  size_t c = cls_of(h->size), i, end = c * 16 + RZ;
  UNPOISON(p + h->size, end - h->size);
  if (!all_byte(p + h->size, end - h->size, 0xBD)) for (i = h->size; i < end; i++) if (p[i] != 0xBD) sim_fail("overrun", "%s: byte %zu past the end of a %llu-byte block (family %u, block #%llu) was overwritten", when, i - (size_t)h->size, (unsigned long long)h->size, h->fam, (unsigned long long)h->seq);
  POISON(p + h->size, end - h->size);
}
static hdr_t *hdr_of(void *p, const char *what) {
  if (!in_arena(p)) sim_fail("foreign-block", "%s given a pointer that did not come from the installed allocator", what);
  hdr_t *h = (hdr_t *)p - 1;
  if (h->magic != MAGIC) sim_fail("foreign-block", "%s given a pointer that is not the start of a block", what);
  return h;
}
static const char *famname[] = { "library", "bignum", "system" };
void arena_free(void *p, int fam, size_t gsize) {
  if (!p) return;
  hdr_t *h = hdr_of(p, "release");
  if (!h->live) sim_fail("double-free", "block #%llu of %llu bytes released twice", (unsigned long long)h->seq, (unsigned long long)h->size);
  if ((int)h->fam != fam) sim_fail("family-mismatch", "block of the %s allocator released through the %s one", famname[h->fam], famname[fam]);
  if (fam == 1 && gsize != (size_t)-1 && gsize != h->size) sim_fail("size-mismatch", "bignum block of %llu bytes released as %zu bytes", (unsigned long long)h->size, gsize);
  rz_check(h, "release");
  h->live = 0;
  ar_nlive[fam]--;
  size_t c = cls_of(h->size);
  memset(payload(h), 0xDD, h->size);
  POISON(payload(h), c * 16);
  if (c < 512) {
    if (am.reuse == 2) { // oldest block first
      h->next = NULL;
      if (ar_tail[c]) ar_tail[c]->next = h; else ar_free[c] = h;
      ar_tail[c] = h;
    } else { // newest block first
      h->next = ar_free[c]; ar_free[c] = h;
      if (!ar_tail[c]) ar_tail[c] = h;
    }
  }
}
u64 arena_live(int fam) { return ar_nlive[fam]; }
u64 arena_total(void) { return ar_seq; }
u64 arena_mark(void) { return ar_seq; }
u64 arena_live_since(u64 mark, char *buf, size_t n) {
  u64 k = 0; size_t pos = 0;
  if (n) buf[0] = 0;
  for (hdr_t *h = ar_all; h; h = h->all) if (h->live && h->seq > mark) {
    k++;
    if (pos + 48 < n) pos += (size_t)snprintf(buf + pos, n - pos, " #%llu:%s:%lluB", (unsigned long long)h->seq, famname[h->fam], (unsigned long long)h->size);
  }
  return k;
}
void arena_check_all(const char *when) {
  for (hdr_t *h = ar_all; h; h = h->all) {
    if (h->magic != MAGIC) sim_fail("overrun", "%s: block header destroyed", when);
    if (h->live) rz_check(h, when);
    else {
      unsigned char *p = payload(h);
      UNPOISON(p, h->size);
      for (size_t i = 0; i < h->size; i++) if (p[i] != 0xDD) sim_fail("write-after-free", "%s: released block #%llu written at offset %zu", when, (unsigned long long)h->seq, i);
      POISON(p, cls_of(h->size) * 16);
    }
  }
}
static void *arena_realloc(void *p, size_t n, int fam, size_t old_gsize) {
  if (!p) return arena_alloc(n, fam);
  hdr_t *h = hdr_of(p, "resize");
  if (!h->live) sim_fail("use-after-free", "released block resized");
  if ((int)h->fam != fam) sim_fail("family-mismatch", "block of the %s allocator resized through the %s one", famname[h->fam], famname[fam]);
  if (fam == 1 && old_gsize != h->size) sim_fail("size-mismatch", "bignum block of %llu bytes resized as %zu bytes", (unsigned long long)h->size, old_gsize);
  rz_check(h, "resize");
  if (!am.move && cls_of(n) == cls_of(h->size)) {
    size_t c = cls_of(n);
    UNPOISON(payload(h), c * 16 + RZ);
    if (n > h->size) fillblk(payload(h) + h->size, n - h->size);
    h->size = n;
    memset(payload(h) + n, 0xBD, c * 16 + RZ - n);
    POISON(payload(h) + n, c * 16 + RZ - n);
    return p;
  }
  void *q = arena_alloc(n, fam);
  if (!q) return NULL;
  memcpy(q, p, h->size < n ? h->size : n);
  arena_free(p, fam, (size_t)-1);
  return q;
}
static void *p_malloc(size_t n) { YIELD(0); return arena_alloc(n, 0); }
static void *p_realloc(void *p, size_t n) { YIELD(1); return arena_realloc(p, n, 0, 0); }
static void p_free(void *p) { YIELD(2); arena_free(p, 0, 0); }
static void *g_malloc(size_t n) { YIELD(3); return arena_alloc(n, 1); }
static void *g_realloc(void *p, size_t o, size_t n) { YIELD(4); return arena_realloc(p, n, 1, o); }
static void g_free(void *p, size_t n) { YIELD(5); arena_free(p, 1, n); }
void arena_install(const amode_t *m) {
  ar_setup();
  arena_mode(m);
  if (!ar_seq) ar_cur = ar_base + 64 + 16 * (mix(m->seed, 0xADD2) % 60000); // addresses differ between executions that should agree
  pbc_set_memory_functions(p_malloc, p_realloc, p_free);
  mp_set_memory_functions(g_malloc, g_realloc, g_free);
}

// ---------------------------------------------------------------------------
// system malloc/free as seen by the library's default allocators
int wrap_track, wrap_fail_persist, wrap_realloc_moves = 1;
long wrap_fail_at, wrap_malloc_count;
void (*wrap_free_hook)(void *p, size_t n);
void *__real_malloc(size_t); void *__real_realloc(void *, size_t); void __real_free(void *); void *__real_calloc(size_t, size_t);
void *raw_malloc(size_t n) { return __real_malloc(n); }
static int wrap_should_fail(void) {
  wrap_malloc_count++;
  YIELD(6);
  if (wrap_fail_at && (wrap_malloc_count == wrap_fail_at || (wrap_fail_persist && wrap_malloc_count > wrap_fail_at))) {
    count("fault.malloc_null");
    errno = ENOMEM;
    return 1;
  }
  return 0;
}
void *__wrap_malloc(size_t n) {
  if (!wrap_track) return __real_malloc(n);
  if (wrap_should_fail()) return NULL;
  return arena_alloc(n, 2);
}
void *__wrap_calloc(size_t a, size_t b) {
  if (!wrap_track) return __real_calloc(a, b);
  if (wrap_should_fail()) return NULL;
  void *p = arena_alloc(a * b, 2);
  if (p) memset(p, 0, a * b);
  return p;
}
void __wrap_free(void *p) {
  if (!p) return;
  if (!in_arena(p)) { __real_free(p); return; }
  hdr_t *h = hdr_of(p, "free");
  if (wrap_free_hook && h->live) wrap_free_hook(p, h->size);
  arena_free(p, (int)h->fam == 2 ? 2 : 2, 0);
}
void *__wrap_realloc(void *p, size_t n) {
  if (!wrap_track && (!p || !in_arena(p))) return __real_realloc(p, n);
  if (p && !in_arena(p)) return __real_realloc(p, n);
  if (wrap_should_fail()) return NULL;
  if (!p) return arena_alloc(n, 2);
  if (!n) { __wrap_free(p); return NULL; } // as glibc does
  hdr_t *h = hdr_of(p, "realloc");
  void *q = arena_alloc(n, 2);
  if (!q) return NULL;
  memcpy(q, p, h->size < n ? h->size : n);
  if (wrap_free_hook) wrap_free_hook(p, h->size);
  arena_free(p, 2, 0);
  return q;
}

// exit
int exit_expected; void (*exit_hook)(int);
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int code) {
  if (exit_expected && exit_hook) exit_hook(code);
  char b[300]; size_t n = errcap_read(b, sizeof b - 1); b[n] = 0;
  for (size_t i = 0; i < n; i++) if (b[i] == '\n') b[i] = '|';
  sim_fail("unexpected-exit", "library ended the process with status %d: %s", code, b);
}

// stderr capture
static int errfd = -1; static off_t erroff;
void errcap_start(void) {
  if (sim_verbose() > 1) return;
  errfd = memfd_create("err", 0);
  if (errfd >= 0) dup2(errfd, 2);
  erroff = 0;
  lseek(2, 0, SEEK_SET);
}
size_t errcap_len(void) { return errfd < 0 ? 0 : (size_t)(lseek(errfd, 0, SEEK_END) - erroff); }
size_t errcap_read(char *b, size_t n) { if (errfd < 0) return 0; ssize_t k = pread(errfd, b, n, erroff); return k < 0 ? 0 : (size_t)k; }
void errcap_reset(void) { if (errfd >= 0) erroff = lseek(errfd, 0, SEEK_END); }

// clock
int clock_fake; long long clock_us;
int __real_gettimeofday(struct timeval *tv, void *tz);
int __wrap_gettimeofday(struct timeval *tv, void *tz) {
  if (!clock_fake) return __real_gettimeofday(tv, tz);
  tv->tv_sec = clock_us / 1000000; tv->tv_usec = clock_us % 1000000;
  if (tv->tv_usec < 0) { tv->tv_usec += 1000000; tv->tv_sec--; }
  return 0;
}
int __real_clock_gettime(int id, struct timespec *ts);
int __wrap_clock_gettime(int id, struct timespec *ts) {
  if (!clock_fake) return __real_clock_gettime(id, ts);
  long long u = clock_us; long long s = u / 1000000, r = u % 1000000; if (r < 0) { r += 1000000; s--; }
  ts->tv_sec = s; ts->tv_nsec = r * 1000; return 0;
}
long __real_time(long *t);
long __wrap_time(long *t) { if (!clock_fake) return __real_time(t); long v = (long)(clock_us / 1000000); if (t) *t = v; return v; }

// libc rand: an ambient source that must not matter
static rng_t amb; u64 libc_rand_calls;
void ambient_rand(u64 seed) { rng_init(&amb, seed); }
int __wrap_rand(void) { libc_rand_calls++; return (int)(rng_next(&amb) & 0x7fffffff); }
long __wrap_random(void) { libc_rand_calls++; return (long)(rng_next(&amb) & 0x7fffffff); }
long __wrap_lrand48(void) { libc_rand_calls++; return (long)(rng_next(&amb) & 0x7fffffff); }
long __wrap_mrand48(void) { libc_rand_calls++; return (long)(int)rng_next(&amb); }
double __wrap_drand48(void) { libc_rand_calls++; return (double)(rng_next(&amb) >> 12) / 4503599627370496.0; }
int __wrap_rand_r(unsigned *s) { (void)s; libc_rand_calls++; return (int)(rng_next(&amb) & 0x7fffffff); }
ssize_t __wrap_getrandom(void *b, size_t n, unsigned f) { (void)f; libc_rand_calls++; for (size_t i = 0; i < n; i++) ((unsigned char *)b)[i] = (unsigned char)rng_next(&amb); return (ssize_t)n; }
int __wrap_getentropy(void *b, size_t n) { __wrap_getrandom(b, n, 0); return 0; }
int __wrap_getpid(void) { return 2 + (int)(mix(amb.s, 5) % 30000); }
int __wrap_getppid(void) { return 2 + (int)(mix(amb.s, 6) % 30000); }
long __wrap_clock(void) { return clock_fake ? (long)clock_us : 0; }
void __wrap_srand(unsigned s) { (void)s; }

// ---------------------------------------------------------------------------
// fake files
static struct { char path[64]; ffile_t *f; } ff[8]; static int nff;
void ffile_register(const char *path, ffile_t *f) { snprintf(ff[nff].path, 64, "%s", path); ff[nff++].f = f; }
void ffile_clear(void) { nff = 0; }
typedef struct { ffile_t *f; } fcookie_t;
static ssize_t ff_read(void *c, char *buf, size_t n) {
  ffile_t *f = c;
  f->reads++;
  if (f->fail_reads > 0) { f->fail_reads--; count("fault.read_error"); errno = EIO; return -1; }
  size_t k = n;
  if (f->chunk && k > f->chunk) { k = f->chunk; count("fault.short_read"); }
  if (f->pos >= f->fail_at) { count("fault.read_error"); errno = EIO; return -1; }
  if (f->pos + k > f->fail_at) k = f->fail_at - f->pos;
  if (f->pos >= f->eof_at) { count("fault.early_eof"); return 0; }
  if (f->pos + k > f->eof_at) k = f->eof_at - f->pos;
  if (!f->noise) { if (f->pos >= f->len) return 0; if (f->pos + k > f->len) k = f->len - f->pos; memcpy(buf, f->data + f->pos, k); }
  else for (size_t i = 0; i < k; i++) buf[i] = (char)(mix(f->r.s, (f->pos + i) / 8) >> (8 * ((f->pos + i) % 8)));
  f->pos += k; f->delivered += k; f->dhash = hash_bytes(buf, k, f->dhash);
  return (ssize_t)k;
}
static int ff_close(void *c) { ((ffile_t *)c)->closes++; return 0; }
FILE *__real_fopen(const char *p, const char *m);
FILE *__wrap_fopen(const char *p, const char *m) {
  for (int i = 0; i < nff; i++) if (!strcmp(ff[i].path, p)) {
    ffile_t *f = ff[i].f;
    if (f->open_fails > 0) { f->open_fails--; count("fault.open_fails"); errno = EMFILE; return NULL; }
    f->opens++;
    cookie_io_functions_t io = { ff_read, NULL, NULL, ff_close };
    FILE *fp = fopencookie(f, m, io);
    return fp;
  }
  return __real_fopen(p, m);
}
static ssize_t fs_write(void *c, const char *buf, size_t n) {
  fsink_t *s = c;
  s->writes++;
  if (s->err) { count("fault.write_error"); errno = s->err; return 0; }
  size_t k = n;
  if (s->chunk && k > s->chunk) { k = s->chunk; count("fault.short_write"); }
  if (s->len + k > s->limit) { k = s->limit - s->len; s->failed = 1; count("fault.disk_full"); }
  if (s->len + k > s->cap) k = s->cap - s->len;
  memcpy(s->buf + s->len, buf, k);
  s->len += k;
  if (!k && n) { errno = ENOSPC; return 0; }
  return (ssize_t)k;
}
FILE *fsink_open(fsink_t *s, int bufmode) {
  cookie_io_functions_t io = { NULL, fs_write, NULL, NULL };
  FILE *fp = fopencookie(s, "w", io);
  if (fp) setvbuf(fp, NULL, bufmode, bufmode == _IONBF ? 0 : 64);
  return fp;
}

// ---------------------------------------------------------------------------
// random source
void mpz_uniform(mpz_t z, rng_t *r, const mpz_t limit) {
  size_t bits = mpz_sizeinbase(limit, 2) + 64, n = (bits + 63) / 64;
  u64 w[512];
  if (n > 512) n = 512;
  for (size_t i = 0; i < n; i++) w[i] = rng_next(r);
  mpz_t t; mpz_init(t);
  mpz_import(t, n, -1, 8, 0, 0, w);
  mpz_mod(z, t, limit);
  mpz_clear(t);
}
void mpz_edge(mpz_t z, rng_t *r, const mpz_t lim) {
  mpz_t limit; mpz_init_set(limit, lim); // z and lim may be the same
  switch (rng_n(r, 17)) {
    case 9: case 10: case 11: { // limbs at their extremes, also as seen in Montgomery form
      int t = (int)mpz_size(limit), mont = (int)rng_n(r, 2); mpz_set_ui(z, 0);
      for (int i = 0; i < t; i++) { u64 l; switch (rng_n(r, 5)) { case 0: l = 0; break; case 1: l = 1; break; case 2: l = ~0ull; break; case 3: l = ~0ull - rng_n(r, 3); break; default: l = rng_next(r); } mpz_mul_2exp(z, z, 64); mpz_add_ui(z, z, l); }
      if (mont && mpz_odd_p(limit) && mpz_cmp_ui(limit, 1) > 0) { mpz_t k; mpz_init_set_ui(k, 1); mpz_mul_2exp(k, k, 64 * (unsigned)t); mpz_invert(k, k, limit); mpz_mod(z, z, limit); mpz_mul(z, z, k); mpz_clear(k); }
      break; }
    case 0: mpz_set_ui(z, 0); break;
    case 1: mpz_set_ui(z, 1); break;
    case 2: mpz_set_ui(z, 2); break;
    case 3: mpz_sub_ui(z, limit, 1); break;
    case 4: mpz_sub_ui(z, limit, 2); break;
    case 5: mpz_set_ui(z, rng_n(r, 64)); break;
    case 6: mpz_set_ui(z, 0); mpz_setbit(z, rng_n(r, (u32)mpz_sizeinbase(limit, 2))); break;
    case 7: mpz_set_ui(z, 0); mpz_setbit(z, rng_n(r, (u32)mpz_sizeinbase(limit, 2))); mpz_sub_ui(z, z, 1); break;
    case 8: mpz_fdiv_q_2exp(z, limit, 1); break;
    default: mpz_uniform(z, r, limit); break;
  }
  mpz_mod(z, z, limit);
  mpz_clear(limit);
}
void rsrc_init(rsrc_t *s, u64 seed) { rng_init(&s->r, seed); s->mode = RM_UNIFORM; s->left = 0; s->draws = 0; s->last = 0; s->budget = 2000000; }
void rsrc_draw(mpz_t z, mpz_t limit, void *data) {
  rsrc_t *s = data;
  YIELD(7);
  s->draws++;
  if (s->budget && (long)s->draws > s->budget) sim_fail("no-progress", "more than %ld random draws without finishing", s->budget);
  int m = s->mode;
  if (m != RM_UNIFORM) {
    static const char *nm[] = { "", "fault.rng_zero", "fault.rng_max", "fault.rng_small", "fault.rng_repeat", "fault.rng_alternate", "fault.rng_high" };
    if (s->left > 0 && --s->left == 0) s->mode = RM_UNIFORM;
    count(nm[m]);
  }
  switch (m) {
    case RM_ZERO: mpz_set_ui(z, 0); break;
    case RM_MAX: mpz_sub_ui(z, limit, 1); break;
    case RM_SMALL: mpz_set_ui(z, rng_n(&s->r, 4)); mpz_mod(z, z, limit); break;
    case RM_REPEAT: { rng_t q; rng_init(&q, s->last ? s->last : (s->last = rng_next(&s->r))); mpz_uniform(z, &q, limit); break; }
    case RM_ALT: if (s->draws & 1) mpz_set_ui(z, 0); else mpz_sub_ui(z, limit, 1); break;
    case RM_HIGH: mpz_sub_ui(z, limit, 1 + rng_n(&s->r, 4)); if (mpz_sgn(z) < 0) mpz_set_ui(z, 0); break;
    default: mpz_uniform(z, &s->r, limit); break;
  }
}
void rsrc_install(rsrc_t *s) { pbc_random_set_function(rsrc_draw, s); }
void rsrc_fault(rsrc_t *s, int mode, long n) { s->mode = (int)((unsigned)mode % NRM); s->left = n; s->last = 0; }

// ---------------------------------------------------------------------------
// fibers: one OS thread, every switch chosen by the seeded scheduler
enum { MAXF = 8, FSTK = 1 << 20 };
static struct { void *sp; fiber_fn fn; void *arg; int done; char *stk; } fb[MAXF];
static int nfb, curf = -1; static void *mainsp;
void sim_swtch(void **save, void *load); // callee-saved registers and stack pointer only, no system call
__asm__(".text\n.globl sim_swtch\nsim_swtch:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static long cov_left, cov_gap; static rng_t *fsched; static int fnum, fden; static u64 *fhash, *fsw;
int fiber_current(void) { return curf; }
static void fiber_main(void) { int i = curf; fb[i].fn(fb[i].arg); fb[i].done = 1; for (;;) sim_swtch(&fb[i].sp, mainsp); }
int fiber_spawn(fiber_fn fn, void *arg) {
  int i = nfb++;
  fb[i].fn = fn; fb[i].arg = arg; fb[i].done = 0;
  fb[i].stk = mmap(NULL, FSTK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  void **sp = (void **)(fb[i].stk + FSTK - 64); *--sp = NULL; *--sp = (void *)fiber_main; for (int k = 0; k < 6; k++) *--sp = NULL; fb[i].sp = sp;
  return i;
}
void fiber_yield(int kind) {
  if (curf < 0) return;
  if (!rng_p(fsched, fnum, fden)) return;
  (*fsw)++;
  *fhash = mix(*fhash, (u64)kind * 16 + (u64)curf);
  sim_swtch(&fb[curf].sp, mainsp);
}
// called by the library at every basic block in the "trace" build
void __sanitizer_cov_trace_pc(void) {
  if (curf < 0 || !yield_hook || !cov_gap || --cov_left > 0) return;
  cov_left = 1 + (long)rng_n(fsched, (u32)cov_gap * 2);
  (*fsw)++; *fhash = mix(*fhash, 900 + (u64)curf); count("fault.switch_inside_call");
  sim_swtch(&fb[curf].sp, mainsp);
}
void fiber_cov(long gap) { cov_gap = gap; cov_left = 1; }
void fiber_run_all(rng_t *sched, int num, int den, u64 *h, u64 *sw) {
  fsched = sched; fnum = num; fden = den; fhash = h; fsw = sw;
  *h = 1; *sw = 0;
  yield_hook = fiber_yield;
  for (;;) {
    int alive[MAXF], n = 0;
    for (int i = 0; i < nfb; i++) if (!fb[i].done) alive[n++] = i;
    if (!n) break;
    curf = alive[rng_n(sched, (u32)n)];
    *h = mix(*h, (u64)curf + 100);
    sim_swtch(&mainsp, fb[curf].sp);
    curf = -1;
  }
  yield_hook = NULL;
}
