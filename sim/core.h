// Deterministic simulation core: seeded plans, seams, per-run isolation, replay.
#ifndef SIM_CORE_H
#define SIM_CORE_H
#include <stdarg.h>
#include <stdint.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <gmp.h>

typedef uint64_t u64;
typedef uint32_t u32;

// ---- seeded generator -------------------------------------------------
typedef struct { u64 s; } rng_t;
static inline u64 rng_next(rng_t *r) {
  u64 z = (r->s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
static inline void rng_init(rng_t *r, u64 seed) { r->s = seed * 0xD1342543DE82EF95ull + 0x2545F4914F6CDD1Dull; rng_next(r); }
static inline u32 rng_n(rng_t *r, u32 n) { return n ? (u32)(rng_next(r) % n) : 0; }
static inline int rng_p(rng_t *r, int num, int den) { return (int)rng_n(r, (u32)den) < num; }
static inline u64 mix(u64 a, u64 b) { rng_t r; rng_init(&r, a ^ (b * 0x9E3779B97F4A7C15ull + 0x632BE59BD9B4E019ull)); return rng_next(&r); }

// ---- plans ------------------------------------------------------------
// A plan is the complete schedule of one simulated run: configuration values and
// a list of events (operations and faults). Running a plan uses no other input.
enum { MAXEV = 512, NCFG = 24 };
typedef struct { uint16_t op; uint16_t who; u32 x; u64 a, b, c; } ev_t;
typedef struct {
  int n;
  u64 seed;
  int64_t cfg[NCFG];
  ev_t ev[MAXEV];
} plan_t;
static inline ev_t *plan_add(plan_t *p, int op, int who, u32 x, u64 a, u64 b, u64 c) {
  if (p->n >= MAXEV) return &p->ev[MAXEV - 1];
  ev_t *e = &p->ev[p->n++];
  e->op = (uint16_t)op; e->who = (uint16_t)who; e->x = x; e->a = a; e->b = b; e->c = c;
  return e;
}

// ---- counters (fault kinds fired, probes hit) ---------------------------
enum { NCOUNT = 96 };
int counter_id(const char *name);      // registers on first use (per process image)
void count(const char *name);          // probe or fault fired
void count_n(const char *name, u64 n);

// ---- run control --------------------------------------------------------
typedef struct scen_s {
  const char *id;
  const char *title;
  int variants;                         // >1: variants run separately, transcripts compared
  void (*gen)(rng_t *r, plan_t *p);
  void (*run)(plan_t *p, int variant);
  // optional: number of ways a deterministic "dry" pass may expand faults
  const char *const *opnames; int nops;
  const char *real, *stub, *measure;    // for the evidence file
  int quick_runs, thorough_runs;
} scen_t;

void sim_fail(const char *cls, const char *fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void sim_done(void) __attribute__((noreturn)); // end this run successfully, now
void ev_begin(int idx, const ev_t *e);  // progress marker
void trace(u64 h);                      // add to run hash
void trace_bytes(const void *p, size_t n);
void state(u64 h);                      // record an abstract state/interleaving for coverage
void tr(u32 tag, u64 h);                // transcript entry (compared between variants)
void tr_bytes(u32 tag, const void *p, size_t n);
u64 hash_bytes(const void *p, size_t n, u64 h);
void sim_time(u64 ticks);               // simulated time covered
int sim_verbose(void);
void vlog(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

// ---- allocator seam ------------------------------------------------------
enum { FILL_ZERO, FILL_FF, FILL_A5, FILL_NOISE, FILL_STALE };
typedef struct {
  int fill;            // contents of fresh blocks
  int move;            // realloc always moves
  int reuse;           // 0 never reuse, 1 LIFO reuse, 2 FIFO-ish reuse
  u64 seed;
} amode_t;
void arena_install(const amode_t *m);    // pbc_set_memory_functions + mp_set_memory_functions
void arena_mode(const amode_t *m);
void *arena_alloc(size_t n, int fam);
void arena_free(void *p, int fam, size_t gmp_size);
u64 arena_live(int fam);                 // live blocks of family (0 pbc, 1 gmp)
u64 arena_total(void);
u64 arena_mark(void);                    // sequence number
void arena_check_all(const char *when);  // verify redzones of live blocks and poison of free ones
// reports live blocks allocated after mark; returns count
u64 arena_live_since(u64 mark, char *buf, size_t n);
extern void (*yield_hook)(int kind);     // called at seam points when set

// ---- random source seam --------------------------------------------------
enum { RM_UNIFORM, RM_ZERO, RM_MAX, RM_SMALL, RM_REPEAT, RM_ALT, RM_HIGH, NRM };
typedef struct { rng_t r; int mode; long left; u64 draws; u64 last; long budget; } rsrc_t;
void rsrc_init(rsrc_t *s, u64 seed);
void rsrc_install(rsrc_t *s);
void rsrc_fault(rsrc_t *s, int mode, long ndraws);
void mpz_uniform(mpz_t z, rng_t *r, const mpz_t limit);
void mpz_edge(mpz_t z, rng_t *r, const mpz_t limit); // value in [0,limit) biased to edges

// ---- process seams -------------------------------------------------------
// exit()/abort() from library code
extern int exit_expected;                // if set, exit hook is called instead of failing
extern void (*exit_hook)(int code);
extern long wrap_fail_at;                // fail the k-th wrapped malloc/realloc (1-based), 0 never
extern int wrap_fail_persist;
extern long wrap_malloc_count;
extern int wrap_track;                   // library malloc/free tracked (wiping check)
extern void (*wrap_free_hook)(void *p, size_t n);
extern int wrap_realloc_moves;
void *raw_malloc(size_t n);               // the simulator's own storage, never tracked or failed
// captured stderr text
void errcap_start(void);
size_t errcap_len(void);
size_t errcap_read(char *buf, size_t n);  // since last reset
void errcap_reset(void);
// fake files
typedef struct {
  const unsigned char *data; size_t len, pos;
  size_t fail_at;       // byte offset at which reads start failing (SIZE_MAX never)
  size_t eof_at;        // byte offset of premature end
  size_t chunk;         // max bytes per read (0: unlimited)
  int open_fails;       // number of following opens that fail
  int noise; rng_t r;   // endless generated contents
  long opens, closes, reads; u64 delivered; u64 dhash;
  long fail_reads;      // number of following reads that fail with EIO
} ffile_t;
void ffile_register(const char *path, ffile_t *f);
void ffile_clear(void);
typedef struct { char *buf; size_t len, cap; size_t limit; size_t chunk; int failed; long writes; int err; } fsink_t;
FILE *fsink_open(fsink_t *s, int bufmode); // bufmode: _IONBF etc.
// clock
extern int clock_fake; extern long long clock_us;
// libc rand ambient state
void ambient_rand(u64 seed);
extern u64 libc_rand_calls;

// ---- fibers ---------------------------------------------------------------
typedef void (*fiber_fn)(void *arg);
int fiber_spawn(fiber_fn fn, void *arg);
void fiber_run_all(rng_t *sched, int switch_num, int switch_den, u64 *sched_hash, u64 *switches);
int fiber_current(void);
void fiber_yield(int kind);
void fiber_cov(long gap);                 // average basic blocks between switches in the trace build, 0 none
void rsrc_draw(mpz_t z, mpz_t limit, void *data);

#endif
