#define _GNU_SOURCE
#include "core.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern scen_t *scenarios[];

enum { MAXSTATES = 4096, MAXTR = 1 << 15, MAXVAR = 3 };
typedef struct {
  volatile int status;      // 0 not finished, 1 ok, 2 fail
  volatile int evidx;       // event in progress
  volatile int evop;
  char cls[96];
  char msg[1024];
  u64 hash;
  u64 ticks;
  int nstates;
  u64 states[MAXSTATES];
  int ntr;
  u64 trh[MAXTR];
  u32 trtag[MAXTR];
  int trev[MAXTR];
  u64 counts[NCOUNT];
} rec_t;
typedef struct { char names[NCOUNT][48]; volatile int n; } names_t;

static names_t *names;
static rec_t *rec;            // record of the run in progress (shared memory)
static scen_t *scen;
static int verbose;
static int CPU_LIMIT = 40;

static void *shm(size_t n) {
  void *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); _exit(9); }
  return p;
}

static volatile int *names_lock;
int counter_id(const char *name) {
  int i;
  for (i = 0; i < names->n; i++) if (!strcmp(names->names[i], name)) return i;
  while (__sync_lock_test_and_set(names_lock, 1)) ;
  for (i = 0; i < names->n; i++) if (!strcmp(names->names[i], name)) { __sync_lock_release(names_lock); return i; }
  if (i >= NCOUNT) { __sync_lock_release(names_lock); return NCOUNT - 1; }
  snprintf(names->names[i], sizeof(names->names[i]), "%s", name);
  __sync_synchronize();
  names->n = i + 1;
  __sync_lock_release(names_lock);
  return i;
}
void count_n(const char *name, u64 n) { rec->counts[counter_id(name)] += n; }
void count(const char *name) { count_n(name, 1); }

u64 hash_bytes(const void *p, size_t n, u64 h) {
  const unsigned char *c = p;
  h ^= 0xcbf29ce484222325ull;
  while (n--) { h ^= *c++; h *= 0x100000001b3ull; h ^= h >> 29; }
  return h;
}
void trace(u64 h) { rec->hash = (rec->hash ^ h) * 0x9E3779B97F4A7C15ull; rec->hash ^= rec->hash >> 31; }
void trace_bytes(const void *p, size_t n) { trace(hash_bytes(p, n, 1)); }
void state(u64 h) { trace(h); if (rec->nstates < MAXSTATES) rec->states[rec->nstates++] = h; }
void tr(u32 tag, u64 h) {
  trace(mix(tag, h));
  if (rec->ntr < MAXTR) { rec->trh[rec->ntr] = h; rec->trtag[rec->ntr] = tag; rec->trev[rec->ntr] = rec->evidx; rec->ntr++; }
}
void tr_bytes(u32 tag, const void *p, size_t n) { tr(tag, hash_bytes(p, n, 7)); }
void sim_time(u64 t) { rec->ticks += t; }
int sim_verbose(void) { return verbose; }
void vlog(const char *fmt, ...) {
  if (!verbose) return;
  va_list ap; va_start(ap, fmt); vprintf(fmt, ap); va_end(ap); fflush(stdout);
}
void ev_begin(int idx, const ev_t *e) {
  rec->evidx = idx; rec->evop = e ? e->op : -1;
  rec->ticks++;
  if (e) trace(mix(mix(e->op, e->a), mix(e->b, e->x)));
  if (verbose && e) {
    printf("  [%d] %s who=%d x=%u a=%llx b=%llx c=%llx\n", idx, scen->opnames && e->op < scen->nops ? scen->opnames[e->op] : "?",
      e->who, e->x, (unsigned long long)e->a, (unsigned long long)e->b, (unsigned long long)e->c);
    fflush(stdout);
  }
}
void sim_fail(const char *cls, const char *fmt, ...) {
  va_list ap;
  va_start(ap, fmt);
  vsnprintf(rec->msg, sizeof(rec->msg), fmt, ap);
  va_end(ap);
  snprintf(rec->cls, sizeof(rec->cls), "%s", cls);
  rec->status = 2;
  if (verbose) { printf("  FAIL %s: %s\n", rec->cls, rec->msg); fflush(stdout); }
  _exit(3);
}
void sim_done(void) { if (rec->status == 0) rec->status = 1; if (verbose) fflush(stdout); _exit(0); }

// ---- running one plan in a child ------------------------------------------
static void run_child(plan_t *p, int variant, rec_t *r) {
  memset(r, 0, offsetof(rec_t, states));
  r->ntr = 0; r->nstates = 0; r->status = 0; r->evidx = -1;
  memset(r->counts, 0, sizeof(r->counts));
  rec = r;
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); _exit(9); }
  if (!pid) {
    struct rlimit rl = { CPU_LIMIT, CPU_LIMIT + 5 };
    setrlimit(RLIMIT_CPU, &rl);
    struct rlimit rc = { 0, 0 };
    setrlimit(RLIMIT_CORE, &rc);
    struct rlimit rs = { 64 << 20, 64 << 20 };
    setrlimit(RLIMIT_STACK, &rs);
    errcap_start();
    rec->evidx = -1;
    scen->run(p, variant);
    sim_done();
  }
  int st;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) ;
  if (r->status == 2) return;
  const char *opn = (r->evop >= 0 && scen->opnames && r->evop < scen->nops && r->evidx >= 0) ? scen->opnames[r->evop] : "setup";
  if (WIFSIGNALED(st)) {
    int sg = WTERMSIG(st);
    if (sg == SIGXCPU || sg == SIGKILL) {
      snprintf(r->cls, sizeof r->cls, "hang:%s", opn);
      snprintf(r->msg, sizeof r->msg, "no progress within %d CPU seconds in event %d (%s), variant %d", CPU_LIMIT, r->evidx, opn, variant);
    } else {
      snprintf(r->cls, sizeof r->cls, "crash:%s", opn);
      snprintf(r->msg, sizeof r->msg, "killed by signal %d (%s) in event %d (%s), variant %d", sg, strsignal(sg), r->evidx, opn, variant);
    }
    r->status = 2;
  } else if (r->status != 1 || WEXITSTATUS(st) != 0) {
    snprintf(r->cls, sizeof r->cls, "exit:%s", opn);
    snprintf(r->msg, sizeof r->msg, "process ended with status %d in event %d (%s), variant %d", WEXITSTATUS(st), r->evidx, opn, variant);
    r->status = 2;
  }
}

static rec_t *vrec[MAXVAR];
static void run_plan(plan_t *p, rec_t *out) {
  int nv = scen->variants > 1 ? scen->variants : 1;
  if (nv == 1) { run_child(p, 0, out); return; }
  for (int v = 0; v < nv; v++) {
    run_child(p, v, vrec[v]);
    if (vrec[v]->status == 2) { memcpy(out, vrec[v], sizeof(rec_t)); return; }
  }
  memcpy(out, vrec[0], sizeof(rec_t));
  for (int v = 1; v < nv; v++) {
    rec_t *a = vrec[0], *b = vrec[v];
    for (int i = 0; i < NCOUNT; i++) out->counts[i] += b->counts[i];
    out->ticks += b->ticks;
    for (int i = 0; i < b->nstates && out->nstates < MAXSTATES; i++) out->states[out->nstates++] = b->states[i];
    out->hash = mix(out->hash, b->hash);
    int n = a->ntr < b->ntr ? a->ntr : b->ntr;
    for (int i = 0; i <= n; i++) {
      if (i == n ? a->ntr != b->ntr : (a->trh[i] != b->trh[i] || a->trtag[i] != b->trtag[i])) {
        int e = i < a->ntr ? a->trev[i] : i < b->ntr ? b->trev[i] : -1;
        int op = (e >= 0 && e < p->n) ? p->ev[e].op : -1;
        const char *opn = op >= 0 && scen->opnames && op < scen->nops ? scen->opnames[op] : "setup";
        snprintf(out->cls, sizeof out->cls, "diverge:%s", opn);
        snprintf(out->msg, sizeof out->msg, "execution variants 0 and %d differ at observation %d (tag %u vs %u), event %d (%s)", v, i,
          i < a->ntr ? a->trtag[i] : 0, i < b->ntr ? b->trtag[i] : 0, e, opn);
        out->status = 2;
        return;
      }
    }
  }
}

// ---- replay files -----------------------------------------------------------
static int plan_write(const char *path, plan_t *p, rec_t *r, u64 hash) {
  FILE *f = fopen(path, "w");
  if (!f) return -1;
  fprintf(f, "# simulation replay: run with  sim --replay FILE\n");
  fprintf(f, "prop %s\nseed %llu\nclass %s\n# %s\nhash %016llx\n", scen->id, (unsigned long long)p->seed, r->cls, r->msg, (unsigned long long)hash);
  fprintf(f, "cfg");
  for (int i = 0; i < NCFG; i++) fprintf(f, " %lld", (long long)p->cfg[i]);
  fprintf(f, "\n");
  for (int i = 0; i < p->n; i++) {
    ev_t *e = &p->ev[i];
    fprintf(f, "ev %d %d %u %llu %llu %llu # %s\n", e->op, e->who, e->x, (unsigned long long)e->a, (unsigned long long)e->b, (unsigned long long)e->c,
      scen->opnames && e->op < scen->nops ? scen->opnames[e->op] : "");
  }
  fprintf(f, "end\n");
  fclose(f);
  return 0;
}
static int plan_read(const char *path, plan_t *p, char *cls, u64 *hash) {
  FILE *f = fopen(path, "r");
  char line[512], id[16] = "";
  if (!f) return -1;
  memset(p, 0, sizeof(*p));
  cls[0] = 0;
  while (fgets(line, sizeof line, f)) {
    unsigned long long s, a, b, c; int op, who; unsigned x;
    if (sscanf(line, "prop %15s", id) == 1) {
      for (scen_t **q = scenarios; *q; q++) if (!strcmp((*q)->id, id)) scen = *q;
    } else if (sscanf(line, "seed %llu", &s) == 1) p->seed = s;
    else if (sscanf(line, "class %95s", cls) == 1) ;
    else if (sscanf(line, "hash %llx", &s) == 1) *hash = s;
    else if (!strncmp(line, "cfg", 3)) {
      char *q = line + 3;
      for (int i = 0; i < NCFG; i++) p->cfg[i] = strtoll(q, &q, 10);
    } else if (sscanf(line, "ev %d %d %u %llu %llu %llu", &op, &who, &x, &a, &b, &c) == 6) plan_add(p, op, who, x, a, b, c);
  }
  fclose(f);
  return scen ? 0 : -1;
}

static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---- minimiser: drop event ranges, then simplify configuration ---------------
static int minimise(plan_t *p, rec_t *r, double budget) {
  double t0 = now();
  char cls[96];
  int tries = 0;
  snprintf(cls, sizeof cls, "%s", r->cls);
  rec_t *t = shm(sizeof(rec_t));
  plan_t *q = malloc(sizeof(plan_t));
  int chunk = p->n / 2;
  while (chunk >= 1 && now() - t0 < budget) {
    int progress = 0;
    for (int i = 0; i < p->n && now() - t0 < budget;) {
      int k = chunk < p->n - i ? chunk : p->n - i;
      *q = *p;
      memmove(&q->ev[i], &q->ev[i + k], sizeof(ev_t) * (size_t)(p->n - i - k));
      q->n -= k;
      run_plan(q, t); tries++;
      if (t->status == 2 && !strcmp(t->cls, cls)) { *p = *q; memcpy(r, t, sizeof(rec_t)); progress = 1; }
      else i += k;
    }
    if (!progress || chunk > 1) { if (chunk == 1) break; chunk = chunk > 1 ? chunk / 2 : 1; }
  }
  for (int i = 0; i < NCFG && now() - t0 < budget; i++) {
    if (!p->cfg[i]) continue;
    *q = *p; q->cfg[i] = 0;
    run_plan(q, t); tries++;
    if (t->status == 2 && !strcmp(t->cls, cls)) { *p = *q; memcpy(r, t, sizeof(rec_t)); }
  }
  free(q);
  munmap(t, sizeof(rec_t));
  return tries;
}

// ---- distinct-state set ----------------------------------------------------
typedef struct { u64 cap, n; u64 *v; } set_t;
static void set_init(set_t *s, u64 cap) { s->cap = cap; s->n = 0; s->v = shm(cap * 8); }
static void set_add(set_t *s, u64 h) {
  if (!h) h = 1;
  if (s->n * 2 > s->cap) return;
  u64 i = (h * 0x9E3779B97F4A7C15ull) & (s->cap - 1);
  while (s->v[i] && s->v[i] != h) i = (i + 1) & (s->cap - 1);
  if (!s->v[i]) { s->v[i] = h; s->n++; }
}

typedef struct {
  u64 runs, fails, known, dup, dup_bad, events, ticks;
  u64 counts[NCOUNT];
  int failed; u64 failseed; char cls[96]; char msg[1024];
  set_t states, hashes;
} wstat_t;

static int is_known(const char *file, const char *prop, const char *cls) {
  FILE *f = file ? fopen(file, "r") : NULL;
  char line[1024]; int hit = 0;
  if (!f) return 0;
  while (!hit && fgets(line, sizeof line, f)) {
    char pid[16], c[96];
    if (sscanf(line, "known: property=%15s class=%95s", pid, c) == 2 && !strcmp(pid, prop) && !strcmp(c, cls)) hit = 1;
  }
  fclose(f);
  return hit;
}

static void jstr(FILE *f, const char *s) {
  fputc('"', f);
  for (; s && *s; s++) {
    if (*s == '"' || *s == '\\') fputc('\\', f);
    if ((unsigned char)*s < 32) fputc(' ', f); else fputc(*s, f);
  }
  fputc('"', f);
}

static void gen_plan(u64 seed, plan_t *p) {
  rng_t r;
  memset(p, 0, sizeof(*p));
  p->seed = seed;
  rng_init(&r, mix(seed, hash_bytes(scen->id, strlen(scen->id), 3)));
  scen->gen(&r, p);
}

int main(int argc, char **argv) {
  const char *hashlog = NULL; if (getenv("SIM_CPU")) CPU_LIMIT = atoi(getenv("SIM_CPU"));
  const char *prop = NULL, *replay = NULL, *outjson = NULL, *rdir = ".", *known = NULL;
  u64 base = 1; long runs = -1, nw = 8; double tlimit = 0; int dump = 0; long one = -1; int noaslr = 1;
  for (int i = 1; i < argc; i++) {
    char *a = argv[i], *v = i + 1 < argc ? argv[i + 1] : "";
    if (!strcmp(a, "--prop")) prop = v, i++;
    else if (!strcmp(a, "--seed")) base = strtoull(v, 0, 10), i++;
    else if (!strcmp(a, "--runs")) runs = atol(v), i++;
    else if (!strcmp(a, "--one")) one = atol(v), i++;
    else if (!strcmp(a, "--workers")) nw = atol(v), i++;
    else if (!strcmp(a, "--time")) tlimit = atof(v), i++;
    else if (!strcmp(a, "--replay")) replay = v, i++;
    else if (!strcmp(a, "--out")) outjson = v, i++;
    else if (!strcmp(a, "--replays")) rdir = v, i++;
    else if (!strcmp(a, "--known")) known = v, i++;
    else if (!strcmp(a, "--hashlog")) hashlog = v, i++;
    else if (!strcmp(a, "--dump")) dump = 1;
    else if (!strcmp(a, "--aslr")) noaslr = 0;
    else if (!strcmp(a, "-v")) verbose = 1;
    else { fprintf(stderr, "unknown argument %s\n", a); return 9; }
  }
  if (noaslr && !getenv("SIM_NOASLR")) {
    int pers = personality(0xffffffff);
    if (pers != -1 && !(pers & ADDR_NO_RANDOMIZE) && personality((unsigned long)pers | ADDR_NO_RANDOMIZE) != -1) {
      setenv("SIM_NOASLR", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  names = shm(sizeof(names_t));
  names_lock = shm(64);
  for (int v = 0; v < MAXVAR; v++) vrec[v] = shm(sizeof(rec_t));
  rec_t *r0 = shm(sizeof(rec_t));
  plan_t *p = malloc(sizeof(plan_t));
  rec = r0;

  if (replay) {
    char cls[96]; u64 hash = 0;
    if (plan_read(replay, p, cls, &hash)) { fprintf(stderr, "cannot read %s\n", replay); return 9; }
    run_plan(p, r0);
    printf("status=%d class=%s hash=%016llx\n%s\n", r0->status, r0->status == 2 ? r0->cls : "-", (unsigned long long)r0->hash, r0->status == 2 ? r0->msg : "ok");
    if (r0->status == 2 && cls[0] && strcmp(cls, r0->cls)) { printf("different failure than recorded (%s)\n", cls); return 1; }
    return r0->status == 2 ? 1 : 0;
  }
  for (scen_t **q = scenarios; *q; q++) if (prop && !strcmp((*q)->id, prop)) scen = *q;
  if (!scen) { fprintf(stderr, "unknown property\n"); return 9; }
  if (runs < 0) runs = scen->quick_runs;
  if (one >= 0) {
    gen_plan(mix(base, (u64)one), p);
    if (dump) { snprintf(r0->cls, 4, "-"); plan_write("/dev/stdout", p, r0, 0); }
    run_plan(p, r0);
    printf("run %ld status=%d class=%s hash=%016llx %s\n", one, r0->status, r0->status == 2 ? r0->cls : "-", (unsigned long long)r0->hash, r0->status == 2 ? r0->msg : "");
    for (int i = 0; i < names->n; i++) if (r0->counts[i] && verbose) printf("   %s=%llu\n", names->names[i], (unsigned long long)r0->counts[i]);
    return r0->status == 2 ? 1 : 0;
  }

  double t0 = now();
  volatile int *stop = shm(64);
  u64 *hl = hashlog ? shm(sizeof(u64) * (size_t)(runs + 1)) : NULL;
  wstat_t *ws = shm(sizeof(wstat_t) * (size_t)nw);
  for (int w = 0; w < nw; w++) { set_init(&ws[w].states, 1 << 20); set_init(&ws[w].hashes, 1 << 18); }
  for (int w = 0; w < nw; w++) {
    pid_t pid = fork();
    if (pid) continue;
    rec_t *r = shm(sizeof(rec_t));
    for (int v = 0; v < MAXVAR; v++) vrec[v] = shm(sizeof(rec_t));
    wstat_t *s = &ws[w];
    for (long i = w; i < runs && !*stop; i += nw) {
      if (tlimit > 0 && now() - t0 > tlimit) break;
      u64 seed = mix(base, (u64)i);
      gen_plan(seed, p);
      run_plan(p, r);
      u64 h1 = r->hash;
      s->runs++; s->events += (u64)p->n; s->ticks += r->ticks;
      for (int k = 0; k < NCOUNT; k++) s->counts[k] += r->counts[k];
      for (int k = 0; k < r->nstates; k++) set_add(&s->states, r->states[k]);
      set_add(&s->hashes, h1);
      if (hl) hl[i] = h1 ? h1 : 1;
      if (r->status == 2) {
        if (is_known(known, scen->id, r->cls)) { s->known++; continue; }
        s->fails++;
        s->failed = 1; s->failseed = seed;
        memcpy(s->cls, r->cls, sizeof s->cls); memcpy(s->msg, r->msg, sizeof s->msg);
        *stop = 1;
        break;
      }
      if (i < 24 || i % 64 == 0) { // same seed twice: must be the same execution
        run_plan(p, r);
        s->dup++;
        if (r->hash != h1) s->dup_bad++;
      }
    }
    _exit(0);
  }
  while (wait(NULL) > 0 || errno == EINTR) ;
  double el = now() - t0;

  if (hl) { FILE *hf = fopen(hashlog, "w"); for (long i = 0; hf && i < runs; i++) if (hl[i]) fprintf(hf, "%ld %016llx\n", i, (unsigned long long)hl[i]); if (hf) fclose(hf); }
  wstat_t T; memset(&T, 0, sizeof T);
  set_init(&T.states, 1 << 22); set_init(&T.hashes, 1 << 20);
  int best = -1;
  for (int w = 0; w < nw; w++) {
    wstat_t *s = &ws[w];
    T.runs += s->runs; T.fails += s->fails; T.known += s->known; T.dup += s->dup; T.dup_bad += s->dup_bad; T.events += s->events; T.ticks += s->ticks;
    for (int k = 0; k < NCOUNT; k++) T.counts[k] += s->counts[k];
    for (u64 k = 0; k < s->states.cap; k++) if (s->states.v[k]) set_add(&T.states, s->states.v[k]);
    for (u64 k = 0; k < s->hashes.cap; k++) if (s->hashes.v[k]) set_add(&T.hashes, s->hashes.v[k]);
    if (s->failed && best < 0) best = w;
  }
  char path[600] = ""; int reproduced = 0, tries = 0;
  if (best >= 0) {
    gen_plan(ws[best].failseed, p);
    run_plan(p, r0);
    if (r0->status != 2) run_plan(p, r0);
    if (r0->status == 2) {
      int n0 = p->n;
      tries = minimise(p, r0, 60);
      run_plan(p, r0);
      u64 h = r0->hash;
      run_plan(p, r0);
      reproduced = r0->status == 2 && r0->hash == h;
      snprintf(path, sizeof path, "%s/%s-%016llx.replay", rdir, scen->id, (unsigned long long)p->seed);
      plan_write(path, p, r0, h);
      printf("violation %s class=%s events=%d(of %d) seed=%llu tries=%d exact=%d\n  %s\n", scen->id, r0->cls, p->n, n0, (unsigned long long)p->seed, tries, reproduced, r0->msg);
    } else {
      // Failed once, not when repeated: keep the whole plan as the replay file.
      snprintf(r0->cls, sizeof r0->cls, "%s", ws[best].cls); snprintf(r0->msg, sizeof r0->msg, "%s", ws[best].msg);
      snprintf(path, sizeof path, "%s/%s-%016llx.replay", rdir, scen->id, (unsigned long long)p->seed);
      plan_write(path, p, r0, 0);
      printf("unstable failure %s class=%s: %s\n", scen->id, ws[best].cls, ws[best].msg);
    }
  }
  FILE *f = outjson ? fopen(outjson, "w") : NULL;
  if (f) {
    fprintf(f, "{\"property\":\"%s\",\"runs\":%llu,\"fails\":%llu,\"known\":%llu,\"determinism_rechecks\":%llu,\"determinism_mismatches\":%llu,\"events\":%llu,\"ticks\":%llu,\"distinct_states\":%llu,\"distinct_executions\":%llu,\"wall\":%.3f,\"replay\":",
      scen->id, (unsigned long long)T.runs, (unsigned long long)T.fails, (unsigned long long)T.known, (unsigned long long)T.dup, (unsigned long long)T.dup_bad,
      (unsigned long long)T.events, (unsigned long long)T.ticks, (unsigned long long)T.states.n, (unsigned long long)T.hashes.n, el);
    jstr(f, path);
    fprintf(f, ",\"class\":"); jstr(f, best >= 0 ? r0->cls : "");
    fprintf(f, ",\"message\":"); jstr(f, best >= 0 ? r0->msg : "");
    fprintf(f, ",\"exact\":%d,\"real\":", reproduced); jstr(f, scen->real);
    fprintf(f, ",\"stub\":"); jstr(f, scen->stub);
    fprintf(f, ",\"measure\":"); jstr(f, scen->measure);
    fprintf(f, ",\"counts\":{");
    int first = 1;
    for (int k = 0; k < names->n; k++) { fprintf(f, "%s", first ? "" : ","); jstr(f, names->names[k]); fprintf(f, ":%llu", (unsigned long long)T.counts[k]); first = 0; }
    fprintf(f, "}}\n");
    fclose(f);
  }
  printf("%s: runs=%llu executions=%llu states=%llu rechecks=%llu mismatches=%llu fails=%llu known=%llu wall=%.1f\n", scen->id, (unsigned long long)T.runs,
    (unsigned long long)T.hashes.n, (unsigned long long)T.states.n, (unsigned long long)T.dup, (unsigned long long)T.dup_bad, (unsigned long long)T.fails, (unsigned long long)T.known, el);
  return best >= 0 ? 1 : 0;
}
