#include "labs.h"
#include <unistd.h>
#include <sys/wait.h>
// P09: tasks with their own pairings, interleaved, against each task alone in a process.
enum { C_BE, C_N, C_DEN, C_GAP, C_REUSE };
enum { O_TASK, O_FAULT, O_N };
static const char *const ops[] = { "task_workload", "entropy_fault" };
enum { MT = 6 };
// class polynomials (and generation from them) keep numeric constants per process: outside
#define OKLABS (L_ALL & ~(LM(L_HILBERT) | LM(L_GEND) | LM(L_GENG)))
static void gen(rng_t *r, plan_t *p) {
  p->cfg[C_BE] = rng_n(r, 4); int n = 2 + (int)rng_n(r, 3); p->cfg[C_N] = n; static const int den[] = { 1, 2, 5, 20, 100 }; p->cfg[C_DEN] = den[rng_n(r, 5)]; p->cfg[C_REUSE] = rng_n(r, 3);
  static const int gap[] = { 3, 20, 100, 1000, 10000 }; p->cfg[C_GAP] = gap[rng_n(r, 5)];
  int same = rng_p(r, 1, 2), l0 = -1; u64 a0 = 0, budget = 40;
  for (int i = 0; i < n; i++) for (int k = 1 + (int)rng_n(r, 2); k; k--) {
    int l; do l = lab_pick(r, rng_p(r, 1, 2) ? LM(L_PAIR) | LM(L_PP) | LM(L_BAD) | LM(L_PRINT) | LM(L_TYPEI) : OKLABS); while (lab_cost(l) > 30 || (lab_cost(l) > 1 && (!rng_p(r, 1, lab_cost(l) > 2 ? 8 : 2) || (u64)lab_cost(l) > budget)));
    u64 a = rng_next(r); if (same && l0 >= 0 && rng_p(r, 2, 3)) { l = l0; if (rng_p(r, 1, 2)) a = a0; } l0 = l; a0 = a; budget -= (u64)lab_cost(l) > budget ? budget : (u64)lab_cost(l);
    if (rng_p(r, 1, 6)) plan_add(p, O_FAULT, i, rng_n(r, NRM), 1 + rng_n(r, 6), 0, 0);
    plan_add(p, O_TASK, i, (u32)l, a, 0, 0);
  }
}
static plan_t *P; static int be; static u64 H[MT], N[MT]; static rsrc_t src[MT]; static int solo = -1;
static int who(void) { int f = fiber_current(); return f >= 0 ? f : solo; }
static void draw(mpz_t z, mpz_t limit, void *d) { int w = who(); rsrc_draw(z, limit, &src[w < 0 ? 0 : w]); }
static void task(void *arg) {
  int id = (int)(long)arg;
  for (int i = 0; i < P->n; i++) {
    ev_t *e = &P->ev[i]; if ((int)e->who % MT != id) continue;
    if (e->op == O_FAULT) { rsrc_fault(&src[id], (int)(e->x % NRM), (long)(e->a % 8)); continue; }
    lab_t L; memset(&L, 0, sizeof L); L.seed = e->a; L.be = be; L.notr = 1; L.notext = 0;
    int kind = (int)(e->x % L_N); if (!(OKLABS >> kind & 1)) continue;
    lab_run(&L, kind); H[id] = mix(H[id], L.h); N[id] += L.n;
  }
}
static void run(plan_t *p, int v) {
  P = p; be = (int)p->cfg[C_BE] & 3; stdout_mute(); amode_t m = { FILL_A5, 0, (int)p->cfg[C_REUSE] % 3, p->seed }; arena_install(&m);
  pbc_tweak_use_fp(backends[be]); pbc_random_set_function(draw, NULL);
  for (int i = 0; i < MT; i++) { rsrc_init(&src[i], p->seed ^ ((u64)i * 7777)); H[i] = N[i] = 0; }
  ev_begin(0, p->n ? &p->ev[0] : NULL);
  if (!v) { // each task alone in its own process
    for (int i = 0; i < MT; i++) {
      int has = 0; for (int k = 0; k < p->n; k++) if (p->ev[k].op == O_TASK && (int)p->ev[k].who % MT == i) has = 1; if (!has) continue;
      int fd[2]; if (pipe(fd)) sim_fail("pipe", "no pipe"); pid_t c = fork();
      if (!c) { close(fd[0]); solo = i; task((void *)(long)i); u64 o[2] = { H[i], N[i] }; if (write(fd[1], o, sizeof o) != sizeof o) _exit(1); _exit(0); }
      close(fd[1]); u64 o[2]; ssize_t k = read(fd[0], o, sizeof o); close(fd[0]); int st; waitpid(c, &st, 0);
      if (k != sizeof o) sim_fail("alone", "task %d does not finish even on its own (status %d)", i, st);
      tr((u32)i, o[0]); tr((u32)i, o[1]);
    }
    return;
  }
  rng_t s; rng_init(&s, p->seed ^ (0x9090 + (u64)v)); u64 h, sw; int n = 0;
  for (int i = 0; i < MT; i++) { fiber_spawn(task, (void *)(long)i); n++; }
  fiber_cov((long)p->cfg[C_GAP]);
  fiber_run_all(&s, 1, p->cfg[C_DEN] > 0 ? (int)p->cfg[C_DEN] : 1, &h, &sw);
  for (int i = 0; i < MT; i++) { int has = 0; for (int k = 0; k < p->n; k++) if (p->ev[k].op == O_TASK && (int)p->ev[k].who % MT == i) has = 1; if (has) { tr((u32)i, H[i]); tr((u32)i, N[i]); } }
  state(h); sim_time(sw); if (sw) count("fault.task_switch_run"); ev_begin(p->n, NULL);
}
scen_t scen_p09 = { "P09", "interleaved callers", 3, gen, run, ops, O_N,
  "pairings, elements, precomputation, parsing, printing, field, polynomial and generation calls of 2-4 tasks; every switch decided by the seeded scheduler",
  "threads (one operating-system thread, seeded switches at every allocation, release and random draw, and at basic blocks in the trace build), allocator, per-task random source",
  "distinct schedules (hash of the sequence of switches)", 0, 0 };
