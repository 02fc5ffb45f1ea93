// A small multi-party world: parties that own pairings and exchange bytes.
#ifndef SIM_WORLD_H
#define SIM_WORLD_H
#include "kit.h"
enum { NS = 5, NB = 4, MAXN = 4, MAXMSG = 16, MSGB = 4096 };
enum { GZ, G1_, G2_, GT_ };
typedef struct { mpz_t c[NB * NB]; } vec_t;   // Zr: c[0]; G1/G2: c[0..NB); GT: NB*NB
typedef struct { int used, grp, len, kind; unsigned char b[MSGB]; vec_t m; } msg_t;
typedef struct {
  int up, backend, method;
  pairing_t pr;
  element_t s[4][NS];
  vec_t m[4][NS];
  // disk image
  int saved; int dlen[4][NS]; unsigned char *disk[4][NS]; vec_t dm[4][NS];
  rsrc_t rs;
} node_t;
typedef struct {
  const fam_t *f;
  int model;               // check against the reference model
  int quiet;               // 1: no transcript
  int nn;
  node_t n[MAXN];
  pairing_t ob; int ob_own;
  element_t base1[NB], base2[NB]; element_t baseT[NB * NB]; int haveT[NB * NB];
  unsigned char hmsg[NB][256]; int hlen[NB];
  rcurve_t rc; rpt_t rbase[NB];
  rsrc_t obrs;
  msg_t msg[MAXMSG];
  u64 seed;
} world_t;
enum {
  W_ZR, W_GOP, W_POW, W_POW2, W_POW3, W_PP, W_SETBASE, W_HASH, W_PAIR, W_PAIRPP, W_PROD, W_CODDH, W_CMP, W_MULTI,
  W_RANDOM, W_SEND, W_DELIVER, W_DROP, W_PERSIST, W_CRASH, W_RESTART, W_RNGFAULT, W_GTHASH, W_PRINT, W_SWAPPAIR, W_NOPS
};
extern const char *const world_ops[];
void world_init(world_t *w, const fam_t *f, u64 seed, int nn, const int *backend, const int *method, int model);
void world_event(world_t *w, const ev_t *e);
void world_check_all(world_t *w);
void world_clear(world_t *w);
void world_gen_event(rng_t *r, plan_t *p, int nn);
void world_gen(rng_t *r, plan_t *p, int nev, int nn);
void node_up(world_t *w, int i);
void node_down(world_t *w, int i);
field_ptr world_field(pairing_ptr p, int g);
extern int world_own_observer; // keep the dealer in its own instance even without a model
u64 world_state(world_t *w);
#endif
