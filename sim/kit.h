// Shared kit: embedded parameter sets, reference arithmetic, small helpers.
#ifndef SIM_KIT_H
#define SIM_KIT_H
#include "core.h"
#include "pbc.h"
#include "pbc_fp.h"
#include "pbc_memory.h"

typedef struct {
  const char *name, *text;
  char type;       // 'a','1' (a1),'d','e','f','g','i'
  int toy;
  int sym, g2quot, wire, curve; // G1==G2; G2 is a quotient; byte codecs exist; groups are curve.c curves
} fam_t;
extern const fam_t fams[];
extern const int nfams;
int fam_pick(rng_t *r, int allow_i, int real_num, int real_den);
extern char *const backends[4];
int nmethods(const fam_t *f);
char *method_name(const fam_t *f, int m);
int fam_param(const fam_t *f, const char *key, mpz_t out);  // value of a field in the text

// ---- reference curve over F_q with plain GMP arithmetic -----------------
typedef struct { mpz_t q, a, b; } rcurve_t;
typedef struct { int inf; mpz_t x, y; } rpt_t;
void rcurve_init(rcurve_t *c, const fam_t *f);
void rpt_init(rpt_t *p);
void rpt_set(rpt_t *d, const rpt_t *s);
void rpt_add(const rcurve_t *c, rpt_t *d, const rpt_t *p, const rpt_t *q);
void rpt_mul(const rcurve_t *c, rpt_t *d, const rpt_t *p, const mpz_t k);
int rpt_on(const rcurve_t *c, const rpt_t *p);
void rpt_from_bytes(rpt_t *p, const unsigned char *b, int len);
void rpt_to_bytes(unsigned char *b, const rpt_t *p, int len);

// result of add-only chain: out = sum, using only element_add/element_double-by-add
void chain_mul(element_t out, element_t base, const mpz_t k, int mult);

void hexlog(const char *tag, const unsigned char *b, int n);
// n bytes that end at an unmapped page; edge_lock makes them read-only
unsigned char *edge_buf(int slot, size_t n, int fill);
void edge_lock(int slot, int ro);
u64 elem_hash(element_t e);        // hash of observable bytes+flags (curve O handled)
#endif
