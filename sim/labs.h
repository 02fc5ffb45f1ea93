// Self-contained workloads over every part of the library. A lab creates everything it
// uses, reports what it observed, and clears everything. No state outside lab_t.
#ifndef SIM_LABS_H
#define SIM_LABS_H
#include "world.h"
#include "zoo.h"
enum { L_PAIR, L_PAIRREAL, L_ZOO, L_GENA, L_GENA1, L_GENE, L_GENF, L_GEND, L_GENG, L_GENI, L_PARAM, L_POLY, L_DLOG, L_SQRT, L_BAD, L_PRINT, L_HILBERT, L_TYPEI, L_MULTIZ, L_PP, L_INFO, L_N };
typedef struct { u64 seed; int be; int notr; u64 h; u64 n; u64 rh; rng_t r; int notext; } lab_t; // rh: randomised values only
#define LAB_NAMES "pairing_session", "real_pairing_session", "field_session", "generate_a", "generate_a1", "generate_e", "generate_f", "generate_d", "generate_g", "generate_i", "load_parameters", "polynomials", "discrete_log", "square_roots", "bad_bytes", "printing", "class_polynomial", "ternary_session", "integer_lists", "precomputation", "field_info"
extern const char *const lab_names[];
void lab_run(lab_t *L, int kind);
int lab_pick(rng_t *r, u64 mask);
int lab_cost(int kind);
#define LM(k) (1ull << (k))
#define L_ALL ((1ull << L_N) - 1)
#define L_GENS (LM(L_GENA) | LM(L_GENA1) | LM(L_GENE) | LM(L_GENF) | LM(L_GEND) | LM(L_GENG) | LM(L_GENI))
void stdout_mute(void);
#endif
