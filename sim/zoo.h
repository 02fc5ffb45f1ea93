// Every element kind the library offers outside pairing groups, with a uniform value hash.
#ifndef SIM_ZOO_H
#define SIM_ZOO_H
#include "kit.h"
#include "pbc_poly.h"
#include "pbc_fieldquadratic.h"
#include "pbc_ternary_extension_field.h"
#include "pbc_multiz.h"
#include "pbc_z.h"
enum { ZK_FP, ZK_FI, ZK_QUAD, ZK_PMOD, ZK_PMODQ, ZK_QPMOD, ZK_POLY, ZK_Z, ZK_MULTIZ, ZK_GF3, ZK_GF32, ZK_GF33, ZK_N };
enum { ZC_BYTES = 1, ZC_STR = 2, ZC_INV = 4, ZC_RAND = 8, ZC_HASH = 16, ZC_SQRT = 32, ZC_FIN = 64, ZC_SI = 128, ZC_SGN = 256, ZC_SNP = 512, ZC_SUBOK = 1024 };
typedef struct { int kind; int nf; field_t f[4]; int npoly; element_t poly[2]; field_ptr F; unsigned caps; int bits; mpz_t p; int deg; } zoo_t;
extern const char *const zoo_names[];
void zoo_prime(mpz_t p, u64 seed, int bits, int mod4);
void zoo_open(zoo_t *z, int kind, u64 seed, int backend, int maxbits);
void zoo_close(zoo_t *z);
u64 canon(element_ptr e);
int zoo_op(zoo_t *z, element_t *s, int ns, u64 a, u32 x); // returns the destination slot
int zoo_kind_pick(rng_t *r);
#endif
