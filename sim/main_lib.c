#include "core.h"
#define S(x) extern scen_t scen_##x;
#include "scen.inc"
#undef S
#define S(x) &scen_##x,
scen_t *scenarios[] = {
#include "scen.inc"
NULL };
