#define CTM_SLICE 3
#include "lib_ctmN.inc"
