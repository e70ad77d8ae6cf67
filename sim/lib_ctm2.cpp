#define CTM_SLICE 2
#include "lib_ctmN.inc"
