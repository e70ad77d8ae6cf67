#define CTM_SLICE 4
#include "lib_ctmN.inc"
