#define CTM_SLICE 8
#include "lib_ctmN.inc"
