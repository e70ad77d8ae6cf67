#define CTM_SLICE 7
#include "lib_ctmN.inc"
