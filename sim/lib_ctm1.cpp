#define CTM_SLICE 1
#include "lib_ctmN.inc"
