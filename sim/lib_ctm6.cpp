#define CTM_SLICE 6
#include "lib_ctmN.inc"
