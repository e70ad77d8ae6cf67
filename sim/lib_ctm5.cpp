#define CTM_SLICE 5
#include "lib_ctmN.inc"
