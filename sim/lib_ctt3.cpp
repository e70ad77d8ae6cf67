#define CTT_SLICE 3
#define CTT_FILE "ctt_cases_3.inc"
#include "ctt_slice.inc"
