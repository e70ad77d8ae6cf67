#define CTT_SLICE 1
#define CTT_FILE "ctt_cases_1.inc"
#include "ctt_slice.inc"
