#define CTT_SLICE 2
#define CTT_FILE "ctt_cases_2.inc"
#include "ctt_slice.inc"
