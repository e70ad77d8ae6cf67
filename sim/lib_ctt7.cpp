#define CTT_SLICE 7
#define CTT_FILE "ctt_cases_7.inc"
#include "ctt_slice.inc"
