#define CTT_SLICE 6
#define CTT_FILE "ctt_cases_6.inc"
#include "ctt_slice.inc"
