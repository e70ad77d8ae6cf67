#define CTT_SLICE 4
#define CTT_FILE "ctt_cases_4.inc"
#include "ctt_slice.inc"
