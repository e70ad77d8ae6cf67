#define CTT_SLICE 5
#define CTT_FILE "ctt_cases_5.inc"
#include "ctt_slice.inc"
