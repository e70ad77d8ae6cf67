#define CTT_SLICE 8
#define CTT_FILE "ctt_cases_8.inc"
#include "ctt_slice.inc"
