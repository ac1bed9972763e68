#include "c15_calls.c"
