// P04 with workers that never sleep
#define PARLAY_ELASTIC_PARALLELISM false
#include "u_life.cpp"
