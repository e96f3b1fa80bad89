// P04 with workers that fall asleep after 20 microseconds without work
#define PARLAY_ELASTIC_STEAL_TIMEOUT 20
#include "u_life.cpp"
