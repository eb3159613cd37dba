#ifndef G_H
#define G_H
#include <stdint.h>
#include "rt.h"
#include "sim.h"
extern uint64_t g_events, g_aux[8]; extern const char *g_profile;
uint64_t g_mix(uint64_t a, uint64_t b);
void gadget(void *seed);
void g_prepare(uint64_t seed, sim_cfg *c);
#endif
