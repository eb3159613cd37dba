#ifndef H_H
#define H_H
#include "mon.h"
#ifdef __cplusplus
extern "C" {
#endif
void scenario(void *seed);   /* one complete history: start, clients, stop; arg points to a uint64_t */
#ifdef __cplusplus
}
#endif
#endif
