/* Runtime interface shared by the simulated (controlled scheduler) and the native engine. */
#ifndef RT_H
#define RT_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
/* report a violation and end the process (exit 1) */
void rt_fail(const char *kind, const char *fmt, ...) __attribute__((noreturn, format(printf,2,3)));
/* report that nothing can be concluded (exit 3) */
void rt_inconclusive(const char *fmt, ...) __attribute__((noreturn, format(printf,1,2)));
int rt_tid(void);              /* small integer identity of the current thread */
int rt_is_sim(void);
void rt_track(void *base, size_t len);   /* region of user data watched by the happens-before detector */
void rt_pause(void);           /* a scheduling point offered by the harness itself */
/* let everybody else run until no thread created by lace_start is runnable any more; returns 0 if that
 * never happens within the bound */
int rt_wait_workers_asleep(void);
int rt_workers_awake(void);    /* number of lace worker threads not blocked (sim only) */
void rt_lace_region(int on);   /* threads created while on are Lace workers */
int rt_live_workers(void);     /* Lace worker threads that have not terminated */
int rt_workers_created(void);  /* since the last call of rt_lace_region(1) */
uint64_t rt_rand(void);        /* randomness for the harness (never shared with the scheduler) */
void rt_work(uint64_t seed);   /* some work */
int rt_settle(int unused);      /* after lace_stop: number of Lace threads not released */
int rt_live_allocs(void);       /* blocks of memory held by Lace (simulated engine; 0 otherwise) */
#ifdef __cplusplus
}
#endif
#endif
