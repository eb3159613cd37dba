#ifndef SIM_H
#define SIM_H
#include <stdint.h>
#include <stddef.h>
typedef struct {
    double qmean;       /* mean number of operations between scheduling decisions */
    double pstall;      /* probability, per decision, that the running thread is stalled */
    uint64_t stallmax;  /* longest stall in steps */
    double reweight;    /* probability, per decision, of a new scheduling weight for the running thread */
    int tso, hb;        /* store buffers; happens-before detector */
    int spurious;       /* spurious weak CAS failures and condition wake-ups */
    int eintr;          /* one in so many blocking semaphore waits returns EINTR; 0 never */
    int fail_create;    /* which pthread_create of lace_start fails; 0 none */
    int fail_alloc;     /* which allocation fails; 0 none */
    int crash_ok;
    uint64_t soft, hard;/* step limits: arbitrary schedule, then fair schedule */
    int wall; uint64_t report_seed;
} sim_cfg;
typedef struct { uint64_t steps, switches, stalls, atomics, buffered, casfail, spurious, eintr, sems, user_accesses, lace_accesses, allocs, creates_seen; int create_failed, alloc_failed; } sim_stats;
extern sim_stats simstats;
extern int sim_lace_races;   /* also judge accesses of Lace to its own memory */
void sim_init(void);
uint64_t sim_execute(uint64_t seed, const sim_cfg *cfg, void (*fn)(void *), void *arg);
struct _IO_FILE *sim_stdout(void);
void sim_on_exit(void (*cb)(int));
int sim_live_allocs(void); size_t sim_live_bytes(void);
size_t sim_thread_attr_stack(int id);
int sim_unreleased_threads(void);
int sim_thread_is_lace(int id);
int sim_nthreads(void);
void sim_freeze_after(int id, uint64_t ops); void sim_thaw(void); void sim_weight(int id,double w); int sim_frozen(int id); uint64_t sim_ops(int id);
void rt_wait_others(uint64_t ops);
#endif
