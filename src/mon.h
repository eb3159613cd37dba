/* Program generator, sequential reference model and monitors. Compiled without instrumentation. */
#ifndef MON_H
#define MON_H
#include <stdint.h>
#include <stddef.h>
#include "rt.h"
#ifdef __cplusplus
extern "C" {
#endif
#define MAXOPS 40
#define MAXOUT 24
#define MAXWK 72
enum { OP_SPAWN, OP_SYNC, OP_DROP, OP_CALL, OP_RUN, OP_PLAIN, OP_NEWFRAME, OP_TOGETHER, OP_YIELD, OP_STEAL, OP_SHARE, OP_WORK, OP_STATUS, OP_PAUSE, OP_N };
enum { NF_NOFRAME = 1 };                           /* no interrupting operations in this subtree */
typedef struct { uint8_t kind, tag; uint8_t flags; int budget; uint64_t seed; } Op;

typedef struct Frame { struct Frame *parent; int id, kind, n; int started, done; uint8_t ran[MAXWK]; } Frame;

typedef struct NodeM {
    /* immutable after creation */
    uint64_t seed; int budget, depth, fdepth, flags, tag; uint64_t expect;
    Frame *frame; int is_frame_root; struct NodeM *parent; int id; int kind; int ext;
    uint64_t *c;                 /* tracked user data: c[0],c[1] in; c[2],c[3] out; c[4] private */
    /* monitor state */
    int started, finished, spawner, executor, dropped, synced, seen_stolen;
} NodeM;

typedef struct Tog {
    Frame *frame; int n, rounds, reuse; NodeM *nodes[MAXWK]; uint64_t a; uint32_t b;
    uint64_t *cells;             /* tracked: 2*n */
    int enter[64]; int ret, ext;
} Tog;

typedef struct Profile {
    const char *name;
    double w[OP_N];              /* weights of operations inside nodes */
    int bmin, bmax;              /* node budget of a root program */
    int maxdepth, maxframe;
    int nw[8]; int nnw;          /* numbers of workers to choose from */
    int cmin, cmax;              /* external client threads next to the main thread */
    int opsmin, opsmax;          /* operations of each client */
    double cw[6];                /* RUN, RUNEX, NEWFRAME, TOGETHER, suspend/resume pair, nap */
    int cycles;                  /* start/stop cycles at most */
    int togrounds; int fan;      /* barrier rounds; maximum outstanding */
    int isolate;                 /* check frame isolation */
    int lifecycle;               /* resources must be released by lace_stop */
    int eintr;                   /* blocking semaphore waits are interrupted */
} Profile;
enum { CO_RUN, CO_RUNEX, CO_NEWFRAME, CO_TOGETHER, CO_SUSPEND, CO_NAP };

extern const Profile *PR;
typedef struct { uint64_t nodes, spawns, synced, drops, drops_run, stolen, frames, togs, togcopies, rounds, runs, runex, extnf, exttog, suspends, sleeps, starts, status, status_stolen, status_completed, steps, nodes_in_frames, concurrent_ext, maxext, kinds[OP_N], cops[6], leapdeep; } MonStats;
extern MonStats ms;

void mon_reset(uint64_t seed, const Profile *p);
int gen_ops(const NodeM *n, Op *ops);
NodeM *mk_root(uint64_t seed, int budget, int flags);
NodeM *mk_child(NodeM *p, const Op *op);
Tog *mk_tog(NodeM *p, const Op *op, uint64_t seed, int flags, int budget, int nworkers);
uint64_t mix(uint64_t a, uint64_t b);
/* events */
void m_spawn(NodeM *c);                       /* about to be spawned by the calling thread */
void m_start(NodeM *n, int isworker);
void m_step(NodeM *n);
void m_end(NodeM *n, uint64_t r);
void m_synced(NodeM *n, uint64_t r, int has_r);
void m_called(NodeM *n, uint64_t r);
void m_dropped(NodeM *n);
void m_status(NodeM *n, int stolen, int completed, uint64_t res, int has_res);
void m_tog_start(Tog *t, int worker, uint64_t a, uint32_t b);
void m_tog_end(Tog *t, int worker);
void m_tog_returned(Tog *t);
void m_bar_enter(Tog *t, int r); void m_bar_leave(Tog *t, int r);
void m_ext_begin(int excl); void m_ext_end(int excl);  /* body of a task offered from outside */
int m_zget(NodeM *n, int first, int count); void m_zput(int i); NodeM *m_znode(int i);
void m_op(int kind); void m_cop(int kind); void m_slept(void); void m_cycle(int nworkers);
void m_worker(unsigned id, int isworker);
void mk_extframe(NodeM *n);
void m_final(int quiet);
uint64_t *mon_cells(int n);
void mon_print_stats(void);   /* JSON members */
void mon_print_delta(const MonStats *before, uint64_t hash, uint64_t steps);  /* one line per execution */
#ifdef __cplusplus
}
#endif
#endif
