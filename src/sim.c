/*
 * lacesim: a controlled execution environment for the real, unmodified Lace sources.
 *
 * Lace and the harness are compiled by clang with -fsanitize=thread, but linked against this file
 * instead of the ThreadSanitizer runtime.  Every instrumented plain access and every atomic operation of
 * the real code therefore calls into here, which
 *   - makes all threads fibers of one OS thread and decides after every operation who runs next
 *     (seeded random scheduling with random quanta, weights and long stalls; replayable from the seed);
 *   - keeps atomic stores weaker than seq_cst in a per-thread FIFO store buffer (x86-TSO), so that a
 *     missing fence becomes observable;
 *   - maintains C11 happens-before with vector clocks and reports unordered conflicting accesses to the
 *     regions of user data registered by the harness;
 *   - replaces pthread threads, mutexes, condition variables, semaphores, and allocation, optionally
 *     injecting faults (EINTR, spurious wake-ups, spurious weak CAS failure, failing thread creation).
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdbool.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include "rt.h"
#include "sim.h"

#define MAXF 80
#define STK (512*1024)
#define NTLS 64
#define SBMAX 8

typedef struct { uint32_t c[MAXF]; } VC;

typedef struct { uintptr_t a; uint64_t v; uint8_t sz; uint8_t rel; uint64_t due; VC *vc; } SBEnt;

enum { F_FREE, F_RUN, F_BLOCK, F_DONE };

typedef struct Fiber {
    void *sp; char *stk; int id, state, is_lace, detached, joined, fair;
    void *(*fn)(void *); void *arg, *ret;
    VC vc, relacq, relfence; bool has_relfence, has_relacq;
    SBEnt sb[SBMAX]; int sbn; VC sbvc[SBMAX];
    void *tls[NTLS];
    double w; uint64_t stall;
    const void *bobj; const char *bwhy; int is_sleep;
    int err; size_t attr_stack;
    uint64_t ops, freeze_at; int frozen;
} Fiber;

static Fiber F[MAXF];
static int nf, cur;
static uint64_t steps, steps_limit, hard_limit; static int64_t quantum;
static int fairmode, latefair, running;
static sim_cfg C;
sim_stats simstats;
static int lace_region, lace_created;
static uint64_t cur_seed;
static uint64_t sched_hash;
static uint64_t rs, hs; /* scheduler rng, harness rng */

static inline uint64_t sm(uint64_t *s)
{ uint64_t z=(*s+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
static inline uint64_t R(void){ return sm(&rs); }
static inline double RD(void){ return (R()>>11)*(1.0/9007199254740992.0); }
uint64_t rt_rand(void){ return sm(&hs); }

static void (*exit_cb)(int);
static int trace;
#define TR(...) do{ if(trace && running) { printf("T%d %llu ",cur,(unsigned long long)steps); printf(__VA_ARGS__); printf("\n"); } }while(0)
static void trace_init(void){ trace=getenv("SIM_TRACE")!=0; }
/* ------------------------------------------------------------------ verdicts */
static FILE *real_stdout; FILE *sim_stdout(void){ return real_stdout?real_stdout:stdout; }
static void finish(int code){ stdout=sim_stdout(); fflush(stdout); fflush(stderr); _exit(code); }
void rt_fail(const char *kind, const char *fmt, ...)
{
    char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    for (char *p=b;*p;p++) if (*p=='\n') *p=' ';
    stdout=sim_stdout();
    printf("\nSIMFAIL kind=%s iter_seed=%llu steps=%llu tid=%d :: %s\n", kind,(unsigned long long)cur_seed,(unsigned long long)steps,cur,b);
    for (int i=0;i<nf;i++) printf("SIMTHREAD %d state=%d lace=%d ops=%llu wait=%s\n", i,F[i].state,F[i].is_lace,(unsigned long long)F[i].ops,F[i].state==F_BLOCK?F[i].bwhy:"-");
    finish(1);
}
void rt_inconclusive(const char *fmt, ...)
{
    char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    stdout=sim_stdout();
    printf("\nSIMINCONCLUSIVE iter_seed=%llu :: %s\n",(unsigned long long)cur_seed,b); finish(3);
}

static void onsig(int s, siginfo_t *si, void *u)
{
    (void)u;
    if (s==SIGALRM) rt_inconclusive("wall-clock watchdog");
    if (running && C.crash_ok && s==SIGABRT && exit_cb) { void(*cb)(int)=exit_cb; exit_cb=0; cb(134); finish(0); }
    rt_fail(s==SIGSEGV?"segv":s==SIGABRT?"abort":s==SIGFPE?"fpe":s==SIGILL?"trap":"signal","signal %d at address %p",s,si->si_addr);
}

/* ------------------------------------------------------------------ vector clocks */
static inline void vjoin(VC *a, const VC *b){ for(int i=0;i<nf;i++) if(b->c[i]>a->c[i]) a->c[i]=b->c[i]; }

#define SVN 16384
/* Release sequences of one location (4-byte granule). vc: what an acquire gets; own: the part contributed by the
 * thread of the last plain atomic store; rm: the part contributed by the last read-modify-write.  By C11 5.1.2.4 a
 * release sequence is continued by read-modify-writes and by stores of the thread that heads it. */
typedef struct { uintptr_t g; uint32_t gen; int16_t last, rmf; uint8_t has, hasown, hasrm; VC vc, own, rm; } SV;
static SV sv[SVN]; static uint32_t svgen=1; static int svused;
static SV *svget(uintptr_t g, int make)
{
    size_t h=(g*0x9E3779B97F4A7C15ULL)>>50;
    for(;;h=(h+1)&(SVN-1)) {
        SV *s=&sv[h];
        if (s->gen!=svgen) {
            if(!make) return 0;
            if (++svused > SVN*3/4) rt_inconclusive("sync table full");
            s->gen=svgen; s->g=g; s->last=s->rmf=-1; s->has=s->hasown=s->hasrm=0; return s; }
        if (s->g==g) return s;
    }
}
static inline void tick(Fiber*f){ f->vc.c[f->id]++; }
/* acquire side of a load */
static void hb_load(Fiber *f, uintptr_t a, int sz, bool acq)
{
    if (!C.hb) return;
    for (uintptr_t g=a>>2; g<=(a+sz-1)>>2; g++) { SV *s=svget(g,0); if(s&&s->has){ if(acq) vjoin(&f->vc,&s->vc); else { if(!f->has_relacq) memset(&f->relacq,0,sizeof(VC)); vjoin(&f->relacq,&s->vc); f->has_relacq=1; } } }
}
static void hb_store_vc(int fid, const VC *rel, uintptr_t a, int sz)
{
    for (uintptr_t g=a>>2; g<=(a+sz-1)>>2; g++) {
        SV *s=svget(g,1);
        if (rel) {   /* the store may also continue a release sequence of its own thread */
            if (s->last==fid && s->hasown) vjoin(&s->own,rel);
            else if (s->last!=fid && s->rmf==fid && s->hasrm) { s->own=s->rm; vjoin(&s->own,rel); }
            else s->own=*rel;
            s->vc=s->own; s->has=s->hasown=1; }
        else if (s->last==fid && s->hasown) { s->vc=s->own; s->has=1; }
        else if (s->last!=fid && s->rmf==fid && s->hasrm) { s->vc=s->own=s->rm; s->has=s->hasown=1; }
        else s->has=s->hasown=0;
        s->hasrm=0; s->rmf=-1;
        s->last=fid;
    }
}
static void hb_rmw(Fiber *f, uintptr_t a, int sz, bool acq, bool rel)
{
    if (!C.hb) return;
    for (uintptr_t g=a>>2; g<=(a+sz-1)>>2; g++) {
        SV *s=svget(g,1);
        if (s->has) { if (acq) vjoin(&f->vc,&s->vc); else { if(!f->has_relacq) memset(&f->relacq,0,sizeof(VC)); vjoin(&f->relacq,&s->vc); f->has_relacq=1; } }
    }
    for (uintptr_t g=a>>2; g<=(a+sz-1)>>2; g++) {
        SV *s=svget(g,1);
        const VC *v = rel ? &f->vc : f->has_relfence ? &f->relfence : 0;
        if (v) {
            if(!s->has){ s->vc=*v; s->has=1; } else vjoin(&s->vc,v);
            if (s->last==f->id) { if(!s->hasown){ s->own=*v; s->hasown=1; } else vjoin(&s->own,v); }
            else if (s->rmf==f->id && s->hasrm) vjoin(&s->rm,v); else { s->rm=*v; s->hasrm=1; s->rmf=f->id; }
        }
    }
    if (rel) tick(f);
}

/* ------------------------------------------------------------------ user data race detection */
typedef struct { uint16_t wf; uint32_t wc; int32_t rd; } Cell;   /* rd: index of a read clock, 0 none */
static uintptr_t tb, te; static Cell *cells; static size_t ncells; static VC *rdpool; static int nrd, rdcap;
void rt_track(void *base, size_t len)
{
    tb=(uintptr_t)base; te=tb+len; size_t n=len/8+1;
    if (n>ncells) { free(cells); cells=malloc(n*sizeof(Cell)); ncells=n; }
    memset(cells,0,n*sizeof(Cell)); nrd=1;
    if(!rdcap){ rdcap=60000; rdpool=malloc(sizeof(VC)*rdcap); }
}
static void race(const char *what, uintptr_t a, int other)
{ rt_fail("user-data-race","%s at user data offset %zu by thread %d is not ordered with an access of thread %d", what,(size_t)(a-tb),cur,other); }
static void uaccess(uintptr_t a, int wr)
{
    if (!C.hb) return;
    Fiber *f=&F[cur]; Cell *c=&cells[(a-tb)>>3];
    simstats.user_accesses++;
    if (c->wc && c->wf!=cur && c->wc > f->vc.c[c->wf]) race(wr?"write (after write)":"read (after write)",a,c->wf);
    if (wr) {
        if (c->rd) { VC *r=&rdpool[c->rd]; for(int i=0;i<nf;i++) if(i!=cur && r->c[i] > f->vc.c[i]) race("write (after read)",a,i); c->rd=0; }
        c->wf=cur; c->wc=f->vc.c[cur];
    } else {
        if (!c->rd) { if (nrd>=rdcap) return; c->rd=nrd++; memset(&rdpool[c->rd],0,sizeof(VC)); }
        rdpool[c->rd].c[cur]=f->vc.c[cur];
    }
}

/* ------------------------------------------------------------------ races on everything else that threads share: the memory
 * that Lace allocates (queues), its static variables, and the stacks (external tasks live on stacks of clients).
 * One entry per 8 bytes; accesses conflict when they have a byte in common.  What does not fit the table is forgotten. */
typedef struct { uintptr_t g; uint32_t gen; uint16_t wf; uint8_t wm, rm; uint32_t wc; int32_t rd; void *wpc, *rpc; } ICell;
#define ICN (1<<17)
int sim_lace_races; static ICell *ic; static uint32_t icgen=1; static long icused;
extern char __start_lace_bss[] __attribute__((weak)), __stop_lace_bss[] __attribute__((weak)), __start_lace_data[] __attribute__((weak)), __stop_lace_data[] __attribute__((weak));
static inline int itracked(uintptr_t a)
{ return a>>40 || (a>=(uintptr_t)__start_lace_bss && a<(uintptr_t)__stop_lace_bss) || (a>=(uintptr_t)__start_lace_data && a<(uintptr_t)__stop_lace_data); }
static void irace(const char *what, uintptr_t a, int other, void *pc, void *opc)
{
    char w[60]; if (a>>40) snprintf(w,sizeof w,"memory"); else snprintf(w,sizeof w,"static variables");
    rt_fail("lace-data-race","%s at %p (%s) by thread %d at pc %p is not ordered with the access of thread %d at pc %p",what,(void*)a,w,cur,pc,other,opc);
}
#define IRD 40000
static VC *irdpool; static int inrd=1;
static void iaccess1(uintptr_t a, unsigned m, int wr, void *pc)
{
    Fiber *f=&F[cur]; uintptr_t g=a>>3; if(!ic) ic=calloc(ICN,sizeof *ic);
    size_t h=(g*0x9E3779B97F4A7C15ULL)>>47; ICell *c;
    for(;;h=(h+1)&(ICN-1)) { c=&ic[h]; if (c->gen!=icgen) { if (++icused>ICN/2) { icused=0; icgen++; } memset(c,0,sizeof *c); c->gen=icgen; c->g=g; break; } if (c->g==g) break; }
    simstats.lace_accesses++;
    if (c->wc && (c->wm&m) && c->wf!=cur && c->wc > f->vc.c[c->wf]) irace(wr?"write (after write)":"read (after write)",a,c->wf,pc,c->wpc);
    if (wr) {
        if (c->rd && (c->rm&m)) { VC *r=&irdpool[c->rd]; for(int i=0;i<nf;i++) if(i!=cur && r->c[i] > f->vc.c[i]) irace("write (after read)",a,i,pc,c->rpc); }
        c->rd=0; c->wf=cur; c->wc=f->vc.c[cur]; c->wm=m; c->wpc=pc;
    } else {
        if (c->rd && c->rm!=m) c->rd=0;
        if (!c->rd) { if (inrd>=IRD) return; c->rd=inrd++; memset(&irdpool[c->rd],0,sizeof(VC)); }
        irdpool[c->rd].c[cur]=f->vc.c[cur]; c->rm=m; c->rpc=pc;
    }
}
static void iaccess(uintptr_t a, size_t n, int wr, void *pc)
{
    if (!sim_lace_races || !C.hb || !running || !itracked(a)) return;
    while (n) { unsigned o=a&7, k=8-o<n?8-o:(unsigned)n; iaccess1(a,((1u<<k)-1)<<o,wr,pc); a+=k; n-=k; }
}
/* ------------------------------------------------------------------ store buffers */
static void rawstore(uintptr_t a, int sz, uint64_t v)
{
    switch(sz){case 1:__atomic_store_n((uint8_t*)a,(uint8_t)v,__ATOMIC_SEQ_CST);break;case 2:__atomic_store_n((uint16_t*)a,(uint16_t)v,__ATOMIC_SEQ_CST);break;
    case 4:__atomic_store_n((uint32_t*)a,(uint32_t)v,__ATOMIC_SEQ_CST);break;default:__atomic_store_n((uint64_t*)a,v,__ATOMIC_SEQ_CST);}
}
static uint64_t rawload(uintptr_t a, int sz)
{ switch(sz){case 1:return *(volatile uint8_t*)a;case 2:return *(volatile uint16_t*)a;case 4:return *(volatile uint32_t*)a;default:return *(volatile uint64_t*)a;} }
static void drain1(Fiber *f)
{
    SBEnt e=f->sb[0];
    rawstore(e.a,e.sz,e.v);
    TR("drain of T%d %p <- %llx",f->id,(void*)e.a,(unsigned long long)e.v);
    if (C.hb) hb_store_vc(f->id, e.rel?&f->sbvc[0]:0, e.a, e.sz);
    for (int i=1;i<f->sbn;i++){ f->sb[i-1]=f->sb[i]; f->sbvc[i-1]=f->sbvc[i]; }
    f->sbn--;
}
static inline void drain(Fiber *f){ while(f->sbn) drain1(f); }
static inline int overlap(Fiber *f, uintptr_t a, int sz){ for(int i=0;i<f->sbn;i++) if(f->sb[i].a<a+sz && a<f->sb[i].a+f->sb[i].sz) return 1; return 0; }

/* ------------------------------------------------------------------ fibers and scheduler */
void sim_switch(void **save, void *to);
__asm__(
".text\n.globl sim_switch\n.type sim_switch,@function\nsim_switch:\n"
" push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n"
" mov %rsp,(%rdi)\n mov %rsi,%rsp\n"
" pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n.size sim_switch,.-sim_switch\n");

static void fiber_exit(void *ret);
static void fiber_main(void){ Fiber *f=&F[cur]; void *r=f->fn(f->arg); fiber_exit(r); }

static void newquantum(void)
{
    double q = fairmode ? 20 : C.qmean;
    if (q<=1.01) { quantum=1; return; }
    double u=RD(); if(u<1e-12)u=1e-12;
    /* geometric-ish */
    quantum=1+(int64_t)(-__builtin_log(u)*(q-1)); if(quantum<1)quantum=1; if(quantum>50000)quantum=50000;
}
static void to_fiber(int n)
{
    if (n==cur) return;
    int o=cur; F[o].err=errno; cur=n; errno=F[n].err;
    simstats.switches++; sched_hash=(sched_hash^(uint64_t)(n+1)^(steps<<8))*0x100000001B3ULL;
    sim_switch(&F[o].sp,F[n].sp);
}
static void pick(void)
{
    if (steps>steps_limit) {
        if (!latefair) { latefair=fairmode=1; steps_limit=hard_limit; }
        else rt_fail("no-progress","execution did not finish within %llu steps, of which the last part fairly scheduled",(unsigned long long)hard_limit);
    }
    /* delayed stores become visible */
    for (int i=0;i<nf;i++) { Fiber *f=&F[i]; while (f->sbn && (fairmode || f->sb[0].due<=steps)) drain1(f); }
    double tot=0; int any=0, stalled=-1; uint64_t ms=~0ULL;
    for (int i=0;i<nf;i++) if (F[i].state==F_RUN && !F[i].frozen) {
        any=1;
        if (!fairmode && F[i].stall>steps) { if(F[i].stall<ms){ms=F[i].stall;stalled=i;} continue; }
        tot += fairmode?1:F[i].w;
    }
    if (!any) {
        rt_fail("deadlock","no thread can run");
    }
    int n=-1;
    if (tot<=0) { n=stalled; F[n].stall=0; }
    else { double x=RD()*tot; for(int i=0;i<nf;i++) if(F[i].state==F_RUN && !F[i].frozen && (fairmode||F[i].stall<=steps)) { n=i; x-=fairmode?1:F[i].w; if(x<0)break; } }
    newquantum();
    to_fiber(n);
}
static void resched(void)
{
    Fiber *f=&F[cur];
    if (!fairmode) {
        if (C.pstall>0 && RD()<C.pstall) { f->stall=steps+1+R()%C.stallmax; simstats.stalls++; }
        if (C.reweight>0 && RD()<C.reweight) { static const double W[]={1,1,1,0.1,0.02}; f->w=W[R()%5]; }
    }
    pick();
}
static inline void point(void)
{
    if (!running) return;
    steps++; F[cur].ops++;
    if (F[cur].ops==F[cur].freeze_at) { F[cur].frozen=1; pick(); }
    if (--quantum<=0) resched();
}
static void block(const char *why, const void *obj){ Fiber *f=&F[cur]; drain(f); f->state=F_BLOCK; f->bwhy=why; f->bobj=obj; pick(); }
static void wake(const void *obj){ for(int i=0;i<nf;i++) if(F[i].state==F_BLOCK && F[i].bobj==obj) F[i].state=F_RUN; }
void rt_pause(void){ if(running){ steps++; F[cur].ops++; resched(); } }
int rt_tid(void){ return cur; }
int rt_is_sim(void){ return 1; }
void rt_lace_region(int on){ lace_region=on; if(on) lace_created=0; }
int rt_workers_created(void){ return lace_created; }
void rt_work(uint64_t s){ int k=(int)(s>>8)%4; while(k-->0) rt_pause(); }
int rt_settle(int lc){ for(int t=0;t<20000 && rt_live_workers();t++) rt_pause(); int k=0; for(int i=1;i<nf;i++) if(F[i].is_lace && (F[i].state!=F_DONE || (!F[i].detached && !F[i].joined))) k++; (void)lc; return k; }
int rt_live_allocs(void){ return sim_live_allocs(); }
int rt_workers_awake(void){ int k=0; for(int i=0;i<nf;i++) if(F[i].is_lace && F[i].state==F_RUN) k++; return k; }
int rt_live_workers(void){ int k=0; for(int i=0;i<nf;i++) if(F[i].is_lace && F[i].state!=F_DONE && F[i].state!=F_FREE) k++; return k; }
int rt_wait_workers_asleep(void)
{
    uint64_t lim=steps+400000; 
    while (rt_workers_awake()>0) { if (steps>lim) { fairmode=latefair; return 0; } fairmode=1; rt_pause(); }
    fairmode=latefair; return 1;
}

/* stop a thread forever after a number of its operations (until it is thawed) */
void sim_freeze_after(int id, uint64_t ops){ F[id].freeze_at=F[id].ops+ops; }
void sim_thaw(void){ for(int i=0;i<nf;i++){ F[i].frozen=0; F[i].freeze_at=0; } }
void sim_weight(int id,double w){ F[id].w=w; }
int sim_frozen(int id){ return F[id].frozen; }
uint64_t sim_ops(int id){ return F[id].ops; }
/* wait until every other Lace thread has made a number of operations, is blocked or stopped */
void rt_wait_others(uint64_t ops)
{
    uint64_t b[MAXF]; int n0=nf;  for(int i=0;i<n0;i++) b[i]=F[i].ops;
    for(uint64_t lim=steps+3000000;;) { int ok=1; for(int i=0;i<n0;i++) if(i!=cur && F[i].is_lace && F[i].state==F_RUN && !F[i].frozen && F[i].ops-b[i]<ops) ok=0; if(ok) break; if(steps>lim) rt_inconclusive("rt_wait_others"); fairmode=1; rt_pause(); }
    fairmode=latefair;
}
static char *stkcache[MAXF];
static char *newstack(int id)
{
    if (!stkcache[id]) {
        char *p=mmap(0,STK+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
        if(p==MAP_FAILED) rt_inconclusive("no memory for a stack");
        mprotect(p,4096,PROT_NONE); stkcache[id]=p;
    }
    return stkcache[id];
}
static Fiber *newfiber(void *(*fn)(void*), void *arg)
{
    if (nf>=MAXF) rt_inconclusive("too many threads");
    int id=nf; Fiber *f=&F[id]; memset(f,0,sizeof *f); f->id=id; f->fn=fn; f->arg=arg; f->state=F_RUN; f->w=1;
    f->stk=newstack(id);
    uintptr_t top=((uintptr_t)f->stk+4096+STK)&~(uintptr_t)15;
    void **sp=(void**)top; *--sp=0; *--sp=(void*)fiber_main; for(int i=0;i<6;i++) *--sp=0; f->sp=sp;
    f->vc.c[id]=1;
    nf++;
    return f;
}
static void fiber_exit(void *ret)
{
    Fiber *f=&F[cur]; drain(f); f->ret=ret; f->state=F_DONE;
    for(int i=0;i<NTLS;i++) if(f->tls[i]){ free(f->tls[i]); f->tls[i]=0; }
    tick(f);
    wake(f);
    if (cur==0) { simstats.steps+=steps; }
    pick(); __builtin_unreachable();
}

/* ------------------------------------------------------------------ emulated TLS */
struct emu { size_t size, align; uintptr_t idx; void *templ; };
static int ntls;
void *__emutls_get_address(struct emu *e)
{
    if (!e->idx) { if (ntls>=NTLS) rt_inconclusive("too many TLS variables"); e->idx=++ntls; }
    Fiber *f=&F[cur]; void **p=&f->tls[e->idx-1];
    if (!*p) { *p=aligned_alloc(64,(e->size+63)&~63UL); if(e->templ) memcpy(*p,e->templ,e->size); else memset(*p,0,e->size); }
    return *p;
}

/* ------------------------------------------------------------------ instrumented plain accesses */
#define RA __builtin_return_address(0)
static inline int onstack(uintptr_t a){ return a-(uintptr_t)F[cur].stk < STK+4096; }
static inline __attribute__((always_inline)) void rd(uintptr_t a, int sz)
{
    Fiber *f=&F[cur];
    if (f->sbn && overlap(f,a,sz)) drain(f);
    if (onstack(a)) { iaccess(a,sz,0,RA); return; }
    point();
    if (a-tb < te-tb) uaccess(a,0); else iaccess(a,sz,0,RA);
}
static inline __attribute__((always_inline)) void wr(uintptr_t a, int sz)
{
    (void)sz; Fiber *f=&F[cur];
    if (onstack(a)) { if (f->sbn) drain(f); iaccess(a,sz,1,RA); return; }
    point();
    if (F[cur].sbn) drain(&F[cur]);
    if (a-tb < te-tb) uaccess(a,1); else iaccess(a,sz,1,RA);
}
#define RW(n) \
 void __tsan_read##n(void*a){rd((uintptr_t)a,n);TR("%p R%d %p = %llx",RA,n,a,(unsigned long long)*(uint8_t*)a);} void __tsan_write##n(void*a){wr((uintptr_t)a,n);TR("%p W%d %p",RA,n,a);} \
 void __tsan_unaligned_read##n(void*a){rd((uintptr_t)a,n);} void __tsan_unaligned_write##n(void*a){wr((uintptr_t)a,n);} \
 void __tsan_volatile_read##n(void*a){rd((uintptr_t)a,n);} void __tsan_volatile_write##n(void*a){wr((uintptr_t)a,n);} \
 void __tsan_unaligned_volatile_read##n(void*a){rd((uintptr_t)a,n);} void __tsan_unaligned_volatile_write##n(void*a){wr((uintptr_t)a,n);} \
 void __tsan_read_write##n(void*a){rd((uintptr_t)a,n);wr((uintptr_t)a,n);} void __tsan_unaligned_read_write##n(void*a){rd((uintptr_t)a,n);wr((uintptr_t)a,n);}
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_func_entry(void*p){(void)p;} void __tsan_func_exit(void){} void __tsan_init(void){}
void __tsan_ignore_thread_begin(void){} void __tsan_ignore_thread_end(void){}
void __tsan_vptr_update(void**a,void*b){(void)b;wr((uintptr_t)a,8);} void __tsan_vptr_read(void**a){rd((uintptr_t)a,8);}
static void range(uintptr_t a, size_t n, int w){ if(!n) return; if(w) wr(a,1); else { Fiber*f=&F[cur]; if(f->sbn && overlap(f,a,(int)n)) drain(f); rd(a,1);} 
    for(uintptr_t x=(a|7)+1; x<a+n; x+=8) if (x-tb < te-tb) uaccess(x,w); else iaccess(x,x+8<=a+n?8:a+n-x,w,RA); }
void *__tsan_memcpy(void*d,const void*s,size_t n){ range((uintptr_t)s,n,0); range((uintptr_t)d,n,1); return memcpy(d,s,n);} 
void *__tsan_memmove(void*d,const void*s,size_t n){ range((uintptr_t)s,n,0); range((uintptr_t)d,n,1); return memmove(d,s,n);} 
void *__tsan_memset(void*d,int c,size_t n){ range((uintptr_t)d,n,1); return memset(d,c,n);} 
void __tsan_read_range(void*a,size_t n){range((uintptr_t)a,n,0);} void __tsan_write_range(void*a,size_t n){range((uintptr_t)a,n,1);}

/* ------------------------------------------------------------------ atomics */
static inline bool isacq(int mo){ return mo==1||mo==2||mo==4||mo==5; }
static inline bool isrel(int mo){ return mo==3||mo==4||mo==5; }
static uint64_t a_load(uintptr_t a,int sz,int mo)
{
    point(); simstats.atomics++;
    Fiber *f=&F[cur];
    if (f->sbn) {
        for (int i=f->sbn-1;i>=0;i--) if (f->sb[i].a==a && f->sb[i].sz==sz) return f->sb[i].v;  /* store forwarding; own value */
        if (overlap(f,a,sz)) drain(f);
    }
    if (running) hb_load(f,a,sz,isacq(mo));
    return rawload(a,sz);
}
static void a_store(uintptr_t a,int sz,uint64_t v,int mo)
{
    point(); simstats.atomics++;
    Fiber *f=&F[cur];
    bool rel=isrel(mo); const VC *rv = rel?&f->vc : f->has_relfence?&f->relfence:0;
    if (mo!=5 && C.tso && running && !fairmode && !onstack(a)) {
        if (f->sbn==SBMAX) drain1(f);
        SBEnt *e=&f->sb[f->sbn]; e->a=a; e->sz=sz; e->v=v; e->rel=rv!=0; if(C.hb && rv) f->sbvc[f->sbn]=*rv;
        uint64_t d; switch(R()&3){case 0:d=0;break;case 1:d=R()%40;break;case 2:d=R()%400;break;default:d=R()%4000;}
        e->due=steps+d; if(f->sbn && f->sb[f->sbn-1].due>e->due) e->due=f->sb[f->sbn-1].due;
        f->sbn++; simstats.buffered++;
        if (rel) tick(f);
        return;
    }
    drain(f);
    rawstore(a,sz,v);
    if (C.hb&&running) { hb_store_vc(f->id,rv,a,sz); if(rel) tick(f); }
}
static inline Fiber *rmw_begin(void){ point(); simstats.atomics++; Fiber*f=&F[cur]; drain(f); return f; }
void sim_fence(int mo)
{
    point(); Fiber *f=&F[cur];
    if (mo==5) drain(f);
    if (!C.hb) return;
    if (isacq(mo) && f->has_relacq) { vjoin(&f->vc,&f->relacq); }
    if (isrel(mo)) { f->relfence=f->vc; f->has_relfence=1; tick(f); }
}
void __tsan_atomic_thread_fence(int mo){ sim_fence(mo); }
void __tsan_atomic_signal_fence(int mo){ (void)mo; }
int sim_spurious(void){ if(!running||fairmode||!C.spurious) return 0; if((R()&15)==0){simstats.spurious++;return 1;} return 0; }

#define AT(n,T) \
T __tsan_atomic##n##_load(const volatile T*a,int mo){T r=(T)a_load((uintptr_t)a,n/8,mo);TR("%p AL%d %p mo%d = %llx",RA,n,a,mo,(unsigned long long)r);return r;} \
void __tsan_atomic##n##_store(volatile T*a,T v,int mo){a_store((uintptr_t)a,n/8,(uint64_t)v,mo);TR("%p AS%d %p mo%d <- %llx",RA,n,a,mo,(unsigned long long)v);} \
T __tsan_atomic##n##_exchange(volatile T*a,T v,int mo){Fiber*f=rmw_begin();T o=__atomic_exchange_n(a,v,5);if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));TR("%p RMW%d %p mo%d %llx <- %llx",RA,n,a,mo,(unsigned long long)o,(unsigned long long)v);return o;} \
T __tsan_atomic##n##_fetch_add(volatile T*a,T v,int mo){Fiber*f=rmw_begin();T o=__atomic_fetch_add(a,v,5);if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));TR("%p RMW%d %p mo%d %llx <- %llx",RA,n,a,mo,(unsigned long long)o,(unsigned long long)v);return o;} \
T __tsan_atomic##n##_fetch_sub(volatile T*a,T v,int mo){Fiber*f=rmw_begin();T o=__atomic_fetch_sub(a,v,5);if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));TR("%p RMW%d %p mo%d %llx <- %llx",RA,n,a,mo,(unsigned long long)o,(unsigned long long)v);return o;} \
T __tsan_atomic##n##_fetch_and(volatile T*a,T v,int mo){Fiber*f=rmw_begin();T o=__atomic_fetch_and(a,v,5);if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));TR("%p RMW%d %p mo%d %llx <- %llx",RA,n,a,mo,(unsigned long long)o,(unsigned long long)v);return o;} \
T __tsan_atomic##n##_fetch_or(volatile T*a,T v,int mo){Fiber*f=rmw_begin();T o=__atomic_fetch_or(a,v,5);if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));TR("%p RMW%d %p mo%d %llx <- %llx",RA,n,a,mo,(unsigned long long)o,(unsigned long long)v);return o;} \
T __tsan_atomic##n##_fetch_xor(volatile T*a,T v,int mo){Fiber*f=rmw_begin();T o=__atomic_fetch_xor(a,v,5);if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));TR("%p RMW%d %p mo%d %llx <- %llx",RA,n,a,mo,(unsigned long long)o,(unsigned long long)v);return o;} \
T __tsan_atomic##n##_fetch_nand(volatile T*a,T v,int mo){Fiber*f=rmw_begin();T o=__atomic_fetch_nand(a,v,5);if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));TR("%p RMW%d %p mo%d %llx <- %llx",RA,n,a,mo,(unsigned long long)o,(unsigned long long)v);return o;} \
T __tsan_atomic##n##_compare_exchange_val(volatile T*a,T e,T v,int mo,int fm){Fiber*f=rmw_begin();T o=*a; if(o==e){*a=v;if(running)hb_rmw(f,(uintptr_t)a,n/8,isacq(mo),isrel(mo));} else {if(running)hb_load(f,(uintptr_t)a,n/8,isacq(fm));simstats.casfail++;} TR("%p CAS%d %p mo%d %llx -> %llx was %llx",RA,n,a,mo,(unsigned long long)e,(unsigned long long)v,(unsigned long long)o); return o;} \
int __tsan_atomic##n##_compare_exchange_strong(volatile T*a,T*e,T v,int mo,int fm){T o=__tsan_atomic##n##_compare_exchange_val(a,*e,v,mo,fm); if(o==*e)return 1; *e=o;return 0;} \
int __tsan_atomic##n##_compare_exchange_weak(volatile T*a,T*e,T v,int mo,int fm){if(*a==*e && sim_spurious()) return 0; return __tsan_atomic##n##_compare_exchange_strong(a,e,v,mo,fm);}
AT(8,uint8_t) AT(16,uint16_t) AT(32,uint32_t) AT(64,uint64_t)

/* ------------------------------------------------------------------ pthread objects */
typedef struct { const void *a; int kind; int64_t cnt; int owner; int waiters; uint32_t gen; VC vc; int has; } Obj;
#define NOBJ 4096
static Obj objs[NOBJ]; static uint32_t objgen=1;
static Obj *obj(const void *a,int kind)
{
    size_t h=((uintptr_t)a*0x9E3779B97F4A7C15ULL)>>52;
    for(int k=0;k<NOBJ;k++,h=(h+1)&(NOBJ-1)) { Obj*o=&objs[h]; if(o->gen!=objgen){memset(o,0,sizeof*o);o->gen=objgen;o->a=a;o->kind=kind;o->owner=-1;return o;} if(o->a==a){ if(o->kind!=kind){o->kind=kind;o->cnt=0;o->owner=-1;o->waiters=0;o->has=0;} return o;} }
    rt_inconclusive("object table full");
}
static void ojoin(Obj*o){ if(C.hb&&o->has) vjoin(&F[cur].vc,&o->vc); }
static void orel(Obj*o){ if(!C.hb) return; if(!o->has){memset(&o->vc,0,sizeof(VC));o->has=1;} vjoin(&o->vc,&F[cur].vc); tick(&F[cur]); }
static inline void opoint(void){ point(); drain(&F[cur]); }

int sim_sem_init(sem_t*s,int ps,unsigned v){ (void)ps; opoint(); Obj*o=obj(s,1); o->cnt=v; o->has=0; return 0; }
int sim_sem_destroy(sem_t*s){ opoint(); Obj*o=obj(s,1); for(int i=0;i<nf;i++) if(F[i].state==F_BLOCK&&F[i].bobj==s) rt_fail("sem-destroy","semaphore destroyed while thread %d waits on it",i); o->kind=0; return 0; }
int sim_sem_post(sem_t*s){ opoint(); simstats.sems++; Obj*o=obj(s,1); orel(o); o->cnt++; wake(s); return 0; }
static int eintr(void){ if(C.eintr && !fairmode && (R()%C.eintr)==0){ simstats.eintr++; errno=EINTR; return 1;} return 0; }
int sim_sem_wait(sem_t*s)
{
    opoint(); simstats.sems++;
    for(;;) {
        Obj*o=obj(s,1);
        if (o->cnt>0){ o->cnt--; ojoin(o); return 0; }
        if (eintr()) { rt_pause(); errno=EINTR; return -1; }
        block("sem_wait",s);
        if (eintr()) { errno=EINTR; return -1; }
    }
}
int sim_sem_trywait(sem_t*s){ opoint(); Obj*o=obj(s,1); if(o->cnt>0){o->cnt--;ojoin(o);return 0;} errno=EAGAIN; return -1; }
int sim_sem_timedwait(sem_t*s,const struct timespec*t){ (void)t; for(int i=0;i<50;i++){ if(sim_sem_trywait(s)==0) return 0; rt_pause(); } errno=ETIMEDOUT; return -1; }
int sim_sem_getvalue(sem_t*s,int*v){ opoint(); *v=(int)obj(s,1)->cnt; return 0; }

int sim_pthread_mutex_init(pthread_mutex_t*m,const void*a){ (void)a; Obj*o=obj(m,2); o->owner=-1; return 0; }
int sim_pthread_mutex_destroy(pthread_mutex_t*m){ obj(m,2)->kind=0; return 0; }
int sim_pthread_mutex_lock(pthread_mutex_t*m){ opoint(); for(;;){ Obj*o=obj(m,2); if(o->owner<0){o->owner=cur;ojoin(o);return 0;} if(o->owner==cur) rt_fail("self-deadlock","mutex locked twice"); block("mutex",m);} }
int sim_pthread_mutex_trylock(pthread_mutex_t*m){ opoint(); Obj*o=obj(m,2); if(o->owner<0){o->owner=cur;ojoin(o);return 0;} return EBUSY; }
int sim_pthread_mutex_unlock(pthread_mutex_t*m){ opoint(); Obj*o=obj(m,2); if(o->owner!=cur) rt_fail("mutex-misuse","mutex unlocked by a thread that does not hold it"); orel(o); o->owner=-1; wake(m); return 0; }
int sim_pthread_cond_init(pthread_cond_t*c,const void*a){ (void)a;(void)c; return 0; }
int sim_pthread_cond_destroy(pthread_cond_t*c){ (void)c; return 0; }
int sim_pthread_cond_wait(pthread_cond_t*c,pthread_mutex_t*m)
{
    Obj*o=obj(m,2); if(o->owner!=cur) rt_fail("mutex-misuse","condition wait without holding the mutex");
    drain(&F[cur]); orel(o); o->owner=-1; wake(m);
    if (C.spurious && !fairmode && (R()&7)==0) { simstats.spurious++; rt_pause(); }
    else block("cond",c);
    return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_timedwait(pthread_cond_t*c,pthread_mutex_t*m,const void*t){ (void)t;(void)c; sim_pthread_mutex_unlock(m); rt_pause(); sim_pthread_mutex_lock(m); return ETIMEDOUT; }
int sim_pthread_cond_signal(pthread_cond_t*c){ opoint(); int w[MAXF],k=0; for(int i=0;i<nf;i++) if(F[i].state==F_BLOCK&&F[i].bobj==c) w[k++]=i; if(k) F[w[R()%k]].state=F_RUN; return 0; }
int sim_pthread_cond_broadcast(pthread_cond_t*c){ opoint(); wake(c); return 0; }

int sim_pthread_create(pthread_t*t,const pthread_attr_t*at,void*(*fn)(void*),void*arg)
{
    opoint();
    if (C.fail_create && lace_region && ++simstats.creates_seen==C.fail_create) { simstats.create_failed++; return EAGAIN; }
    Fiber*f=newfiber(fn,arg); if(C.hb){ vjoin(&f->vc,&F[cur].vc); tick(&F[cur]); }
    f->is_lace=lace_region; if(lace_region) lace_created++;
    if(at){ size_t s=0; pthread_attr_getstacksize(at,&s); f->attr_stack=s; int ds=0; pthread_attr_getdetachstate(at,&ds); f->detached=ds==PTHREAD_CREATE_DETACHED; }
    *t=(pthread_t)(uintptr_t)(f->id+1); return 0;
}
int sim_pthread_join(pthread_t t,void**r)
{
    opoint(); int id=(int)(uintptr_t)t-1; if(id<0||id>=nf) rt_fail("bad-join","join of an unknown thread");
    Fiber*f=&F[id]; if(f->joined||f->detached) rt_fail("bad-join","thread joined twice or detached");
    while(f->state!=F_DONE) block("join",f);
    f->joined=1; if(C.hb) vjoin(&F[cur].vc,&f->vc); if(r)*r=f->ret; return 0;
}
int sim_pthread_detach(pthread_t t){ int id=(int)(uintptr_t)t-1; if(id<0||id>=nf) return ESRCH; F[id].detached=1; return 0; }
pthread_t sim_pthread_self(void){ return (pthread_t)(uintptr_t)(cur+1); }
void sim_pthread_exit(void*r){ fiber_exit(r); }
int sim_pthread_once(pthread_once_t*o,void(*fn)(void)){ Obj*b=obj(o,5); opoint(); if(b->cnt==0){b->cnt=1;fn();b->cnt=2;orel(b);wake(o);} else { while(obj(o,5)->cnt!=2) block("once",o); ojoin(obj(o,5)); } return 0; }
/* keys */
static int nkeys; static void *keyval[MAXF][32];
int sim_pthread_key_create(pthread_key_t*k,void(*d)(void*)){ (void)d; if(nkeys>=32) return EAGAIN; *k=nkeys++; return 0; }
int sim_pthread_key_delete(pthread_key_t k){ (void)k; return 0; }
int sim_pthread_setspecific(pthread_key_t k,const void*v){ keyval[cur][k]=(void*)v; return 0; }
void *sim_pthread_getspecific(pthread_key_t k){ return keyval[cur][k]; }
/* pthread barriers */
int sim_pthread_barrier_init(pthread_barrier_t*b,const void*a,unsigned n){ (void)a; Obj*o=obj(b,6); o->cnt=0; o->owner=(int)n; o->waiters=0; return 0; }
int sim_pthread_barrier_destroy(pthread_barrier_t*b){ (void)b; return 0; }
int sim_pthread_barrier_wait(pthread_barrier_t*b){ opoint(); Obj*o=obj(b,6); orel(o); int my=o->waiters; if(++o->cnt==o->owner){ o->cnt=0;o->waiters++;wake(b);ojoin(o);return PTHREAD_BARRIER_SERIAL_THREAD;} while(obj(b,6)->waiters==my) block("pbarrier",b); ojoin(obj(b,6)); return 0; }
int sim_pthread_spin_init(pthread_spinlock_t*m,int p){ (void)p; obj((void*)m,2)->owner=-1; return 0; }
int sim_pthread_spin_lock(pthread_spinlock_t*m){ return sim_pthread_mutex_lock((pthread_mutex_t*)m); }
int sim_pthread_spin_unlock(pthread_spinlock_t*m){ return sim_pthread_mutex_unlock((pthread_mutex_t*)m); }
int sim_sched_yield(void){ rt_pause(); return 0; }
int sim_nanosleep(const void*a,void*b){ (void)a;(void)b; for(int i=0;i<20;i++) rt_pause(); return 0; }
int sim_clock_nanosleep(int c,int fl,const void*a,void*b){ (void)c;(void)fl;(void)a;(void)b; for(int i=0;i<20;i++) rt_pause(); return 0; }
int sim_usleep(unsigned u){ (void)u; for(int i=0;i<20;i++) rt_pause(); return 0; }
unsigned sim_sleep(unsigned u){ (void)u; for(int i=0;i<20;i++) rt_pause(); return 0; }
int sim_rand(void){ return (int)(R()&0x7fffffff); }
void sim_on_exit(void(*cb)(int)){ exit_cb=cb; }
void sim_exit(int c){ if(exit_cb){ void(*cb)(int)=exit_cb; cb(c); finish(0);} rt_fail("exit","unexpected exit(%d) of the program",c); }

/* ------------------------------------------------------------------ allocation: guard pages, leak accounting */
typedef struct { void *p; void *m; size_t ms, sz; } Al;
#define NAL 4096
static Al al[NAL]; static int nal;
int sim_live_allocs(void){ return nal; }
size_t sim_live_bytes(void){ size_t s=0; for(int i=0;i<nal;i++) s+=al[i].sz; return s; }
static void *galloc(size_t align,size_t n)
{
    simstats.allocs++;
    if (C.fail_alloc && (int)simstats.allocs==C.fail_alloc) { simstats.alloc_failed++; errno=ENOMEM; return 0; }
    if (nal>=NAL) rt_inconclusive("allocation table full");
    size_t r=n?n:1; if(align<16)align=16; size_t rounded=(r+align-1)&~(align-1);
    size_t pg=(rounded+4095)&~4095UL;
    char *m=mmap(0,pg+4096,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS,-1,0);
    if(m==MAP_FAILED) rt_inconclusive("out of memory");
    mprotect(m+pg,4096,PROT_NONE);
    char *p=m+pg-rounded; p=(char*)((uintptr_t)p&~(align-1));
    memset(m,0xA5,pg);       /* nothing may rely on zeroed memory */
    al[nal++]=(Al){p,m,pg+4096,n};
    return p;
}
static void gfree(void*p,const char*who)
{
    if(!p) return;
    for(int i=0;i<nal;i++) if(al[i].p==p){ 
        /* stores still in flight to freed memory must have been performed before */
        for(int k=0;k<nf;k++) drain(&F[k]);
        icgen++; icused=0;
        munmap(al[i].m,al[i].ms); al[i]=al[--nal]; return; }
    if (!strcmp(who,"munmap")) rt_fail("bad-free","munmap of memory that is not mapped");
    free(p);     /* memory that the C library allocated; a pointer freed twice faults here */
}
void *sim_malloc(size_t n){ return galloc(16,n); }
void *sim_calloc(size_t a,size_t b){ void*p=galloc(16,a*b); if(p) memset(p,0,a*b); return p; }
void *sim_aligned_alloc(size_t a,size_t n){ return galloc(a,n); }
void *sim_memalign(size_t a,size_t n){ return galloc(a,n); }
int sim_posix_memalign(void**p,size_t a,size_t n){ *p=galloc(a,n); return *p?0:ENOMEM; }
void sim_free(void*p){ gfree(p,"free"); }
void *sim_realloc(void*p,size_t n){ void*q=galloc(16,n); if(!q) return 0; if(p){ for(int i=0;i<nal;i++) if(al[i].p==p) memcpy(q,p,al[i].sz<n?al[i].sz:n); gfree(p,"realloc"); } return q; }
void *sim_mmap(void*h,size_t n,int pr,int fl,int fd,long off)
{ (void)h;(void)pr;(void)fl;(void)fd;(void)off; void*p=galloc(4096,n); if(!p) return MAP_FAILED; memset(p,0,(n+4095)&~4095UL); return p; }
int sim_munmap(void*p,size_t n)
{ for(int i=0;i<nal;i++) if(al[i].p==p){ if(((al[i].sz+4095)&~4095UL)!=((n+4095)&~4095UL)) rt_fail("bad-munmap","munmap of %zu bytes of a mapping of %zu",n,al[i].sz); gfree(p,"munmap"); return 0;} rt_fail("bad-free","munmap of unknown memory"); }

/* ------------------------------------------------------------------ one execution */
static void *mainctx;
static void (*g_fn)(void*);
static void *mainfn(void*a){ g_fn(a); running=0; simstats.steps+=steps; void *d; sim_switch(&d,mainctx); return 0; }
void sim_init(void)
{
    trace_init(); real_stdout=stdout;
    static char alt[65536]; stack_t ss={.ss_sp=alt,.ss_size=sizeof alt}; sigaltstack(&ss,0);
    struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_sigaction=onsig; sa.sa_flags=SA_SIGINFO|SA_ONSTACK; 
    int s[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGABRT,SIGALRM,SIGTRAP}; for(int i=0;i<7;i++) sigaction(s[i],&sa,0);
}
uint64_t sim_execute(uint64_t seed, const sim_cfg *cfg, void(*fn)(void*), void*arg)
{
    C=*cfg; cur_seed=cfg->report_seed; rs=seed*0x9E3779B97F4A7C15ULL+0x1234567; hs=seed^0x5DEECE66DULL;
    nf=0; steps=0; steps_limit=C.soft; hard_limit=C.soft+C.hard; fairmode=latefair=0; svgen++; svused=0; objgen++; icgen++; icused=0; inrd=1; if(!irdpool) irdpool=malloc(sizeof(VC)*IRD); tb=te=0; sched_hash=0xcbf29ce484222325ULL;
    memset(keyval,0,sizeof keyval);
    simstats.allocs=0; simstats.creates_seen=0; simstats.alloc_failed=simstats.create_failed=0;
    exit_cb=0; lace_region=0; lace_created=0;
    static struct itimerval it; it.it_value.tv_sec=C.wall?C.wall:120; setitimer(ITIMER_REAL,&it,0);
    g_fn=fn; Fiber*f=newfiber(mainfn,arg); (void)f; cur=0; newquantum(); running=1;
    sim_switch(&mainctx,F[0].sp);
    running=0; 
    for(int i=0;i<nf;i++) for(int k=0;k<NTLS;k++) if(F[i].tls[k]){ free(F[i].tls[k]); F[i].tls[k]=0; }
    return sched_hash;
}
size_t sim_thread_attr_stack(int id){ return id<nf?F[id].attr_stack:0; }
int sim_unreleased_threads(void){ int k=0; for(int i=1;i<nf;i++) if(F[i].is_lace && !F[i].detached && !F[i].joined) k++; return k; }
int sim_thread_is_lace(int id){ return F[id].is_lace; }
int sim_nthreads(void){ return nf; }
