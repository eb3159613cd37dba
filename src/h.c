/*
 * The harness: interprets generated task programs with the public Lace API only, and reports every
 * observable event to the monitors (mon.c).  Compiled with instrumentation, once per engine and configuration.
 */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
#include <sched.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
#include "mon.h"
#include "h.h"

#ifdef __cplusplus
#define VP(x) (x)
#endif

static unsigned cur_n;               /* workers of the running instance */

/* ------------------------------------------------------------------ task definitions */
TASK_DECL_1(uint64_t, nodebody, NodeM*)

#define TA(f,t,e) static inline t ta_##f(NodeM *n, int i) { uint64_t x=mix(n->seed,30+i); return e; }
TA(u8,uint8_t,(uint8_t)x) TA(u16,uint16_t,(uint16_t)x) TA(u32,uint32_t,(uint32_t)x) TA(i64,int64_t,(int64_t)x) TA(d,double,(double)(int32_t)x*0.5) TA(f,float,(float)(int16_t)x)
static void badarg(NodeM *n, const char *t) { rt_fail("wrong-argument","task %s of node %d received arguments that differ from those it was given",t,n->id); }
#include "tags.h"
#ifdef LACE14
enum { ARITIES=14 };
#else
enum { ARITIES=6 };
#endif
#define E_T(name,k) TG_##name,
#define E_Z(s) TG_zt##s,
#define E_ZV(s) TG_zv##s,
enum { EACH_T(E_T) EACH_V(E_T) EACH_Z(E_Z) EACH_Z(E_ZV) TG_N };
/* which kind of task a node is executed as; tasks without parameters find their node in one of a few slots */
static inline void prep(NodeM *c)
{
    int r=c->tag%(2*ARITIES+2);
    if (r>=2*ARITIES) { int v=r-2*ARITIES, s=m_zget(c,v*3,3); r = s<0 ? TG_t1 : TG_zt0+s; }
    c->tag=r;
}
static inline void unprep(NodeM *c) { if (c->tag>=TG_zt0) m_zput(c->tag-TG_zt0); }

/* the value of a child as its parent may know it once the child is complete */
static inline uint64_t outval(NodeM *n)
{
    uint64_t r=n->c[2], s=n->c[3];
    if (s!=~r) rt_fail("stale-data","user data written by node %d is not what its parent reads after completion",n->id);
    return r;
}
static inline void checkret64(NodeM *n, uint64_t r) { if (r!=n->expect) rt_fail("wrong-value","node %d returned %llx instead of %llx",n->id,(unsigned long long)r,(unsigned long long)n->expect); }
static inline void checkret32(NodeM *n, uint32_t r) { if (r!=(uint32_t)n->expect) rt_fail("wrong-value","node %d returned %x instead of %x",n->id,r,(uint32_t)n->expect); }
static inline void checkretp(NodeM *n, NodeM *r) { if (r!=n) rt_fail("wrong-value","node %d returned a different pointer",n->id); }
/* OP is one of CALL, RUN, RUNEX, NEWFRAME */
#define D_T(OP,name) case TG_##name: { RT_##name q=OP(name, AR_##name(c)); CK_##name(c,q); break; }
#define D_V(OP,name) case TG_##name: OP(name, AR_##name(c)); break;
#define D_Z(OP,s) case TG_zt##s: { uint64_t q=OP(zt##s); checkret64(c,q); break; } case TG_zv##s: OP(zv##s); break;
#define DO(OP) switch (c->tag) { EACH_T(T_##OP) EACH_V(V_##OP) EACH_Z(Z_##OP) default: rt_inconclusive("tag"); }
#define T_CALL(n,k) D_T(CALL,n)
#define V_CALL(n,k) D_V(CALL,n)
#define Z_CALL(s) D_Z(CALL,s)
#define T_RUN(n,k) D_T(RUN,n)
#define V_RUN(n,k) D_V(RUN,n)
#define Z_RUN(s) D_Z(RUN,s)
#define T_RUNEX(n,k) D_T(RUNEX,n)
#define V_RUNEX(n,k) D_V(RUNEX,n)
#define Z_RUNEX(s) D_Z(RUNEX,s)
#define T_NEWFRAME(n,k) D_T(NEWFRAME,n)
#define V_NEWFRAME(n,k) D_V(NEWFRAME,n)
#define Z_NEWFRAME(s) D_Z(NEWFRAME,s)
#define T_SPAWN(n,k) case TG_##n: SPAWN(n, AR_##n(c)); break;
#define Z_SPAWN(s) case TG_zt##s: SPAWN(zt##s); break; case TG_zv##s: SPAWN(zv##s); break;
#define DO_SPAWN() switch (c->tag) { EACH_T(T_SPAWN) EACH_V(T_SPAWN) EACH_Z(Z_SPAWN) default: rt_inconclusive("tag"); }
#define T_SYNC(n,k) case TG_##n: { RT_##n q=SYNC(n); m_synced(c,0,0); CK_##n(c,q); break; }
#define V_SYNC(n,k) case TG_##n: SYNC(n); m_synced(c,0,0); break;
#define Z_SYNC(s) case TG_zt##s: { uint64_t q=SYNC(zt##s); m_synced(c,q,1); break; } case TG_zv##s: SYNC(zv##s); m_synced(c,0,0); break;
#define DO_SYNC() switch (c->tag) { EACH_T(T_SYNC) EACH_V(V_SYNC) EACH_Z(Z_SYNC) default: rt_inconclusive("tag"); }
#define T_RES(n,k) case TG_##n: { RT_##n q=*(RT_##n*)TASK_RESULT(t); CK_##n(c,q); break; }

static void tog_body(WorkerP *__lace_worker, Task *__lace_dq_head, Tog *t, uint64_t a, uint32_t b);
static inline uint64_t tog_x(Tog *t, int i) { return mix(t->a,7000+i); }
static void badtog(Tog *t, const char *k) { rt_fail("together","a copy of TOGETHER task %s received arguments that differ from those it was given",k); }
#include "togs.h"

/* a plain function: re-enters Lace from code that does not have the Lace variables */
static __attribute__((noinline)) uint64_t plain_call(NodeM *c, WorkerP *w, Task *head)
{
    if (!lace_is_worker()) rt_fail("identity","lace_is_worker() is 0 inside a task");
    LACE_VARS
    if (__lace_worker!=w) rt_fail("identity","lace_get_worker() is not the worker that executes the task");
    if (__lace_dq_head!=head) rt_fail("head","lace_get_head() is %ld tasks off the end of the queue",(long)(__lace_dq_head-head));
    int how=(int)(c->seed&3);
    if (how==0) { DO(RUN) }
    else if (how<3) { c->spawner=rt_tid(); m_spawn(c); DO_SPAWN() DO_SYNC() unprep(c); return outval(c); }
    else { DO(CALL) }
    unprep(c);
    m_called(c,outval(c)); return outval(c);
}

static void do_together(Tog *t)
{
    int k=(int)(mix(t->a,6999)%(2*ARITIES+2)), z=-1;
    if (k<2) { z=m_zget((NodeM*)t,6+2*k,2); if (z<0) k=2; }
    switch (k) {
    case 0: if (z==6) TOGETHER(tgzt0); else TOGETHER(tgzt1); break;
    case 1: if (z==8) TOGETHER(tgzv0); else TOGETHER(tgzv1); break;
    EACH_TOG(TOG_RUN)
    }
    if (z>=0) m_zput(z);
    m_tog_returned(t);
}

TASK_IMPL_1(uint64_t, nodebody, NodeM*, n)
{
    Op ops[MAXOPS]; NodeM *st[MAXOUT+2]; int sp=0;
    m_worker(LACE_WORKER_ID, lace_is_worker());
    m_start(n, lace_is_worker());
    int ex=n->ext; if (ex) m_ext_begin(ex==2);
    if (n->c[0]!=n->seed || n->c[1]!=~n->seed) rt_fail("stale-data","user data written before node %d was created is not what the task reads",n->id);
    n->c[4]=n->seed;
    int no=gen_ops(n, ops);
    uint64_t h=mix(n->seed,1);
    for (int i=0;i<no;i++) {
        Op *o=&ops[i]; NodeM *c; uint64_t r;
        m_op(o->kind);
        switch (o->kind) {
        case OP_SPAWN:
            c=mk_child(n,o); c->c[0]=c->seed; c->c[1]=~c->seed; st[sp++]=c; prep(c); m_spawn(c);
            DO_SPAWN()
            break;
        case OP_SYNC:
            c=st[--sp];
            DO_SYNC()
            unprep(c);
            r=outval(c); c->c[2]=0; h=mix(h,r);
            break;
        case OP_DROP:
            c=st[--sp]; DROP(); m_dropped(c); unprep(c); c->c[0]=c->c[1]=0; c->c[2]=c->c[3]=0; h=mix(h,3);
            break;
        case OP_CALL: case OP_RUN: case OP_NEWFRAME:
            c=mk_child(n,o); c->c[0]=c->seed; c->c[1]=~c->seed; c->spawner=rt_tid(); prep(c);
            if (o->kind==OP_CALL) { DO(CALL) } else if (o->kind==OP_NEWFRAME) { DO(NEWFRAME) } else if (c->seed&1) { DO(RUN) } else { DO(RUNEX) }
            unprep(c);
            r=outval(c); m_called(c,r); h=mix(h,r);
            break;
        case OP_PLAIN:
            c=mk_child(n,o); c->c[0]=c->seed; c->c[1]=~c->seed; c->spawner=rt_tid(); prep(c);
            r=plain_call(c, __lace_worker, __lace_dq_head); h=mix(h,r);
            break;
        case OP_TOGETHER: {
            Tog *t=mk_tog(n,o,o->seed,o->flags,o->budget,(int)cur_n);
            for (int k=0;k<t->n;k++) { t->nodes[k]->c[0]=t->nodes[k]->seed; t->nodes[k]->c[1]=~t->nodes[k]->seed; t->nodes[k]->spawner=rt_tid(); }
            do_together(t);
            for (int k=0;k<t->n;k++) m_called(t->nodes[k], outval(t->nodes[k]));
            h=mix(h,5);
            break; }
        case OP_YIELD: YIELD_NEWFRAME(); break;
        case OP_STEAL: STEAL_RANDOM(); break;
        case OP_SHARE: LACE_MAKE_ALL_SHARED(); break;
        case OP_WORK: h=mix(h,o->seed); n->c[4]+=h; if ((o->seed&7)==0) rt_work(o->seed); break;
        case OP_STATUS:
            c=st[sp-1];
            {   /* every outstanding task may be inspected; take one of them */
                int k=(int)(o->seed%(uint64_t)sp); Task *t=__lace_dq_head-1-k; c=st[sp-1-k];
                int st0=TASK_IS_STOLEN(t)?1:0; int co=TASK_IS_COMPLETED(t)?1:0; uint64_t res=0; int has=0;
                if (co) { st0=TASK_IS_STOLEN(t)?1:0;
                          switch (c->tag) { EACH_T(T_RES) case TG_zt0: case TG_zt1: case TG_zt2: res=*(uint64_t*)TASK_RESULT(t); has=1; break; default: break; }
                          outval(c); }
                m_status(c, st0, co, res, has);
            }
            break;
        case OP_PAUSE: rt_pause(); break;
        default: break;
        }
        m_step(n);
    }
    if (sp!=0) rt_inconclusive("unbalanced program");
    n->c[2]=h; n->c[3]=~h;
    m_end(n, h);
    if (ex) m_ext_end(ex==2);
    return h;
}

static void tog_body(WorkerP *__lace_worker, Task *__lace_dq_head, Tog *t, uint64_t a, uint32_t b)
{
    int w=(int)LACE_WORKER_ID;
    m_worker((unsigned)w, lace_is_worker());
    m_tog_start(t, w, a, b);
    int early = (int)(mix(t->a, 300+w)&1);
    if (early) CALL(nodebody, t->nodes[w]);
    for (int r=0;r<t->rounds;r++) {
        uint64_t *cell=t->cells+(r&1)*t->n;
        cell[w]=mix(t->a, 1000+r*64+w);
        if (mix(t->a, 500+r*64+w)%3==0) rt_pause();
        m_bar_enter(t, r); lace_barrier(); m_bar_leave(t, r);
        for (int k=0;k<t->n;k++) if (cell[k]!=mix(t->a, 1000+r*64+k)) rt_fail("barrier-data","after barrier %d worker %d does not see what worker %d wrote before it",r,w,k);
    }
    if (!early) CALL(nodebody, t->nodes[w]);
    m_tog_end(t, w);
}
/* ------------------------------------------------------------------ clients */
typedef struct { uint64_t seed; int id; } Client;
static NodeM *newroot(uint64_t *s)
{
    *s=mix(*s,3);
    NodeM *n=mk_root(mix(*s,4), PR->bmin+(int)(mix(*s,5)%(uint64_t)(PR->bmax-PR->bmin+1)), 0);
    n->c[0]=n->seed; n->c[1]=~n->seed; n->ext=1; n->spawner=rt_tid(); n->tag=(int)(mix(*s,12)%240); return n;
}
static void client_op(uint64_t *s, int kind)
{
    NodeM *c;
    if (lace_is_worker()) rt_fail("identity","lace_is_worker() is 1 in a thread that is not a worker");
    switch (kind) {
    case CO_RUN: c=newroot(s); m_cop(kind); prep(c); DO(RUN) unprep(c); m_called(c,outval(c)); break;
    case CO_RUNEX: c=newroot(s); c->ext=2; m_cop(kind); prep(c); DO(RUNEX) unprep(c); m_called(c,outval(c)); break;
    case CO_NEWFRAME: c=newroot(s); m_cop(kind); mk_extframe(c); prep(c); DO(NEWFRAME) unprep(c); m_called(c,outval(c)); break;
    case CO_TOGETHER: { *s=mix(*s,6); m_cop(kind);
        Tog *t=mk_tog(0,0,mix(*s,7),0,PR->bmax,(int)cur_n); t->ext=1;
        for (int k=0;k<t->n;k++) { t->nodes[k]->c[0]=t->nodes[k]->seed; t->nodes[k]->c[1]=~t->nodes[k]->seed; t->nodes[k]->spawner=rt_tid(); }
        do_together(t);
        for (int k=0;k<t->n;k++) m_called(t->nodes[k], outval(t->nodes[k]));
        break; }
    default: for (int k=(int)(mix(*s,8)%8);k>=0;k--) rt_pause(); *s=mix(*s,10); break;
    }
}
static int pickop(uint64_t *s)
{
    double tot=0; for (int i=0;i<6;i++) tot+=PR->cw[i];
    *s=mix(*s,11); double x=(*s>>11)*(1.0/9007199254740992.0)*tot; int k=0;
    for (;k<5;k++) { x-=PR->cw[k]; if (x<0) break; }
    return k;
}
static void *client(void *p)
{
    Client *c=(Client*)p; uint64_t s=c->seed; int n=PR->opsmin+(int)(mix(s,1)%(uint64_t)(PR->opsmax-PR->opsmin+1));
    for (int i=0;i<n;i++) { int k=pickop(&s); if (k==CO_SUSPEND) k=CO_NAP; client_op(&s,k); }
    return 0;
}
static void asleep_check(const char *when)
{
    if (!rt_wait_workers_asleep()) rt_fail("not-asleep","Lace workers keep running %s",when);
    m_slept();
}
static void main_client(uint64_t s, int alone)
{
    int n=PR->opsmin+(int)(mix(s,1)%(uint64_t)(PR->opsmax-PR->opsmin+1)); int susp=0;
    for (int i=0;i<n;i++) {
        int k=pickop(&s);
        if (k==CO_SUSPEND) {
            /* balanced suspensions; tasks offered in between wake the workers up by themselves */
            int deep=1+(int)(mix(s,20)%3); m_cop(k); 
            for (int j=1;j<deep;j++) lace_resume();
            for (int j=0;j<deep;j++) lace_suspend();
            susp=1;
            if (alone) asleep_check("although they are suspended");
            int inner=(int)(mix(s,21)%3);
            for (int j=0;j<inner;j++) { int q=pickop(&s); if (q==CO_SUSPEND) q=CO_RUN; client_op(&s,q); if (alone) asleep_check("after a task was run while they were suspended"); }
            if (i+1==n && alone && (mix(s,22)&1)) break;   /* stop while suspended */
            lace_resume(); susp=0;
            continue;
        }
        client_op(&s,k);
    }
    (void)susp;
}

void scenario(void *arg)
{
    uint64_t seed=*(uint64_t*)arg; uint64_t s=mix(seed,42);
    mon_reset(seed, PR);
    int cycles=1+(PR->cycles>1?(int)(mix(s,1)%(uint64_t)PR->cycles):0);
    int kept=0; unsigned maxn=0;
    for (int cy=0; cy<cycles; cy++) {
        s=mix(s,50+cy);
        unsigned n=(unsigned)PR->nw[mix(s,2)%(uint64_t)PR->nnw];
        size_t dq=400+(size_t)(mix(s,3)%800);
        cur_n=n; m_cycle((int)n);
        rt_lace_region(1);
        lace_start(n, dq);
        rt_lace_region(0);
        if (lace_workers()!=n) rt_fail("workers","lace_workers() is %u after lace_start(%u)",lace_workers(),n);
        if (rt_workers_created()>=0 && rt_workers_created()!=(int)n) rt_fail("workers","lace_start(%u) created %d threads",n,rt_workers_created());
        if (lace_is_worker()) rt_fail("identity","lace_is_worker() is 1 in the thread that called lace_start");
        int nc=PR->cmin+(int)(mix(s,4)%(uint64_t)(PR->cmax-PR->cmin+1));
        pthread_t th[16]; Client cl[16];
        for (int i=0;i<nc;i++) { cl[i].seed=mix(s,60+i); cl[i].id=i; if (pthread_create(&th[i],0,client,&cl[i])) rt_inconclusive("cannot create a client"); }
        main_client(mix(s,5), nc==0);
        for (int i=0;i<nc;i++) pthread_join(th[i],0);
        lace_stop();
        /* resources: every thread is gone; memory may be kept for later, but must not pile up */
        int left=rt_settle(-1);
        if (left) rt_fail("threads-left","%d Lace worker threads are not released after lace_stop()",left);
        if (cy==0) kept=rt_live_allocs();
        else if (PR->lifecycle && n<=maxn && rt_live_allocs()>kept) rt_fail("memory-left","%d blocks of memory are not released after lace_stop(), %d after the first one",rt_live_allocs(),kept);
        else if (rt_live_allocs()>kept) kept=rt_live_allocs();
        if (n>maxn) maxn=n;
        m_final(0);
    }
}
