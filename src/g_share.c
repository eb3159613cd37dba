/* C06: idle workers obtain available work; waiting workers help. Everything here needs several workers at once:
 * if work is not passed on, the execution does not end and the step bound reports it. */
#include <string.h>
#include <stdlib.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
#include "g.h"
static uint64_t mseed;
#define MULTI_SEED mseed
#include "multi.h"
#define MX 256
static volatile int release_all, nstarted; static volatile int started[MX], done[MX], on[MX]; static int wn;
static uint64_t sd; static uint64_t rnd(void){ sd=g_mix(sd,77); return sd; }
static int rnge(int a,int b){ return a+(int)(rnd()%(uint64_t)(b-a+1)); }
static void begin(int i){ if (started[i]) rt_fail("twice","task %d started twice",i); on[i]=rt_tid(); started[i]=1; __atomic_fetch_add(&nstarted,1,5); }
MULTI_VLIST(blk,int)
MULTI_V(blk,int)
VOID_TASK_IMPL_1(blk, int, i) { begin(i); while (!release_all) rt_pause(); done[i]=1; }
TASK_1(int, triv, int, i) { return i+1; }
static void triv_zput(int i) { (void)i; }
static int triv_zrun(WorkerP *w, Task *h) { (void)w; (void)h; return 1; }
MULTI_T(int,triv,int)
static int blkcount(int k){ int c=0; for(int i=0;i<k;i++) c+=started[i]; return c; }
/* leaves the queue of the calling worker in some state; everything synced again */
VOID_TASK_1(prelude, int, kind)
{
    int k=rnge(1,6);
    for (int j=0;j<k;j++) SPAWNM(triv,j);
    if (kind&1) LACE_MAKE_ALL_SHARED();
    if (kind&2) for (int p=rnge(0,60);p>0;p--) rt_pause();
    for (int j=k-1;j>=0;j--) if (SYNCT(int,triv,j+1,)!=j+1) rt_fail("value","wrong result");
}
VOID_TASK_1(all_, int, deep)
{
    if (deep>0) { int o=rnge(0,2); for(int j=0;j<o;j++) SPAWNM(triv,j); CALL(all_,deep-1); for(int j=o-1;j>=0;j--) if (SYNCT(int,triv,j+1,)!=j+1) rt_fail("value","wrong result"); return; }
    if (rnd()&1) CALL(prelude,(int)(rnd()&3));
    int k=rnge(1,wn+2), pre=rnge(0,k);
    for (int i=0;i<k;i++) { if (i==pre) LACE_MAKE_ALL_SHARED(); SPAWNM(blk,i); }
    LACE_MAKE_ALL_SHARED();
    int need=k<wn-1?k:wn-1;
    while (blkcount(k)<need) rt_pause();     /* no cooperation */
    g_events+=need; release_all=1;
    for (int i=0;i<k;i++) SYNCV(blk);
    for (int i=0;i<k;i++) if (!done[i]) rt_fail("lost","task %d did not run",i);
}
VOID_TASK_1(more_, int, mode)
{
    if (rnd()&1) CALL(prelude,(int)(rnd()&3));
    int k=rnge(1,wn+2), need=k<wn-1?k:wn-1;
    for (int i=0;i<k;i++) SPAWNM(blk,i);
    while (blkcount(k)<need) {
        int t=rnge(1,3); for(int j=0;j<t;j++) SPAWNM(triv,j);
        for(int j=t-1;j>=0;j--) { if (mode && (rnd()&1)) DROP(); else if (SYNCT(int,triv,j+1,)!=j+1) rt_fail("value","wrong result"); }
        if ((rnd()&7)==0) rt_pause();
    }
    g_events+=need; release_all=1;
    for (int i=0;i<k;i++) SYNCV(blk);
    for (int i=0;i<k;i++) if (!done[i]) rt_fail("lost","task %d did not run",i);
}
/* occupy all workers but the caller and one other */
MULTI_VLIST(hold,volatile int*)
MULTI_V(hold,volatile int*)
VOID_TASK_IMPL_1(hold, volatile int*, flag) { __atomic_fetch_add(&nstarted,1,5); while (!*flag) rt_pause(); }
static volatile int xs, fr2;
/* never more than one task at a time besides those already taken */
TASK_1(int, mark, int, me) { if (rt_tid()!=me) { xs=1; } return me; }
static volatile int mark_owner; static void mark_zput(int me) { mark_owner=me; }
static int mark_zrun(WorkerP *__lace_worker, Task *__lace_dq_head) { return CALL(mark,mark_owner); }
MULTI_T(int,mark,int)
VOID_TASK_1(single_, int, mode)
{
    if (rnd()&1) CALL(prelude,(int)(rnd()&3));
    int f=rnge(0,wn-2);
    for (int i=0;i<f;i++) SPAWNM(hold,&fr2);
    if (f) { LACE_MAKE_ALL_SHARED(); while (nstarted<f) rt_pause(); }
    int got=0;
    for (int n=rnge(1,3);n>0;n--) { xs=0;
        while (!xs) { SPAWNM(mark,rt_tid()); if (mode==2 || (rnd()&1)) rt_wait_others(300); else for(int p=rnge(1,8);p>0;p--) rt_pause(); if (mode==1 && (rnd()&1)) DROP(); else SYNCT(int,mark,0,); }
        got++; }
    g_events+=got; fr2=1;
    for (int i=0;i<f;i++) SYNCV(hold);
}
/* idle workers have looked at the queue; the owner only syncs: something must be handed out */
VOID_TASK_0(synconly_)
{
    int k=rnge(1,6), t=rnge(1,5);
    if (rnd()&1) {
        /* idle workers ask while a task is outstanding that is synced next, so that the answer is given by the sync */
        k=rnge(1,4); int need=k<wn-1?k:wn-1;
        for (int i=0;i<k;i++) SPAWNM(blk,i);
        for (int r=0;r<k+3 && blkcount(k)<need;r++) { SPAWNM(triv,r); rt_wait_others(600); if (SYNCT(int,triv,r+1,)!=r+1) rt_fail("value","wrong result"); }
        rt_wait_others(600);
        if (blkcount(k)<need) rt_fail("starvation","%d idle workers got %d of %d outstanding tasks although the owner spawned and synced %d more tasks since",wn-1,blkcount(k),k,k+3);
        g_events++; release_all=1;
        for (int i=k-1;i>=0;i--) SYNCV(blk);
        return;
    }
    for (int i=0;i<k;i++) SPAWNM(blk,i);
    for (int j=0;j<t;j++) SPAWNM(triv,j);
    for (int j=t-1;j>=0;j--) { rt_wait_others(600); if (SYNCT(int,triv,j+1,)!=j+1) rt_fail("value","wrong result"); }
    rt_wait_others(1500);
    if (blkcount(k)<1) rt_fail("starvation","%d idle workers got none of %d outstanding tasks although the owner synced %d times since they asked",wn-1,k,t);
    g_events++; release_all=1;
    for (int i=0;i<k;i++) SYNCV(blk);
}
static volatile int fill_release, leapt, tstart; static int owner;
MULTI_VLIST(leaf,int)
MULTI_V(leaf,int)
VOID_TASK_IMPL_1(leaf, int, i) { begin(i); __atomic_fetch_add(&leapt,1,5); if (rt_tid()!=owner) rt_fail("harness","task of the thief was taken by an unexpected thread"); }
MULTI_VLIST(thief_task,int)
MULTI_V(thief_task,int)
VOID_TASK_IMPL_1(thief_task, int, kids)
{
    tstart=1;
    for (int i=0;i<kids;i++) { SPAWNM(leaf,i); if (rnd()&1) LACE_MAKE_ALL_SHARED(); }
    LACE_MAKE_ALL_SHARED();
    while (leapt<kids) rt_pause();           /* only the waiting owner can run them */
    for (int i=0;i<kids;i++) SYNCV(leaf);
}
VOID_TASK_0(leap_)
{
    int f=wn-2; owner=rt_tid();
    for (int i=0;i<f;i++) SPAWNM(hold,&fill_release);
    LACE_MAKE_ALL_SHARED();
    while (nstarted<f) rt_pause();
    nstarted=0;
    int kids=rnge(1,5), below=rnge(0,2);
    SPAWNM(thief_task,kids); LACE_MAKE_ALL_SHARED();
    while (!tstart) rt_pause();
    for (int j=0;j<below;j++) { SPAWNM(triv,j); if(SYNCT(int,triv,j+1,)!=j+1) rt_fail("value","wrong result"); }
    if (rnd()&1) SYNCV(thief_task); else DROP();      /* waiting for a stolen task: must leapfrog */
    if (leapt!=kids) rt_fail("lost","leapfrogged tasks lost");
    g_events+=kids; fill_release=1;
    for (int i=0;i<f;i++) SYNCV(hold);
}
/* mutual leapfrogging: each level is available only at the worker that took the level above */
static volatile int lvl_started[MX]; static int maxlvl;
MULTI_VLIST(chain,int)
MULTI_V(chain,int)
VOID_TASK_IMPL_1(chain, int, l)
{
    lvl_started[l]=rt_tid()+1;
    if (l<maxlvl) {
        SPAWNM(chain,l+1); LACE_MAKE_ALL_SHARED();
        while (!lvl_started[l+1]) rt_pause();
        if (lvl_started[l+1]==lvl_started[l]) rt_fail("harness","chain");
        SYNCV(chain);
    }
}
VOID_TASK_0(leapdeep_)
{   /* level l+1 is taken from worker(l) while worker(l-1) waits for level l */
    int f=wn-2; owner=rt_tid(); maxlvl=2;
    for (int i=0;i<f;i++) SPAWNM(hold,&fill_release);
    LACE_MAKE_ALL_SHARED();
    while (nstarted<f) rt_pause();
    SPAWNM(chain,0); LACE_MAKE_ALL_SHARED();
    while (!lvl_started[0]) rt_pause();
    /* level 0 runs on the other worker and waits until level 1 is started: by us, leapfrogging;
     * level 1 waits until level 2 is started: by the other worker, which by then waits for level 1 */
    SYNCV(chain);
    for (int l=0;l<=maxlvl;l++) if (!lvl_started[l]) rt_fail("lost","level %d",l);
    g_events+=2; fill_release=1;
    for (int i=0;i<f;i++) SYNCV(hold);
}
/* the thief has nothing, but another worker has */
static volatile int xstarted, have, w_ready;
VOID_TASK_0(xleaf) { xstarted=rt_tid()+1; }
MULTI_VLIST(holder_w,int)
MULTI_V(holder_w,int)
VOID_TASK_IMPL_1(holder_w, int, dummy) { w_ready=1; while (!have) rt_pause(); SPAWN(xleaf); LACE_MAKE_ALL_SHARED(); while (!xstarted) rt_pause(); SYNC(xleaf); }
VOID_TASK_0(empty_thief) { tstart=1; while (!xstarted) rt_pause(); }
VOID_TASK_0(leaprandom_)
{
    int f=wn-3;
    for (int i=0;i<f;i++) SPAWNM(hold,&fill_release);
    LACE_MAKE_ALL_SHARED();
    while (nstarted<f) rt_pause();
    SPAWNM(holder_w,0); SPAWN(empty_thief); LACE_MAKE_ALL_SHARED();
    while (!tstart || !w_ready) rt_pause();
    have=1;
    SYNC(empty_thief);                     /* only we can run xleaf, and only by helping a third worker */
    SYNCV(holder_w);
    if (xstarted!=rt_tid()+1) rt_fail("harness","leaprandom");
    g_events++; fill_release=1;
    for (int i=0;i<f;i++) SYNCV(hold);
}
VOID_TASK_0(stealrandom_)
{
    int f=wn-2;
    for (int i=0;i<f;i++) SPAWNM(hold,&fill_release);
    SPAWNM(holder_w,0); LACE_MAKE_ALL_SHARED();
    while (nstarted<f || !w_ready) rt_pause();
    have=1;
    while (!xstarted) STEAL_RANDOM();
    SYNCV(holder_w);
    g_events++; fill_release=1;
    for (int i=0;i<f;i++) SYNCV(hold);
}
/* a walk over (thief,victim) pairs: the only idle worker must find the only task */
static volatile int cmd; enum { C_NONE, C_RETURN, C_SPAWN, C_END };
#define CMD(w,c) ((w)*4+(c))
static volatile int holding[80], outst[80];
TASK_DECL_1(int, holder, int)
TASK_IMPL_1(int, holder, int, x)
{
    int self=(int)LACE_WORKER_ID, sp=0; holding[self]=1; __atomic_fetch_add(&nstarted,1,5);
    for (;;) {
        if (cmd==C_END) break;
        if (cmd==CMD(self,C_SPAWN)) { SPAWN(holder,0); LACE_MAKE_ALL_SHARED(); sp++; outst[self]++; cmd=C_NONE; }
        if (cmd==CMD(self,C_RETURN)) { holding[self]=0; cmd=C_NONE; break; }
        rt_pause();
    }
    while (sp--) SYNC(holder);
    return x;
}
VOID_TASK_0(pairs_)
{
    int me=(int)LACE_WORKER_ID, sp=0;
    for (int i=0;i<wn-1;i++) { SPAWN(holder,0); sp++; }
    LACE_MAKE_ALL_SHARED(); outst[me]=sp;
    while (nstarted<wn-1) rt_pause();
    for (int s=rnge(1,8);s>0;s--) {
        int cand[80], nc=0; for(int i=0;i<wn;i++) if(i!=me && !outst[i]) cand[nc++]=i;
        if (!nc) break;
        int t=cand[rnd()%(uint64_t)nc], v; do v=(int)(rnd()%(uint64_t)wn); while (v==t);
        int n0=nstarted, late=(int)(rnd()&1);
        if (!late) { cmd=CMD(t,C_RETURN); while (cmd!=C_NONE) rt_pause(); if (rnd()&1) for(int p=rnge(0,100);p>0;p--) rt_pause(); }
        if (v==me) { SPAWN(holder,0); LACE_MAKE_ALL_SHARED(); sp++; outst[me]++; }
        else { cmd=CMD(v,C_SPAWN); while (cmd!=C_NONE) rt_pause(); }
        if (late) { cmd=CMD(t,C_RETURN); while (cmd!=C_NONE) rt_pause(); }
        while (nstarted==n0) rt_pause();
        if (!holding[t]) rt_fail("harness","pairs");
        g_events++;
    }
    cmd=C_END;
    while (sp--) SYNC(holder);
}
static void reset(void)
{
    
    release_all=nstarted=fill_release=leapt=tstart=xstarted=have=w_ready=cmd=xs=fr2=0;
    memset((void*)started,0,sizeof started); memset((void*)done,0,sizeof done); memset((void*)lvl_started,0,sizeof lvl_started);
    memset((void*)holding,0,sizeof holding); memset((void*)outst,0,sizeof outst);
}
static const char *const names[]={"all","more","moredrop","synconly","leap","leapdeep","leaprandom","stealrandom","pairs","single"};
static void one(int k, int how)
{
#define GO(f,...) do { if (how==0) RUN(f,##__VA_ARGS__); else if (how==1) NEWFRAME(f,##__VA_ARGS__); else RUNEX(f,##__VA_ARGS__); } while(0)
    reset();
    switch (k) {
    case 0: GO(all_,rnge(0,3)); break;
    case 1: GO(more_,0); break;
    case 2: GO(more_,1); break;
    case 3: GO(synconly_); break;
    case 4: GO(leap_); break;
    case 5: GO(leapdeep_); break;
    case 6: GO(leaprandom_); break;
    case 7: GO(stealrandom_); break;
    case 9: GO(single_,rnge(0,2)); break;
    default: GO(pairs_); break;
    }
}
void g_prepare(uint64_t seed, sim_cfg *c) { (void)seed; c->soft=600000; c->hard=6000000; }
void gadget(void *a)
{
    sd=*(uint64_t*)a; mseed=g_mix(sd,991); int k=0; while (strcmp(names[k],g_profile)) k++;
    wn = k==6 ? rnge(3,6) : rnge(2,6);
    rt_lace_region(1); lace_start((unsigned)wn, 300); rt_lace_region(0);
    int reps=rnge(1,2);
    for (int r=0;r<reps;r++) { int how=(int)(rnd()%4); if (how==3) how=0; if ((rnd()&3)==0) { lace_suspend(); lace_resume(); } one(k,how); }
    lace_stop();
}
