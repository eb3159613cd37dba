/* Few pending tasks, taken by thieves just when their owner wants them back: one operation on the youngest of them, then
 * possibly a frame, new tasks, a re-entry from a plain function, and then the others. Many rounds in one execution. */
#include <string.h>
#include <stdlib.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
#include "g.h"
static uint64_t mseed;
#define MULTI_SEED mseed
#define MULTI_NOZERO
#include "multi.h"
static int wn; static uint64_t sd; static uint64_t rnd(void){ sd=g_mix(sd,77); return sd; }
static int rnge(int a,int b){ return a+(int)(rnd()%(uint64_t)(b-a+1)); }
#define NI 64
static volatile int started[NI], ended[NI], by[NI], infr, copies; static int F, D, T, R;
static int val(int i) { return i*7+3; }
VOID_TASK_DECL_1(frame,int)
VOID_TASK_DECL_1(sub,int)
TASK_1(int, item, int, i)
{
    if (i>=0) {
        if (infr && i<NI/2) rt_fail("frame","task %d, which does not belong to the frame, runs during the frame",i);
        if (__atomic_fetch_add(&started[i],1,5)) rt_fail("twice","task %d is executed twice",i);
        by[i]=(int)LACE_WORKER_ID; if ((i*37+(int)(mseed>>9))%5==0) rt_pause();
        ended[i]=1;
    }
    return i+0>=0?val(i):-1;
}
MULTI_T(int,item,int)
static int off[NI]; 
static void check_sync(int i, int v) { if (v!=val(i)) rt_fail("value","task %d returns a wrong value",i); if (started[i]!=1||!ended[i]) rt_fail("lost","the sync of task %d returns, it was executed %d times%s",i,started[i],ended[i]?"":" and has not ended"); started[i]=ended[i]=0; g_events++; }
#define SYNCI(i) check_sync(i,SYNCT(int,item,val(i),))
static void check_drop(int i, int me) { if (started[i]>1) rt_fail("twice","dropped task %d was executed twice",i); if (started[i]&&!ended[i]) rt_fail("early","the drop of task %d returns while it runs",i); if (started[i]&&by[i]==me) rt_fail("own","task %d is executed by the worker that drops it",i); off[i]=!started[i]; started[i]=ended[i]=0; g_aux[1]++; }
/* no task may still start that was dropped before: looked at later */
static __attribute__((noinline)) void again(int base)
{
    LACE_VARS int k=rnge(1,2); for (int j=0;j<k;j++) SPAWNM(item,base+j); for (int j=k-1;j>=0;j--) SYNCI(base+j);
}
VOID_TASK_IMPL_1(sub, int, base) { int k=rnge(1,3); for (int j=0;j<k;j++) SPAWNM(item,base+j); if (rnd()&1) LACE_MAKE_ALL_SHARED(); for (int j=k-1;j>=0;j--) SYNCI(base+j); }
VOID_TASK_IMPL_1(frame, int, base) { if (infr++) rt_fail("frame","two frames at once"); if (rnd()&1) CALL(sub,base); if (rnd()&1) for (int p=rnge(0,20);p>0;p--) rt_pause(); infr--; }
VOID_TASK_1(copy, int, x) { __atomic_fetch_add(&copies,x,5); }
VOID_TASK_1(rootlast, int, n)
{
    for (int r=0;r<n;r++) {
        int me=(int)LACE_WORKER_ID, k=rnge(1,8), at=rnge(0,k), share=rnge(0,2);
        for (int j=0;j<k;j++) { if (share==1 && j==at) LACE_MAKE_ALL_SHARED(); SPAWNM(item,j); }
        if (share) LACE_MAKE_ALL_SHARED();
        for (int p=rnge(0,3)?0:rnge(0,40);p>0;p--) rt_pause();
        int j=k-1, nf=0;
        while (j>=0) {
            if (D && rnge(0,2)==0) { DROP(); check_drop(j,me); } else SYNCI(j);
            j--;
            int what=rnge(0,5);
            if (F && what<2 && nf<3) { nf++; NEWFRAME(frame,NI/2); g_aux[2]++; }
            else if (T && (F?what==3:what<2) && nf<3) { nf++; copies=0; TOGETHER(copy,1); if (copies!=wn) rt_fail("copies","%d copies on %d workers",copies,wn); g_aux[3]++; }
            else if (R && what<3) again(NI/2+8);
            else if (what==4) { CALL(sub,NI/2+16); }
            else if (what==5 && j<k-3 && k<20) { int m=rnge(1,3); for (int q=0;q<m;q++) SPAWNM(item,20+q); if (rnd()&1) LACE_MAKE_ALL_SHARED(); for (int q=m-1;q>=0;q--) SYNCI(20+q); }
        }
    }
}
void g_prepare(uint64_t seed, sim_cfg *c) { (void)seed; c->soft=1500000; c->hard=8000000; if (c->qmean<4) c->pstall=(seed>>3)%3==0?0.01:0.003; }
void gadget(void *a)
{
    sd=*(uint64_t*)a; mseed=g_mix(sd,991); memset((void*)started,0,sizeof started); memset((void*)ended,0,sizeof ended); infr=0;
    F=strstr(g_profile,"frame")!=0; T=strstr(g_profile,"tog")!=0; D=strstr(g_profile,"drop")!=0; R=strstr(g_profile,"re")!=0;
    wn=rnge(2,5); rt_lace_region(1); lace_start((unsigned)wn, 100); rt_lace_region(0);
    RUN(rootlast,F||T?12:20);
    for (int i=0;i<NI;i++) if (started[i]) rt_fail("late","a dropped task was executed later");
    g_aux[0]+=(uint64_t)wn;
    lace_stop();
}
