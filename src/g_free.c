/* C23: spawning is wait-free, stealing is lock-free. Thieves are stopped for good after an arbitrary number of their
 * own operations; the owner and the remaining thieves must not be held up. */
#include <string.h>
#include <stdlib.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
#include "g.h"
static uint64_t mseed;
#define MULTI_SEED mseed
#include "multi.h"
#define MX 1900
#define BOUND(kind) (32+MARITY(kind))   /* operations on shared memory by one SPAWN; 13 and one for each further argument on the unchanged tree */
static volatile int st[MX], fin[MX]; static int wn; static volatile int dropped[MX];
static uint64_t sd; static uint64_t rnd(void){ sd=g_mix(sd,77); return sd; }
static int rnge(int a,int b){ return a+(int)(rnd()%(uint64_t)(b-a+1)); }
static int work[MX];
TASK_1(int, task, int, i) { if (st[i]) rt_fail("twice","task %d started twice",i); st[i]=rt_tid()+1; for (int k=work[i];k>0;k--) rt_pause(); fin[i]=1; return i*3+1; }
static volatile int zst, zfin;
static void task_zput(int i) { (void)i; }
static int task_zrun(WorkerP *w, Task *h) { (void)w; (void)h; __atomic_fetch_add(&zst,1,5); if (work[0]) rt_pause(); __atomic_fetch_add(&zfin,1,5); return 1; }
MULTI_T(int,task,int)
static int nfin(int k){ int c=0; for(int i=0;i<k;i++) c+=fin[i]; return c+zfin; }
static int nst(int k){ int c=0; for(int i=0;i<k;i++) c+=st[i]!=0; return c+zst; }
static int nfrozen(int fz[],int nf){ int c=0; for(int i=0;i<nf;i++) c+=sim_frozen(fz[i]); return c; }
VOID_TASK_1(root_, int, mode)
{
    int me=rt_tid(), fz[80], nf=0, k=rnge(10,40), all=mode==1;
    for (int t=1;t<sim_nthreads();t++) if (sim_thread_is_lace(t) && t!=me && (all || ((rnd()&1) && nf<wn-2))) { fz[nf++]=t; sim_freeze_after(t,1+rnd()%(uint64_t)(1+rnd()%700)); }
    uint64_t worst=0;
    for (int i=0;i<k;i++) {
        int kind=MKIND(__lace_dq_head); uint64_t o=sim_ops(me);
        SPAWNK(task,kind,i);
        uint64_t d=sim_ops(me)-o; if (d>worst) worst=d;
        if (d>(uint64_t)BOUND(kind)) rt_fail("not-wait-free","a SPAWN took %llu operations of the spawning worker (%d thieves stopped)",(unsigned long long)d,nfrozen(fz,nf));
        if ((rnd()&3)==0) for (int p=rnge(1,40);p>0;p--) rt_pause();
        if ((rnd()&15)==0) LACE_MAKE_ALL_SHARED();
    }
    if (g_aux[7]<worst) g_aux[7]=worst;
    if (!all) {
        /* the thieves that are left take everything but what the stopped ones have in hand */
        LACE_MAKE_ALL_SHARED();
        while (nfin(k)<k-nf) rt_pause();
        g_aux[1]+=nfin(k);
    } else {
        /* nobody is left: what no thief has taken is executed by the owner itself. Thieves take from the other end, so a
         * task is safe when all taken tasks fit below it */
        for (int p=rnge(0,3000);p>0;p--) rt_pause();
        int top=k;
        rt_wait_others(1000);                    /* everybody is stopped now */
        while (top>0 && top-1>nst(k)+nf) {
            top--; 
            if ((mode&1) && (rnd()&3)==0) { DROP(); dropped[top]=1; g_aux[2]++; }
            else { int r=SYNCT(int,task,top*3+1,fin[top]=1); if (r!=top*3+1) rt_fail("value","wrong result"); g_aux[3]++; }
            if (st[top] && st[top]!=me+1) rt_fail("harness","free");
        }
        k=top;
    }
    g_events+=(uint64_t)nfrozen(fz,nf);
    sim_thaw();
    for (int i=k-1;i>=0;i--) { int r=SYNCT(int,task,i*3+1,fin[i]=1); if (r!=i*3+1) rt_fail("value","wrong result"); }
    for (int i=0;i<k;i++) if (!fin[i]) rt_fail("lost","task %d did not run",i);
}
/* thieves that run much faster than the owner and always find tasks to take while it spawns */
VOID_TASK_0(contend_)
{
    int me=rt_tid(), k=0; uint64_t worst=0;
    for (int i=0;i<MX;i++) work[i]=0;
    for (int r=rnge(1,2);r>0;r--) {
        int stock=rnge(100,900);
        sim_weight(me,1e6);
        for (int i=0;i<stock;i++) { SPAWNM(task,k); k++; }
        sim_weight(me,1);
        if (rnd()&3) rt_wait_others(200);          /* somebody has asked for work */
        sim_weight(me,1e6);
        LACE_MAKE_ALL_SHARED();
        int a=nst(k);
        sim_weight(me,(wn-1)/((rnd()&1)?300.0:100.0));                       /* a thief makes many steps for each of the owner's */
        int kind=MKIND(__lace_dq_head); uint64_t o=sim_ops(me);
        SPAWNK(task,kind,k);
        uint64_t d=sim_ops(me)-o; sim_weight(me,1e6); if (d>worst) worst=d;
        sim_weight(me,1); g_events+=(uint64_t)(nst(k)-a); k++;
        if (d>(uint64_t)BOUND(kind)) rt_fail("not-wait-free","a SPAWN took %llu operations of the spawning worker while %d tasks were stolen",(unsigned long long)d,nst(k)-a);
    }
    if (g_aux[7]<worst) g_aux[7]=worst;
    for (int i=k-1;i>=0;i--) { int r=SYNCT(int,task,i*3+1,fin[i]=1); if (r!=i*3+1) rt_fail("value","wrong result"); }
    for (int i=0;i<k;i++) if (!fin[i]) rt_fail("lost","task %d did not run",i);
}
void g_prepare(uint64_t seed, sim_cfg *c) { (void)seed; if (!strcmp(g_profile,"contend")) { c->qmean=1; c->pstall=0; c->reweight=0; } c->soft=400000; c->hard=6000000; c->spurious=0; c->pstall=c->pstall>0.03?0.03:c->pstall; }
void gadget(void *a)
{
    sd=*(uint64_t*)a; mseed=g_mix(sd,991); int mode=!strcmp(g_profile,"all");
    wn = mode ? rnge(2,6) : rnge(3,7);
    zst=zfin=0; memset((void*)st,0,sizeof st); memset((void*)fin,0,sizeof fin); memset((void*)dropped,0,sizeof dropped);
    for (int i=0;i<MX;i++) work[i]=(rnd()&1)?0:rnge(0,30);
    rt_lace_region(1); lace_start((unsigned)wn, 2000); rt_lace_region(0);
    if (!strcmp(g_profile,"contend")) RUN(contend_);
    else if (rnd()&1) RUN(root_,mode); else RUNEX(root_,mode);
    lace_stop();
}
