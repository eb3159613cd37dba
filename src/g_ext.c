/* C10: clients may run tasks at the same time. The tasks of all clients wait for each other, so that nothing ends when one
 * client has to wait for the task of another to end before its own is started. */
#include <string.h>
#include <stdlib.h>
#include <pthread.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
#include "g.h"
static uint64_t mseed;
#define MULTI_SEED mseed
#include "multi.h"
static int wn, m, rounds; static volatile int arrived; static uint64_t sd; static volatile int ran[8][8];
static uint64_t rnd(void){ sd=g_mix(sd,77); return sd; }
static int rnge(int a,int b){ return a+(int)(rnd()%(uint64_t)(b-a+1)); }
/* no synchronization inside: a worker that waits for a stolen task may execute the task of another client on top of this one */
VOID_TASK_DECL_1(meet, int)
static volatile int zc[8];
/* a task without parameters serves for any client: what counts is how many are there */
static void meet_zput(int i) { (void)i; }
static void meet_zrun(WorkerP *__lace_worker, Task *__lace_dq_head) { CALL(meet,-1); }
MULTI_V(meet,int)
VOID_TASK_IMPL_1(meet, int, x)
{
    int a=__atomic_add_fetch(&arrived,1,5), r=(a-1)/m;
    if (x>=0 && __atomic_fetch_add(&ran[x&7][x>>3],1,5)) rt_fail("twice","the task of client %d is executed twice",x&7);
    while (arrived<(r+1)*m) rt_pause();
}
static void *client(void *p)
{
    int id=(int)(intptr_t)p;
    for (int r=0;r<rounds;r++) {
        uint64_t s=g_mix(mseed,(uint64_t)(id*100+r)); int k=1+(int)(s%MK), x=id+8*r;
        for (int w=(int)(s>>20)%6;w>0;w--) rt_pause();
        RUNK(RUN,meet,k,x);
        if (arrived<(r+1)*m) rt_fail("early","RUN returned before the task has ended");
        if (MARITY(k) && ran[id][r]!=1) rt_fail("lost","the task of client %d was executed %d times",id,ran[id][r]);
    }
    return 0;
}
void g_prepare(uint64_t seed, sim_cfg *c) { (void)seed; c->soft=600000; c->hard=6000000; }
void gadget(void *a)
{
    sd=*(uint64_t*)a; mseed=g_mix(sd,991); arrived=0; memset((void*)ran,0,sizeof ran);
    wn=rnge(2,6); m=rnge(2,wn); rounds=rnge(1,3); int susp=(rnd()&3)==0;
    rt_lace_region(1); lace_start((unsigned)wn, 300); rt_lace_region(0);
    if (susp) lace_suspend();
    pthread_t t[8];
    for (int i=1;i<m;i++) if (pthread_create(&t[i],0,client,(void*)(intptr_t)i)) rt_fail("harness","client");
    client(0);
    for (int i=1;i<m;i++) pthread_join(t[i],0);
    if (arrived!=m*rounds) rt_fail("lost","%d tasks were executed instead of %d",arrived,m*rounds);
    g_events+=(uint64_t)arrived; g_aux[0]+=(uint64_t)susp;
    if (susp) lace_resume();
    lace_stop();
}
