/* C19: a resource is refused while Lace starts: the program must end with a failure status and a message */
#define _GNU_SOURCE
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <unistd.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
#include "g.h"
static uint64_t sd; static uint64_t rnd(void){ sd=g_mix(sd,77); return sd; }
static int rnge(int a,int b){ return a+(int)(rnd()%(uint64_t)(b-a+1)); }
static int wn, before; static char *mem; static size_t memn; static FILE *rerr;
static void on_exit_(int code)
{
    fflush(stderr); FILE *ms=stderr; stderr=rerr; fclose(ms);
    if ((code&0xff)==0) rt_fail("exit-status","the program ended with status %d although a resource was refused",code);
    if (!simstats.create_failed && !simstats.alloc_failed) rt_fail("exit","unexpected exit(%d)",code);
    size_t n=0; for (char*p=mem;p&&*p;p++) if (*p>' ') n++;
    if (n<8) rt_fail("no-message","the program ended without an error message although a resource was refused");
    fprintf(sim_stdout(),"E %llx 0 1 0 1 0 0 0 0 0 1 0 0\n",(unsigned long long)sd);
}
TASK_1(int, fibo, int, n) { if (n<2) return n; SPAWN(fibo,n-1); int a=CALL(fibo,n-2); return a+SYNC(fibo); }
void g_prepare(uint64_t seed, sim_cfg *c)
{
    sd=seed; wn=rnge(1,6); before=(rnd()&3)==0;
    c->crash_ok=1;
    if (!strcmp(g_profile,"failcreate")) c->fail_create=before*wn+rnge(1,wn);
    else if (!strcmp(g_profile,"failalloc")) c->fail_alloc=before*(4+wn)+rnge(1,4+wn);
    c->soft=100000; c->hard=2000000;
}
void gadget(void *a)
{
    sd=*(uint64_t*)a^0x55; (void)a;
    rerr=stderr; stderr=open_memstream(&mem,&memn);
    sim_on_exit(on_exit_);
    for (int cy=0; cy<=before; cy++) {
    rt_lace_region(1); lace_start((unsigned)wn, 50); rt_lace_region(0);
    if (!simstats.alloc_failed && !simstats.create_failed) {
        /* nothing was refused: everything must work */
        if (RUN(fibo,6)!=8) rt_fail("value","wrong result");
    }
    rt_wait_others(100);   /* asynchronous failures get the time to happen */
    if (simstats.alloc_failed || simstats.create_failed) rt_fail("continued","lace_start(%d) returned although %s was refused",wn,simstats.create_failed?"a thread":"memory");
    lace_stop();
    }
    stderr=rerr; g_aux[0]=1;
}
