/* C17: the numbers of the report against what happened */
#define _GNU_SOURCE
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <pthread.h>
#ifdef LACE14
#include <lace14.h>
#else
#include <lace.h>
#endif
#include "g.h"
static uint64_t mseed;
#define MULTI_SEED mseed
#define MULTI_NOZERO
#include "multi.h"
#define M48 ((1ull<<48)-1)
#define PACK(s,d,w) (((s)&M48)|((uint64_t)(d)<<48)|((uint64_t)((w)+1)<<56))
#define MW 9
static int wn; static uint64_t sd; static uint64_t rnd(void){ sd=g_mix(sd,77); return sd; }
static int rnge(int a,int b){ return a+(int)(rnd()%(uint64_t)(b-a+1)); }
static uint64_t c_spawn[MW], c_stolen[MW];     /* since the last reset */
static volatile int nostat;
typedef struct { int w; uint64_t seed; int depth; } Arg;
#define INC(x) __atomic_fetch_add(&(x),1,5)
static uint64_t val(uint64_t seed,int depth){ seed&=M48; uint64_t h=seed; int k=(int)(g_mix(seed,1)%4); if(depth>0) for(int i=0;i<k;i++) h=g_mix(h,val(g_mix(seed,10+i),depth-1)); return h; }
TASK_DECL_1(uint64_t, node, uint64_t)
MULTI_T(uint64_t,node,uint64_t)
TASK_IMPL_1(uint64_t, node, uint64_t, x)
{
    uint64_t seed=x&M48; int depth=(int)(x>>48)&255, spawner=(int)(x>>56)-1;
    int me=(int)LACE_WORKER_ID;
    if (spawner>=0 && spawner!=me) INC(c_stolen[me]);
    uint64_t h=seed; int k=(int)(g_mix(seed,1)%4);
    if (depth>0) {
        if (g_mix(seed,2)%7==0) LACE_MAKE_ALL_SHARED();
        for (int i=k-1;i>=0;i--) { INC(c_spawn[me]); SPAWNM(node,PACK(g_mix(seed,10+i),depth-1,me)); if (g_mix(seed,3+i)%5==0) rt_pause(); }
        if (g_mix(seed,4)%9==0) STEAL_RANDOM();
        for (int i=0;i<k;i++) h=g_mix(h,SYNCT(uint64_t,node,val(g_mix(seed,10+i),depth-1),));
    } else if (seed%3==0) rt_pause();
    return h;
}
VOID_TASK_1(tog, uint64_t, seed) { CALL(node,PACK(seed,3,-1)); }
VOID_TASK_1(dropper, uint64_t, seed)
{   int me=(int)LACE_WORKER_ID, k=1+(int)(seed%5); for(int i=0;i<k;i++) { INC(c_spawn[me]); SPAWNM(node,PACK(g_mix(seed,i),1,me)); } if (seed&64) LACE_MAKE_ALL_SHARED(); if (seed&128) rt_pause(); for(int i=0;i<k;i++) DROP(); }
/* controlled: one steal and one leap (two workers) */
static volatile int t_started, c_done;
TASK_0(int,kid) { INC(c_stolen[LACE_WORKER_ID]); c_done=1; return 1; }
VOID_TASK_0(stolen) { INC(c_stolen[LACE_WORKER_ID]); INC(c_spawn[LACE_WORKER_ID]); SPAWN(kid); LACE_MAKE_ALL_SHARED(); t_started=1; /* from now on the first leap finds it */ while (!c_done) rt_pause(); SYNC(kid); }
static int leaper;
VOID_TASK_0(leaproot) { t_started=c_done=0; leaper=(int)LACE_WORKER_ID; INC(c_spawn[leaper]); SPAWN(stolen); LACE_MAKE_ALL_SHARED(); while(!t_started) rt_pause(); SYNC(stolen); }
/* ---- the report */
typedef struct { int has_tasks, has_steals, has_splits, has_pie; unsigned long long tasks[MW+1], steals[MW+1], sbusy[MW+1], stries[MW+1], leaps[MW+1], lbusy[MW+1], ltries[MW+1], shr[MW+1], grw[MW+1], req[MW+1], tps[MW+1]; int ntasks,nsteals,nsplits,npie,ntps; } Rep;
static int widx(const char *s){ if(!strncmp(s,"sum",3)) return MW; int i=atoi(s); if(i<0||i>=wn) rt_fail("report","line for worker %d of %d",i,wn); return i; }
static Rep parse(const char *txt)
{
    Rep r; memset(&r,0,sizeof r); char *d=strdup(txt), *sv=0;
    for (char *l=strtok_r(d,"\n",&sv); l; l=strtok_r(0,"\n",&sv)) {
        char w[32]; unsigned long long a,b,c,e,f,g; double x;
        if (sscanf(l,"Tasks (%30[^)]): %llu",w,&a)==2) { r.tasks[widx(w)]=a; r.ntasks++; }
        else if (sscanf(l,"Steals (%30[^)]): %llu good/%llu busy of %llu tries; leaps: %llu good/%llu busy of %llu tries",w,&a,&b,&c,&e,&f,&g)==7) { int i=widx(w); r.steals[i]=a; r.sbusy[i]=b; r.stries[i]=c; r.leaps[i]=e; r.lbusy[i]=f; r.ltries[i]=g; r.nsteals++; }
        else if (sscanf(l,"Splits (%30[^)]): %llu shrinks, %llu grows, %llu outgoing",w,&a,&b,&c)==4) { int i=widx(w); r.shr[i]=a; r.grw[i]=b; r.req[i]=c; r.nsplits++; }
        else if (sscanf(l,"Tasks per steal (%30[^)]): %llu",w,&a)==2) { r.tps[widx(w)]=a; r.ntps++; }
        else if (sscanf(l,"%*[A-Za-z ](%30[^)]): %lf ms",w,&x)==2) { widx(w); r.npie++; if (x!=x || x<-1e6) rt_fail("report","not a time: %s",l); }
    }
    free(d); return r;
}
static char *take(int how)
{
    char *m=0; size_t n=0; FILE *f=open_memstream(&m,&n);
#if LACE_COUNT_EVENTS
    if (how==0) lace_count_report_file(f); else
#endif
    { FILE *o=stdout; stdout=f; lace_stop(); fflush(f); stdout=o; }
    fclose(f); return m;
}
static uint64_t pend;   /* split requests that may be pending from before the last reset */
static void check(const char *txt, int exact, const char *when)
{
    Rep r=parse(txt);
#define COUNT(n,want,what) if ((n)!=(want)) rt_fail("report","%s: %d lines about %s for %d workers",when,(n),what,wn)
#if LACE_COUNT_TASKS
    COUNT(r.ntasks,wn+1,"tasks");
#else
    COUNT(r.ntasks,0,"tasks");
#endif
#if LACE_COUNT_STEALS
    COUNT(r.nsteals,wn+1,"steals");
#else
    COUNT(r.nsteals,0,"steals");
#endif
#if LACE_COUNT_SPLITS
    COUNT(r.nsplits,wn+1,"splits");
#else
    COUNT(r.nsplits,0,"splits");
#endif
#if LACE_PIE_TIMES
    if (r.npie<8*(wn+1)) rt_fail("report","%s: %d lines of times",when,r.npie);
#else
    COUNT(r.npie,0,"times");
#endif
    if (!exact) return;
    uint64_t s[10]={0};
    for (int i=0;i<wn;i++) {
        s[0]+=r.tasks[i]; s[1]+=r.steals[i]; s[2]+=r.sbusy[i]; s[3]+=r.stries[i]; s[4]+=r.leaps[i]; s[5]+=r.lbusy[i]; s[6]+=r.ltries[i]; s[7]+=r.shr[i]; s[8]+=r.grw[i]; s[9]+=r.req[i];
        if (r.ntasks && r.tasks[i]!=c_spawn[i]) rt_fail("count-tasks","%s: worker %d spawned %llu tasks, reported are %llu",when,i,(unsigned long long)c_spawn[i],r.tasks[i]);
        if (r.nsteals && r.steals[i]+r.leaps[i]!=c_stolen[i]) rt_fail("count-steals","%s: worker %d executed %llu tasks of others, reported are %llu steals and %llu leaps",when,i,(unsigned long long)c_stolen[i],r.steals[i],r.leaps[i]);
        if (r.nsteals && (r.stries[i]<r.steals[i]+r.sbusy[i] || r.ltries[i]<r.leaps[i]+r.lbusy[i])) rt_fail("count-tries","%s: fewer tries than outcomes at worker %d: %s",when,i,txt);
        if (r.ntasks && r.nsplits && r.shr[i]>r.tasks[i]) rt_fail("count-splits","%s: worker %d shrank its shared part more often than it spawned tasks",when,i);
    }
    if (s[0]!=r.tasks[MW]||s[1]!=r.steals[MW]||s[2]!=r.sbusy[MW]||s[3]!=r.stries[MW]||s[4]!=r.leaps[MW]||s[5]!=r.lbusy[MW]||s[6]!=r.ltries[MW]||s[7]!=r.shr[MW]||s[8]!=r.grw[MW]||s[9]!=r.req[MW]) rt_fail("count-sum","%s: sums are wrong: %s",when,txt);
    if (r.nsplits && s[8]>s[9]+pend) rt_fail("count-splits","%s: %llu grows but only %llu requests",when,(unsigned long long)s[8],(unsigned long long)s[9]);
    if (r.ntasks && r.nsteals) {
        for (int i=0;i<wn;i++) if (c_stolen[i] && r.tps[i]!=c_spawn[i]/c_stolen[i]) rt_fail("count-quotient","%s: tasks per steal of worker %d is %llu",when,i,r.tps[i]);
        uint64_t st=s[1]+s[4]; if (st && r.tps[MW]!=s[0]/st) rt_fail("count-quotient","%s: tasks per steal is %llu",when,r.tps[MW]);
    }
    g_aux[0]++; for (int i=0;i<wn;i++) g_events+=c_stolen[i];
}
static void zero(const char *txt)
{
    Rep r=parse(txt);
    for (int i=0;i<=MW;i++) if (r.tasks[i]|r.steals[i]|r.sbusy[i]|r.stries[i]|r.leaps[i]|r.lbusy[i]|r.ltries[i]|r.shr[i]|r.grw[i]|r.req[i]|r.tps[i]) rt_fail("count-reset","not zero after a reset: %s",txt);
    g_aux[1]++;
}
static int n_steals_expected=-1;
static void some(void)
{
    for (int k=rnge(0,3);k>0;k--) {
        uint64_t s=rnd();
        switch (rnd()%6) {
        case 0: case 1: { int d=rnge(1,4); uint64_t r=RUN(node,PACK(s,d,-1)); if (r!=val(s,d)) rt_fail("value","wrong result"); break; }
        case 2: { int d=rnge(1,3); uint64_t r=NEWFRAME(node,PACK(s,d,-1)); if (r!=val(s,d)) rt_fail("value","wrong result"); break; }
        case 3: TOGETHER(tog,s); break;
        case 4: RUN(dropper,s); break;
        default: RUNEX(node,PACK(s,2,-1)); break;
        }
    }
}
void g_prepare(uint64_t seed, sim_cfg *c) { (void)seed; c->soft=600000; c->hard=6000000; }
void gadget(void *a)
{
    sd=*(uint64_t*)a; mseed=g_mix(sd,991); (void)n_steals_expected;
    char *em=0; size_t en=0; FILE *oe=stderr; stderr=open_memstream(&em,&en);
    for (int cy=rnge(1,2);cy>0;cy--) {
        int leap=!strcmp(g_profile,"leap");
        wn=leap?2:rnge(1,6);
        memset(c_spawn,0,sizeof c_spawn); memset(c_stolen,0,sizeof c_stolen); pend=0;
        rt_lace_region(1); lace_start((unsigned)wn, 300); rt_lace_region(0);
        int clean=1;
#if LACE_COUNT_EVENTS
        if (!leap) switch (rnd()%4) {       /* right at the beginning */
        case 0: { char *m=take(0); check(m,0,"right after start"); free(m); break; }
        case 1: lace_count_reset(); pend+=(uint64_t)wn; clean=0; break;   /* races with the running workers: no exact numbers */
        default: break;
        }
#endif
        if (leap) {
            for (int k=rnge(1,4);k>0;k--) { if (rnd()&1) RUN(leaproot); else NEWFRAME(leaproot); }
#if LACE_COUNT_STEALS
            lace_suspend();
            char *m=take(0); Rep r=parse(m); uint64_t st=0,lp=0; for(int i=0;i<wn;i++){ st+=r.steals[i]; lp+=r.leaps[i]; }
            if (st!=lp || st+lp!=c_stolen[0]+c_stolen[1]) rt_fail("count-leaps","%llu tasks were stolen and as many leapt, reported are %llu steals and %llu leaps",(unsigned long long)(c_stolen[0]+c_stolen[1])/2,(unsigned long long)st,(unsigned long long)lp);
            check(m,1,"after leaps"); free(m);
            lace_resume();
#endif
        } else for (int ph=rnge(1,3);ph>0;ph--) {
            some();
            lace_suspend();
#if LACE_COUNT_EVENTS
            char *m=take(0); check(m,clean,"while suspended"); free(m);
            if (rnd()&1) {
                lace_count_reset(); clean=1; pend=(uint64_t)wn;
                memset(c_spawn,0,sizeof c_spawn); memset(c_stolen,0,sizeof c_stolen);
                m=take(0); zero(m); free(m);
            }
#endif
            lace_resume();
            some();
#if LACE_COUNT_EVENTS
            if (rnd()&1) { m=take(0); check(m,0,"while running"); free(m); }
#endif
        }
        char *m=take(1); check(m,clean,"at the end"); free(m);
    }
    fflush(stderr); if (en) rt_fail("stderr","printed an error: %.200s",em);
    FILE *x=stderr; stderr=oe; fclose(x); free(em);
}
