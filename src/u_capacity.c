/* how many tasks a queue holds: exactly what was asked for, however the tasks get there; one more ends the program with a message */
#include "u.h"
#include <stdatomic.h>
#include <pthread.h>
typedef struct { size_t dq, before; size_t cap; int nwbefore; int way, over, nw, root, share; size_t pre; uint64_t seed; } Case;
static Case C; static const char *WAY[]={"spawn in a loop","nested calls","nested re-entry from plain functions","nested RUN","in a new frame","in a together","in a stolen task","in a task executed while waiting","after drops","random walk"};
static const char *ROOT[]={"RUN","RUNEX","NEWFRAME","TOGETHER"};
static _Atomic(unsigned char) *ran; static atomic_size_t next_id; static size_t maxid; static atomic_int stolen_started, inner_started, go;
static uint64_t val(size_t i) { return u_mix(C.seed,i)|1; }
static inline uint64_t g_mix(uint64_t a,uint64_t b) { return u_mix(a,b); }
#define MULTI_SEED C.seed
#include "multi.h"
#define BAD(k,...) u_fail(k,__VA_ARGS__)
static size_t newid(void) { size_t i=atomic_fetch_add(&next_id,1); if (i>=maxid) { printf("\nSIMINCONCLUSIVE too many tasks\n"); fflush(stdout); _exit(3); } return i; }
TASK_1(uint64_t, leaf, size_t, i) { if (atomic_fetch_add(&ran[i],1)) BAD("twice","task %zu is executed twice",i); return val(i); }
static void leaf_zput(size_t i) { (void)i; }
static atomic_size_t zexec;
static uint64_t leaf_zrun(WorkerP *w, Task *h) { (void)w; (void)h; zexec++; return 3; }
MULTI_T(uint64_t,leaf,size_t)
static inline void headis(WorkerP *w, Task *h, const char *when)
{
    WorkerP *me=lace_get_worker(); if (me!=w) BAD("identity","lace_get_worker() is not the worker the task was given (%s)",when);
    Task *g=lace_get_head(w); if (g!=h) BAD("head","lace_get_head() is entry %zd, but the end of the queue is entry %zd (%s)",(ssize_t)(g-w->dq),(ssize_t)(h-w->dq),when);
}
#define HEADIS(when) headis(__lace_worker,__lace_dq_head,when)
static inline void synced(size_t i, uint64_t r) { if (r!=val(i)) BAD("wrong-value","task %zu returned a wrong value",i); if (ran[i]!=1) BAD("lost","task %zu was executed %d times when its sync returned",i,ran[i]); }
static size_t used(WorkerP *w, Task *h) { return (size_t)(h-w->dq); }
/* k tasks in a loop */
VOID_TASK_2(fill, size_t, k, int, check)
{
    if (k==0) return;
    size_t *id=(size_t*)malloc(k*sizeof *id), step=k>600?k/97:1;
    for (size_t i=0;i<k;i++) { id[i]=newid(); SPAWNM(leaf,id[i]); if (check && (i%step==0 || i+2>k)) HEADIS("after a spawn"); if (C.share && i==k/2) LACE_MAKE_ALL_SHARED(); }
    if (C.share==2) LACE_MAKE_ALL_SHARED();
    for (size_t i=k;i>0;i--) { synced(id[i-1],SYNCT(uint64_t,leaf,val(id[i-1]),ran[id[i-1]]++)); if (check && (i%step==0 || i+2>k)) HEADIS("after a sync"); }
    free(id);
}
VOID_TASK_1(nest, size_t, k) { size_t i=newid(); SPAWNM(leaf,i); HEADIS("nested"); if (C.share && (k&1)) LACE_MAKE_ALL_SHARED(); if (k>1) CALL(nest,k-1); HEADIS("nested, after the call"); synced(i,SYNCT(uint64_t,leaf,val(i),ran[i]++)); }
VOID_TASK_1(nestrun, size_t, k) { size_t i=newid(); SPAWNM(leaf,i); HEADIS("nested run"); if (C.share && (k&1)) LACE_MAKE_ALL_SHARED(); if (k>1) { if (k&2) RUN(nestrun,k-1); else RUNEX(nestrun,k-1); } HEADIS("after a run"); synced(i,SYNCT(uint64_t,leaf,val(i),ran[i]++)); }
static __attribute__((noinline)) void plain(size_t k, WorkerP *w, Task *h)
{
    LACE_VARS
    if (__lace_worker!=w || __lace_dq_head!=h) BAD("head","LACE_VARS gives entry %zd instead of entry %zd",(ssize_t)(__lace_dq_head-w->dq),(ssize_t)(h-w->dq));
    size_t i=newid(); SPAWNM(leaf,i); if (C.share && (k&1)) LACE_MAKE_ALL_SHARED();
    if (k>1) plain(k-1,__lace_worker,__lace_dq_head);
    HEADIS("plain, after the call"); synced(i,SYNCT(uint64_t,leaf,val(i),ran[i]++));
}
/* pre tasks, then something else fills the rest */
VOID_TASK_1(togfill, size_t, rest)
{
    /* the worker that called has less left; all others are idle */
    size_t u=used(__lace_worker,__lace_dq_head); (void)rest;
    CALL(fill, C.cap-u+(C.over && (u!=0 || C.pre==0 || (C.seed&1))?1:0), 1);
}
VOID_TASK_0(stealfill) { stolen_started=1; size_t u=used(__lace_worker,__lace_dq_head); CALL(fill,C.cap-u+C.over,1); }
VOID_TASK_0(inner) { inner_started=1; size_t u=used(__lace_worker,__lace_dq_head); if (u<C.pre+1) BAD("head","a task executed while waiting for a stolen task starts at entry %zu of the queue, where pending tasks are",u); CALL(fill,C.cap-(C.pre+1)+C.over,1); }
VOID_TASK_0(outer) { stolen_started=1; SPAWN(inner); LACE_MAKE_ALL_SHARED(); while (!inner_started) {} SYNC(inner); }
VOID_TASK_0(rootbody)
{
    size_t k=C.cap+C.over, id[64], p=0; (void)p;
    if (used(__lace_worker,__lace_dq_head)!=0) BAD("head","the root task starts at entry %zu",used(__lace_worker,__lace_dq_head));
    HEADIS("root");
    switch (C.way) {
    case 0: CALL(fill,k,1); break;
    case 1: CALL(nest,k); break;
    case 2: plain(k,__lace_worker,__lace_dq_head); break;
    case 3: CALL(nestrun,k); break;
    case 4: case 5: case 6: case 7:
        for (;p<C.pre;p++) { id[p]=newid(); SPAWNM(leaf,id[p]); }
        if (C.way==4) NEWFRAME(fill,k-C.pre,1);
        else if (C.way==5) TOGETHER(togfill,0);
        else if (C.way==6) { SPAWN(stealfill); LACE_MAKE_ALL_SHARED(); while (!stolen_started) {} HEADIS("stolen"); SYNC(stealfill); }
        else { SPAWN(outer); LACE_MAKE_ALL_SHARED(); while (!stolen_started) {} SYNC(outer); }
        HEADIS("after the frame or stolen task");
        while (p>0) { p--; synced(id[p],SYNCT(uint64_t,leaf,val(id[p]),ran[id[p]]++)); HEADIS("after a sync of an earlier task"); }
        CALL(fill,C.cap,1);
        break;
    case 8: {
        size_t n=0, *st=(size_t*)malloc((k+1)*sizeof *st); uint64_t s=C.seed; size_t dropped=0;
        for (int r=0;r<3;r++) {
            while (n<C.cap) { st[n]=newid(); SPAWNM(leaf,st[n]); n++; if (C.share && (n&3)==1) LACE_MAKE_ALL_SHARED(); HEADIS("filling"); }
            size_t lo=(s=u_mix(s,r))%(n+1);
            while (n>lo) { n--; DROP(); if (ran[st[n]]>1) BAD("twice","a dropped task was executed twice"); HEADIS("after a drop"); dropped++; plain(1,__lace_worker,__lace_dq_head); }
        }
        while (n<k) { st[n]=newid(); SPAWNM(leaf,st[n]); n++; }
        while (n>0) { n--; synced(st[n],SYNCT(uint64_t,leaf,val(st[n]),ran[st[n]]++)); }
        free(st); break; }
    default: {
        size_t n=0, *st=(size_t*)malloc((k+1)*sizeof *st); uint64_t s=C.seed; int up=1;
        for (int r=0;r<400;r++) {
            s=u_mix(s,r); int a=s%16; if (n==C.cap) up=0; if (n==0) up=1;
            if (n<C.cap && (up?a<11:a<4)) { st[n]=newid(); SPAWNM(leaf,st[n]); n++; }
            else if (n>0 && a<13) { n--; synced(st[n],SYNCT(uint64_t,leaf,val(st[n]),ran[st[n]]++)); }
            else if (n>0 && a<14) { n--; DROP(); }
            else if (a<15 && n<C.cap) plain(1,__lace_worker,__lace_dq_head);
            else LACE_MAKE_ALL_SHARED();
            HEADIS("random walk");
        }
        while (n<k) { st[n]=newid(); SPAWNM(leaf,st[n]); n++; HEADIS("random walk, filling"); }
        while (n>0) { n--; synced(st[n],SYNCT(uint64_t,leaf,val(st[n]),ran[st[n]]++)); }
        free(st); }
    }
    HEADIS("root, at the end");
}
VOID_TASK_0(root) { CALL(rootbody); }
static atomic_int togs;
VOID_TASK_0(togroot) { if (atomic_fetch_add(&togs,1)==0) CALL(rootbody); }
static void child(void *x)
{
    (void)x; if (C.nwbefore) { lace_start(C.nwbefore,C.before); if (C.seed&1) RUN(fill,C.before?C.before:100,0); lace_stop(); next_id=0; memset((void*)ran,0,200000); }
    lace_start(C.nw,C.dq);
    switch (C.root) { case 0: RUN(root); break; case 1: RUNEX(root); break; case 2: NEWFRAME(root); break; default: TOGETHER(togroot); }
    lace_stop();
    if (C.over) { printf("went on\n"); }
}
int main(int argc, char **argv)
{
    u_seed=strtoull(argv[1],0,0); int level=atoi(argv[2]); (void)argc;
    static size_t sizes[200]; int ns=0;
    for (size_t i=1;i<=(level>1?70:20);i++) sizes[ns++]=i;
    static const size_t more[]={31,32,33,63,64,65,127,128,129,255,256,257,1000,4097,0}; for (unsigned i=0;i<sizeof more/sizeof *more;i++) sizes[ns++]=more[i];
    maxid=900000; long distinct=0; static char buf[4000]; int smp=0; long bywayover[10]={0};
    for (int rep=0;rep<(level>1?level:1);rep++) for (int k=0;k<ns;k++) for (int way=0;way<10;way++) for (int over=0;over<2;over++) {
        memset(&C,0,sizeof C); C.dq=sizes[k]; C.cap=C.dq?C.dq:100000; C.way=way; C.over=over; C.nw=u_rng(0,3)==0?1:u_rng(2,4); C.root=u_rng(0,3); C.share=u_rng(0,2); C.seed=u_rnd(); if (u_rng(0,3)==0) { static const size_t b[]={0,1,2,5,40,300,5000}; C.nwbefore=u_rng(1,4); C.before=b[u_rng(0,6)]; }
        if (C.cap>2000 && (way==1||way==2||way==3||way>=8||(level<=1&&way>1))) continue;   /* too deep for the program stack */
        if (way>=4 && way<=7) C.pre=(size_t)u_rng(0,(int)(C.cap>60?60:C.cap));
        if (way==6||way==7) { if (C.nw<2) C.nw=2; if (way==7) C.nw=2; if (C.root>=2) C.root=u_rng(0,1); if (C.pre>=C.cap) C.pre=C.cap-1; }
        if (way==5 && C.root==3) C.root=0;
        if (C.root==3 && (way==4||way==5)) C.root=1;   /* frames inside the body of a together are for the tests of frames */
        if (way==5 && over && C.nw==1) {}
        ran=(_Atomic(unsigned char)*)calloc(maxid,1);
        int st=u_child(child,0,buf,sizeof buf,60); free(ran); u_cases++; if (over) bywayover[way]++;
        char desc[300]; snprintf(desc,sizeof desc,"lace_start(%d,%zu), %s of a task that fills the queue (%s, %zu tasks before, sharing %d)%s%s",C.nw,C.dq,ROOT[C.root],WAY[way],C.pre,C.share,over?" and spawns one more":"",C.nwbefore?", after an earlier life with another size":"");
        char *sf=strstr(buf,"SIMFAIL kind="); if (sf) { char kd[40]="failed"; sscanf(sf,"SIMFAIL kind=%39s",kd); char *m=strstr(sf,":: "); u_fail(kd,"%s: %s",desc,m?m+3:sf); }
        if (strstr(buf,"Sanitizer")||strstr(buf,"runtime error")) u_fail("sanitizer","%s: %.600s",desc,buf);
        if (st==-1) { printf("\nSIMFAIL kind=hang iter_seed=0 :: %s: no end\n",desc); fflush(stdout); return 1; }
        if (!over) { if (!WIFEXITED(st)||WEXITSTATUS(st)!=0) u_fail("capacity","%s: %s %.300s",desc,u_status(st),buf); if (buf[0] && !LACE_COUNT_EVENTS) u_fail("capacity","%s: prints %.300s",desc,buf); }
        else {
            if (WIFEXITED(st)&&WEXITSTATUS(st)==0) u_fail("overflow","%s: the overflow goes undetected (%s)",desc,u_status(st));
            if (!WIFEXITED(st)) u_fail("overflow","%s: %s instead of a failure status",desc,u_status(st));
            if (!buf[0]) u_fail("overflow","%s: ends without an error message",desc);
        }
        distinct++;
        if (smp<2 && u_rng(0,40)==0) { printf("SAMPLE %s: %s\n",desc,u_status(st)); smp++; }
    }
    printf("CASES %ld %ld\n",u_cases,distinct);
    return 0;
}
