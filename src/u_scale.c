/* large numbers: of rounds, frames, clients, suspensions, lives, workers, outstanding tasks and counted events */
#include "u.h"
#include <stdatomic.h>
#include <pthread.h>
#include <sched.h>
#include <sys/resource.h>
static unsigned scale=1; static uint64_t cs; static long observed;
static uint64_t h(uint64_t a, uint64_t b) { return u_mix(a,b); }
static uint64_t seqtree(int d, uint64_t s) { return d<=0?h(s,7):h(seqtree(d-1,h(s,1))+3*seqtree(d-1,h(s,2)),s); }
TASK_2(uint64_t, tree, int, d, uint64_t, s) { if (d<=0) return h(s,7); SPAWN(tree,d-1,h(s,1)); uint64_t b=CALL(tree,d-1,h(s,2)); uint64_t a=SYNC(tree); return h(a+3*b,s); }
static void start(unsigned n, size_t dq) { lace_start(n,dq); if (lace_workers()!=n) u_fail("workers","lace_workers() is %u after lace_start(%u)",lace_workers(),n); }
#define WANT(x,y,...) { uint64_t g_=(x), w_=(y); if (g_!=w_) u_fail("wrong-value",__VA_ARGS__); }
/* barrier: plain data written before and read after each of many rounds */
static struct { long v; char pad[120]; } slot[2][512]; static atomic_long copies;
VOID_TASK_2(barriers, long, rounds, long, base)
{
    unsigned w=LACE_WORKER_ID, n=lace_workers(); copies++;
    for (long r=base;r<base+rounds;r++) {
        slot[r&1][w].v=r+1; lace_barrier();
        for (unsigned i=0;i<n;i++) if (slot[r&1][i].v!=r+1) u_fail("barrier","worker %u leaves round %ld, worker %u is in round %ld",w,r,i,slot[r&1][i].v-1);
    }
}
static void c_barrier(void *x) { (void)x; unsigned n=(unsigned)(2+cs%2); start(n,100); long r=140000; observed=r;
    TOGETHER(barriers,r,0L); if (copies!=(long)n) u_fail("copies","%ld copies on %u workers",(long)copies,n);
    for (int i=0;i<3000;i++) { copies=0; TOGETHER(barriers,(long)(i%3),r); r+=i%3; if (copies!=(long)n) u_fail("copies","%ld copies on %u workers",(long)copies,n); } lace_stop(); }
/* frames, one after the other */
static atomic_int inframe;
TASK_1(uint64_t, infr, uint64_t, s) { inframe++; uint64_t r=CALL(tree,(int)(s%3),s); inframe--; return r; }
TASK_1(uint64_t, beside, uint64_t, s) { if (inframe) u_fail("frame","a task outside the frame runs during the frame"); return h(s,5); }
static atomic_long bits;
VOID_TASK_2(tog, uint64_t, s, uint64_t, t) { if (t!=h(s,6)) u_fail("argument","a copy has other arguments"); if (atomic_fetch_or(&bits,1L<<LACE_WORKER_ID)&(1L<<LACE_WORKER_ID)) u_fail("copies","two copies on worker %u",(unsigned)LACE_WORKER_ID); copies++; }
TASK_1(int, frameroot, long, k)
{
    for (long i=0;i<k;i++) { uint64_t s=h(cs,(uint64_t)i);
        if (s%7==0) SPAWN(beside,s);
        if (s%3) { WANT(NEWFRAME(infr,s),seqtree((int)(s%3),s),"frame %ld of %ld returns a wrong value",i,k) }
        else { copies=0; bits=0; TOGETHER(tog,s,h(s,6)); if (copies!=(long)lace_workers()) u_fail("copies","%ld copies on %u workers in frame %ld",(long)copies,lace_workers(),i); }
        if (s%7==0) { WANT(SYNC(beside),h(s,5),"a task beside frame %ld returns a wrong value",i) } }
    return 1;
}
static void c_frames(void *x) { (void)x; start((unsigned)(2+cs%2),100); long k=observed=70000; if (RUN(frameroot,k)!=1) u_fail("wrong-value","the root of %ld frames returns a wrong value",k); lace_stop(); }
/* frames within frames */
TASK_2(uint64_t, nest, int, d, uint64_t, s)
{
    if (d==0) return h(s,1); uint64_t a, b;
    SPAWN(tree,2,s); SPAWN(tree,1,s+1);
    switch (s%3) { case 0: a=NEWFRAME(nest,d-1,h(s,2)); break; case 1: a=CALL(nest,d-1,h(s,2)); break; default: SPAWN(nest,d-1,h(s,2)); a=NEWFRAME(tree,1,s); WANT(a,seqtree(1,s),"a frame at depth %d returns a wrong value",d) a=SYNC(nest); }
    b=SYNC(tree); WANT(b,seqtree(1,s+1),"a task around a frame of depth %d returns a wrong value",d)
    b=SYNC(tree); WANT(b,seqtree(2,s),"a task around a frame of depth %d returns a wrong value",d)
    return h(a,s);
}
static uint64_t seqnest(int d, uint64_t s) { return d==0?h(s,1):h(seqnest(d-1,h(s,2)),s); }
static void c_nested(void *x) { (void)x; lace_set_stacksize(64<<20); start((unsigned)(1+cs%3),20000); observed=400; for (int i=0;i<4;i++) WANT(RUN(nest,400,cs+i),seqnest(400,cs+i),"400 frames within each other return a wrong value") lace_stop(); }
/* many clients */
static atomic_int ext_now, ext_ex; static atomic_long ext_done; static int nops;
static void enter(int ex) { int n=++ext_now; if (ex) ext_ex++; if (ext_ex && (n>1||ext_now>1)) u_fail("exclusive","an exclusive task overlaps another one from outside"); }
static void leave(int ex) { if (ext_ex && ext_now>1) u_fail("exclusive","an exclusive task overlaps another one from outside"); if (ex) ext_ex--; ext_now--; ext_done++; }
TASK_3(uint64_t, ext, int, ex, int, d, uint64_t, s) { enter(ex); uint64_t r=CALL(tree,d,s); leave(ex); return r; }
static void *client(void *a) { uint64_t s=h(cs,(uint64_t)(uintptr_t)a); for (int i=0;i<nops;i++) { s=h(s,(uint64_t)i); int d=(int)(s%4); uint64_t r;
    switch ((s>>8)%8) { case 0: case 1: r=RUNEX(ext,1,d,s); break; case 2: r=NEWFRAME(tree,d,s); break; case 3: lace_resume(); r=RUN(ext,0,d,s); lace_suspend(); break; default: r=RUN(ext,0,d,s); }
    WANT(r,seqtree(d,s),"a task from outside returns a wrong value") } return 0; }
static void clients(unsigned n, int ops, int asleep) { start(3,2000); nops=ops; if (asleep) lace_suspend(); pthread_t *t=(pthread_t*)calloc(n,sizeof *t); pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,262144);
    for (unsigned i=0;i<n;i++) if (pthread_create(&t[i],&at,client,(void*)(uintptr_t)i)) { printf("SIMINCONCLUSIVE no threads\n"); _exit(0); }
    for (unsigned i=0;i<n;i++) pthread_join(t[i],0); if (ext_now) u_fail("external","%d tasks from outside are still there",(int)ext_now); lace_stop(); free(t); }
static void c_clients(void *x) { (void)x; observed=40*100+130*15; clients(40,100,cs&1); clients(130,15,!(cs&1)); }
/* many tasks from one client */
TASK_1(uint64_t, tiny, uint64_t, s) { return h(s,9); }
static void c_external(void *x) { (void)x; start(2,100); long k=observed=140000; for (long i=0;i<k;i++) { uint64_t s=h(cs,i); WANT(i&1?RUN(tiny,s):RUNEX(tiny,s),h(s,9),"task %ld of a client returns a wrong value",i) } lace_stop(); }
/* suspensions */
static double cpu(void) { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static void asleep(const char *w) { for (int i=0;i<150;i++) { double a=cpu(); struct timespec t={0,20000000}; nanosleep(&t,0); if (cpu()-a<0.004) return; } u_fail("not-asleep","the workers keep running %s",w); }
static void c_suspend(void *x) { (void)x; start(3,100); long k=70000; observed=2*k;
    for (long i=0;i<k;i++) lace_resume();
    for (long i=0;i<k;i++) { if (i%10000==0) WANT(RUN(tree,5,cs+i),seqtree(5,cs+i),"wrong value after %ld suspensions",i) lace_suspend(); }
    lace_suspend(); asleep("after a suspension"); WANT(RUN(tree,5,cs),seqtree(5,cs),"wrong value while suspended") asleep("after a task while suspended");
    k=9000; for (long i=0;i<k;i++) { lace_resume(); lace_suspend(); if (i%1000==0) WANT(RUN(tree,4,cs+i),seqtree(4,cs+i),"wrong value after %ld suspensions",i) }
    asleep("after many pairs"); lace_resume(); WANT(RUN(tree,7,cs),seqtree(7,cs),"wrong value after many suspensions") lace_stop(); }
/* lives */
static void c_lives(void *x) { (void)x; long k=scale>1?66000:2500; observed=k; for (long i=0;i<k;i++) { uint64_t s=h(cs,i); unsigned n=(unsigned)(1+s%4); start(n,1+(s>>8)%200); if (s&4096) { int d=(int)((s>>20)%4); if (((s>>8)%200)<12) d=0; WANT(RUN(tree,d,s),seqtree(d,s),"wrong value in life %ld",i) } if (s&8192) lace_suspend(); lace_stop(); } }
/* very many workers */
TASK_2(uint64_t, wide, int, d, uint64_t, s) { if (LACE_WORKER_ID>=lace_workers()) u_fail("workers","worker number %u",(unsigned)LACE_WORKER_ID); if (d<=0) return h(s,7); SPAWN(wide,d-1,h(s,1)); uint64_t b=CALL(wide,d-1,h(s,2)); uint64_t a=SYNC(wide); return h(a+3*b,s); }
static atomic_int seen[512];
VOID_TASK_0(who) { if (LACE_WORKER_ID>=lace_workers()||seen[LACE_WORKER_ID]++) u_fail("workers","worker number %u twice or out of range",(unsigned)LACE_WORKER_ID); lace_barrier(); for (unsigned i=0;i<lace_workers();i++) if (!seen[i]) u_fail("barrier","worker %u has not been here",i); }
static void c_workers(void *x) { (void)x; unsigned n=(unsigned)(260+cs%60); observed=n; lace_set_stacksize(256<<10); start(n,200); TOGETHER(who); for (unsigned i=0;i<n;i++) if (seen[i]!=1) u_fail("workers","worker %u of %u does not take part",i,n);
    WANT(RUN(wide,11,cs),seqtree(11,cs),"wrong value with %u workers",n) lace_suspend(); asleep("after a suspension"); WANT(NEWFRAME(wide,9,cs),seqtree(9,cs),"wrong value of a frame with %u workers",n) lace_resume(); WANT(RUN(wide,10,cs),seqtree(10,cs),"wrong value with %u workers",n) lace_stop(); }
/* very many outstanding tasks */
#define NQ 230000
static _Atomic unsigned char ran[NQ]; 
TASK_1(uint64_t, item, long, i) { ran[i]++; return h(cs,(uint64_t)i); }
static __attribute__((noinline)) void reenter(long n) { LACE_VARS if (__lace_dq_head-__lace_worker->dq!=n) u_fail("head","the end of the queue is entry %ld, %ld tasks are outstanding",(long)(__lace_dq_head-__lace_worker->dq),n); SPAWN(item,NQ-1L); SYNC(item); }
VOID_TASK_0(bigqueue)
{
    long n=0; observed=NQ; if (__lace_dq_head!=__lace_worker->dq) u_fail("head","the root does not start at entry 0");
    for (long k=0;k<3;k++) {
        long to=(k+1)*70000; for (;n<to;n++) { SPAWN(item,n); if (n%9973==0) reenter(n+1); }
        if ((cs>>k)&1) { LACE_MAKE_ALL_SHARED(); if (lace_workers()>1) for (long i=0;i<n;i++) while (!ran[i]) {} }
        if (k==1) for (;n>to-30000;) { n--; if (n&1) { DROP(); if (ran[n]>1) u_fail("twice","dropped task %ld was executed twice",n); ran[n]=0; } else { WANT(SYNC(item),h(cs,n),"task %ld returns a wrong value",n) if (ran[n]!=1) u_fail("exactly-once","task %ld was executed %d times",n,ran[n]); ran[n]=0; } }
    }
    while (n>0) { n--; WANT(SYNC(item),h(cs,n),"task %ld returns a wrong value",n) if (ran[n]!=1) u_fail("exactly-once","task %ld was executed %d times",n,ran[n]); if (n%9973==0) reenter(n); }
}
static void c_queue(void *x) { (void)x; start((unsigned)(1+(cs>>8)%3),NQ); RUN(bigqueue); for (long i=0;i<NQ-1;i++) ran[i]=0; cs=~cs; RUN(bigqueue); lace_stop(); }
/* very many steals */
static atomic_long stolen;
TASK_2(uint64_t, given, int, from, uint64_t, s) { if ((int)LACE_WORKER_ID!=from) stolen++; return h(s,4); }
TASK_1(int, giver, long, k) { for (long i=0;i<k;i++) { uint64_t s=h(cs,i); SPAWN(given,LACE_WORKER_ID,s); SPAWN(given,LACE_WORKER_ID,s+1); for (volatile int j=0;j<40;j++) {} WANT(SYNC(given),h(s+1,4),"a task returns a wrong value") WANT(SYNC(given),h(s,4),"a task returns a wrong value") } return 1; }
static void c_steals(void *x) { (void)x; start(4,100); long k=0; double t=u_now(); while (stolen<150000 && u_now()-t<6) { if (RUN(giver,100000L)!=1) u_fail("wrong-value","wrong value"); k++; } observed=stolen; lace_stop(); }
/* very large counters */
#if LACE_COUNT_TASKS
TASK_1(int, unit, int, i) { return i; }
TASK_1(long, count, long, k) { long r=0; for (long i=0;i<k;i++) { SPAWN(unit,1); r+=SYNC(unit); } return r; }
static void c_counters(void *x) { (void)x; start(1,100); long k=observed=scale>1?(1L<<32)+12345:(1L<<32)+123; if (RUN(count,k)!=k) u_fail("wrong-value","wrong value"); char *b=0; size_t l; FILE *f=open_memstream(&b,&l); lace_count_report_file(f); fclose(f);
    unsigned long a=0,c=0; char *p=strstr(b,"Tasks (0): "), *q=strstr(b,"Tasks (sum): "); if (!p||!q||sscanf(p,"Tasks (0): %lu",&a)!=1||sscanf(q,"Tasks (sum): %lu",&c)!=1) u_fail("report","the number of tasks is not in the report"); if (a!=(unsigned long)k||c!=(unsigned long)k) u_fail("count","%ld tasks were spawned, the report has %lu and %lu in total",k,a,c); freopen("/dev/null","w",stdout); lace_stop(); }
#endif
static const struct { const char *n; void (*f)(void*); } CASE[]={{"barrier",c_barrier},{"frames",c_frames},{"nested",c_nested},{"clients",c_clients},{"external",c_external},{"suspend",c_suspend},{"lives",c_lives},{"workers",c_workers},{"queue",c_queue},{"steals",c_steals},
#if LACE_COUNT_TASKS
 {"counters",c_counters},
#endif
};
int main(int argc, char **argv)
{
    static char buf[4000]; long cases=0;
    for (int a=3;a<argc;a++) for (unsigned c=0;c<sizeof CASE/sizeof *CASE;c++) if (!strcmp(argv[a],CASE[c].n)) for (unsigned r=0;r<(unsigned)atoi(argv[2]);r++) {
        cs=u_mix(strtoull(argv[1],0,0)*977+r,c); scale=(unsigned)atoi(argv[2])>2?2:1; double t=u_now();
        int st=u_child(CASE[c].f,0,buf,sizeof buf,120); cases++;
        char *sf=strstr(buf,"SIMFAIL kind="); if (sf) { char kd[40]="failed"; sscanf(sf,"SIMFAIL kind=%39s",kd); char *m=strstr(sf,":: "); u_fail(kd,"%s: %s",CASE[c].n,m?m+3:sf); }
        if (strstr(buf,"SIMINCONCLUSIVE")) { printf("%s\n",buf); continue; }
        if (st==-1) { printf("\nSIMFAIL kind=hang iter_seed=0 :: %s: no end\n",CASE[c].n); fflush(stdout); return 1; }
        if (st!=0) u_fail("crash","%s: %s %.400s",CASE[c].n,u_status(st),buf);
        if (getenv("SCALE_TIMES")) printf("%s %.2f s\n",CASE[c].n,u_now()-t);
        if (r==0) printf("SAMPLE %s: as specified\n",CASE[c].n);
    }
    printf("CASES %ld\n",cases); return cases?0:2;
}
