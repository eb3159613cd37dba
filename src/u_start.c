/* what lace_start, lace_set_stacksize and lace_set_verbosity were asked for, and what the workers get */
#include "u.h"
#include <stdatomic.h>
#include <pthread.h>
#include <sched.h>
#include <dirent.h>
#include <sys/resource.h>
#include <sys/syscall.h>
typedef struct { unsigned n; size_t dq, stack; int prev_n; size_t prev_stack; rlim_t lim; int verb, how; unsigned char mask[64]; int nmask; uint64_t seed; } Case;
static Case C; static atomic_int seen[512]; static pid_t tid_of[512]; static size_t size_of[512]; static int cpus_of[512], cpu_of[512]; static atomic_int tests, togs;
static __attribute__((noinline)) int touch(char *lo) { volatile char b[1024]; b[0]=1; if ((char*)b-lo>8192) return touch(lo)+b[0]; return b[0]; }
static int deep(void) { pthread_attr_t a; void *p; size_t s; pthread_getattr_np(pthread_self(),&a); pthread_attr_getstack(&a,&p,&s); pthread_attr_destroy(&a); return touch((char*)p); }
static void *notworker(void *x) { *(int*)x=lace_is_worker(); return 0; }
VOID_TASK_0(look)
{
    unsigned w=LACE_WORKER_ID; if (w>=lace_workers()) u_fail("workers","worker number %u of %u",w,lace_workers());
    if (!lace_is_worker() || lace_get_worker()!=__lace_worker) u_fail("identity","a task runs on a thread that is not its worker");
    if (seen[w]++) u_fail("workers","number %u occurs twice",w);
    tid_of[w]=(pid_t)syscall(SYS_gettid);
    pthread_attr_t a; void *p; pthread_getattr_np(pthread_self(),&a); pthread_attr_getstack(&a,&p,&size_of[w]); pthread_attr_destroy(&a);
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0,sizeof cs,&cs); cpus_of[w]=CPU_COUNT(&cs); cpu_of[w]=-1; for (int i=0;i<CPU_SETSIZE;i++) if (CPU_ISSET(i,&cs)) { cpu_of[w]=i; break; }
    if (C.how&1) deep();
    togs++;
}
VOID_TASK_0(again) { if (tid_of[LACE_WORKER_ID]!=(pid_t)syscall(SYS_gettid)) u_fail("workers","worker %u is on another thread than before",(unsigned)LACE_WORKER_ID); togs++; }
TASK_1(int, fork_tree, int, d) { if (tid_of[LACE_WORKER_ID]!=(pid_t)syscall(SYS_gettid)) u_fail("workers","worker %u is on another thread than before",(unsigned)LACE_WORKER_ID); if (!lace_is_worker()) u_fail("identity","lace_is_worker() is 0 in a task"); if (d<2) return 1; SPAWN(fork_tree,d-1); int a=CALL(fork_tree,d-2); return a+SYNC(fork_tree); }
static int threads(void) { int n=0; DIR *d=opendir("/proc/self/task"); struct dirent *e; while ((e=readdir(d))) if (e->d_name[0]!='.') n++; closedir(d); return n; }
static void child(void *x)
{
    (void)x; unsigned want=C.n; 
    struct rlimit r; getrlimit(RLIMIT_STACK,&r);
    if (C.lim && (r.rlim_max==RLIM_INFINITY || C.lim<=r.rlim_max)) { r.rlim_cur=C.lim; if (setrlimit(RLIMIT_STACK,&r)) C.lim=0; } else C.lim=0;
    getrlimit(RLIMIT_STACK,&r);
    if (C.nmask) { cpu_set_t cs; CPU_ZERO(&cs); for (int i=0;i<64;i++) if (C.mask[i]) CPU_SET(i,&cs); if (sched_setaffinity(0,sizeof cs,&cs)) { printf("cannot set affinity\n"); _exit(4); } }
    cpu_set_t cs; CPU_ZERO(&cs); sched_getaffinity(0,sizeof cs,&cs); unsigned avail=(unsigned)CPU_COUNT(&cs);
    if (lace_get_pu_count()!=avail) u_fail("pu-count","lace_get_pu_count() is %u, %u processors are available to the process",lace_get_pu_count(),avail);
    if (want==0) want=avail;
    if (lace_get_stacksize()!=0) u_fail("stack","lace_get_stacksize() is %zu before it was set",lace_get_stacksize());
    if (C.prev_n) { lace_set_stacksize(C.prev_stack); lace_start((unsigned)C.prev_n,13); lace_stop(); if (sched_getaffinity(0,sizeof cs,&cs)||(unsigned)CPU_COUNT(&cs)!=avail) u_fail("affinity","starting changes the affinity of the calling thread"); lace_set_stacksize(0); }
    if (C.stack) { lace_set_stacksize(C.stack); if (lace_get_stacksize()!=C.stack) u_fail("stack","lace_get_stacksize() is %zu after lace_set_stacksize(%zu)",lace_get_stacksize(),C.stack); }
#if LACE_USE_HWLOC
    /* pretend that the processors are hyperthreads or in several packages */
    if (!C.nmask && avail==8 && CPU_ISSET(0,&cs) && CPU_ISSET(7,&cs) && (C.seed&3)) { static const char *syn[]={"core:4 pu:2","pack:2 core:2 pu:2","pack:2 core:4 pu:1"}; setenv("HWLOC_SYNTHETIC",syn[(C.seed>>2)%3],1); setenv("HWLOC_THISSYSTEM","1",1); }
#endif
    lace_set_verbosity(C.verb);
    int t0=threads();
    lace_start(C.n,C.dq);
    int t1=threads();
    if (lace_workers()!=want) u_fail("workers","lace_start(%u) with %u processors: lace_workers() is %u",C.n,avail,lace_workers());
    if (t1-t0!=(int)want) u_fail("workers","lace_start(%u) with %u processors creates %d threads",C.n,avail,t1-t0);
    if (lace_is_worker()||lace_get_worker()) u_fail("identity","the thread that started Lace is taken for a worker");
    { pthread_t t; int v=1; pthread_create(&t,0,notworker,&v); pthread_join(t,0); if (v) u_fail("identity","another thread is taken for a worker"); }
    TOGETHER(look);
    if (togs!=(int)want) u_fail("workers","%d of %u workers took part",togs,want);
    for (unsigned i=0;i<want;i++) for (unsigned j=0;j<i;j++) if (tid_of[i]==tid_of[j]) u_fail("workers","workers %u and %u are one thread",i,j);
    size_t exp=C.stack?C.stack:(r.rlim_cur==RLIM_INFINITY||r.rlim_cur>(16u<<20)?(size_t)16<<20:(size_t)r.rlim_cur);
    for (unsigned i=0;i<want;i++) if (size_of[i]+65536<exp || size_of[i]>(C.prev_n?4*exp:exp)+196608) u_fail("stack","stack of worker %u has %zu bytes; requested %zu, limit %lld",i,size_of[i],C.stack,(long long)r.rlim_cur);
#if LACE_USE_HWLOC
    for (unsigned i=0;i<want;i++) { if (cpus_of[i]!=1 || !CPU_ISSET(cpu_of[i],&cs)) u_fail("pinning","worker %u of %u may run on %d processors, one of which is %d",i,want,cpus_of[i],cpu_of[i]); for (unsigned j=0;j<i && want<=avail;j++) if (cpu_of[i]==cpu_of[j]) u_fail("pinning","workers %u and %u are pinned on the same processor",i,j); }
#else
    for (unsigned i=0;i<want;i++) if (cpus_of[i]!=(int)avail) u_fail("affinity","worker %u may run on %d of %u processors",i,cpus_of[i],avail);
#endif
    togs=0; TOGETHER(again); if (togs!=(int)want) u_fail("workers","%d of %u workers took part",togs,want);
    if (want<=10 && (C.dq==0||C.dq>=20)) { int v=RUN(fork_tree,15); if (v!=987) u_fail("wrong-value","wrong result %d",v); }
    lace_stop();
    if (lace_get_stacksize()!=C.stack) u_fail("stack","lace_stop() changes the stack size that was set");
}
int main(int argc, char **argv)
{
    u_seed=strtoull(argv[1],0,0); int cases=atoi(argv[2]); (void)argc; static char buf[6000];
    cpu_set_t all; CPU_ZERO(&all); sched_getaffinity(0,sizeof all,&all); int cpu[512], nc=0; for (int i=0;i<64;i++) if (CPU_ISSET(i,&all)) cpu[nc++]=i;
    for (int k=0;k<cases;k++) {
        memset(&C,0,sizeof C); C.seed=u_rnd(); C.how=u_rng(0,3); C.dq=u_rng(0,1)?(size_t)u_rng(1,300):0;
        C.n=k%3==0?0:(unsigned)u_rng(1,k%10==1?40:9); if (k==22) C.n=100;
        if (k%3==0||u_rng(0,4)==0) { if (nc>1 || k%2) { C.nmask=0; while (C.nmask==0) for (int i=0;i<nc;i++) if (u_rng(0,nc>2?2:1)==0 && !C.mask[cpu[i]]) { C.mask[cpu[i]]=1; C.nmask++; } } }
        static const size_t ss[]={65536,100000,131072,262144,1000001,1<<20,3000000,8<<20,20<<20,40<<20}; if (u_rng(0,1)) C.stack=ss[u_rng(0,9)];
        static const rlim_t ll[]={256<<10,1<<20,4<<20,8<<20,(16<<20)-4096,16<<20,(16<<20)+4096,32<<20,100<<20}; if (u_rng(0,2)) C.lim=ll[u_rng(0,8)];
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
        if (C.stack && C.stack<262144) C.stack=262144; if (C.lim && C.lim<(1<<20)) C.lim=1<<20; C.how=0;
#endif
#endif
        if (u_rng(0,2)==0) { C.prev_n=u_rng(1,6); C.prev_stack=u_rng(0,1)?0:(size_t)u_rng(1,20)*100000; if (C.prev_stack && C.prev_stack<262144) C.prev_stack=262144; }
        C.verb=u_rng(0,4)==0;
        int st=u_child(child,0,buf,sizeof buf,60); u_cases++;
        char d[300]; snprintf(d,sizeof d,"lace_start(%u,%zu) restricted to %d processors (0: not restricted), stack size %zu, stack limit %lld%s",C.n,C.dq,C.nmask,C.stack,(long long)C.lim,C.prev_n?", after an earlier life":"");
        char *sf=strstr(buf,"SIMFAIL kind="); if (sf) { char kd[40]="failed"; sscanf(sf,"SIMFAIL kind=%39s",kd); char *m=strstr(sf,":: "); u_fail(kd,"%s: %s",d,m?m+3:sf); }
        if (strstr(buf,"Sanitizer")||strstr(buf,"runtime error")) u_fail("sanitizer","%s: %.600s",d,buf);
        if (st==-1) { printf("\nSIMFAIL kind=hang iter_seed=0 :: %s: no end\n",d); fflush(stdout); return 1; }
        if (WIFEXITED(st)&&WEXITSTATUS(st)==4) { printf("SIMINCONCLUSIVE cannot set affinity\n"); return 0; }
        if (st!=0) u_fail("start","%s: %s %.300s",d,u_status(st),buf);
#if !(LACE_COUNT_EVENTS) && !LACE_USE_HWLOC
        if (!C.verb && buf[0]) u_fail("output","%s: prints %.200s",d,buf);
#endif
        if (C.verb && !buf[0]) u_fail("output","%s: prints nothing although it should be verbose",d);
        if (k==6||k==11) printf("SAMPLE %s: as requested\n",d);
    }
    printf("CASES %ld\n",u_cases); return 0;
}
