/* starts for which there is not enough memory: either everything works, or the program says so and fails. In a process each. */
#include "u.h"
#include <sys/resource.h>
#include <dirent.h>
typedef struct { unsigned n; size_t dq, stack; rlim_t as; int pre; } Case;
static Case C; static int seen[64];
VOID_TASK_0(look) { __atomic_fetch_add(&seen[LACE_WORKER_ID],1,5); }
TASK_1(long, fib, int, n) { if (n<2) return n; SPAWN(fib,n-1); long a=CALL(fib,n-2); return a+SYNC(fib); }
static int threads(void) { int n=0; DIR *d=opendir("/proc/self/task"); struct dirent *e; if (!d) return -1; while ((e=readdir(d))) if (e->d_name[0]!='.') n++; closedir(d); return n; }
static void child(void *x)
{
    (void)x;
    if (C.pre) { lace_start(2,100); if (RUN(fib,10)!=55) u_fail("result","wrong result before"); lace_stop(); }
    if (C.as) { struct rlimit r={C.as,C.as}; if (setrlimit(RLIMIT_AS,&r)) _exit(0); }
    if (C.stack) lace_set_stacksize(C.stack);
    lace_start(C.n,C.dq);
    int t=threads(); if (t>=0 && t!=(int)C.n+1) u_fail("workers","started with %d instead of %u workers",t-1,C.n);
    if (RUN(fib,14)!=377) u_fail("result","fib(14) is wrong");
    TOGETHER(look); for (unsigned i=0;i<C.n;i++) if (seen[i]!=1) u_fail("workers","worker %u of %u executed the task of TOGETHER %d times",i,C.n,seen[i]);
    lace_stop(); printf("STARTED\n"); fflush(stdout);
}
static long nst, nref;
static int must_refuse(const Case *c) { return (double)c->n*(double)c->dq*sizeof(Task)>1e14 || (c->as && (double)c->n*(double)c->dq*sizeof(Task)>(double)c->as+70e6*(c->n+3))   /* (the C library has address space in reserve) */; }
static int one(double limit)
{
    static char buf[4000]; int st=u_child(child,0,buf,sizeof buf,limit);
    if (strstr(buf,"SIMFAIL")) { char *p=strstr(buf,":: "); u_fail("start","lace_start(%u,%zu), stack %zu, address space %llu: %s",C.n,C.dq,C.stack,(unsigned long long)C.as,p?p+3:buf); }
    if (st==-1) return 1;
    if (WIFSIGNALED(st)) u_fail("crash","lace_start(%u,%zu), stack %zu, address space %llu: killed by signal %d: %.200s",C.n,C.dq,C.stack,(unsigned long long)C.as,WTERMSIG(st),buf);
    if (WEXITSTATUS(st)==0) { if (!strstr(buf,"STARTED")) u_fail("silent","lace_start(%u,%zu), stack %zu, address space %llu: ends with status 0 without having started",C.n,C.dq,C.stack,(unsigned long long)C.as); if (must_refuse(&C)) u_fail("start","lace_start(%u,%zu), address space %llu: starts although the queues cannot exist",C.n,C.dq,(unsigned long long)C.as); nst++; }
    else { if (!strstr(buf,"rror")) u_fail("silent","lace_start(%u,%zu), stack %zu, address space %llu: ends with status %d without a message: %.200s",C.n,C.dq,C.stack,(unsigned long long)C.as,WEXITSTATUS(st),buf); nref++; }
    return 0;
}
int main(int argc, char **argv)
{
    u_seed=u_mix(strtoull(argv[1],0,0),99); int cases=atoi(argv[2]);
    size_t M=SIZE_MAX, T=sizeof(Task);
    size_t big[]={M,M-1,M/2,M/2+1,M/T,M/T+1,M/T+2,M/T-1,M/T-2,M/T-10,M/T/2,M/T/2+1,M/(T/2),M/16,M/16+1,(size_t)1<<63,(size_t)1<<62,(size_t)1<<58,((size_t)1<<58)+1,((size_t)1<<57)+3,(size_t)1<<60,(size_t)1<<56,(size_t)1<<50,(size_t)1<<48};
    for (int i=0;i<cases;i++) {
        memset(&C,0,sizeof C); C.n=(unsigned)u_rng(1,6); C.pre=u_rng(0,3)==0;
        if (i<(int)(sizeof big/sizeof *big)) C.dq=big[i];
        else switch (u_rng(0,3)) {
            case 0: C.dq=big[u_rng(0,sizeof big/sizeof *big-1)]+(size_t)u_rng(-3,3); if (C.dq<((size_t)1<<47)) C.dq=M; break;
            case 1: C.dq=(size_t)u_rng(1,u_rng(0,1)?3000000:200000); C.as=(rlim_t)u_rng(8,160)<<20; C.stack=u_rng(0,1)?(size_t)u_rng(1,30)<<18:0; break;
            case 2: C.dq=100; C.stack=((size_t)1<<u_rng(44,62)); break;
            default: C.dq=(size_t)u_rng(1,1000); C.as=(rlim_t)u_rng(30,300)<<20; C.stack=(size_t)u_rng(1,100)<<20; break; }
        if (one(10) && one(10)) u_fail("hang","lace_start(%u,%zu), stack %zu, address space %llu: neither starts nor ends (twice)",C.n,C.dq,C.stack,(unsigned long long)C.as);
        u_cases++;
    }
    if (!nref) u_fail("silent","no start was refused");
    printf("SAMPLE %ld starts worked, %ld were refused with a message\nCASES %ld\n",nst,nref,u_cases); return 0;
}
