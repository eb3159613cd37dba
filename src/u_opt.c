/* one program, compiled as C and as C++ with every combination of the build options: the answers are always the same, and each option does what it says.
   -DX_MMAP -DX_HWLOC -DX_TASKS -DX_STEALS -DX_SPLITS -DX_PIE=0|1: what was asked for
   prints one line "ANSWERS <numbers>" (to be the same everywhere) */
#include "u.h"
#include <sched.h>
#include <pthread.h>
#include <sys/mman.h>
static long u_mmaps, u_bytes; static size_t u_big;
#ifdef __cplusplus
extern "C" {
#endif
void *__real_mmap(void*,size_t,int,int,int,off_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { if (u_big && n>=u_big) __atomic_add_fetch(&u_mmaps,1,__ATOMIC_SEQ_CST); return __real_mmap(a,n,p,f,fd,o); }
#ifdef __cplusplus
}
#endif
typedef struct { long a; int b; } Pair;
TASK_1(long, fib, int, n) { if (n<2) return n; SPAWN(fib,n-1); long a=CALL(fib,n-2); return a+SYNC(fib); }
TASK_2(Pair, pair, int, d, long, x) { Pair r={x,d}; if (d==0) return r; SPAWN(pair,d-1,2*x); Pair l=CALL(pair,d-1,2*x+1), q=SYNC(pair); r.a=l.a*31+q.a; r.b=l.b+q.b+1; return r; }
VOID_TASK_3(fill, int*, p, int, n, int, v) { if (n<8) { for (int i=0;i<n;i++) p[i]=v+i; return; } SPAWN(fill,p,n/2,v); CALL(fill,p+n/2,n-n/2,v+n/2); SYNC(fill); }
#ifdef LACE14
TASK_14(long, many, char, a, short, b, int, c, long, d, char, e, short, f, int, g, long, h, double, i, float, j, char, k, short, l, int, m, long, n) { return a+2*b+3*c+4*d+5*e+6*f+7*g+8*h+9*(long)i+10*(long)j+11*k+12*l+13*m+14*n; }
#else
TASK_6(long, six, char, a, short, b, int, c, long, d, double, e, float, f) { return a+2*b+3*c+4*d+5*(long)e+6*(long)f; }
#endif
TASK_1(long, queue, int, n) { long s=0; for (int i=0;i<n;i++) SPAWN(fib,i%9); for (int i=0;i<n;i++) { if (i%5==3) { DROP(); continue; } s=s*3+SYNC(fib); } return s; }
static int *per; static long npar; static int bar_bad;
VOID_TASK_1(mark, int, x) { per[LACE_WORKER_ID]+=x; __atomic_add_fetch(&npar,1,__ATOMIC_SEQ_CST); lace_barrier(); for (unsigned i=0;i<lace_workers();i++) if (per[i]<x) bar_bad=1; lace_barrier(); }
TASK_1(long, frames, int, n) { long s=0; for (int i=0;i<20;i++) SPAWN(fib,i%7); TOGETHER(mark,n); s+=NEWFRAME(fib,n); for (int i=0;i<20;i++) s=s*7+SYNC(fib); return s; }
static long sub(int n) { WorkerP *__lace_worker=lace_get_worker(); Task *__lace_dq_head=lace_get_head(__lace_worker); SPAWN(fib,n); long a=CALL(fib,n-1); return a*2+SYNC(fib); }
TASK_1(long, reenter, int, n) { for (int i=0;i<n;i++) SPAWN(fib,i%6); long s=sub(n%10); for (int i=0;i<n;i++) s=s*5+SYNC(fib); return s; }
static void *client(void *x) { long k=(long)x; return (void*)RUN(fib,(int)(8+k%7)); }
static void *clientx(void *x) { long k=(long)x; return (void*)RUNEX(fib,(int)(8+k%7)); }
static cpu_set_t bound[64];
VOID_TASK_0(where) { sched_getaffinity(0,sizeof(cpu_set_t),&bound[LACE_WORKER_ID]); }
static long rss(void) { long a=0,b=0; FILE *f=fopen("/proc/self/statm","r"); if (f) { if (fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f); } return b*sysconf(_SC_PAGESIZE); }
static long answers[64]; static int na;
static void life(unsigned n, size_t dq)
{
    na=0; lace_start(n,dq);
    answers[na++]=RUN(fib,18);
    { Pair p=RUN(pair,7,3); answers[na++]=p.a; answers[na++]=p.b; }
    { int *v=(int*)calloc(1000,sizeof(int)); RUN(fill,v,1000,5); unsigned long s=0; for (int i=0;i<1000;i++) s=s*3+(unsigned long)v[i]; answers[na++]=(long)s; free(v); }
#ifdef LACE14
    answers[na++]=RUN(many,1,2,3,4,5,6,7,8,9.0,10.0f,11,12,13,14)-1015+91; 
#else
    answers[na++]=RUN(six,1,2,3,4,5.0,6.0f);
#endif
    answers[na++]=RUN(queue,40);
    per=(int*)calloc(n,sizeof(int)); npar=0; answers[na++]=RUN(frames,9); answers[na++]=npar==(long)n && !bar_bad; for (unsigned i=0;i<n;i++) if (per[i]!=9) answers[na-1]=-1; 
    npar=0; for (unsigned i=0;i<n;i++) per[i]=0; TOGETHER(mark,4); answers[na++]=npar==(long)n && !bar_bad; free(per);
    answers[na++]=NEWFRAME(fib,11);
    answers[na++]=RUN(reenter,20);
    pthread_t t[6]; for (long i=0;i<6;i++) pthread_create(&t[i],0,i%3==1?clientx:client,(void*)i); for (int i=0;i<6;i++) { void *r; pthread_join(t[i],&r); answers[na++]=(long)r; }
    lace_suspend(); answers[na++]=RUN(fib,10); lace_resume(); answers[na++]=RUNEX(fib,12);
    memset(bound,0,sizeof bound); TOGETHER(where);
    lace_stop();
}
/* whether the report contains a line that starts with s; *v: the number after the colon */
static int has(const char *rep, const char *s) { for (const char *p=rep;(p=strstr(p,s));p++) if (p==rep||p[-1]=='\n') return 1; return 0; }
int main(int argc, char **argv)
{
    unsigned n=argc>1?(unsigned)atoi(argv[1]):3; size_t dq=argc>2?(size_t)atol(argv[2]):200;
#define OPT(m,x) do { int v=0; if (m) v=1; if (v!=(x)) u_fail("option",#m " is %d in a build for which it is %d",v,x); } while (0)
    OPT(LACE_USE_MMAP,X_MMAP); OPT(LACE_USE_HWLOC,X_HWLOC); OPT(LACE_COUNT_TASKS,X_TASKS); OPT(LACE_COUNT_STEALS,X_STEALS); OPT(LACE_COUNT_SPLITS,X_SPLITS); OPT(LACE_PIE_TIMES,X_PIE);
    cpu_set_t me,me2; sched_getaffinity(0,sizeof me,&me);
    char tf[]="/tmp/lace-opt-XXXXXX"; int fd=mkstemp(tf); if (fd<0) { perror("mkstemp"); return 2; } unlink(tf);
    fflush(stdout); int out=dup(1), err=dup(2); dup2(fd,1); dup2(fd,2);
    u_big=sizeof(Task)*dq; life(n,dq); long mm=u_mmaps; u_big=0;
    fflush(stdout); fflush(stderr); dup2(out,1); dup2(err,2);
    off_t len=lseek(fd,0,SEEK_END); char *rep=(char*)malloc((size_t)len+1); if (pread(fd,rep,(size_t)len,0)!=len) return 2; rep[len]=0; close(fd);
    printf("ANSWERS"); for (int i=0;i<na;i++) printf(" %ld",answers[i]); printf("\n"); fflush(stdout);
    /* the report */
    int any=X_TASKS||X_STEALS||X_SPLITS||X_PIE;
    if (!any && len) u_fail("output","output without any counter or timer: %.300s",rep);
    static const struct { const char *s; int x; } L[]={{"Tasks (0): ",X_TASKS},{"Tasks (sum): ",X_TASKS},{"Steals (0): ",X_STEALS},{"Steals (sum): ",X_STEALS},{"Tasks per steal (sum): ",X_TASKS&&X_STEALS?2:0},{"Splits (0): ",X_SPLITS},{"Splits (sum): ",X_SPLITS},{"Startup time (0):",X_PIE},{"Startup time (sum):",X_PIE},{"Steal work (sum):",X_PIE},{"Exit time (sum):",X_PIE}};
    for (unsigned i=0;i<sizeof L/sizeof *L;i++) if (L[i].x!=2 && has(rep,L[i].s)!=L[i].x) u_fail("report","the report at stop %s \"%s\": %.300s",L[i].x?"has no":"has",L[i].s,rep);
    if (strstr(rep,"should not happen")||strstr(rep,"arning")||strstr(rep,"rror")) u_fail("report","the run complains: %.600s",rep);
    /* memory */
    if (X_MMAP && mm<(long)n) u_fail("mmap","%ld mappings for the queues of %u workers with LACE_USE_MMAP",mm,n);
    if (!X_MMAP && dq<=200 && mm) u_fail("mmap","mmap is called without LACE_USE_MMAP");
    if (X_MMAP) { long r0=rss(); lace_start(2,((size_t)1<<30)/sizeof(Task)); long a=RUN(fib,15), r1=rss(); 
        if (a!=610) u_fail("result","fib(15) is %ld with a large queue",a);
        if (r1-r0>(128L<<20)) u_fail("lazy","two queues of 1 GiB of which little is used take %ld MiB of real memory with LACE_USE_MMAP",(r1-r0)>>20);
        fflush(stdout); int nul=open("/dev/null",O_WRONLY); dup2(nul,1); lace_stop(); fflush(stdout); dup2(out,1); close(nul); }
    /* pinning */
    sched_getaffinity(0,sizeof me2,&me2); if (!CPU_EQUAL(&me,&me2)) u_fail("pinning","the thread that starts and stops Lace has been pinned");
    for (unsigned i=0;i<n;i++) { if (X_HWLOC && CPU_COUNT(&bound[i])!=1) u_fail("pinning","worker %u may run on %d processors with LACE_USE_HWLOC",i,CPU_COUNT(&bound[i])); if (!X_HWLOC && !CPU_EQUAL(&bound[i],&me)) u_fail("pinning","worker %u is pinned without LACE_USE_HWLOC",i); }
    (void)u_bytes; return 0;
}
