/* Runtime interface on real threads, and the driver of the native engine. */
#define _GNU_SOURCE
#include <dirent.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>
#include <sys/time.h>
#include "h.h"
const Profile *find_profile(const char *);
static uint64_t cur_seed; static __thread int mytid=-1; static int ntid; static __thread uint64_t rs; static int harness_threads=1, isregion;
static int inject_signals;

void rt_fail(const char *kind,const char *fmt,...)
{
    char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    for(char*p=b;*p;p++) if(*p=='\n') *p=' ';
    static int once; if(__atomic_exchange_n(&once,1,__ATOMIC_SEQ_CST)) for(;;) pause();
    printf("\nSIMFAIL kind=%s iter_seed=%llu steps=0 tid=%d :: %s\n",kind,(unsigned long long)cur_seed,rt_tid(),b); fflush(stdout); _exit(1);
}
void rt_inconclusive(const char *fmt,...)
{
    char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    printf("\nSIMINCONCLUSIVE iter_seed=%llu :: %s\n",(unsigned long long)cur_seed,b); fflush(stdout); _exit(3);
}
int rt_tid(void){ if(mytid<0) mytid=__atomic_fetch_add(&ntid,1,__ATOMIC_SEQ_CST); return mytid; }
int rt_is_sim(void){ return 0; }
void rt_track(void*b,size_t l){ (void)b;(void)l; }
uint64_t rt_rand(void){ if(!rs) rs=cur_seed*77+(uint64_t)rt_tid()*1234567+1; rs^=rs<<13; rs^=rs>>7; rs^=rs<<17; return rs; }
static void spin(unsigned n){ for(volatile unsigned i=0;i<n;i++){} }
void rt_pause(void){ uint64_t r=rt_rand()%32; if(r<24) spin((unsigned)(rt_rand()%300)); else if(r<30) sched_yield(); else { struct timespec t={0,(long)(rt_rand()%50000)}; nanosleep(&t,0); } }
void rt_work(uint64_t s){ spin((unsigned)(s>>8)%2000); }
void rt_lace_region(int on){ isregion=on; }
int rt_workers_created(void){ return -1; }
int rt_workers_awake(void){ return -1; }
static int nthreads_now(void){ DIR*d=opendir("/proc/self/task"); if(!d) return -1; int n=0; struct dirent*e; while((e=readdir(d))) if(e->d_name[0]!='.') n++; closedir(d); return n; }
static int base_threads;
int rt_live_workers(void){ return nthreads_now()-base_threads; }
int rt_settle(int lc){ (void)lc; for(int i=0;i<400;i++){ if(nthreads_now()<=base_threads) return 0; struct timespec t={0,1000000*(i<20?1:25)}; nanosleep(&t,0);} return nthreads_now()-base_threads; }
int rt_live_allocs(void){ return 0; }
static double cpu(void){ struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID,&t); return t.tv_sec+t.tv_nsec*1e-9; }
int rt_wait_workers_asleep(void)
{   /* asleep: at least one window of 20 ms in which the process uses next to no CPU time */
    for(int i=0;i<100;i++){ double a=cpu(); struct timespec t={0,20000000}; nanosleep(&t,0); if(cpu()-a<0.004) return 1; }
    return 0;
}
static void nop(int s){ (void)s; }
#include <sys/syscall.h>
static void *signoise(void*p)
{
    (void)p; sigset_t ss; sigemptyset(&ss); sigaddset(&ss,SIGUSR1); pthread_sigmask(SIG_BLOCK,&ss,0);
    pid_t me=(pid_t)syscall(SYS_gettid);
    while(inject_signals){ DIR*d=opendir("/proc/self/task"); struct dirent*e; if(d){ while((e=readdir(d))) if(e->d_name[0]!='.'){ pid_t t=atoi(e->d_name); if(t!=me) syscall(SYS_tgkill,getpid(),t,SIGUSR1);} closedir(d);} struct timespec t={0,100000}; nanosleep(&t,0); }
    return 0;
}
int main(int argc,char**argv)
{
    if(argc<5){ fprintf(stderr,"usage: native profile base first count [signals]\n"); return 2; }
    rt_tid();
    const Profile*p=find_profile(argv[1]); if(!p){ fprintf(stderr,"no such profile\n"); return 2; }
    uint64_t base=strtoull(argv[2],0,0); long first=atol(argv[3]),count=atol(argv[4]); int sig=argc>5 && atoi(argv[5]);
    PR=p; pthread_t sg;
    if(sig){ struct sigaction sa; memset(&sa,0,sizeof sa); sa.sa_handler=nop; sigaction(SIGUSR1,&sa,0); inject_signals=1; pthread_create(&sg,0,signoise,0); harness_threads++; }
    base_threads=nthreads_now();
    for(long i=first;i<first+count;i++){
        uint64_t seed=base*1000003ULL+(uint64_t)i; cur_seed=(uint64_t)i; uint64_t arg=seed; MonStats b=ms; ntid=1;
        scenario(&arg); mon_print_delta(&b, seed, 0);
    }
    if(sig){ inject_signals=0; pthread_join(sg,0); }
    printf("STATS {"); mon_print_stats(); printf("}\n"); fflush(stdout);
    return 0;
}
