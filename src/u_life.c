/* WRAP: malloc calloc realloc aligned_alloc posix_memalign memalign free mmap munmap pthread_create sem_init sem_destroy pthread_mutex_init pthread_mutex_destroy pthread_cond_init pthread_cond_destroy pthread_barrier_init pthread_barrier_destroy pthread_attr_init pthread_attr_destroy pthread_key_create pthread_key_delete */
/* repeated lives: everything is given back at the end of each, and the next is not influenced */
#include "u.h"
#include <stdatomic.h>
#include <pthread.h>
#include <semaphore.h>
#include <malloc.h>
#include <dirent.h>
#include <sys/mman.h>
#if defined(__has_feature)
#if __has_feature(address_sanitizer) || __has_feature(memory_sanitizer)
#define SAN 1
#endif
#endif
static atomic_long live_n, live_b, map_b, objs, created, ended; static atomic_ullong dl; static int delays;
static uint64_t drnd(void) { return u_mix(atomic_fetch_add(&dl,1),77); }
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); void *__real_realloc(void*,size_t); void *__real_aligned_alloc(size_t,size_t); void *__real_memalign(size_t,size_t); int __real_posix_memalign(void**,size_t,size_t); void __real_free(void*);
void *__real_mmap(void*,size_t,int,int,int,off_t); int __real_munmap(void*,size_t); int __real_pthread_create(pthread_t*,const pthread_attr_t*,void*(*)(void*),void*);
static void *in(void *p) { if (p) { live_n++; live_b+=(long)malloc_usable_size(p); } return p; }
void *__wrap_malloc(size_t n) { return in(__real_malloc(n)); }
void *__wrap_calloc(size_t a, size_t n) { return in(__real_calloc(a,n)); }
void *__wrap_aligned_alloc(size_t a, size_t n) { return in(__real_aligned_alloc(a,n)); }
void *__wrap_memalign(size_t a, size_t n) { return in(__real_memalign(a,n)); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) { int r=__real_posix_memalign(p,a,n); if (!r) in(*p); return r; }
void __wrap_free(void *p) { if (p) { live_n--; live_b-=(long)malloc_usable_size(p); } __real_free(p); }
void *__wrap_realloc(void *p, size_t n) { if (p) { live_n--; live_b-=(long)malloc_usable_size(p); } return in(__real_realloc(p,n)); }
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { void *r=__real_mmap(a,n,p,f,fd,o); if (r!=MAP_FAILED) map_b+=(long)((n+4095)/4096); return r; }
int __wrap_munmap(void *a, size_t n) { int r=__real_munmap(a,n); if (!r) map_b-=(long)((n+4095)/4096); return r; }
#define PAIR(i,d,ip,ia,dp,da) int __real_##i ip; int __real_##d dp; int __wrap_##i ip { int r=__real_##i ia; if (!r) objs++; return r; } int __wrap_##d dp { int r=__real_##d da; if (!r) objs--; return r; }
PAIR(sem_init,sem_destroy,(sem_t*s,int p,unsigned v),(s,p,v),(sem_t*s),(s))
PAIR(pthread_mutex_init,pthread_mutex_destroy,(pthread_mutex_t*m,const pthread_mutexattr_t*a),(m,a),(pthread_mutex_t*m),(m))
PAIR(pthread_cond_init,pthread_cond_destroy,(pthread_cond_t*m,const pthread_condattr_t*a),(m,a),(pthread_cond_t*m),(m))
PAIR(pthread_barrier_init,pthread_barrier_destroy,(pthread_barrier_t*m,const pthread_barrierattr_t*a,unsigned n),(m,a,n),(pthread_barrier_t*m),(m))
PAIR(pthread_attr_init,pthread_attr_destroy,(pthread_attr_t*a),(a),(pthread_attr_t*a),(a))
PAIR(pthread_key_create,pthread_key_delete,(pthread_key_t*k,void(*d)(void*)),(k,d),(pthread_key_t k),(k))
typedef struct { void *(*f)(void*); void *a; } TA;
static void nap(long us) { struct timespec t={0,us*1000}; nanosleep(&t,0); }
static void *tramp(void *x) { TA t=*(TA*)x; __real_free(x); if (delays && drnd()%4==0) nap(drnd()%2500); void *r=t.f(t.a); if (delays && drnd()%4==0) nap(drnd()%2500); ended++; return r; }
int __wrap_pthread_create(pthread_t *t, const pthread_attr_t *at, void *(*f)(void*), void *a) { TA *x=(TA*)__real_malloc(sizeof *x); x->f=f; x->a=a; int r=__real_pthread_create(t,at,tramp,x); if (r) __real_free(x); else created++; return r; }

typedef struct { unsigned n; size_t dq; int what; uint64_t seed; } Cycle;
static Cycle *cur; static atomic_long sum; static atomic_int ids[64];
TASK_2(uint64_t, tree, int, d, uint64_t, s) { if (d==0) return s&1023; SPAWN(tree,d-1,u_mix(s,1)); uint64_t a=CALL(tree,d-1,u_mix(s,2)); return a+SYNC(tree)*3; }
static uint64_t seqtree(int d, uint64_t s) { if (d==0) return s&1023; return seqtree(d-1,u_mix(s,2))+3*seqtree(d-1,u_mix(s,1)); }
VOID_TASK_0(whoami) { if (LACE_WORKER_ID>=lace_workers()) u_fail("workers","a worker has number %u of %u",(unsigned)LACE_WORKER_ID,lace_workers()); ids[LACE_WORKER_ID]++; }
TASK_1(int, fillup, size_t, n) { for (size_t i=0;i<n;i++) SPAWN(tree,0,i); int bad=0; for (size_t i=n;i>0;i--) if (SYNC(tree)!=((i-1)&1023)) bad++; return bad; }
static void work(uint64_t s)
{
    int d=(int)(s%6)+1; if ((size_t)d+1>cur->dq) d=(int)cur->dq-1; uint64_t r, w=seqtree(d<0?0:d,s); if (d<0) d=0;
    switch (u_mix(s,3)%4) { case 0: r=RUN(tree,d,s); break; case 1: r=RUNEX(tree,d,s); break; case 2: r=NEWFRAME(tree,d,s); break;
      default: r=w; for (int i=0;i<64;i++) ids[i]=0; TOGETHER(whoami); for (unsigned i=0;i<cur->n;i++) if (ids[i]!=1) u_fail("workers","worker %u of %u took part %d times in a together",i,cur->n,ids[i]); }
    if (r!=w) u_fail("wrong-value","a computation returns a wrong value");
}
static void *client(void *a) { uint64_t s=(uint64_t)(uintptr_t)a; for (int i=0;i<2;i++) { int d=(int)(s%5); if ((size_t)d+1>cur->dq) d=0; if (RUN(tree,d,u_mix(s,i))!=seqtree(d,u_mix(s,i))) u_fail("wrong-value","a computation of a client returns a wrong value"); } return 0; }
static int threads(void) { int n=0; DIR *d=opendir("/proc/self/task"); struct dirent *e; while ((e=readdir(d))) if (e->d_name[0]!='.') n++; closedir(d); return n; }
static void cycle(Cycle *c)
{
    cur=c; long cr=created;
    lace_start(c->n,c->dq);
    if (created-cr!=(long)c->n) u_fail("threads","lace_start(%u) creates %ld threads",c->n,created-cr);
    if (lace_workers()!=c->n) u_fail("workers","lace_workers() is %u after lace_start(%u)",lace_workers(),c->n);
    if (lace_is_worker()) u_fail("identity","lace_is_worker() in the main thread");
    switch (c->what) {
    case 0: break;                                                        /* stop at once */
    case 1: lace_suspend(); break;                                        /* stop while suspended */
    case 2: work(c->seed); work(u_mix(c->seed,9)); break;
    case 3: lace_suspend(); work(c->seed); break;
    case 4: lace_suspend(); lace_resume(); work(c->seed); break;
    case 5: { pthread_t t[3]; for (int i=0;i<3;i++) __real_pthread_create(&t[i],0,client,(void*)(uintptr_t)u_mix(c->seed,i)); work(c->seed); for (int i=0;i<3;i++) pthread_join(t[i],0); break; }
    case 6: if (RUN(fillup,c->dq)) u_fail("wrong-value","a task of a full queue returned a wrong value"); break;
    case 7: { pthread_t t; lace_suspend(); __real_pthread_create(&t,0,client,(void*)(uintptr_t)c->seed); work(u_mix(c->seed,4)); pthread_join(t,0); break; }
    default: for (int i=0;i<3;i++) { lace_suspend(); lace_resume(); } lace_suspend();
    }
    long cr2=created; 
    lace_stop();
    long en=ended; if (en!=cr2) u_fail("threads-alive","lace_stop() of %u workers (kind of life %d) returns while %ld worker threads have not ended",c->n,c->what,cr2-en);
    if (lace_is_worker()) u_fail("identity","lace_is_worker() in the main thread after lace_stop()");
}
typedef struct { long vm, maps, heap, fds, ln, lb, mp, ob, th; } M;
static M measure(void)
{
    M m; memset(&m,0,sizeof m); FILE *f=fopen("/proc/self/statm","r"); if (fscanf(f,"%ld",&m.vm)!=1) exit(2); fclose(f);
    int c; f=fopen("/proc/self/maps","r"); while ((c=getc(f))!=EOF) if (c=='\n') m.maps++; fclose(f);
    DIR *d=opendir("/proc/self/fd"); while (readdir(d)) m.fds++; closedir(d);
#ifndef NOMALLINFO
    m.heap=(long)mallinfo2().uordblks;
#endif
    m.ln=live_n; m.lb=live_b; m.mp=map_b; m.ob=objs; m.th=0; for (int i=0;i<400 && (m.th=threads())>1;i++) nap(5000);
    return m;
}
static int npat, nrep; static uint64_t pseed;
static void child(void *x)
{
    (void)x; mallopt(M_ARENA_MAX,1); uint64_t save=u_seed; (void)save; u_seed=pseed; dl=pseed; delays=u_rng(0,2)>0;
    static Cycle cy[64]; char d[600]=""; 
    for (int i=0;i<npat;i++) { cy[i].n=(unsigned)u_rng(1,u_rng(0,3)?4:9); static const size_t q[]={1,2,3,7,8,50,300,2000,20000}; cy[i].dq=q[u_rng(0,8)]; cy[i].what=u_rng(0,8); cy[i].seed=u_rnd(); if (strlen(d)<500) sprintf(d+strlen(d),"(%u,%zu,%d) ",cy[i].n,cy[i].dq,cy[i].what); }
    M m[64];
    for (int r=0;r<nrep;r++) { for (int i=0;i<npat;i++) { if (cy[i].what==6 && 0) continue; cycle(&cy[i]); } m[r]=measure(); if (m[r].th>1) u_fail("threads-left","%ld threads remain after lace_stop()",m[r].th-1); }
    if (m[nrep-1].lb>65536 || m[nrep-1].mp>16) u_fail("memory-left","after lace_stop() %ld bytes and %ld mapped pages are still held; lives (workers,queue,kind): %s",m[nrep-1].lb,m[nrep-1].mp,d);
#define GROWS(f,what) { int g=1; for (int r=4;r<nrep;r++) if (m[r].f<=m[r-1].f) g=0; if (g) u_fail("leak","%s: grows with every repetition (%ld after %d repetitions, %ld after %d) of the lives (workers,queue,kind): %s",what,m[3].f,4,m[nrep-1].f,nrep,d); }
    
#if !defined(__SANITIZE_ADDRESS__) && !SAN
    GROWS(vm,"address space (pages)") GROWS(maps,"number of mappings") GROWS(heap,"bytes in use on the heap")
#endif
     GROWS(fds,"open files") GROWS(ln,"blocks of memory") GROWS(lb,"bytes of memory") GROWS(mp,"mapped pages") GROWS(ob,"synchronisation objects") 
}
int main(int argc, char **argv)
{
    /* no per-thread caches: they make the heap look as if it grows */
    if (!getenv("GLIBC_TUNABLES")) { setenv("GLIBC_TUNABLES","glibc.malloc.tcache_count=0",1); execv("/proc/self/exe",argv); }
    u_seed=strtoull(argv[1],0,0); int pats=atoi(argv[2]); (void)argc; static char buf[5000]; long lives=0;
    for (int p=0;p<pats;p++) {
        npat=u_rng(1,8); nrep=11; pseed=u_rnd(); if (p==0) { npat=1; }
        int st=u_child(child,0,buf,sizeof buf,90);
        char *sf=strstr(buf,"SIMFAIL kind="); if (sf) { printf("\n%s\n",sf); fflush(stdout); return 1; }
        if (strstr(buf,"Sanitizer")||strstr(buf,"runtime error")) u_fail("sanitizer","%.700s",buf);
        if (st==-1) { printf("\nSIMFAIL kind=hang iter_seed=0 :: %d lives, seed %llu: no end\n",npat*nrep,(unsigned long long)pseed); fflush(stdout); return 1; }
        if (st!=0) u_fail("crash","lives of seed %llu: %s %.400s",(unsigned long long)pseed,u_status(st),buf);
        lives+=npat*nrep; if (p==1) printf("SAMPLE %d lives in one process, %d different ones, each repeated %d times: nothing left\n",npat*nrep,npat,nrep);
    }
    printf("CASES %ld %d\n",lives,pats); return 0;
}
