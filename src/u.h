#ifndef U_H
#define U_H
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <signal.h>
#include <errno.h>
#include <time.h>
#include <fcntl.h>
#include <sys/wait.h>
#ifdef LACE14
#include <lace14.h>
#define VARIANT 14
#else
#include <lace.h>
#define VARIANT 6
#endif
static uint64_t u_seed; static long u_cases;
static inline uint64_t u_mix(uint64_t a, uint64_t b) { a^=b+0x9E3779B97F4A7C15ULL+(a<<6)+(a>>2); a^=a>>30; a*=0xBF58476D1CE4E5B9ULL; a^=a>>27; a*=0x94D049BB133111EBULL; return a^(a>>31); }
static inline uint64_t u_rnd(void) { u_seed=u_mix(u_seed,1234); return u_seed; }
static inline int u_rng(int a, int b) { return a+(int)(u_rnd()%(uint64_t)(b-a+1)); }
static inline void __attribute__((noreturn,format(printf,2,3))) u_fail(const char *kind, const char *fmt, ...)
{
    char b[1200]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    for (char *p=b;*p;p++) if (*p=='\n') *p=' ';
    printf("\nSIMFAIL kind=%s iter_seed=0 :: %s\n",kind,b); fflush(stdout); _exit(1);
}
static inline double u_now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
/* runs f in a child; returns its wait status, what it wrote to stderr and stdout in buf. -1: did not end in time */
static int u_child(void (*f)(void*), void *a, char *buf, size_t n, double limit)
{
    int pf[2]; if (pipe(pf)) { perror("pipe"); exit(2); }
    fflush(stdout); fflush(stderr);
    pid_t p=fork(); if (p<0) { perror("fork"); exit(2); }
    if (p==0) { close(pf[0]); dup2(pf[1],2); dup2(pf[1],1); close(pf[1]); signal(SIGALRM,SIG_DFL); f(a); fflush(stdout); fflush(stderr); _exit(0); }
    close(pf[1]); fcntl(pf[0],F_SETFL,O_NONBLOCK);
    size_t k=0; double end=u_now()+limit; int st=-1;
    for (;;) {
        char tmp[512]; ssize_t r=read(pf[0],tmp,sizeof tmp);
        if (r>0) { size_t c=(size_t)r<n-1-k?(size_t)r:n-1-k; memcpy(buf+k,tmp,c); k+=c; continue; }
        if (r==0) { waitpid(p,&st,0); break; }
        pid_t q=waitpid(p,&st,WNOHANG);
        if (q==p) { while ((r=read(pf[0],tmp,sizeof tmp))>0) { size_t c=(size_t)r<n-1-k?(size_t)r:n-1-k; memcpy(buf+k,tmp,c); k+=c; } break; }
        if (u_now()>end) { kill(p,SIGKILL); waitpid(p,&st,0); st=-1; break; }
        struct timespec ts={0,200000}; nanosleep(&ts,0);
    }
    close(pf[0]); buf[k]=0; return st;
}
static inline const char *u_status(int st) { static char b[60]; if (st==-1) return "no end in time"; if (WIFSIGNALED(st)) snprintf(b,sizeof b,"killed by signal %d",WTERMSIG(st)); else snprintf(b,sizeof b,"exit status %d",WEXITSTATUS(st)); return b; }
#endif
