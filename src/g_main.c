/* Driver of the gadgets: small hand-written scenarios on the simulated engine. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <sys/wait.h>
#include "rt.h"
#include "sim.h"
#include "g.h"
uint64_t g_events, g_aux[8]; const char *g_profile; sim_cfg *g_cfg;
static uint64_t sm(uint64_t *s){ uint64_t z=(*s+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
uint64_t g_mix(uint64_t a, uint64_t b){ uint64_t s=a*0x2545F4914F6CDD1DULL+b; return sm(&s); }
int main(int argc,char**argv)
{
    if (argc<5) { fprintf(stderr,"usage: prog profile base first count\n"); return 2; }
    g_profile=argv[1]; uint64_t base=strtoull(argv[2],0,0); long first=atol(argv[3]), count=atol(argv[4]); sim_lace_races=argc>5 && !strcmp(argv[5],"races");
    sim_init(); uint64_t tot[9]={0};
    for (long i=first;i<first+count;i++) {
        uint64_t seed=base*1000003ULL+(uint64_t)i, s=seed^0xABCDEF; sim_cfg c; memset(&c,0,sizeof c); g_cfg=&c;
        static const double Q[]={1,2,5,20,60,300,3}; static const double ST[]={0,0,0.02,0.1,0.3}; static const uint64_t SX[]={100,1000,5000,20000};
        c.qmean=Q[sm(&s)%7]; c.pstall=ST[sm(&s)%5]; if(c.qmean<4 && c.pstall>0.05) c.pstall=0.01; c.stallmax=SX[sm(&s)%4]; c.reweight=(sm(&s)&1)?0.01:0;
        c.tso=(sm(&s)%10)<7; c.hb=0; c.spurious=(sm(&s)&1);
        c.soft=400000; c.hard=4000000; c.wall=40; c.report_seed=(uint64_t)i;
        g_prepare(seed,&c);
        if (!strncmp(g_profile,"fail",4)) {     /* these end the process */
            fflush(stdout); pid_t p=fork(); int w;
            if (p) { if (waitpid(p,&w,0)!=p) return 2; if (!WIFEXITED(w)) { printf("\nSIMFAIL kind=crash iter_seed=%ld :: killed by signal %d\n",i,WTERMSIG(w)); return 1; } if (WEXITSTATUS(w)) return WEXITSTATUS(w);
                tot[8]++; continue; }
        }
        g_events=0; memset(g_aux,0,sizeof g_aux);
        uint64_t st=simstats.steps, arg=seed;
        uint64_t h=sim_execute(seed,&c,gadget,&arg);
        printf("E %016llx %llu %llu 0 %llu 0 0 0 0 0 1 0 0\n",(unsigned long long)h,(unsigned long long)(simstats.steps-st),(unsigned long long)g_events,(unsigned long long)g_aux[0]);
        if (!strncmp(g_profile,"fail",4)) { fflush(stdout); _exit(0); }
        tot[8]+=g_events; for(int k=0;k<8;k++) tot[k]+=g_aux[k];
    }
    printf("STATS {\"steps\":%llu,\"switches\":%llu,\"atomics\":%llu,\"events\":%llu",(unsigned long long)simstats.steps,(unsigned long long)simstats.switches,(unsigned long long)simstats.atomics,(unsigned long long)tot[8]);
    for(int k=0;k<8;k++) printf(",\"aux%d\":%llu",k,(unsigned long long)tot[k]);
    printf("}\n"); return 0;
}
