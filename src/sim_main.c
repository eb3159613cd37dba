/* Driver of the simulated engine: one process runs a range of seeds of one profile. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "h.h"
#include "sim.h"
const Profile *find_profile(const char *);
static uint64_t sm(uint64_t *s){ uint64_t z=(*s+=0x9E3779B97F4A7C15ULL); z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
int main(int argc,char**argv)
{
    if (argc<4) { fprintf(stderr,"usage: sim profile base first count\n"); return 2; }
    const Profile *p=find_profile(argv[1]); if(!p) { fprintf(stderr,"no such profile\n"); return 2; }
    uint64_t base=strtoull(argv[2],0,0); long first=atol(argv[3]), count=atol(argv[4]); sim_lace_races=argc>5 && !strcmp(argv[5],"races");
    PR=p; sim_init();
    for (long i=first;i<first+count;i++) {
        uint64_t seed=base*1000003ULL+(uint64_t)i, s=seed^0xABCDEF; sim_cfg c; memset(&c,0,sizeof c);
        static const double Q[]={1,2,5,20,60,300,3}; static const double ST[]={0,0,0.02,0.1,0.3}; static const uint64_t SX[]={100,1000,5000,20000};
        c.qmean=Q[sm(&s)%7]; c.pstall=ST[sm(&s)%5]; if(c.qmean<4 && c.pstall>0.05) c.pstall=0.01; c.stallmax=SX[sm(&s)%4]; c.reweight=(sm(&s)&1)?0.01:0;
        c.tso=(sm(&s)%10)<7; c.hb=1; c.spurious=(sm(&s)&1); c.eintr=p->eintr?(1+(int)(sm(&s)%6)):0;
        c.soft=600000; c.hard=6000000; c.wall=40; c.report_seed=(uint64_t)i;
        uint64_t arg=seed;
        MonStats b=ms; uint64_t st=simstats.steps;
        uint64_t h=sim_execute(seed,&c,scenario,&arg);
        mon_print_delta(&b,h,simstats.steps-st);
    }
    printf("STATS {\"steps\":%llu,\"switches\":%llu,\"stalls\":%llu,\"atomics\":%llu,\"buffered_stores\":%llu,\"failed_cas\":%llu,\"spurious\":%llu,\"eintr\":%llu,\"semaphore_ops\":%llu,\"user_accesses\":%llu,\"lace_accesses\":%llu,",
        (unsigned long long)simstats.steps,(unsigned long long)simstats.switches,(unsigned long long)simstats.stalls,(unsigned long long)simstats.atomics,(unsigned long long)simstats.buffered,(unsigned long long)simstats.casfail,(unsigned long long)simstats.spurious,(unsigned long long)simstats.eintr,(unsigned long long)simstats.sems,(unsigned long long)simstats.user_accesses,(unsigned long long)simstats.lace_accesses);
    mon_print_stats(); printf("}\n");
    return 0;
}
