#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "mon.h"

MonStats ms; const Profile *PR;
#define NODEMAX 60000
static NodeM *nodes; static int nnodes;
#define FRMAX 20000
static Frame *frames; static int nframes;
#define TOGMAX 4000
static Tog *togs; static int ntogs;
#define CELLS (NODEMAX*8)
static uint64_t *cells; static int ncell;
static Frame *cur_frame; static Frame base;
static int ext_active, ext_excl;

#define LD(x) __atomic_load_n(&(x),__ATOMIC_SEQ_CST)
#define INC(x) __atomic_fetch_add(&(x),1,__ATOMIC_SEQ_CST)
#define ADD(x,v) __atomic_fetch_add(&(x),(v),__ATOMIC_RELAXED)
#define DEC(x) __atomic_fetch_sub(&(x),1,__ATOMIC_SEQ_CST)

uint64_t mix(uint64_t a, uint64_t b){ uint64_t z=(a^(b*0x9E3779B97F4A7C15ULL))+0xD1B54A32D192ED03ULL; z=(z^(z>>30))*0xBF58476D1CE4E5B9ULL; z=(z^(z>>27))*0x94D049BB133111EBULL; return z^(z>>31); }
static inline uint64_t nx(uint64_t *s){ *s=mix(*s,0x51); return *s; }

static NodeM *zslot[10];
void mon_reset(uint64_t seed, const Profile *p)
{
    (void)seed;
    if(!nodes){ nodes=malloc(sizeof(NodeM)*NODEMAX); frames=malloc(sizeof(Frame)*FRMAX); togs=malloc(sizeof(Tog)*TOGMAX); cells=aligned_alloc(64,CELLS*8); }
    PR=p; memset(zslot,0,sizeof zslot); nnodes=0; nframes=0; ntogs=0; ncell=0; memset(&base,0,sizeof base); cur_frame=&base; ext_active=ext_excl=0;
    rt_track(cells,CELLS*8);
}
uint64_t *mon_cells(int n)
{ int k=__atomic_fetch_add(&ncell,n,__ATOMIC_SEQ_CST); if(k+n>CELLS) rt_inconclusive("out of user cells"); uint64_t*c=cells+k; return c; }
static NodeM *nodealloc(void){ int k=INC(nnodes); if(k>=NODEMAX) rt_inconclusive("too many nodes"); NodeM*n=&nodes[k]; memset(n,0,sizeof *n); n->id=k; n->spawner=n->executor=-1; n->c=mon_cells(6); return n; }
static Frame *framealloc(Frame*par,int kind){ int k=INC(nframes); if(k>=FRMAX) rt_inconclusive("too many frames"); Frame*f=&frames[k]; memset(f,0,sizeof *f); f->id=k+1; f->parent=par; f->kind=kind; return f; }

/* ------------------------------------------------ generator: the operations of a node depend on its seed only */
int gen_ops(const NodeM *n, Op *ops)
{
    uint64_t s=mix(n->seed,77); int no=0, out=0; int left=n->budget-1;
    int maxn = 3+(int)(nx(&s)%10); if (n->budget<=1) maxn=1+(int)(nx(&s)%3);
    int fan=PR->fan; if(fan>MAXOUT) fan=MAXOUT;
    int burst = (nx(&s)%6)==0 ? 1+(int)(nx(&s)%(fan)) : 0;   /* sometimes start with a burst of spawns */
    double tot=0; for(int i=0;i<OP_N;i++) tot+=PR->w[i];
    for (int i=0;i<maxn+burst && no<MAXOPS-MAXOUT-1;i++) {
        double x=(nx(&s)>>11)*(1.0/9007199254740992.0)*tot; int k=0; for(;k<OP_N-1;k++){ x-=PR->w[k]; if(x<0) break; }
        if (i<burst) k=OP_SPAWN;
        int needs = k==OP_SPAWN||k==OP_CALL||k==OP_RUN||k==OP_PLAIN||k==OP_NEWFRAME||k==OP_TOGETHER;
        if (needs && (left<=0 || n->depth>=PR->maxdepth)) k=OP_WORK, needs=0;
        if ((k==OP_NEWFRAME||k==OP_TOGETHER) && ((n->flags&NF_NOFRAME)||n->fdepth>=PR->maxframe)) { k=OP_SPAWN; }
        if (k==OP_SPAWN && out>=fan) k=OP_SYNC, needs=0;
        if ((k==OP_SYNC||k==OP_DROP||k==OP_STATUS) && out==0) { k=OP_WORK; }
        Op *o=&ops[no++]; o->kind=k; o->flags=n->flags; o->tag=0; o->budget=0; o->seed=nx(&s);
        if (needs) { 
            int b = 1+(int)(nx(&s)%(left>1?(left<12?left:(left*2/3)):1)); if(b>left) b=left; if ((nx(&s)&3)==0) b=1;
            left-=b; o->budget=b; o->tag=(uint8_t)(nx(&s)%240); }
        if (k==OP_SPAWN) out++;
        if (k==OP_SYNC||k==OP_DROP) out--;
    }
    while(out-->0) { ops[no].kind=OP_SYNC; if(PR->w[OP_DROP]>0 && nx(&s)%8==0) ops[no].kind=OP_DROP; ops[no].seed=nx(&s); no++; }
    return no;
}
static uint64_t model(uint64_t seed,int budget,int depth,int fdepth,int flags)
{
    NodeM t; memset(&t,0,sizeof t); t.seed=seed; t.budget=budget; t.depth=depth; t.fdepth=fdepth; t.flags=flags;
    Op ops[MAXOPS]; int no=gen_ops(&t,ops); int st[MAXOUT+2], sp=0; uint64_t h=mix(seed,1);
    for(int i=0;i<no;i++) switch(ops[i].kind) {
        case OP_SPAWN: st[sp++]=i; break;
        case OP_SYNC: { int j=st[--sp]; h=mix(h,model(ops[j].seed,ops[j].budget,depth+1,fdepth,ops[j].flags)); break; }
        case OP_DROP: --sp; h=mix(h,3); break;
        case OP_CALL: case OP_RUN: case OP_PLAIN: h=mix(h,model(ops[i].seed,ops[i].budget,depth+1,fdepth,ops[i].flags)); break;
        case OP_NEWFRAME: h=mix(h,model(ops[i].seed,ops[i].budget,depth+1,fdepth+1,ops[i].flags)); break;
        case OP_TOGETHER: h=mix(h,5); break;
        case OP_WORK: h=mix(h,ops[i].seed); break;
        default: break;
    }
    return h;
}
NodeM *mk_root(uint64_t seed,int budget,int flags)
{ NodeM*n=nodealloc(); n->seed=seed; n->budget=budget; n->flags=flags; n->frame=&base; n->kind=-1; n->expect=model(seed,budget,0,0,flags); ADD(ms.nodes,1); return n; }
NodeM *mk_child(NodeM *p,const Op *op)
{
    NodeM*n=nodealloc(); n->seed=op->seed; n->budget=op->budget; n->flags=op->flags; n->tag=op->tag; n->depth=p->depth+1; n->fdepth=p->fdepth+(op->kind==OP_NEWFRAME); n->parent=p; n->frame=p->frame; n->kind=op->kind;
    if (op->kind==OP_NEWFRAME) { n->frame=framealloc(p->frame,1); n->is_frame_root=1; ADD(ms.frames,1); }
    n->expect=model(n->seed,n->budget,n->depth,n->fdepth,n->flags); ADD(ms.nodes,1);
    return n;
}
Tog *mk_tog(NodeM *p,const Op *op,uint64_t seed,int flags,int budget,int nw)
{
    int k=INC(ntogs); if(k>=TOGMAX) rt_inconclusive("too many TOGETHERs"); Tog*t=&togs[k]; memset(t,0,sizeof *t);
    (void)op; t->n=nw; t->frame=framealloc(p?p->frame:&base,2); t->frame->n=nw; t->a=mix(seed,11); t->b=(uint32_t)mix(seed,12);
    t->rounds = PR->togrounds ? (int)(mix(seed,13)%(PR->togrounds+1)) : 0; t->reuse=mix(seed,14)&1; t->ret=mix(seed,15)&1;
    if (t->rounds) flags|=NF_NOFRAME;
    t->cells=mon_cells(2*nw);
    if (budget>12) budget=12;
    for(int i=0;i<nw;i++) { NodeM*n=nodealloc(); n->seed=mix(seed,100+i); n->budget=1+(int)(mix(seed,200+i)%budget); n->flags=flags; n->depth=(p?p->depth:0)+1; n->fdepth=(p?p->fdepth:0)+1; n->parent=p; n->frame=t->frame; n->kind=OP_TOGETHER;
        n->expect=model(n->seed,n->budget,n->depth,n->fdepth,n->flags); t->nodes[i]=n; ADD(ms.nodes,1); }
    ADD(ms.togs,1);
    return t;
}

/* ------------------------------------------------ events */
#define DESC "node %d (kind %d tag %d, spawned by thread %d, run by thread %d)"
#define DARG n->id,n->kind,n->tag,n->spawner,n->executor
static void frame_enter(Frame *f, const char *what)
{
    Frame *c=LD(cur_frame);
    if (PR->isolate && c!=f->parent) rt_fail("frame-order","%s %d starts while frame %d is current (expected %d)",what,f->id,c->id,f->parent->id);
    __atomic_store_n(&cur_frame,f,__ATOMIC_SEQ_CST);
}
static void frame_leave(Frame *f, const char *what)
{
    Frame *c=LD(cur_frame);
    if (PR->isolate && c!=f) rt_fail("frame-order","%s %d ends while frame %d is current",what,f->id,c->id);
    __atomic_store_n(&cur_frame,f->parent,__ATOMIC_SEQ_CST);
}
/* nodes of outstanding tasks without parameters */
int m_zget(NodeM *n,int first,int count)
{ for(int i=first;i<first+count;i++){ NodeM *e=0; if(__atomic_compare_exchange_n(&zslot[i],&e,n,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST)) return i; } return -1; }
void m_zput(int i){ __atomic_store_n(&zslot[i],(NodeM*)0,__ATOMIC_SEQ_CST); }
NodeM *m_znode(int i){ NodeM *n=__atomic_load_n(&zslot[i],__ATOMIC_SEQ_CST); if(!n) rt_fail("executed-after-end","a task without parameters is executed although none is outstanding"); return n; }
void m_op(int k){ ADD(ms.kinds[k],1); }
void m_cop(int k){ ADD(ms.cops[k],1); }
void m_slept(void){ ADD(ms.sleeps,1); }
static int wk_tid[MAXWK], wk_n;
void m_cycle(int n){ wk_n=n; for(int i=0;i<MAXWK;i++) wk_tid[i]=-1; ADD(ms.starts,1); }
void m_worker(unsigned id,int isw)
{
    if (!isw) rt_fail("identity","lace_is_worker() is 0 inside a task");
    if (id>=(unsigned)wk_n) rt_fail("identity","worker id %u with %d workers",id,wk_n);
    int t=rt_tid(), e=-1;
    if (!__atomic_compare_exchange_n(&wk_tid[id],&e,t,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST) && e!=t) rt_fail("identity","threads %d and %d both are worker %u",e,t,id);
}
void mk_extframe(NodeM *n){ n->frame=framealloc(&base,1); n->is_frame_root=1; ADD(ms.frames,1); }
void m_spawn(NodeM *n){ n->spawner=rt_tid(); ADD(ms.spawns,1); }
void m_start(NodeM *n,int isw)
{
    if (!isw) rt_fail("not-a-worker",DESC " is executed by a thread that is not a worker",DARG);
    int k=INC(n->started);
    if (k!=0) rt_fail("executed-twice",DESC " starts for the %d-th time",DARG,k+1);
    if (LD(n->dropped)) rt_fail("dropped-task-ran",DESC " starts after it was dropped",DARG);
    if (LD(n->synced)) rt_fail("ran-after-sync",DESC " starts after its sync returned",DARG);
    n->executor=rt_tid();
    if (n->kind==OP_SPAWN && n->spawner!=n->executor) ADD(ms.stolen,1);
    if (n->seen_stolen && n->spawner==n->executor) rt_fail("status",DESC " was reported stolen but runs on its spawner",DARG);
    if (n->is_frame_root) frame_enter(n->frame,"NEWFRAME");
    m_step(n);
}
void m_step(NodeM *n)
{
    ADD(ms.steps,1);
    if (PR->isolate) { Frame*c=LD(cur_frame); if (c!=n->frame) rt_fail("isolation",DESC " of frame %d makes a step while frame %d is running",DARG,n->frame->id,c->id); }
    if (n->frame!=&base) ADD(ms.nodes_in_frames,1);
}
void m_end(NodeM *n,uint64_t r)
{
    if (r!=n->expect) rt_fail("wrong-result",DESC " computed %llx instead of %llx",DARG,(unsigned long long)r,(unsigned long long)n->expect);
    if (rt_tid()!=n->executor) rt_fail("migrated",DESC " ends on thread %d",DARG,rt_tid());
    if (n->is_frame_root) frame_leave(n->frame,"NEWFRAME");
    INC(n->finished);
}
static void done(NodeM *n,const char*what)
{
    int s=LD(n->started), f=LD(n->finished);
    if (s==0) rt_fail("lost",DESC " was not executed although %s returned",DARG,what);
    if (f!=1) rt_fail("early-return",DESC " has not finished although %s returned",DARG,what);
    __atomic_store_n(&n->synced,1,__ATOMIC_SEQ_CST);
}
void m_synced(NodeM *n,uint64_t r,int has)
{
    done(n,"SYNC"); ADD(ms.synced,1);
    if (has && r!=n->expect) rt_fail("wrong-value",DESC ": sync returned %llx instead of %llx",DARG,(unsigned long long)r,(unsigned long long)n->expect);
}
void m_called(NodeM *n,uint64_t r)
{
    done(n,"the call");
    if (r!=n->expect) rt_fail("wrong-value",DESC ": call returned %llx instead of %llx",DARG,(unsigned long long)r,(unsigned long long)n->expect);
}
void m_dropped(NodeM *n)
{
    int s=LD(n->started), f=LD(n->finished); __atomic_store_n(&n->dropped,1,__ATOMIC_SEQ_CST); ADD(ms.drops,1);
    if (s!=f) rt_fail("drop-early",DESC " is still running although DROP returned",DARG);
    if (s) { ADD(ms.drops_run,1); if (n->executor==n->spawner) rt_fail("drop-executed",DESC " was executed by the dropping worker itself",DARG); }
    if (LD(n->started)!=s) rt_fail("dropped-task-ran",DESC " starts after it was dropped",DARG);
}
void m_status(NodeM *n,int st,int co,uint64_t res,int has)
{
    ADD(ms.status,1);
    if (co && !st) rt_fail("status",DESC " reported completed but not stolen",DARG);
    if (n->seen_stolen && !st) rt_fail("status",DESC " reported stolen earlier, not any more",DARG);
    if (co) { ADD(ms.status_completed,1); if (LD(n->finished)!=1) rt_fail("status",DESC " reported completed but has not finished",DARG);
        if (n->executor==n->spawner) rt_fail("status",DESC " reported completed but ran on its spawner",DARG);
        if (has && res!=n->expect) rt_fail("status",DESC " reported completed with result %llx instead of %llx",DARG,(unsigned long long)res,(unsigned long long)n->expect); }
    if (st) { ADD(ms.status_stolen,1); n->seen_stolen=1; if (LD(n->started) && n->executor==n->spawner) rt_fail("status",DESC " reported stolen but ran on its spawner",DARG); }
}
void m_tog_start(Tog *t,int w,uint64_t a,uint32_t b)
{
    if (w<0||w>=t->n) rt_fail("together","copy of TOGETHER runs with worker id %d of %d",w,t->n);
    if (a!=t->a||b!=t->b) rt_fail("together-args","copy on worker %d received arguments %llx,%x instead of %llx,%x",w,(unsigned long long)a,b,(unsigned long long)t->a,t->b);
    if (__atomic_exchange_n(&t->frame->ran[w],1,__ATOMIC_SEQ_CST)) rt_fail("together","worker %d runs a second copy of the same TOGETHER",w);
    if (INC(t->frame->started)==0) { if (PR->isolate) { Frame*e=t->frame->parent; if(!__atomic_compare_exchange_n(&cur_frame,&e,t->frame,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST) && e!=t->frame) rt_fail("frame-order","TOGETHER %d starts while frame %d is current",t->frame->id,e->id);} }
    else if (PR->isolate) { if (rt_is_sim() && LD(cur_frame)!=t->frame) rt_fail("frame-order","a copy of TOGETHER %d starts while frame %d is current",t->frame->id,cur_frame->id); Frame*e=t->frame->parent; __atomic_compare_exchange_n(&cur_frame,&e,t->frame,0,__ATOMIC_SEQ_CST,__ATOMIC_SEQ_CST); }
    if (t->ext && __atomic_exchange_n(&t->ext,2,__ATOMIC_SEQ_CST)==1) m_ext_begin(0);
    ADD(ms.togcopies,1);
}
void m_tog_end(Tog *t,int w)
{
    (void)w;
    if (LD(t->frame->done)+1==t->n && LD(t->frame->started)!=t->n) rt_fail("together","impossible count");
    int d=__atomic_add_fetch(&t->frame->done,1,__ATOMIC_SEQ_CST);
    if (d==t->n) { frame_leave(t->frame,"TOGETHER"); if (t->ext) m_ext_end(0); }
}
void m_tog_returned(Tog *t)
{
    if (LD(t->frame->started)!=t->n) rt_fail("together","TOGETHER returned after %d of %d copies started",LD(t->frame->started),t->n);
    if (LD(t->frame->done)!=t->n) rt_fail("together","TOGETHER returned after %d of %d copies finished",LD(t->frame->done),t->n);
    __atomic_store_n(&t->frame->done,t->n+1000,__ATOMIC_SEQ_CST);
}
void m_bar_enter(Tog *t,int r){ INC(t->enter[r]); }
void m_bar_leave(Tog *t,int r){ int e=LD(t->enter[r]); if(e!=t->n) rt_fail("barrier","a worker left barrier %d after %d of %d workers entered",r,e,t->n); ADD(ms.rounds,1); }
void m_ext_begin(int excl)
{
    int a=INC(ext_active); if (a>=1) ADD(ms.concurrent_ext,1);
    uint64_t m=LD(ms.maxext); if((uint64_t)a+1>m) __atomic_store_n(&ms.maxext,(uint64_t)a+1,__ATOMIC_SEQ_CST);
    if (excl && a!=0) rt_fail("exclusive","an exclusive task starts while %d other external tasks are running",a);
    if (!excl && LD(ext_excl)) rt_fail("exclusive","an external task starts while an exclusive task is running");
    if (excl) INC(ext_excl);
}
void m_ext_end(int excl){ if(excl) DEC(ext_excl); DEC(ext_active); }
void m_final(int quiet)
{
    (void)quiet;
    for(int i=0;i<nnodes;i++) { NodeM*n=&nodes[i];
        if (n->kind==OP_TOGETHER && n->started==0 && n->parent==0 && 0) continue;
        /* nodes whose parent never ran (dropped subtree) are never created, so every node was offered */
        if (n->dropped) { if(n->started!=n->finished || n->started>1) rt_fail("drop","dropped " DESC " started %d finished %d",DARG,n->started,n->finished); continue; }
        if (n->started!=1||n->finished!=1) rt_fail("lost",DESC " started %d times, finished %d times at the end",DARG,n->started,n->finished);
    }
    if (cur_frame!=&base) rt_fail("frame-order","frame %d still current at the end",cur_frame->id);
    if (ext_active||ext_excl) rt_fail("exclusive","external tasks still active at the end");
}

void mon_print_stats(void)
{
    static const char *K[]={"spawn","sync","drop","call","run_inside","plain","newframe","together","yield","steal_random","make_all_shared","work","status","pause"};
    static const char *CK[]={"run","runex","ext_newframe","ext_together","suspend_resume","nap"};
#define P(f) printf("\"%s\":%llu,",#f,(unsigned long long)ms.f)
    P(nodes);P(spawns);P(synced);P(stolen);P(drops);P(drops_run);P(frames);P(togs);P(togcopies);P(rounds);P(starts);P(sleeps);P(status);P(status_stolen);P(status_completed);printf("\"task_steps\":%llu,",(unsigned long long)ms.steps);P(nodes_in_frames);P(concurrent_ext);P(maxext);
    for(int i=0;i<OP_N;i++) printf("\"op_%s\":%llu,",K[i],(unsigned long long)ms.kinds[i]);
    for(int i=0;i<6;i++) printf("\"client_%s\":%llu%s",CK[i],(unsigned long long)ms.cops[i],i<5?",":"");
}

void mon_print_delta(const MonStats *b, uint64_t h, uint64_t steps)
{   /* E hash steps stolen drops_run frames togs rounds concurrent_ext runex suspends starts status_stolen plain */
#define D(f) (unsigned long long)(ms.f-b->f)
    printf("E %016llx %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu %llu\n",(unsigned long long)h,(unsigned long long)steps,D(stolen),D(drops),D(frames),D(togs),D(rounds),D(concurrent_ext),D(cops[CO_RUNEX]),D(cops[CO_SUSPEND]),D(starts),D(status_stolen),D(kinds[OP_PLAIN]));
}
