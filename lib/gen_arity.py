#!/usr/bin/env python3
"""gen_arity.py OUT VARIANT CXX: tasks of every arity and of many parameter and result types, called in every way.
decl.h declares the tasks of impl.c (a C file; used from C and C++); main.c and second.c define more of their own."""
import sys, random
OUT,V,CXX=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
R=random.Random(20+V)
# name -> (C type, size, align, literal from hash)
T={'i8':('int8_t',1,1),'u8':('uint8_t',1,1),'i16':('int16_t',2,2),'u16':('uint16_t',2,2),'i32':('int32_t',4,4),'u32':('uint32_t',4,4),'i64':('int64_t',8,8),'u64':('uint64_t',8,8),
   'sz':('size_t',8,8),'flt':('float',4,4),'dbl':('double',8,8),'ptr':('const void*',8,8),'fn':('a_fn',8,8),'bl':('bool',1,1),'en':('a_enum',4,4),'s12':('a_s12',12,4),'s16':('a_s16',16,8),'s3':('a_s3',3,1),'ld':('long double',16,16),'i128':('a_i128',16,16),'s24':('a_s24',24,8)}
TASK=-(-(16+8*V)//64)*64
def fits(args,res):
    off=0; al=8
    for a in args:
        _,s,l=T[a]; off=(off+l-1)//l*l+s; al=max(al,l)
    un=off
    if res: un=max(un,T[res][1]); al=max(al,T[res][2])
    # two pointers of common fields, then the union
    base=(16+al-1)//al*al
    return (base+un+al-1)//al*al<=TASK
MAXA=V
names=list(T)
def pick(n,k):
    for _ in range(400):
        a=[R.choice(names) for _ in range(n)]; r=R.choice(names) if k else None
        if fits(a,r): return a,r
    for _ in range(4000):
        a=[R.choice(['i8','u8','i16','u16','i32','u32','flt','bl','en','u64','ptr']) for _ in range(n)]; r=R.choice(['u64','dbl','i32','bl','ld','s16']) if k else None
        if fits(a,r): return a,r
    a=[R.choice(['i8','u8','i16','u16','i32','u32','flt','bl','en']) for _ in range(n)]; return a,('u64' if k else None)
fixed=[(['u64']*n,'u64') for n in range(MAXA+1) if fits(['u64']*n,'u64')]+[(['u64']*n,None) for n in range(MAXA+1) if fits(['u64']*n,None)]
def specs(reps):
    L=[]
    for n in range(MAXA+1):
        for k in (0,1):
            for _ in range(reps): L.append(pick(n,k))
    return L
LD=specs(2)+fixed; LM=specs(1)
# heavy ones: every type as only parameter and as result
for t in names: LM.append(([t],t)); LD.append(([t],t)); LM.append(([],t))
def types(args): return ''.join(', %s'%T[a][0] for a in args)
def params(args): return ''.join(', %s, a%d'%(T[a][0],i) for i,a in enumerate(args))
def body(nm,i,args,res):
    s='    uint64_t h=a_start(%d,LACE_WORKER_ID);\n'%i
    for k,a in enumerate(args): s+='    h=a_mix(h,h_%s(a%d));\n'%(a,k)
    s+='    a_ran(h);\n'
    if res: s+='    return mk_%s(a_mix(h,99));\n'%res
    return s
def define(pre,base,L,how):
    s=''
    for i,(a,r) in enumerate(L):
        nm='%s%d'%(pre,i)
        if how=='decl': s+=('TASK_DECL_%d(%s, %s%s)\n'%(len(a),T[r][0],nm,types(a))) if r else ('VOID_TASK_DECL_%d(%s%s)\n'%(len(a),nm,types(a)))
        elif how=='impl': s+=(('TASK_IMPL_%d(%s, %s%s)'%(len(a),T[r][0],nm,params(a))) if r else ('VOID_TASK_IMPL_%d(%s%s)'%(len(a),nm,params(a))))+'\n{\n'+body(nm,base+i,a,r)+'}\n'
        else: s+=(('TASK_%d(%s, %s%s)'%(len(a),T[r][0],nm,params(a))) if r else ('VOID_TASK_%d(%s%s)'%(len(a),nm,params(a))))+'\n{\n'+body(nm,base+i,a,r)+'}\n'
    return s
# ---- drivers: one function per task
def driver(pre,base,L,name):
    s=''
    for i,(a,r) in enumerate(L):
        nm=name; n=len(a)
        mk=lambda sd: ''.join((', ' if k else '')+'mk_%s(a_mix(%s,%d))'%(t,sd,k) for k,t in enumerate(a))
        s+='static uint64_t x_%s(uint64_t s) { uint64_t h=a_mix(0,%d); (void)s;\n'%(nm,base+i)
        for k,t in enumerate(a): s+='    h=a_mix(h,h_%s(mk_%s(a_mix(s,%d))));\n'%(t,t,k)
        s+='    return h; }\n'
        args=mk('s')
        get=lambda e: ('a_result(%d,h_%s(%s),h_%s(mk_%s(a_mix(h,99))),"%s")'%(base+i,r,e,r,r,nm)) if r else e
        spawnargs=', '.join([nm]+([args] if args else []))
        # from outside
        s+='static void o_%s(uint64_t s, int how) { uint64_t h=x_%s(s);\n'%(nm,nm)
        s+='  switch (how) {\n  case 0: a_expect(h,1); %s; break;\n  case 1: a_expect(h,1); %s; break;\n  case 2: a_expect(h,1); %s; break;\n  default: a_expect(h,lace_workers()); TOGETHER(%s); break; }\n  a_done(%d,"%s",how); }\n'%(get('RUN(%s)'%spawnargs),get('RUNEX(%s)'%spawnargs),get('NEWFRAME(%s)'%spawnargs),spawnargs,base+i,nm)
        # from inside
        s+='VOID_TASK_2(i_%s, uint64_t, s, int, how) { uint64_t h=x_%s(s);\n'%(nm,nm)
        s+='  switch (how) {\n  case 0: case 6: { a_expect(h,1); Task *t=__lace_dq_head; SPAWN(%s); if (how==6) { LACE_MAKE_ALL_SHARED(); a_wait_stolen(t); } %s; } break;\n'%(spawnargs,get('SYNC(%s)'%nm))
        s+='  case 1: a_expect(h,1); %s; break;\n  case 2: a_expect(h,1); %s; break;\n  case 3: a_expect(h,1); %s; break;\n  case 4: a_expect(h,1); %s; break;\n  case 5: a_expect(h,lace_workers()); TOGETHER(%s); break;\n'%(get('CALL(%s)'%spawnargs),get('RUN(%s)'%spawnargs),get('RUNEX(%s)'%spawnargs),get('NEWFRAME(%s)'%spawnargs),spawnargs)
        # through a pointer
        cbargs=', '.join(['fp']+([args] if args else []))
        s+='  case 8: { LACE_TYPEDEF_CB(%s, cb_%s%s); volatile cb_%s vp=TASK(%s); cb_%s fp=vp; a_expect(h,1); %s; } break;\n'%(T[r][0] if r else 'void',nm,types(a),nm,nm,nm,get('WRAP(%s)'%cbargs))
        # several outstanding, with different arguments
        s+='  default: { uint64_t ss[6], hh[6]; for (int k=0;k<6;k++) { ss[k]=a_mix(s,100+k); hh[k]=x_%s(ss[k]); a_expect(hh[k],1); }\n'%nm
        args2=mk('ss[k]'); sp2=', '.join([nm]+([args2] if args2 else []))
        s+='     for (int k=0;k<6;k++) { SPAWN(%s); if (k==3 && (s&1)) LACE_MAKE_ALL_SHARED(); }\n'%sp2
        s+='     for (int k=5;k>=0;k--) { uint64_t h=hh[k]; (void)h; %s; } } break; }\n'%get('SYNC(%s)'%nm)
        s+='  a_done(%d,"%s",10+how); }\n'%(base+i,nm)
        s+='static void all_%s(uint64_t seed) { for (int how=0;how<4;how++) o_%s(a_mix(seed,how),how); for (int how=0;how<9;how++) { if (how==6 && lace_workers()<2) continue; RUN(i_%s,a_mix(seed,100+how),how); } }\n'%(nm,nm,nm)
    return s
inc='#include "arity.h"\n'
NP=4
open(OUT+'/decl.h','w').write('#ifndef DECL_H\n#define DECL_H\n#ifdef __cplusplus\nextern "C" {\n#endif\n'+define('d',0,LD,'decl')+'#ifdef __cplusplus\n}\n#endif\n#endif\n')
open(OUT+'/impl.c','w').write('#define ARITY_MAIN\n'+inc+'#include "decl.h"\n'+define('d',0,LD,'impl'))
def sub(pre,base,L,k,how):
    """the tasks of part k"""
    idx=[i for i in range(len(L)) if i%NP==k]
    out=''
    for i in idx:
        one=[None]*0
        d=define('@',base+i,[L[i]],'both').replace('@0','%s%d'%(pre,i)) if how else ''
        out+=d+driver('@',base+i,[L[i]],'%s%d'%(pre,i))
    return out,idx
for k in range(NP):
    s1,i1=sub('d',0,LD,k,0); s2,i2=sub('m',1000,LM,k,1)
    # a second unit calls a few of the tasks the other units call, too
    body_=inc+'#include "decl.h"\n'+s1+s2+'#ifdef __cplusplus\nextern "C"\n#endif\nvoid part%d(uint64_t seed) {\n'%k
    for pre,ii in (('d',i1),('m',i2)):
        for i in ii: body_+='  all_%s%d(a_mix(seed,%d));\n'%(pre,i,i)
    x=''
    if k==0: 
        n=min(len(LD),8); x=''.join(driver('@',i,[LD[i]],'d%d'%i).replace('x_d','y_d').replace('o_d','p_d').replace('i_d','j_d').replace('all_d','alld2') for i in range(1,1+n) if i%NP!=0)
        body_=body_.replace('#ifdef __cplusplus\nextern "C"',x+'#ifdef __cplusplus\nextern "C"',1)+''.join('  alld2%d(a_mix(seed,%d));\n'%(i,i+5000) for i in range(1,1+n) if i%NP!=0)
    open(OUT+'/part%d.c'%k,'w').write(body_+'}\n')
open(OUT+'/main.c','w').write(inc+'#ifdef __cplusplus\nextern "C" {\n#endif\n'+''.join('void part%d(uint64_t);\n'%k for k in range(NP))+'#ifdef __cplusplus\n}\n#endif\n'+'''
int main(int argc, char **argv)
{
    uint64_t seed=strtoull(argv[1],0,0); int reps=atoi(argv[2]);
    static const int nw[]={2,1,4,3,8};
    for (int r=0;r<reps;r++) {
        lace_start((unsigned)nw[r%%5], 40);
        %s
        lace_stop();
    }
    printf("CASES %%ld\\nSAMPLE %%ld calls of %d tasks, %%ld of them executed by a thief\\n",a_calls,a_calls,a_stolen);
    return 0;
}
'''%(' '.join('part%d(a_mix(seed,r*%d+%d));'%(k,NP,k) for k in range(NP)),len(LD)+len(LM)))
