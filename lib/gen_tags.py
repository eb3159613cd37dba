#!/usr/bin/env python3
"""Writes src/tags.h: the task definitions of the generated programs, with and without result, for every arity."""
TY=[('uint8_t','u8'),('double','d'),('uint16_t','u16'),('int64_t','i64'),('float','f'),('uint32_t','u32')]
out=['/* written by lib/gen_tags.py */']
def task(k,void):
    name=('v%d' if void else 't%d')%k
    pos=(k if k%2==0 else 1) if void else (k+1)//2
    if k==1: pos=1
    decl=[];chk=[];args=[]
    for i in range(1,k+1):
        if i==pos: decl.append('NodeM*, n'); args.append('(c)'); continue
        t,f=TY[(i+k+(2 if void else 0))%6]
        decl.append('%s, a%d'%(t,i)); args.append('ta_%s(c,%d)'%(f,i)); chk.append('a%d!=ta_%s(n,%d)'%(i,f,i))
    c='if (%s) badarg(n,"%s"); '%(' || '.join(chk),name) if chk else ''
    if void: out.append('VOID_TASK_%d(%s, %s) { %sCALL(nodebody, n); }'%(k,name,', '.join(decl),c))
    else:
        rt={0:'NodeM*',1:'uint64_t',2:'uint32_t'}[k%3]
        ret={0:'CALL(nodebody, n); return n;',1:'return CALL(nodebody, n);',2:'return (uint32_t)CALL(nodebody, n);'}[k%3]
        out.append('TASK_%d(%s, %s, %s) { %s%s }'%(k,rt,name,', '.join(decl),c,ret))
        out.append('#define RT_%s %s\n#define CK_%s(c,r) %s'%(name,rt,name,{0:'checkretp(c,r)',1:'checkret64(c,r)',2:'checkret32(c,r)'}[k%3]))
    out.append('#define AR_%s(c) %s'%(name,', '.join(args)))
def zero():
    for s in range(3):
        out.append('TASK_0(uint64_t, zt%d) { return CALL(nodebody, m_znode(%d)); }'%(s,s))
        out.append('VOID_TASK_0(zv%d) { CALL(nodebody, m_znode(%d)); }'%(s,s+3))
zero()
for k in range(1,15):
    if k==7: out.append('#ifdef LACE14')
    task(k,False); task(k,True)
out.append('#endif')
x=lambda a,b,kind:' '.join('X(%s%d,%d)'%('t' if kind=='T' else 'v',k,k) for k in range(a,b))
out.append('#ifdef LACE14\n#define EACH_T(X) %s\n#define EACH_V(X) %s\n#else\n#define EACH_T(X) %s\n#define EACH_V(X) %s\n#endif'%(x(1,15,'T'),x(1,15,'V'),x(1,7,'T'),x(1,7,'V')))
out.append('#define EACH_Z(X) X(0) X(1) X(2)')
import os,sys
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','src','tags.h'),'w').write('\n'.join(out)+'\n')

# togs.h: TOGETHER tasks of all arities
o=['/* written by lib/gen_tags.py */']
for z in range(2):
    o.append('TASK_0(uint64_t, tgzt%d) { Tog *t=(Tog*)m_znode(%d); tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); return t->a; }'%(z,6+z))
    o.append('VOID_TASK_0(tgzv%d) { Tog *t=(Tog*)m_znode(%d); tog_body(__lace_worker, __lace_dq_head, t, t->a, t->b); }'%(z,8+z))
args={}
for k in range(1,15):
    if k==7: o.append('#ifdef LACE14')
    for void in (0,1):
        pos=(k+1+void)//2 if k>1 else 1
        order=[None]*k; order[pos-1]='t'; rest=['a','b']
        for i in range(k):
            if order[i] is None: order[i]=rest.pop(0) if rest else i+1
        decl=[];arg=[];chk=[]
        for x in order:
            if x=='t': decl.append('Tog*, t'); arg.append('t')
            elif x=='a': decl.append('uint64_t, a'); arg.append('t->a')
            elif x=='b': decl.append('uint32_t, b'); arg.append('t->b')
            else:
                ty=TY[(x+k+void)%6][0]
                cv='(%s)(%s)(tog_x(t,%d)>>40)'%(ty,'int16_t' if ty in('float','double') else 'uint64_t',x)
                decl.append('%s, x%d'%(ty,x)); arg.append(cv); chk.append('x%d!=%s'%(x,cv))
        n='tg%s%d'%('v' if void else 't',k)
        body='%stog_body(__lace_worker, __lace_dq_head, t, %s, %s);'%('if (%s) badtog(t,"%s"); '%(' || '.join(chk),n) if chk else '', 'a' if 'a' in order else 't->a','b' if 'b' in order else 't->b')
        if void: o.append('VOID_TASK_%d(%s, %s) { %s }'%(k,n,', '.join(decl),body))
        else: o.append('TASK_%d(uint64_t, %s, %s) { %s return t->a; }'%(k,n,', '.join(decl),body))
        o.append('#define AR_%s(t) %s'%(n,', '.join(arg)))
o.append('#endif')
e=lambda K:' '.join('X(%d,tgt%d) X(%d,tgv%d)'%(2*k,k,2*k+1,k) for k in range(1,K+1))
o.append('#ifdef LACE14\n#define EACH_TOG(X) %s\n#else\n#define EACH_TOG(X) %s\n#endif'%(e(14),e(6)))
o.append('#define TOG_RUN(k,name) case k: TOGETHER(name, AR_##name(t)); break;')
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','src','togs.h'),'w').write('\n'.join(o)+'\n')

# multi.h: for a task of one parameter, tasks of all arities, with and without result, that do the same; which one is used depends on
# the place in the queue. Tasks without parameters call NAME_zrun, after NAME_zput was called by the spawner.
o=['/* written by lib/gen_tags.py */','#ifndef MULTI_H','#define MULTI_H','#ifdef LACE14','enum { MAR=14 };','#else','enum { MAR=6 };','#endif',
 '#ifdef MULTI_NOZERO','enum { MK=2*MAR };','#else','enum { MK=2*MAR+2 };','#endif','#define MARITY(k) ((k)>2*MAR?0:1+((k)-1)%MAR)',
 '/* half of the programs use one kind everywhere */',
 '#define MKIND(h) (1+(int)(g_mix(MULTI_SEED,((MULTI_SEED)>>17&1)?0:(uint64_t)((h)-__lace_worker->dq))%MK))',
 '#define SPAWNM(NAME,x) do { int mk_=MKIND(__lace_dq_head); SPAWNK(NAME,mk_,x); } while(0)',
 '/* the values of outstanding tasks without parameters, to be taken by whoever executes one */',
 '#define MULTI_LIST(RT,NAME,IT) static IT NAME##_zv[64]; static int NAME##_zs[64]; TASK_DECL_1(RT, NAME, IT) \\',
 'static void NAME##_zput(IT x) { for (int i=0;;i++) { int e=0; if (i==64) rt_fail("harness","list"); if (__atomic_compare_exchange_n(&NAME##_zs[i],&e,1,0,5,5)) { NAME##_zv[i]=x; __atomic_store_n(&NAME##_zs[i],2,5); return; } } } \\',
 'static IT NAME##_zget(void) { for (int n=0;n<64;n++) for (int i=0;i<64;i++) { int e=2; if (__atomic_load_n(&NAME##_zs[i],5)==2 && __atomic_compare_exchange_n(&NAME##_zs[i],&e,3,0,5,5)) { IT x=NAME##_zv[i]; __atomic_store_n(&NAME##_zs[i],0,5); return x; } } rt_fail("twice","a task without parameters is executed more often than it was spawned"); return (IT)0; } \\',
 'static RT NAME##_zrun(WorkerP *__lace_worker, Task *__lace_dq_head) { return CALL(NAME,NAME##_zget()); }']
vl=[x.replace('MULTI_LIST(RT,NAME,IT)','MULTI_VLIST(NAME,IT)').replace('TASK_DECL_1(RT, NAME, IT)','VOID_TASK_DECL_1(NAME, IT)').replace('static RT NAME##_zrun','static void NAME##_zrun').replace('return CALL(NAME,','CALL(NAME,') for x in o[-4:]]
o+=vl
for K,c in ((6,'#ifndef LACE14'),(14,'#else')):
    o.append(c)
    R=range(1,K+1)
    def ex(k): return ''.join(', %s, d%d'%(('int','double','char','long')[i%4],i) for i in range(2,k+1))
    def un(k): return ' '.join('(void)d%d;'%i for i in range(2,k+1))
    va=lambda k:''.join(', %d'%(i*3) for i in range(2,k+1))
    T=lambda rt,call:' '.join('TASK_%d(%s, NAME##_m%d, IT, i%s) { %s %s }'%(k,rt,k,ex(k),un(k),call) for k in R)
    V=' '.join('VOID_TASK_%d(NAME##_v%d, IT, i%s) { %s CALL(NAME,i); }'%(k,k,ex(k),un(k)) for k in R)
    for z in (0,1):
        o.append('#ifdef MULTI_NOZERO' if z==0 else '#else')
        ZT=' TASK_0(RT, NAME##_m0) { return NAME##_zrun(__lace_worker,__lace_dq_head); } VOID_TASK_0(NAME##_v0) { NAME##_zrun(__lace_worker,__lace_dq_head); }' if z else ''
        ZV=' TASK_0(int, NAME##_m0) { NAME##_zrun(__lace_worker,__lace_dq_head); return 5; } VOID_TASK_0(NAME##_v0) { NAME##_zrun(__lace_worker,__lace_dq_head); }' if z else ''
        ZS=' case %d: NAME##_zput(x); SPAWN(NAME##_m0); break; case %d: NAME##_zput(x); SPAWN(NAME##_v0); break;'%(2*K+1,2*K+2) if z else ''
        ZY=' case %d: SYNC(NAME##_m0); zexpr; r_=(dflt); break; case %d: SYNC(NAME##_v0); zexpr; r_=(dflt); break;'%(2*K+1,2*K+2) if z else ''
        ZW=' case %d: SYNC(NAME##_m0); break; case %d: SYNC(NAME##_v0); break;'%(2*K+1,2*K+2) if z else ''
        o.append('#define MULTI_T(RT,NAME,IT) '+T('RT','return CALL(NAME,i);')+' '+V+ZT)
        o.append('#define MULTI_V(NAME,IT) '+T('int','CALL(NAME,i); return %d;'%(K*7))+' '+V+ZV)
        o.append('#define SPAWNK(NAME,k_,x) switch (k_) { '+' '.join('case %d: SPAWN(NAME##_m%d, x%s); break; case %d: SPAWN(NAME##_v%d, x%s); break;'%(k,k,va(k),K+k,k,va(k)) for k in R)+ZS+' }')
        o.append('#define RUNK(OP,NAME,k_,x) switch (k_) { '+' '.join('case %d: OP(NAME##_m%d, x%s); break; case %d: OP(NAME##_v%d, x%s); break;'%(k,k,va(k),K+k,k,va(k)) for k in R)+ZS.replace('SPAWN(','OP(')+' }')
        o.append('#define SYNCT(RT,NAME,dflt,zexpr) __extension__({ RT r_=(RT)0; switch (MKIND(__lace_dq_head-1)) { '+' '.join('case %d: r_=SYNC(NAME##_m%d); break; case %d: SYNC(NAME##_v%d); r_=(dflt); break;'%(k,k,K+k,k) for k in R)+ZY+' } r_; })')
        o.append('#define SYNCV(NAME) do { switch (MKIND(__lace_dq_head-1)) { '+' '.join('case %d: SYNC(NAME##_m%d); break; case %d: SYNC(NAME##_v%d); break;'%(k,k,K+k,k) for k in R)+ZW+' } } while(0)')
    o.append('#endif')
o+=['#endif','#endif']
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','src','multi.h'),'w').write('\n'.join(o)+'\n')
