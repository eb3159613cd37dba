"""What each property's check runs."""
COLS=['stolen','drops_run','frames','togs','rounds','concurrent_ext','runex','suspends','starts','status_stolen','plain']
# verdicts that involve a clock: reported only when they repeat
TIMING_KINDS={'not-asleep','threads-left','hang','slow'}
ASSUMPTIONS=['x86-TSO: reorderings that x86 forbids are not produced (weaker C11 orders are covered only through the happens-before detector)',
 'the controlled scheduler covers the random schedules it draws, not all of them',
 'the machine code of the simulated engine is what clang -O1 -fsanitize=thread makes of the sources']
R_SIM='one execution = one generated task program and client history (start, tasks, frames, suspensions, stop) under one drawn schedule of the controlled scheduler, or on real threads; '
def P(*parts,**kw): return dict(parts=parts,**kw)
# (engine build, profile, quick count, thorough count)
def sim(v,profile,q,t,key=None,args=()): return dict(extra_args=list(args),type='range',engine='sim',build='sim.%s'%v,profile=profile,q=q,t=t,key=key,chunk=2500,timeout=400)
def nat(v,profile,q,t,key=None,args=(),prefix=()): return dict(type='range',engine='native',build='nat.%s'%v,profile=profile,q=q,t=t,key=key,chunk=400,timeout=90,extra_args=list(args),prefix=list(prefix))
def prog(build,args=(),targs=None,**kw): return dict(type='prog',build=build,args=[str(a) for a in args],targs=[str(a) for a in (targs if targs is not None else args)],timeout=kw.pop('timeout',200),engine=kw.pop('engine','unit'),**kw)
def gad(src,v,profile,q,t,config='mmap'): return dict(type='range',engine='sim',build='gad.%s.%s.%s'%(src,v,config),profile=profile,q=q,t=t,key=['stolen'],chunk=1000,timeout=300)
def both(f,*a,**kw):   # both header variants
    return [f(6,*a,**kw),f(14,*a,**kw)]
def sims(profile,q,t,key=None,cfg6=None,cfg14=None,args=()):
    """two thirds of it with lace.h, the rest with lace14.h"""
    return [sim('6'+('.'+cfg6 if cfg6 else ''),profile,q-q//3,t-t//3,key,args),sim('14'+('.'+cfg14 if cfg14 else ''),profile,q//3,t//3,key,args)]
RACES=['races']   # accesses of Lace to its own memory are judged, too
def nats(profile,q,t,key=None,cc='gcc',**kw): return [nat('6.'+cc,profile,q-q//3,t-t//3,key,**kw),nat('14.'+cc,profile,q//3,t//3,key,**kw)]
def gads(src,profile,q,t,config='mmap'): return [gad(src,6,profile,q-q//3,t-t//3,config),gad(src,14,profile,q//3,t//3,config)]
S=['stolen']
REFUSE=[prog('unit.refuse.%s'%x,['{seed}',200],['{seed}',6000],weight=2) for x in '6.gcc 14.gcc.none 6.gcc.hwloc'.split()]
TECH_SIM='runtime monitoring: the real code under a controlled random scheduler, with an online checker of the task/frame/barrier/client specification and a happens-before race detector; the same monitors on real threads'
NOTE_SIM='decided by oracles observing executions of the real code; covers the drawn programs and schedules only'
PROPS={
 'C01':P(*gads('last','plain',3000,150000),*gads('last','frametogdrop',900,80000),*sims('forkjoin',12000,450000,S),*sims('deep',4500,150000,S),*sims('all',4000,300000,S),*sims('frames',2000,100000,S),*sims('external',2000,100000,S),
      *nats('forkjoin',1200,45000,S),nat('6.gcc','deep',400,15000,S),
      rule=R_SIM+'non-trivial: at least one task was executed by a thief; distinct by schedule hash'),
 'C03':P(*gads('last','drop',4500,200000),*gads('last','dropre',3000,150000),*sims('drop',15000,500000,['drops_run']),*sims('reentry',2000,100000,S),*nats('drop',1200,40000,['drops_run']),
      rule=R_SIM+'non-trivial: at least one dropped task had been stolen and ran; distinct by schedule hash'),
 'C04':P(*sims('forkjoin',9000,300000,S),*sims('together',2500,80000,['rounds','togs']),*sims('newframe',2500,80000,['frames']),*sims('external',3000,100000,['concurrent_ext']),*sims('drop',3000,80000,['drops_run']),*sims('status',2500,80000,['status_stolen']),*sims('suspend',1500,60000,['suspends']),*sims('barrier',3000,100000,['rounds']),*sims('exclusive',1500,60000,['runex']),
      *sims('all',600,60000,S,args=RACES),*sims('forkjoin',600,60000,S,args=RACES),
      rule=R_SIM+'every access of tasks to shared user data is judged by a vector-clock race detector that knows only the C11 orders of the operations Lace executes; non-trivial: the execution had events of the kind (thefts, frames, barriers, external tasks) that create the orders'),
 'C05':P(*sims('all',5000,300000),*sims('suspend',4000,150000,['suspends']),*sims('lifecycle',2000,100000,['starts']),*sims('frames',3000,100000,['frames']),*sims('external',3000,100000,['concurrent_ext']),*sims('exclusive',2500,100000,['runex']),*sims('barrier',2500,100000,['rounds']),*sims('drop',2000,100000,['drops_run']),
      *nats('all',400,20000),*nats('suspend',150,6000,['suspends']),
      rule=R_SIM+'it must end within a bound on steps, the last part of which is scheduled fairly; distinct by schedule hash'),
 'C06':P(*[x for p,q,t in (('all',3000,150000),('more',3000,150000),('moredrop',3000,150000),('synconly',9000,200000),('leap',3000,150000),('leapdeep',3000,150000),('leaprandom',3000,150000),('stealrandom',3000,150000),('pairs',3000,150000),('single',3000,150000)) for x in gads('share',p,q,t)],
      rule='one execution = one program that can only finish, or finish within a bound on steps, when other workers obtain tasks of a busy or blocked worker; non-trivial: tasks were taken'),
 'C07':P(*gads('last','tog',4500,150000),*sims('together',9000,300000,['togs']),*sims('frames',4000,150000,['togs']),*sims('barrier',2000,100000,['togs']),*sims('external',1500,80000,['togs']),*nats('together',900,30000,['togs']),
      rule=R_SIM+'non-trivial: it contained together calls; distinct by schedule hash'),
 'C08':P(*gads('last','frame',6000,200000),*gads('last','frametogdrop',3000,100000),*sims('newframe',8000,300000,['frames']),*sims('frames',6000,200000,['frames']),*sims('external',2000,80000,['frames']),*nats('newframe',900,30000,['frames']),
      rule=R_SIM+'non-trivial: it contained new frames; distinct by schedule hash'),
 'C09':P(*sims('barrier',18000,600000,['rounds']),*sims('suspend',1000,60000,['suspends']),*nats('barrier',900,30000,['rounds']),
      rule=R_SIM+'non-trivial: barrier rounds were passed by at least two workers; distinct by schedule hash'),
 'C10':P(*gads('ext','meet',4500,150000),*sims('external',12000,400000,['concurrent_ext']),*sims('suspend',3000,100000,['suspends']),*sims('all',2500,100000,['concurrent_ext']),*nats('external',600,20000,['concurrent_ext']),
      rule=R_SIM+'non-trivial: at least two client operations overlapped; distinct by schedule hash'),
 'C11':P(*sims('exclusive',14000,400000,['runex']),*sims('suspend',2000,60000,['runex']),*nats('exclusive',500,20000,['runex']),
      rule=R_SIM+'non-trivial: it contained exclusive runs; distinct by schedule hash'),
 'C12':P(*sims('suspend',14000,400000,['suspends']),*sims('lifecycle',2500,100000,['suspends']),*sims('faults',1500,60000,['suspends']),*nats('suspend',150,6000,['suspends']),
      rule=R_SIM+'non-trivial: it contained suspensions; distinct by schedule hash'),
 'C17':P(*gads('stats','mix',3000,120000,'count'),*gads('stats','leap',3000,120000,'count'),*gads('stats','mix',900,60000,'tasks'),*gads('stats','mix',900,60000,'steals'),*gads('stats','mix',900,60000,'splits'),*gads('stats','mix',900,60000,'pie+mmap'),*gads('stats','mix',300,20000,'none'),*sims('all',1500,100000,S,'count','count'),*sims('frames',900,50000,S,'count','count'),
      rule='one execution = one generated program with events counted by the tasks themselves, and the reports taken while suspended, while running and by stop; non-trivial: tasks were stolen'),
 'C19':P(*sims('faults',12000,400000),*gads('fail','failcreate',900,30000),*gads('fail','failalloc',900,30000),*gads('fail','failcreate',600,30000,'none'),*gads('fail','failalloc',600,30000,'none'),*nats('all',60,6000,args=['1']),*REFUSE,
      rule=R_SIM+'with failing weak compare-and-swaps, spurious wake-ups and interrupted waits; or one start with one refused resource'),
 'C21':P(*sims('status',16000,500000,['status_stolen']),*sims('drop',2000,80000,['status_stolen']),*nats('status',900,30000,['status_stolen']),
      rule=R_SIM+'non-trivial: a status query saw a stolen task; distinct by schedule hash'),
 'C23':P(*gads('free','some',9000,300000),*gads('free','all',9000,300000),*gads('free','contend',4500,150000),
      rule='one execution = one program in which other threads are stopped at drawn points, or spawn steps are counted under contention'),
}
TECH_UNIT='runtime monitoring: the real code on real threads with generated inputs, an independent reference for every observed value, and AddressSanitizer/UndefinedBehaviorSanitizer builds; plus the controlled-scheduler engine where schedules matter'
def units(src,spec,args,targs=None,**kw):
    return [prog('unit.%s.%s'%(src,x),args,targs,**kw) for x in spec.split()]
def tonly(parts): return [dict(p,thorough_only=True) for p in parts]
PROPS.update({
 'C02':P(*units('arity','6.gcc 14.g++ 14.asan 6.asan++',['{seed}',3],['{seed}',120],build_is_violation=True),
      *tonly(units('arity','14.gcc 6.g++ 6.clang 14.clang++ 6.gccO3 14.gccO3 6.asan 14.asan++ 6.gccd',['{seed}',5],['{seed}',120],build_is_violation=True)),
      *sims('forkjoin',1500,60000,S),technique=TECH_UNIT,
      rule='one execution = one task call with drawn values, of one arity, one assignment of types and one way of running it, whose body compares each argument and whose caller compares the result; non-trivial: all of them, the number of stolen ones is in the parts'),
 'C13':P(*units('life','6.gcc 14.gcc.none 14.asan 6.asan.none 6.gcc.hwloc',['{seed}',10],['{seed}',400]),
      *tonly(units('life','14.gcc.hwloc 6.asan.hwloc 14.asan.none 6.clang.everything 14.gcc.everything',['{seed}',10],['{seed}',300])),
      *units('capacity','6.asan',['{seed}',1],['{seed}',4]),
      *sims('lifecycle',3000,150000,['starts']),*nats('lifecycle',60,3000,['starts']),technique=TECH_UNIT,
      rule='one execution = one life (start, use, stop) of a drawn pattern, after which threads, memory, mappings, file descriptors and semaphores are compared with before, or one life on the simulated engine; non-trivial: lives that ran tasks'),
 'C14':P(*units('capacity','6.gcc 14.gcc 6.asan.none 14.asan.none',['{seed}',1],['{seed}',6]),
      *tonly(units('capacity','6.gcc.none 14.clang 6.asan 14.asan 6.gccd 14.gccO3 6.gcc.everything',['{seed}',1],['{seed}',6])),
      *sims('deep',1500,60000,S),*sims('reentry',1500,60000,S),technique=TECH_UNIT,
      rule='one execution = one queue size with one way of filling it to the last entry or one beyond, in a process of its own, judged by results, message and exit status; or one drawn program with deep queues on the simulated engine'),
 'C16':P(*gads('last','dropre',2400,100000),*gads('last','re',2400,100000),*sims('reentry',12000,400000,S),*sims('frames',2000,80000,S),*sims('external',2000,80000,S),*nats('reentry',900,30000,S),*units('capacity','6.gcc 14.gcc',['{seed}',1],['{seed}',3]),
      rule=R_SIM+'ordinary functions called from tasks re-enter the framework; non-trivial: at least one task was stolen'),
 'C20':P(*units('start','6.gcc 14.gcc 6.gcc.hwloc 14.asan',['{seed}',60],['{seed}',3000]),
      *tonly(units('start','14.gcc.hwloc 6.asan 6.clang.tasks 6.asan.hwloc 14.gcc.everything',['{seed}',60],['{seed}',2000])),
      *units('capacity','6.gcc',['{seed}',1],['{seed}',3]),
      technique=TECH_UNIT,
      rule='one execution = one start with drawn parameters, limits and processor mask in a process of its own, in which the number of workers, their identities, their stacks and queues are observed from inside'),
 'C22':P(prog('bench.Release.gcc',['{seed}',1],['{seed}',6]),*tonly([prog('bench.Debug.clang',['{seed}',1],['{seed}',4]),prog('bench.Release.clang',['{seed}',1],['{seed}',4]),prog('bench.Debug.gcc',['{seed}',1],['{seed}',4]),prog('bench.Debug.asan',['{seed}',1],['{seed}',4])]),technique=TECH_UNIT,
      rule='one execution = one run of a bundled program (or of its task on a drawn input) whose answer is compared with an independent computation'),
})
PROPS.update({
 'C18':P(prog('options',['{seed}',1],['{seed}',2],weight=8,timeout=300),
      *sims('all',1200,100000,S,'none','none'),*sims('all',1200,100000,S,'count','count'),*nats('all',60,4000,S),
      nat('6.gcc.everything','all',24,4000,S),nat('14.gcc.hwloc','all',24,4000,S),nat('6.gccd.none','all',30,4000,S),
      technique='runtime monitoring: one self-checking program built with every combination of the options (directly and through CMake), answers compared over all builds, effects of each option (mappings, real memory, pinning, report) observed; the specification monitors on engines built with different options',
      rule='one execution = one run of the program in one build; the answers are the same in all and the observed effects are those of the options; or one drawn program in one configuration; distinct by build and number of workers'),
})
PROPS.update({
 'C15':P(*[x for p,q,t in (('all',1500,80000),('forkjoin',600,40000),('deep',300,20000),('frames',600,40000),('external',600,40000),('suspend',600,40000),('lifecycle',600,30000),('reentry',600,30000),('drop',400,30000),('barrier',300,20000)) for x in sims(p,q,t,args=RACES)],
      *sims('all',300,30000,None,'none','count',args=RACES),
      *[nat(b,p,q,t) for p,q,t in (('all',24,3000),('forkjoin',30,3000),('frames',24,2000),('external',20,2000),('reentry',24,2000),('deep',20,1000),('exclusive',12,1000),('drop',20,1000),('lifecycle',12,800),('status',12,1000),('barrier',12,1000)) for b in ('6.asan','14.asan')],
      *units('capacity','6.asan.none 14.asan.none 6.msan',['{seed}',1],['{seed}',4]),
      *units('life','14.asan',['{seed}',6],['{seed}',200]),
      *units('arity','14.asan',['{seed}',1],['{seed}',60]),
      *tonly(units('arity','6.asan 6.asan++ 14.asan++ 6.msan 14.msan',['{seed}',1],['{seed}',60])),
      *tonly(units('capacity','6.asan 14.asan 14.msan 6.asan.count+hwloc',['{seed}',1],['{seed}',4])),
      *tonly(units('life','6.asan.none 6.asan.everything 14.msan',['{seed}',6],['{seed}',200])),
      *units('start','6.asan',['{seed}',30],['{seed}',1000]),
      technique='runtime monitoring: AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer builds of the library and of the programs that monitor all other properties, allocations with guard pages and poisoned contents and a happens-before race detector over all memory of Lace on the simulated engine',
      rule='one execution = one generated program, queue size, life or call with drawn arguments under a sanitizer, or one drawn program and schedule in which every access of Lace and of the tasks is judged by the race detector'),
})
# large numbers of everything, on real threads
SCALE={'C01':('6.gcc','steals queue'),'C03':('14.gcc','queue'),'C05':('6.gcc','clients suspend frames barrier'),'C07':('14.gcc','frames barrier'),'C08':('6.gcc','frames nested'),'C09':('14.gcc','barrier workers'),
 'C10':('6.gcc','clients external'),'C11':('14.gcc','clients external'),'C12':('6.gcc','suspend clients'),'C13':('14.gcc','lives'),'C14':('6.gcc','queue'),'C16':('14.gcc','queue nested'),'C17':('6.gcc.count','counters'),'C20':('6.gcc','workers'),'C15':('6.asan','queue nested external lives')}
for c,(b,n) in SCALE.items():
    o=b.replace('14.','x.').replace('6.','14.').replace('x.','6.')
    PROPS[c]['parts']=list(PROPS[c]['parts'])+units('scale',b,['{seed}',1]+n.split(),['{seed}',4]+n.split())+tonly(units('scale',o,['{seed}',4]+n.split()))
def jobs(prop,tier,seed,b,here,repo):
    out=[]
    for i,p in enumerate(PROPS[prop]['parts']):
        j=dict(p)
        if j.get('thorough_only') and tier!='thorough': continue
        if callable(j.get('make')): out+=j['make'](tier,seed,b,here,repo); continue
        if j['type']=='range':
            j['count']=j['t'] if tier=='thorough' else j['q']*(2 if j['engine']=='sim' else 1); j['base']=seed*1000+i*7+3
            j['label']='%s/%s%s'%(j['build'],j['profile'],'+'.join(['']+j.get('extra_args',[])))
            if j['count']==0: continue
            if tier=='thorough': j['chunk']*=4; j['timeout']*=4
        else:
            a=j['targs'] if tier=='thorough' else j['args']
            j['args']=[x.replace('{seed}',str(seed)) for x in a]; j['label']='%s %s'%(j['build'],' '.join(j['args']))
            j['rargs']=j['args']
            if tier=='thorough': j['timeout']*=20
        out.append(j)
    return out
GEN=dict(build_may_fail=True)   # a generator that falls behind the sources is not judged, what it produces is
PROPS['C24']=P(*units('arity','g14.gcc g6.g++ g9.gcc g20.asan',['{seed}',2],['{seed}',100],**GEN),*units('arity','6.gcc',['{seed}',1],['{seed}',20]),
      *tonly(units('arity','g6.gcc g14.g++ g2.gcc g3.asan g5.gcc g10.asan++ g12.clang g17.gcc g24.gcc g32.gcc',['{seed}',3],['{seed}',60],**GEN)),
      *[dict(sim(v,pr,q,t,S),**GEN) for v,pr,q,t in (('g6','all',2500,150000),('g14','all',1500,100000),('g6','drop',1500,80000),('g14','reentry',1000,60000))],technique=TECH_UNIT,
      rule='one execution = one task call as in C02 or one generated scenario on the simulated engine, with headers (and lace14.c) written by the generator of the repository for 2 to 32 parameters; non-trivial: all calls, and scenarios with thefts')
