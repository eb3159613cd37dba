#!/usr/bin/env python3
"""options.py REPO OUT SEED LEVEL: build Lace with every combination of its options, in both variants, with different compilers and the flags of the project,
run one program with each of them and compare the answers; then the same through CMake. LEVEL 1: one variant and language per combination, 2: all."""
import sys, os, subprocess, itertools, threading, random, re, shutil, glob
R,O,SEED,LEVEL=sys.argv[1],sys.argv[2],int(sys.argv[3]),int(sys.argv[4])
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); rnd=random.Random(SEED); lock=threading.Lock()
NAMES=['LACE_USE_MMAP','LACE_USE_HWLOC','LACE_COUNT_TASKS','LACE_COUNT_STEALS','LACE_COUNT_SPLITS','LACE_PIE_TIMES']; X=['X_MMAP','X_HWLOC','X_TASKS','X_STEALS','X_SPLITS','X_PIE']
fails=[]; answers={}; cases=[0]; samples=[]
def sh(argv,timeout=120,cwd=None):
    try: p=subprocess.run(argv,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,stdin=subprocess.DEVNULL,timeout=timeout,cwd=cwd); return p.returncode,p.stdout.decode('utf-8','replace')
    except subprocess.TimeoutExpired: return -999,'no end in time'
def fail(kind,msg):
    with lock: fails.append('SIMFAIL kind=%s iter_seed=0 :: %s'%(kind,msg.replace('\n',' ')[:700]))
def judge(what,rc,out,var):
    m=re.search(r'^SIMFAIL kind=(\S+) \S+ :: (.*)$',out,re.M)
    if m: fail(m.group(1),'%s: %s'%(what,m.group(2))); return
    a=re.search(r'^ANSWERS (.*)$',out,re.M)
    if rc!=0 or not a: fail('hang' if rc==-999 else 'crash','%s: exit status %s: %s'%(what,rc,out[-300:])); return
    with lock:
        cases[0]+=1; answers.setdefault(a.group(1),[]).append(what)
        if len(samples)<3: samples.append('%s: %s'%(what,a.group(1)[:150]))
# compiler, flags for lace.c, flags for the program, language of the program
CFG=[('gcc','gcc','-std=gnu11 -O3 -DNDEBUG -pipe -march=native','-std=gnu11 -O2'),('gcc','gcc','-std=gnu11 -g -pipe -march=native -O0 -Wall -Wextra -Wpedantic','-std=gnu11 -O0'),
     ('gcc','g++','-std=gnu11 -O3 -DNDEBUG -pipe -march=native','-std=gnu++11 -O2'),('clang','clang','-std=gnu11 -O3 -DNDEBUG -pipe -march=native','-std=gnu11 -O2'),
     ('clang','clang++','-std=gnu11 -O2','-std=gnu++17 -O1'),('gcc','gcc','-std=gnu17 -O2','-std=gnu17 -Os'),('clang','clang','-std=gnu11 -g -O0 -Wall -Wextra -Wpedantic','-std=gnu11 -O0'),('gcc','g++','-std=gnu11 -O2','-std=gnu++20 -O0')]
def one(bits,var,c,extra=''):
    o=dict(zip(NAMES,bits)); name='v%s-%s-%d%s'%(var,''.join(map(str,bits)),c,re.sub(r'\W','_',extra)); d=os.path.join(O,name); os.makedirs(d,exist_ok=True)
    what='lace%s with %s (%s, %s%s)'%('14' if var==14 else '',' '.join(n[5:]+'='+str(v) for n,v in o.items()),CFG[c][1],CFG[c][2].split()[1],' '+extra if extra else '')
    subprocess.run(['python3',H+'/lib/mkconfig.py',R+'/src/lace_config.h.in',d+'/lace_config.h']+['%s=%d'%x for x in o.items()],check=True)
    cc,cx,fl,pf=CFG[c]; inc=['-I'+d,'-I'+R+'/src']+extra.split(); src='lace14' if var==14 else 'lace'
    rc,out=sh([cc]+fl.split()+inc+['-c',R+'/src/%s.c'%src,'-o',d+'/l.o'])
    if rc: fail('build',what+': does not compile: '+out[-500:]); return
    lang=['-x','c++'] if '++' in cx else ['-x','c']
    rc,out=sh([cx]+pf.split()+['-w']+inc+['-I'+H+'/src']+(['-DLACE14'] if var==14 else [])+['-D%s=%d'%(x,v) for x,v in zip(X,bits)]+lang+['-c',H+'/src/u_opt.c','-o',d+'/p.o'])
    if rc: fail('build',what+': a program does not compile: '+out[-500:]); return
    rc,out=sh([cx,'-o',d+'/p','-Wl,--wrap=mmap',d+'/l.o',d+'/p.o','-lpthread','-lm']+(['-lhwloc'] if o['LACE_USE_HWLOC'] else []))
    if rc: fail('build',what+': does not link: '+out[-500:]); return
    for n,q in ((3,200),(1,64)) if LEVEL==1 else ((3,200),(1,64),(8,5000),(2,100000)):
        rc,out=sh([d+'/p',str(n),str(q)],60); judge(what+', %d workers'%n,rc,out,var)
    subprocess.run(['rm','-rf',d])
def cm(opts,typ):
    """through CMake: the options reach lace_config.h and the library, which works; returns the build directory"""
    d=os.path.join(O,'cm-'+'-'.join('%s%d'%(k[5:],v) for k,v in opts.items())+typ); what='cmake %s %s'%(' '.join('-D%s=%s'%(k,'ON' if v else 'OFF') for k,v in opts.items()),typ)
    rc,out=sh(['cmake','-S',R,'-B',d,'-G','Ninja','-DCMAKE_BUILD_TYPE='+typ,'-DLACE_BUILD_TESTS=OFF','-DLACE_BUILD_BENCHMARKS=OFF','-DCMAKE_INSTALL_PREFIX='+d+'/inst','-DCMAKE_POLICY_VERSION_MINIMUM=3.5']+['-D%s=%s'%(k,'ON' if v else 'OFF') for k,v in opts.items()])
    if rc==0: rc,out=sh(['ninja','-C',d,'lace','lace14'])
    if rc: fail('build',what+' does not build: '+out[-500:]); return
    full={n:0 for n in NAMES}; full['LACE_USE_MMAP']=1; full.update(opts)
    for var in ((6,14) if LEVEL>1 else (rnd.choice((6,14)),)):
        lib='lace14' if var==14 else 'lace'
        rc,out=sh(['gcc','-std=gnu11','-w','-O2','-I'+d,'-I'+R+'/src','-I'+H+'/src']+(['-DLACE14'] if var==14 else [])+['-D%s=%d'%(x,full[n]) for x,n in zip(X,NAMES)]+[H+'/src/u_opt.c','-o',d+'/p%d'%var,'-Wl,--wrap=mmap','%s/lib/lib%s.a'%(d,lib),'-lpthread','-lm']+(['-lhwloc'] if full['LACE_USE_HWLOC'] else []))
        if rc: fail('build',what+': a program does not link: '+out[-500:]); continue
        rc,out=sh([d+'/p%d'%var,'3','200'],60); judge(what+' '+lib,rc,out,var)
    if (not opts and typ=='Release') or full['LACE_USE_HWLOC']: installed(d,full)
def installed(d,full):
    """what is installed can be found by another project, which can be built with it and works"""
    rc,out=sh(['cmake','--install',d])
    if rc: 
        rc,out=sh(['ninja','-C',d]); rc,out=sh(['cmake','--install',d])
        if rc: fail('install','cannot be installed: '+out[-300:]); return
    u=d+'/user'; os.makedirs(u); on=' with '+' '.join(n for n in NAMES if full[n])
    f=['-D%s=%d'%(x,full[n]) for x,n in zip(X,NAMES)]
    for how,get,tgt in (('find_package','find_package(lace REQUIRED)','lace::'),('add_subdirectory','add_subdirectory(%s lace EXCLUDE_FROM_ALL)'%R,'')):
        w=u+'/'+how; os.makedirs(w)
        open(w+'/CMakeLists.txt','w').write('cmake_minimum_required(VERSION 3.13)\nproject(u C CXX)\n%s\nforeach(l lace lace14)\nadd_executable(p-${l} %s/src/u_opt.c)\ntarget_include_directories(p-${l} PRIVATE %s/src)\ntarget_compile_options(p-${l} PRIVATE -w %s)\ntarget_link_options(p-${l} PRIVATE -Wl,--wrap=mmap)\ntarget_link_libraries(p-${l} %s${l})\nendforeach()\ntarget_compile_definitions(p-lace14 PRIVATE LACE14)\n'%(get,H,H,' '.join(f),tgt))
        rc,out=sh(['cmake','-S',w,'-B',w+'/b','-G','Ninja','-DCMAKE_BUILD_TYPE=Release','-DCMAKE_POLICY_VERSION_MINIMUM=3.5','-DCMAKE_PREFIX_PATH='+d+'/inst']+(['-D%s=%s'%(n,'ON' if full[n] else 'OFF') for n in NAMES] if how!='find_package' else []))
        if rc==0: rc,out=sh(['ninja','-C',w+'/b','p-lace','p-lace14'])
        if rc: fail('install','a project that uses %s for Lace%s does not build: %s'%(how,on,out[-500:])); continue
        for l in ('lace','lace14'):
            rc,out=sh([w+'/b/p-'+l,'3','200'],60); judge('%s, %s%s'%(how,l,on),rc,out,14 if l=='lace14' else 6)
    if not shutil.which('pkg-config'): return
    pc=[x for x in (d+'/inst/lib/pkgconfig',*glob.glob(d+'/inst/lib*/*/pkgconfig'),*glob.glob(d+'/inst/*/pkgconfig')) if os.path.isdir(x)]
    for l,cc in itertools.product(('lace','lace14'),('gcc','g++')):
        rc,out=sh(['env','PKG_CONFIG_PATH='+':'.join(pc),'pkg-config','--cflags','--libs',l])
        if rc: fail('install','pkg-config does not find %s: %s'%(l,out[-300:])); continue
        e='%s/pc-%s-%s'%(u,l,cc)
        rc,out=sh([cc,'-std=gnu11' if cc=='gcc' else '-std=gnu++11','-w','-O2','-I'+H+'/src']+(['-DLACE14'] if l=='lace14' else [])+f+['-x','c' if cc=='gcc' else 'c++',H+'/src/u_opt.c','-x','none','-o',e,'-Wl,--wrap=mmap']+out.split())
        if rc: fail('install','a program built as pkg-config says for %s%s does not compile or link: %s'%(l,on,out[-400:])); continue
        rc,out=sh([e,'3','200'],60); judge('pkg-config, %s, %s%s'%(l,cc,on),rc,out,14 if l=='lace14' else 6)
jobs=[]
combos=list(itertools.product((0,1),repeat=6)); off=rnd.randrange(1<<20)
for i,b in enumerate(combos):
    if LEVEL==1: v=(6,14)[(sum(b)+off)&1]; jobs.append((one,(b,v,(i*5+off+sum(b))%len(CFG))))
    else:
        for v in (6,14):
            for c in range(len(CFG)): jobs.append((one,(b,v,c)))
for v in (6,14):
    for e in ('-DLACE_LEAP_RANDOM=0','-DLACE_TASKSIZE=%d'%(112 if v==6 else 176)): jobs.append((one,((1,0,1,1,1,0),v,rnd.randrange(len(CFG)),e)))
for n in NAMES: jobs.append((cm,({n:0 if n=='LACE_USE_MMAP' else 1},rnd.choice(('Release','Debug')))))
jobs.append((cm,({},'Release'))); jobs.append((cm,({n:1 for n in NAMES},'Debug')))
it=iter(jobs)
def work():
    while True:
        with lock: j=next(it,None)
        if j is None or len(fails)>5: return
        j[0](*j[1])
ts=[threading.Thread(target=work) for _ in range(int(os.environ.get('OPT_JOBS','4')))]
for t in ts: t.start()
for t in ts: t.join()
if len(answers)>1 :
    l=sorted(answers.items(),key=lambda x:-len(x[1]))
    for a,w in l[1:]: fail('answers','%s: answers %s, all others (%d) %s'%(w[0],a,len(l[0][1]),l[0][0]))
for f in dict.fromkeys(fails): print(f)
for s in samples: print('SAMPLE '+s)
print('CASES %d'%cases[0]); sys.exit(1 if fails else 0)
