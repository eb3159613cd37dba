"""Everything the checks run is built here, from the sources of the repository as they are now."""
import os, shutil, subprocess, threading
CNT='LACE_PIE_TIMES=1 LACE_COUNT_TASKS=1 LACE_COUNT_STEALS=1 LACE_COUNT_SPLITS=1'
ASAN='-O1 -g -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=function -fno-sanitize-recover=all'
class Builds:
    def __init__(self, repo, here, out):
        self.repo,self.here,self.out=repo,here,out; self.done={}; self.failed={}; self.lock=threading.Lock()
    def exe(self,name):
        kind=name.split('.')[0]
        return os.path.join(self.out,name,{'sim':'sim','nat':'native'}.get(kind,'prog'))
    def recipe(self,name):
        """sim.<6|14>[.<config>]   nat.<6|14>.<gcc|clang|asan>[.<config>]   <script>.<args...>"""
        f=name.split('.'); o=os.path.join(self.out,name); L=os.path.join(self.here,'lib'); repo=self.repo
        for i in (1,2):   # variant gK: the headers as the generator of the repository writes them now, for up to K parameters
            if i<len(f) and f[i][:1]=='g' and f[i][1:].isdigit(): repo=self.generated(int(f[i][1:])); f[i]=f[i][1:]
        if f[0]=='sim':
            cfg=self.config(f[2] if len(f)>2 else 'mmap')
            return ['bash',L+'/build_sim.sh',repo,o,f[1]],{'LACECFG':cfg}
        if f[0]=='nat':
            cc,fl={'gcc':('gcc','-O3 -DNDEBUG -march=native'),'gccd':('gcc','-O0 -g'),'clang':('clang','-O2'),'asan':('clang',ASAN)}[f[2]]
            c=f[3] if len(f)>3 else ('mmap' if f[2]!='asan' else 'none')
            libs='-lhwloc' if 'hwloc' in c or c=='everything' else ''
            return ['bash',L+'/build_native.sh',repo,o,f[1],cc,fl,self.config(c),libs],{}
        if f[0]=='unit':   # unit.<source>.<6|14>.<gcc|asan|g++|clang++|asan++>[.<config>]
            src,var,cc=f[1],f[2],f[3]; c=f[4] if len(f)>4 else 'mmap'
            return ['bash',L+'/build_unit.sh',repo,o,src,var,cc,self.config(c)],{}
        if f[0]=='gad':    # gad.<source>.<6|14>[.<config>]: a program on the simulated engine
            return ['bash',L+'/build_gadget.sh',repo,o,f[1],f[2]],{'LACECFG':self.config(f[3] if len(f)>3 else 'mmap')}
        if f[0]=='bench':  # bench.<Release|Debug>.<gcc|clang|asan>: the bundled programs
            return ['bash',L+'/build_bench.sh',self.repo,o,f[1],f[2]],{}
        if f[0]=='options':
            return ['sh','-c','printf \'#!/bin/sh\\nexec python3 "%s/options.py" "%s" "%s" "$@"\\n\' "$1" "$2" "$3" >"$3/prog"; chmod +x "$3/prog"','sh',L,self.repo,o],{}
        raise KeyError(name)
    def generated(self,k):
        d=os.path.join(self.out,'generated-%d'%k); src=d+'/src'
        with self.lock:
            if not os.path.isdir(src):
                shutil.copytree(self.repo+'/src',src)
                if k in (6,14):
                    for h in ('lace.h','lace14.h','lace14.c'): os.unlink(src+'/'+h)
                    r=subprocess.run(['bash','gen.sh'],cwd=src,stderr=subprocess.PIPE)
                else:
                    with open(src+'/lace.h','wb') as o: r=subprocess.run(['bash','lace.sh',str(k)],cwd=src,stdout=o,stderr=subprocess.PIPE)
        return d
    @staticmethod
    def config(c):
        t=[]
        for x in c.split('+'):
            t+={'none':[],'mmap':['LACE_USE_MMAP=1'],'count':CNT.split(),'tasks':['LACE_COUNT_TASKS=1'],'steals':['LACE_COUNT_STEALS=1'],'splits':['LACE_COUNT_SPLITS=1'],'pie':['LACE_PIE_TIMES=1'],'hwloc':['LACE_USE_HWLOC=1'],'everything':CNT.split()+['LACE_USE_MMAP=1','LACE_USE_HWLOC=1']}[x]
        return ' '.join(t)
    def build(self,name):
        argv,env=self.recipe(name); e=dict(os.environ); e.update(env); os.makedirs(os.path.join(self.out,name),exist_ok=True)
        try: p=subprocess.run(argv,env=e,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=300); ok=p.returncode==0 and os.path.exists(self.exe(name)); out=p.stdout.decode('utf-8','replace')
        except subprocess.TimeoutExpired: ok=False; out='timeout'
        with self.lock:
            if ok: self.done[name]=1
            else: self.failed[name]=out
    def build_all(self,names):
        names=list(dict.fromkeys(names)); it=iter(names); lk=threading.Lock()
        def w():
            while True:
                with lk: n=next(it,None)
                if n is None: return
                self.build(n)
        ts=[threading.Thread(target=w) for _ in range(6)]
        for t in ts: t.start()
        for t in ts: t.join()
    def base_ok(self):
        """do the sources compile at all, in the default configuration?"""
        for v in ('lace','lace14'):
            o=os.path.join(self.out,'base-'+v); os.makedirs(o,exist_ok=True)
            subprocess.run(['python3',os.path.join(self.here,'lib','mkconfig.py'),self.repo+'/src/lace_config.h.in',o+'/lace_config.h','LACE_USE_MMAP=1'],check=True)
            if subprocess.run(['gcc','-std=gnu11','-w','-I'+o,'-I'+self.repo+'/src','-c',self.repo+'/src/%s.c'%v,'-o',o+'/x.o'],stderr=subprocess.DEVNULL).returncode: return False
        return True
