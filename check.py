#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   decide one property on /repo's working tree
   check.py --replay FILE             re-run what a VIOLATION line points to
   check.py --setup                   verify that the tools are there
Environment: VERIF_SEED (default 1), VERIF_REPO (default /repo)."""
import sys, os, json, time, subprocess, tempfile, shutil, re, signal, threading, queue, hashlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
REPO = os.environ.get('VERIF_REPO', '/repo')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NPROC = 8
import builds, table

class HarnessError(Exception): pass

# ---------------------------------------------------------------------------------------- running
class Runner:
    """runs commands on NPROC slots; every process group is killed when the run ends"""
    def __init__(self): self.procs=set(); self.lock=threading.Lock(); self.stop=False
    def run(self, argv, timeout, env=None, cwd=None):
        e=dict(os.environ); e.update(SANENV); e.update(env or {})
        with self.lock:
            if self.stop: return (-1,'',True)
            p=subprocess.Popen(argv,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,stdin=subprocess.DEVNULL,env=e,cwd=cwd,start_new_session=True)
            self.procs.add(p)
        to=False
        try: out,_=p.communicate(timeout=timeout)
        except subprocess.TimeoutExpired:
            to=True; self._kill(p); out,_=p.communicate()
        with self.lock: self.procs.discard(p)
        self._kill(p)
        return p.returncode, out.decode('utf-8','replace'), to
    def _kill(self,p):
        try: os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError,PermissionError): pass
    def killall(self):
        with self.lock:
            self.stop=True
            for p in list(self.procs): self._kill(p)
SANENV={'ASAN_OPTIONS':'abort_on_error=0:detect_leaks=0:halt_on_error=1:exitcode=99:detect_stack_use_after_return=0',
        'UBSAN_OPTIONS':'print_stacktrace=1:halt_on_error=1:exitcode=99','MSAN_OPTIONS':'exitcode=99','LC_ALL':'C'}

SAN=re.compile(r'(ERROR: AddressSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*|ERROR: LeakSanitizer[^\n]*|WARNING: (?:Thread|Memory)Sanitizer[^\n]*)')
def classify(rc,out,to):
    """-> (status, kind, message); status ok|fail|inconclusive|timeout|error"""
    m=re.search(r'^SIMFAIL kind=(\S+) .*$',out,re.M)
    if m: return 'fail',m.group(1),m.group(0)
    m=SAN.search(out)
    if m and rc!=0: return 'fail','sanitizer',m.group(0).strip()
    if to: return 'timeout','hang','no result before the timeout'
    m=re.search(r'^SIMINCONCLUSIVE (.*)$',out,re.M)
    if m: return 'inconclusive','watchdog' if 'watchdog' in m.group(1) else 'inconclusive',m.group(1)
    if rc in (-signal.SIGSEGV,-signal.SIGABRT,-signal.SIGBUS,-signal.SIGFPE,-signal.SIGILL,-signal.SIGTRAP): return 'fail','crash','killed by signal %d: %s'%(-rc,out[-300:].replace('\n',' '))
    if rc==0: return 'ok','',''
    return 'error','exit','exit status %s: %s'%(rc,out[-400:].replace('\n',' '))

# ---------------------------------------------------------------------------------------- the check
class Check:
    def __init__(self, prop, tier):
        self.prop,self.tier=prop,tier; self.t0=time.time()
        self.run=Runner(); self.violations=[]; self.known=[]; self.lock=threading.Lock()
        self.hashes=set(); self.evals=0; self.nontrivial=0; self.steps=0; self.stats={}; self.samples=[]; self.parts={}; self.inconc=[]; self.keytot={}
        self.findings=load_findings(prop)
        self.dir=tempfile.mkdtemp(prefix='lacecheck-%s-'%prop,dir=os.environ.get('VERIF_SCRATCH') or ('/dev/shm' if False else '/tmp'))
        self.b=builds.Builds(REPO,HERE,self.dir)
    def fail(self, job, kind, msg, argv, extra=None):
        key='%s %s %s'%(job['label'],kind,msg)
        for f in self.findings:
            if re.search(f['match'],key):
                with self.lock:
                    if f['text'] not in [k for k in self.known]: self.known.append(f['text'])
                return
        with self.lock:
            self.violations.append(dict(label=job['label'],kind=kind,message=msg,build=job.get('build'),args=argv,extra=extra))
    # --- ranges of generated executions
    def exec_lines(self, job, out):
        key=job.get('key'); n=0
        hs=set(); nt=0; tot=0; smp=None
        for l in out.split('\n'):
            if l.startswith('E '):
                f=l.split(); n+=1; self_steps=int(f[2])
                v=1 if key is None else sum(int(f[3+table.COLS.index(k)]) for k in key)
                tot+=v; 
                if v>0:
                    hs.add(f[1] if job['engine']=='sim' else (job['label']+f[1]))
                    if smp is None or v>smp[0]: smp=(v,l)
        with self.lock:
            if n: self.evals+=n; self.hashes|=hs; p=self.parts.setdefault(job['label'],dict(executions=0,nontrivial=0,key_events=0)); p['executions']+=n; p['nontrivial']+=len(hs); p['key_events']+=tot
            if n and smp and len(self.samples)<12 and not any(s.get('part')==job['label'] for s in self.samples):
                f=smp[1].split(); self.samples.append(dict(part=job['label'],schedule_hash=f[1],steps=int(f[2]),**{c:int(f[3+i]) for i,c in enumerate(table.COLS)}))
            m=re.search(r'^STATS (\{.*\})\s*$',out,re.M)
            if m:
                st=json.loads(m.group(1)); d=self.stats.setdefault(job['engine'],{})
                for k,v in st.items():
                    d[k]=max(d.get(k,0),v) if k.startswith('max') else d.get(k,0)+v
        return n
    def do_range(self, job, first, count):
        """one chunk of a range of executions, in one process"""
        first0=first; end=first+count; tries=0
        while first<end and not self.violations:
            argv=[job['exe'],job['profile'],str(job['base']),str(first),str(end-first)]+job.get('extra_args',[])
            to=job['timeout']
            pre=job.get('prefix',[])
            rc,out,t=self.run.run(pre+argv,to,env=job.get('env'))
            if self.run.stop and not t and rc<0: return
            n=self.exec_lines(job,out)
            st,kind,msg=classify(rc,out,t)
            if st=='ok': return
            m=re.search(r'iter_seed=(\d+)',msg) if st in('fail','inconclusive') else None
            it=int(m.group(1)) if m else first+n
            rargs=argv[1:]
            if st=='fail':
                if job['engine']=='sim':
                    one=[job['profile'],str(job['base']),str(it),'1']+job.get('extra_args',[])
                    rc2,out2,t2=self.run.run(pre+[job['exe']]+one,to,env=job.get('env'))
                    if classify(rc2,out2,t2)[0]=='fail': rargs=one; msg=classify(rc2,out2,t2)[2]; kind=classify(rc2,out2,t2)[1]
                elif kind in table.TIMING_KINDS:
                    # decided by a clock: report only what repeats
                    if not all(classify(*self.run.run(pre+[job['exe'],job['profile'],str(job['base']),str(it),'1']+job.get('extra_args',[]),to,env=job.get('env')))[0] in('fail','timeout') for _ in range(2)):
                        self.note('%s: %s (not repeated)'%(job['label'],msg)); first=it+1; continue
                self.fail(job,kind,msg,rargs); first=it+1
                continue
            if st in('timeout','inconclusive') and kind in('hang','watchdog'):
                one=[job['profile'],str(job['base']),str(it),'1']+job.get('extra_args',[])
                rc2,out2,t2=self.run.run(pre+[job['exe']]+one,max(60,to/2),env=job.get('env'))
                s2=classify(rc2,out2,t2)
                if s2[0]=='fail': self.fail(job,s2[1],s2[2],one)
                elif s2[1] in('hang','watchdog'): self.fail(job,'hang','execution %d of %s does not end (twice)'%(it,job['label']),one)
                elif job['engine']=='native' and tries<2:
                    # a hang that depends on timing: it counts when the chunk hangs again
                    tries+=1
                    rc2,out2,t2=self.run.run(pre+[job['exe'],job['profile'],str(job['base']),str(first0),str(end-first0)]+job.get('extra_args',[]),to*1.5,env=job.get('env'))
                    s2=classify(rc2,out2,t2)
                    if s2[0]=='timeout': self.fail(job,'hang','executions %d.. of %s do not end (twice)'%(first0,job['label']),rargs)
                    elif s2[0]=='fail': self.fail(job,s2[1],s2[2],rargs)
                    else: self.note('%s: one hang, not repeated'%job['label'])
                else: self.note('%s: %s (not repeated)'%(job['label'],msg))
                first=it+1; continue
            if st=='inconclusive': self.note('%s: %s'%(job['label'],msg)); first=it+1; continue
            # st error
            tries+=1
            if tries>1:
                if job.get('exit_is_violation'): self.fail(job,kind,msg,rargs); return
                raise HarnessError('%s: %s'%(job['label'],msg))
    def note(self,s):
        with self.lock: self.inconc.append(s)
    def prog_done(self, job, out):
        self.exec_lines(job,out)
        with self.lock:
            p=self.parts.setdefault(job['label'],dict(executions=0)); 
            m=re.search(r'^CASES (\d+)(?: (\d+))?',out,re.M)
            if m:
                c=int(m.group(1)); d=int(m.group(2) or c); p['executions']+=c; self.evals+=c; self.nontrivial+=d; p['nontrivial']=p.get('nontrivial',0)+d
            for s in re.findall(r'^SAMPLE (.*)$',out,re.M)[:2]:
                if len(self.samples)<24: self.samples.append(dict(part=job['label'],case=s[:300]))
    # --- one program
    def do_prog(self, job):
        argv=job['argv']; tries=0
        while True:
            rc,out,t=self.run.run(argv,job['timeout'],env=job.get('env'),cwd=job.get('cwd'))
            if self.run.stop and not t and rc<0: return
            st,kind,msg=classify(rc,out,t)
            if job.get('judge'):
                r=job['judge'](rc,out,t)
                if r is None: st='ok'
                else: st,kind,msg=r
            lines=re.findall(r'^(SIMFAIL kind=(\S+) .*)$',out,re.M)
            if st=='fail' and len(lines)>0 and not any(k in table.TIMING_KINDS for _,k in lines):
                for m,k in lines: self.fail(job,k,m,job.get('rargs'))
                if self.violations: return
                st='ok'     # known findings only
            if st=='ok': self.prog_done(job,out); return
            if st=='fail' and kind not in table.TIMING_KINDS: self.fail(job,kind,msg,job.get('rargs'),extra=out[-1500:]); return
            tries+=1
            if tries>=job.get('tries',2):
                if st=='timeout' or st=='fail': self.fail(job,kind,msg,job.get('rargs')); return
                if st=='error' and job.get('exit_is_violation'): self.fail(job,kind,msg,job.get('rargs'),extra=out[-1500:]); return
                if st=='inconclusive': self.note('%s: %s'%(job['label'],msg)); return
                raise HarnessError('%s: %s'%(job['label'],msg))
    def go(self):
        spec=table.PROPS[self.prop]
        jobs=table.jobs(self.prop,self.tier,SEED,self.b,HERE,REPO)
        self.b.build_all([j['build'] for j in jobs if j.get('build')]); self.t_build=round(time.time()-self.t0,1)
        broken=[]
        for bad in self.b.failed:
            bj=[j for j in jobs if j.get('build')==bad]
            if any(j.get('build_is_violation') for j in bj) and self.b.base_ok():
                self.fail(bj[0],'build','does not compile in this configuration: '+self.b.failed[bad][-600:].replace('\n',' '),None)
                jobs=[j for j in jobs if j.get('build')!=bad]
            elif any(j.get('build_may_fail') for j in bj) and self.b.base_ok():
                if any(j.get('build_may_fail') and j['build'] in self.b.done for j in jobs):   # others of the kind do build
                    self.fail(bj[0],'build','does not compile, although others do: '+self.b.failed[bad][-600:].replace('\n',' '),None)
                    jobs=[j for j in jobs if j.get('build')!=bad]; continue
                self.note('%s does not build: %s'%(bad,self.b.failed[bad][-300:])); jobs=[j for j in jobs if j.get('build')!=bad]
            else:   # the other parts may still find a violation
                broken.append('build %s failed: %s'%(bad,self.b.failed[bad][-1500:])); jobs=[j for j in jobs if j.get('build')!=bad]
        work=[]
        for j in jobs:
            if j.get('build'): j['exe']=self.b.exe(j['build'])
            if j['type']=='range':
                n=j['count']; ch=min(j['chunk'],max(1,-(-n//NPROC)))
                k=0; lst=[]
                while k<n: lst.append((j,k,min(ch,n-k))); k+=ch
                work.append(lst)
            else:
                if 'argv' not in j: j['argv']=[j['exe']]+j.get('args',[])
                work.append([(j,None,None)])
        # interleave the parts
        q=[]; 
        while any(work):
            for w in work:
                if w: q.append(w.pop(0))
        q.sort(key=lambda x: 0 if x[1] is None else 1)
        it=iter(q); lk=threading.Lock(); errs=[]; cv=threading.Condition(); free=[NPROC]   # slots; a program with many threads takes several
        def worker():
            while True:
                with lk: x=next(it,None)
                if x is None or self.violations: return
                try:
                    wt=x[0].get('weight',4 if x[0]['engine']=='unit' else 1)
                    with cv:
                        while free[0]<wt: cv.wait()
                        free[0]-=wt
                    w0=time.time()
                    if x[1] is None: self.do_prog(x[0])
                    else: self.do_range(*x)
                    with self.lock:
                        p=self.parts.setdefault(x[0]['label'],dict(executions=0)); p['cpu_slot_s']=round(p.get('cpu_slot_s',0)+time.time()-w0,1)
                    with cv: free[0]+=wt; cv.notify_all()
                except Exception as e:
                    with cv: free[0]+=wt; cv.notify_all()
                    import traceback; errs.append(''.join(traceback.format_exception(e)) if not isinstance(e,HarnessError) else str(e))
                    if len(errs)>40: return
        ts=[threading.Thread(target=worker) for _ in range(NPROC)]
        for t in ts: t.start()
        deadline=self.t0+(780 if self.tier=='quick' else 36000)
        while any(t.is_alive() for t in ts) and not self.violations and time.time()<deadline: time.sleep(.03)
        late=any(t.is_alive() for t in ts) and not self.violations
        if late: self.note('time limit reached; the remaining executions were not made')
        self.run.killall()
        for t in ts: t.join(20)
        if (broken or errs) and not self.violations: raise HarnessError((broken+errs)[0])
        self.nontrivial+=len(self.hashes)
        if not self.violations:
            if self.nontrivial==0 or self.evals==0: raise HarnessError('nothing was observed')
            for lab,p in self.parts.items():
                if p.get('executions',0)>=200 and p.get('key_events',1)==0: raise HarnessError('%s observed no relevant event'%lab)
            if len(self.inconc)>max(10,self.evals//50): raise HarnessError('too many inconclusive executions: '+'; '.join(self.inconc[:3]))
    def evidence(self):
        spec=table.PROPS[self.prop]
        cov=dict(evaluations=self.evals,distinct_nontrivial=self.nontrivial,rule=spec['rule'],samples=self.samples or ['none'],
                 parts=self.parts,observed=self.stats,inconclusive=self.inconc[:20],n_inconclusive=len(self.inconc),builds=sorted(self.b.done),build_s=self.t_build)
        ev=dict(property=self.prop,tier=self.tier,seed=SEED,level='exploration',coverage=cov,assumptions=spec.get('assumptions',[])+table.ASSUMPTIONS,
                violations=len(self.violations),known_findings=self.known,wall_s=round(time.time()-self.t0,1))
        os.makedirs(os.path.join(HERE,'evidence'),exist_ok=True)
        with open(os.path.join(HERE,'evidence',self.prop+'.json'),'w') as f: json.dump(ev,f,indent=1)
    def cleanup(self): shutil.rmtree(self.dir,ignore_errors=True)

def load_findings(prop):
    """lines:  finding: property=<id> match=/<regex>/ <text>      (fixed: lines suppress nothing)"""
    r=[]
    p=os.path.join(HERE,'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m=re.match(r'finding:\s+property=(\S+)\s+match=/(.*?)/\s+(.*)',l)
            if m and m.group(1)==prop: r.append(dict(match=m.group(2),text=m.group(3).strip()))
    return r

def main():
    a=sys.argv[1:]
    if a[:1]==['--setup']:
        for t in ('clang','gcc','g++','cmake','ninja','objcopy'):
            if not shutil.which(t): print('missing',t); sys.exit(2)
        print('ok'); return 0
    if a[:1]==['--replay']: return replay(a[1])
    prop=a[0]; tier=a[1] if len(a)>1 else os.environ.get('VERIF_TIER','quick')
    c=Check(prop,tier)
    try:
        c.go()
        c.evidence()
        for k in c.known: print('KNOWN-FINDING: property=%s %s'%(prop,k))
        if c.violations:
            v=c.violations[0]
            os.makedirs(os.path.join(HERE,'replays'),exist_ok=True)
            path=os.path.join(HERE,'replays','%s-%s.json'%(prop,hashlib.sha1(json.dumps(v,sort_keys=True,default=str).encode()).hexdigest()[:10]))
            json.dump(dict(property=prop,tier=tier,seed=SEED,violations=c.violations[:5]),open(path,'w'),indent=1,default=str)
            for v in c.violations[:5]: print('%s: %s: %s'%(v['label'],v['kind'],v['message'][:400]))
            print('VIOLATION property=%s replay=%s'%(prop,path))
            return 1
        print('%s %s: held on %d executions (%d distinct non-trivial), %.0f s'%(prop,tier,c.evals,c.nontrivial,time.time()-c.t0))
        return 0
    except HarnessError as e:
        print('ERROR: the check could not decide: %s'%e); c.run.killall(); return 2
    finally: c.cleanup()

def replay(path):
    d=json.load(open(path)); prop=d['property']; ok=True
    c=Check(prop,'quick')
    try:
        for v in d['violations']:
            if not v.get('build') or v.get('args') is None:
                print('%s: %s: %s'%(v['label'],v['kind'],v['message'])); print('(re-run: VERIF_SEED=%d python3 check.py %s %s)'%(d['seed'],prop,d['tier'])); continue
            c.b.build_all([v['build']])
            rc,out,to=c.run.run([c.b.exe(v['build'])]+v['args'],300)
            print('\n'.join(l for l in out.split('\n') if not l.startswith('E '))); s=classify(rc,out,to)
            print('replay of %s: %s %s'%(v['label'],s[0],s[1]))
            if s[0]!='ok': ok=False
        return 0 if ok else 1
    finally: c.cleanup()
if __name__=='__main__': sys.exit(main())
