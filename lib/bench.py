#!/usr/bin/env python3
"""bench.py DIR SEED LEVEL: runs the bundled programs with several numbers of workers and compares their answers"""
import sys, os, subprocess, random, re, tempfile, shutil, threading
D,SEED,LEVEL=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
R=random.Random(SEED); BIN=D+'/cm/benchmarks/'
tmp=tempfile.mkdtemp(prefix='bench',dir=D)
cases=0; fails=[]; lock=threading.Lock(); samples=[]
def fail(kind,msg):
    with lock: fails.append('SIMFAIL kind=%s iter_seed=0 :: %s'%(kind,msg.replace('\n',' ')[:700]))
def run(prog,*a,cwd=None):
    global cases
    argv=[BIN+prog]+[str(x) for x in a]
    try: p=subprocess.run(argv,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=120,cwd=cwd or tmp)
    except subprocess.TimeoutExpired: fail('hang','%s %s does not end'%(prog,' '.join(map(str,a)))); return None
    with lock: cases+=1
    out=p.stdout.decode('utf-8','replace')
    if p.returncode: fail('exit','%s %s exits with %s: %s'%(prog,' '.join(map(str,a)),p.returncode,out[-300:])); return None
    return out
def expect(out,rx,val,what):
    if out is None: return
    m=re.search(rx,out,re.M)
    if not m: fail('no-answer','%s prints no answer: %s'%(what,out[:200]))
    elif str(m.group(1))!=str(val): fail('wrong-answer','%s: %s instead of %s'%(what,m.group(1),val))
    elif len(samples)<3: samples.append('%s: %s'%(what,val))
def fib(n):
    a,b=0,1
    for _ in range(n): a,b=b,a+b
    return a
Q=[1,1,0,0,2,10,4,40,92,352,724,2680]
def pi_hits(n,seed):
    k=0
    for _ in range(n):
        seed=(seed*1103515245+12345)&0xffffffff; x=seed%2147483647/2147483647.0
        seed=(seed*1103515245+12345)&0xffffffff; y=seed%2147483647/2147483647.0
        if x*x+y*y<1.0: k+=1
    return k
WS=[1,2,3,4,8]
jobs=[]
for w in WS:
    for n in sorted(R.sample(range(0,24),3*LEVEL if LEVEL<8 else 24))+[27]:
        jobs.append(lambda w=w,n=n: [expect(run(p,'-w',w,n),r'^fib\(%d\) = (-?\d+)'%n,fib(n),'%s -w %d %d'%(p,w,n)) for p in('fib-lace','fib-lace-cpp')])
    for n in R.sample(range(1,10),3)+[10]:
        jobs.append(lambda w=w,n=n: expect(run('queens-lace','-w',w,n),r'^Result: Q\(%d\) = (\d+)'%n,Q[n],'queens-lace -w %d %d'%(w,n)))
    for q in (40,100,1000): jobs.append(lambda w=w,q=q: expect(run('fib-lace','-w',w,'-q',q,22),r'^fib\(22\) = (-?\d+)',fib(22),'fib-lace -w %d -q %d 22'%(w,q)))
    for n in (16,64,R.choice([32,128,256])):
        def f(w=w,n=n):
            o=run('strassen-lace','-w',w,'-c',n)
            if o is not None and ('WRONG' in o or 'Time:' not in o): fail('wrong-answer','strassen-lace -w %d -c %d: %s'%(w,n,o[:200]))
        jobs.append(f)
    jobs.append(lambda w=w: run('dfs-lace','-w',w,R.randint(0,6),R.randint(1,4),10,R.randint(1,4)))
    jobs.append(lambda w=w: run('matmul-lace','-w',w,R.randint(1,200)))
    n=R.choice([1,7,1000,60000,200000]); 
    def pi(w=w,n=n):
        o=run('pi-lace','-w',w,n)
        if o is None: return
        if 'With %d workers'%w not in o: fail('workers','pi-lace -w %d does not run with %d workers: %s'%(w,w,o[:100]))
        m=re.search(r'^pi\(%d\) = ([\d.]+)'%n,o,re.M)
        if not m: fail('no-answer','pi-lace -w %d %d prints no answer: %s'%(w,n,o[:200])); return
        v=float(m.group(1)); k=v*n/4
        if abs(k-round(k))>1e-3 or not 0<=round(k)<=n: fail('wrong-answer','pi-lace -w %d %d: %s is not four times a fraction of hits'%(w,n,m.group(1)))
        if w==1 and round(k)!=pi_hits(n,1): fail('wrong-answer','pi-lace -w 1 %d: %d hits instead of %d'%(n,round(k),pi_hits(n,1)))
        if n>=60000 and abs(v-3.14159265)>0.1: fail('wrong-answer','pi-lace -w %d %d: %s'%(w,n,v))
    jobs.append(pi)
    def sort(w=w):
        d=tempfile.mkdtemp(dir=tmp); run('cilksort-lace','-w',w,R.choice([0,1,100,5000,30000]),cwd=d); run('cilksort-lace','-w',w,2500,cwd=d); run('cilksort-lace','-w',w,2500,cwd=d)
    jobs.append(sort)
T=['-t 1 -a 3 -d 5 -b 4 -r %d'%R.randint(1,99),'-t 1 -a 0 -d 8 -b 4 -r %d'%R.randint(1,99),'-t 1 -a 2 -d 7 -b 3 -r %d'%R.randint(1,99),'-t 0 -b %d -q 0.11 -m 8 -r %d'%(R.randint(10,300),R.randint(1,99)),'-t 2 -a 0 -d 8 -b 4 -r 1 -q 0.2 -m 4 -r %d'%R.randint(1,99),'-t 0 -b 2000 -q 0.05 -m 8 -r 42']
def tree(t):
    rx=r'^Tree size = (\d+, tree depth = \d+, num leaves = \d+)'
    o=run('uts-seq',*t.split())
    m=re.search(rx,o or '',re.M)
    if not m: fail('no-answer','uts-seq %s'%t); return
    if int(m.group(1).split(',')[0])>400000: return
    for w in WS:
        expect(run('uts-lace','-w',w,*t.split()),rx,m.group(1),'uts-lace -w %d %s'%(w,t))
        if w in(2,4): expect(run('uts2-lace','-w',w,*t.split()),rx,m.group(1),'uts2-lace -w %d %s'%(w,t))
for t in T*(1 if LEVEL<8 else 3): jobs.append(lambda t=t: tree(t))
# the sequential ones
for n in (0,1,2,3,10,20): jobs.append(lambda n=n: expect(run('fib-seq',n),r'^(-?\d+)$',fib(n),'fib-seq %d'%n))
jobs.append(lambda: expect(run('fib-seq2',20),r'^(-?\d+)$',fib(20),'fib-seq2 20'))
for n in (1,2,5,8): jobs.append(lambda n=n: expect(run('queens-seq',n),r'Q\(%d\) = (\d+)'%n,Q[n],'queens-seq %d'%n))
def ks():
    n=R.randint(1,15); items=[(R.randint(1,50),R.randint(1,40)) for _ in range(n)]; c=R.randint(1,200)
    best=[0]*(c+1)
    for v,wt in items:
        for j in range(c,wt-1,-1): best[j]=max(best[j],best[j-wt]+v)
    f=tmp+'/ks'; open(f,'w').write('%d %d\n'%(n,c)+''.join('%d %d\n'%i for i in items))
    expect(run('knapsack-lace','-w',2,f),r'^Best value is (\d+)',best[c],'knapsack-lace with a file of %d items'%n)
jobs.append(ks)
for b,r in (('cilksort',24),('matmul',80),('strassen',12),('knapsack',60),('queens',14),('dfs',40)):
    def h(b=b,r=r):
        global cases
        try: p=subprocess.run([D+'/h-'+b,str(SEED),str(r*LEVEL)],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=600)
        except subprocess.TimeoutExpired: fail('hang','the tasks of %s do not end'%b); return
        out=p.stdout.decode('utf-8','replace'); m=re.search(r'^CASES (\d+)',out,re.M)
        if p.returncode or not m:
            s=re.search(r'SIMFAIL kind=(\S+) iter_seed=0 :: (.*)',out)
            if s: fail(s.group(1),s.group(2))
            else: fail('crash','tasks of %s: exit status %s %s'%(b,p.returncode,out[-500:]))
        else:
            with lock: cases+=int(m.group(1))
    jobs.insert(0,h)
it=iter(jobs)
def worker():
    while True:
        with lock: j=next(it,None)
        if j is None: return
        j()
ts=[threading.Thread(target=worker) for _ in range(3)]
for t in ts: t.start()
for t in ts: t.join()
shutil.rmtree(tmp,ignore_errors=True)
for s in samples: print('SAMPLE',s)
for f in fails: print(f)
print('CASES',cases); sys.exit(1 if fails else 0)
