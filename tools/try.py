import signal,faulthandler,traceback,sys, importlib, collections, time
sys.path.insert(0,'/verif'); import os; sys.path.insert(0,os.environ.get('AALPY_REPO','/repo'))
from dst.core import run_one
m = importlib.import_module('dst.props.'+sys.argv[1])
N=int(sys.argv[2]); s0=int(sys.argv[3]) if len(sys.argv)>3 else 0
sc = getattr(m, sys.argv[4] if len(sys.argv)>4 else 'scenario')
c=collections.Counter(); ex={}; mx=0
from dst.core import HangTimeout, RunResult
def h(*a): raise HangTimeout()
signal.signal(signal.SIGALRM,h)
t=time.time()
for i in range(s0,s0+N):
    t1=time.time()
    signal.alarm(10)
    try:
        r=run_one(sc, seed=i)
    except HangTimeout as e:
        r=RunResult(); r.status='hang'; r.cls=''.join(traceback.format_tb(e.__traceback__)[-4:]); r.detail=''; r.choices=[]; r.features={}
        f=None
    signal.alarm(0)
    k=(r.status, r.cls)
    c[k]+=1
    f=tuple(sorted((a,str(b)) for a,b in r.features.items()))
    ex.setdefault(k,[]).append((i,(r.detail or '')[-1500 if r.status=='harness' else -300:],len(r.choices),f))
    if time.time()-t1>3: print('slow',i,time.time()-t1)
print('time',time.time()-t)
for k,v in c.most_common():
    print(k,v)
    if k[0]!='ok':
        for e in sorted(ex[k],key=lambda e:e[2])[:3]: print('    ',e[0],e[2],e[1],'\n        ',' '.join(f'{a}={b}' for a,b in e[3]))
        if v>5:
            for dim in sorted({d for e in ex[k] for d,_ in e[3]}):
                print('       dim',dim,collections.Counter(dict(e[3]).get(dim) for e in ex[k]).most_common(8))
