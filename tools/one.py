import signal,sys, importlib,traceback
sys.path.insert(0,'/verif'); import os; sys.path.insert(0,os.environ.get('AALPY_REPO','/repo'))
from dst.core import *
m = importlib.import_module('dst.props.'+sys.argv[1])
sc=getattr(m, sys.argv[3] if len(sys.argv)>3 else 'scenario')
def h(*a): raise HangTimeout()
signal.signal(signal.SIGALRM,h)
signal.alarm(8)
import dst.core as c
keep=[]
o=Sim.__init__
def init(self,*a,**k):
    o(self,*a,**k); keep.append(self)
Sim.__init__=init
oe=SutError.__init__
def ie(self,exc):
    oe(self,exc); keep.append(''.join(traceback.format_exception(exc)))
SutError.__init__=ie
try:
    r=run_one(sc,seed=int(sys.argv[2]))
    print(r.status,r.cls,r.detail)
except HangTimeout: print('HANG')
s=keep[0]
for t in s.trace[:6]: print(t[:2000])
print(len(s.trace)); print('\n'.join(x[:150] for x in s.trace[-30:])); print(s.features)
for k in keep[1:]: print(k)
