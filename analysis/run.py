import sys, time, os
sys.setrecursionlimit(100000)
import terms as tm
from terms import *
from interp import *
import models, prove

def load(path='/tmp/q.json'):
    return Prog(path)

def root(P, path=None, name=None, self=None, trait=None):
    for r in P.roots:
        if path and r['path']!=path: continue
        if name and r['name']!=name: continue
        if self and r['self']!=self: continue
        if trait and r.get('trait')!=trait: continue
        return r

def inp(P,b,i):
    ty=b.locals[i+1]
    t=app('inp',S('a%d'%i))
    prove.INTYPES[t]=ty
    y=P.types[prove.deref(ty)]
    if y['k'] in('uint','char'): UNSIGNED.add(t)
    return t

if __name__=='__main__':
    P=load()
    r=root(P,path=sys.argv[1])
    I_=Interp(P, models.M)
    st=St({},TRUE,{})
    b=P.body(r['key'])
    args=[inp(P,b,i) for i in range(b.argc)]
    t=time.time()
    v=I_.exec_body(r['key'],args,st)
    print('time',time.time()-t,'calls',I_.calls)
    print('unknown',I_.unknown)
    if v is not None:
        s=show(v); print(len(s)); print(s[:int(sys.argv[2]) if len(sys.argv)>2 else 3000])
    bad=[o for o in I_.obls if not o.ok]
    print(len(I_.obls),'obls',len(bad),'open')
    W=int(sys.argv[3]) if len(sys.argv)>3 else 100
    seen=set()
    for o in bad:
        x=(o.kind,tuple(o.sp or ()),show(o.cond,9)[:W])
        if x in seen: continue
        seen.add(x)
        if len(seen)<60: print(o.kind,(o.sp[0].split('/')[-2:],o.sp[1]),o.stack[-1].split('#')[0].split('::')[-1],x[2])
