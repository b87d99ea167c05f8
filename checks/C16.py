import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_cont as G
MOD='ContainersTrace'
EL=['int','long','char','double','short','E3','ref','str']
def chunks(q,n): return [q[i:i+n] for i in range(0,len(q),n)]
def exhaustive(c):
    n=3 if c.quick() else 4; cl=40
    ps=[]
    A=[('push',3),('push',8),('pop',),('set',0,5),('fill',(2,3)),('mult',(3,2)),('resize',1),('resize',4),('reserve',9),('clear',),('destroy',),('sortup',),('genmult',2),('get',1)]
    ps+=[('vector',h) for h in G.exhaustive(A,n)]
    L=[('pushb',1,3),('pushf',1,8),('popb',1),('popf',1),('begin',1,1),('end',1,2),('next',1,1),('insert',1,1,5),('insert',1,2,7),('erase',1,1),('erase',1,2),('clear',1),('pushb',2,4),('erase',2,1)]
    lead=[('pushb',1,1),('pushb',1,2),('begin',1,1),('end',1,2)]
    ps+=[('list',h) for h in G.exhaustive(L,n)]
    ps+=[('list',lead+h) for h in G.exhaustive(L,n-1)]
    M=[('set',1,3),('set',2,4),('set',5,6),('add',1,5),('remove',1),('remove',2),('remove',5),('clear',1),('store',2,9),('read',5)]
    ps+=[('map',h) for h in G.exhaustive(M,n)]
    V=[('attach',1),('attach',2),('attach',4),('detach',1),('detach',2),('minus',4),('plus',1),('fire',3),('clear',)]
    ps+=[('event',h) for h in G.exhaustive(V,n)]
    Y=[('new',0),('new',3),('set',1,5),('copyin',(2,3)),('dup',),('sortdown',),('aset',3,7),('aset',5,4),('aset',0,2),('filter',),('comp',)]
    ps+=[('array',h) for h in G.exhaustive(Y,n)]
    R=c.rng('exh')
    out=[]
    for kind,mk in(('vector',lambda i,T,hs: G.vector_prog(i,T,hs)),('list',lambda i,T,hs: G.list_prog(i,T,hs)),('map',None),('event',None),('array',lambda i,T,hs: G.array_prog(i,T,hs))):
        hs=[h for k,h in ps if k==kind]
        if c.quick(): R.shuffle(hs); hs=hs[:1100]
        if kind=='vector': hs=[G.model_vec(h) for h in hs]
        for q,ch in enumerate(chunks(hs,cl)):
            i='%s-exh-%d'%(kind,q)
            T=EL[q%len(EL)] if q%3 else 'int'
            if kind=='map':
                kt=list(G.KEYS)[q%len(G.KEYS)]; out.append(G.map_prog(i,kt,'int',ch))
            elif kind=='event': out.append(G.event_prog(i,ch,1+q%4))
            elif kind=='vector':
                if any(o[0]=='resize' for h in ch for o in h) and T in('str','ref','long','double'): T=['int','char','short','E3'][q%4]
                out.append(mk(i,T,ch))
            else: out.append(mk(i,'E3' if kind=='array' and T=='ref' else T,ch))
    O.batch(c,'exhaustive',MOD,out,std=True)
def rnd(c,r):
    out=[]; n=25 if c.quick() else 60; ln=60 if c.quick() else 120
    for T in EL:
        for z in range(1 if c.quick() else 3):
            R=c.rng('rnd',r,T,z); i='s%d-%d-%s-%d'%(c.seed,r,T,z)
            out.append(G.vector_prog('vec-'+i,T,[G.vec_random(R,T,ln) for _ in range(n)]))
            out.append(G.list_prog('list-'+i,T,[G.list_random(R,T,ln) for _ in range(n)]))
            if T!='ref': out.append(G.array_prog('arr-'+i,T,[G.array_random(R,T,ln//2) for _ in range(n)]))
    for kt in G.KEYS:
        for vt in('int','E3','str'):
            R=c.rng('map',r,kt,vt); out.append(G.map_prog('map-s%d-%d-%s-%s'%(c.seed,r,kt,vt),kt,vt,[G.map_random(R,vt,ln) for _ in range(n//2)]))
    for k in range(1,9):
        R=c.rng('ev',r,k); out.append(G.event_prog('ev-s%d-%d-%d'%(c.seed,r,k),[G.event_random(R,ln) for _ in range(n//2)],k))
    R=c.rng('range',r)
    out.append(G.range_prog('range-s%d-%d'%(c.seed,r),[[('range',a,b,s) for a in range(-3,4) for b in range(-4,6) for s in(1,2,3,5)]+[('nested',a,b) for a in range(-1,2) for b in range(-2,4)]]+[[('range',a,a+R.randrange(-3,40),R.choice([1,1,2,7])) for a in [R.randrange(-10**6,10**6) for _ in range(30)]]]))
    O.batch(c,'random-%d'%r,MOD,out,std=True)
def check(c):
    exhaustive(c); r=0
    while True:
        rnd(c,r); r+=1
        if c.quick() or c.time_left()<150: break
    c.assumptions=['not generated: aggregates of empty containers, detaching while an event fires, handles kept over clear, ranges with a step that is not positive or that end at the largest int']
E.run('C16',check)
