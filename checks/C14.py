import sys,os,random
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_native as X
def check(c):
    q=c.quick(); r=0
    while True:
        S=X.Set(c.rng('set',r),150 if q else 250,24 if q else 60); d=E.V+'/.build'; os.makedirs(d,exist_ok=True); f='%s/native-%d-%d-%d.cpp'%(d,c.seed,r,0 if q else 1)
        t=X.cpp(S)
        if not os.path.exists(f) or open(f).read()!=t: open(f,'w').write(t)
        n=len(S.fns); ps=[]
        for k in range(0,n*2,6): ps.append(X.prog('each-%d-%d'%(r,k),S,c.rng('each',r,k),14,[x%n for x in range(k,k+6)]))
        for z in range(150 if q else 900): ps.append(X.prog('rnd-s%d-%d-%d'%(c.seed,r,z),S,c.rng('native',r,z),30))
        O.batch(c,'set-%d'%r,'NativeTrace',ps,parser=X.parse,norm=None,timeout=40,extra=[f],std=True)
        r+=1
        if q or c.time_left()<200: break
    c.extra['signatures']='%d native functions (x 2 binding methods), %d classes, %d functions called by the host, per set; %d set(s)'%(len(S.fns),len(S.cls),len(S.host),r)
    c.assumptions=['x86-64 System V calling convention; classes are passed by the host member by member']
E.run('C14',check)
