import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_heap as G, gen_dyn, gen_try, gen_fault, gen_dir, gen_co
def gcify(cs):
    for q in cs:
        for z in q.cmds:
            if z[0]=='buildrun': z.append('gc')
    return cs
def heap(c,name,n,ops,r):
    ps=[]
    for q in range(n):
        R=c.rng('heap',r,q); ps.append(G.heap_prog('%s-s%d-%d'%(name,c.seed,q),R,G.random_hist(R,ops),q%3!=0))
    O.batch(c,'%s-%d'%(name,r),'HeapTrace',ps,std=True,norm=G.norm,parser=G.parse)
def storages(c):
    """every storage alone: the only path to an object goes through it"""
    ps=[]
    for s in sorted(G.ST):
        for gc in(0,1):
            R=c.rng('storage',s,gc); h=[]
            for q in range(1,8): h+=[('new',q,q*10,R.randrange(1,9)),('new',8-q,q*10+1,q),('link',8-q,1,q),('link',8-q,2,q),('link',q,1,8-q),('clear',q) if q%2 else ('move',q,1),('junk',30,q),('drain',),('path',8-q,R.randrange(128)),('see',8-q),('deep',8-q,R.randrange(128)),('follow',q,8-q,1),('see',q)]
            ps.append(G.heap_prog('storage-%s-%d'%(s,gc),R,h,gc,names=[s]))
    O.batch(c,'storages','HeapTrace',ps,std=True,norm=G.norm,parser=G.parse)
PROF=dict(extreme=0.0,nofloat=0.8,nstruct=2,stmts=dict(agg=4,ref=4,fdef=3,clo=5,copy=2,foreach=2),exprs=dict(callv=4),nfun=3,recursive=0.5,depth=2,cofun=.4)
def check(c):
    q=c.quick()
    storages(c)
    F=gen_fault.normal_cases(); R=c.rng('pick')
    E.batch(c,'directed',gcify((R.sample(F,min(60,len(F))) if q else F)+gen_try.objects()+gen_try.results()+gen_try.state()),std=True,maxev=400)
    C=gen_dir.closure_cases(2); E.batch(c,'closures',gcify(R.sample(C,min(40,len(C))) if q else gen_dir.closure_cases(3)),maxev=400)
    r=0
    while True:
        heap(c,'heap',150 if q else 500,200 if q else 400,r)
        E.batch(c,'dynamic-%d'%r,gcify([gen_dyn.random_case(c.rng('dyn',r,z),'dyn-s%d-%d-%d'%(c.seed,r,z)) for z in range(40 if q else 300)]),std=True,maxev=400)
        E.batch(c,'random-%d'%r,gcify(E.random_cases(c,'rnd%d'%r,60 if q else 500,**PROF)),std=True,maxev=400)
        r+=1
        if q or c.time_left()<170: break
    c.assumptions=['collections are forced at every allocation (NULLC_VERIFICATION hook) or run by the program and the allocator','machine families as in C02-C07, C11']
E.run('C09',check)
