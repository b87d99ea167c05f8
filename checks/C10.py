import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_heap as G
MB=1<<20
def small(c):
    """every way to drop a small structure: chains, cycles, blocks, phoenixes; then a collection"""
    ps=[]; R=c.rng('small')
    for k in range(1,9):
        for k2 in (9,10,k):
            h=[]; n=0
            for shape in range(6):
                a,b,d=n+1,n+2,n+3; n+=3
                h+=[('new',1,a,k),('new',2,b,k2),('new',3,d,1+(k+shape)%8)]
                h+=[[('link',1,1,2)],[('link',1,2,2),('link',2,1,1)],[('link',1,1,1)],[('link',1,1,2),('link',2,1,3),('link',3,2,1)],[('link',3,1,1),('link',3,2,2)],[('link',1,1,2),('follow',4,1,1),('link',3,1,4),('clear',4)]][shape]
                h+=[('clear',1),('drain',),('see',2),('clear',2),('drain',),('see',3),('path',3,0),('clear',3),('drain',),('see',8),('clear',8),('drain',)]
            ps.append(G.heap_prog('small-%d-%d'%(k,k2),c.rng('small',k,k2),h,k%2))
    O.batch(c,'small','HeapTrace',ps,std=True,norm=G.norm,parser=G.parse)
def check(c):
    q=c.quick(); small(c); r=0
    while True:
        ps=[]
        for z in range(150 if q else 500):
            R=c.rng('heap',r,z); ps.append(G.heap_prog('heap-s%d-%d-%d'%(c.seed,r,z),R,G.random_hist(R,200 if q else 400),z%3==0))
        O.batch(c,'heap-%d'%r,'HeapTrace',ps,std=True,norm=G.norm,parser=G.parse)
        ps=[]
        for z in range(24 if q else 80):
            R=c.rng('mem',r,z); L=R.choice([MB//2,MB,MB,2*MB] if q else [MB//2,MB,2*MB,3*MB,10*MB])
            ps.append(G.mem_prog('mem-s%d-%d-%d'%(c.seed,r,z),R,L,[G.mem_hist(R,L,14) for _ in range(2)]))
        O.batch(c,'limit-%d'%r,'HeapTrace',ps,std=True,norm=G.mem_norm,timeout=60)
        r+=1
        if q or c.time_left()<170: break
    c.assumptions=['an object that became unreachable is given one more operation before it has to be finalized (stale registers)','memory accounting with a slack of 60 kB and block rounding','finalizers that fail, and classes that only inherit a finalizer, are not generated']
E.run('C10',check)
