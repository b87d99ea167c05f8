import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_dyn as D
def check(c):
    E.batch(c,'matrix',D.matrix(c.rng('matrix')),std=True,maxev=600)
    r=0
    while True:
        E.batch(c,'random-%d'%r,[D.random_case(c.rng('dyn',r,q),'dyn-s%d-%d-%d'%(c.seed,r,q)) for q in range(150 if c.quick() else 900)],std=True,maxev=400)
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['hierarchies of at most 5 extendable and 2 plain classes, 30 operations on dynamically typed values per program; whole-object assignment through references to extendable classes is excluded']
E.run('C07',check)
