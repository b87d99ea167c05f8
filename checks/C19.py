import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_rep as X
def check(c):
    q=c.quick(); r=0
    while True:
        ps=[]
        for z in range(300 if q else 800):
            R=c.rng('rep',r,z); ps.append(X.prog('rep-s%d-%d-%d'%(c.seed,r,z),X.Gen(R,R.choice([6,15,30])).make()))
        O.batch(c,'random-%d'%r,'ReplaceTrace',ps,parser=X.parse,norm=None,timeout=60,std=True)
        r+=1
        if q or c.time_left()<200: break
    c.assumptions=['a replaced function keeps its replacement until the program is linked again']
E.run('C19',check)
