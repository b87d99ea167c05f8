import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_scope as G, harness as H
PER=25
def check(c):
    q=c.quick(); r=0
    O.batch(c,'findings','ScopeTrace',[G.prog(k,[t]) for k,t in G.FINDINGS.items()],configs=[(0,0)],parser=G.parse,norm=None,key=lambda p,h,o,g:p.id)
    while True:
        ps=[]
        for z in range(130 if q else 160):
            R=c.rng('scope',r,z)
            tr=[G.tree(G.Gen(R,R.choice([4,8,14,22,30]),risky=R.choice([0,0,.03,.15]),imports=R.random()<.25,names=R.choice([1,2,2,3,4]),mix=R.choice([0,0,0,.1]))) for _ in range(PER)]
            ps.append(G.prog('random-s%d-%d-%d'%(c.seed,r,z),tr))
        for z in range(50 if q else 80):
            R=c.rng('chain',r,z); ps.append(G.prog('chain-s%d-%d-%d'%(c.seed,r,z),[G.chain(R) for _ in range(60)]))
        O.batch(c,'random-%d'%r,'ScopeTrace',ps,configs=[(0,0),(1,2)] if q else H.ALL,parser=G.parse,norm=None,timeout=60)
        r+=1
        if q or c.time_left()<200: break
    c.assumptions=['programs of tools/gen_scope.py: int variables and members, functions of 0 to 2 int parameters, classes with one base, typedefs of classes']
E.run('C18',check)
