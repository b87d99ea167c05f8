import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_over as G, harness as H
def one(c,R,name,place,pool,n,arity,calls,gen):
    s=G.Set(R,pool if place!='oper' else G.OPER,n,place,arity if place!='oper' else [2],gen if place!='value' else 0)
    if not s.funs: return None
    for _ in range(calls): s.call()
    if not s.calls: return None
    return G.prog(name,s)
def check(c):
    q=c.quick(); r=0
    pools=[('num',G.NUM),('ref',['A','B','C','A ref','B ref','C ref','S','S ref','auto ref','int','double','int ref']),('arr',['int[]','double[]','auto[]','A[]','int[] ref','auto ref','int[3] ref','int']),('fun',['int ref(int)','double ref(double)','void ref()','int','auto ref']),('all',G.PLAIN)]
    while True:
        ps=[]
        for z in range(60 if q else 80):
            for name,pool in pools:
                R=c.rng('over',r,z,name); place=R.choice(['global','global','inside','space','module','method','hier','oper','value'])
                ps.append(one(c,R,'%s-s%d-%d-%d'%(name,c.seed,r,z),place,pool,R.choice([1,2,2,3,4,6]),R.choice([[1],[1,2],[2],[0,1,2],[2,3],[3]]),24,R.choice([0,.25,.6])))
        ps=[p for p in ps if p]
        O.batch(c,'random-%d'%r,'OverloadTrace',ps,configs=[(0,0),(1,2)] if q else H.ALL,parser=G.parse,norm=None,timeout=60)
        r+=1
        if q or c.time_left()<200: break
    c.assumptions=['argument kinds of tools/gen_over.py; short inline functions as arguments and user conversions are not covered; no call gives one parameter twice']
E.run('C06',check)
