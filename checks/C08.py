import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_fault as D
def check(c):
    n=60 if c.quick() else 500; r=0
    P=[('faults',dict(extreme=0.3,nofloat=0.7,nstruct=2,fault=0.06,stmts=dict(agg=4,ref=4,copy=2),nfun=4,recursive=0.4,depth=2,wrapper=dict([('global',2),('func',2),('local',2),('method',1),('co',1),('lco',1)]))),
       ('closures',dict(extreme=0.0,nofloat=0.8,nstruct=1,fault=0.06,stmts=dict(agg=3,ref=3,fdef=3,clo=5),exprs=dict(callv=4),nfun=3,recursive=0.5,depth=2))]
    F=D.fault_cases(); N=D.normal_cases()
    E.batch(c,'kinds',F,maxev=300,std=True)
    while True:
        rnd=[x for name,prof in P for x in E.random_cases(c,'%s%d'%(name,r),n,**prof)]
        E.batch(c,'random-%d'%r,rnd,std=True)
        R=c.rng('seq',r); seqs=[]
        for q in range(n*3):
            a=R.choice(F) if R.random()<0.6 else R.choice(rnd); b=R.choice(N) if R.random()<0.7 else R.choice(rnd); d=R.choice(F)
            seqs.append(R.choice([[(a,'build'),(b,'build'),(a,'build'),(a,'again')],[(b,'build'),(a,'build'),(a,'again'),(b,'build'),(b,'again')],[(a,'build'),(d,'build'),(b,'build')],[(a,'build'),(a,'again'),(d,'build'),(d,'again'),(a,'build'),(b,'build')]]))
        E.sequences(c,'seq-%d'%r,seqs,std=True)
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['faults of the directed families (tools/gen_fault.py) and of random programs; how deep the call stack may grow is left open (more than 150 activations)']
E.run('C08',check)
