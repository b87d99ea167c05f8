import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_dir as D
AGG=dict(asg=8,ev=3,decl=6,blk=1,iff=3,forr=4,wh=1,do=0,sw=1,calls=4,copy=5,agg=4,ref=4)
def check(c):
    n=90 if c.quick() else 800; r=0
    P=[('structs',dict(extreme=0.0,nofloat=0.7,nstruct=3,stmts=dict(AGG,ref=0),nfun=4,depth=2)),
       ('refs',dict(extreme=0.0,nofloat=0.7,nstruct=2,stmts=dict(AGG,ref=7),nfun=3,depth=2)),
       ('narrow',dict(extreme=0.5,nofloat=0.0,nstruct=2,stmts=AGG,nfun=2,depth=2)),
       ('placed',dict(extreme=0.0,nofloat=0.7,nstruct=2,stmts=AGG,nfun=2,depth=2,wrapper=dict([('func',2),('local',3),('co',2),('lco',2),('ns',1)])))]
    E.batch(c,'aliases',D.alias_cases(),maxev=1500)
    E.batch(c,'returned',D.retref_cases(),maxev=1500)
    while True:
        for name,prof in P: E.batch(c,'%s-%d'%(name,r),E.random_cases(c,'%s%d'%(name,r),n,**prof))
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['programs of the generator grammar (tools/gen.py); fractions outside the exact subset are compared between configurations only']
E.run('C03',check)
