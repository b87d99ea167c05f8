import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_co as D
ST=dict(asg=8,ev=6,decl=6,blk=2,iff=4,forr=6,wh=3,do=2,sw=2,brk=3,cnt=3,ret=2,calls=6,yld=9,fdef=0,foreach=3)
def check(c):
    n=80 if c.quick() else 700; r=0
    X=dict(callv=4); W=dict([('co',3),('lco',3)])
    P=[('main',dict(extreme=0.0,nofloat=0.7,stmts=ST,nfun=1,depth=2,wrapper=W)),
       ('agg',dict(extreme=0.0,nofloat=0.9,nstruct=2,stmts=dict(ST,agg=3,copy=3,ref=3),nfun=1,depth=2,wrapper=W)),
       ('local',dict(extreme=0.0,nofloat=0.8,stmts=dict(ST,fdef=5,clo=6),exprs=X,nfun=1,depth=2,cofun=0.6,wrapper=dict([('func',2),('local',2),('co',1),('lco',1),('global',1)])))]
    E.batch(c,'nests',D.yield_nests(2 if c.quick() else 3),maxev=1200)
    E.batch(c,'instances',D.instances(),maxev=1500)
    E.batch(c,'loops',D.foreach_cases(),maxev=1500)
    while True:
        for name,prof in P: E.batch(c,'%s-%d'%(name,r),E.random_cases(c,'%s%d'%(name,r),n,**prof))
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['programs of the generator grammar (tools/gen.py) and of the directed families (tools/gen_co.py)']
E.run('C05',check)
