import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_dir as D
CLO=dict(asg=8,ev=5,decl=5,blk=3,iff=3,forr=5,wh=2,do=1,sw=1,brk=3,cnt=3,ret=2,calls=3,fdef=4,clo=9)
def check(c):
    n=90 if c.quick() else 800; r=0
    X=dict(callv=4)
    P=[('closures',dict(extreme=0.0,nofloat=0.8,stmts=CLO,exprs=X,nfun=2,depth=2,types=E.types(int=10,long=4,char=2,double=2))),
       ('infunc',dict(extreme=0.0,nofloat=0.8,stmts=CLO,exprs=X,nfun=2,depth=2,wrapper=dict([('func',3),('local',3),('method',1)]))),
       ('agg',dict(extreme=0.0,nofloat=0.9,nstruct=2,stmts=dict(CLO,agg=3,copy=3,ref=2),exprs=X,nfun=1,depth=2,wrapper=dict([('func',3),('local',2),('global',1)]))),
       ('recursive',dict(extreme=0.0,nofloat=0.9,stmts=CLO,exprs=X,nfun=4,recursive=0.8,depth=2))]
    E.batch(c,'jumps',D.closure_cases(2) if c.quick() else D.closure_cases(3),maxev=800)
    while True:
        for name,prof in P: E.batch(c,'%s-%d'%(name,r),E.random_cases(c,'%s%d'%(name,r),n,**prof))
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['programs of the generator grammar (tools/gen.py)']
E.run('C04',check)
