import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_dir as D
def check(c):
    n=100 if c.quick() else 1200; r=0
    P=[('control',dict(extreme=0.0,nofloat=0.8,stmts=dict(asg=6,ev=10,decl=4,iff=9,forr=7,wh=5,do=4,sw=6,brk=7,cnt=5,ret=4,calls=5),nfun=4,mainsize=50)),
       ('effects',dict(extreme=0.0,nofloat=0.8,stmts=dict(ev=12),exprs=dict(tr=8,asg=4,cmp=3,inc=4,call=6,logic=5,cond=5,cast=1),depth=4,nfun=4)),
       ('recursion',dict(extreme=0.1,nofloat=0.8,nfun=6,recursive=0.7,exprs=dict(call=8,tr=4),stmts=dict(calls=6,ret=4),wrapper=dict([('global',2),('func',2),('local',1)])))]
    E.batch(c,'jumps',D.jump_cases(3),maxev=1500)
    while True:
        for name,prof in P: E.batch(c,'%s-%d'%(name,r),E.random_cases(c,'%s%d'%(name,r),n,**prof))
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['programs of the generator grammar (tools/gen.py); fractions outside the exact subset are compared between configurations only']
E.run('C02',check)
