import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_ops
def check(c):
    E.batch(c,'operators',gen_ops.cases(c))
    prof=dict(stmts=dict(asg=10,ev=12,decl=8,blk=0,iff=2,forr=2,wh=0,do=0,sw=0,brk=0,cnt=0,ret=0,calls=2),exprs=dict(bin=12,cast=4,un=3,idf=2,tr=0),depth=4,nfun=2)
    n=200 if c.quick() else 1500; r=0
    while True:
        for x in(0.0,0.3): E.batch(c,'expressions-%d-%g'%(r,x),E.random_cases(c,'expr%d-%g'%(r,x),n,extreme=x,**prof))
        r+=1
        if c.quick() or c.time_left()<150: break
        E.batch(c,'operators-%d'%r,gen_ops.cases(c,tag='ops%d'%r))
    c.assumptions=['fractions whose mantissa needs more than 31 bits are compared between configurations only']
E.run('C01',check)
