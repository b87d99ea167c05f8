import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_dir as D
def check(c):
    n=220 if c.quick() else 900; r=0
    st=dict(yld=2)
    E.batch(c,'aliases',D.alias_cases(),maxev=1500)
    while True:
        for name,prof in [('placement',dict(wrapper=dict(func=3,co=3,method=2,local=2,lco=2,ns=3,**{'global':2}),stmts=st)),
                          ('pressure',dict(wrapper=dict(func=3,co=1,local=1,**{'global':3}),depth=5,nfun=2,mainsize=70,body=9,stmts=dict(yld=1,decl=10))),
                          ('float',dict(nofloat=0.0,wrapper=dict(func=2,**{'global':2}),types=[(t,w) for t,w in E.types(int=4,long=2,float=5,double=6)]))]:
            E.batch(c,'%s-%d'%(name,r),E.random_cases(c,'%s%d'%(name,r),n,**prof),repeat=2)
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['programs of the generator grammar (tools/gen.py)']
E.run('C20',check)
