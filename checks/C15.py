import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_debug as G, harness as H
CONFIGS=[(0,0),(0,1),(0,2)]
def check(c):
    q=c.quick(); r=0
    class K: names=[]; host=False; fs={}; x=0; ls=[1]; t=['import verif;','evi(1);','return 7;']; g=[G.St('ev',1)]
    O.batch(c,'findings','DebugTrace',[G.prog('jit-breakpoint',K,[['plain'],['lines'],['code',[]],['add',1],['run',[]]])],configs=[(1,0)],parser=G.parse,norm=None,key=lambda p,h,o,g:p.id)
    while True:
        ps=[]
        for z in range(500 if q else 400):
            R=c.rng('debug',r,z); g=G.Gen(R,R.choice([10,20,40]),rec=R.random()<.6,fault=R.random()<.1,host=R.random()<.2)
            if not g.ls: continue
            ps.append(G.prog('random-s%d-%d-%d'%(c.seed,r,z),g,G.ops(R,g,R.choice([4,8,14]))))
        O.batch(c,'random-%d'%r,'DebugTrace',ps,configs=[(0,0),(0,2)] if q else CONFIGS,parser=G.parse,norm=None,timeout=60)
        r+=1
        if q or c.time_left()<200: break
    c.assumptions=['register virtual machine at every optimization level; breakpoints under the JIT are a known finding']
E.run('C15',check)
