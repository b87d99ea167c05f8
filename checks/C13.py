import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_host as X
def check(c):
    q=c.quick(); r=0
    es=X.exhaustive(c.rng('short'),2500 if q else 12000)
    for k in range(0,len(es),3000): O.batch(c,'short-%d'%(k//3000),'HostTrace',[X.prog('short-s%d-%d'%(c.seed,k+z),o) for z,o in enumerate(es[k:k+3000])],parser=X.parse,norm=None,timeout=40)
    while True:
        ps=[]
        for z in range(800 if q else 1500):
            R=c.rng('host',r,z); ps.append(X.prog('host-s%d-%d-%d'%(c.seed,r,z),X.Gen(R,R.choice([12,25,40])).make()))
        O.batch(c,'random-%d'%r,'HostTrace',ps,parser=X.parse,norm=None,timeout=40)
        r+=1
        if q or c.time_left()<200: break
    c.extra['short_histories']='%d of the %d histories of 4 operations over an alphabet of %d'%(len(es),len(X.alphabet())**4,len(X.alphabet()))
    c.assumptions=['units linked on top of a program are compiled without touching the bytecode cache when they import it; globals of a unit are unspecified until the program runs']
E.run('C13',check)
