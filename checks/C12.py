import sys,os,tempfile,shutil
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_mods as X
from gen_host import parse
def check(c):
    q=c.quick(); r=0; work=tempfile.mkdtemp(prefix='verif-mods-')
    try:
        while True:
            ps=[]
            for z in range(1200 if q else 3000):
                R=c.rng('mods',r,z); g=X.Gen(R,R.choice([8,14,24])); g.make_(); ps.append(X.prog('mods-s%d-%d-%d'%(c.seed,r,z),g,work))
            O.batch(c,'random-%d'%r,'ModulesTrace',ps,parser=parse,norm=None,timeout=40)
            r+=1
            if q or c.time_left()<200: break
    finally: shutil.rmtree(work,ignore_errors=True)
    c.assumptions=['module names in one directory do not repeat in the root directory; a module is reloaded in another version only when nothing compiled depends on the old one']
E.run('C12',check)
