import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, gen_try as D
def check(c):
    F=D.cases(c.quick())
    E.batch(c,'try',F,maxev=400,std=True)
    E.batch(c,'unwound captures',[D.unwound(k) for k in('throw','oob','div')],std=True)   # recorded findings
    r=0
    while True:
        R=c.rng('seq',r); seqs=[]
        for q in range(60 if c.quick() else 400):
            a,b,d=R.choice(F),R.choice(F),R.choice(F)
            seqs.append(R.choice([[(a,'build'),(a,'again'),(b,'build')],[(a,'build'),(b,'build'),(d,'build'),(d,'again')]]))
        E.sequences(c,'seq-%d'%r,seqs,std=True,maxev=400)
        r+=1
        if c.quick() or c.time_left()<140: break
    c.assumptions=['protected calls of the directed families (tools/gen_try.py), up to three levels deep','variables captured by closures that outlive a frame left by an error are excluded (recorded finding)']
E.run('C11',check)
