import sys,os
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','tools'))
import engine as E, ops as O, gen_text as G
def one(c,kind,r,q,n):
    R=c.rng(kind,r,q); h=G.H(R)
    if kind in('string','raw','mixed'):
        for k in range(1,5):
            for f in(h.raw,h.string): f()
    while len(h.ops)<n:
        {'raw':h.raw,'string':lambda:(h.raw if R.random()<.15 else h.string)(),'numbers':lambda:(h.raw if R.random()<.05 else h.numbers)(),'sort':h.sorts,'mixed':lambda:R.choice([h.raw,h.string,h.numbers])()}[kind]()
    return G.program('%s-s%d-%d-%d'%(kind,c.seed,r,q),h.ops)
def check(c):
    q=c.quick(); r=0
    while True:
        for kind,n,ops in(('raw',40,60),('string',90,70),('numbers',90,50),('sort',24,16),('mixed',10,60)):
            O.batch(c,'%s-%d'%(kind,r),'TextTrace',[one(c,kind,r,z,ops) for z in range(n if q else n*4)],std=True,parser=G.parse,timeout=40)
        r+=1
        if q or c.time_left()<200: break
    c.assumptions=['characters of compared strings are below 128; string objects hold no zero characters','NaN texts, integer texts outside the range of int/short, positions equal to the size for access are left open']
E.run('C17',check)
