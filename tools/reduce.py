"""Delta debugging on generated programs (development aid): shrink(main, keep) where keep(main) -> bool."""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import lang as L
def walk(n,out):
    out.append(n)
    for k in n.kids: walk(k,out)
    if n.op=='sw':
        for c,b in n.cases: walk(b,out)
    if n.op in('fdef','lam','short'): walk(n.f.body,out)
def shrink(main,keep,rounds=6,limit=3000):
    cnt=[0]
    def ok():
        cnt[0]+=1
        if cnt[0]>limit: return False
        try: return keep(main)
        except Exception: return False
    for _ in range(rounds):
        ch=False
        ns=[]; walk(main,ns)
        for n in ns:                                    # statement lists
            if n.op=='blk':
                step=max(1,len(n.kids)//2)
                while step>=1:
                    i=0
                    while i<len(n.kids):
                        sv=list(n.kids); n.kids=n.kids[:i]+n.kids[i+step:]
                        if ok(): ch=True
                        else: n.kids=sv; i+=step
                    step//=2
                # unwrap nested statements
                for i,k in enumerate(list(n.kids)):
                    subs=[x for x in k.kids if x.op=='blk'] if k.op in('if','while','do','for','blk') else []
                    for b in subs:
                        sv=list(n.kids); j=n.kids.index(k) if k in n.kids else -1
                        if j<0: break
                        n.kids=n.kids[:j]+list(b.kids)+n.kids[j+1:]
                        if ok(): ch=True; break
                        n.kids=sv
            if n.op=='sw':
                i=0
                while i<len(n.cases):
                    sv=n.cases; n.cases=n.cases[:i]+n.cases[i+1:]
                    if ok(): ch=True
                    else: n.cases=sv; i+=1
            if n.op=='if' and len(n.kids)>2:
                sv=n.kids; n.kids=n.kids[:2]
                if ok(): ch=True
                else: n.kids=sv
        ns=[]; walk(main,ns)
        for n in ns:                                    # expressions
            for i,k in enumerate(list(n.kids)):
                if k.ty is None or not isinstance(k.ty,L.Ty): continue
                if n.op in('asg','cmp','inc','addr','m','a2u') and i==0: continue
                cands=[x for x in k.kids if x.ty is k.ty]
                if k.ty.num and k.op!='k': cands=[L.N('k',k.ty,v=1),L.N('k',k.ty,v=0)]+cands
                for c in cands:
                    n.kids[i]=c
                    if ok(): ch=True; break
                    n.kids[i]=k
        if not ch: break
    return main
