#!/usr/bin/env python3
"""Cross-checks spec/Words.tla with Python integers."""
import math,random,json,sys,os,subprocess,tempfile
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from fractions import Fraction
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def w(x,n): x&=(1<<n)-1; return x-(1<<n) if x>>(n-1) else x
def L(x): x&=(1<<64)-1; return [x&65535,x>>16&65535,x>>32&65535,x>>48]
def tdiv(a,b): q=abs(a)//abs(b); return -q if (a<0)!=(b<0) else q
def F(fr):
    if fr==0: return [0,0,0]
    m,d=fr.numerator,fr.denominator; e=-(d.bit_length()-1)
    while m%2==0: m//=2; e+=1
    return [0,m,e]
def vectors(seed,n):
    R=random.Random(seed); out=[]
    ri=lambda: R.choice([R.randint(-10,10),R.randint(-70000,70000),R.randint(-2**31,2**31-1),-2**31,2**31-1,R.choice([1,-1])<<R.randint(0,30),0])
    rl=lambda: R.choice([R.randint(-10,10),R.randint(-2**63,2**63-1),-2**63,2**63-1,w(R.choice([1,-1])<<R.randint(0,63),64),R.randint(-2**33,2**33)])
    for _ in range(n):
        a,b=ri(),ri(); la,lb=rl(),rl(); s=R.randint(0,31); t=R.randint(0,63)
        for op,v in (('iadd',a+b),('isub',a-b),('imul',a*b),('iand',a&b),('ior',a|b),('ixor',a^b)): out.append([op,[a],[b],[w(v,32)]])
        if b and not(a==-2**31 and b==-1): out+= [['idiv',[a],[b],[tdiv(a,b)]],['imod',[a],[b],[a-b*tdiv(a,b)]]]
        out+=[['ishl',[a],[s],[w(a<<s,32)]],['ishr',[a],[s],[a>>s]],['ipow',[a],[s],[w(a**s,32)]]]
        for op,v in (('ladd',la+lb),('lsub',la-lb),('lmul',la*lb),('land',la&lb),('lor',la|lb),('lxor',la^lb)): out.append([op,L(la),L(lb),L(v)])
        if lb and not(la==-2**63 and lb==-1): out+=[['ldiv',L(la),L(lb),L(tdiv(la,lb))],['lmod',L(la),L(lb),L(la-lb*tdiv(la,lb))]]
        out+=[['lshl',L(la),[t],L(la<<t)],['lshr',L(la),[t],L(la>>t)],['lpow',L(la),[s],L(la**s)],['llt',L(la),L(lb),[int(la<lb)]],['l2i',L(la),[0],[w(la,32)]],['i2l',[a],[0],L(a)]]
        fa=Fraction(R.randint(-5000,5000),1<<R.randint(0,8)); fb=Fraction(R.randint(-300,300),1<<R.randint(0,8))
        if not(fa==0 or fb==0): out.append(['fmul',F(fa),F(fb),F(fa*fb)])
        out+=[['fadd',F(fa),F(fb),F(fa+fb)],['fsub',F(fa),F(fb),F(fa-fb)],['fcmp',F(fa),F(fb),[(fa>fb)-(fa<fb)]],['f2l',F(fa),[0],L(int(fa))],['l2f',L(a),[0],F(Fraction(a))]]
        fq=fa*fb
        if fb and fa: out.append(['fdiv',F(fq),F(fb),F(fa)])
    # special values, against the processor's arithmetic
    import lang
    sp=[0.0,-0.0,1.0,-1.0,2.5,-3.0,float('inf'),float('-inf'),float('nan')]
    def div(x,y):
        if y==0: return float('nan') if x==0 or x!=x else math.copysign(float('inf'),math.copysign(1,x)*math.copysign(1,y))
        return x/y
    for x in sp:
        for y in sp:
            for op,v in(('fadd',x+y),('fsub',x-y),('fmul',x*y),('fdiv',div(x,y))): out.append([op,lang.dyadic(x),lang.dyadic(y),lang.dyadic(v)])
            out.append(['fcmp',lang.dyadic(x),lang.dyadic(y),[2 if x!=x or y!=y else (x>y)-(x<y)]])
    return out
if __name__=='__main__':
    n=int(sys.argv[1]) if len(sys.argv)>1 else 60
    d=tempfile.mkdtemp(prefix='words-')
    json.dump(vectors(int(os.environ.get('VERIF_SEED','1')),n),open(d+'/v.json','w'))
    open(d+'/w.cfg','w').write('SPECIFICATION Spec\nCONSTANT File = "%s/v.json"\nPOSTCONDITION Done\nCHECK_DEADLOCK FALSE\n'%d)
    r=subprocess.run([V+'/tools/tlc.sh','-config',d+'/w.cfg','-metadir',d+'/m',V+'/spec/WordsTest.tla'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True)
    print('\n'.join(r.stdout.splitlines()[-12:]))
    import shutil; shutil.rmtree(d)
    sys.exit(r.returncode)
