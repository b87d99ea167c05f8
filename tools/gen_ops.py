"""Directed programs for the arithmetic property: every operator, operand type pair and operand placement."""
import sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lang import *
import lang
from gen import EV,ID
ARITH=['+','-','*','/','%','**','<<','>>','&','|','^']
CMP=['==','!=','<','>','<=','>=']
EDGE={BOOL:[0,1],CHAR:[0,1,-1,127,-128,5,-7],SHORT:[0,1,-1,32767,-32768,300,-9],
 INT:[0,1,-1,2,3,7,-5,2**31-1,-2**31,65535,65536,-65536,127,128,-129,1000003,-2**31+1,2**30],
 LONG:[0,1,-1,2,3,-5,10,2**31-1,2**31,-2**31,-2**31-1,2**32,2**32-1,2**63-1,-2**63,2**62,-2**32,4294967299,1000000007,-3000000000],
 FLOAT:[0.0,1.0,-1.0,0.5,2.0,-2.5,3.0,100.0,0.25,-0.125,1024.0],
 DOUBLE:[0.0,1.0,-1.0,0.5,2.0,-2.5,3.0,100.0,0.25,65536.0,-0.125,1e6,4294967296.0,-7.75]}
def legal(o,a,b):
    fl=a in(FLOAT,DOUBLE) or b in(FLOAT,DOUBLE)
    if o in('<<','>>','&','|','^') and fl: return False
    if o in('<<','>>') and a is BOOL and b is BOOL: return False      # the result is not a proper bool
    return True
def rest(o,a,b):
    if o in CMP: return BOOL
    w=a if a.rank>=b.rank else b
    if w is BOOL and o not in('&','|','^','<<','>>'): return INT
    return w
class B:
    """builds one program; every evaluation stands in its own operand placement"""
    def __init__(s,rng):
        s.r=rng; s.n=0; s.gl=[]; s.main=[]; s.fn=[]; s.structs=[]
    def name(s,p): s.n+=1; return '%s%d'%(p,s.n)
    def gvar(s,t,v=None):
        x=Var(s.name('g'),t,None,glob=True); s.gl.append(N('dcl',None,*([N('k',t,v=v)] if v is not None else []),var=x)); return x
def k(t,v): return N('k',t,v=v)
def ev(t,e):
    n,kd=EV[t]; return N('x',None,N('ev',VOID,e,name=n,kind=kd,pty=t))
def show(t,e): return ev(t if t is not INT else INT,e)
def values(r,o,a,b):
    """operand values that do not fail"""
    x=r.choice(EDGE[a]); y=r.choice(EDGE[b])
    if r.random()<0.25 and a in(INT,LONG): x=r.randint(-2**31,2**31-1) if a is INT else r.randint(-2**63,2**63-1)
    if o in('/','%'):
        if b in(FLOAT,DOUBLE) or a in(FLOAT,DOUBLE):
            if y==0: y=1 if b is BOOL else k2(b,2)
        else:
            if y==0: y=1
            if y==-1 and x in(-2**31,-2**63): x+=1
    if o in('<<','>>'):
        lim=63 if LONG in(a,b) else 31
        y=r.choice([0,1,2,7,15,16,lim-1,lim]) if b is not BOOL else y
    if o=='**':
        if b in(FLOAT,DOUBLE): y=r.choice([0.0,1.0,2.0,3.0])
        elif b is not BOOL: y=r.choice([0,1,2,3,5,-1,-2])
        if y<0 and x==0: x=1
        if (a in(FLOAT,DOUBLE) or b in(FLOAT,DOUBLE)) and y<0: y=2
    return x,y
def k2(t,v): return float(v) if t in(FLOAT,DOUBLE) else v
PLACES=['gg','ll','lk','kl','gk','kg','em','me','pp','ek','km','ii','gl','lg','rl','lr','cl']
def program(rng,o,a,b,reps=1):
    """all placements of the operands of one operator"""
    p=B(rng); r=rng; main=p.main; t=rest(o,a,b); sh=t if t is not BOOL or o in CMP else BOOL
    S1=Struct('S1',[('pad',INT),('x',a),('q',CHAR),('y',b)])
    p.structs.append(S1)
    # a function that computes with its parameters and one that computes with its locals
    q=[Var('p1',a,None),Var('p2',b,None)]
    fp=Func('fp',t if t in(INT,LONG,DOUBLE,BOOL) else (INT if t in(CHAR,SHORT) else DOUBLE),q); fp.fn_static=True
    body=N('bin',t,N('var',a,var=q[0]),N('var',b,var=q[1]),o=o)
    if fp.ret is not t: body=N('cast',fp.ret,body)
    fp.body=N('blk',None,N('ret',None,body),bare=True)
    gs=Var('gs',S1,None,glob=True); ga=Var('ga',Arr(a,4),None,glob=True); gb=Var('gb',Arr(b,4),None,glob=True)
    ha=Var('ha',a,None,glob=True); hb=Var('hb',b,None,glob=True); gi=Var('gi',INT,None,glob=True)
    out=[N('dcl',None,var=gs),N('dcl',None,var=ga),N('dcl',None,var=gb),N('dcl',None,var=ha),N('dcl',None,var=hb),N('dcl',None,k(INT,2),var=gi)]
    out.append(N('fdef',None,f=fp))
    places=list(PLACES); r.shuffle(places)
    fns=[]
    def local(f,t,v,nm,opaque):
        x=Var(nm,t,f); e=k(t,v)
        if opaque: e=N('id',t,e,name=ID[t])
        return x,N('dcl',None,e,var=x)
    for rep in range(reps):
        for pl in places:
            x,y=values(r,o,a,b)
            st=[]
            f=Func(p.name('f'),VOID,[]); f.fn_static=True
            opaque=r.random()<0.6
            def side(c,t,v,first):
                if c=='k': return k(t,v)
                if c=='g':
                    g=ha if first else hb
                    st.append(N('x',None,N('asg',t,N('var',t,var=g),k(t,v)))); return N('var',t,var=g)
                if c in('l','c','r'):
                    w,d=local(f,t,v,'x' if first else 'y',opaque); st.append(d)
                    if c=='r':
                        pr=Var('rx' if first else 'ry',Ref(t),f); st.append(N('dcl',None,N('addr',Ref(t),N('var',t,var=w)),var=pr)); return N('*',t,N('var',pr.ty,var=pr),raw=False)
                    if c=='c':
                        u=t; return N('cond',t,N('bin',BOOL,N('var',INT,var=gi),k(INT,0),o='>'),N('var',t,var=w),k(t,EDGE[t][1]))
                    return N('var',t,var=w)
                if c=='i': return N('id',t,k(t,v),name=ID[t])
                if c=='e':
                    arr=ga if first else gb; i=r.randint(0,3)
                    e1=N('i',t,N('var',arr.ty,var=arr),k(INT,i),n=4)
                    e2=N('i',t,N('var',arr.ty,var=arr),N('var',INT,var=gi) if r.random()<0.5 else k(INT,2),n=4)
                    st.append(N('x',None,N('asg',t,e2,k(t,v)))); return e2
                if c=='m':
                    e=N('m',t,N('var',S1,var=gs),i=1 if first else 3,ty_s=S1)
                    st.append(N('x',None,N('asg',t,e,k(t,v)))); return e
                if c=='p': return ('p',v)
            lx=side(pl[0],a,x,True); ry=side(pl[1],b,y,False)
            if pl=='pp':
                st.append(ev(fp.ret,N('call',fp.ret,k(a,x),k(b,y),f=fp)))
            else:
                e=N('bin',t,lx,ry,o=o)
                st.append(ev(sh,e))
                if o in ARITH and pl in('gg','ll','em','lk','gk','ek','rl','lg') and lx.op!='k' and rest(o,a,b).rank>=0:
                    # compound assignment to the left operand
                    st.append(N('x',None,N('cmp',a,lx,ry,o=o))); st.append(ev(a,lx))
                if o in CMP and r.random()<0.7:
                    st.append(N('if',None,e,N('blk',None,ev(INT,k(INT,1)),bare=False),N('blk',None,ev(INT,k(INT,2)),bare=False)))
                if o in CMP and r.random()<0.3: st.append(ev(BOOL,N('not',BOOL,e)))
            if r.random()<0.5 or any(z in pl for z in 'lcr'):
                f.body=N('blk',None,*st,bare=True); out.append(N('fdef',None,f=f)); main.append(N('x',None,N('call',VOID,f=f)))
            else: main+=st
    return p,out+main
def conv_program(rng,a,b):
    """conversions of a value of type a to type b in every position, and unary operators on a"""
    p=B(rng); r=rng; out=[]; main=[]
    S1=Struct('S1',[('x',b),('w',a),('y',b)]); p.structs.append(S1)
    gs=Var('gs',S1,None,glob=True); gb=Var('gb',Arr(b,4),None,glob=True); ha=Var('ha',a,None,glob=True); hb=Var('hb',b,None,glob=True)
    out+=[N('dcl',None,var=gs),N('dcl',None,var=gb),N('dcl',None,var=ha),N('dcl',None,var=hb)]
    q=Var('p1',b,None); fp=Func('fp',VOID,[q]); fp.fn_static=True; fp.body=N('blk',None,ev(b,N('var',b,var=q)),bare=True); out.append(N('fdef',None,f=fp))
    for n in range(5):
        x=r.choice(EDGE[a])
        if r.random()<0.3 and a in(INT,LONG): x=r.randint(-2**31,2**31-1) if a is INT else r.randint(-2**63,2**63-1)
        if a in(FLOAT,DOUBLE) and b not in(FLOAT,DOUBLE,LONG) and abs(x)>=2**31: x=-7.75
        f=Func(p.name('f'),VOID,[]); f.fn_static=True; st=[]
        lx=Var('x',a,f); src=lambda: {0:k(a,x),1:N('var',a,var=lx),2:N('id',a,k(a,x),name=ID[a]),3:N('var',a,var=ha)}[r.randint(0,3)]
        st.append(N('dcl',None,N('id',a,k(a,x),name=ID[a]) if r.random()<0.5 else k(a,x),var=lx)); st.append(N('x',None,N('asg',a,N('var',a,var=ha),k(a,x))))
        st.append(ev(b,N('cast',b,src())))
        lb=Var('y',b,f); st+=[N('dcl',None,src(),var=lb),ev(b,N('var',b,var=lb))]
        st+=[N('x',None,N('asg',b,N('var',b,var=lb),src())),ev(b,N('var',b,var=lb))]
        st+=[N('x',None,N('asg',b,N('var',b,var=hb),src())),ev(b,N('var',b,var=hb))]
        m=N('m',b,N('var',S1,var=gs),i=2,ty_s=S1); st+=[N('x',None,N('asg',b,m,src())),ev(b,m)]
        e=N('i',b,N('var',gb.ty,var=gb),k(INT,r.randint(0,3)),n=4); st+=[N('x',None,N('asg',b,e,src())),ev(b,e)]
        st.append(N('x',None,N('call',VOID,src(),f=fp)))
        if a is b:
            ops=(['-','~'] if a in(CHAR,SHORT,INT,LONG) else ['-'] if a in(FLOAT,DOUBLE) else [])
            for o in ops: st.append(ev(a,N('un',a,src(),o=o)))
            if a not in(FLOAT,DOUBLE): st.append(ev(BOOL,N('not',BOOL,src())))
            if a is not BOOL:
                for pl in(N('var',a,var=lx),N('var',a,var=ha)):
                    for d in(1,-1):
                        pre=r.random()<0.5
                        st+=[ev(a,N('inc',a,pl,d=d,pre=pre)) if pre is False and a in(INT,LONG,DOUBLE) else N('x',None,N('inc',a,pl,d=d,pre=pre)),ev(a,pl)]
            st.append(N('if',None,src(),N('blk',None,ev(INT,k(INT,1)),bare=False),N('blk',None,ev(INT,k(INT,2)),bare=False)))
        else:
            c=Var('c',b,f)
            st.append(ev(b if b.rank>=a.rank else a,N('cond',b if b.rank>=a.rank else a,N('bin',BOOL,N('var',b,var=lb),N('var',b,var=hb),o='=='),src(),N('var',b,var=hb))))
        f.body=N('blk',None,*st,bare=True); out.append(N('fdef',None,f=f)); main.append(N('x',None,N('call',VOID,f=f)))
    return p,out+main
SPECIAL=dict(nan=(0,0),inf=(1,0),ninf=(-1,0))
def ident_program(rng,o,t):
    """an operand with itself and with the constants simplifications look for, on values including signed zeros, infinities and NaN"""
    p=B(rng); r=rng; out=[]; main=[]; fl=t in(FLOAT,DOUBLE)
    consts=([0.0,1.0,-1.0,2.0] if fl else [0,1] if t is BOOL else [0,1,-1,2,8])
    cmpo=o in CMP; res=rest(o,t,t); rt=res if res in(INT,LONG,DOUBLE,BOOL) else (INT if res in(CHAR,SHORT) else DOUBLE)
    def mk(n,build):
        q=[Var('x',t,None),Var('y',t,None)]
        f=Func(p.name('f'),rt,q); f.fn_static=True
        x=N('var',t,var=q[0]); y=N('var',t,var=q[1])
        e=build(x,y)
        if cmpo and r.random()<0.5:
            st=[N('if',None,e,N('blk',None,N('ret',None,k(BOOL,1)),bare=False)),N('ret',None,k(BOOL,0))]
        else: st=[N('ret',None,e if rt is res else N('cast',rt,e))]
        f.body=N('blk',None,*st,bare=True); out.append(N('fdef',None,f=f)); return f
    nofault=o not in('/','%') or fl
    fs=[]
    if nofault and o not in('<<','>>','**') : fs.append(mk('s',lambda x,y: N('bin',res,x,x,o=o)))
    for c in consts:
        if o in('<<','>>') and c<0: continue
        if o=='**' and (c<0): continue
        if not(o in('/','%') and not fl and c==0): fs.append(mk('r',lambda x,y: N('bin',res,x,k(t,c),o=o)))
        if nofault and o not in('<<','>>','**'): fs.append(mk('l',lambda x,y: N('bin',res,k(t,c),x,o=o)))
    if o in('+','-','*') and nofault:
        fs.append(mk('n',lambda x,y: N('bin',res,N('un',t,x,o='-') if t is not BOOL else x,y,o=o)))
        fs.append(mk('m',lambda x,y: N('bin',res,x,N('un',t,y,o='-') if t is not BOOL else y,o=o)))
    if cmpo:
        fs.append(mk('not',lambda x,y: N('not',BOOL,N('bin',BOOL,x,y,o=o))))
        fs.append(mk('cond',lambda x,y: N('bin',BOOL,N('cond',BOOL,N('bin',BOOL,x,y,o=o),k(BOOL,1),k(BOOL,0)),k(BOOL,0),o='!=')))
    vals=[k(t,v) for v in EDGE[t][:7]]
    if fl:
        def sp(a,b): return N('bin',t,N('id',t,k(t,a),name=ID[t]),N('id',t,k(t,b),name=ID[t]),o='/')
        vals=[k(t,0.0),N('un',t,k(t,0.0),o='-'),k(t,1.0),k(t,-2.5),sp(0.0,0.0),sp(1.0,0.0),sp(-1.0,0.0)]
    elif o in('+','-','*') and t in(INT,LONG): vals+=[k(t,v) for v in EDGE[t][-4:]]
    for f in fs:
        for v in vals:
            if o=='**' or r.random()<0.8: 
                w=r.choice(vals)
                if fl and o=='%' and r.random()<0.7: continue
                main.append(ev(rt,N('call',rt,v,w,f=f)))
    return p,out+main
def text(p,main):
    head='import verif;\n'
    for st in p.structs: head+='class %s\n{\n%s}\n'%(st.name,''.join('\t%s %s;\n'%(t.name,n) for n,t in st.members))
    return source(main,head)
def cases(c,full=True,tag='ops'):
    import machine as M
    out=[]
    def add(id,p,st):
        m=N('blk',None,*st,bare=True)
        out.append(M.Case(id,text(p,m),lang.emit(m)))
    for o in ARITH+CMP:
        for a in NUMS:
            for b in NUMS:
                if not legal(o,a,b): continue
                p,st=program(c.rng(tag,o,a.name,b.name),o,a,b)
                add('%s-s%d-%s-%s-%s'%(tag,c.seed,o,a.name,b.name),p,st)
    for o in ARITH+CMP:
        for t in NUMS:
            if not legal(o,t,t): continue
            p,st=ident_program(c.rng(tag,'ident',o,t.name),o,t)
            add('%s-s%d-ident-%s-%s'%(tag,c.seed,o,t.name),p,st)
    for a in NUMS:
        for b in NUMS:
            p,st=conv_program(c.rng(tag,'conv',a.name,b.name),a,b)
            add('%s-s%d-conv-%s-%s'%(tag,c.seed,a.name,b.name),p,st)
    return out
