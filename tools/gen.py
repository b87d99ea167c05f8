"""Random programs of the nullc subset known to the specification. Every choice comes from the given random generator."""
import random,sys,os
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lang import *

EV={BOOL:('evb','b'),CHAR:('evc','c'),SHORT:('evh','h'),INT:('evi','i'),LONG:('evl','l'),FLOAT:('evf','f'),DOUBLE:('evd','d')}
TR={INT:('tri','i'),LONG:('trl','l'),DOUBLE:('trd','d')}
ID={INT:'idi',LONG:'idl',DOUBLE:'idd',FLOAT:'idf',CHAR:'idc',SHORT:'idh',BOOL:'idb'}

DEFAULT=dict(
  types=[(INT,10),(LONG,4),(DOUBLE,4),(CHAR,2),(SHORT,2),(FLOAT,2),(BOOL,2)],
  stmts=dict(asg=8,ev=10,decl=6,blk=2,iff=6,forr=5,wh=2,do=2,sw=2,brk=3,cnt=2,ret=1,calls=2,fdef=0,clo=0,yld=0,ref=0,agg=0,copy=0,co=0,foreach=0),
  exprs=dict(leaf=6,bin=8,un=2,cond=2,asg=1,cmp=1,inc=1,tr=3,idf=1,call=3,cast=2,logic=2,callv=0),
  nstruct=0, nfun=3, depth=3, body=6, fault=0.0, cofun=0.0, wrapper='global', extreme=(0.0,0.1,0.5), nofloat=0.55, capture=0.0)

def nhash(x):
    h=5381
    for c in x: h=(h*33+ord(c))&0xffffffff
    return h
RESERVED=set(nhash(x) for x in [a for a,_ in EV.values()]+[a for a,_ in TR.values()]+list(ID.values())+['evs','evz','hcall','hcalli','hcallc'])
class G:
    def __init__(s,rng,**kw):
        s.r=rng; s.o={k:(dict(v) if isinstance(v,dict) else v) for k,v in DEFAULT.items()}
        for k,v in kw.items():
            if isinstance(v,dict) and isinstance(s.o.get(k),dict): s.o[k].update(v)
            else: s.o[k]=v
        if isinstance(s.o['extreme'],(list,tuple)): s.o['extreme']=rng.choice(s.o['extreme'])
        if rng.random()<s.o['nofloat']: s.o['types']=[(t,w) for t,w in s.o['types'] if t not in(FLOAT,DOUBLE)]
        s.nums=[t for t,_ in s.o['types']]; s.nums=s.nums if len(s.nums)>3 else NUMS
        s.scopes=[]; s.fn=None; s.nid=0; s.funcs=[]; s.structs=[]; s.loops=[]; s.budget=s.o.get('size',60); s.wrapped=False; s.infun=0
    def chance(s,p): return s.r.random()<p
    def pick(s,w):
        if isinstance(w,dict): w=list(w.items())
        w=[(a,b) for a,b in w if b>0]
        return s.r.choices([a for a,_ in w],[b for _,b in w])[0]
    def name(s,p):
        """a new name; names that share the 32 bit hash of a name of the test module are left out (known finding of C18)"""
        s.nid+=1
        while nhash('%s%d'%(p,s.nid)) in RESERVED: s.nid+=1
        return '%s%d'%(p,s.nid)
    def ty(s): return s.pick(s.o['types'])
    def ity(s): return s.pick([(a,b) for a,b in s.o['types'] if a in(INT,LONG,CHAR,SHORT)] or [(INT,1)])
    # ------------------------------------------------ variables
    def vars(s):
        for sc in s.scopes:
            for v in sc: yield v
    def declare(s,ty,prefix='v',**kw):
        v=Var(s.name(prefix),ty,s.fn,glob=(s.fn is None and len(s.scopes)==1))
        for k,x in kw.items(): setattr(v,k,x)
        s.scopes[-1].append(v)
        return v
    def const(s,t):
        r=s.r
        if t is BOOL: return N('k',t,v=r.randint(0,1))
        if t is CHAR: return N('k',t,v=r.choice([0,1,-1,127,-128,r.randint(-128,127)]))
        if t is SHORT: return N('k',t,v=r.choice([0,1,-1,32767,-32768,r.randint(-32768,32767)]))
        if t is INT:
            if s.chance(s.o['extreme']*0.4): return N('k',t,v=r.choice([2**31-1,-2**31,-2**31+1,2**30,65535,65536,-65536,255,256,-129,128,0x7fff,0x8000,r.randint(-2**31,2**31-1)]))
            return N('k',t,v=r.choice([0,1,2,3,4,5,7,8,10,-1,-2,-3,16,100,r.randint(-1000,1000)]))
        if t is LONG:
            if s.chance(s.o['extreme']*0.6): return N('k',t,v=r.choice([2**63-1,-2**63,2**31,2**32,-2**31-1,2**32-1,2**53+1,2**62,-2**32,r.randint(-2**63,2**63-1),r.randint(-2**40,2**40)]))
            return N('k',t,v=r.choice([0,1,2,3,-1,-5,10,1000,r.randint(-100000,100000)]))
        v=r.choice([0.0,1.0,2.0,-1.0,0.5,-0.5,0.25,3.0,10.0,-2.5,1.5,100.0,0.125,r.randint(-64,64)/4.0,r.choice([1,3,5,7,9,-3,-11,15])*2.0**r.randint(-4,10)])
        return N('k',t,v=v)
    # ------------------------------------------------ places
    def deep(s,e,t,write,n=0):
        """extend place e (type e.ty) to a place of type t, by random members, elements and references; None on failure"""
        ty=e.ty
        if ty is t and (n>0 or True): return e
        if n>4: return None
        if ty.kind=='s':
            ms=list(range(len(ty.members))); s.r.shuffle(ms)
            for i in ms:
                if s.reach(ty.members[i][1],t):
                    x=s.deep(N('m',ty.members[i][1],e,i=i,ty_s=ty),t,write,n+1)
                    if x: return x
            return None
        if ty.kind=='a':
            if not s.reach(ty.elem,t): return None
            return s.deep(N('i',ty.elem,e,s.index(ty.n),n=ty.n),t,write,n+1)
        if ty.kind=='u':
            if not s.reach(ty.elem,t): return None
            return s.deep(N('ui',ty.elem,e,s.index(4)),t,write,n+1)
        if ty.kind=='r':
            if not s.reach(ty.to,t): return None
            if n>0 and not s.chance(0.3): return None         # a reference member may be null
            return s.deep(N('*' if ty.to.kind!='s' else 'dm',ty.to,e,raw=False),t,write,n+1)
        return None
    def reach(s,a,t,seen=()):
        if a is t: return True
        if id(a) in seen: return False
        seen=seen+(id(a),)
        if a.kind=='s': return any(s.reach(x,t,seen) for _,x in a.members)
        if a.kind in('a','u'): return s.reach(a.elem,t,seen)
        if a.kind=='r': return s.reach(a.to,t,seen)
        return False
    def index(s,n):
        if s.chance(s.o['fault']): return N('id',INT,s.ge(INT,1),name='idi')
        s.ixd=getattr(s,'ixd',0)
        if s.ixd>1 or s.chance(0.5): return N('k',INT,v=s.r.randint(0,n-1))
        lv=[v for v in s.vars() if v.loop and v.loop<=n]
        if lv and s.chance(0.6): return N('var',INT,var=s.r.choice(lv))
        m=1
        while m*2<=n: m*=2
        s.ixd+=1
        try: return N('bin',INT,s.ge(INT,1),N('k',INT,v=m-1),o='&')
        finally: s.ixd-=1
    def place(s,t,write=False,exact=False):
        """a random place of type t, or None"""
        c=[v for v in s.vars() if not (write and getattr(v,'ro',False)) and s.reach(v.ty,t)]
        if write: c=[v for v in c if not (v.loop and v.ty is t and not s.chance(0.02))]
        if getattr(s,'nocap',False): c=[v for v in c if v.glob or v.fn is s.fn]
        for _ in range(4):
            if not c: return None
            # prefer recent and captured variables a little
            v=s.r.choice(c if s.chance(0.5) else c[-4:])
            if write and v.ty.kind in('r','u','f') and v.ty is t and getattr(v,'ro',False): continue
            x=s.deep(N('var',v.ty,var=v),t,write)
            if x is not None: return x
        return None
    # ------------------------------------------------ expressions
    def leaf(s,t):
        if s.chance(0.6):
            p=s.place(t)
            if p: return p
        if t.num and s.chance(0.2):
            for _ in range(3):
                u=s.r.choice(s.nums)
                p=s.place(u)
                if p and u is not t: return N('cast',t,p)
        if t.num: return s.const(t)
        return s.obj(t,0)
    def operands(s,t):
        """operand types of an arithmetic operator with result t"""
        if t is INT: c=[(INT,INT)]*6+[(INT,CHAR),(SHORT,INT),(INT,SHORT),(BOOL,INT),(CHAR,INT),(BOOL,BOOL)]
        elif t is LONG: c=[(LONG,LONG)]*6+[(LONG,INT),(INT,LONG),(CHAR,LONG),(LONG,SHORT),(LONG,BOOL)]
        elif t is DOUBLE: c=[(DOUBLE,DOUBLE)]*5+[(DOUBLE,INT),(INT,DOUBLE),(FLOAT,DOUBLE),(DOUBLE,LONG),(DOUBLE,SHORT)]
        elif t is FLOAT: c=[(FLOAT,FLOAT)]*3+[(FLOAT,INT),(INT,FLOAT),(LONG,FLOAT)]
        elif t is SHORT: c=[(SHORT,SHORT),(SHORT,CHAR),(CHAR,SHORT)]
        elif t is CHAR: c=[(CHAR,CHAR)]
        else: c=[(BOOL,BOOL)]
        a,b=s.r.choice(c)
        if t is INT and (a,b)==(BOOL,BOOL): return a,b,['+','-','*']
        ops=['+','-','*','/']
        if t in(INT,LONG,SHORT,CHAR): ops=['+','-','*','+','-','*','/','%','&','|','^','<<','>>','**']
        if t is DOUBLE: ops+=['%','**']
        if t is BOOL: ops=['&','|','^']
        return a,b,ops
    def divisor(s,t,d):
        if s.chance(s.o['fault']): return N('id',t,s.ge(t,d),name=ID[t])
        if t in(FLOAT,DOUBLE): return N('k',t,v=s.r.choice([1.0,2.0,4.0,-2.0,0.5,8.0,-0.25,16.0] if s.chance(0.95) else [3.0,10.0]))
        if t is BOOL: return N('k',t,v=1)
        if s.chance(0.6) :
            c=N('k',t,v=s.r.choice([1,2,3,4,5,7,8,10,16,-1,-3,100,64]))
            return N('id',t,c,name=ID[t]) if s.chance(0.3) and t in ID else c
        return N('bin',t,s.ge(t,d),N('k',t,v=1),o='|')
    def shamt(s,t,w,d):
        lim=63 if w is LONG else 31
        if t is BOOL: return s.ge(BOOL,d)
        if s.chance(0.5): return N('k',t,v=s.r.choice([0,1,2,3,4,8,15,16,lim,s.r.randint(0,lim)]))
        return N('bin',t,s.ge(t,d),N('k',t,v=lim),o='&')
    def binop(s,t,d):
        a,b,ops=s.operands(t)
        o=s.r.choice(ops)
        x=s.ge(a,d-1)
        if o in('/','%'): y=s.divisor(b,d-1)
        elif o in('<<','>>'): y=s.shamt(b,t,d-1)
        elif o=='**': y=N('k',b,v=s.r.choice([0,1,2,3,2]) if b not in(FLOAT,DOUBLE) else s.r.choice([0.0,1.0,2.0,3.0])) if s.chance(0.8) or b in(FLOAT,DOUBLE,BOOL) else N('bin',b,s.ge(b,d-1),N('k',b,v=7),o='&')
        else: y=s.ge(b,d-1)
        return N('bin',t,x,y,o=o)
    def cmpop(s,d):
        a=s.ty(); b=a if s.chance(0.7) else s.ty()
        return N('bin',BOOL,s.ge(a,d-1),s.ge(b,d-1),o=s.r.choice(['==','!=','<','>','<=','>=']))
    def ge(s,t,d=None):
        """expression of type t"""
        if d is None: d=s.o['depth']
        if t.kind!='p' or not t.num: return s.obj(t,d)
        if d<=0: return s.leaf(t)
        k=s.pick(s.o['exprs'])
        if k=='leaf': return s.leaf(t)
        if k=='bin':
            if t is BOOL: return s.cmpop(d)
            return s.binop(t,d)
        if k=='logic':
            if t is BOOL:
                q=s.r.random()
                if q<0.35: return N('and',t,s.cond(d-1),s.cond(d-1),o='&&')
                if q<0.7: return N('or',t,s.cond(d-1),s.cond(d-1),o='||')
                if q<0.85: return N('not',t,s.ge(s.r.choice([BOOL,INT]),d-1))
                return N('xor',t,s.ge(s.r.choice([BOOL,INT,LONG]),d-1),s.ge(s.r.choice([BOOL,INT]),d-1),o='^^')
            return s.binop(t,d)
        if k=='un':
            if t is BOOL: return N('not',t,s.ge(s.r.choice([BOOL,INT,LONG]),d-1))
            if t in(INT,LONG,CHAR,SHORT): return N('un',t,s.ge(t,d-1),o=s.r.choice('-~'))
            return N('un',t,s.ge(t,d-1),o='-')
        if k=='cond': return N('cond',t,s.cond(d-1),s.ge(t,d-1),s.ge(t,d-1))
        if k=='cast':
            u=s.r.choice(s.nums)
            return N('cast',t,s.ge(u,d-1)) if u is not t else s.ge(t,d-1)
        if k=='tr':
            if t in TR: n,kd=TR[t]; return N('ev',t,s.ge(t,d-1),name=n,kind=kd,pty=t)
            return s.ge(t,d-1)
        if k=='idf': return N('id',t,s.ge(t,d-1),name=ID[t])
        if k in('asg','cmp','inc'):
            p=s.place(t,write=True) if s.side_ok() else None
            if p is None: return s.binop(t,d) if t is not BOOL else s.cmpop(d)
            if k=='asg' : return N('asg',t,p,s.src_for(t,d-1))
            if k=='inc' and t is not BOOL: return N('inc',t,p,d=s.r.choice([1,-1]),pre=s.chance(0.5))
            return s.compound(p,t,d-1)
        if k=='call': return s.callx(t,d) or s.binopx(t,d)
        if k=='callv': return s.callv(t,d) or s.binopx(t,d)
        raise Exception(k)
    def binopx(s,t,d): return s.binop(t,d) if t is not BOOL else s.cmpop(d)
    def side_ok(s): return True
    def src_for(s,t,d):
        """right side of an assignment to type t: mostly the same type"""
        if t.num and s.chance(0.2): return s.ge(s.ty(),d)
        return s.ge(t,d)
    def compound(s,p,t,d):
        if t is BOOL: return N('cmp',t,p,s.ge(BOOL,d),o=s.r.choice('&|^'))
        ops=['+','-','*','/']+(['%','&','|','^','<<','>>','**'] if t in(INT,LONG,CHAR,SHORT) else [])
        o=s.r.choice(ops)
        u=t if s.chance(0.7) else s.r.choice([INT,LONG,t])
        if t in(FLOAT,DOUBLE) and s.chance(0.8): u=t
        if t is not DOUBLE and t is not FLOAT and o in('&','|','^','<<','>>','%','**') and u in(FLOAT,DOUBLE): u=t
        if o in('/','%'): y=s.divisor(u,d)
        elif o in('<<','>>'): y=s.shamt(u,LONG if LONG in(t,u) else INT,d)
        elif o=='**': y=N('k',u,v=s.r.choice([0,1,2,3]))
        else: y=s.ge(u,d)
        return N('cmp',t,p,y,o=o)
    def cond(s,d=2):
        q=s.r.random()
        if q<0.55: return s.cmpop(max(1,d))
        if q<0.8: return s.ge(BOOL,d)
        return s.ge(s.r.choice([INT,INT,LONG,CHAR]),d)
    def obj(s,t,d):
        """non-numeric value of type t"""
        if t.kind=='r':
            if s.chance(0.4):
                c=[v for v in s.vars() if v.ty is t and not getattr(v,'borrow',False)]
                if c: return N('var',t,var=s.r.choice(c))
            if s.chance(0.4):
                p=s.gplace(t.to)
                if p: return N('addr',t,p)
            return N('new',t,to=t.to)
        if t.kind=='u':
            if s.chance(0.4):
                c=[v for v in s.vars() if v.ty is t and not getattr(v,'borrow',False)]
                if c: return N('var',t,var=s.r.choice(c))
            if s.chance(0.3) :
                c=[v for v in s.vars() if v.ty.kind=='a' and v.ty.elem is t.elem and v.ty.n>=4 and v.glob]
                if c: v=s.r.choice(c); return N('a2u',t,N('var',v.ty,var=v))
            return N('newa',t,N('k',INT,v=s.r.randint(4,6)),elem=t.elem)
        if t.kind in('s','a'):
            if d>0 and s.chance(0.25):
                x=s.callx(t,d)
                if x: return x
            p=s.place(t)
            if p: return p
            if t.kind=='a': return N('arr',t,*[s.ge(t.elem,max(0,d-1)) for _ in range(t.n)])
            return N('*' if t.kind!='s' else '*',t,N('new',Ref(t),to=t),raw=False)
        if t.kind=='f':
            p=[v for v in s.vars() if v.ty is t]
            if p and s.chance(0.7): return N('var',t,var=s.r.choice(p))
            return s.lam(t)
        raise Exception(t)
    def gplace(s,t):
        """a place that lives as long as the program: reached from a global variable"""
        c=[v for v in s.vars() if v.glob and s.reach(v.ty,t)]
        if not c: return None
        if not c: return None
        v=s.r.choice(c)
        return s.deep(N('var',v.ty,var=v),t,False)
    # ------------------------------------------------ calls
    def args(s,f,d):
        out=[]
        for p in f.params:
            if p.ty.kind=='r' and p.ty.to.num and s.chance(0.7):
                q=s.place(p.ty.to,write=True)
                if q and q.op=='var': out.append(N('addr',p.ty,q)); continue
            if p.ty.kind=='u' and s.chance(0.5):
                c=[v for v in s.vars() if v.ty.kind=='a' and v.ty.elem is p.ty.elem and v.ty.n>=4]
                if c: v=s.r.choice(c); out.append(N('a2u',p.ty,N('var',v.ty,var=v))); continue
            out.append(s.depth_arg(f,p) if getattr(p,'isdepth',False) else (s.src_for(p.ty,d-1) if p.ty.num else s.obj(p.ty,d-1)))
        return out
    def depth_arg(s,f,p):
        if s.fn is not None and getattr(s.fn,'depthvar',None) is not None and s.recursive(f):
            return N('bin',INT,N('var',INT,var=s.fn.depthvar),N('k',INT,v=1),o='-')
        return N('k',INT,v=s.r.randint(0,3))
    def recursive(s,f): return f is s.fn or f in getattr(s.fn,'group',())
    def callable(s,f):
        """may f be called here? recursion only through the depth parameter"""
        if f.body is None or f is s.fn:
            return getattr(f,'depthvar',None) is not None and s.fn is not None and getattr(s.fn,'depthvar',None) is not None and s.recursive(f) and s.callbudget>0
        return True
    def callx(s,t,d):
        c=[f for f in s.funcs if f.ret is t and s.callable(f) and s.visible(f)]
        if not c: return None
        f=s.r.choice(c)
        if f.body is None or f is s.fn: s.callbudget-=1
        s.used(getattr(f,'rank',0))
        if s.loops and s.callcost(f)>3: 
            return None
        return N('call',t,*s.args(f,d),f=f)
    def callcost(s,f): return getattr(f,'cost',1)*len(s.loops)
    def visible(s,f): return getattr(f,'rank',0)<s.maxrank and (f.var is None or any(f.var is v for v in s.vars()))
    # function variables are ordered: a lambda stored in one calls only through earlier ones, so nothing recurs without end
    maxrank=10**9
    nrank=0
    def used(s,rank):
        f=s.fn
        while f is not None: f.rank=max(getattr(f,'rank',0),rank); f=f.outer
    def callv(s,t,d):
        c=[v for v in s.vars() if v.ty.kind=='f' and v.ty.ret is t and not getattr(v,'nocall',False) and s.vrank(v)<s.maxrank]
        if not c: return None
        v=s.r.choice(c); s.used(s.vrank(v))
        return N('callf',t,N('var',v.ty,var=v),*[s.ge(p,d-1) if p.num else s.obj(p,d-1) for p in v.ty.par])
    # ------------------------------------------------ statements
    def block(s,n,bare=False,pre=()):
        s.scopes.append([])
        k=list(pre)+s.stmts(n)
        s.scopes.pop()
        return N('blk',None,*k,bare=bare)
    def stmts(s,n):
        out=[]
        for _ in range(n):
            if s.budget<=0: break
            x=s.stmt()
            if x is None: continue
            out+=x if isinstance(x,list) else [x]
            if out and out[-1].op in('brk','cnt','ret'): break
        return out
    def ev(s,t=None,e=None):
        t=t or s.ty(); n,kd=EV[t]
        return N('x',None,N('ev',VOID,e or s.ge(t),name=n,kind=kd,pty=t))
    def show(s,p,depth=0):
        """events that show every number inside place p"""
        t=p.ty
        if t.num: return [s.ev(t,p)]
        if t.kind=='s':
            out=[]
            for i,(n,mt) in enumerate(t.members):
                if mt.num or (mt.kind in('s','a') and depth<2): out+=s.show(N('m',mt,p,i=i,ty_s=t),depth+1)
            return out
        if t.kind=='a':
            out=[]
            for i in range(min(t.n,4)): out+=s.show(N('i',t.elem,p,N('k',INT,v=i),n=t.n),depth+1)
            return out
        if t.kind=='u' and t.elem.num: return [s.ev(t.elem,N('ui',t.elem,p,N('k',INT,v=i))) for i in (0,3)]
        if t.kind=='r' and t.to.num: return [s.ev(t.to,N('*',t.to,p,raw=False))]
        return []
    def decl(s,t=None,prefix='v',init=True,**kw):
        t=t or s.vty()
        e=None
        if init is True: e=s.init(t)
        elif init: e=init
        v=s.declare(t,prefix,**kw)
        return N('dcl',None,*([e] if e is not None else []),var=v)
    def vty(s):
        q=s.r.random()
        if s.structs and q<0.25: return s.r.choice(s.structs)
        if s.o['stmts']['agg'] and q<0.45: return Arr(s.ty(),s.r.choice([4,4,5,8,2,3]))
        if s.o['stmts']['ref'] and q<0.6: return Ref(s.ty() if not s.structs or s.chance(0.4) else s.r.choice(s.structs))
        if s.o['stmts']['ref'] and q<0.7: return UArr(s.ty() if not s.structs or s.chance(0.6) else s.r.choice(s.structs))
        if s.structs and s.o['stmts']['agg'] and q<0.75: return Arr(s.r.choice(s.structs),4)
        return s.ty()
    def init(s,t):
        if t.kind in('r','u'): return s.obj(t,2)
        if t.kind in('s','a'): return None if s.chance(0.5) else s.obj(t,2)
        if s.chance(0.15): return None
        return s.src_for(t,s.o['depth'])
    def asg(s):
        w=s.pick(dict(num=10,agg=s.o['stmts']['agg'],ref=s.o['stmts']['ref']))
        if w=='num':
            t=s.ty(); p=s.place(t,write=True)
            if p is None: return s.decl()
            q=s.r.random()
            if q<0.5: e=N('asg',t,p,s.src_for(t,s.o['depth']))
            elif q<0.8: e=s.compound(p,t,s.o['depth']-1)
            elif t is not BOOL: e=N('inc',t,p,d=s.r.choice([1,-1]),pre=s.chance(0.5))
            else: e=N('asg',t,p,s.ge(t))
            return N('x',None,e)
        c=[v.ty for v in s.vars() if v.ty.kind in(('s','a') if w=='agg' else ('r','u'))]
        if w=='ref': c+=[mt for st in s.structs for _,mt in st.members if mt.kind in('r','u')]
        if not c: return s.decl()
        t=s.r.choice(c); p=s.place(t,write=True)
        if p is None: return None
        return N('x',None,N('asg',t,p,s.obj(t,2)))
    def stmt(s):
        s.budget-=1
        k=s.pick(s.o['stmts'])
        m=getattr(s,'st_'+k)
        return m()
    def st_asg(s): return s.asg()
    def st_ev(s): return s.ev()
    def st_decl(s): return s.decl()
    def st_copy(s):
        c=[v for v in s.vars() if v.ty.kind in('s','a','u')]
        if not c: return s.decl()
        v=s.r.choice(c)
        return s.show(N('var',v.ty,var=v))[:6]
    def st_agg(s): return s.decl(s.r.choice(s.structs) if s.structs and s.chance(0.6) else Arr(s.ty(),4))
    def st_ref(s): return s.decl(Ref(s.r.choice(s.structs) if s.structs and s.chance(0.7) else s.ty()))
    def st_blk(s): return s.block(s.r.randint(1,3))
    def nested(s): return len(s.scopes)>7
    def st_iff(s):
        if s.nested(): return s.ev()
        c=s.cond()
        k=[c,s.block(s.r.randint(1,3))]
        if s.chance(0.5): k.append(s.block(s.r.randint(1,3)))
        return N('if',None,*k)
    def body(s,n,kind):
        s.loops.append(kind); b=s.block(n); s.loops.pop(); return b
    def loopok(s): return not s.nested() and len([x for x in s.loops if x!='sw'])<2+(s.infun==0)-0
    def st_forr(s):
        if not s.loopok(): return s.ev()
        n=s.r.randint(1,4)
        s.scopes.append([])
        e=N('k',INT,v=0) if s.chance(0.8) else None
        v=s.declare(INT,'i'); v.loop=n; v.glob=False
        i=N('var',INT,var=v)
        ini=N('dcl',None,*([e] if e else []),var=v)
        cond=N('bin',BOOL,i,N('k',INT,v=n),o='<')
        if s.chance(0.15): cond=N('and',BOOL,cond,s.cond(1),o='&&')
        inc=N('x',None,N('inc',INT,i,d=1,pre=s.chance(0.5)))
        b=s.body(s.r.randint(1,3),'for')
        s.scopes.pop()
        return N('for',None,ini,cond,inc,b)
    def fuel(s,n):
        v=s.declare(INT,'w',ro=True,loop=0)
        return v,N('dcl',None,N('k',INT,v=n),var=v)
    def st_wh(s):
        if not s.loopok(): return s.ev()
        v,d=s.fuel(s.r.randint(1,4))
        c=N('bin',BOOL,N('inc',INT,N('var',INT,var=v),d=-1,pre=False),N('k',INT,v=0),o='>')
        if s.chance(0.4): c=N('and',BOOL,c,s.cond(1),o='&&')
        return [d,N('while',None,c,s.body(s.r.randint(1,3),'while'))]
    def st_do(s):
        if not s.loopok(): return s.ev()
        v,d=s.fuel(s.r.randint(0,3))
        b=s.body(s.r.randint(1,3),'do')
        c=N('bin',BOOL,N('inc',INT,N('var',INT,var=v),d=-1,pre=False),N('k',INT,v=0),o='>')
        if s.chance(0.3): c=N('and',BOOL,c,s.cond(1),o='&&')
        return [d,N('do',None,c,b)]
    def st_foreach(s):
        """over an array variable; the loop variable is another name of the element"""
        if not s.loopok(): return s.ev()
        c=[v for v in s.vars() if v.ty.kind in('a','u') and v.ty.elem.num and not getattr(v,'borrow',False) and not getattr(v,'via',None) and (v.ty.kind=='a' or getattr(v,'ro',False))]
        gs=[v for v in s.vars() if getattr(v,'func',None) is not None and v.func.co and not v.ty.par and v.ty.ret.num and getattr(v.func,'gen',False)]
        its=[]
        s.scopes.append([])
        for _ in range(s.r.choice([1,1,1,2])):
            if c: 
                a=s.r.choice(c); e=N('var',a.ty,var=a)
                v=Var(s.name('x'),a.ty.elem,s.fn); its.append(dict(var=v,e=e))
        if not its: s.scopes.pop(); return s.ev()
        for q in its: s.scopes[-1].append(q['var'])
        b=s.body(s.r.randint(1,3),'for')
        s.scopes.pop()
        return foreach(s.name,s.fn,its,b)
    def st_sw(s):
        if s.nested(): return s.ev()
        t=s.r.choice([INT,INT,INT,LONG,CHAR]) if len(s.o['types'])>1 else INT
        vals=s.r.sample(range(0,6),s.r.randint(1,4))
        e=N('bin',t,s.ge(t,2),N('k',t,v=3 if s.chance(0.7) else 7),o='&')
        cases=[]
        s.loops.append('sw')
        for v in vals:
            b=s.block(s.r.randint(0,2))
            b.kids=list(b.kids)
            if s.chance(0.7) and not(b.kids and b.kids[-1].op in('brk','cnt','ret')): b.kids.append(N('brk',None,n=1))
            cases.append((N('k',INT if t is not LONG else LONG,v=v),N('blk',None,N('blk',None,*b.kids,bare=False),bare=True)))
        if s.chance(0.6):
            b=s.block(s.r.randint(1,2)); cases.append((None,N('blk',None,b,bare=True)))
        s.loops.pop()
        return N('sw',None,e,cases=cases)
    def loopdepth(s,brk): return len([x for x in s.loops if brk or x!='sw'])
    def st_brk(s):
        n=s.loopdepth(True)
        if not n: return s.ev()
        q=N('brk',None,n=s.r.randint(1,n) if s.chance(0.3) else 1)
        return q if s.chance(0.2) else N('if',None,s.cond(),N('blk',None,q,bare=False))
    def st_cnt(s):
        n=s.loopdepth(False)
        if not n: return s.ev()
        q=N('cnt',None,n=s.r.randint(1,n) if s.chance(0.3) else 1)
        return q if s.chance(0.2) else N('if',None,s.cond(),N('blk',None,q,bare=False))
    def st_ret(s):
        if s.fn is None: return s.ev()
        q=N('ret',None,*([s.retval()] if s.fn.ret is not VOID else []))
        return N('if',None,s.cond(),N('blk',None,q,bare=False))
    def retval(s):
        t=s.fn.ret
        if t in(CHAR,SHORT,FLOAT): return N('cast',t,s.ge(t)) if s.chance(0.5) else s.place(t) or s.const(t)
        return s.ge(t) if t.num else s.obj(t,2)
    def st_calls(s):
        x=s.callx(VOID,2)
        if x is None:
            t=s.ty(); x=s.callx(t,2)
            if x is None: return s.ev()
            return s.ev(t,x)
        return N('x',None,x)
    # ------------------------------------------------ functions
    def paramty(s):
        q=s.r.random()
        if s.structs and q<0.25: return s.r.choice(s.structs)
        if s.structs and q<0.4: return Ref(s.r.choice(s.structs))
        if s.o['stmts']['ref'] and q<0.55: return Ref(s.ty())
        if s.o['stmts']['agg'] and q<0.7: return UArr(s.ty())
        if s.o['stmts']['agg'] and q<0.75: return Arr(s.ty(),4)
        return s.ty()
    def mkparam(s,t,**kw):
        v=Var(s.name('a'),t,None)
        if t.kind in('r','u'): v.borrow=True; v.ro=True
        for k,x in kw.items(): setattr(v,k,x)
        return v
    def rets(s):
        q=s.r.random()
        if q<0.2: return VOID
        if s.structs and q<0.45: return s.r.choice(s.structs)
        if s.o['stmts']['agg'] and q<0.5: return Arr(s.ty(),4)
        return s.ty()
    def enter(s,f):
        sv=(s.fn,s.loops,s.scopes,s.infun,getattr(s,'callbudget',0))
        s.fn=f; s.loops=[]; s.infun+=1; s.callbudget=2
        return sv
    def leave(s,sv): s.fn,s.loops,s.scopes,s.infun,s.callbudget=sv
    def gfun(s):
        """a global function; it sees the globals declared so far"""
        rec=s.chance(s.o.get('recursive',0.3))
        ps=[s.mkparam(s.paramty()) for _ in range(s.r.randint(0,3))]
        if rec: ps.insert(0,s.mkparam(INT,isdepth=True,ro=True))
        f=Func(s.name('f'),s.rets(),ps); f.cost=2 if rec else 1
        f.fn_static=True
        if rec: f.depthvar=ps[0]
        s.funcs.append(f)
        sv=s.enter(f)
        s.scopes=[s.scopes[0],list(ps)]
        k=[]
        if rec: k.append(N('if',None,N('bin',BOOL,N('var',INT,var=ps[0]),N('k',INT,v=0),o='<='),N('blk',None,N('ret',None,*([s.retval_base()] if f.ret is not VOID else [])),bare=False)))
        b=s.stmts(s.r.randint(1,s.o['body']-1))
        k+=b
        if f.ret is not VOID and not(k and k[-1].op=='ret'): k.append(N('ret',None,s.retval()))
        f.body=N('blk',None,*k,bare=True)
        s.leave(sv)
        return N('fdef',None,f=f)
    def retval_base(s):
        t=s.fn.ret
        return s.const(t) if t.num else s.obj(t,0)
    # local named function
    def st_fdef(s):
        if s.infun>2 or s.nested(): return s.ev()
        ps=[s.mkparam(s.ty()) for _ in range(s.r.randint(0,2))]
        f=Func(s.name('f'),s.pick([(VOID,2)]+s.o['types']),ps,outer=s.fn,co=s.chance(s.o['cofun'])); f.fn_static=False
        f.cost=1
        glob=s.fn is None and len(s.scopes)==1
        if not glob: f.var=Var(f.name,Fn(f.ret,[p.ty for p in ps]),s.fn)
        sv=s.enter(f); s.scopes=s.scopes+[list(ps)]
        k=s.stmts(s.r.randint(1,4))
        if f.ret is not VOID and not(k and k[-1].op=='ret'): k.append(N('ret',None,s.retval()))
        f.body=N('blk',None,*k,bare=True)
        s.leave(sv)
        s.funcs.append(f)
        if f.var is not None:
            f.var.ro=True; f.var.func=f; s.scopes[-1].append(f.var)
        elif f.co:
            f.var=Var(f.name,Fn(f.ret,[p.ty for p in ps]),None,glob=True); f.var.ro=True; f.var.func=f; s.scopes[0].append(f.var)
        else: f.fn_static=True
        return N('fdef',None,f=f)
    def vrank(s,v):
        f=getattr(v,'func',None)
        return getattr(f,'rank',0) if f is not None else getattr(v,'rank',0)
    def lam(s,t,rank=None):
        ps=[s.mkparam(p) for p in t.par]
        f=Func('',t.ret,ps,outer=s.fn,co=s.chance(s.o['cofun'])); f.fn_static=False
        sv=s.enter(f); s.scopes=s.scopes+[list(ps)]
        mr=s.maxrank; s.maxrank=min(mr,s.nrank if rank is None else rank)
        sb=s.budget; 
        k=s.stmts(s.r.randint(1,3)) if s.budget>0 and s.infun<4 else []
        if f.ret is not VOID and not(k and k[-1].op=='ret'): k.append(N('ret',None,s.retval()))
        f.body=N('blk',None,*k,bare=True)
        s.leave(sv); s.maxrank=mr
        def pr(): return '%s auto(%s){ %s}'%(t.ret.name,'','') if False else '%s(%s){ %s}'%('auto' if False else ('coroutine ' if f.co else '')+t.ret.name+' '+f.lname,', '.join('%s %s'%(p.ty.name,p.name) for p in ps),Sb(f.body,0).replace('\n',' '))
        f.lname=s.name('lam')
        f.name=f.lname
        return N('lam',t,f=f,printer=pr)
    def fty(s): return Fn(s.pick([(VOID,2)]+s.o['types']),[s.ty() for _ in range(s.r.randint(0,2))])
    def st_clo(s):
        """function variables: declared, assigned, called, stored in arrays that outlive the scope"""
        fs=[v for v in s.vars() if v.ty.kind=='f' and not getattr(v,'ro',False) and s.vrank(v)<s.maxrank]
        q=s.r.random()
        if fs and q<0.5:
            v=s.r.choice(fs); s.used(s.vrank(v))
            c=N('callf',v.ty.ret,N('var',v.ty,var=v),*[s.ge(p,1) for p in v.ty.par])
            if v.ty.ret.num: return s.ev(v.ty.ret,c)
            return N('x',None,c)
        if fs and q<0.8:
            v=s.r.choice(fs)
            src=[w for w in s.vars() if w.ty is v.ty and w is not v and s.vrank(w)<=s.vrank(v)]
            e=N('var',v.ty,var=s.r.choice(src)) if src and s.chance(0.4) else s.lam(v.ty,s.vrank(v))
            return N('x',None,N('asg',v.ty,N('var',v.ty,var=v),e))
        if s.infun>2: return s.ev()
        t=s.r.choice(fs).ty if fs and s.chance(0.6) else s.fty()
        if s.nrank>=s.maxrank: return s.ev()
        s.nrank+=1; r=s.nrank; e=s.lam(t,r)
        d=s.decl(t,'g',init=e); d.var.rank=r
        return d
    # ------------------------------------------------ whole programs
    def mkstructs(s):
        for _ in range(s.o['nstruct']):
            ms=[]
            for i in range(s.r.randint(1,4)):
                q=s.r.random()
                if q<0.6 or not s.structs: t=s.ty()
                elif q<0.8: t=s.r.choice(s.structs)
                else: t=Ref(s.r.choice(s.structs))
                if q>0.5 and q<0.6: t=Arr(s.ty(),4)
                ms.append(('m%d'%i,t))
            s.structs.append(Struct(s.name('S'),ms))
    def program(s):
        s.mkstructs()
        s.scopes=[[]]; out=[]
        for _ in range(s.r.randint(2,5)): out.append(s.decl())
        for _ in range(s.o['nfun']):
            out.append(s.gfun())
            if s.chance(0.5): out.append(s.decl())
        s.budget=s.o.get('mainsize',40)
        w=s.wrap=s.pick(s.o['wrapper']) if isinstance(s.o['wrapper'],dict) else s.o['wrapper']
        if w in('global','ns'): out+=s.stmts(s.r.randint(4,s.o['body']*2))
        else: out+=s.wrapped_main(w)
        for v in s.scopes[0]:
            if s.chance(0.7): out+=s.show(N('var',v.ty,var=v))[:5]
        return N('blk',None,*out,bare=True)
    def wrapped_main(s,w):
        """the main statements stand in a function, coroutine, method or local function"""
        co=w in('co','lco')
        f=Func(s.name('w'),VOID if s.chance(0.5) else INT,[],co=co); f.fn_static=True; f.cost=9
        glob=s.scopes[0]
        sv=s.enter(f); s.infun-=1
        s.scopes=[glob,[]]
        k=[]
        if w in('local','lco'):
            # locals of an outer function are captured by the inner one
            o=f; o.co=False
            g=Func(s.name('w'),VOID if s.chance(0.5) else INT,[],outer=o,co=co); g.fn_static=False; g.cost=9
            for _ in range(s.r.randint(1,3)): k.append(s.decl())
            g.var=Var(g.name,Fn(g.ret,[]),o); g.var.ro=True; g.var.nocall=True
            sv2=s.enter(g); s.infun-=1; s.scopes=s.scopes+[[]]
            gk=s.stmts(s.r.randint(4,s.o['body']*2))
            if g.ret is not VOID and not(gk and gk[-1].op=='ret'): gk.append(N('ret',None,s.retval()))
            g.body=N('blk',None,*gk,bare=True)
            s.leave(sv2)
            k.append(N('fdef',None,f=g)); s.scopes[-1].append(g.var)
            for _ in range(s.r.randint(1,4) if co else s.r.randint(1,2)):
                c=N('call',g.ret,f=g); k.append(N('x',None,c) if g.ret is VOID else s.ev(INT,c))
                k+=s.stmts(1)
            for v in s.scopes[-1]:
                if v.ty.num: k.append(s.ev(v.ty,N('var',v.ty,var=v)))
        else: k=s.stmts(s.r.randint(4,s.o['body']*2))
        if f.ret is not VOID and not(k and k[-1].op=='ret'): k.append(N('ret',None,s.retval()))
        f.body=N('blk',None,*k,bare=True)
        s.leave(sv)
        if f.co: f.var=Var(f.name,Fn(f.ret,[]),None,glob=True); f.var.nocall=True; f.var.ro=True; f.fn_static=False
        if w=='method': f.method=s.name('W')
        out=[N('fdef',None,f=f)]
        for _ in range(s.r.randint(2,5) if f.co else 1):
            c=N('call',f.ret,f=f); out.append(N('x',None,c) if f.ret is VOID else s.ev(INT,c))
        return out
    def st_yld(s):
        if s.fn is None or not s.fn.co: return s.ev()
        q=N('yld',None,*([s.retval()] if s.fn.ret is not VOID else []))
        return q if s.chance(0.6) else N('if',None,s.cond(),N('blk',None,q,bare=False))
    def text(s,main):
        head='import verif;\n'
        if getattr(s,'wrap','')=='ns':
            n='NS' if s.chance(0.5) else 'NA.NB'
            for st in s.structs: head+='namespace %s\n{\nclass %s\n{\n%s}\n}\n'%(n,st.name,''.join('\t%s %s;\n'%(t.name,n) for n,t in st.members))
            return head+'namespace %s\n{\n%s}\n'%(n,source(main,''))
        for st in s.structs: head+='class %s\n{\n%s}\n'%(st.name,''.join('\t%s %s;\n'%(t.name,n) for n,t in st.members))
        return source(main,head)
