"""Typed abstract syntax of the nullc subset known to the specification (spec/NullcMachine.tla):
prints a program as nullc source text and as the JSON form the specification reads."""
import struct
# built-in type numbers of the specification
T={'bool':1,'char':2,'short':3,'int':4,'long':5,'float':6,'double':7,'typeid':8,'nullptr':9,'auto ref':10,'auto[]':11,'void':12}
class Ty:
    def __init__(s,kind,name,**kw): s.kind=kind; s.name=name; s.__dict__.update(kw)
    def __repr__(s): return s.name
    @property
    def num(s): return s.kind=='p' and 1<=T[s.name]<=7
    @property
    def rank(s): return T[s.name] if s.kind=='p' else 0
_cache={}
def prim(n):
    if n not in _cache: _cache[n]=Ty('p',n)
    return _cache[n]
BOOL,CHAR,SHORT,INT,LONG,FLOAT,DOUBLE=[prim(x) for x in ('bool','char','short','int','long','float','double')]
VOID,NULLT,AUTOREF,AUTOARR,TYPEID=[prim(x) for x in ('void','nullptr','auto ref','auto[]','typeid')]
NUMS=[BOOL,CHAR,SHORT,INT,LONG,FLOAT,DOUBLE]
def _memo(key,mk):
    if key not in _cache: _cache[key]=mk()
    return _cache[key]
def Ref(t): return _memo(('r',id(t)),lambda:Ty('r',t.name+' ref',to=t))
def Arr(t,n): return _memo(('a',id(t),n),lambda:Ty('a',(t.name+'[%d]'%n) if t.kind!='a' else t.base0.name+'[%d]'%n+t.suffix,elem=t,n=n,base0=(t.base0 if t.kind=='a' else t),suffix='[%d]'%n+(t.suffix if t.kind=='a' else '')))
def UArr(t): return _memo(('u',id(t)),lambda:Ty('u',t.name+'[]',elem=t))
def Fn(ret,par): return _memo(('f',id(ret),tuple(map(id,par))),lambda:Ty('f','%s ref(%s)'%(ret.name,', '.join(p.name for p in par)),ret=ret,par=list(par)))
def Struct(name,members,**kw): return Ty('s',name,members=members,base=kw.get('base'),fin=None,ext=kw.get('ext',False),methods={},**{k:v for k,v in kw.items() if k not in('base','ext')})

class Var:
    def __init__(s,name,ty,fn,glob=False): s.name=name; s.ty=ty; s.fn=fn; s.glob=glob; s.captured=False; s.idx=None; s.loop=False
class Func:
    """A function. outer: the function in which it is declared (None: global scope)."""
    def __init__(s,name,ret,params,outer=None,co=False,this=None):
        s.name=name; s.ret=ret; s.params=params; s.outer=outer; s.co=co; s.body=None; s.caps=[]; s.fid=None; s.self=None; s.var=None; s.this=this
        for p in params: p.fn=s
class Main(Func):
    pass

class N:
    """expression or statement node: op, type, attributes"""
    def __init__(s,op,ty,*kids,**kw): s.op=op; s.ty=ty; s.kids=list(kids); s.__dict__.update(kw)

# ---------------------------------------------------------------- literals
def to_limbs(v): v&=(1<<64)-1; return [v>>(16*i)&0xffff for i in range(4)]
def dyadic(x):
    """exact fraction <<cls,m,e>> of a python float; class 9 when the mantissa does not fit the specification's exact subset"""
    if x!=x: return [1,0,0]
    if x==float('inf'): return [2,0,0]
    if x==float('-inf'): return [3,0,0]
    if x==0: return [4,0,0] if struct.pack('>d',x)[0]&0x80 else [0,0,0]
    n,d=x.as_integer_ratio(); e=-(d.bit_length()-1)
    while n%2==0: n//=2; e+=1
    if abs(n)>=2**31: return [9,struct.pack('>d',x).hex()]
    return [0,n,e]
def val(t,v):
    if t is LONG: return [5,to_limbs(v)]
    if t in (FLOAT,DOUBLE): return [T[t.name],dyadic(v)]
    if t is BOOL: return [1,int(bool(v))]
    return [T[t.name],v]
def lit(t,v):
    """source text of a number"""
    if t is BOOL: return 'true' if v else 'false'
    if t is CHAR: return "char(%s)"%lit(INT,v)
    if t is SHORT: return "short(%s)"%lit(INT,v)
    if t is INT:
        if v==-2**31: return '(-2147483647 - 1)'
        return str(v) if v>=0 else '(%d)'%v
    if t is LONG:
        if v==-2**63: return '(-9223372036854775807l - 1l)'
        return '%dl'%v if v>=0 else '(%dl)'%v
    s='%.12f'%abs(v); s=s.rstrip('0'); s=s+'0' if s.endswith('.') else s
    if t is FLOAT: s+='f'
    return s if v>=0 else '(-%s)'%s

# ---------------------------------------------------------------- printing
def esc(b):
    out=''
    for c in b:
        if c in (34,92): out+='\\'+chr(c)
        elif c==10: out+='\\n'
        elif c==13: out+='\\r'
        elif c==9: out+='\\t'
        elif c==0: out+='\\0'
        elif 32<=c<127: out+=chr(c)
        else: raise ValueError(c)
    return '"%s"'%out
def S(n):
    o=n.op; k=n.kids
    if o=='k': return getattr(n,'text',None) or lit(n.ty,n.v)
    if o=='var': return n.var.name
    if o=='bin' or o in('and','or','xor','peq'): return '(%s %s %s)'%(S(k[0]),{'and':'&&','or':'||','xor':'^^'}.get(o) or n.o,S(k[1]))
    if o=='un': return '(%s%s)'%(n.o,S(k[0]))
    if o=='not': return '(!%s)'%S(k[0])
    if o=='cast': return '%s(%s)'%(n.ty.name,S(k[0]))
    if o=='cond': return '(%s ? %s : %s)'%tuple(map(S,k))
    if o=='asg': return '(%s = %s)'%(S(k[0]),S(k[1]))
    if o=='cmp': return '(%s %s= %s)'%(S(k[0]),n.o,S(k[1]))
    if o=='inc': return ('(%s%s)' if n.pre else '(%s%s)')%((('++' if n.d==1 else '--'),S(k[0])) if n.pre else (S(k[0]),('++' if n.d==1 else '--')))
    if o=='ev': return '%s(%s)'%(n.name,S(k[0]))
    if o=='id': return '%s(%s)'%(n.name,S(k[0]))
    if o=='call': return '%s(%s)'%('o%s.%s'%(n.f.method,n.f.name) if getattr(n.f,'method',None) else n.f.name,', '.join(map(S,k)))
    if o=='callf': return '%s(%s)'%(S(k[0]),', '.join(map(S,k[1:])))
    if o=='mcall': return '%s.%s(%s)'%(S(k[0]),n.mname,', '.join(map(S,k[1:])))
    if o=='m': return '%s.%s'%(S(k[0].kids[0] if k[0].op=='dm' else k[0]),n.ty_s.members[n.i][0])
    if o in('i','ui'): return '%s[%s]'%(S(k[0]),S(k[1]))
    if o=='*' and getattr(n,'text',None): return n.text
    if o=='*': return ('*%s' if n.raw else '(*%s)')%S(k[0])
    if o=='dm': return '(*%s)'%S(k[0])              # left out before a member access
    if o=='addr': return '(&%s)'%S(k[0])
    if o=='ld': return S(k[0])
    if o=='a2u': return S(k[0])
    if o=='tmp': return S(k[0])
    if o=='conv': return S(k[0])
    if o=='size': return '%s.size'%S(k[0])
    if o=='arr': return '{%s}'%', '.join(map(S,k))
    if o=='new': return 'new %s()'%n.to.name if n.to.kind=='s' else 'new %s'%n.to.name
    if o=='newa': return 'new %s[%s]'%(n.elem.name,S(k[0]))
    if o in('box','pbox','unbox','dcast','toaa','fromaa','fromaan'): return (getattr(n,'cast','%s') or '%s')%S(k[0])
    if o=='typeis': return '(typeid(%s) == %s)'%(S(k[0]),n.T.name)
    if o=='vcall': return '%s.%s(%s)'%(S(k[0]),n.mname,', '.join(map(S,k[1:])))
    if o=='aai': return '%s[%s]'%(S(k[0]),S(k[1]))
    if o=='aasize': return '%s.size'%S(k[0])
    if o=='reset': return 'isCoroutineReset(%s)'%S(k[0])
    if o=='throw': return '%s("%s")'%(getattr(n,'fname','throw'),n.text)
    if o=='asrt': return 'assert(%s%s)'%(S(k[0]),', "%s"'%n.text if n.text else '')
    if o=='throwo': return 'throw(%s)'%S(k[0])
    if o=='rethrow': return '%s.rethrow()'%n.rname
    if o=='evm': return 'evm(%s)'%S(k[0])
    if o=='glist': return n.printer()
    if o=='text': return n.printer(n)
    if o=='lam': return n.printer()
    if o=='short': return '<%s>{ %s}'%(', '.join(p.name for p in n.f.params),Sb(n.f.body,0,True))
    if o=='fv': return n.f.name
    raise Exception('S '+o)
def Sb(n,ind,bare=False):
    """statements"""
    p='\t'*ind; o=n.op; k=n.kids
    if o=='x': return p+S(k[0])+';\n'
    if o=='blk':
        if n.bare: return ''.join(Sb(x,ind) for x in k)
        return p+'{\n'+''.join(Sb(x,ind+1) for x in k)+p+'}\n'
    if o=='dcl':
        nm=n.var.ty.name if not getattr(n,'auto',False) else 'auto'
        return p+('%s %s%s;\n'%(nm,n.var.name,' = '+S(k[0]) if k else ''))
    if o=='if': return p+'if(%s)\n'%S(k[0])+Sb(k[1],ind)+(p+'else\n'+Sb(k[2],ind) if len(k)>2 else '')
    if o=='while': return p+'while(%s)\n'%S(k[0])+Sb(k[1],ind)
    if o=='do': return p+'do\n'+Sb(k[1],ind)+p+'while(%s);\n'%S(k[0])
    if o=='for':
        def head(s): t=Sb(s,0).replace('\n',''); return t.rstrip(';')
        return p+'for(%s; %s; %s)\n'%(head(k[0]),S(k[1]),head(k[2]))+Sb(k[3],ind)
    if o=='sw': return p+'switch(%s)\n'%S(k[0])+p+'{\n'+''.join(p+('case %s:\n'%S(c) if c is not None else 'default:\n')+''.join(Sb(y,ind+1) for y in b.kids) for c,b in n.cases)+p+'}\n'
    if o=='try':
        r=n.rname
        return p+'auto %s = try(%s);\n'%(r,S(k[0]))+p+'if(%s)\n'%r+Sb(k[1],ind)+p+'else\n'+Sb(k[2],ind)
    if o=='foreach': return p+'for(%s)\n'%', '.join('%s in %s'%((q['ty'].name+' ' if q.get('ty') else '')+q['name'],S(q['e'])) for q in n.its)+Sb(n.body,ind)
    if o=='brk': return p+('break;\n' if n.n==1 else 'break %d;\n'%n.n)
    if o=='cnt': return p+('continue;\n' if n.n==1 else 'continue %d;\n'%n.n)
    if o=='ret': return p+'return%s;\n'%(' '+S(k[0]) if k else '')
    if o=='yld': return p+'yield%s;\n'%(' '+S(k[0]) if k else '')
    if o=='fdef': return Sf(n.f,ind)
    if o=='raw': return p+n.text+'\n'
    raise Exception('Sb '+o)
def Sf(f,ind):
    p='\t'*ind
    if getattr(f,'isshort',False): raise Exception
    head='%s%s %s(%s)\n'%('coroutine ' if f.co else '',f.ret.name,f.name,', '.join('%s %s'%(q.ty.name,q.name) for q in f.params))
    if getattr(f,'method',None): return p+'class %s\n%s{\n'%(f.method,p)+'\tint pad;\n'+head+p+'{\n'+''.join(Sb(x,ind+1) for x in f.body.kids)+p+'}\n'+p+'}\n'+p+'%s o%s;\n'%(f.method,f.method)
    return p+head+p+'{\n'+''.join(Sb(x,ind+1) for x in f.body.kids)+p+'}\n'

# ---------------------------------------------------------------- emission for the specification
class Emit:
    def __init__(s): s.types={}; s.tl=[['p']]*12; s.nodes=[]; s.fns=[]; s.fl=[]; s.gl=[]; s.vars=[]; s.keepty=[]; s.bynum={}; s.methods=[]
    def t(s,ty):
        if ty.kind=='p': return T[ty.name]
        if id(ty) in s.types: return s.types[id(ty)]
        s.tl.append(None); i=len(s.tl); s.types[id(ty)]=i; s.keepty.append(ty)
        if ty.kind=='s': s.bynum[i]=ty
        if ty.kind=='s': d=['s',[s.t(x) for _,x in ty.members],s.t(ty.base) if ty.base else 0,int(ty.ext)]
        elif ty.kind=='a': d=['a',s.t(ty.elem),ty.n]
        elif ty.kind=='u': d=['u',s.t(ty.elem)]
        elif ty.kind=='r': d=['r',s.t(ty.to)]
        elif ty.kind=='f': d=['f']
        elif ty.kind=='e': d=['e']
        s.tl[i-1]=d
        return i
    def node(s,*x): s.nodes.append(list(x)); return len(s.nodes)
    # captures
    def use(s,v,fn):
        if v.glob or v.fn is fn: return
        v.captured=True
        f=fn
        while f is not v.fn:
            if v not in f.caps: f.caps.append(v)
            f=f.outer
    def scan(s,n,fn):
        if n is None: return
        if n.op=='var': s.use(getattr(n.var,'via',None) or n.var,fn)
        if n.op=='fv' and n.f.var is not None and fn is not n.f: s.use(n.f.var,fn)
        if n.op=='call' and n.f.var is not None and fn is not n.f: s.use(n.f.var,fn)
        if n.op in('fdef','lam','short'):
            f=n.f; f.outer=fn; s.scan(f.body,f)
            for v in f.caps: s.use(v,fn)          # transitively
        if n.op=='sw':
            for c,b in n.cases: s.scan(b,fn)
        if n.op=='foreach': s.scan(n.low,fn); return
        if n.op=='try':
            for q in n.vars:
                if q: s.use(q,fn)
        for k in n.kids: s.scan(k,fn)
    def var_index(s,v):
        if v.idx is None:
            if v.glob: s.gl.append(s.t(v.ty)); v.idx=len(s.gl)
            else: s.vars.append(v); v.idx=len(s.vars)
        return v.idx
    def method(s,name):
        if name not in s.methods: s.methods.append(name)
        return s.methods.index(name)+1
    def place(s,v,fn):
        i=s.var_index(v)
        return ('g' if v.glob else 'l' if v.fn is fn else 'u'),i
    def fn(s,f):
        if f.fid is None: s.fl.append(f); f.fid=len(s.fl); s.fns.append(None)
        return f.fid
    def func(s,f):
        i=s.fn(f)
        if s.fns[i-1] is not None: return i
        s.fns[i-1]=1
        pv=[s.var_index(p) for p in f.params]
        body=s.stmt(f.body,f)
        s.fns[i-1]=dict(par=[s.t(p.ty) for p in f.params],pv=pv,ret=s.t(f.ret),body=body,co=int(f.co),cl=[s.var_index(p) for p in f.params if p.captured])
        return i
    def caps(s,f,fn): return [[s.var_index(v),1 if v.fn is fn else 0] for v in f.caps]
    def lv(s,n,fn):
        o=n.op
        if o=='var':
            if getattr(n.var,'via',None): return s.node('*',[s.ex(N('var',n.var.via.ty,var=n.var.via),fn)])
            k,i=s.place(n.var,fn); return s.node(k,[],i)
        if o=='m': return s.node('m',[s.lv(n.kids[0],fn)],n.i+1)
        if o=='i': return s.node('i',[s.lv(n.kids[0],fn),s.ex(n.kids[1],fn)],n.n)
        if o=='ui': return s.node('ui',[s.ex(n.kids[0],fn),s.ex(n.kids[1],fn)])
        if o in('*','dm'): return s.node('*',[s.ex(n.kids[0],fn)])
        if o=='tmp': return s.node('tmp',[s.ex(n.kids[0],fn)])
        raise Exception('lv '+o)
    def ex(s,n,fn):
        o=n.op; k=n.kids
        E=lambda: [s.ex(x,fn) for x in k]
        if o=='k': return s.node('k',[],n.val if hasattr(n,'val') else val(n.ty,n.v))
        if o=='var':
            if getattr(n.var,'via',None): return s.node('ld',[s.lv(n,fn)])
            p,i=s.place(n.var,fn); return s.node('r'+p,[],i)
        if o in('m','i','ui','*','dm'): return s.node('ld',[s.lv(n,fn)])
        if o=='bin': return s.node('bin',E(),n.o)
        if o=='peq': return s.node('peq',E(),n.o)
        if o=='un': return s.node('un',E(),n.o)
        if o=='not': return s.node('not',E())
        if o in('and','or','xor'): return s.node(o,E())
        if o=='cond': return s.node('cond',E(),s.t(n.ty))
        if o in('cast','conv'): return s.node('cast',E(),s.t(n.ty))
        if o=='id': return s.node('cast',[s.node('cast',E(),s.t(n.ty))],s.t(n.ty)) if False else s.node('cvt',E(),s.t(n.ty))
        if o=='asg': return s.node('asg',[s.lv(k[0],fn),s.ex(k[1],fn)],s.t(k[0].ty))
        if o=='cmp': return s.node('cmp',[s.lv(k[0],fn),0,s.ex(k[1],fn)],s.t(k[0].ty),n.o)
        if o=='inc': return s.node('inc',[s.lv(k[0],fn)],s.t(k[0].ty),n.d,int(n.pre))
        if o=='ev': return s.node('ev',E(),n.kind,s.t(n.pty),int(n.ty is not VOID))
        if o=='call':
            f=n.f
            if f.var is None or f.fn_static: return s.node('call',E(),s.func(f))
            if f is fn: return s.node('calls',E(),s.func(f))
            p,i=s.place(f.var,fn)
            return s.node('callf',[s.node('r'+p,[],i)]+E())
        if o=='fv':
            f=n.f
            if f.var is None: return s.node('k',[],[s.t(n.ty),[s.func(f),0]])
            p,i=s.place(f.var,fn); return s.node('r'+p,[],i)
        if o=='callf': return s.node('callf',E())
        if o=='mcall': return s.node('call',[s.node('addr',[s.lv(k[0],fn)],s.t(Ref(k[0].ty)))]+[s.ex(x,fn) for x in k[1:]],s.func(n.f))
        if o=='addr': return s.node('addr',[s.lv(k[0],fn)],s.t(n.ty))
        if o=='a2u': return s.node('a2u',[s.lv(k[0],fn)],s.t(n.ty),k[0].ty.n)
        if o=='size':
            if k[0].ty.kind=='a': return s.node('k',[],[4,k[0].ty.n])
            return s.node('size',E())
        if o=='arr': return s.node('arr',E(),s.t(n.ty),s.t(n.ty.elem))
        if o=='new': return s.node('new',[],s.t(n.ty),s.t(n.to))
        if o=='newa': return s.node('newa',E(),s.t(n.ty),s.t(n.elem))
        if o=='box': return s.node('box',E(),s.t(n.T))
        if o=='pbox': return s.node('pbox',E(),s.t(n.T))
        if o in('unbox','dcast'): return s.node(o,E(),s.t(n.T),s.t(n.ty))
        if o=='typeis': return s.node('typeis',E(),s.t(n.T))
        if o=='vcall': return s.node('vcall',E(),s.method(getattr(n,'key',n.mname)),0 if k[0].ty is AUTOREF else s.t(k[0].ty.to))
        if o=='toaa': return s.node('toaa',E(),s.t(n.T))
        if o in('aai','aasize','reset'): return s.node(o,E())
        if o=='fromaa': return s.node('fromaa',E(),s.t(n.T),s.t(n.ty))
        if o=='fromaan': return s.node('fromaan',E(),s.t(n.T),s.t(n.ty),n.ty.n)
        if o=='throw': return s.node('throw',[],'msg:'+n.text)
        if o=='asrt': return s.node('asrt',E(),'msg:'+n.text if n.text else 'assert')
        if o=='throwo': return s.node('throwo',E())
        if o=='rethrow': return s.node('rethrow',E())
        if o=='evm': return s.node('evm',E())
        if o=='glist': return s.node('glist',E(),s.t(n.ty),s.t(n.ty.elem))
        if o=='text': return s.ex(k[0],fn)
        if o in('lam','short'): return s.node('clo',[],s.t(n.ty),s.func(n.f),s.caps(n.f,fn))
        raise Exception('ex '+o)
    def closing(s,stmts):
        out=[]
        for x in stmts:
            if x.op=='dcl' and x.var.captured and not x.var.glob: out.append(s.var_index(x.var))
            if x.op=='fdef' and x.f.var is not None and x.f.var.captured and not x.f.var.glob: out.append(s.var_index(x.f.var))
        return out
    def stmt(s,n,fn):
        o=n.op; k=n.kids
        if o=='x': return s.node('x',[s.ex(k[0],fn)])
        if o=='blk': return s.node('blk',[s.stmt(x,fn) for x in k],s.closing(k))
        if o=='dcl': return s.dcl(n.var,[s.ex(x,fn) for x in k])
        if o=='if': return s.node('if',[s.ex(k[0],fn)]+[s.stmt(x,fn) for x in k[1:]])
        if o in('while','do'): return s.node(o,[s.ex(k[0],fn),s.stmt(k[1],fn)])
        if o=='for': return s.node('for',[s.stmt(k[0],fn),s.ex(k[1],fn),s.stmt(k[2],fn),s.stmt(k[3],fn)],s.closing(k[0].kids if k[0].op=='blk' else [k[0]]))
        if o=='sw': return s.node('sw',[s.ex(k[0],fn)],[[['c',val(c.ty,c.v)] if c is not None else ['d',[0,0]],s.stmt(b,fn)] for c,b in n.cases])
        if o=='foreach': return s.stmt(n.low,fn)
        if o=='try':
            vs=[]
            for q in n.vars:
                vs.append([('g' if q.glob else 'l'),s.var_index(q)]+[s.t(q.ty)] if q else [])
            return s.node('try',[s.ex(k[0],fn),s.stmt(k[1],fn),s.stmt(k[2],fn)],*vs)
        if o in('brk','cnt'): return s.node(o,[],n.n)
        if o=='ret': return s.node('ret',[s.ex(x,fn) for x in k],s.t(fn.ret) if fn is not None and k else 0)
        if o=='yld': return s.node('yld',[s.ex(x,fn) for x in k],s.t(fn.ret) if k else 0)
        if o=='fdef':
            if n.f.var is None:
                s.func(n.f); return s.node('blk',[],[])
            i=s.func(n.f)
            return s.dcl(n.f.var,[s.node('clo',[],s.t(n.f.var.ty),i,s.caps(n.f,fn))])
        if o=='raw': return s.node('blk',[],[])
        raise Exception('stmt '+o)
    def dcl(s,v,init):
        return s.node('dcl',init,s.t(v.ty),'g' if v.glob else 'l',s.var_index(v),int(v.captured))
def emit(main):
    """main: blk node of the global code"""
    e=Emit(); top=TOP
    e.scan(main,top)
    x=e.stmt(main,top)
    names=['msg:'+n for n in sorted(T,key=T.get)]+['']*(len(e.tl)-12)
    for st in STRUCTS_OF(e): names[e.t(st)-1]='msg:'+st.name
    vt=[]
    done=0
    while True:                       # method bodies may mention further types and methods
        before=(len(e.methods),len(e.tl),len([f for f in e.fns if f]))
        vt=[]
        for mn in list(e.methods):
            row=[]
            for st in [None]*12+[e.bynum.get(q+1) for q in range(12,len(e.tl))]:
                c=st; f=None
                while c is not None and f is None: f=c.methods.get(mn); c=c.base
                row.append(e.func(f) if f else 0)
            vt.append(row)
        if before==(len(e.methods),len(e.tl),len([f for f in e.fns if f])): break
    names+=['']*(len(e.tl)-len(names))
    return dict(names=names,vt=vt,types=e.tl,nodes=e.nodes,fns=e.fns,gl=e.gl,main=x,nvar=max(1,len(e.vars)))
def foreach(name,fn,its,body):
    """for(x in a, y in g) body: the loop written out with hidden variables. its: [dict(var, e)]; e is an array or a coroutine"""
    init=[]; cond=None; inc=[]; pre=[]
    for q in its:
        v=q['var']; e=q['e']
        if e.ty.kind=='f':
            g=Var(name('hg'),e.ty,fn); rd=lambda g=g: N('var',g.ty,var=g)
            init+=[N('dcl',None,e,var=g),N('dcl',None,N('callf',e.ty.ret,rd()),var=v)]
            c=N('not',BOOL,N('reset',BOOL,rd()))
            inc.append(N('x',None,N('asg',v.ty,N('var',v.ty,var=v),N('callf',e.ty.ret,rd()))))
        else:
            i=Var(name('hi'),INT,fn); v.via=Var(name('hr'),Ref(e.ty.elem),fn); rd=lambda i=i: N('var',INT,var=i)
            init.append(N('dcl',None,N('k',INT,v=0),var=i))
            src=e
            if e.op not in('var','m'):                    # evaluated once
                h=Var(name('ha'),e.ty,fn); init.append(N('dcl',None,e,var=h)); src=N('var',h.ty,var=h)
            c=N('bin',BOOL,rd(),N('size',INT,src),o='<')
            inc.append(N('x',None,N('inc',INT,rd(),d=1,pre=True)))
            el=N('i',e.ty.elem,src,rd(),n=e.ty.n) if e.ty.kind=='a' else N('ui',e.ty.elem,src,rd())
            pre.append(N('dcl',None,N('addr',Ref(e.ty.elem),el),var=v.via))
        cond=c if cond is None else N('and',BOOL,cond,c)
    low=N('for',None,N('blk',None,*init,bare=True),cond,N('blk',None,*inc,bare=True),N('blk',None,*pre,body,bare=True))
    return N('foreach',None,its=[dict(name=q['var'].name,e=q['e'],ty=q.get('ty')) for q in its],body=body,low=low)
def STRUCTS_OF(e): return list(e.bynum.values())
TOP=None
def source(main,head='import verif;\n'):
    return head+''.join(Sb(x,0) for x in main.kids)
