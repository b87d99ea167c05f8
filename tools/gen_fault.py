"""Directed families of runtime faults: every kind of fault in every position, at several call depths (C08), also inside protected calls (C11)."""
import itertools
from gen_dir import *
import gen_co as CO
AR=lambda t: AUTOREF
def nullk(): return N('k',NULLT,text='nullptr',val=[9,0],v=0)
def lam(nm,f,ret_,params,st,name='lam',co=False):
    g=Func(nm(name),ret_,list(params),outer=f,co=co); g.fn_static=False; g.body=blk(*st,bare=True)
    def pr(): return '%s%s %s(%s){ %s}'%('coroutine ' if co else '',ret_.name,g.name,', '.join('%s %s'%(p.ty.name,p.name) for p in params),''.join(Sb(q,0) for q in st).replace('\n',' ').replace('\t',' '))
    return N('lam',Fn(ret_,[p.ty for p in params]),f=g,printer=pr)
SF_=Struct('SF',[('a',INT),('b',CHAR),('c',LONG),('d',DOUBLE),('q',Arr(INT,3))]); SG_=Struct('SG',[('z',INT)])
SB_=Struct('KB',[('x',INT)],ext=True); SD_=Struct('KD',[('x',INT),('y',INT)],base=SB_,ext=True)
SF_.text='class SF\n{\n\tint a;\n\tchar b;\n\tlong c;\n\tdouble d;\n\tint[3] q;\n}\n'
STRUCTS='class SF\n{\n\tint a;\n\tchar b;\n\tlong c;\n\tdouble d;\n\tint[3] q;\n}\nclass SG\n{\n\tint z;\n}\nclass KB extendable\n{\n\tint x;\n}\nclass KD : KB\n{\n\tint y;\n}\n'
def fcase(id,st,imports=('std.error',)):
    import machine as M
    m=N('blk',None,*st,bare=True)
    return M.Case(id,source(m,'import verif;\n'+''.join('import %s;\n'%q for q in imports)+STRUCTS),lang.emit(m))
def box(e): return N('box',AUTOREF,e,T=e.ty,cast='%s')
class Kit:
    """global variables used by the fault expressions"""
    def __init__(s,nm):
        s.nm=nm; g=lambda p,t: Var(nm(p),t,None,glob=True)
        s.arr=g('ar',Arr(INT,4)); s.uarr=g('ua',UArr(INT)); s.uz=g('uz',UArr(INT)); s.ca=g('ca',Arr(CHAR,3)); s.da=g('da',Arr(DOUBLE,2)); s.sa=g('sa',Arr(SF_,2)); s.us=g('us',UArr(SF_))
        s.p=g('p',Ref(SF_)); s.ip=g('ip',Ref(INT)); s.lp=g('lp',Ref(LONG)); s.dp=g('dp',Ref(DOUBLE)); s.cp=g('cp',Ref(CHAR)); s.bp=g('bp',Ref(SB_)); s.ap=g('ap',Ref(Arr(INT,3)))
        s.fn=g('fv',Fn(INT,[INT])); s.fz=g('fz',Fn(INT,[])); s.z=g('z',INT); s.zl=g('zl',LONG); s.r0=g('r0',AUTOREF); s.r1=g('r1',AUTOREF); s.aa=g('aa',AUTOARR)
        n=Var(nm('n'),INT,None); s.noret=func(nm,'noret',INT,[n])
        m=Var(nm('m'),INT,None); s.over=func(nm,'over',INT,[m])
        q=Var(nm('q'),INT,None); s.alloc=func(nm,'alloc',INT,[q]); ql=Var(nm('ql'),UArr(INT),s.alloc)
        s.decls=[dcl(x_) for x_ in (s.arr,s.uz,s.ca,s.da,s.sa,s.p,s.ip,s.lp,s.dp,s.cp,s.bp,s.ap,s.fn,s.fz,s.z,s.zl,s.r0)]+[dcl(s.uarr,N('newa',UArr(INT),i(3),elem=INT)),dcl(s.us,N('newa',UArr(SF_),i(2),elem=SF_)),dcl(s.r1,box(i(5))),dcl(s.aa)]
        s.decls+=[setbody(s.noret,iff(bop('==',v(n),i(12345),BOOL),blk(ret(i(1)))),ev(v(n))),
                  setbody(s.over,ret(bop('+',call(s.over,bop('+',v(m),i(1))),i(1)))),
                  setbody(s.alloc,dcl(ql,N('newa',UArr(INT),v(q),elem=INT)),ret(N('size',INT,v(ql))))]
    def kinds(s):
        """{name: expression that faults}; each is an int whose value is used"""
        a=s; ix=lambda arr,e: N('i',arr.ty.elem,v(arr),e,n=arr.ty.n); ui=lambda arr,e: N('ui',arr.ty.elem,v(arr),e)
        num=lambda e: e if e.ty is INT else N('cast',INT,e)
        m_=lambda p,n: mem(N('dm',SF_,v(p)),n,SF_)
        D={'oob':lambda: ix(a.arr,idi(i(4))),'oobneg':lambda: ix(a.arr,idi(i(-1))),'oobbig':lambda: ix(a.arr,idi(i(2**31-1))),'oobmin':lambda: ix(a.arr,idi(i(-2**31))),
           'ooball':lambda: ix(a.arr,bop('+',v(a.z),i(4))),'oobc':lambda: num(ix(a.ca,idi(i(3)))),'oobd':lambda: num(ix(a.da,idi(i(2)))),'oobs':lambda: mem(ix(a.sa,idi(i(2))),0,SF_),'oobq':lambda: ix2(a),
           'uoob':lambda: ui(a.uarr,idi(i(3))),'uoobneg':lambda: ui(a.uarr,idi(i(-1))),'uempty':lambda: ui(a.uz,idi(i(0))),'uoobs':lambda: mem(ui(a.us,idi(i(2))),0,SF_),
           'oobasg':lambda: N('asg',INT,ix(a.arr,idi(i(9))),idi(i(3))),'oobinc':lambda: N('inc',INT,ix(a.arr,idi(i(4))),d=1,pre=True),'uoobcmp':lambda: N('cmp',INT,ui(a.uarr,idi(i(5))),idi(i(2)),o='+'),
           'nullm':lambda: m_(a.p,0),'nullc':lambda: num(m_(a.p,1)),'nulll':lambda: num(m_(a.p,2)),'nulld':lambda: num(m_(a.p,3)),'nullq':lambda: N('i',INT,m_(a.p,4),idi(i(1)),n=3),
           'nulli':lambda: N('*',INT,v(a.ip),raw=False),'nullL':lambda: num(N('*',LONG,v(a.lp),raw=False)),'nullD':lambda: num(N('*',DOUBLE,v(a.dp),raw=False)),'nullC':lambda: num(N('*',CHAR,v(a.cp),raw=False)),
           'nullmasg':lambda: N('asg',INT,m_(a.p,0),idi(i(3))),'nullcasg':lambda: num(N('asg',CHAR,m_(a.p,1),i(3))),'nulldasg':lambda: num(N('asg',DOUBLE,m_(a.p,3),idi(i(3)))),'nullmcmp':lambda: N('cmp',INT,m_(a.p,0),idi(i(3)),o='+'),'nullminc':lambda: N('inc',INT,m_(a.p,0),d=-1,pre=False),
           'nulliasg':lambda: N('asg',INT,N('*',INT,v(a.ip),raw=False),idi(i(7))),
           'div':lambda: bop('/',idi(i(7)),v(a.z)),'mod':lambda: bop('%',idi(i(7)),v(a.z)),'divl':lambda: num(bop('/',idi(i(7)),v(a.zl),LONG)),'modl':lambda: num(bop('%',k(LONG,2**40),v(a.zl),LONG)),
           'ovf':lambda: bop('/',idi(i(-2**31)),bop('-',v(a.z),i(1))),'ovfm':lambda: bop('%',idi(i(-2**31)),bop('-',v(a.z),i(1))),'ovfl':lambda: num(bop('/',N('id',LONG,k(LONG,-2**63),name='idl'),bop('-',v(a.zl),k(LONG,1),LONG),LONG)),
           'divcmp':lambda: N('cmp',INT,v(a.z),v(a.z),o='/'),
           'nullcall':lambda: N('callf',INT,v(a.fn),idi(i(1))),'nullcall0':lambda: N('callf',INT,v(a.fz)),
           'noret':lambda: call(a.noret,i(3)),'over':lambda: call(a.over,i(1)),'allocneg':lambda: call(a.alloc,idi(i(-1))),'alloc':lambda: call(a.alloc,idi(i(2000000000))),
           'castarr':lambda: N('*',INT,N('unbox',Ref(INT),N('box',AUTOREF,k(DOUBLE,1.5),T=DOUBLE),T=INT,cast='%s'),raw=True) if False else unb(a.r0),
           'castint':lambda: unb(a.r1,SG_)}
        return D
def ix2(a): return N('i',INT,mem(N('i',SF_,v(a.sa),i(1),n=2),4,SF_),idi(i(3)),n=3)
def unb(r,T_=None):
    """reads an auto ref as a reference: int(...) or SG ref"""
    if T_ is None: return N('*',INT,N('unbox',Ref(INT),v(r),T=INT,cast='int ref(%s)'),raw=False)
    return mem(N('dm',T_,N('unbox',Ref(T_),v(r),T=T_,cast=T_.name+' ref(%s)')),0,T_)
STMTK={'throw':lambda: x(N('throw',VOID,text='boom')),'hthrow':lambda: x(N('throw',VOID,text='host boom',fname='hthrow')),'assert':lambda: x(N('asrt',VOID,bop('==',idi(i(1)),i(2),BOOL),text='')),'assertm':lambda: x(N('asrt',VOID,bop('>',idi(i(1)),i(2),BOOL),text='note')),
       'throwo':None}
def contexts(nm,kit):
    """[(name, function(fault expression or statement) -> (definitions, statements))]: where the fault happens"""
    def use(e): return ev(e) if e.op!='x' else e
    C=[]
    def add(n,f): C.append((n,f))
    add('main',lambda e: ([],[ev(i(1)),use(e()),ev(i(2))]))
    def infn(e):
        f=func(nm,'f',INT); l=Var(nm('l'),INT,f)
        return [setbody(f,dcl(l,i(3)),ev(v(l)),use(e()),ev(i(4)),ret(v(l)))],[ev(i(1)),ev(call(f)),ev(i(2))]
    add('fn',infn)
    def deep(e):
        fs=[]; d=[]
        for q in range(4):
            a=Var(nm('a'),INT,None); f=func(nm,'f',INT,[a]); l=Var(nm('l'),LONG if q%2 else INT,f)
            d.append(setbody(f,dcl(l,bop('+',v(a),i(q))),ev(v(l)),*([use(e())] if q==0 else [ev(call(fs[-1],bop('+',v(a),i(10))))]),ev(i(20+q)),ret(v(a)))); fs.append(f)
        return d,[ev(i(1)),ev(call(fs[-1],idi(i(1)))),ev(i(2))]
    add('deep',deep)
    def loop(e):
        f=func(nm,'f',INT,[Var(nm('a'),INT,None)]); q=Var(nm('q'),INT,f); q.loop=True
        return [setbody(f,N('for',None,dcl(q,i(0)),bop('<',v(q),i(3),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(ev(v(q)),iff(bop('==',v(q),v(f.params[0]),BOOL),blk(use(e()),ev(i(30)))))),ret(v(f.params[0])))],[ev(call(f,i(1))),ev(i(2))]
    add('loop',loop)
    def arg(e):
        f=func(nm,'f',INT,[Var(nm('a'),INT,None),Var(nm('b'),INT,None),Var(nm('c'),INT,None)])
        ex=e()
        if ex.op=='x': return None
        return [setbody(f,ev(i(40)),ret(v(f.params[1])))],[ev(call(f,tri(i(1)),ex,tri(i(3)))),ev(i(2))]
    add('arg',arg)
    def expr(e):
        ex=e()
        if ex.op=='x': return None
        f=func(nm,'f',INT); 
        return [setbody(f,ret(bop('+',bop('*',tri(i(2)),e()),tri(i(5)))))],[ev(bop('+',tri(i(1)),call(f))),ev(i(2))]
    add('expr',expr)
    def cond(e):
        ex=e()
        if ex.op=='x': return None
        f=func(nm,'f',INT)
        return [setbody(f,iff(bop('>',e(),i(0),BOOL),blk(ev(i(5))),blk(ev(i(6)))),N('while',None,bop('!=',e(),i(0),BOOL),blk(ev(i(7)))),ret(i(1)))],[ev(call(f)),ev(i(2))]
    add('cond',cond)
    def clo(e):
        f=func(nm,'f',INT); l=Var(nm('l'),INT,f); g=Var(nm('g'),Fn(INT,[]),f)
        return [setbody(f,dcl(l,i(50)),dcl(g,lam(nm,f,INT,[],[x(N('cmp',INT,v(l),i(1),o='+')),ev(v(l)),use(e()),ev(i(51)),ret(v(l))])),ev(N('callf',INT,v(g))),ev(i(52)),ret(v(l)))],[ev(call(f)),ev(i(2))]
    add('closure',clo)
    def co(e):
        f=CO.cfn(nm,'co',INT); l=Var(nm('l'),INT,f)
        return [setbody(f,dcl(l,i(60)),CO.yld(v(l)),x(N('cmp',INT,v(l),i(1),o='+')),use(e()),ev(i(61)),CO.yld(v(l)),ret(i(3)))],[ev(CO.cv(f)),ev(CO.cv(f)),ev(CO.cv(f)),ev(i(2))]
    add('coroutine',co)
    def rec(e):
        a=Var(nm('a'),INT,None); f=func(nm,'f',INT,[a]); l=Var(nm('l'),Arr(INT,8),f)
        return [setbody(f,dcl(l),ev(v(a)),iff(bop('==',v(a),i(0),BOOL),blk(use(e()),ret(i(9)))),ret(bop('+',call(f,bop('-',v(a),i(1))),N('i',INT,v(l),i(3),n=8))))],[ev(call(f,i(5))),ev(i(2))]
    add('rec',rec)
    return C
def fault_cases(tag='fault'):
    out=[]
    nm0=Names(); names=list(Kit(nm0).kinds())+[q for q in STMTK if STMTK[q]]
    cn=[c for c,_ in contexts(nm0,None)]
    for kd in names:
        for ci,c in enumerate(cn):
            nm=Names(); kit=Kit(nm); e=kit.kinds().get(kd) or STMTK[kd]
            r=contexts(nm,kit)[ci][1](e)
            if r is None: continue
            out.append(fcase('%s-%s-%s'%(tag,kd,c),kit.decls+r[0]+r[1]))
    return out
def normal_cases(n=12,tag='normal'):
    """programs that need a healthy process: recursion, allocation, closures, coroutines, arrays"""
    out=[]
    for z in range(n):
        nm=Names(); kit=Kit(nm)
        a=Var(nm('a'),INT,None); f=func(nm,'f',INT,[a]); l=Var(nm('l'),Arr(INT,6),f)
        st=kit.decls+[setbody(f,dcl(l),asg(N('i',INT,v(l),i(z%6),n=6),v(a)),iff(bop('<=',v(a),i(0),BOOL),blk(ret(i(z)))),ret(bop('+',call(f,bop('-',v(a),i(1))),N('i',INT,v(l),i(z%6),n=6))))]
        g=CO.cfn(nm,'g',INT); q=Var(nm('q'),INT,g); q.loop=True
        st+=[setbody(g,N('for',None,dcl(q,i(z)),bop('<',v(q),i(z+3),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(CO.yld(v(q)))),ret(i(-1)))]
        st+=[ev(call(f,i(20+z))),asg(N('*',INT,v(kit.ip),raw=False),i(1)) if False else ev(v(kit.z)),ev(CO.cv(g)),ev(CO.cv(g)),ev(N('size',INT,v(kit.uarr))),asg(N('i',INT,v(kit.arr),i(1),n=4),i(z)),ev(N('i',INT,v(kit.arr),i(1),n=4)),ev(call(kit.alloc,i(z+1))),ev(call(f,i(50)))]
        out.append(fcase('%s-%d'%(tag,z),st))
    return out
if __name__=='__main__':
    import sys
    for c in fault_cases()+normal_cases():
        if c.id in sys.argv[1:]: print(c.text)
