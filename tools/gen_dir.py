"""Directed families: exhaustive small-scope enumerations of program shapes (control nests, jumps, closures, aliases)."""
import sys,os,itertools
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from lang import *
import lang
from gen import EV,ID,TR
def k(t,v): return N('k',t,v=v)
def i(v): return k(INT,v)
def v(x): return N('var',x.ty,var=x)
def x(e): return N('x',None,e)
def blk(*s,bare=False): return N('blk',None,*[q for q in s if q is not None],bare=bare)
def ev(e,t=None):
    t=t or e.ty; n,kd=EV[t]; return x(N('ev',VOID,e,name=n,kind=kd,pty=t))
def dcl(var,e=None): return N('dcl',None,*([e] if e is not None else []),var=var)
def asg(p,e): return x(N('asg',p.ty,p,e))
def bop(o,a,b,t=INT): return N('bin',t,a,b,o=o)
def iff(c,a,b=None): return N('if',None,c,a,*([b] if b else []))
def call(f,*a): return N('call',f.ret,*a,f=f)
def idi(e): return N('id',INT,e,name='idi')
def tri(e): return N('ev',INT,e,name='tri',kind='i',pty=INT)
def ret(*e): return N('ret',None,*e)
def case(id,*st,structs=(),imports=()):
    import machine as M
    m=N('blk',None,*st,bare=True)
    head='import verif;\n'+''.join('import %s;\n'%q for q in imports)
    for s in structs: head+='class %s\n{\n%s}\n'%(s.name,''.join('\t%s %s;\n'%(t.name,n) for n,t in s.members))
    return M.Case(id,source(m,head),lang.emit(m))
class Names:
    def __init__(s): s.n=0
    def __call__(s,p): s.n+=1; return '%s_%d'%(p,s.n)
def func(nm,name,ret_,params=(),outer=None):
    f=Func(nm(name),ret_,list(params),outer=outer); f.fn_static=outer is None; return f
def setbody(f,*st): f.body=blk(*st,bare=True); return N('fdef',None,f=f)

# ------------------------------------------------------------------ nests of control statements with a jump inside
KINDS=['for','while','do','sw','blk','if']
LOOPS=('for','while','do')
def jumps(nest):
    """jump statements that are legal in the innermost position"""
    nb=sum(q in LOOPS or q=='sw' for q in nest); nc=sum(q in LOOPS for q in nest)
    return [('brk',n) for n in range(1,nb+1)]+[('cnt',n) for n in range(1,nc+1)]+[('ret',0)]
def wrap(nm,f,kind,body,lim,cond=None,depth=0):
    """statements that run body inside a control statement; cond: when the loop variable makes the inner statement act"""
    if kind=='for':
        q=Var(nm('i'),INT,f); q.loop=True
        return [N('for',None,dcl(q,i(0)),bop('<',v(q),i(lim),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),body(q)),ev(i(200+depth))]
    if kind=='while':
        q=Var(nm('w'),INT,f)
        return [dcl(q,i(lim)),N('while',None,bop('>',N('inc',INT,v(q),d=-1,pre=False),i(0),BOOL),body(q)),ev(v(q))]
    if kind=='do':
        q=Var(nm('d'),INT,f)
        return [dcl(q,i(0)),N('do',None,bop('<',N('inc',INT,v(q),d=1,pre=True),i(lim),BOOL),body(q)),ev(v(q))]
    if kind=='sw':
        q=Var(nm('s'),INT,f)
        return [dcl(q,i(1)),N('sw',None,v(q),cases=[(i(0),blk(ev(i(90)),bare=True)),(i(1),blk(body(q),bare=True)),(i(2),blk(ev(i(92+depth)),bare=True)),(None,blk(blk(ev(i(93))),bare=True))]),ev(i(300+depth))]
    if kind=='if':
        q=Var(nm('c'),INT,f)
        return [dcl(q,i(1)),iff(bop('!=',v(q),i(0),BOOL),body(q),blk(ev(i(94))))]
    q=Var(nm('b'),INT,f)
    return [dcl(q,i(1)),body(q)]
def nest_function(nm,nest,jump,closures=None):
    """int f(int n): the nest; the jump is taken when the counter of its position reaches n"""
    n=Var(nm('n'),INT,None); f=func(nm,'f',INT,[n]); cnt=Var(nm('cnt'),INT,f)
    def level(d):
        if d==len(nest):
            j=N('brk',None,n=jump[1]) if jump[0]=='brk' else N('cnt',None,n=jump[1]) if jump[0]=='cnt' else ret(bop('+',i(1000),v(cnt)))
            st=[x(N('inc',INT,v(cnt),d=1,pre=False)),ev(bop('+',bop('*',v(cnt),i(10)),i(d))),iff(bop('==',v(cnt),v(n),BOOL),blk(j)),ev(bop('+',i(500),v(cnt)))]
            return st
        def body(q):
            st=[]
            if closures: st+=closures.enter(f,d,q)
            st+=level(d+1)
            if closures: st+=closures.leave(f,d,q)
            else: st.append(ev(i(100+d)))
            return blk(*st)
        return wrap(nm,f,nest[d],body,3 if d<2 else 2,depth=d)
    st=[dcl(cnt,i(0))]
    if closures: st+=closures.start(f,n)
    st+=level(0)
    if closures: st+=closures.end(f)
    return f,setbody(f,*st,ret(v(cnt)))
def nests(maxd):
    for d in range(1,maxd+1):
        for q in itertools.product(KINDS,repeat=d):
            if q[-1] in('blk','if') and d>1: continue           # the jump itself stands in an if block
            if any(a in('blk','if') and b in('blk','if') for a,b in zip(q,q[1:])): continue
            if any(z in LOOPS or z=='sw' for z in q): yield q
def jump_cases(maxd=3,tag='jump',pick=lambda q: True):
    out=[]
    for q in nests(maxd):
        if not pick(q): continue
        nm=Names(); st=[]; calls=[]
        for j in jumps(q):
            f,d=nest_function(nm,q,j); st.append(d)
            for n in (1,2,4): calls.append(ev(call(f,i(n))))
        out.append(case('%s-%s'%(tag,'.'.join(q)),*st,*calls))
    return out
class Closures:
    """closures made at every level of a nest capture the variables of all enclosing levels; they are called inside the scopes,
    after the jump and after other calls have reused the frame"""
    def __init__(s,nm,mode): s.nm=nm; s.mode=mode; s.T=Fn(INT,[INT]); s.keep=[Var(nm('keep'),s.T,None,glob=True) for _ in range(4)]; s.vars=[]
    def lam(s,f,d):
        p=Var(s.nm('p'),INT,None); g=Func(s.nm('lam'),INT,[p],outer=f); g.fn_static=False
        st=[]; tot=v(p)
        for q in s.vars:
            st.append(asg(v(q),bop('+',v(q),v(p)))); tot=bop('+',bop('*',tot,i(3)),v(q))
        g.body=blk(*st,ret(tot),bare=True)
        pr=lambda: 'int %s(int %s){ %s}'%(g.name,p.name,Sb(g.body,0).replace('\n',' '))
        return N('lam',s.T,f=g,printer=pr)
    def start(s,f,n):
        a=Var(s.nm('a'),INT,f); s.vars=[n,a]
        return [dcl(a,i(7))]+([asg(v(s.keep[0]),s.lam(f,-1))] if s.mode!='inner' else [])
    def enter(s,f,d,q):
        a=Var(s.nm('a'),INT,f); st=[dcl(a,bop('*',v(q),i(10)))]
        s.vars=s.vars+[a]+([q] if s.mode=='loopvar' and not q.loop else [])
        if s.mode=='all' or d==s.deep-1: st.append(asg(v(s.keep[min(3,d+1)]),s.lam(f,d)))
        if s.mode=='all': st.append(asg(v(a),bop('+',v(a),i(1))))
        return st
    def leave(s,f,d,q):
        st=[ev(N('callf',INT,v(s.keep[min(3,s.deep)]),i(1)))] if d==s.deep-1 else []
        s.vars=[z for z in s.vars if z is not q]
        a=s.vars[-1]; s.vars=s.vars[:-1]
        st.append(ev(v(a)))
        return st
    def end(s,f): return [ev(z) for z in map(v,s.vars)]
def closure_cases(maxd=3,tag='clojump',modes=('all','inner','loopvar'),pick=lambda q: True):
    out=[]
    for q in nests(maxd):
        if not pick(q): continue
        for mode in modes:
            nm=Names(); c=Closures(nm,mode); c.deep=len(q); st=[dcl(z) for z in c.keep]; calls=[]
            # a function that overwrites the part of the stack that was used
            p=Var(nm('p'),INT,None); cl=func(nm,'clobber',INT,[p]); loc=[Var(nm('l'),INT,cl) for _ in range(8)]
            st.append(setbody(cl,*[dcl(z,bop('+',v(p),i(1000+n))) for n,z in enumerate(loc)],ret(bop('+',v(loc[0]),v(loc[7])))))
            for j in jumps(q):
                f,d=nest_function(nm,q,j,c); st.append(d)
                for n in (1,3):
                    calls+=[ev(call(f,i(n))),ev(call(cl,i(n)))]
                    for z in c.keep[:min(4,c.deep+1)]:
                        calls.append(iff(N('peq',BOOL,v(z),N('k',NULLT,text='nullptr',val=[9,0],v=0),o='!='),blk(ev(N('callf',INT,v(z),i(2))),ev(call(cl,i(5))),ev(N('callf',INT,v(z),i(3))))))
            out.append(case('%s-%s-%s'%(tag,'.'.join(q),mode),*st,*calls))
    return out

# ------------------------------------------------------------------ aliases: write one place, read others
def val_of(t,n):
    """distinct value number n of a numeric type"""
    if t is BOOL: return n%2
    if t is CHAR: return (n*37+5)%256-128
    if t is SHORT: return (n*9377+11)%65536-32768
    if t is INT: return (n*1000003+17)%(2**32)-2**31
    if t is LONG: return (n*1000000007000003+12345)%(2**64)-2**63
    return (n*8+1)/8.0
def lref(p): return N('*' if p.ty.to.kind!='s' else 'dm',p.ty.to,p,raw=False)
def mem(p,idx,st): return N('m',st.members[idx][1],p,i=idx,ty_s=st)
def alias_cases(tag='alias',types=None,full=True):
    out=[]
    S2=Struct('SA',[('x',INT),('y',INT)]); S5=Struct('SB',[('q',CHAR),('x',INT),('y',SHORT),('z',LONG),('w',INT)]); S3=Struct('SC',[('x',CHAR),('y',SHORT)]); SF=Struct('SD',[('x',FLOAT)])
    named=[('char',CHAR),('short',SHORT),('int',INT),('long',LONG),('float',FLOAT),('double',DOUBLE),('bool',BOOL),('S2',S2),('S5',S5),('S3',S3),('SF',SF),('arr',Arr(INT,3)),('carr',Arr(CHAR,4))]
    for tn,T_ in named:
        if types and tn not in types: continue
        nplaces=12
        for first in range(nplaces):
            nm=Names(); cnt=[0]
            H=Struct('SH',[('a',CHAR),('u',T_),('b',INT),('v',T_)])
            structs=([T_] if T_.kind=='s' else [])+[H]
            g=Var(nm('g'),T_,None,glob=True); gh=Var(nm('gh'),H,None,glob=True); ga=Var(nm('ga'),Arr(T_,4),None,glob=True) if T_.kind!='a' else Var(nm('ga'),H,None,glob=True)
            st=[dcl(g),dcl(gh),dcl(ga)]
            mk=None
            if T_.kind in('s','a'):
                q=Var(nm('p'),INT,None); mk=func(nm,'mk',T_,[q]); r=Var(nm('r'),T_,mk); b=[dcl(r)]
                if T_.kind=='s':
                    for z,(mn,mt) in enumerate(T_.members): b.append(asg(mem(v(r),z,T_),bop('+',v(q),i(z))))
                else:
                    for z in range(T_.n): b.append(asg(N('i',T_.elem,v(r),i(z),n=T_.n),bop('+',v(q),i(z))))
                st.append(setbody(mk,*b,ret(v(r))))
            def value():
                cnt[0]+=1
                if mk: return call(mk,i(cnt[0]*7))
                c=k(T_,val_of(T_,cnt[0]))
                return N('id',T_,c,name=ID[T_]) if cnt[0]%3 else c
            def read(p):
                if T_.kind=='s': return [ev(mem(p(),z,T_)) for z in range(len(T_.members))]
                if T_.kind=='a': return [ev(N('i',T_.elem,p(),i(z),n=T_.n)) for z in (0,T_.n-1)]
                return [ev(p())]
            # int f(T ref rp, SH ref sp, int idx)
            rp=Var(nm('rp'),Ref(T_),None); sp=Var(nm('sp'),Ref(H),None); ix=Var(nm('ix'),INT,None)
            f=func(nm,'f',VOID,[rp,sp,ix])
            l=Var(nm('l'),T_,f); lh=Var(nm('lh'),H,f); la=Var(nm('la'),Arr(T_,4),f) if T_.kind!='a' else Var(nm('la'),H,f)
            lp=Var(nm('lp'),Ref(T_),f); lsp=Var(nm('lsp'),Ref(H),f)
            arr=T_.kind!='a'
            def el(a,idx): return (lambda: N('i',T_,v(a),idx,n=4)) if arr else (lambda: mem(v(a),1,H))
            P=[lambda: v(l),lambda: v(g),lambda: mem(v(lh),1,H),lambda: mem(v(lh),3,H),lambda: mem(v(gh),3,H),el(la,i(2)),el(la,v(ix)),el(ga,v(ix)),el(ga,i(1)),
               lambda: lref(v(rp)),lambda: mem(lref(v(sp)),1,H),lambda: lref(v(lp))]
            body=[dcl(l,value()),dcl(lh),dcl(la),dcl(lp,N('addr',Ref(T_),P[first]() if first not in(9,11) else v(l)))]
            for second in range(nplaces):
                p1,p2=P[first],P[second]
                body+=[asg(p1(),value())]+(read(p1) if second%2 else [])+[asg(p2(),value())]+read(p1)+([asg(p1(),p2())] if second%3==0 else [])+read(p2)
            st.append(setbody(f,*body))
            h2=Var(nm('h2'),H,None,glob=True); st.append(dcl(h2))
            for a,b,c_ in ((v(g),v(gh),1),(mem(v(gh),3,H),v(gh),2),((N('i',T_,v(ga),i(1),n=4) if arr else mem(v(ga),1,H)),v(h2),1)):
                st.append(x(call(f,N('addr',Ref(T_),a),N('addr',Ref(H),b),idi(i(c_)))))
            for z in (v(g),mem(v(gh),1,H),mem(v(gh),3,H)): st+=read(lambda: z)
            out.append(case('%s-%s-%d'%(tag,tn,first),*st,structs=structs))
    return out

# ------------------------------------------------------------------ functions that return references to their own variables (they outlive the call)
def retref_cases(tag='retref'):
    out=[]
    S=Struct('RA',[('q',CHAR),('x',INT),('z',LONG)])
    for tn,T_ in [('char',CHAR),('short',SHORT),('int',INT),('long',LONG),('float',FLOAT),('double',DOUBLE),('S',S)]:
        for shape in ('arg0','arg1','local','late','elem','last','member','pass','glob','carr','cond','nested','caller'):
            if shape in('member',) and T_.kind=='s': continue
            nm=Names(); H=Struct('RH',[('a',CHAR),('u',T_),('b',INT)]); structs=([T_] if T_.kind=='s' else [])+[H]; R=Ref(T_)
            cnt=[0]; st=[]; mk=None
            if T_.kind=='s':
                q=Var(nm('p'),INT,None); mk=func(nm,'mk',T_,[q]); r=Var(nm('r'),T_,mk)
                st.append(setbody(mk,dcl(r),*[asg(N('m',mt,v(r),i=z,ty_s=T_),bop('+',v(q),i(z))) for z,(mn,mt) in enumerate(T_.members)],ret(v(r))))
            def value():
                cnt[0]+=1
                return call(mk,i(cnt[0]*7)) if mk else N('id',T_,k(T_,val_of(T_,cnt[0])),name=ID[T_])
            def read(p):
                if T_.kind=='s': return [ev(N('m',mt,N('dm',T_,p,raw=False),i=z,ty_s=T_)) for z,(mn,mt) in enumerate(T_.members)]
                return [ev(N('*',T_,p,raw=False))]
            def write(p): return asg(N('dm' if T_.kind=='s' else '*',T_,p,raw=False),value())
            g=Var(nm('g'),T_,None,glob=True); st.append(dcl(g,value()))
            # junk(n): overwrites the frames the functions used
            jn=Var(nm('n'),INT,None); junk=func(nm,'junk',INT,[jn]); ja=Var(nm('ja'),Arr(INT,24),junk)
            jb=[dcl(ja)]+[asg(N('i',INT,v(ja),i(z),n=24),bop('+',v(jn),i(1000+z))) for z in (0,1,2,9)]
            jb+=[iff(bop('>',v(jn),i(1),BOOL),blk(x(call(junk,bop('-',v(jn),i(1)))))),ret(N('i',INT,v(ja),i(3),n=24))]
            st.append(setbody(junk,*jb))
            a=Var(nm('a'),T_,None); b=Var(nm('b'),T_,None); n=Var(nm('k'),INT,None); pr=Var(nm('pr'),R,None)
            f=func(nm,'f',R,[a,b,n,pr]); body=[]
            ad=lambda e: N('addr',R,e)
            if shape=='arg0': body=[ret(ad(v(a)))]
            elif shape=='arg1': body=[asg(v(b),v(a)) if T_.kind=='s' else asg(v(b),value()),ret(ad(v(b)))]
            elif shape=='local': l=Var(nm('l'),T_,f); body=[dcl(l,v(b)),ret(ad(v(l)))]
            elif shape=='late':
                l0=Var(nm('l0'),Arr(INT,9),f); l=Var(nm('l'),T_,f); body=[dcl(l0),asg(N('i',INT,v(l0),v(n),n=9),i(5)),blk(dcl(l,v(a)),ret(ad(v(l))))]
                body+=[ret(v(pr))]
            elif shape in('elem','last'):
                l=Var(nm('l'),Arr(T_,4),f); body=[dcl(l)]+[asg(N('i',T_,v(l),i(z),n=4),v(a) if z%2 else v(b)) for z in range(4)]+[ret(ad(N('i',T_,v(l),v(n) if shape=='elem' else i(3),n=4)))]
            elif shape=='member': l=Var(nm('l'),H,f); body=[dcl(l),asg(N('m',T_,v(l),i=1,ty_s=H),v(b)),ret(ad(N('m',T_,v(l),i=1,ty_s=H)))]
            elif shape in('pass','caller'): body=[asg(v(a),v(b)),ret(v(pr))]
            elif shape=='glob': body=[ret(ad(v(g)))]
            elif shape=='carr':
                l=Var(nm('l'),T_,f); p=Var(nm('p'),R,f); body=[dcl(l,v(a)),dcl(p,ad(v(l))),asg(N('dm' if T_.kind=='s' else '*',T_,v(p),raw=False),v(b)),ret(v(p))]
            elif shape=='cond':
                l=Var(nm('l'),T_,f); body=[dcl(l,v(a)),iff(bop('>',v(n),i(1),BOOL),blk(ret(ad(v(l)))),blk(ret(ad(v(b)))))]
            elif shape=='nested':
                a2=Var(nm('a2'),T_,None); f2=func(nm,'f2',R,[a2]); st.append(setbody(f2,ret(ad(v(a2)))))
                p=Var(nm('p'),R,f); body=[dcl(p,call(f2,v(b))),write(v(p)),ret(v(p))]
            st.append(setbody(f,*body))
            # use from a function and from global code
            o=func(nm,'use',INT,[Var(nm('w'),INT,None)]); loc=Var(nm('own'),T_,o); ps=[Var(nm('h'),R,o) for _ in range(3)]
            ub=[dcl(loc,value())]
            for z,p in enumerate(ps): ub+=[dcl(p,call(f,value(),value(),i(z+1),ad(v(loc)))),x(call(junk,i(2)))]+read(v(p))
            ub+=[write(v(ps[1])),x(call(junk,i(2)))]
            for p in ps: ub+=read(v(p))
            ub+=read(ad(v(loc)))+[asg(v(loc),value())]+read(v(ps[2]))+[ret(i(1))]
            st.append(setbody(o,*ub))
            st+=[x(call(o,i(0)))]+read(ad(v(g)))
            mp=[Var(nm('mp'),R,None,glob=True) for _ in range(2)]; mo=Var(nm('mo'),T_,None,glob=True); st.append(dcl(mo,value()))
            for p in mp: st+=[dcl(p,call(f,value(),value(),i(2),ad(v(mo)))),x(call(junk,i(2)))]+read(v(p))
            st+=[write(v(mp[0]))]+read(v(mp[0]))+read(v(mp[1]))+read(ad(v(g)))+read(ad(v(mo)))
            out.append(case('%s-%s-%s'%(tag,tn,shape),*st,structs=structs))
    return out
