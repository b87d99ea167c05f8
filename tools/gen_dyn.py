"""Dynamically typed values and virtual calls (C07): class hierarchies, auto ref and auto[] variables, boxes, aliases, conversions, method calls through them."""
import itertools
from gen_try import *
import gen_try as GT
PRIM=[(INT,5),(LONG,2**37+1),(DOUBLE,2.5),(CHAR,7),(SHORT,-300),(FLOAT,1.5),(BOOL,1)]
SIG={'m0':([INT],INT),'m1':([INT,INT],INT),'m2':([LONG],LONG),'m3':([DOUBLE],DOUBLE),'m4':([],INT),'m0/2':([INT,LONG],INT)}
class World:
    """classes: a forest of extendable classes and plain classes with the same method names"""
    def __init__(s,R,shape,over,plain=2,types=(INT,LONG,CHAR,DOUBLE)):
        s.R=R; s.nm=Names(); s.cls=[]; s.decls=[]; s.head=[]
        for n,par in enumerate(shape):
            b=s.cls[par] if par is not None else None
            own=[('f%d'%n,R.choice(types))]+([('g%d'%n,R.choice(types))] if R.random()<.5 else [])
            c=Struct('K%d'%n,(list(b.members) if b else [])+own,base=b,ext=True); c.own=own; c.intro=s.ms(over,n)
            s.cls.append(c)
        s.plain=[]
        for n in range(plain):
            own=[('f%d'%n,R.choice(types)),('h%d'%n,R.choice(types))]
            c=Struct('P%d'%n,own); c.own=own; c.intro=s.ms(over,len(shape)+n); s.plain.append(c)
        for c in s.cls+s.plain:
            for key in c.intro: s.method(c,key)
            s.head.append(c)
    def ms(s,over,n): return over[n] if n<len(over) else []
    def all_methods(s,c): return set(c.methods)|(s.all_methods(c.base) if c.base else set())
    def method(s,c,key):
        R=s.R; par,rt=SIG[key]; this=Var('this',Ref(c),None); ps=[Var(s.nm('x'),t,None) for t in par]
        f=Func(key.split('/')[0],rt,[this]+ps); f.fn_static=True; f.fid=None
        me=lambda i_: mem(N('dm',c,v(this)),i_,c)
        idn=(s.cls+s.plain).index(c)*100+10*sorted(SIG).index(key)
        st=[ev(i(20000+idn))]
        nm=[q for q,(n,t) in enumerate(c.members) if t.num]
        if nm and R.random()<.7:
            q=R.choice(nm); t=c.members[q][1]; st.append(asg(me(q),N('cast',t,bop('+',me(q),i(1)) if t in(INT,CHAR,SHORT,BOOL) else bop('+',me(q),k(t,1),t))))
        if nm: q=R.choice(nm); st.append(ev(me(q),c.members[q][1]))
        # another virtual method of the same object, lower in order
        lower=[q for q in sorted(s.all_methods(c)) if q<key]
        if lower and R.random()<.4:
            k2=R.choice(lower); st.append(ev(N('vcall',SIG[k2][1],v(this),*[s.argv(t) for t in SIG[k2][0]],mname=k2.split('/')[0],key=k2)))
        elif lower and R.random()<.3:
            k2=R.choice(lower); z=Var(s.nm('self'),AUTOREF,f); st.append(dcl(z,N('pbox',AUTOREF,v(this),T=c,cast='%s'))); st.append(ev(N('vcall',SIG[k2][1],v(z),*[s.argv(t) for t in SIG[k2][0]],mname=k2.split('/')[0],key=k2)))
        st.append(ret(bop('+',v(ps[0]),k(rt,idn+1),rt) if ps and ps[0].ty is rt else k(rt,idn+1)))
        f.body=blk(*st,bare=True); c.methods[key]=f
    def argv(s,t): return k(t,s.R.randrange(1,50)) if t is not DOUBLE else k(t,s.R.randrange(1,50)/2)
    def text(s):
        t=''
        for c in s.head:
            t+='class %s%s%s\n{\n%s'%(c.name,' extendable' if c.ext else '',' : '+c.base.name if c.base else '',''.join('\t%s %s;\n'%(ty.name,n) for n,ty in c.own))
            for key,f in c.methods.items(): t+='\t%s %s(%s)\n\t{\n%s\t}\n'%(f.ret.name,f.name,', '.join('%s %s'%(p.ty.name,p.name) for p in f.params[1:]),''.join(Sb(q,2) for q in f.body.kids))
            t+='}\n'
        return t
    def case(s,id,st,split=False):
        import machine as M
        m=N('blk',None,*st,bare=True)
        src=source(m,''); spec=lang.emit(m); hd='import verif;\nimport std.error;\n'
        if split:
            return M.Case(id,'// module hier:\n// '+s.text().replace('\n','\n// ')+'\n'+hd+'import hier;\n'+src,spec,cmds=[['module','hier','import verif;\n'+s.text()],['buildrun',hd+'import hier;\n'+src]])
        return M.Case(id,hd+s.text()+src,spec)
def box_(e,T): return N('box',AUTOREF,e,T=T,cast='%s')
def pbox_(e,T): return N('pbox',AUTOREF,e,T=T,cast='%s')
def un(T,e): return N('unbox',Ref(T),e,T=T,cast=T.name+' ref(%s)')
class Dyn:
    def __init__(s,R,W):
        s.R=R; s.W=W; nm=W.nm; g=lambda p,t: Var(nm(p),t,None,glob=True); s.nm=nm; s.st=[]
        s.r=[g('r',AUTOREF) for _ in range(4)]
        s.refs=[(c,g('b',Ref(c))) for c in W.cls+W.plain]+[(c,g('b',Ref(c))) for c in W.cls]
        s.objs=[(c,g('o',c)) for c in W.plain+W.cls]
        s.prims=[(t,g('p',t)) for t,_ in PRIM]
        s.irs=[(t,g('q',Ref(t))) for t in (INT,DOUBLE)]
        s.uar=[(t,g('u',UArr(t))) for t in [INT,DOUBLE,CHAR]+W.plain]; s.aa=[g('aa',AUTOARR) for _ in range(2)]
        s.kar=g('ka',Arr(Ref(W.cls[0]),3)); s.rar=g('ra',Arr(AUTOREF,3))
        H=Struct('HH',[('a',CHAR),('r',AUTOREF),('b',INT)]); s.H=H; s.h=g('h',H)
        s.types=[t for t,_ in PRIM]+W.cls+W.plain+[Ref(INT),Ref(W.cls[0])]
        # helpers: type through parameters and results
        pr=Var(nm('ar'),AUTOREF,None); s.pass_=func(nm,'same',AUTOREF,[pr]); pb=Var(nm('br'),Ref(W.cls[0]),None); s.passb=func(nm,'base',Ref(W.cls[0]),[pb])
        s.st=[setbody(s.pass_,ret(v(pr))),setbody(s.passb,ret(v(pb)))]
        s.st+=[dcl(q) for q in s.r]+[dcl(q) for _,q in s.refs]+[dcl(q) for _,q in s.objs]+[dcl(q,k(t,dict(PRIM)[t])) for t,q in s.prims]+[dcl(q) for _,q in s.irs]
        s.st+=[dcl(q,N('newa',UArr(t),i(2+n%3),elem=t)) for n,(t,q) in enumerate(s.uar)]+[dcl(q) for q in s.aa]+[dcl(s.kar),dcl(s.rar),dcl(s.h)]
        for t,q in s.irs: s.st.append(asg(v(q),N('addr',Ref(t),v([p for z,p in s.prims if z is t][0]))))
        for n,(c,o) in enumerate(s.objs): s.st+=s.fill(v(o),c,n*10)
        s.text=W.text; W0=W.text
        s.W.text=lambda: W0()+'class HH\n{\n\tchar a;\n\tauto ref r;\n\tint b;\n}\n'
    def fill(s,pl,c,n):
        return [asg(mem(pl,q,c),N('cast',t,i(n+q+1))) for q,(nm_,t) in enumerate(c.members) if t.num]
    def show(s,pl,c): return [ev(mem(pl,q,c),t) for q,(n_,t) in enumerate(c.members) if t.num]
    def ar(s):
        """an auto ref place"""
        R=s.R; z=R.random()
        if z<.65: return v(R.choice(s.r))
        if z<.8: return N('i',AUTOREF,v(s.rar),i(R.randrange(3)),n=3)
        return mem(v(s.h),1,s.H)
    def are(s):
        R=s.R; z=R.random()
        if z<.75: return s.ar()
        if z<.9: return call(s.pass_,s.ar())
        return N('aai',AUTOREF,v(R.choice(s.aa)),idi(i(R.choice([0,0,1,1,2,3]))))
    def bref(s,c=None):
        R=s.R; cand=[(d,q) for d,q in s.refs if c is None or d is c]
        d,q=R.choice(cand)
        if d is s.W.cls[0] and R.random()<.3: return d,(N('i',Ref(d),v(s.kar),i(R.randrange(3)),n=3) if R.random()<.6 else call(s.passb,v(R.choice([q for e,q in s.refs if e is d]))))
        return d,v(q)
    def derived(s,c): return [d for d in s.W.cls if c in s.chain(d)]
    def chain(s,d):
        o=[]
        while d is not None: o.append(d); d=d.base
        return o
    def safe(s,st):
        """in a protected call: the effect of the error is shown"""
        return tr(s.nm,None,lam(s.nm,None,INT,[],st+[ret(i(1))]),INT,lambda R: [ev(v(R['value']))],lambda R: [evm(R)])
    def showref(s,T,e):
        """reads an object of type T through a reference expression"""
        if T.kind=='s':
            z=Var(s.nm('z'),Ref(T),None)
            return z,[ev(mem(N('dm',T,v(z)),q,T),t) for q,(n_,t) in enumerate(T.members) if t.num]
    def op(s):
        R=s.R; W=s.W; o=R.choice(['rbox','rbox','rptr','rptr','rnew','rnew','copy','type','type','unbox','unbox','unbox','write','vr','vr','vr','vb','vb','vb','up','down','down','bnew','bnew','barr','aa','aa2','fromaa','null','mutate','passb'])
        if o=='rbox':
            t,q=R.choice(s.prims+s.objs[:len(W.plain)]); return [asg(s.ar(),box_(v(q),t))]
        if o=='rptr':
            t,q=R.choice(s.prims+s.objs+s.irs); t=q.ty
            return [asg(s.ar(),pbox_(N('addr',Ref(t),v(q)),t))]
        if o=='rnew':
            c=R.choice(W.cls+W.plain); d=[q for e,q in s.refs if e is c][0]
            return [asg(v(d),N('new',Ref(c),to=c))]+s.fill(N('dm',c,v(d)),c,R.randrange(50))+[asg(s.ar(),pbox_(v(d),c))]
        if o=='bnew':
            c=R.choice(W.cls); b=R.choice(s.chain(c)); q=R.choice([q for e,q in s.refs if e is b])
            z=[q for e,q in s.refs if e is c][0]
            return [asg(v(z),N('new',Ref(c),to=c))]+s.fill(N('dm',c,v(z)),c,R.randrange(50))+([asg(v(q),N('dcast',Ref(b),v(z),T=b,cast='%s') if b is not c else v(z))] if q is not z else [])
        if o=='barr':
            d,e=s.bref(R.choice(W.cls)); root=W.cls[0]
            if root not in s.chain(d): return []
            return [asg(N('i',Ref(root),v(s.kar),i(R.randrange(3)),n=3),e if d is root else N('dcast',Ref(root),e,T=root,cast='%s'))]
        if o=='passb':
            d,e=s.bref(R.choice(W.cls)); root=W.cls[0]
            if root not in s.chain(d): return []
            key=R.choice(sorted(W.all_methods(root)) or [None])
            if key is None: return []
            return [s.safe([ev(N('vcall',SIG[key][1],call(s.passb,e if d is root else N('dcast',Ref(root),e,T=root,cast='%s')),*[W.argv(t) for t in SIG[key][0]],mname=key.split('/')[0],key=key))])]
        if o=='copy': return [asg(s.ar(),s.are())]
        if o=='null': return [asg(s.ar(),nullk())] if R.random()<.5 else []
        if o=='type':
            e=s.ar()
            return [ev(N('typeis',BOOL,e,T=t)) for t in R.sample(s.types,3)]
        if o=='unbox':
            t=R.choice(s.types)
            if t.num: return [s.safe([ev(N('*',t,un(t,s.are()),raw=False),t)])]
            if t.kind=='r': return [s.safe([dcl(Var(s.nm('z'),Ref(t),None),un(t,s.ar()))])] if False else []
            f=None; z=Var(s.nm('z'),Ref(t),None)
            fn=Func(s.nm('lam'),INT,[],outer=None); 
            st=[dcl(z,un(t,s.are()))]+[ev(mem(N('dm',t,v(z)),q,t),y) for q,(n_,y) in enumerate(t.members) if y.num]
            return [s.safe2(z,st)]
        if o=='write':
            t=R.choice([t for t in s.types if t.num])
            return [s.safe([asg(N('*',t,un(t,s.ar()),raw=False),k(t,1) if t is BOOL else N('cast',t,i(R.randrange(100))))])]
        if o=='mutate':
            t,q=R.choice(s.prims); return [asg(v(q),k(t,1) if t is BOOL else N('cast',t,i(R.randrange(100)))),ev(v(q),t)]
        if o=='vr':
            key=R.choice(sorted(set(q for c in W.cls+W.plain for q in c.methods)))
            return [s.safe([ev(N('vcall',SIG[key][1],s.are(),*[W.argv(t) for t in SIG[key][0]],mname=key.split('/')[0],key=key))])]
        if o=='vb':
            d,e=s.bref(R.choice(W.cls))
            ms=sorted(W.all_methods(d))
            if not ms: return []
            key=R.choice(ms)
            return [s.safe([ev(N('vcall',SIG[key][1],e,*[W.argv(t) for t in SIG[key][0]],mname=key.split('/')[0],key=key))])]
        if o=='up':
            d,e=s.bref(R.choice(W.cls)); b=R.choice(s.chain(d)); q=R.choice([q for z,q in s.refs if z is b])
            return [asg(v(q),N('dcast',Ref(b),e,T=b,cast='%s') if b is not d else e)]
        if o=='down':
            d,e=s.bref(R.choice(W.cls)); c=R.choice(s.derived(d)+[d]); q=R.choice([q for z,q in s.refs if z is c])
            if c is d: return [asg(v(q),e)]
            return [s.safe([asg(v(q),N('dcast',Ref(c),e,T=c,cast='%s'))])]+[s.safe([ev(mem(N('dm',c,v(q)),n_,c),t)]) for n_,(_,t) in list(enumerate(c.members))[-1:] if t.num]
        if o=='aa':
            t,q=R.choice(s.uar); a=R.choice(s.aa)
            st=[asg(N('ui',t,v(q),i(1)),N('cast',t,i(R.randrange(100))))] if t.num else s.fill(N('ui',t,v(q),i(1)),t,R.randrange(50))
            return st+[asg(v(a),N('toaa',AUTOARR,v(q),T=t)),ev(N('aasize',INT,v(a)))]
        if o=='aa2':
            t=R.choice([INT,DOUBLE,CHAR]+W.plain); a=R.choice(s.aa); e=N('aai',AUTOREF,v(a),idi(i(R.choice([0,1,1,2,-1,5]))))
            if t.num: return [s.safe([ev(N('*',t,un(t,e),raw=False),t)])]
            z=Var(s.nm('z'),Ref(t),None); return [s.safe2(z,[dcl(z,un(t,e))]+[ev(mem(N('dm',t,v(z)),q,t),y) for q,(n_,y) in enumerate(t.members) if y.num])]
        if o=='fromaa':
            t=R.choice([INT,DOUBLE,CHAR]+W.plain); a=R.choice(s.aa); z=Var(s.nm('z'),UArr(t),None)
            st=[dcl(z,N('fromaa',UArr(t),v(a),T=t)),ev(N('size',INT,v(z)))]+([ev(N('ui',t,v(z),i(1)),t)] if t.num else s.show(N('ui',t,v(z),i(1)),t))
            return [s.safe2(z,st)]
        raise Exception(o)
    def safe2(s,z,st):
        """like safe, with a local variable z of the lambda"""
        n=s.safe(st); f=n.kids[0].f; z.fn=f; return n
    def end(s): return [ev(v(q),t) for t,q in s.prims]+[z for c,q in s.objs for z in s.show(v(q),c)]
def random_case(R,id,ops=30,split=None):
    n=R.randrange(2,6); shape=[None]+[R.randrange(q) for q in range(1,n)]; keys=sorted(SIG)
    over=[[k_ for k_ in keys if R.random()<(.6 if shape[q] is None else .4)] for q in range(n)]+[[k_ for k_ in keys if R.random()<.5] for _ in range(2)]
    if not over[0]: over[0]=['m0']
    W=World(R,shape,over); D=Dyn(R,W); st=[]
    while len(st)<ops: st+=D.op()
    return W.case(id,D.st+st+D.end(),split=R.random()<.3 if split is None else split)
def matrix(R):
    """every override pattern of chains and forks; every dynamic class through every static class and through auto ref"""
    out=[]
    for sn,shape in (('chain',[None,0,1]),('fork',[None,0,0]),('deep',[None,0,1,2])):
        for pat in itertools.product((0,1),repeat=len(shape)-1):
            over=[['m0','m1']]+[['m0'] if b else (['m1'] if sum(pat)%2 else []) for b in pat]
            W=World(R,shape,over,plain=1); D=Dyn(R,W); st=[]
            for c in W.cls:
                z=[q for e,q in D.refs if e is c][0]
                for b in D.chain(c):
                    q=[q for e,q in D.refs if e is b][-1]
                    st+=[asg(v(z),N('new',Ref(c),to=c))]+D.fill(N('dm',c,v(z)),c,7)+[asg(v(q),N('dcast',Ref(b),v(z),T=b,cast='%s') if b is not c else v(z))]
                    for key in sorted(W.all_methods(b)): st.append(ev(N('vcall',INT,v(q),*[W.argv(t) for t in SIG[key][0]],mname=key,key=key)))
                    st+=[asg(v(D.r[0]),pbox_(v(q),b))]+[ev(N('typeis',BOOL,v(D.r[0]),T=t)) for t in W.cls+W.plain]+[ev(N('typeis',BOOL,v(q),T=t)) for t in W.cls]
                    for key in sorted(W.all_methods(b)): st.append(ev(N('vcall',INT,v(D.r[0]),*[W.argv(t) for t in SIG[key][0]],mname=key,key=key)))
                    for t in W.cls:
                        zz=Var(W.nm('z'),Ref(t),None); st.append(D.safe2(zz,[dcl(zz,un(t,v(D.r[0])))]+[ev(mem(N('dm',t,v(zz)),n_,t),y) for n_,(_,y) in enumerate(t.members)]))
                        if t is not b and b in D.chain(t): zz=Var(W.nm('z'),Ref(t),None); st.append(D.safe2(zz,[dcl(zz,N('dcast',Ref(t),v(q),T=t,cast='%s')),ev(i(1))]))
            out.append(W.case('matrix-%s-%s'%(sn,''.join(map(str,pat))),D.st+st+D.end()))
    # every boxed type read as every type
    W=World(R,[None,0],[['m0'],['m0']],plain=2)
    for T in [t for t,_ in PRIM]+W.plain+W.cls+[Ref(INT)]:
        W=World(R,[None,0],[['m0'],['m0']],plain=2,types=(INT,)); D=Dyn(R,W)
        src=[q for t,q in D.prims if t is T] or [q for c,q in D.objs if c.name==T.name] or [q for t,q in D.irs if q.ty is T]
        t=src[0].ty; st=[]
        for how in('box','ptr','arr'):
            if how=='box' and (t.kind=='s' and t.ext or t.kind=='r'): continue
            if how=='arr':
                u=[q for e,q in D.uar if e is t]
                if not u: continue
                st+=[asg(N('ui',t,v(u[0]),i(1)),v(src[0])),asg(v(D.aa[0]),N('toaa',AUTOARR,v(u[0]),T=t)),asg(v(D.r[0]),N('aai',AUTOREF,v(D.aa[0]),i(1)))]
            else: st.append(asg(v(D.r[0]),box_(v(src[0]),t) if how=='box' else pbox_(N('addr',Ref(t),v(src[0])),t)))
            for y in D.types:
                st.append(ev(N('typeis',BOOL,v(D.r[0]),T=y)))
                if y.num: st.append(D.safe([ev(N('*',y,un(y,v(D.r[0])),raw=False),y)])); st.append(D.safe([asg(N('*',y,un(y,v(D.r[0])),raw=False),k(y,1))]))
                elif y.kind=='s': zz=Var(W.nm('z'),Ref(y),None); st.append(D.safe2(zz,[dcl(zz,un(y,v(D.r[0])))]+[ev(mem(N('dm',y,v(zz)),n_,y),q) for n_,(_,q) in enumerate(y.members)]))
            st.append(D.safe([ev(N('vcall',INT,v(D.r[0]),i(3),mname='m0',key='m0'))]))
        out.append(W.case('convert-%s'%t.name.replace(' ','_'),D.st+st+D.end()))
    return out
if __name__=='__main__':
    import sys,random
    R=random.Random(1)
    for c in matrix(R)+[random_case(random.Random(q),'rnd-%d'%q,split=False) for q in range(20)]:
        if c.id in sys.argv[1:]: print(c.text)
