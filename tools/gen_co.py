"""Directed families of coroutines, generators, for-each loops and list comprehensions (C05)."""
import itertools
from gen_dir import *
from gen_dir import KINDS,LOOPS
from lang import foreach
TV=[CHAR,LONG,DOUBLE,SHORT,BOOL,FLOAT,INT]
def yld(*e): return N('yld',None,*e)
def cfn(nm,name,ret_,params=(),outer=None,glob=True):
    """coroutine; var holds its instance"""
    f=Func(nm(name),ret_,list(params),outer=outer,co=True); f.fn_static=False
    f.var=Var(f.name,Fn(ret_,[p.ty for p in params]),outer,glob=glob)
    return f
def gv(f): return v(f.var)
def reset(e): return N('reset',BOOL,e)
def cv(f,*a): return N('call',f.ret,*a,f=f)
def callv(e,*a): return N('callf',e.ty.ret,e,*a)
def conv(t,e): return N('cast',t,e)

def nest_co(nm,nest,jump,at,ty):
    """coroutine over a nest of control statements; yields in the innermost body and (at) before, after or around a nested statement"""
    n=Var(nm('n'),INT,None); f=cfn(nm,'co',INT,[n]); cnt=Var(nm('cnt'),INT,f); keep=Var(nm('kp'),ty,f); S2=None
    arr=Var(nm('ar'),Arr(INT,3),f)
    def note(d): return [ev(conv(ty,bop('+',v(keep),k(ty,1),ty)) if ty is not BOOL else v(keep)),ev(N('i',INT,v(arr),i(d%3),n=3))]
    def level(d):
        if d==len(nest):
            j=N('brk',None,n=jump[1]) if jump[0]=='brk' else N('cnt',None,n=jump[1]) if jump[0]=='cnt' else ret(bop('+',i(1000),v(cnt)))
            tmp=Var(nm('t'),ty,f)
            return [x(N('inc',INT,v(cnt),d=1,pre=False)),dcl(tmp,conv(ty,bop('+',v(cnt),v(n)))),
                    yld(bop('+',bop('*',v(cnt),i(10)),v(n))),ev(v(tmp)),ev(v(n)),iff(bop('==',bop('%',v(cnt),i(3)),i(2),BOOL),blk(j)),ev(bop('+',i(500),v(cnt)))]+note(d)
        def body(q):
            loc=Var(nm('b'),INT,f)
            st=[dcl(loc,bop('+',bop('*',v(q),i(7)),v(n))),asg(N('i',INT,v(arr),i(d%3),n=3),bop('+',v(loc),i(d)))]
            if at in('before','both'): st.append(yld(bop('+',i(3000+d),v(loc))))
            st+=level(d+1)
            if at in('after','both'): st.append(yld(bop('+',i(4000+d),v(loc))))
            st.append(ev(v(loc)))
            return blk(*st)
        return wrap(nm,f,nest[d],body,2,depth=d)
    st=[dcl(cnt,i(0)),dcl(keep,conv(ty,bop('*',v(n),i(3)))),dcl(arr)]+level(0)+note(0)
    return f,setbody(f,*st,ret(bop('+',i(9000),v(cnt))))
def yield_nests(maxd,tag='ynest'):
    out=[]
    for no,q in enumerate(nests(maxd)):
        nm=Names(); st=[]; calls=[]
        for jn,j in enumerate(jumps(q)):
            f,d=nest_co(nm,q,j,('before','after','both','none')[(no+jn)%4],TV[(no+jn)%len(TV)]); st.append(d)
            for a in range(9): calls+=[ev(cv(f,idi(i(a+1))))]+([ev(reset(gv(f)))] if a%2 else [])
        out.append(case('%s-%s'%(tag,'.'.join(q)),*st,*calls))
    return out

def instances(tag='inst'):
    """interleaved calls of several instances of one local coroutine; captured parameters, locals, loop variables"""
    out=[]
    orders=[p for p in itertools.product((0,1,2),repeat=5)]
    for mode in range(6):
        for part in range(3):
            nm=Names(); FT=Fn(INT,[INT]); st=[]
            b=Var(nm('b'),INT,None); mk=func(nm,'mk',FT,[b]); a=Var(nm('a'),INT,mk); loop=Var(nm('li'),INT,mk); loop.loop=True
            n=Var(nm('n'),INT,None); f=cfn(nm,'g',FT.ret,[n],outer=mk,glob=False); l=Var(nm('l'),INT,f); q=Var(nm('q'),INT,f); q.loop=True
            cap=bop('+',v(b),v(a)) if mode%2 else v(b)
            body=[dcl(l,bop('+',cap,v(n)))]
            if mode<2: body+=[yld(v(l)),asg(v(l),bop('+',v(l),v(n))),x(N('cmp',INT,v(a),v(n),o='+')),yld(bop('+',bop('*',v(l),i(10)),v(a)))]
            elif mode<4: body+=[N('for',None,dcl(q,i(0)),bop('<',v(q),i(3),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(x(N('cmp',INT,v(a),v(q),o='+')),yld(bop('+',bop('+',v(l),v(q)),v(a)))))]
            else: body+=[iff(bop('>',v(n),i(2),BOOL),blk(yld(bop('-',i(0),v(l))),ret(v(n)))),N('while',None,bop('<',v(l),bop('+',v(b),i(9)),BOOL),blk(yld(v(l)),x(N('cmp',INT,v(l),bop('+',v(n),i(2)),o='+'))))]
            fd=setbody(f,*body,ret(bop('-',v(l),i(7))))
            if mode%2==0: mkb=[dcl(a,i(5)),fd,asg(v(a),bop('+',v(a),v(b))),ret(gv(f))]
            else:
                keep=Var(nm('kp'),FT,mk)
                mkb=[dcl(keep),N('for',None,dcl(loop,i(0)),bop('<',v(loop),i(2),BOOL),x(N('inc',INT,v(loop),d=1,pre=False)),blk(dcl(a,bop('+',v(loop),i(20))),fd,ev(cv(f,i(100))),asg(v(keep),gv(f)))),ret(v(keep))]
            st.append(setbody(mk,*mkb))
            gs=[Var(nm('c'),FT,None,glob=True) for _ in range(3)]
            st+=[dcl(gs[0],call(mk,i(1))),dcl(gs[1],call(mk,i(2))),dcl(gs[2],v(gs[0]))]     # the third is the first again
            for no,o in enumerate(orders[part::3]):
                for z in o: st.append(ev(callv(v(gs[z]),i((no+z)%4))))
                if no%9==8: st+=[ev(reset(v(gs[0]))),ev(reset(v(gs[1]))),asg(v(gs[no%3]),call(mk,i(no)))]
            out.append(case('%s-%d-%d'%(tag,mode,part),*st))
    return out

def generators():
    """coroutine ints used by the loops: how many values they deliver and how they end"""
    pass
def gens(nm):
    """[(function, definition)] generators: global coroutines without parameters"""
    out=[]
    def mk(name,t,*st):
        f=cfn(nm,name,t); b=st[0](f); d=setbody(f,*b); out.append((f,d)); return f
    def loopy(n,step,end):
        def b(f):
            q=Var(nm('q'),INT,f); q.loop=True
            return [N('for',None,dcl(q,i(0)),bop('<',v(q),i(n),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(yld(bop('*',v(q),i(step))))),ret(i(end))]
        return b
    mk('ga',INT,loopy(4,10,-1)); mk('gb',INT,loopy(0,1,-2)); mk('gc',INT,loopy(1,3,-3))
    mk('gd',INT,lambda f: [yld(i(5)),yld(i(6)),yld(i(7)),ret(i(8))])
    def early(f):
        z=Var(nm('z'),INT,f)
        return [dcl(z,i(1)),N('while',None,k(BOOL,1),blk(yld(v(z)),x(N('cmp',INT,v(z),i(3),o='*')),iff(bop('>',v(z),i(30),BOOL),blk(ret(v(z))))))]
    mk('ge',INT,early)
    mk('gl',LONG,lambda f: [yld(k(LONG,2**40+1)),yld(i(-3)),ret(k(LONG,0))])
    mk('gf',DOUBLE,lambda f: [yld(k(DOUBLE,0.5)),yld(k(DOUBLE,-2.25)),yld(i(3)),ret(k(DOUBLE,0.0))])
    mk('gh',CHAR,lambda f: [yld(k(CHAR,65)),yld(k(CHAR,-7)),ret(k(CHAR,0))])
    return out
def foreach_cases(tag='each'):
    out=[]; Cn=Struct('SE',[('a',INT),('b',CHAR)])
    def mkcase(id,build,structs=()):
        nm=Names(); out.append(case('%s-%s'%(tag,id),*build(nm),structs=structs))
    JMP=['none','brk','cnt','brk2','cnt2','ret','nested']
    def bodyof(nm,f,vs,jmp,acc):
        st=[ev(v(z)) for z in vs]+[x(N('cmp',INT,v(acc),i(1),o='+'))]
        c=bop('==',v(acc),i(2),BOOL)
        if jmp=='brk': st.append(iff(c,blk(N('brk',None,n=1))))
        if jmp=='cnt': st.append(iff(c,blk(N('cnt',None,n=1))))
        if jmp=='brk2': st.append(iff(c,blk(N('brk',None,n=2))))
        if jmp=='cnt2': st.append(iff(c,blk(N('cnt',None,n=2))))
        if jmp=='ret': st.append(iff(c,blk(ret(i(77)))))
        return blk(*st,ev(v(acc)))
    # generators in every combination of two, with every jump
    for jmp in JMP:
        for two in (0,1,2):
            def build(nm):
                gs=gens(nm); st=[d for _,d in gs]; calls=[]
                for n,(g,_) in enumerate(gs):
                    f=func(nm,'t',INT); acc=Var(nm('ac'),INT,f); a=Var(nm('x'),g.ret,f)
                    its=[dict(var=a,e=gv(g))]
                    if two:
                        h=gs[(n+two)%len(gs)][0]; its.append(dict(var=Var(nm('y'),h.ret,f),e=gv(h)))
                    lp=foreach(nm,f,its,bodyof(nm,f,[q['var'] for q in its],jmp,acc))
                    b=[dcl(acc,i(0))]
                    if jmp in('brk2','cnt2','nested'):
                        o=Var(nm('o'),INT,f); o.loop=True
                        b.append(N('for',None,dcl(o,i(0)),bop('<',v(o),i(2),BOOL),x(N('inc',INT,v(o),d=1,pre=False)),blk(ev(v(o)),lp,ev(i(88)))))
                    else: b.append(lp)
                    st.append(setbody(f,*b,ev(reset(gv(g))),ret(v(acc))))
                    calls+=[ev(call(f)),ev(call(f)),ev(cv(g))]
                return st+calls
            mkcase('gen-%s-%d'%(jmp,two),build)
    # arrays: the loop variable is the element
    for an in ('fixed','local','unsized','new','class','call','member'):
        for jmp in JMP[:6]:
            def build(nm):
                st=[]; T_=Cn if an=='class' else INT
                g=Var(nm('ga'),Arr(T_,4),None,glob=True); st.append(dcl(g))
                for z in range(4): st.append(asg(N('i',INT,v(g),i(z),n=4) if T_ is INT else mem(N('i',T_,v(g),i(z),n=4),0,Cn),i(z*11+1)))
                H=None
                mk=func(nm,'mk',UArr(INT)); r=Var(nm('r'),UArr(INT),mk)
                st.append(setbody(mk,dcl(r,N('newa',UArr(INT),i(3),elem=INT)),asg(N('ui',INT,v(r),i(1)),i(9)),ev(i(600)),ret(v(r))))
                f=func(nm,'t',INT); acc=Var(nm('ac'),INT,f); b=[dcl(acc,i(0))]
                if an in('fixed','class'): e=v(g)
                elif an=='local': l=Var(nm('la'),Arr(T_,3),f); b+=[dcl(l)]+[asg(N('i',T_,v(l),i(z),n=3),i(z+40)) for z in range(3)]; e=v(l)
                elif an=='unsized': l=Var(nm('lu'),UArr(T_),f); b+=[dcl(l,N('a2u',UArr(T_),v(g)))]; e=v(l)
                elif an=='new': l=Var(nm('lu'),UArr(T_),f); b+=[dcl(l,N('newa',UArr(T_),i(5),elem=T_))]; e=v(l)
                elif an=='call': e=call(mk)
                else: l=Var(nm('lm'),Struct('SM',[('q',INT),('w',Arr(INT,3))]),f); b+=[dcl(l),asg(N('i',INT,mem(v(l),1,l.ty),i(2),n=3),i(5))]; e=mem(v(l),1,l.ty)
                a=Var(nm('x'),T_,f)
                shown=mem(v(a),0,Cn) if T_ is Cn else v(a)
                inner=[ev(shown),x(N('cmp',INT,shown,i(100),o='+')),ev(shown)]
                if jmp in('brk2','cnt2'):
                    o=Var(nm('o'),INT,f); o.loop=True
                lp=foreach(nm,f,[dict(var=a,e=e)],blk(*inner,bodyof(nm,f,[],jmp,acc)))
                if jmp in('brk2','cnt2'): lp=N('for',None,dcl(o,i(0)),bop('<',v(o),i(2),BOOL),x(N('inc',INT,v(o),d=1,pre=False)),blk(lp,ev(i(89))))
                b.append(lp)
                # elements after the loop
                if an in('fixed','unsized'): b+=[ev(N('i',INT,v(g),i(z),n=4)) for z in range(4)]
                if an=='class': b+=[ev(mem(N('i',T_,v(g),i(z),n=4),0,Cn)) for z in range(4)]
                if an=='local': b+=[ev(N('i',INT,v(l),i(z),n=3)) for z in range(3)]
                if an=='new': b+=[ev(N('ui',INT,v(l),i(z))) for z in range(5)]
                if an=='member': b+=[ev(N('i',INT,mem(v(l),1,l.ty),i(z),n=3)) for z in range(3)]
                st.append(setbody(f,*b,ret(v(acc))))
                struct_m.append(l.ty) if an=='member' else None
                return st+[ev(call(f)),ev(call(f))]
            struct_m=[]
            nm=Names(); b=build(nm); out.append(case('%s-arr-%s-%s'%(tag,an,jmp),*b,structs=([Cn] if an=='class' else [])+struct_m))
    # array and generator together; closures over the loop variables; list comprehensions
    def build(nm):
        gs=gens(nm); st=[d for _,d in gs]
        g=Var(nm('ga'),Arr(INT,3),None,glob=True); st+=[dcl(g)]+[asg(N('i',INT,v(g),i(z),n=3),i(z*7)) for z in range(3)]
        KT=Fn(INT,[INT]); keep=Var(nm('kp'),Arr(KT,6),None,glob=True); st.append(dcl(keep))
        for kind in (0,1,2):
            f=func(nm,'t',INT); acc=Var(nm('ac'),INT,f); a=Var(nm('x'),INT,f); b=Var(nm('y'),INT,f)
            its=[[dict(var=a,e=gv(gs[0][0])),dict(var=b,e=v(g))],[dict(var=b,e=v(g)),dict(var=a,e=gv(gs[3][0]))],[dict(var=a,e=gv(gs[4][0])),dict(var=b,e=gv(gs[0][0]))]][kind]
            p=Var(nm('p'),INT,None); lam=Func(nm('lam'),INT,[p],outer=f); lam.fn_static=False
            lam.body=blk(x(N('cmp',INT,v(a),v(p),o='+')),ret(bop('+',bop('*',v(a),i(100)),v(b))),bare=True)
            pr=lambda lam=lam,p=p: 'int %s(int %s){ %s}'%(lam.name,p.name,Sb(lam.body,0).replace('\n',' '))
            L_=N('lam',KT,f=lam,printer=pr); slot=lambda e: N('i',KT,v(keep),e,n=6)
            body=blk(asg(slot(v(acc)),L_),ev(callv(slot(v(acc)),i(1))),ev(v(a)),ev(v(b)),x(N('cmp',INT,v(acc),i(1),o='+')))
            st.append(setbody(f,dcl(acc,i(0)),foreach(nm,f,its,body),ret(v(acc))))
            st.append(ev(call(f)))
            for z in range(3): st+=[ev(callv(slot(i(z)),i(2))),ev(callv(slot(i(z)),i(3)))]
            st+=[ev(N('i',INT,v(g),i(z),n=3)) for z in range(3)]
        return st
    mkcase('mixed',build)
    def comp(nm,f,its,exprs,t,extra=()):
        """{ for(...) yield ...; }"""
        g=Func(nm('lc'),t,[],outer=f,co=True); g.fn_static=False
        its=its(g)
        lp=foreach(nm,g,its,blk(*extra,*[yld(e) for e in exprs([q['var'] for q in its])]))
        g.body=blk(lp,bare=True)
        # leaving the body ends the list
        g.body=blk(lp,N('ret',None,*( [k(t,0)] )),bare=True)
        pr=lambda: '{ %s}'%Sb(lp,0).replace('\n',' ').replace('\t',' ')
        fv=N('lam',Fn(t,[]),f=g,printer=lambda: '')
        return N('glist',UArr(t),fv,printer=pr)
    def build2(nm):
        gs=gens(nm); st=[d for _,d in gs]
        g=Var(nm('ga'),Arr(INT,3),None,glob=True); st+=[dcl(g)]+[asg(N('i',INT,v(g),i(z),n=3),i(z*7+1)) for z in range(3)]
        def show(a): 
            q=Var(nm('w'),a.ty.elem,None,glob=True)
            return [ev(N('size',INT,v(a))),foreach(nm,a.fn,[dict(var=q,e=v(a))],blk(ev(v(q))))]
        for n in range(6):
            f=func(nm,'t',INT); c=Var(nm('c'),INT,f); b=[dcl(c,i(n))]
            specs=[(lambda h: [dict(var=Var(nm('x'),INT,h),e=v(g))],lambda vs: [bop('*',v(vs[0]),v(c))],INT),
                   (lambda h: [dict(var=Var(nm('x'),INT,h),e=gv(gs[0][0]))],lambda vs: [bop('+',v(vs[0]),v(c))],INT),
                   (lambda h: [dict(var=Var(nm('x'),INT,h),e=gv(gs[4][0])),dict(var=Var(nm('y'),INT,h),e=v(g))],lambda vs: [bop('+',v(vs[0]),v(vs[1])),bop('-',v(vs[0]),v(vs[1]))],INT),
                   (lambda h: [dict(var=Var(nm('x'),LONG,h),e=gv(gs[5][0]))],lambda vs: [bop('+',v(vs[0]),k(LONG,1),LONG)],LONG),
                   (lambda h: [dict(var=Var(nm('x'),DOUBLE,h),e=gv(gs[6][0]))],lambda vs: [bop('*',v(vs[0]),k(DOUBLE,2.0),DOUBLE)],DOUBLE),
                   (lambda h: [dict(var=Var(nm('x'),INT,h),e=gv(gs[1][0]))],lambda vs: [v(vs[0])],INT)][n]
            a=Var(nm('l'),UArr(specs[2]),f); d=N('dcl',None,comp(nm,f,specs[0],specs[1],specs[2],extra=[ev(i(300+n))]),var=a); d.auto=True
            b.append(d)
            for q in show(a): b.append(q)
            st.append(setbody(f,*b,ret(N('size',INT,v(a))))); st+=[ev(call(f)),ev(call(f))]
        return st
    mkcase('comp',build2)
    return out
if __name__=='__main__':
    import sys
    for c in (yield_nests(1)+instances()+foreach_cases()): 
        if len(sys.argv)>1 and c.id==sys.argv[1]: print(c.text)
