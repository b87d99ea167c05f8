"""Directed families of protected calls (C11): every kind of fault in every position, handled, nested, repeated, rethrown; objects and messages; result types."""
import itertools
from gen_fault import *
import gen_fault as GF, gen_co as CO
CSTR=UArr(CHAR)
def evm(r): return x(N('evm',VOID,v(r['msg'])))
def tr(nm,f,fe,T,ok,err):
    """auto r = try(fe); if(r) ok(r) else err(r)"""
    r=nm('r'); g=f is None
    R=dict(name=r,value=Var(r+'.value',T,f,glob=g) if T is not VOID else None,msg=Var(r+'.message',CSTR,f,glob=g),exc=Var(r+'.exception',AUTOREF,f,glob=g))
    return N('try',None,fe,blk(*ok(R)),blk(*err(R)),vars=[R['value'],R['msg'],R['exc']],rname=r)
def okv(R,d=0): return [ev(i(7000+d)),ev(v(R['value']))]
def errm(R,d=0): return [ev(i(8000+d)),evm(R)]
def rethrow(R): return x(N('rethrow',VOID,v(R['msg']),v(R['exc']),rname=R['name']))
def throwo(e): return x(N('throwo',VOID,e))
def kinds(kit): return list(kit.kinds())+[q for q in STMTK if STMTK[q]]
def fault(kit,kd): return kit.kinds().get(kd) or STMTK[kd]
def ctxn(): return [c for c,_ in contexts(Names(),None)]
def inlam(nm,outer,sts,T=INT): return lam(nm,outer,T,[],sts+[ret(i(77))])
def probe(nm,kit):
    """shows the state that survives and that calls, coroutines and allocation still work"""
    a=Var(nm('a'),INT,None); f=func(nm,'ok',INT,[a]); l=Var(nm('l'),Arr(INT,6),f)
    return [setbody(f,dcl(l),asg(N('i',INT,v(l),i(2),n=6),v(a)),iff(bop('<=',v(a),i(0),BOOL),blk(ret(i(1)))),ret(bop('+',call(f,bop('-',v(a),i(1))),N('i',INT,v(l),i(2),n=6))))],f
def one(kd,c,reps):
    """the fault in its context, handled, the whole repeated; then calls that need a healthy stack"""
    nm=Names(); kit=Kit(nm); ci=ctxn().index(c); r=contexts(nm,kit)[ci][1](fault(kit,kd))
    if r is None: return None
    defs,st=r; pd,pf=probe(nm,kit); f=func(nm,'w',INT); q=Var(nm('q'),INT,f); q.loop=True
    body=[tr(nm,f,inlam(nm,f,[ev(v(q))]+st),INT,lambda R: okv(R),lambda R: errm(R)+[ev(v(q))]),ev(call(pf,i(3)))]
    return fcase('try-%s-%s-%d'%(kd,c,reps),kit.decls+defs+pd+[setbody(f,N('for',None,dcl(q,i(0)),bop('<',v(q),i(reps),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(*body)),ret(i(5))),ev(call(f)),ev(N('size',INT,v(kit.uarr)))])
def nest(kd,c,depth,actions):
    """protected calls inside each other; actions: what each handler does, innermost first: keep / rethrow / other (a different fault) / ret"""
    nm=Names(); kit=Kit(nm); ci=ctxn().index(c); r=contexts(nm,kit)[ci][1](fault(kit,kd))
    if r is None: return None
    defs,st=r; pd,pf=probe(nm,kit); fs=[]; sts=st
    for d in range(depth):
        f=func(nm,'n',INT); a=Var(nm('l'),INT,f); act=actions[d]
        def err(R,d=d,act=act,a=a):
            return errm(R,d)+[asg(v(a),bop('+',v(a),i(5)))]+([rethrow(R)] if act=='rethrow' else [ev(N('i',INT,v(kit.arr),idi(i(6)),n=4))] if act=='other' else [ret(v(a))] if act=='ret' else [])
        defs=defs+[setbody(f,dcl(a,i(100*d)),tr(nm,f,inlam(nm,f,[asg(v(a),bop('+',v(a),i(1)))]+sts),INT,lambda R,d=d: okv(R,d),err),ev(v(a)),ret(i(60+d)))]
        sts=[ev(call(f)),ev(i(900+d))]
    R0=tr(nm,None,inlam(nm,None,sts),INT,okv,errm)
    return fcase('nest-%s-%s-%s'%(kd,c,'.'.join(actions[:depth])),kit.decls+defs+pd+[R0,ev(call(pf,i(4)))])
def objects():
    """thrown objects: identity, aliasing, values on the stack and on the heap, replaced by a later error"""
    out=[]
    TYPES=[('int',lambda: k(INT,5),lambda e: N('*',INT,N('unbox',Ref(INT),e,T=INT,cast='int ref(%s)'),raw=False),INT),('long',lambda: k(LONG,2**40),lambda e: N('*',LONG,N('unbox',Ref(LONG),e,T=LONG,cast='long ref(%s)'),raw=False),LONG),
           ('char',lambda: k(CHAR,9),lambda e: N('*',CHAR,N('unbox',Ref(CHAR),e,T=CHAR,cast='char ref(%s)'),raw=False),CHAR),('double',lambda: k(DOUBLE,2.25),lambda e: N('*',DOUBLE,N('unbox',Ref(DOUBLE),e,T=DOUBLE,cast='double ref(%s)'),raw=False),DOUBLE)]
    for tn,mk,rd,T in TYPES:
        nm=Names(); kit=Kit(nm); f=func(nm,'t',INT,[Var(nm('a'),INT,None)])
        out.append(fcase('obj-val-%s'%tn,kit.decls+[setbody(f,throwo(N('box',AUTOREF,mk(),T=T,cast='%s')),ret(i(1))),
            tr(nm,None,inlam(nm,None,[ev(call(f,i(1)))]),INT,okv,lambda R: errm(R)+[ev(rd(v(R['exc']))),N('try',None,inlam(nm,None,[ev(N('*',INT,N('unbox',Ref(INT),v(R['exc']),T=INT,cast='int ref(%s)'),raw=False))]),blk(ev(i(1))),blk(ev(i(2))),vars=[Var('rr.value',INT,None,glob=True),Var('rr.message',CSTR,None,glob=True),Var('rr.exception',AUTOREF,None,glob=True)],rname='rr')])]))
    # heap object: the handler sees the same object
    for depth in(1,2,3):
        for acts in itertools.product(('rethrow','keep'),repeat=depth-1):
            nm=Names(); kit=Kit(nm); g=Var(nm('g'),Ref(SG_),None,glob=True); f=func(nm,'t',INT,[Var(nm('a'),INT,None)]); loc=Var(nm('loc'),Ref(SG_),f)
            rd=lambda e: mem(N('dm',SG_,N('unbox',Ref(SG_),e,T=SG_,cast='SG ref(%s)')),0,SG_)
            defs=[setbody(f,dcl(loc,N('new',Ref(SG_),to=SG_)),asg(mem(N('dm',SG_,v(loc)),0,SG_),v(f.params[0])),asg(v(g),v(loc)),throwo(N('pbox',AUTOREF,v(loc),T=SG_,cast='%s') if False else box_ref(v(loc),SG_)),ret(i(1)))]
            sts=[ev(call(f,i(31)))]
            for d in range(depth):
                h=func(nm,'h',INT)
                def err(R,d=d):
                    st=errm(R,d)+[ev(rd(v(R['exc']))),asg(mem(N('dm',SG_,v(g)),0,SG_),i(40+d)),ev(rd(v(R['exc'])))]
                    return st+([rethrow(R)] if d<depth-1 and acts[d]=='rethrow' else [])
                defs.append(setbody(h,tr(nm,h,inlam(nm,h,sts),INT,okv,err),ret(i(70+d)))); sts=[ev(call(h))]
            out.append(fcase('obj-heap-%d-%s'%(depth,'.'.join(acts)),kit.decls+[dcl(g)]+defs+sts+[ev(mem(N('dm',SG_,v(g)),0,SG_))]))
    # stack object: thrown copy does not change with the frame that is gone
    for over in(0,1):
        nm=Names(); kit=Kit(nm); f=func(nm,'t',INT,[Var(nm('a'),INT,None)]); loc=Var(nm('loc'),SG_,f); clob=func(nm,'c',INT,[Var(nm('a'),INT,None)]); ar=Var(nm('ar'),Arr(INT,30),clob); q=Var(nm('q'),INT,clob); q.loop=True
        rd=lambda e: mem(N('dm',SG_,N('unbox',Ref(SG_),e,T=SG_,cast='SG ref(%s)')),0,SG_)
        defs=[setbody(f,dcl(loc),asg(mem(v(loc),0,SG_),v(f.params[0])),throwo(N('box',AUTOREF,v(loc),T=SG_,cast='%s')),ret(i(1))),
              setbody(clob,dcl(ar),N('for',None,dcl(q,i(0)),bop('<',v(q),i(30),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(asg(N('i',INT,v(ar),v(q),n=30),v(clob.params[0])))),ret(N('i',INT,v(ar),i(7),n=30)))]
        out.append(fcase('obj-stack-%d'%over,kit.decls+defs+[tr(nm,None,inlam(nm,None,[ev(call(f,i(19)))]),INT,okv,lambda R: errm(R)+([ev(call(clob,i(99)))] if over else [])+[ev(rd(v(R['exc'])))])]))
    # an error after an object was handled carries no object
    for first in('obj','text'):
        nm=Names(); kit=Kit(nm); f=func(nm,'t',INT,[Var(nm('a'),INT,None)])
        body=[iff(bop('==',bop('%',v(f.params[0]),i(2)),i(0 if first=='obj' else 1),BOOL),blk(throwo(N('box',AUTOREF,v(f.params[0]),T=INT,cast='%s'))),blk(STMTK['throw']())),ret(i(1))]
        w=func(nm,'w',INT); q=Var(nm('q'),INT,w); q.loop=True
        isn=lambda R: ev(N('pcmp',BOOL,v(R['exc']),nullk(),o='==')) if False else ev(N('typeis',BOOL,v(R['exc']),T=INT))
        out.append(fcase('obj-mix-%s'%first,kit.decls+[setbody(f,*body),setbody(w,N('for',None,dcl(q,i(0)),bop('<',v(q),i(6),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(tr(nm,w,inlam(nm,w,[ev(call(f,v(q)))]),INT,okv,lambda R: errm(R)+[isn(R)]))),ret(i(1))),ev(call(w))]))
    return out
def box_ref(e,T_): return N('pbox',AUTOREF,e,T=T_,cast='%s')
TEXTS=['','x','a message','percent %d %s %n %%','long '+'0123456789'*60,'tab and ] [ } ; quote']
def messages():
    out=[]
    for n,t in enumerate(TEXTS):
        for fn in('throw','hthrow'):
            for depth in(1,2):
                if t=='': continue
                nm=Names(); kit=Kit(nm); f=func(nm,'f',INT,[Var(nm('a'),INT,None)])
                st=[ev(call(f,i(1)))]
                d=[setbody(f,x(N('throw',VOID,text=t,fname=fn)),ret(i(1)))]
                if depth==2:
                    h=func(nm,'h',INT); d.append(setbody(h,tr(nm,h,inlam(nm,h,st),INT,okv,lambda R: errm(R,1)+[rethrow(R)]),ret(i(2)))); st=[ev(call(h))]
                out.append(fcase('msg-%d-%s-%d'%(n,fn,depth),kit.decls+d+[tr(nm,None,inlam(nm,None,st),INT,okv,errm)]))
    return out
def results():
    """values of every type come out of a protected call unchanged"""
    out=[]
    S=SF_
    vals=[(INT,i(-5)),(LONG,k(LONG,-2**50)),(DOUBLE,k(DOUBLE,-1.5)),(FLOAT,N('cast',FLOAT,k(DOUBLE,2.5))),(CHAR,k(CHAR,-7)),(SHORT,k(SHORT,-700)),(BOOL,bop('==',i(1),i(1),BOOL))]
    for depth in(0,1,2):
        for T,e in vals:
            nm=Names(); kit=Kit(nm); a=Var(nm('a'),INT,None); f=func(nm,'f',T,[a]); l=Var(nm('l'),T,f)
            d=[setbody(f,dcl(l,e),iff(bop('==',v(a),i(3),BOOL),blk(ev(N('i',INT,v(kit.arr),idi(i(4)),n=4)))),ret(v(l)))]
            st=lambda z: [ret(call(f,i(z)))]
            for q in range(depth):
                h=func(nm,'h',T,[Var(nm('a'),INT,None)]); z=Var(nm('z'),T,h)
                d.append(setbody(h,dcl(z),tr(nm,h,lam(nm,h,T,[],[ret(call(f,v(h.params[0])))]),T,lambda R: [asg(v(z),v(R['value']))],lambda R: errm(R)+[ret(v(z))]),ret(v(z)))); f=h
            m=[]
            for zz in(1,3,2):
                f1=f
                m.append(tr(nm,None,lam(nm,None,T,[],[ret(call(f1,i(zz)))]),T,lambda R: [ev(v(R['value']),T)],errm))
            out.append(fcase('res-%s-%d'%(T.name,depth),kit.decls+d+m))
    for what in('struct','arr','uarr','ref','fn'):
        nm=Names(); kit=Kit(nm); a=Var(nm('a'),INT,None)
        T={'struct':SF_,'arr':Arr(INT,3),'uarr':UArr(INT),'ref':Ref(SG_),'fn':Fn(INT,[])}[what]
        f=func(nm,'f',T,[a]); l=Var(nm('l'),T,f)
        bad=iff(bop('==',v(a),i(3),BOOL),blk(ev(N('i',INT,v(kit.arr),idi(i(4)),n=4))))
        if what=='struct': st=[dcl(l),asg(mem(v(l),0,SF_),v(a)),asg(mem(v(l),2,SF_),k(LONG,2**41)),asg(mem(v(l),3,SF_),k(DOUBLE,0.5)),asg(N('i',INT,mem(v(l),4,SF_),i(2),n=3),i(12))]; show=lambda r: [ev(mem(v(r),0,SF_)),ev(mem(v(r),2,SF_)),ev(mem(v(r),3,SF_)),ev(N('i',INT,mem(v(r),4,SF_),i(2),n=3)),ev(mem(v(r),1,SF_))]
        elif what=='arr': st=[dcl(l),asg(N('i',INT,v(l),i(1),n=3),v(a))]; show=lambda r: [ev(N('i',INT,v(r),i(q),n=3)) for q in range(3)]
        elif what=='uarr': st=[dcl(l,N('newa',UArr(INT),v(a),elem=INT)),asg(N('ui',INT,v(l),i(0)),i(15))]; show=lambda r: [ev(N('size',INT,v(r))),ev(N('ui',INT,v(r),i(0)))]
        elif what=='ref': st=[dcl(l,N('new',Ref(SG_),to=SG_)),asg(mem(N('dm',SG_,v(l)),0,SG_),bop('+',v(a),i(50)))]; show=lambda r: [ev(mem(N('dm',SG_,v(r)),0,SG_))]
        else:
            c=Var(nm('c'),INT,f); st=[dcl(c,bop('*',v(a),i(11))),dcl(l,lam(nm,f,INT,[],[x(N('cmp',INT,v(c),i(1),o='+')),ret(v(c))]))]; show=lambda r: [ev(N('callf',INT,v(r))),ev(N('callf',INT,v(r)))]
        d=[setbody(f,*st,bad,ret(v(l)))]
        m=[tr(nm,None,lam(nm,None,T,[],[ret(call(f,i(z)))]),T,lambda R: show(R['value']),errm) for z in(1,3,2)]
        out.append(fcase('res-%s'%what,kit.decls+d+m))
    return out
def state():
    """effects made before the fault stay; locals of surviving frames keep their values whatever type they have"""
    out=[]
    for n,(kd,T) in enumerate(itertools.product(('oob','nullm','div','over','throw','nullcall'),(INT,LONG,DOUBLE,CHAR,FLOAT))):
        nm=Names(); kit=Kit(nm); f=func(nm,'f',INT,[Var(nm('p'),T,None),Var(nm('n'),INT,None)]); loc=[Var(nm('l'),T,f) for _ in range(6)]; ar=Var(nm('ar'),Arr(T,4),f); acc=Var(nm('acc'),LONG,f)
        conv=lambda e: e if T is INT else N('cast',T,e)
        st=[dcl(acc,k(LONG,1)),dcl(ar)]+[dcl(l,conv(bop('+',i(3+q),v(f.params[1])))) for q,l in enumerate(loc)]
        st+=[asg(N('i',T,v(ar),i(q),n=4),v(loc[q])) for q in range(4)]
        e=fault(kit,kd)(); use=ev(e) if e.op!='x' else e
        st+=[tr(nm,f,inlam(nm,f,[asg(v(loc[2]),conv(i(33))),asg(N('i',T,v(ar),i(1),n=4),conv(i(44))),asg(v(acc),bop('+',v(acc),k(LONG,2**33),LONG)),asg(N('i',INT,v(kit.arr),i(2),n=4),bop('+',N('i',INT,v(kit.arr),i(2),n=4),i(1))),use]),INT,okv,lambda R: errm(R)+[asg(v(loc[3]),conv(i(55)))])]
        st+=[ev(v(l),T) for l in loc]+[ev(N('i',T,v(ar),i(q),n=4),T) for q in range(4)]+[ev(v(acc)),ev(v(f.params[0]),T),iff(bop('>',v(f.params[1]),i(0),BOOL),blk(ev(call(f,v(loc[1]),bop('-',v(f.params[1]),i(1)))))),ev(v(loc[0]),T),ev(N('i',INT,v(kit.arr),i(2),n=4)),ret(i(6))]
        out.append(fcase('state-%s-%s'%(kd,T.name),kit.decls+[setbody(f,*st),ev(call(f,conv(i(9)),i(2)))]))
    return out
def many(n):
    """many handled errors in a row do not use up the stack"""
    out=[]
    for kd in('over','oob','throw','nullm','div','noret','nullcall','castint','hthrow'):
        for c in('fn','deep','rec','coroutine'):
            nm=Names(); kit=Kit(nm); ci=ctxn().index(c); defs,st=contexts(nm,kit)[ci][1](fault(kit,kd)); cnt=Var(nm('cnt'),INT,None,glob=True); pd,pf=probe(nm,kit)
            strip=lambda q: q
            f=func(nm,'w',INT,[Var(nm('n'),INT,None)]); q=Var(nm('q'),INT,f); q.loop=True
            quiet=func(nm,'q',INT,[Var(nm('a'),INT,None)]); e=fault(kit,kd)(); use=x(N('cmp',INT,v(cnt),e,o='+')) if e.op!='x' else e
            qb=Var(nm('qa'),Arr(INT,10),quiet)
            d=[setbody(quiet,dcl(qb),iff(bop('>',v(quiet.params[0]),i(0),BOOL),blk(ret(bop('+',call(quiet,bop('-',v(quiet.params[0]),i(1))),N('i',INT,v(qb),i(3),n=10))))),use,ret(i(3)))]
            d+=[setbody(f,N('for',None,dcl(q,i(0)),bop('<',v(q),v(f.params[0]),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(tr(nm,f,lam(nm,f,INT,[],[ret(call(quiet,i(4)))]),INT,lambda R: [ev(i(1))],lambda R: [x(N('inc',INT,v(cnt),d=1,pre=False))]))),ret(v(cnt)))]
            if c!='fn': continue
            out.append(fcase('many-%s'%kd,kit.decls+[dcl(cnt)]+pd+d+[ev(call(f,i(3 if kd=='over' else n))),ev(call(pf,i(5)))]))
    return out
def unwound(kd='throw'):
    """a closure keeps the variables of a frame that an error left"""
    nm=Names(); kit=Kit(nm); keep=Var(nm('keep'),Fn(INT,[INT]),None,glob=True)
    f=func(nm,'f',INT,[Var(nm('a'),INT,None)]); loc=Var(nm('loc'),INT,f); d=Var(nm('d'),INT,None)
    e=fault(kit,kd)(); use=ev(e) if e.op!='x' else e
    clob=func(nm,'c',INT,[Var(nm('a'),INT,None)]); ar=Var(nm('ar'),Arr(INT,60),clob); q=Var(nm('q'),INT,clob); q.loop=True
    l=lam(nm,f,INT,[d],[x(N('cmp',INT,v(loc),v(d),o='+')),ret(v(loc))])
    defs=[setbody(f,dcl(loc,bop('*',v(f.params[0]),i(10))),asg(v(keep),l),ev(N('callf',INT,v(keep),i(1))),use,ret(i(1))),
          setbody(clob,dcl(ar),N('for',None,dcl(q,i(0)),bop('<',v(q),i(60),BOOL),x(N('inc',INT,v(q),d=1,pre=False)),blk(asg(N('i',INT,v(ar),v(q),n=60),bop('+',v(clob.params[0]),v(q))))),ret(N('i',INT,v(ar),i(7),n=60)))]
    return fcase('unwound-capture-%s'%kd,kit.decls+[dcl(keep)]+defs+[tr(nm,None,inlam(nm,None,[ev(call(f,i(5)))]),INT,okv,errm),ev(call(clob,i(1000))),ev(N('callf',INT,v(keep),i(1)))])
def cases(quick=True):
    out=[]
    K=kinds(Kit(Names())); C=ctxn()
    for a,kd in enumerate(K):
        for b,c in enumerate(C):
            if quick and (a+b)%2 and kd not in('oob','nullm','div','over','throw'): continue
            out.append(one(kd,c,2))
    acts=('keep','rethrow','other','ret')
    NK=['oob','uoob','nullm','nulli','div','ovf','nullcall','noret','over','throw','hthrow','assertm','castint','allocneg']
    for a,kd in enumerate(NK):
        for b,act in enumerate([(p,q) for p in acts for q in acts]):
            c=C[(a+b)%len(C)]
            if quick and (a+b)%3: continue
            out.append(nest(kd,c,2,act)); 
        for b,act in enumerate([('rethrow','rethrow','rethrow'),('rethrow','other','rethrow'),('other','rethrow','keep'),('keep','rethrow','ret'),('rethrow','keep','rethrow')]): out.append(nest(kd,C[(a+2*b)%len(C)],3,act))
    return [q for q in out if q]+objects()+messages()+results()+state()+many(40 if quick else 150)
if __name__=='__main__':
    import sys
    for c in cases(False):
        if c.id in sys.argv[1:]: print(c.text)
