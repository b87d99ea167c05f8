"""Programs of nested scopes that reuse few names, for the C18 check; what every name denotes is said by spec/Scope.tla."""
import ops as O
OBJ=['a','b','c','d']; TYP=['K','L','P']; SPC=['N','M','Q']
class Gen:
    """statement trees; vis mirrors roughly what is visible so that most programs are accepted"""
    def __init__(s,R,size,risky=0,imports=False,names=3,mix=0):
        s.R=R; s.n=0; s.u=0; s.left=size; s.risky=risky; s.obj=OBJ[:names]; s.typ=TYP[:max(1,names-1)]; s.spc=SPC[:2]; s.mix=mix
        s.sc=[dict(k='ns',d={},p=[])]; s.nsd={(): s.sc[0]['d']}; s.fnames=[]; s.cnames=[]
        s.mod=s.module() if imports else []
        s.b=[]
        while s.left>0: s.b+=s.stmt(0)
        if not s.b: s.b=[dict(k='var',n='z_',id=s.id())]
    def id(s): s.n+=1; return s.n
    def uid(s): s.u+=1; return s.u
    def oname(s):
        if s.mix and s.R.random()<s.mix: return s.R.choice(s.typ+s.spc)
        return s.R.choice(s.obj)
    def tname(s):
        if s.mix and s.R.random()<s.mix: return s.R.choice(s.obj+s.spc)
        return s.R.choice(s.typ)
    def nname(s):
        if s.mix and s.R.random()<s.mix: return s.R.choice(s.obj+s.typ)
        return s.R.choice(s.spc)
    # rough visibility
    def here(s): return s.sc[-1]['d']
    def path(s): return next(x['p'] for x in reversed(s.sc) if x['k']=='ns')
    def free(s,n,k,a=0):
        if s.R.random()<s.risky: return True
        d=s.here()
        if k=='v': return n not in d
        if k=='f':
            if any(q!=a if kk=='f' and False else kk!='f' for kk,q,_ in d.get(n,[])): return False
            for x in reversed(s.sc):
                e=x['d'].get(n,[])
                if any(kk=='f' and q==a for kk,q,_ in e): return False
                if x is not s.sc[-1] and any(kk=='v' for kk,_,_ in e) and x['k'] in('blk','fn'): break
            return True
        if k=='t': return n not in d and not any(n in x['d'] and any(kk=='t' for kk,_,_ in x['d'][n]) for x in s.sc)
    def add(s,n,k,a=0,i=0): s.here().setdefault(n,[]).append((k,a,i))
    def visible(s,k):
        o=set(); hid=set()
        for x in reversed(s.sc):
            for n,e in x['d'].items():
                if n in hid: continue
                for kk,a,_ in e:
                    if kk==k: o.add((n,a))
                if k!='f' or x['k'] in('ns','cls') or any(kk=='v' for kk,_,_ in e): hid.add(n)
        return sorted(o)
    def qualified(s,k):
        o=[]
        for p,d in s.nsd.items():
            if p:
                for n,e in d.items():
                    for kk,a,_ in e:
                        if kk==k: o.append((n,a,list(p)))
        return sorted(o)
    def push(s,k,d=None,p=None): s.sc.append(dict(k=k,d={} if d is None else d,p=p))
    def pop(s): s.sc.pop()
    # pieces
    def var(s,n=None):
        for _ in range(5):
            n=s.oname()
            if s.free(n,'v'): s.add(n,'v'); return [dict(k='var',n=n,id=s.id())]
        return []
    def pick(s,k):
        v=[(n,a,[]) for n,a in s.visible(k)]; q=s.qualified(k); x=s.R.random()
        if not(v or q) and not x<s.risky: return None
        if x<s.risky*.5 or not(v or q):
            return ({'v':s.oname,'f':s.oname,'t':s.tname}[k](),s.R.choice([0,1,2]) if k=='f' else 0,[] if s.R.random()<.7 else [s.nname()])
        if q and (not v or x<.3):
            n,a,p=s.R.choice(q); cp=s.path()
            # a path relative to one of the enclosing namespaces
            c=0
            while c<len(cp) and c<len(p)-1 and cp[c]==p[c]: c+=1
            return n,a,p[s.R.randrange(0,c+1):]
        return s.R.choice(v)
    def use(s):
        p=s.pick('v'); return [dict(k='use',n=p[0],q=p[2])] if p else s.var()
    def setv(s):
        p=s.pick('v'); return [dict(k='set',n=p[0],q=p[2],v=s.id())] if p else s.var()
    def args(s,a):
        o=[]
        for _ in range(a):
            if s.R.random()<.5 and s.visible('v'): n,_,q=s.pick('v'); o.append(dict(k='use',n=n,q=q,v=0))
            else: o.append(dict(k='lit',n='',q=[],v=s.id()))
        return o
    def call(s):
        for _ in range(6):
            p=s.pick('f')
            if not p: return []
            n,a,q=p
            if n in s.fnames: continue          # could run for ever
            return [dict(k='call',n=n,q=q,a=s.args(a))]
        return []
    def typeuse(s):
        for _ in range(4):
            p=s.pick('t')
            if not p: return []
            n,_,q=p
            if n in s.cnames: continue
            return [dict(k='type',n=n,q=q,u=s.uid())]
        return []
    def body(s,depth,n):
        o=[]
        for _ in range(n): o+=s.stmt(depth+1)
        return o
    def fn(s,depth,lam=False,gen=False,method=False):
        R=s.R
        for _ in range(6):
            u=lam or gen; n=('l%d_'%s.uid()) if u else s.oname(); a=R.choice([0,0,1,1,2]) if not gen else R.choice([1,2])
            if u or s.free(n,'f',a) or method and not any(kk=='v' or q==a for kk,q,_ in s.here().get(n,[])): break
        else: return []
        s.add(n,'f',a); s.push('fn'); s.fnames.append(n); ps=[]
        for _ in range(a):
            m=[x for x in s.obj if x not in ps] or ['q%d_'%s.uid()]
            p=R.choice(m) if R.random()>=s.risky*.3 else s.oname()
            ps.append(p); s.add(p,'v')
        f=dict(k='fn',n=n,ps=ps,id=s.id(),lam=lam,gen=gen,b=s.body(depth,R.choice([1,2,3,4])))
        s.fnames.pop(); s.pop(); s.left-=1
        o=[f]
        if gen:
            s.push('blk'); w=[]
            for _ in range(R.choice([0,1,2])): w+=s.var()
            o.append(dict(k='blk',w='{',b=w+[dict(k='call',n=n,q=[],a=s.args(a),gen=True)],u=s.uid())); s.pop(); del s.here()[n]
        elif lam:
            o.append(dict(k='call',n=n,q=[],a=s.args(a)))
        return o
    def cls(s,depth):
        R=s.R
        for _ in range(5):
            n=s.tname()
            if s.free(n,'t'): break
        else: return []
        base=''; ext=R.random()<.35
        if not ext and R.random()<.5:
            bs=[x for x,_ in s.visible('t') if x not in s.cnames and s.extd.get(x)] if hasattr(s,'extd') else []
            if bs: base=R.choice(bs)
        if not hasattr(s,'extd'): s.extd={}
        s.extd[n]=ext
        s.add(n,'t'); inh=dict(s.bmem(base)) if base else {}
        s.push('cls',{m:list(e) for m,e in inh.items()}); s.cnames.append(n); ms=[]
        for _ in range(R.choice([0,1,1,2])):
            m=s.oname()
            if (m not in s.here() or R.random()<s.risky*.5): ms.append(dict(n=m,id=s.id())); s.add(m,'v')
        fs=[]
        for _ in range(R.choice([0,1,2])):
            fs+=s.fn(depth,method=True)
        own={m:list(e) for m,e in s.here().items()}
        s.push('fn'); tb=s.body(depth,R.choice([1,2,3])); s.pop()
        c=dict(k='class',n=n,base=base,ext=ext,ms=ms,fs=fs,tb=tb,id=s.id())
        s.cnames.pop(); s.pop(); s.mem[n]=own
        return [c]
    mem={}; inmod=False
    def bmem(s,n): return s.mem.get(n,{})
    def space(s,depth):
        R=s.R; q=[s.nname()]
        if R.random()<.2: q.append(s.nname())
        for x in q:
            p=tuple(s.path()+[x]); d=s.nsd.setdefault(p,{}); s.push('ns',d,list(p))
        b=s.body(depth,R.choice([1,2,3,4]))
        for _ in q: s.pop()
        return [dict(k='ns',q=q,b=b)]
    def stmt(s,depth):
        R=s.R; s.left-=1
        top=s.sc[-1]['k']=='ns'; deep=depth>4 or s.left<0
        w=[('var',9),('use',9),('set',4),('call',6),('type',4)]
        if not deep: w+=[('fn',6),('lam',2),('gen',1.5),('class',4),('blk',6),('for',3),('td',1)]+([('ns',6)] if top else [])
        if s.inmod and any(x['k']!='ns' for x in s.sc): w=[x for x in w if x[0] not in('class','td')]     # known finding: local types of a module
        k=R.choices([x for x,_ in w],[y for _,y in w])[0]
        if k=='var': return s.var()
        if k=='use': return s.use()
        if k=='set': return s.setv()
        if k=='call': return s.call()
        if k=='type': return s.typeuse()
        if k=='fn': return s.fn(depth)
        if k=='lam': return s.fn(depth,lam=True)
        if k=='gen': return s.fn(depth,gen=True)
        if k=='class': return s.cls(depth)
        if k=='ns': return s.space(depth)
        if k=='td':
            ts=s.visible('t'); n=s.tname()
            if ts and s.free(n,'t'):
                c=R.choice(ts)[0]
                if c not in s.cnames:
                    s.add(n,'t'); s.mem[n]=s.bmem(c); 
                    if hasattr(s,'extd'): s.extd[n]=s.extd.get(c)
                    return [dict(k='td',n=n,c=c,q=[])]
            return []
        if k=='blk':
            s.push('blk'); b=s.body(depth,R.choice([1,2,3,4])); s.pop()
            return [dict(k='blk',w=R.choice(['{','{','if','else','while','do','switch']),b=b,u=s.uid())]
        if k=='for':
            s.push('blk'); n=s.oname(); s.add(n,'v'); i=s.id(); s.push('blk'); b=s.body(depth,R.choice([1,2,3])); s.pop(); s.pop()
            return [dict(k='for',w=R.choice(['for','each']),n=n,id=i,b=b,u=s.uid())]
    def module(s):
        left=s.left; o=[]; s.left=6; s.inmod=True
        for _ in range(s.R.choice([2,3,4])):
            o+=s.R.choice([s.var,lambda:s.fn(3),lambda:s.cls(3),lambda:s.space(3),s.var])()
        s.left=left; s.inmod=False; return o
def chain(R):
    """one name declared at some levels of a nest of scopes, used at the innermost level and after every level closes"""
    g=[0]; n=R.choice(OBJ); other=R.choice(['v','f','f1'])
    def i(): g[0]+=1; return g[0]
    def decl(k):
        if k=='v': return [dict(k='var',n=n,id=i())]
        if k in('f','f1'): return [dict(k='fn',n=n,ps=['z'] if k=='f1' else [],id=i(),lam=False,gen=False,b=[dict(k='use',n='z',q=[])] if k=='f1' else [])]
        if k=='t': return [dict(k='class',n='K',base='',ext=False,ms=[],fs=[],tb=[],id=i())]
        return []
    kind=R.choice(['v','v','f','f','mix','t'])
    def k(): return R.choice(['',kind if kind!='mix' else R.choice(['v','f','f1'])]) if kind!='f' else R.choice(['','f','f1'])
    def use(): return [dict(k='type',n='K',q=[],u=i())] if kind=='t' else [dict(k='use',n=n,q=[])] if kind=='v' or kind=='mix' and R.random()<.5 else [dict(k='call',n=n,q=[],a=[] if R.random()<.6 else [dict(k='lit',n='',q=[],v=i())])]
    def level(d,where,first=False):
        o=decl(kind if first and kind!='mix' and R.random()<.85 else k())
        if d==0: return o+use()
        opts=['blk','fn','for','cls','lam']+(['ns','ns'] if where=='ns' else [])
        w=R.choice(opts); u=i()
        if w=='blk': m=[dict(k='blk',w=R.choice(['{','if','while','do','switch']),b=level(d-1,'blk'),u=u)]
        elif w=='for': m=[dict(k='for',w=R.choice(['for','each']),n=n if R.random()<.5 else 'y',id=i(),b=level(d-1,'blk'),u=u)]
        elif w in('fn','lam'):
            p=[n] if R.random()<.4 else []; nm='%s%d_'%(w,u)
            m=[dict(k='fn',n=nm,ps=p,id=i(),lam=w=='lam',gen=False,b=level(d-1,'fn')),dict(k='call',n=nm,q=[],a=[dict(k='lit',n='',q=[],v=i())]*len(p))]
        elif w=='ns': m=[dict(k='ns',q=[R.choice(SPC)],b=level(d-1,'ns'))]
        else:
            nm='C%d_'%u; ms=[]; fs=[]; 
            q=k()
            if kind!='t':
                if q=='v': ms=[dict(n=n,id=i())]
                elif q: fs=decl(q)
            m=[dict(k='class',n=nm,base='',ext=False,ms=ms,fs=fs,tb=level(d-1,'fn'),id=i()),dict(k='type',n=nm,q=[],u=i())]
        late=decl(k()) if R.random()<.15 else []
        return o+m+late+(use() if R.random()<.8 else [])
    return dict(mod=[],b=level(R.choice([1,2,2,3,3,4]),'ns',True))
# text
def q(t): return '.'.join(t.get('q',[])+[t['n']])
def atext(a): return str(a['v']) if a['k']=='lit' else q(a)
def fntext(t,ind):
    ty='generic' if t['gen'] else 'int'
    ps=', '.join(ty+' '+p for p in t['ps'])
    if t['lam']: return ind+'auto %s = auto(%s){\n%s%s return %d; };\n'%(t['n'],ps,text(t['b'],ind+' '),ind,t['id'])
    return ind+'int %s(%s){\n%s%s return %d; }\n'%(t['n'],ps,text(t['b'],ind+' '),ind,t['id'])
def text(b,ind=''):
    o=''
    for t in b:
        k=t['k']
        if k=='var': o+=ind+'int %s = %d;\n'%(t['n'],t['id'])
        elif k=='use': o+=ind+'evi(%s);\n'%q(t)
        elif k=='set': o+=ind+'%s = %d;\n'%(q(t),t['v'])
        elif k=='call': o+=ind+'evi(%s(%s));\n'%(q(t),', '.join(map(atext,t['a'])))
        elif k=='type': o+=ind+'{ %s t%d_; t%d_.ini_(); evi(t%d_.tag_()); }\n'%(q(t),t['u'],t['u'],t['u'])
        elif k=='fn': o+=fntext(t,ind)
        elif k=='td': o+=ind+'typedef %s %s;\n'%(t['c'],t['n'])
        elif k=='ns': o+=ind+'namespace %s{\n%s%s}\n'%('.'.join(t['q']),text(t['b'],ind+' '),ind)
        elif k=='blk':
            u=t['u']; w=t['w']; x=text(t['b'],ind+' ')
            o+=ind+{'{':'{\n%s}','if':'if(true){\n%s}','else':'if(idi(0) == 1){ } else {\n%s}','while':'{ int w%d_ = 0; while(w%d_ < 1){ w%d_++;\n%%s} }'%(u,u,u),'do':'do{\n%s}while(false);','switch':'switch(idi(1)){ case 0: evi(0); break; case 1:\n%s}'}[w].replace('%s',x+ind)+'\n'
        elif k=='for':
            u=t['u']; x=text(t['b'],ind+' ')
            o+=ind+({'for':'{ int w%d_ = 0; for(int %s = %d; w%d_ < 1; w%d_++){\n'%(u,t['n'],t['id'],u,u),'each':'for(%s in {%d}){\n'%(t['n'],t['id'])}[t['w']])+x+ind+('} }' if t['w']=='for' else '}')+'\n'
        elif k=='class':
            o+=ind+'class %s%s%s{\n'%(t['n'],' extendable' if t['ext'] else '',': '+t['base'] if t['base'] else '')
            for m in t['ms']: o+=ind+' int %s;\n'%m['n']
            own=' '.join('this.%s = %d;'%(m['n'],m['id']) for m in t['ms'])
            o+=ind+(' void ini_(){ ini0_(); %s }\n'%own if t['base'] else ' void ini0_(){ %s } void ini_(){ ini0_(); }\n'%own)
            for f in t['fs']: o+=fntext(f,ind+' ')
            o+=ind+' int tag_(){\n%s%s  return %d; }\n%s}\n'%(text(t['tb'],ind+'  '),ind,t['id'],ind)
    return o
def strip(b):
    """the tree as the specification reads it"""
    o=[]
    for t in b:
        if t['k']=='call': t=dict(t,g=t['n'].startswith('l') and t.get('gen',False))
        t={k:v for k,v in t.items() if k not in('u','w','gen')}
        for k in('b','fs','tb'):
            if k in t: t[k]=strip(t[k])
        o.append(t)
    return o
def prog(id,trees):
    cmds=[]; tx=[]; hist=[]
    for k,t in enumerate(trees):
        cmds.append(['log','h%d'%k]); imp=''
        if t['mod']:
            m='sm%d'%k; mt='import verif;\n'+text(t['mod']); cmds.append(['module',m,mt]); imp='import %s;\n'%m; tx.append('// %d module %s\n%s'%(k+1,m,mt))
        p='import verif;\n'+imp+text(t['b']); cmds.append(['buildrun',p]); tx.append('// %d\n%s'%(k+1,p))
        hist.append(dict(strict=bool(t.get('strict')),mod=strip(t['mod']),b=strip(t['b'])))
    return O.Prog(id,[(0,hist)],'\n'.join(tx),cmds)
def parse(lines,prog):
    out=[]
    for l in lines:
        if l=='end': break
        p=l.split(' ')
        if p[0]=='log': out.append([]); continue
        if not out: out.append([])
        r=out[-1]
        if p[0]=='i': r.append(['i',int(p[1])])
        elif p[0] in('module','r') or p==['run','ok'] or p==['build','ok']: continue
        elif p[0]=='build': r.append(['rej',0])
        else: r.append([p[0],' '.join(p[1:])[:200]])
    return [out]
def tree(g): return dict(mod=g.mod,b=g.b)

def V(n,i): return dict(k='var',n=n,id=i)
def U(n): return dict(k='use',n=n,q=[])
def F(n,i,b,ps=()): return dict(k='fn',n=n,ps=list(ps),id=i,lam=False,gen=False,b=b)
def C(n,i,tb): return dict(k='class',n=n,base='',ext=False,ms=[],fs=[],tb=tb,id=i)
def T(n,u): return dict(k='type',n=n,q=[],u=u)
def CALL(n): return dict(k='call',n=n,q=[],a=[])
# known findings (known-findings.txt), each a program that shows one
FINDINGS={'local-type-import':dict(mod=[F('f',1,[C('L',2,[])])],b=[T('L',3)],strict=True),
 'overload-local-class':dict(mod=[],b=[F('b',1,[]),C('K',2,[F('b',3,[U('z')],['z']),C('L',4,[CALL('b')]),T('L',5)]),T('K',6)],strict=True),
 'local-method-capture':dict(mod=[],b=[V('g',1),C('K',2,[F('d',3,[U('g')]),C('L',4,[CALL('d')]),T('L',5)]),T('K',6)],strict=True),
 'name-hash':dict(mod=[],b=[V('ab',1),V('bA',2),U('ab'),U('bA')],strict=True)}
