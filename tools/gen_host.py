"""Histories of host API calls for spec/Host.tla and the command lists that perform them (C13, C19)."""
import os,sys,itertools,binascii
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from ops import Prog
MODS=['ma','mb','dir.mc']
BAD={'syntax':'int zz( { return 1; }','type':'int zz = "text";','name':'zzz = 5;','args':'evi(1, 2, 3);','open':'if(1){','dup':'int dd; float dd;','conv':'class ZC{ int a; } int zi = ZC();'}
def mname(m): return m.replace('.','/')+'.nc'
def ident(m): return m.replace('.','_')
def unit(id,main=True,init=5,imp=(),bad=None,nolink=False,fault=False,last=False,stmts=''):
    h='h%d'%id
    fns=[['w%d'%id,'w',id,h],['u%d'%id,'u',id,h]]
    if main: fns=[['f','f',0,'g'],['boom','boom',0,'g'],['c','c',0,'g']]+fns
    if last: fns=fns+[['l%d'%id,'last',id,'g']]
    t=('import __last; ' if last else 'import verif; ')+''.join('import %s; '%m for m in imp)+'\n'
    if main: t+='int g = %d; '%init
    t+='int %s = %d;\n'%(h,id+3)
    if main: t+='int f(int x){ g += x; evi(g); return g * 3; }\nint boom(int x){ g += x; int[4] a; a[x + 100] = 1; return 0; }\nint c(int x){ return f(x) + 1; }\nint ov(int x){ return 1; } int ov(double x){ return 2; }\ndouble dbl(double x){ return x; }\n'
    t+='int w%d(int x){ int[5] z; int y; long q; return x * 10 + %d + z[0] + z[x & 3] + y + int(q); }\nint u%d(int x){ int[12] d; for(int i = 0; i < 12; i++) d[i] = x * 77 + i + 1; %s += x + d[3] - d[3]; return %s; }\n'%(id,id,id,h,h)
    if last: t+='int l%d(int x){ g += x; return f(x) + %d; }\n'%(id,id)
    if nolink: t+='int missing%d(int x);\nint callit%d(){ return missing%d(3); }\n'%(id,id,id)
    if last: t+='return 0;'
    else:
        t+='evi(%d);\n'%id
        if main:
            for m in imp: t+='evi(mget%s(0)); madd%s(2);\n'%(ident(m),ident(m))
            t+='g = g + 1;\n'
            if fault: t+='evi(-%d); int[4] arr; arr[g + 50] = 1;\n'%id
            if bad: t+=BAD[bad]+'\n'
            t+='return g * 100 + %d;'%id
        else:
            if bad: t+=BAD[bad]+'\n'
            t+='return %d;'%(id*7)
    return dict(id=id,bad=bool(bad),nolink=nolink,main=main,fault=fault,init=init,imp=list(imp),fns=fns,gl=(['g'] if main else [])+[h],hv={h:id+3},mod='',last=last,text=t)
def module(m,v,bad=None):
    n=ident(m)
    t='import verif;\nint mg%s = %d;\nint mget%s(int x){ return mg%s * 10 + %d + x; }\nvoid madd%s(int x){ mg%s += x; }\nevi(%d);\n'%(n,v,n,n,v,n,n,1000+v)
    if bad: t+=BAD[bad]
    return dict(id=v,bad=bool(bad),nolink=False,main=False,fault=False,init=0,imp=[],fns=[['mget'+n,'mget',v,'mg'+n]],gl=['mg'+n],hv={'mg'+n:v},mod=m,last=False,text=t)
def spec(u): return {k:v for k,v in u.items() if k not in('text','last')}
def command(o):
    k=o[0]
    if k in('compile','build','analyze'): return [k,o[1]['text']]
    if k=='bytecode': return ['bytecodenc' if len(o)>2 and o[2] else 'bytecode',o[1]]
    if k in('runfn','callfn'): return [k,o[1],'i',str(o[2])]
    if k=='getfn': return ['getfn',o[1],o[1]]
    if k=='setfn': return ['setfn',o[1],o[2]]
    if k=='setbad': return ['setfn',o[1],'dbl']
    if k=='get': return ['geti',o[1]]
    if k=='set': return ['seti',o[1],str(o[2])]
    if k=='module': return ['module',o[1],o[2]['text']]
    if k=='removemodule': return ['removemodule',mname(o[1])]
    if k=='modules': return ['modules',mname(o[1])]
    if k=='setting': return ['optimize',str(o[1])]
    return list(map(str,o))
def specop(o):
    k=o[0]
    if k in('compile','build','analyze'): return [k,spec(o[1])]
    if k=='module': return [k,o[1],spec(o[2])]
    if k=='bytecode': return [k,o[1]]
    return list(o)
def prog(id,ops):
    cmds=[]
    for i,o in enumerate(ops):
        cmds.append(['log','h%d'%i])
        if o[0]=='setbad': cmds.append(['getfn','dbl','dbl'])
        cmds.append(command(o))
    text='\n'.join('%d %s'%(i,' '.join(str(x if not isinstance(x,dict) else '{%s}'%x['text']) for x in o)) for i,o in enumerate(ops))
    return Prog(id,[(0,[specop(o) for o in ops])],text,cmds)
def parse(lines,prog):
    out=[]
    for l in lines:
        if l=='end': break
        p=l.split(' ')
        if p[0]=='log':
            n=int(p[1][1:]); out.append([] if n==len(out) else [['marker',n]]); continue
        if not out: out.append([])
        r=out[-1]; msg=1 if len(p)>2 and p[-1] else 0
        if p[0]=='i': r.append(['i',int(p[1])])
        elif p[0]=='r': r.append(['r',int(p[2])] if len(p)>2 and p[1]!='d' else ['r',' '.join(p)])
        elif p[0]=='get': r.append(['none',0] if p[1]=='none' else ['get',int(p[1])])
        elif p[0] in('set','modules'): r.append([p[0],int(p[1])])
        elif p[0]=='lasterror': r.append([p[0],1 if len(p)>1 and p[1] else 0])
        elif p[0] in('clean','removed'): r.append(['ok',0])
        elif p[0]=='getfn':
            if prog.cmds[2*(len(out)-1)+1:] and len(r)==0 and prog.hists[0][1][len(out)-1][0]=='setbad': continue
            r.append(['ok',0] if p[1]=='ok' else ['fail',0])
        elif len(p)>1 and p[1]=='ok': r.append(['ok',0])
        elif len(p)>1 and p[1]=='fail': r.append(['fail',msg])
        else: r.append([p[0],' '.join(p[1:])])
    return [out]
class Gen:
    """random histories; follows the state only as far as needed to stay inside what is specified"""
    def __init__(s,R,steps,kinds=None):
        s.R=R; s.ops=[]; s.n=0; s.ctx=None; s.blobs={}; s.prog=[]; s.pm={}; s.mods={}; s.known=set(); s.h={}; s.fns={}; s.last=None; s.lastset=False; s.failed=False; s.steps=steps; s.red={}
        s.units={}
    def new(s,**k): s.n+=1; return unit(s.n,**k)
    def someunit(s):
        R=s.R; imp=[m for m in MODS if R.random()<(.5 if m in s.mods else .06)]
        z=R.random(); main=R.random()<.75
        kw=dict(main=main,init=R.randrange(0,9),imp=imp if main else [])
        if z<.15: kw['bad']=R.choice(list(BAD))
        elif z<.22: kw['nolink']=True
        elif z<.34 and main: kw['fault']=True
        return s.new(**kw)
    def compiles(s,u): return not u['bad'] and all(m in s.mods for m in u['imp'])
    def links(s,u): return not u['nolink'] and all(m in s.mods or m in s.pm for m in u['imp']) and not(set(f[0] for f in u['fns'])&set(f[0] for p in s.prog for f in p['fns']))
    def link(s,u):
        for m in u['imp']:
            if m not in s.pm: s.pm[m]=s.mods[m]; s.fns.update((f[0],f) for f in s.mods[m]['fns'])
        s.prog.append(u); s.fns.update((f[0],f) for f in u['fns'])
    def clean(s): s.prog=[]; s.pm={}; s.fns={}; s.known=set(); s.h={}; s.ctx=None
    def op(s,*o): s.ops.append(list(o))
    def needs(s,n):
        f=s.fns[n]; k=f[1]
        return {'g'} if k in('f','boom') else {'g'}|s.needs('f') if k in('c','last') else set() if k=='w' else {f[3]}
    def kind(s,n): return s.fns[n][1]
    def callable(s,n): return s.needs(n)<=s.known
    def build(s,u):
        s.op('build',u)
        if not s.compiles(u): s.ctx=None; s.failed=True; return
        s.clean(); s.failed=False; s.last=u
        if s.links(u): s.link(u)
        else: s.failed=True
    def step(s):
        R=s.R; was=s.failed; s.failed=False
        w=R.choice(['build']*5+['compile']*5+['bytecode']*4+['link']*6+['run']*6+['runfn']*8+['getfn']*3+['callfn']*4+['get']*5+['set']*4+['module']*4+['modbin']*2+['modcomp']*2+['removemodule']*2+['modules','result','result','result','clean','analyze','setfn','setfn','setbad','inc','inc','inc','setting','reinit'])
        if was and R.random()<.5: s.op('lasterror'); return
        if w=='build': s.build(s.someunit())
        elif w in('compile','analyze'):
            u=s.someunit(); s.op(w,u); ok=s.compiles(u); s.ctx=u if ok and w=='compile' else None; s.failed=not ok
        elif w=='bytecode':
            b='b%d'%R.randrange(3); s.op('bytecode',b)
            if s.ctx: s.blobs[b]=s.ctx; s.last=s.ctx
            else: s.failed=True
        elif w=='link':
            if not s.blobs: return
            b=R.choice(sorted(s.blobs)); u=s.blobs[b]
            if u['mod'] or u['last']: return
            s.op('link',b)
            if s.links(u):
                s.link(u)
                if R.random()<.4: s.run()
            else: s.failed=True
        elif w=='run': s.run()
        elif w=='runfn':
            names=[n for n in s.fns if s.callable(n)]
            if R.random()<.12 or not names: n=R.choice(['nosuch','ov','w999','']); s.op('runfn',n,1); s.failed=True; return
            n=R.choice(sorted(names)); s.op('runfn',n,R.randrange(0,9)); s.failed=s.kind(n)=='boom'
        elif w=='getfn':
            n=R.choice(sorted(s.fns)+['nosuch','ov']); s.op('getfn',n)
            if n in s.fns: s.h[n]=1
            else: s.failed=n!=''
        elif w=='callfn':
            n=[x for x in s.h if s.callable(x)]
            if n: n=R.choice(sorted(n)); s.op('callfn',n,R.randrange(0,9)); s.failed=s.kind(n)=='boom'
        elif w=='get':
            k=sorted(s.known) or ['g']; s.op('get',R.choice(k+['nosuch','g','h1']))
        elif w=='set':
            k=sorted(s.known) or ['g']; s.op('set',R.choice(k+['nosuch']),R.randrange(-20,60))
        elif w=='module':
            m=R.choice(MODS); s.n+=1; u=module(m,s.n,R.choice(list(BAD)) if R.random()<.2 else None); s.op('module',m,u)
            if m in s.mods: s.failed=True
            elif u['bad']: s.ctx=None; s.failed=True
            else: s.clean(); s.mods[m]=u; s.last=u
        elif w=='modcomp':
            m=R.choice(MODS); s.n+=1; u=module(m,s.n); b='m'+ident(m); s.op('compile',u); s.op('bytecode',b); s.ctx=u; s.blobs[b]=u; s.last=u
        elif w=='modbin':
            q=[b for b in s.blobs if s.blobs[b]['mod']]
            if q:
                b=R.choice(sorted(q)); m=s.blobs[b]['mod']; s.op('modbin',m,b)
                if m in s.mods: s.failed=True
                else: s.mods[m]=s.blobs[b]
        elif w=='removemodule':
            m=R.choice(MODS); s.op('removemodule',m); s.mods.pop(m,None)
        elif w=='modules': s.op('modules',R.choice(MODS))
        elif w=='result': s.op('result')
        elif w=='clean': s.op('clean'); s.clean()
        elif w=='reinit': s.op('reinit'); s.clean(); s.mods={}; s.h={}; s.last=None
        elif w=='setting': s.op('setting',R.randrange(3))
        elif w=='setfn':
            src=[x for x in s.h if s.kind(x) in('w','u','mget','boom')]
            dst=[x for x in s.fns if s.kind(x)!='last']
            if src and dst:
                d=R.choice(sorted(dst)+['nosuch']); r=R.choice(sorted(src)); s.op('setfn',d,r)
                if d in s.fns: s.fns[d]=[d]+s.fns[r][1:]
                else: s.failed=True
        elif w=='setbad':
            if any(p['main'] for p in s.prog): s.op('setbad',R.choice(sorted(s.fns))); s.failed=True
        elif w=='inc':                                       # extend the running program
            if s.prog and s.last is s.prog[0] and s.prog[0]['main'] and 'g' in s.known and not any(not p['last'] for p in s.prog[1:]) and all(s.mods.get(m) is s.pm[m] for m in s.prog[0]['imp']):
                u=s.new(main=False,last=True); s.op('compile',u); s.op('bytecode','inc',1); s.op('link','inc'); s.ctx=u; s.blobs['inc']=u; s.link(u)
                for _ in range(R.randrange(1,4)): s.op('runfn','l%d'%u['id'],R.randrange(0,9))
                s.op('get','g'); s.failed=False
                if s.kind('f')=='boom': s.ops=s.ops[:-1]
    def run(s):
        s.op('run')
        if not s.prog: s.failed=True; return
        s.known=set(g for p in s.prog for g in p['gl'])|set(g for m in s.pm.values() for g in m['gl']); s.failed=s.prog[0]['fault']
    def make(s):
        while len(s.ops)<s.steps: s.step()
        return s.ops

def alphabet():
    A=unit(1,init=2); B=unit(2,init=4,fault=True); X=unit(3,bad='type'); S=unit(4,main=False); K=unit(5,nolink=True); D=unit(6,init=1,imp=['ma']); M=module('ma',7); N=module('ma',8); Y=module('ma',9,'syntax')
    return [[['build',A]],[['build',B]],[['build',X]],[['build',S]],[['build',K]],[['build',D]],[['compile',A],['bytecode','a']],[['compile',D],['bytecode','d']],[['compile',S],['bytecode','s']],[['compile',X],['bytecode','x']],[['compile',A]],[['bytecode','x']],
            [['link','a']],[['link','d']],[['link','s']],[['run']],[['runfn','f',3]],[['runfn','boom',2]],[['runfn','mgetma',1]],[['runfn','w4',2]],[['set','g',7]],[['get','g'],['get','h1'],['get','h4'],['get','mgma']],
            [['module','ma',M]],[['module','ma',N]],[['module','ma',Y]],[['removemodule','ma']],[['clean']],[['reinit']],[['analyze',A]],[['analyze',X]],[['setfn','f','w1']],[['getfn','w1']]]
class Follow(Gen):
    """follows given operations"""
    def __init__(s): Gen.__init__(s,None,0)
    def apply(s,o):
        k=o[0]
        if k=='build':
            s.ctx=None
            if s.compiles(o[1]):
                s.clean()
                if s.links(o[1]): s.link(o[1])
        elif k=='compile': s.ctx=o[1] if s.compiles(o[1]) else None
        elif k=='analyze': s.ctx=None
        elif k=='bytecode':
            if s.ctx: s.blobs[o[1]]=s.ctx
        elif k=='link':
            if o[1] not in s.blobs: return False
            if s.links(s.blobs[o[1]]): s.link(s.blobs[o[1]])
        elif k=='clean': s.clean()
        elif k=='reinit': s.clean(); s.mods={}
        elif k=='run':
            if s.prog: s.run(); s.ops.pop()
        elif k=='module':
            if o[1] not in s.mods:
                if o[2]['bad']: s.ctx=None
                else: s.clean(); s.mods[o[1]]=o[2]
        elif k=='removemodule': s.mods.pop(o[1],None)
        elif k in('runfn','callfn') and o[1] in s.fns: return s.callable(o[1])
        elif k in('getfn','setfn'):
            if o[-1] not in s.fns: return False
            if k=='setfn' and o[1] in s.fns: s.fns[o[1]]=[o[1]]+s.fns[o[2]][1:]
        return True
def exhaustive(R,n,length=4):
    """histories of a fixed length over a small alphabet, evenly sampled; operations that are unspecified in a state are left out"""
    A=alphabet(); total=len(A)**length; out=[]
    for z in (range(total) if n>=total else R.sample(range(total),n)):
        ops=[]; f=Follow()
        def do(o):
            if f.apply(o): ops.append(o); f.ops.append(o)
        for _ in range(length):
            for o in A[z%len(A)]:
                if o[0]=='link' and o[1] not in f.blobs:
                    for p in A[6:9]:
                        if p[1][1]==o[1]:
                            for q in p: do(q)
                if o[0]=='setfn': do(['getfn',o[2]])
                do(o)
            z//=len(A)
        for o in [['get','g'],['modules','ma'],['run'],['get','g'],['runfn','u1',1]]: do(o)
        out.append(ops)
    return out
