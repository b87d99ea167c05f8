"""Histories of supplying modules and running programs that import them, for spec/Modules.tla (C12)."""
import os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from ops import Prog
import gen_host as GH
NAMES=['ma','mb','dir.mc','dir.md','me','sub.deep.mf','mg','dir.mh']
TEXT='''int g_N = ID;
int add_N(int x){ g_N += x; return g_N; }
auto gen_N(generic x){ g_N += 1; return int(x * 2 + ID); }
class C_N { int v; int get(){ return v * 10 + ID; } }
C_N mk_N(int v){ C_N c; c.v = v; return c; }
class T_N<T> { T v; int tget(){ return int(v * 3 + ID); } }
int over(C_N c){ return ID; }
typeid tid_N(){ return C_N; }
coroutine int next_N(){ int i = 0; while(1){ yield i; i++; } }
int alt_N(int x){ return x - ID; }
int ref(int) fn_N = add_N;
enum E_N { p_N = ID, q_N }
namespace S_N { int f(int x){ return x * 5 + ID; } }
int def_N(int x, int y = ID){ return x * 7 + y; }
C_N operator+(C_N a, C_N b){ C_N c; c.v = a.v + b.v + ID; return c; }
int int:ext_N(){ return *this * 6 + ID; }
char[] str_N(){ return "ID3"; }
int ref(int) cap_N(int k){ return int c(int x){ return x + k; }; }
int exp_N<@A, @B>(){ return sizeof(A) * 20 + sizeof(B) * 3 + ID; }
int exq_N<@A>(int x){ g_N += x; return sizeof(A) * 10 + ID; }
'''
TYPES=['char','int','long']
KINDS=['add','add','get','set','gen','gend','cls','tcls','over','sum','via','tid','next','fn','setfn','enum','ns','virt','def','oper','ext','str','cap','exp','exp','exp','exq','exq']
def sid(n): return n.replace('.','_')
def optext(u,o,k,us):
    """statement for operation o of unit u (k: its position)"""
    kind,name,x=o; n=sid(name); d=us[name]
    if kind=='via': return 'evi(via_%s_%s(%d));'%(n,sid(d['imp'][x%len(d['imp'])]),x)
    t={'add':'evi(add_N(X));','get':'evi(g_N);','set':'g_N = X;','gen':'evi(gen_N(X));','gend':'evi(gen_N(double(X)));','cls':'evi(mk_N(X).get());','tcls':'{ T_N<long> t; t.v = X; evi(t.tget()); }','over':'evi(over(mk_N(X)));','sum':'evi(sum_N());',
       'tid':'evi(tid_N() == C_N);','next':'evi(next_N());','fn':'evi(fn_N(X));','setfn':'fn_N = %s;'%('alt_N' if x%2 else 'add_N'),'enum':'evi(int(E_N.q_N));','ns':'evi(S_N.f(X));','virt':'{ B_R ref b = new B_N(); evi(b.virt(X)); }'.replace('R',sid(root(d,us))),'def':'evi(def_N(X));',
       'oper':'evi((mk_N(X) + mk_N(4)).v);','ext':'{ int q = X; evi(q.ext_N()); }','str':"{ char[] q = str_N(); evi((q[0] - '0') * 100 + (q[1] - '0') * 10 + (q[2] - '0')); }",'exp':'evi(exp_N with<%s, %s>());'%(TYPES[x%3],TYPES[x//3%3]),'exq':'evi(exq_N with<%s>(X));'%TYPES[x%3],'cap':'{ auto q = cap_N(X); evi(q(%d)); }'%d['id']}[kind]
    return t.replace('N',n).replace('X',str(x))
def root(u,us):
    for _ in range(20):
        if not u['imp'] or u['imp'][0] not in us: break
        u=us[u['imp'][0]]
    return u['name']
def spec(u): return {k:u[k] for k in('id','name','imp','bad','ops')}
class Gen:
    def __init__(s,R,steps):
        s.R=R; s.n=0; s.steps=steps; s.ops=[]; s.blobs={}; s.mods={}; s.prog=False
        names=R.sample(NAMES,R.randrange(3,7)); s.names=names; s.npaths=R.randrange(1,3); s.files=[{} for _ in range(s.npaths)]; s.host=[]
        hostp=R.random()
        for n in names:
            z=R.random()
            if z<hostp: s.host.append(n)
            elif z<.96: s.host+=[]; s.file(n)
        s.hv={}
        # a last step: errors in the files
        if R.random()<.3:
            c=[(f,n) for f in s.files for n in f]
            if c:
                f,n=R.choice(c); z=R.randrange(3); u=f[n]
                if z==0: f[n]=s.remake(u,bad=R.choice(list(GH.BAD)))
                elif z==1: f[n]=s.remake(u,imp=u['imp']+['nosuch'],ops=[])
                else:
                    d=[m for m in names if m!=n and m not in s.host and m not in u['imp']]+[n]
                    f[n]=s.remake(u,imp=u['imp']+[R.choice(d)],ops=[])
    def find(s,n):
        if n in s.mods: return s.mods[n]
        for f in s.files:
            if n in f: return f[n]
    def known(s,n): return s.find(n) or s.hv.get(n)
    def file(s,n):
        R=s.R; where=R.choice([[0],[s.npaths-1],list(range(s.npaths))]); earlier=[m for m in s.names[:s.names.index(n)]]
        for p in where: s.files[p][n]=s.make(n,[m for m in earlier if s.findfile(m) and R.random()<.5])
    def findfile(s,n): return any(n in f for f in s.files)
    def closure(s,imp,seen=None):
        seen=[] if seen is None else seen
        for n in imp:
            if n not in seen:
                u=s.known(n)
                if not u: continue
                seen.append(n); s.closure(u['imp'],seen)
        return seen
    def mkops(s,imp,k,own=None):
        R=s.R; us={n:s.known(n) for n in s.closure(imp)}
        if own: us[own['name']]=own
        out=[]
        for _ in range(k if us else 0):
            n=R.choice(sorted(us)); kind=R.choice(KINDS)
            if kind=='via' and not us[n]['imp']: kind='add'
            if own and n==own['name'] and kind in('gend','next'): kind='add'
            out.append([kind,n,R.randrange(0,9)])
        return out,us
    def make(s,n,imp):
        s.n+=1; u=dict(id=s.n,name=n,imp=imp,bad=False,ops=[]); u['ops'],us=s.mkops(imp,s.R.randrange(0,5),u); return s.render(u,us)
    def remake(s,u,bad=None,**k):
        v=dict(u); v.update(k); v['bad']=bool(bad); us={n:s.known(n) for n in s.closure(v['imp'])}; us[v['name']]=v
        return s.render(v,us,bad)
    def render(s,u,us,bad=None):
        n=sid(u['name']); i=str(u['id'])
        t='import verif; '+''.join('import %s; '%m for m in u['imp'])+'\n'+TEXT.replace('_N','_'+n).replace('ID3','%03d'%u['id']).replace('ID',i)
        t+='class B_%s extendable%s { int virt(int x){ return x * 100 + %s; } }\n'%(n,' : B_'+sid(u['imp'][0]) if u['imp'] else '',i)
        t+='int sum_%s(){ return %s; }\n'%(n,' + '.join('g_'+sid(m) for m in [u['name']]+u['imp']))
        for m in u['imp']: t+='int via_%s_%s(int x){ return add_%s(x); }\n'%(n,sid(m),sid(m))
        t+='evi(%d);\n'%(1000+u['id'])+'\n'.join(optext(u,o,k,us) for k,o in enumerate(u['ops']))+'\n'
        if bad: t+=GH.BAD[bad]+'\n'
        u['text']=t; return u
    def main(s):
        R=s.R; avail=[n for n in s.names if s.find(n)]; imp=R.sample(avail,R.randrange(0,min(len(avail),4)+1)) if avail else []
        if R.random()<.12: imp.append(R.choice(['nosuch']+[n for n in s.names if n not in imp]))
        R.shuffle(imp); s.n+=1; u=dict(id=s.n,name='main%d'%s.n,imp=imp,bad=False,ops=[]); u['ops'],us=s.mkops([m for m in imp if s.find(m)],R.randrange(2,14))
        if not all(s.find(m) for m in imp): u['ops']=[]
        bad=R.choice(list(GH.BAD)) if R.random()<.08 else None; u['bad']=bool(bad)
        u['text']='import verif; '+''.join('import %s; '%m for m in imp)+'\nevi(%d);\n'%(1000+u['id'])+'\n'.join(optext(u,o,k,us) for k,o in enumerate(u['ops']))+'\n'+(GH.BAD[bad]+'\n' if bad else '')+'return %d;'%u['id']
        return u
    def resolves(s,n,path=()):
        u=s.find(n)
        return bool(u) and n not in path and (n in s.mods or not u['bad']) and all(s.resolves(m,path+(n,)) for m in u['imp'])
    def compiles(s,u): return not u['bad'] and all(s.resolves(m) for m in u['imp'])
    def hostunit(s,n):
        """the version of a host module: a new one unless something compiled depends on the old one"""
        R=s.R; old=s.hv.get(n)
        used=lambda: any(n in s.closure(u['imp']) for u in list(s.blobs.values())+list(s.mods.values())+list(s.hv.values()))
        if old and (R.random()<.5 or used()): return old
        i=s.names.index(n); imp=[m for m in s.names[:i] if s.find(m) and R.random()<.5]
        u=s.make(n,imp); s.hv[n]=u; return u
    def op(s,*o): s.ops.append(list(o))
    def step(s):
        R=s.R; w=R.choice(['load']*5+['save']*4+['bin']*5+['remove']*2+['reinit']+['main']*9)
        if w in('load','save') and s.host:
            n=R.choice(s.host)
            if n in s.mods and R.random()<.7: return
            u=s.mods[n] if n in s.mods else s.hostunit(n)
            if R.random()<.1:
                b=s.remake(u,bad=R.choice(list(GH.BAD))); s.op('load',b); return
            s.op(w,u)
            if s.compiles(u):
                if w=='save': s.blobs[n]=u
                elif n not in s.mods: s.mods[n]=u
        elif w=='bin' and s.blobs:
            n=R.choice(sorted(s.blobs)); s.op('bin',n); s.mods.setdefault(n,s.blobs[n])
        elif w=='remove' and s.host:
            n=R.choice(s.host); s.op('remove',n); s.mods.pop(n,None)
        elif w=='reinit': s.op('reinit'); s.mods={}
        elif w=='main':
            u=s.main(); s.op('build',u)
            for _ in range(R.choice([1,1,1,2])): s.op('run')
    def make_(s):
        for n in s.host:
            if s.R.random()<.7:
                u=s.hostunit(n); s.op('load',u)
                if s.compiles(u): s.mods[n]=u
        while len(s.ops)<s.steps: s.step()
        return s.ops
def prog(id,g,base):
    """writes the files below base"""
    paths=[]
    for k,f in enumerate(g.files):
        for n,u in f.items():
            p=os.path.join(base,id,'p%d'%k,n.replace('.','/')+'.nc'); os.makedirs(os.path.dirname(p),exist_ok=True); open(p,'w').write(u['text'])
        paths.append(['importpath',os.path.join(base,id,'p%d'%k)+'/'])
    cmds=list(paths); sops=[]; text=''.join('file p%d %s:\n%s\n'%(k,n,u['text']) for k,f in enumerate(g.files) for n,u in f.items())
    for i,o in enumerate(g.ops):
        cmds.append(['log','h%d'%i]); k=o[0]
        if k=='load': cmds.append(['module',o[1]['name'],o[1]['text']])
        elif k=='save': cmds+=[['compile',o[1]['text']],['bytecode',o[1]['name']]]
        elif k=='bin': cmds.append(['modbin',o[1],o[1]])
        elif k=='remove': cmds.append(['removemodule',GH.mname(o[1])])
        elif k=='reinit': cmds+=[['reinit']]+paths
        elif k=='build': cmds.append(['build',o[1]['text']])
        else: cmds.append(o)
        sops.append([spec(x) if isinstance(x,dict) else x for x in o]); text+='%d %s\n'%(i,' '.join('%s\n%s'%(x['name'],x['text']) if isinstance(x,dict) else str(x) for x in o))
    return Prog(id,[([{n:spec(u) for n,u in f.items()} for f in g.files],sops)],text,cmds)
