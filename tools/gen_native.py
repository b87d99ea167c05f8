"""Native functions of every kind of signature and the histories of calls through them, for spec/Native.tla (C14)."""
import os,sys,json,random
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import struct
from ops import Prog
# types: scalar names; ['class',name,[types]] for classes; ['arr',elem,n] for fixed arrays inside classes
SC={'bool':'bool','char':'char','short':'short','int':'int','long':'long long','float':'float','double':'double'}
PT={'ref':('int ref','int*'),'arr':('int[]','NULLCArray'),'any':('auto ref','NULLCRef'),'fun':('int ref(int)','NULLCFuncPtr'),'tid':('typeid','unsigned')}
SZ={'bool':1,'char':1,'short':2,'int':4,'long':8,'float':4,'double':8,'ref':8,'arr':12,'any':12,'fun':12,'tid':4}
AL={'bool':1,'char':1,'short':2,'int':4,'long':8,'float':4,'double':8,'ref':4,'arr':4,'any':4,'fun':4,'tid':4}
def align(t): return AL[t] if isinstance(t,str) else align(t[1]) if t[0]=='fix' else max([align(m) for m in t[2]] or [1])
def size(t):
    if isinstance(t,str): return SZ[t]
    if t[0]=='fix': return (size(t[1])*t[2]+3)//4*4                 # and of arrays
    o=0
    for m in t[2]: a=align(m); o=(o+a-1)//a*a+size(m)
    a=max(4,align(t)); return (o+a-1)//a*a                           # sizes of classes are multiples of 4
def csize(t):
    o=0
    for m in t[2]: a=align(m); o=(o+a-1)//a*a+size(m)
    a=align(t); return (o+a-1)//a*a
def leaves(t):
    if isinstance(t,str): return [t]
    if t[0]=='fix': return leaves(t[1])*t[2]
    return [x for m in t[2] for x in leaves(m)]
def packed(t): return any(x in PT and x!='tid' for x in leaves(t))
def nc(t): return SC.get(t,None) and t or PT[t][0] if isinstance(t,str) else t[1]
def cc(t): return (SC[t] if t in SC else PT[t][1]) if isinstance(t,str) else t[1]
def value(R,t):
    """(token, script literal, C++ literal) of a scalar"""
    if t=='bool': v=R.randrange(2); return str(v),['false','true'][v],['false','true'][v]
    if t in('char','short','int','long'):
        b={'char':8,'short':16,'int':32,'long':64}[t]; lo=-(1<<(b-1)); hi=-lo-1
        v=R.choice([lo,hi,-1,0,1,R.randrange(lo,hi+1),R.randrange(lo,hi+1),R.randrange(-9,100)])
        if t=='long': return str(v),('(-9223372036854775807l - 1l)' if v==lo else '%dl'%v),('(-9223372036854775807LL - 1LL)' if v==lo else '%dLL'%v)
        if t=='int': return str(v),('(-2147483647 - 1)' if v==lo else str(v)),('(-2147483647 - 1)' if v==lo else str(v))
        return str(v),'%s(%d)'%(t,v),'%s(%d)'%(t,v)
    v=R.choice([0.0,-0.0,1.0,-1.5,R.randrange(-10**6,10**6)/256.0,R.randrange(-99,99)/8.0,2.0**R.randrange(-7,30)])
    if t=='float': v=struct.unpack('f',struct.pack('f',v))[0]
    l='%r'%v
    if 'e' in l: l='%.30f'%v
    return '%.17g'%v,(l+'f' if t=='float' else l),(l+'f' if t=='float' else l)
def rand_class(R,k,prev):
    while True:
        n=R.choice([1,1,2,2,2,3,3,4,5,6,9]); ms=[]; ptr=R.random()<.3
        for _ in range(n):
            q=R.random()
            if q<.15 and prev:
                m=R.choice(prev)
            elif q<.25: m=['fix',R.choice(['int','float','double','char','short','long']),R.choice([2,3,4])]
            elif ptr and q<.6: m=R.choice(['ref','arr','any','fun'])
            else: m=R.choice(['bool','char','short','int','int','long','float','float','double','double'])
            ms.append(m)
        t=['class','C%d'%k,ms]; l=leaves(t)
        if packed(t) and any(x in('long','double') for x in l): continue
        if size(t)<=200: return t
BASE=[[],['int'],['float'],['double'],['long'],['char'],['short'],['float','float'],['float','float','float'],['float','float','float','float'],['int','float'],['float','int'],['int','double'],['double','int'],['double','float'],['double','double'],['long','double'],['double','long'],['long','long'],['int','int','int'],['float','float','int'],['int','float','float'],['char','char'],['char','short','int','long'],['char','double'],['double','double','double'],['int']*5,['int']*20,['ref'],['int','ref'],['ref','int'],['ref','ref'],['arr'],['int','arr'],['any'],['any','int'],['fun'],['fun','float'],['short','short','short','short','short'],['bool','bool','bool','bool','bool','bool','bool','bool'],['char']*3,['char']*9]
class Set:
    """a set of classes and native functions"""
    def __init__(s,R,nf,ncls=24):
        s.R=R; s.cls=[]
        for k,ms in enumerate(BASE): s.cls.append(['class','C%d'%k,ms])
        for k in range(len(BASE),len(BASE)+ncls): s.cls.append(rand_class(R,k,s.cls))
        for e,n in (('int',140),('double',40),('long',100)): s.cls.append(['class','C%d'%len(s.cls),[['fix',e,n]]])
        s.fns=[]; L=list(SC)+['int','double','float']; P=['ref','arr','any','fun','tid']
        small=[c for c in s.cls if size(c)<=16]; big=[c for c in s.cls if 16<size(c)<=200]; huge=s.cls[-3:]
        def ty():
            q=R.random()
            return R.choice(L) if q<.5 else R.choice(P) if q<.65 else R.choice(small) if q<.92 else R.choice(big)
        for k in range(nf):
            n=R.choice([0,1,1,2,2,3,3,4,5,6,7,8,9,10,12,14])
            mode=k%5
            if mode==0: args=[R.choice(s.cls) if i==0 else ty() for i in range(max(1,n))]
            elif mode==1: args=[R.choice(['int','long','char','ref',R.choice(small)]) for _ in range(n)]
            elif mode==2: args=[R.choice(['float','double','double','int',R.choice(small)]) for _ in range(n)]
            else: args=[ty() for _ in range(n)]
            ret=R.choice(['void',R.choice(L),R.choice(L),R.choice(small),R.choice(small),R.choice(big)]) if R.random()<.85 else R.choice(huge)
            if k<len(s.cls): ret=s.cls[k]                            # every class is returned and passed
            if R.random()<.25:
                c=[a for a in args if packed(a)]
                if c: ret=R.choice(c)
            if ret!='void' and packed(ret) and ret not in args: args=args+[ret]
            s.fns.append((args,ret,[s.vals(ret) for _ in range(3)] if ret!='void' and not packed(ret) else None))
        s.host=[]
        HL=['int','long','double','float','bool','char','short']
        hc=[c for c in s.cls if size(c)<=64 and all(isinstance(m,str) and m in SC for m in c[2])]
        for k in range(60):
            n=R.choice([0,1,2,3,4,6,9])
            args=[R.choice(HL) if R.random()<.75 else R.choice(hc) for _ in range(n)]
            s.host.append((args,R.choice(HL+['void']),[s.vals(a) for a in args]))
    def vals(s,t): return [value(s.R,x) if x!='tid' else ('1','int','NULLC_TYPE_INT') for x in leaves(t)]
def init(t,vs):
    """C++ initializer from the leaf literals"""
    if isinstance(t,str): return vs.pop(0)
    if t[0]=='fix': return '{ '+', '.join(init(t[1],vs) for _ in range(t[2]))+' }'+(', { 0 }' if size(t)>size(t[1])*t[2] else '')
    return '{ '+', '.join(init(m,vs) for m in t[2])+' }'
def cdef(t):
    f=' '.join(('%s m%d[%d];%s'%(cc(m[1]),i,m[2],' char x%d[%d];'%(i,size(m)-size(m[1])*m[2]) if size(m)>size(m[1])*m[2] else '') if not isinstance(m,str) and m[0]=='fix' else '%s m%d;'%(cc(m),i)) for i,m in enumerate(t[2]))
    if size(t)>csize(t): f+=' char pad[%d];'%(size(t)-csize(t))
    d='struct %s { %s };'%(t[1],f)
    return '#pragma pack(push, 4)\n%s\n#pragma pack(pop)'%d if packed(t) else d
def ndef(t):
    f=' '.join(('%s[%d] m%d;'%(nc(m[1]),m[2],i) if not isinstance(m,str) and m[0]=='fix' else '%s m%d;'%(nc(m),i)) for i,m in enumerate(t[2]))
    return 'class %s{ %s }'%(t[1],f)
def each(t,path):
    """[(leaf type, expression)]"""
    if isinstance(t,str): return [(t,path)]
    if t[0]=='fix': return [x for i in range(t[2]) for x in each(t[1],'%s[%d]'%(path,i))]
    return [x for i,m in enumerate(t[2]) for x in each(m,'%s.m%d'%(path,i))]
def decl(S,kind):
    """the source of a script module with the native functions"""
    return ''.join('%s %s%d(%s);\n'%('void' if r=='void' else nc(r),kind,k,', '.join('%s a%d'%(nc(a),i) for i,a in enumerate(args))) for k,(args,r,_) in enumerate(S.fns))
def cpp(S):
    """C++ source of the native functions, their modules and the host calls"""
    o=['#include "NULLC/nullc.h"','#include "NULLC/nullbind.h"','#include "NULLC/nullc_debug.h"','#include "host.h"','#include <stdlib.h>','#include <string.h>','#include <stdio.h>',
    'static int g_mode; static NULLCFuncPtr g_cb; static int g_count[4000];']
    for c in S.cls: o.append(cdef(c)); c[2] and o.append('static_assert(sizeof(%s) == %d, "layout");'%(c[1],size(c)))
    o.append('''
static void S(bool v){ LogF("t %d\\n", (int)v); } static void S(char v){ LogF("t %d\\n", (int)v); } static void S(short v){ LogF("t %d\\n", (int)v); }
static void S(int v){ LogF("t %d\\n", v); } static void S(long long v){ LogF("t %lld\\n", v); } static void S(float v){ LogF("t %.17g\\n", (double)v); } static void S(double v){ LogF("t %.17g\\n", v); }
static const char *TN(unsigned v){ unsigned n = 0; ExternTypeInfo *t = nullcDebugTypeInfo(&n); char *y = nullcDebugSymbols(NULL); return v < n ? y + t[v].offsetToName : "?"; }
static void S(unsigned v){ LogF("t %s\\n", TN(v)); }
static void S(int *v){ if(!v) LogF("t null\\n"); else LogF("t %d\\n", (*v)++); }
static void S(NULLCArray v){ LogF("t %u\\n", v.len); for(unsigned i = 0; i < v.len; i++) LogF("t %d\\n", ((int*)v.ptr)[i]); if(v.len) ((int*)v.ptr)[0] += 1; }
static void S(NULLCRef v){ LogF("t %s\\n", TN(v.typeID)); if(v.typeID == NULLC_TYPE_INT) S((int*)v.ptr); }
static void S(NULLCFuncPtr v){ if(!nullcCallFunction(v, 5)) LogF("t callfail\\n"); else LogF("t %d\\n", nullcGetResultInt()); }
static void after(int k)
{
	g_count[k]++;
	int mode = g_mode; g_mode = 0;
	if(mode == 1) nullcThrowError("native error %d", k);
	if(mode == 2)
	{
		if(!nullcCallFunction(g_cb, k)) { LogF("cbfail\\n"); char m[512]; snprintf(m, 512, "%.400s", nullcGetLastError()); nullcThrowError("%s", m); }
		else LogF("cb %d\\n", nullcGetResultInt());
	}
	if(mode == 3)
	{
		if(!nullcCallFunction(g_cb, k)) { LogF("cbfail\\n"); nullcClearError(); }
		else LogF("cb %d\\n", nullcGetResultInt());
	}
}
static void n_mode(int m, NULLCFuncPtr cb){ g_mode = m; g_cb = cb; }
static void n_mark(int k){ LogF("h %d\\n", k); }
static void t_i(long long v){ LogF("t %lld\\n", v); }
static void t_d(double v){ LogF("t %.17g\\n", v); }
static void t_s(NULLCArray v){ LogF("t %s\\n", v.ptr ? Hex(v.ptr, strlen(v.ptr)).c_str() : "-"); }
''')
    for k,(args,r,vals) in enumerate(S.fns):
        o.append('static %s f%d(%s)\n{'%('void' if r=='void' else cc(r),k,', '.join('%s a%d'%(cc(a),i) for i,a in enumerate(args))))
        o.append('\tLogF("f %d\\n");'%k)
        for i,a in enumerate(args):
            for t,e in each(a,'a%d'%i): o.append('\tS(%s);'%(e if t!='tid' else 'unsigned(%s)'%e))
        if r=='void': o.append('\tafter(%d);'%k)
        else:
            if vals is None: o.append('\t%s r = a%d;'%(cc(r),args.index(r)))
            else:
                o.append('\tstatic %s rs[3] = { %s };'%(cc(r),', '.join(init(r,[v[2] for v in vs]) for vs in vals)))
                o.append('\t%s r = rs[g_count[%d] %% 3];'%(cc(r),k))
            o.append('\tafter(%d);\n\treturn r;'%k)
        o.append('}')
    src='"%s"'%'\\r\\n"\n"'.join((' '.join([])+'void nmode(int m, int ref(int) f); void nmark(int k); void ti(long v); void td(double v); void ts(char[] v);\n'+'\n'.join(ndef(c) for c in S.cls)).split('\n'))
    o.append('bool NativeInit()\n{\n\tif(!nullcLoadModuleBySource("native.base", %s)) { printf("%%s\\n", nullcGetLastError()); return false; }'%src)
    o.append('\tnullcBindModuleFunctionHelper("native.base", n_mode, "nmode", 0); nullcBindModuleFunctionHelper("native.base", n_mark, "nmark", 0); nullcBindModuleFunctionHelper("native.base", t_i, "ti", 0); nullcBindModuleFunctionHelper("native.base", t_d, "td", 0); nullcBindModuleFunctionHelper("native.base", t_s, "ts", 0);')
    for kind,mod in (('r','native.raw'),('w','native.wrap')):
        o.append('\tif(!nullcLoadModuleBySource("%s", "import native.base;\\r\\n"\n%s)) { printf("%%s\\n", nullcGetLastError()); return false; }'%(mod,'\n'.join('"%s\\r\\n"'%l for l in decl(S,kind).split('\n'))))
        for k,(args,_,_) in enumerate(S.fns):
            o.append('\tif(!%s) { printf("%%s\\n", nullcGetLastError()); return false; }'%('nullcBindModuleFunction("%s", (void(*)())f%d, "r%d", 0)'%(mod,k,k) if kind=='r' else 'nullcBindModuleFunctionHelper("%s", f%d, "w%d", 0)'%(mod,k,k)))
    o.append('\treturn true;\n}')
    o.append('''static void RunLog(bool ok, unsigned)
{
	if(!ok) { const char *m = nullcGetLastError(); LogF("hfail %s\\n", Hex(m, strlen(m)).c_str()); nullcClearError(); return; }
	unsigned t = nullcGetResultType();
	LogF("hr %s", TN(t));
	if(t == NULLC_TYPE_INT || t == NULLC_TYPE_CHAR || t == NULLC_TYPE_SHORT || t == NULLC_TYPE_BOOL) LogF(" %d", nullcGetResultInt());
	else if(t == NULLC_TYPE_LONG) LogF(" %lld", nullcGetResultLong());
	else if(t == NULLC_TYPE_DOUBLE || t == NULLC_TYPE_FLOAT) LogF(" %.17g", nullcGetResultDouble());
	LogF("\\n");
}''')
    o.append('static bool scriptCall(int k, bool byValue)\n{\n\tNULLCFuncPtr f = { 0, 0 };\n\tswitch(k)\n\t{')
    for k,(args,ret,vs) in enumerate(S.host):
        a=''.join(', '+x for x in hargs(args,vs))
        o.append('\tcase %d: if(byValue){ if(!nullcGetFunction("s%d", &f)) { LogF("nofunction\\n"); return true; } RunLog(nullcCallFunction(f%s), 0); } else RunLog(nullcRunFunction("s%d"%s), 0); return true;'%(k,k,a,k,a))
    o.append('\t}\n\treturn false;\n}')
    o.append('bool NativeCommand(const std::vector<std::string> &a)\n{\n\tif(a[0] == "ncall") return scriptCall(atoi(a[1].c_str()), a.size() > 2);\n\treturn false;\n}')
    return '\n'.join(o)
def hargs(args,vs):
    """C++ arguments of a call by the host"""
    out=[]
    for a,v in zip(args,vs):
        if isinstance(a,str): out.append(v[0][2])
        else: out+=['(%s)(%s)'%(cc(l),x[2]) for l,x in zip(leaves(a),v)]                                 # classes member by member
    return out
class Gen:
    """a program that calls native functions and is called by the host"""
    def __init__(s,S,R): s.S=S; s.R=R; s.ops=[]; s.top=[]; s.main=[]; s.used={}; s.n=0; s.cells={'c%d'%i:[R.randrange(-50,50)] for i in range(5)}; s.cells.update({'a%d'%i:[R.randrange(-9,9) for _ in range(R.randrange(0,5))] for i in range(3)})
    def new(s): s.n+=1; return s.n
    def leaf(s,t):
        R=s.R
        if t in SC: v=value(R,t); return ['v',v[0]],v[1]
        if t=='tid': q=R.choice([('int',1),('double',2),('char',3),('C1',4),('C6',5)]); return ['tid',q[0],str(q[1])],q[0]
        if t=='arr': c=R.choice(['a0','a1','a2']); return ['arr',c],c
        c='c%d'%R.randrange(5)
        return [t,c],('&'+c if t!='fun' else 'f'+c)
    def arg(s,t,st):
        """parts, expression; statements go to st"""
        if isinstance(t,str):
            p,e=s.leaf(t)
            if s.R.random()<.4 and t!='any' : v='v%d'%s.new(); st.append('%s %s = %s;'%(nc(t),v,e)); e=v
            return [p],e
        v='v%d'%s.new(); st.append('%s %s;'%(t[1],v)); ps=[]
        for l,x in each(t,v): p,e=s.leaf(l); ps.append(p); st.append('%s = %s;'%(x,e))
        return ps,v
    def show(s,t,x):
        if isinstance(t,str):
            return 'ti(%s);'%x if t in('bool','char','short','int','long') else 'td(%s);'%x if t in SC else {'ref':'ti(*%s);'%x,'arr':'ti(%s.size); for(int i = 0; i < %s.size; i++) ti(%s[i]);'%(x,x,x),'any':'ti(int(%s));'%x,'fun':'ti(%s(7));'%x,'tid':'ti(tidn(%s));'%x}[t]
        if t[0]=='fix': return 'for(int i = 0; i < %d; i++){ %s }'%(t[2],s.show(t[1],x+'[i]'))
        return ' '.join(s.show(m,'%s.m%d'%(x,i)) for i,m in enumerate(t[2]))
    def cb(s,depth):
        R=s.R; k=s.new(); b=[]; n=R.randrange(-99,99); q=R.random()
        if q<.3: o=['ret',n]
        elif q<.5: o=['fail',n]; b.append('throw("cb error %d");'%n)
        elif q<.65: c='c%d'%R.randrange(5); o=['cell',n,c]; b.append('%s += k;'%c)
        else: o=['call',n,s.call(b,depth+1)]
        if o[0]=='fail': b=['if(k >= 0) '+b[0]]
        s.top.append('int cb%d(int k){ ti(%d); %s return %s; }'%(k,n,' '.join(b),'k + %d'%n if o[0]!='cell' else o[2]))
        return o,'cb%d'%k
    def call(s,st,depth=0,f=None):
        """a call of a native function and the display of its result"""
        R=s.R; k=R.randrange(len(s.S.fns)) if f is None else f; kind=R.choice('rw') if len(s.S.fns[k][0])<=15 else 'r'; args,ret,rets=s.S.fns[k]
        m=R.choice([0,0,0,0,1,2,2,3]) if depth<3 else 0; ps=[]; es=[]; cb=['ret',0]
        for a in args: p,e=s.arg(a,st); ps.append(p); es.append(e)
        if m:
            if m>1: cb,name=s.cb(depth)
            else: name='fc0'
            st.append('nmode(%d, %s);'%(m,name))
        call='%s%d(%s)'%(kind,k,', '.join(es))
        s.used['f%d'%k]={'pass':args.index(ret)+1 if ret!='void' and rets is None else 0,'rets':[[x[0] for x in v] for v in rets] if rets else []}
        if ret=='void': st.append(call+';')
        else:
            v='v%d'%s.new(); st.append('%s %s = %s;'%(R.choice(['auto',nc(ret)]),v,call)); st.append(s.show(ret,v))
        return [k,ps,m,cb]
    def step(s,f=None):
        R=s.R; st=['nmark(%d);'%len(s.ops)]
        if R.random()<.06:
            c=R.choice(s.S.cls); s.ops.append(['size',lay(c)]); s.main.append(st[0]+' ti(sizeof(%s));'%c[1]); return
        if R.random()<.35:
            b=[]; o=s.call(b,f=f); s.ops.append(['try']+o); k=s.new()
            s.main.append('%s { auto q%d = try(auto(){ %s return 1; }); if(q%d) ti(q%d.value); else { ts("caught"); ts(q%d.message); } }'%(st[0],k,' '.join(b),k,k,k)); return
        o=s.call(st,f=f); s.ops.append(['call']+o)
        if R.random()<.5: k=s.new(); s.top.append('void op%d(){ %s }'%(k,' '.join(st))); s.main.append('op%d();'%k)
        else: s.main.append('{ %s }'%' '.join(st))
    def fails(s,o):
        """a call ends with an error"""
        return o[2]==1 or o[2]==2 and s.cbfails(o[3],o[0])
    def cbfails(s,cb,k): return cb[0]=='fail' or cb[0]=='call' and s.fails(cb[2])
    def make(s,n,fs=None):
        cmds=[]; fs=list(fs or [])
        while len(s.ops)<n:
            before=(len(s.ops),len(s.main)); s.step(fs.pop() if fs else None)
            if s.ops[-1][0]=='call' and s.fails(s.ops[-1][1:]): break
        hs=s.R.sample(range(len(s.S.host)),8)
        for k in hs:
            args,ret,vs=s.S.host[k]; b=[]
            for i,a in enumerate(args): b.append(s.show(a,'p%d'%i))
            o=[]; fail=0
            if s.R.random()<.4: o=[s.call(b,1)]
            elif s.R.random()<.2: fail=1; b.append('throw("cb error %d");'%k)
            rv=value(s.R,ret) if ret!='void' else None
            if rv: b.append('return %s;'%rv[1])
            s.top.append('%s s%d(%s){ %s }'%(ret,k,', '.join('%s p%d'%(nc(a),i) for i,a in enumerate(args)),' '.join(b)))
            s.ops.append(['host',[x[0] for v in vs for x in v],o,fail,k,[ret]+([rv[0]] if rv else [])]); cmds.append(['ncall',k]+s.R.choice([[],['v']]))
        text='import native.base; import native.raw; import native.wrap; import std.error;\n'
        text+='int tidn(typeid t){ if(t == int) return 1; if(t == double) return 2; if(t == char) return 3; if(t == C1) return 4; if(t == C6) return 5; return 0; }\n'
        for c,v in s.cells.items(): text+='int %s = %d; int f%s(int x){ %s += x; return %s; }\n'%(c,v[0],c,c,c) if c[0]=='c' else 'int[] %s = new int[%d];%s\n'%(c,len(v),''.join(' %s[%d] = %d;'%(c,i,x) for i,x in enumerate(v)))
        text+='\n'.join(s.top)+'\n'+'\n'.join(s.main)+'\nreturn 1;'
        return s.ops,text,cmds
def lay(t):
    if isinstance(t,str): return ['s',t]
    if t[0]=='fix': return ['f',lay(t[1]),t[2]]
    return ['c',[lay(m) for m in t[2]]]
def prog(id,S,R,n,fs=None):
    g=Gen(S,R); ops,text,cmds=g.make(n,fs)
    return Prog(id,[({'fns':g.used,'cells':g.cells},ops)],text,[['buildrun',text]]+cmds)
import re,binascii
MSG=re.compile(r'(native error \d+|cb error -?\d+)')
def msg(h):
    t=binascii.unhexlify(h).decode(errors='replace') if re.match(r'^([0-9a-f]{2})+$',h) else h
    m=MSG.search(t); return m.group(1) if m else t[:80]
def parse(lines,prog):
    """results of each operation"""
    ops=prog.hists[0][1]; out=[]; hosts=[i for i,o in enumerate(ops) if o[0]=='host']; nh=0; done=False
    for l in lines:
        w=l.split(' ',2) if not l.startswith('t ') else l.split(' ',1)
        if w[0]=='h':
            if int(w[1])!=len(out): out.append([['marker',w[1]]])
            out.append([])
        elif w[0]=='end': break
        elif w[0]=='module': continue
        elif not done:
            if w[0]=='f': out and out[-1].append(['f',w[1]])
            elif w[0]=='t': out and out[-1].append(['t',w[1]])
            elif w[0]=='cb': out and out[-1].append(['cb',w[1]])
            elif w[0]=='cbfail': out and out[-1].append(['cbfail',''])
            else:
                done=True
                if w[0]=='r':
                    out+=[[['missing','']] for _ in range(len(out),hosts[0])]
                else:
                    if not out: out.append([])
                    out[-1].append(['fail' if w[0]=='run' else w[0],msg(l.split(' ')[-1])])
                    if w[0]!='run': break
                    out+=[[['missing','']] for _ in range(len(out),hosts[0])]
                if len(out)>hosts[0]: out=out[:hosts[0]]
                out.append([])
        else:
            if w[0] in('f','t','cb'): out[-1].append([w[0],w[1]])
            elif w[0]=='cbfail': out[-1].append(['cbfail',''])
            elif w[0]=='hr': out[-1].append(['hr',l[3:]]); out.append([])
            elif w[0]=='hfail': out[-1].append(['hfail',msg(w[1])]); out.append([])
            else: out[-1].append([w[0],l]); 
    # the script's copy of a message arrives as text
    for r in out:
        for q in range(len(r)-1):
            if r[q]==['t',binascii.hexlify(b'caught').decode()]: r[q]=['caught',msg(r[q+1][1])]; del r[q+1]; break
    return [out]
