"""Histories on a garbage collected heap (C09, C10): objects whose edges live in every kind of storage; memory limit accounting."""
import random,json
from ops import Prog
import machine as M
HEAD='''import verif; import std.gc; import std.error; import std.vector; import std.hashmap;
class N extendable
{
	int id;
}
// edges are read and written through virtual functions of the object
N ref N:get(int f){ return nullptr; }
void N:set(int f, N ref v){ }
N ref N:me(){ return this; }
int idof(N ref n){ return n ? n.id : 0; }
int sumof(N ref n){ return (2 * idof(n.get(1)) + 3 * idof(n.get(2))) % 9973; }
N ref[8] root;
'''
# storage of an edge: members, how to write v into it, how to read it
ST={
 'ref':('N ref %s;','%s = v;','return %s;'),
 'autoref':('auto ref %s;','if(v) %s = v; else %s = nullptr;','if(!%s) return nullptr; return N ref(%s);'),
 'uarr':('N ref[] %s;','%s = new N ref[3]; %s[1] = v;','return %s.size ? %s[1] : nullptr;'),
 'autoarr':('auto[] %s;','%s = auto_array(N ref, 2); %s.set(&v, 1);','if(!%s.size) return nullptr; N ref ref z = N ref ref(%s[1]); return *z;'),
 'clo':('N ref ref() %s;','N ref w = v; %s = auto(){ return w; };','return %s ? %s() : nullptr;'),
 'struct':('Box %s;','%s.q = v;','return %s.q;'),
 'farr':('N ref[3] %s;','%s[2] = v;','return %s[2];'),
 'inner':('Inner ref %s;','if(v){ %s = v.inner(); }else{ %s = nullptr; }','return %s ? %s.owner : nullptr;'),
 'co':('N ref ref() %s;','N ref w = v; coroutine N ref g(){ N ref u = w; w = nullptr; while(true) yield u; return u; } %s = g; g();','return %s ? %s() : nullptr;'),
 'cell':('N ref ref %s;','%s = new N ref; *%s = v;','return %s ? *%s : nullptr;'),
 'jag':('N ref[][] %s;','%s = new N ref[][2]; %s[1] = new N ref[2]; %s[1][0] = v;','return %s.size ? %s[1][0] : nullptr;'),
 'vec':('vector<N ref> %s;','%s.clear(); %s.push_back(v); %s.push_back(nullptr); %s.push_back(v);','return %s.size() ? %s[2] : nullptr;'),
 'map':('hashmap<char[], N ref> %s;','%s["k" + f.str()] = v; %s["z"] = nullptr;','N ref ref z = %s.find("k" + f.str()); return z ? *z : nullptr;'),
 'meth':('N ref ref() %s;','if(v) %s = v.me; else %s = nullptr;','return %s ? %s() : nullptr;'),
 'elem':('N ref ref %s;','N ref[] a = new N ref[100]; a[99] = v; %s = &a[99];','return %s ? *%s : nullptr;'),
 'bigelem':('N ref ref %s;','N ref[] a = new N ref[300]; a[299] = v; %s = &a[299];','return %s ? *%s : nullptr;'),
 'bytes':('N ref %s; char ref %s_c;','%s = v; char[] a = new char[1001]; a[1000] = v ? v.id : 0; %s_c = &a[1000];','if(!%s) return nullptr; return *%s_c == char(%s.id) ? %s : nullptr;'),
 'boxed':('auto ref %s;','Box b; b.q = v; %s = duplicate(b);','if(!%s) return nullptr; Box ref z = %s; return z.q;'),
 'structarr':('Box[] %s;','%s = new Box[2]; %s[1].q = v;','return %s.size ? %s[1].q : nullptr;'),
 'cloarr':('N ref ref()[] %s;','N ref w = v; N ref ref() q = auto(){ return w; }; %s = new N ref ref()[2]; %s[1] = q;','return %s.size ? %s[1]() : nullptr;'),
 'nested':('N ref ref() %s;','N ref w = v; auto o = auto(){ N ref y = w; return auto(){ return y; }; }; %s = o();','return %s ? %s() : nullptr;'),
 'str':('N ref %s; char[] %s_s;','%s = v; %s_s = "n" + idof(v).str();','if(!%s) return nullptr; return %s_s == "n" + (%s.id).str() ? %s : nullptr;'),
 'gen2':('Gen<N ref> %s;','%s.v = v; %s.p = new int;','return %s.v;'),
 'refarr':('N ref[] ref %s;','%s = new N ref[]; *%s = { v, v };','if(!%s) return nullptr; N ref[] z = *%s; return z.size ? z[1] : nullptr;'),
}
FIN='\tvoid finalize(){ evl(id); evl(sumof(this)); }\n'
FINA='\tvoid finalize(){ evl(id); int[] z = new int[id % 300]; char[] s = "f" + id.str(); junk(2, id); GC.CollectMemory(); evl(sumof(this) + z.size - id % 300); }\n'
def cls(num,sts,extra='',pad=''):
    t='class K%d : N\n{\n%s'%(num,pad)
    for f,s in enumerate(sts,1): t+='\t'+ST[s][0].replace('%s','e%d'%f)+'\n'
    fin=extra or (FINA if num%2 else FIN)
    g=s_=''
    for f,s in enumerate(sts,1):
        g+='\t\tif(f == %d){ %s }\n'%(f,ST[s][2].replace('%s','e%d'%f)); s_+='\t\tif(f == %d){ %s }\n'%(f,ST[s][1].replace('%s','e%d'%f))
    t+='\tN ref get(int f)\n\t{\n%s\t\treturn nullptr;\n\t}\n\tvoid set(int f, N ref v)\n\t{\n%s\t}\n'%(g,s_)
    return t+fin+'}\n'
def classes(R,names=None):
    """eight classes with two edges, a leaf and a phoenix"""
    names=names or R.sample(sorted(ST),len(ST))
    pick=[names[k%len(names)] for k in range(16)]
    t='class Box{ char p; N ref q; long r; }\nclass Gen<T>{ T v; int ref p; }\nclass Inner{ int pad; N ref owner; }\nclass Holder{ int a; Inner i; }\n'
    t+='Inner ref N:inner(){ Holder ref h = new Holder; h.i.owner = this; return &h.i; }\n'
    for k in range(8): t+=cls(k+1,pick[2*k:2*k+2],pad='\tint[140] pad;\n' if k==7 else '\tchar c;\n' if k%3==0 else '')
    t+=cls(9,[])
    t+=cls(10,[R.choice(names)],extra='\tvoid finalize(){ evl(id); evl(sumof(this)); root[7] = this; }\n')
    t+='class K20 : N\n{\n\tint[2] more;\n'+FIN+'}\n'
    t+='N ref mk(int k, int id)\n{\n\tN ref r;\n\tswitch(k)\n\t{\n'+''.join('\tcase %d: r = new K%d(); break;\n'%(k,k) for k in range(1,11))+'\t}\n\tr.id = id;\n\treturn r;\n}\n'
    t+='''N ref mkarr(int id, int at){ K20[] a = new K20[3]; for(int i = 0; i < 3; i++) a[i].id = id + i; return &a[at]; }
N ref step(N ref n, int seed, int edges){ return edges ? n.get(1 + (seed % 2) % edges) : nullptr; }
int edges(N ref n){ auto ref q = n; typeid t = typeid(q); if(t == K9 || t == K20) return 0; if(t == K10) return 1; return 2; }
void path(N ref n, int m, int seed){ if(!n || !m){ evi(0); return; } evi(n.id); path(step(n, seed, edges(n)), m - 1, seed / 2); }
void deep(N ref n, int m, int seed)
{
	if(!n || !m){ GC.CollectMemory(); junk(20, 1); evi(0); return; }
	auto ref y = n; N ref[2] z; z[1] = n; auto c = auto(){ return n.id; }; int ref p = &n.id;
	N ref next = step(n, seed, edges(n));
	n = nullptr;
	deep(next, m - 1, seed / 2);
	N ref u = N ref(y);
	evi(seed % 3 == 0 ? u.id : seed % 3 == 1 ? z[1].id : *p);
}
int three(int a, b, c){ evi(a); evi(b); evi(c); return 1; }
int later(N ref n){ GC.CollectMemory(); return n.id; }
N ref coll(N ref n){ GC.CollectMemory(); junk(5, 2); return n; }
int both(N ref a, N ref b, N ref c){ evi(a.id); evi(b.id); evi(c.id); return 1; }
coroutine N ref walker(N ref a, N ref b){ N ref x = a; N ref[2] keep; keep[1] = b; yield x; GC.CollectMemory(); yield keep[1]; junk(5, 3); yield x; return nullptr; }
void show(N ref n){ evi(idof(n)); }
void gen(N ref a, N ref b){ coroutine N ref w(N ref p, q){ N ref x = p; N ref[2] keep; keep[1] = q; yield x; GC.CollectMemory(); yield keep[1]; junk(5, 3); yield x; return nullptr; } show(w(a, b)); a = b = nullptr; GC.CollectMemory(); show(w(nullptr, nullptr)); show(w(nullptr, nullptr)); }
void clob(int n){ int[60] z; for(int i = 0; i < 60; i++) z[i] = n; if(n) clob(n - 1); }
int junkid = 0;
void junk(int n, int k)
{
	for(int i = 0; i < n; i++)
	{
		switch(k % 6)
		{
		case 0: { char[] s = "junk" + i.str(); s = s + "!"; } break;
		case 1: { int[] a = new int[i * 7 % 200 + 1]; a[0] = i; } break;
		case 2: { auto ref r = duplicate(i); auto c = auto(){ return r; }; c(); } break;
		case 3: { int ref ref p = new int ref; *p = new int; } break;
		case 4: { Box ref b = new Box(); Box[] v = new Box[i % 9]; } break;
		case 5: { vector<int> v; for(int q = 0; q < 9; q++) v.push_back(q); } break;
		}
	}
}
'''
    return t
OPS=dict(new='root[a - 1] = mk(c, b);',arr='root[a - 1] = mkarr(b, c);',drop='mk(c, b);',link='if(root[a - 1] && b <= edges(root[a - 1])) root[a - 1].set(b, root[c - 1]);',move='root[a - 1] = root[b - 1];',
 follow='root[a - 1] = root[b - 1] ? root[b - 1].get(c) : nullptr;',clear='root[a - 1] = nullptr;',see='if(root[a - 1]){ evi(root[a - 1].id); evi(sumof(root[a - 1])); }else{ evi(0); }',
 path='path(root[a - 1], 7, b);',deep='deep(root[a - 1], 7, b);',temps='both(mk(b, a), coll(mk(9, a + 1)), coll(mk(c, a + 2)));',gen='gen(root[a - 1], root[b - 1]);',junk='junk(a, b);',drain='')
def heap_prog(id,R,hist,gc,names=None,limit=None):
    pre=HEAD+'void junk(int n, int k);\n'+classes(R,names)
    names_=sorted(OPS); num={n:i for i,n in enumerate(names_)}
    t='void act(int op, int a, int b, int c)\n{\n\tswitch(op)\n\t{\n'
    for n in names_: t+='\tcase %d: // %s\n\t\t{ %s }\n\t\tbreak;\n'%(num[n],n,OPS[n])
    t+='\tdefault:\n\t\tevi(-777);\n\t}\n}\n'
    flat=[]
    for k,o in enumerate(hist): flat.append((k,num[o[0]])+tuple((list(o[1:])+[0,0,0])[:3]))
    t+='int[] data = { %s };\n'%', '.join('%d, %d, %d, %d, %d'%q for q in flat)
    t+='void go()\n{\n\tfor(int i = 0; i < data.size / 5; i++)\n\t{\n\t\tevh(short(data[i * 5]));\n\t\tif(data[i * 5 + 1] == %d){ clob(8); GC.CollectMemory(); clob(8); GC.CollectMemory(); }\n\t\telse act(data[i * 5 + 1], data[i * 5 + 2], data[i * 5 + 3], data[i * 5 + 4]);\n\t}\n}\ngo();\n'%num['drain']
    cmds=[['buildrun',pre+t]+(['gc'] if gc else []),['finalize']]
    return Prog(id,[(['heap'],[list(o) for o in hist]+[['end']])],pre+t,cmds)
def starts(p): return [(['heap'],h[1]) for h in p.hists]
def parse(lines,prog):
    """results per operation; what follows the run (finalizers of the remaining objects) belongs to the last one"""
    res=[]; ended=False
    for t in M.tokens(lines):
        if t[0]=='h' and not ended:
            if t[1]==len(res): res.append([])
            else: res[-1:]=[(res[-1] if res else [])+[['marker',t[1]]]]
        elif t[0]=='r': ended=True; res.append([])
        elif t[0]=='finalize': pass
        elif t[0] in('fail','buildfail','crash','timeout','exit','overflow','missing','cut'):
            if not res: res.append([])
            res[-1].append([t[0],json.dumps(t[1:])]); break
        elif res: res[-1].append(t)
    return [res]
def norm(res,op):
    out=[]; l=[]
    for t in res:
        if t[0]=='l':
            l.append(t[1][0]+65536*t[1][1])
            if len(l)==2: out.append(['F',l[0],l[1]]); l=[]
        elif t[0]=='m': out.append(['m',t[1]])
        else: out.append(t)
    if l: out.append(['half a finalizer call',l[0]])
    return out
def random_hist(R,n,phoenix=True):
    h=[]; nid=[0]     # slot 8 belongs to phoenix objects: only operations without allocations write it
    def ids(k=1): nid[0]+=k; return nid[0]-k+1
    K=lambda: R.choice([1,2,3,4,5,6,7,8,1,2,3,4,5,6,7,8,9]+([10] if phoenix else []))
    r=lambda: R.randrange(1,9); w=lambda: R.randrange(1,8); f=lambda: R.randrange(1,3)
    # objects to begin with
    for q in range(1,8): h.append(('new',q,ids(),K()))
    while len(h)<n:
        op=R.choices(['new','arr','drop','link','move','follow','clear','see','path','deep','temps','gen','junk','drain'],[10,2,2,20,4,6,6,4,6,4,2,2,4,5])[0]
        if op=='new':
            q=w(); a=ids()
            h.append(('new',q,a,K()))
        elif op=='arr': h.append(('arr',w(),ids(3),R.randrange(3)))
        elif op=='drop': h.append(('drop',0,ids(),R.choice([1,2,3,4,5,6,7,8,9])))
        elif op=='link': h.append(('link',r(),f(),r()))
        elif op=='move': h.append(('move',r(),r()))
        elif op=='follow': h.append(('follow',w(),r(),f()))
        elif op=='clear': h.append(('clear',r()))
        elif op=='see': h.append(('see',r()))
        elif op in('path','deep'): h.append((op,r(),R.randrange(128)))
        elif op=='temps': h.append(('temps',ids(3),R.choice([1,2,3,4,5,6,7,8,9]),R.choice([1,2,3,4,5,6,7,8,9])))
        elif op=='gen': h.append(('gen',r(),r()))
        elif op=='junk': h.append(('junk',R.randrange(1,60),R.randrange(6)))
        else: h.append(('drain',))
    return h
# ---------------------------------------------------------------- memory limit accounting
MEM='''import verif; import std.gc; import std.error; import std.hashmap; import std.vector;
class L{ int v; L ref n; }
class L2{ int v; L2 ref n; int[20] pad; }
class T{ T ref a; T ref b; auto ref c; int v; }
class F{ F ref n; int[10] d; int v; void finalize(){ v = 0; } }
class P{ P ref o; auto[] d; int v; }
auto ref[4] slots; int[4] kinds; int[4] counts; int[4] sums;
int item(int q){ return (q * 7 + 3) % 1000; }
void make(auto ref ref out, int kind, int n, int ref sum)
{
	int s = 0;
	switch(kind)
	{
	case 0: { int[][] a = new int[][n]; for(int i = 0; i < n; i++){ a[i] = new int[100]; a[i][99] = item(i); s += a[i][99]; } int[][] ref hh = new int[][]; *hh = a; *out = hh; } break;
	case 1: { L ref h; for(int i = 0; i < n; i++){ L ref x = new L(); x.v = item(i); x.n = h; h = x; s += x.v; } *out = h; } break;
	case 2: { L2 ref h; for(int i = 0; i < n; i++){ L2 ref x = new L2(); x.v = item(i); x.n = h; h = x; s += x.v; } *out = h; } break;
	case 3: { T ref h = new T(); h.v = item(0); s = h.v; T ref r = h; for(int i = 1; i < n; i++){ T ref x = new T(); x.v = item(i); x.a = h; h.b = x; x.c = h; h = x; s += x.v; } *out = h; } break;
	case 4: { F ref h; for(int i = 0; i < n; i++){ F ref x = new F(); x.v = item(i); x.n = h; h = x; s += x.v; } *out = h; } break;
	case 5: { char[][] a = new char[][n]; for(int i = 0; i < n; i++){ a[i] = item(i).str(); s += item(i); } char[][] ref hh = new char[][]; *hh = a; *out = hh; } break;
	case 6: { int ref()[] a = new int ref()[n]; for(int i = 0; i < n; i++){ int w = item(i); a[i] = auto(){ return w; }; s += w; } int ref()[] ref hh = new int ref()[]; *hh = a; *out = hh; } break;
	case 7: { P ref h; for(int i = 0; i < n; i++){ P ref x = new P(); x.v = item(i); if(h) x.o = h; else x.o = x; x.d = auto_array(int, 30); h = x; s += x.v; } *out = h; } break;
	case 8: { int[] a = new int[n * 50]; for(int i = 0; i < n; i++){ a[i * 50] = item(i); s += item(i); } *out = duplicate(&a[n > 1 ? 1 : 0]); *out = &a[0]; slotarr = a; } break;
	case 9: { vector<int> a; for(int i = 0; i < n; i++){ a.push_back(item(i)); s += item(i); } *out = duplicate(a); } break;
	}
	*sum = s;
}
int[] slotarr;
int total(auto ref o, int kind, int n)
{
	int s = 0;
	switch(kind)
	{
	case 0: { int[][] ref a = o; for(int i = 0; i < n; i++) s += (*a)[i][99]; } break;
	case 1: { L ref h = o; while(h){ s += h.v; h = h.n; } } break;
	case 2: { L2 ref h = o; while(h){ s += h.v; h = h.n; } } break;
	case 3: { T ref h = o; while(h){ s += h.v; h = h.a; } } break;
	case 4: { F ref h = o; while(h){ s += h.v; h = h.n; } } break;
	case 5: { char[][] ref a = o; for(int i = 0; i < n; i++) s += int((*a)[i]); } break;
	case 6: { int ref()[] ref a = o; for(int i = 0; i < n; i++) s += (*a)[i](); } break;
	case 7: { P ref h = o; for(int i = 0; i < n; i++){ s += h.v; h = h.o; } } break;
	case 9: { vector<int> ref a = o; for(int i = 0; i < n; i++) s += (*a)[i]; } break;
	}
	return s;
}
void once(int kind, int n){ auto ref o; int s; make(&o, kind, n, &s); o = nullptr; }
void hold(int slot, int kind, int n){ slots[slot] = nullptr; kinds[slot] = 0; counts[slot] = 0; sums[slot] = 0; auto ref o; int s; make(&o, kind, n, &s); slots[slot] = o; kinds[slot] = kind; counts[slot] = n; sums[slot] = s; }
void act(int op, int a, int b, int c)
{
	if(op == 0){ for(int i = 0; i < c; i++) once(a, b); evi(c); }
	if(op == 1){ hold(a - 1, b, c); evi(a); }
	if(op == 2){ int bad = 0; for(int i = 0; i < 4; i++) if(slots[i] && total(slots[i], kinds[i], counts[i]) != sums[i]) bad++; evi(bad + a); }
	if(op == 3){ slots[a - 1] = nullptr; evi(a); }
}
'''
MEM=MEM.replace('	case 8: { int[] a = new int[n * 50]; for(int i = 0; i < n; i++){ a[i * 50] = item(i); s += item(i); } *out = duplicate(&a[n > 1 ? 1 : 0]); *out = &a[0]; slotarr = a; } break;\n','').replace('int[] slotarr;\n','')
MEM=MEM.replace('int item(','void clob(int n){ int[60] z; for(int i = 0; i < 60; i++) z[i] = n; if(n) clob(n - 1); }\nint item(',1)
# per item: least bytes that are certainly live, most bytes including block rounding, plus a constant
ITEM={0:(400,600,0),1:(12,32,0),2:(92,128,0),3:(36,64,0),4:(52,64,0),5:(16,80,0),6:(16,256,0),7:(148,512,0),9:(4,40,0)}
SLACK=60000
def size(kind,n): a,b,c=ITEM[kind]; return a*n,b*n+40*n+SLACK
def mem_hist(R,limit,n):
    h=[]
    for _ in range(n):
        op=R.choices(['churn','hold','check','release'],[5,5,2,2])[0]; kind=R.choice(sorted(ITEM)); per=ITEM[kind]
        if op=='churn':
            total=R.choice([limit//50,limit//20,limit//6,limit//4]); cnt=max(1,total//(per[1]+40)); reps=max(1,min(200,2*limit//(cnt*per[0]))) if cnt*per[0]<limit else 1
            h.append(('churn',reps,2*size(kind,cnt)[1],kind,cnt))
        elif op=='hold':
            total=R.choice([limit//20,limit//8,limit//4,limit//2,limit,limit*2]); cnt=max(1,total//R.choice(per[:2])); lo,hi=size(kind,cnt); extra=0
            if kind==9: hi*=4
            h.append(('hold',R.randrange(1,5),lo,hi,kind,cnt))
        elif op=='check': h.append(('check',R.randrange(1,100)))
        else: h.append(('release',R.randrange(1,5)))
        if R.random()<.4: h.append(('check',R.randrange(1,100)))
    return h
def mem_prog(id,R,limit,hists,gc=False):
    flat=[]
    for h in hists:
        for k,o in enumerate(h):
            if o[0]=='churn': flat.append((k,0,o[3],o[4],o[1]))
            elif o[0]=='hold': flat.append((k,1,o[1],o[4],o[5]))
            elif o[0]=='check': flat.append((k,2,o[1],0,0))
            else: flat.append((k,3,o[1],0,0))
    t=MEM+'int[] data = { %s };\n'%', '.join('%d, %d, %d, %d, %d'%q for q in flat)
    t+='void go()\n{\n\tfor(int i = 0; i < data.size / 5; i++)\n\t{\n\t\tint k = data[i * 5];\n\t\tif(k == 0){ for(int q = 0; q < 4; q++) slots[q] = nullptr; }\n\t\tclob(6);\n\t\tevh(short(k));\n\t\tauto r = try(auto(){ act(data[i * 5 + 1], data[i * 5 + 2], data[i * 5 + 3], data[i * 5 + 4]); });\n\t\tif(!r) evm(r.message);\n\t}\n}\ngo();\n'
    return Prog(id,[(['mem',limit],[list(o[:4]) for o in h]) for h in hists],t,[['memlimit',str(limit)],['buildrun',t]])
def mem_norm(res,op): return [['m','memlimit' if t[1]=='alloc' else t[1]] if t[0]=='m' else t for t in res]
