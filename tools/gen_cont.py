"""Operation histories on the standard containers (C16): programs that perform them and the operations for spec/Containers.tla."""
import itertools,random
from ops import Prog
ELEMS={ # element type: declarations, type, make, show
 'int':('','int','a','evi(a)'),
 'long':('','long','long(a) * 4294967296l + 7l','evi(a % 4294967296l == 7l || a < 0l ? int((a - 7l) / 4294967296l) : -12345)'),
 'char':('','char','char(a)','evi(a)'),
 'double':('','double','double(a) + 0.5','evi(a - 0.5 == double(int(a - 0.5)) ? int(a - 0.5) : -12345)'),
 'short':('','short','short(a)','evi(a)'),
}
HEAD='''import verif; import std.error; import std.algorithm; import std.vector; import std.list; import std.hashmap; import std.event; import std.range;
int sq(int seed, int k){ return (seed * (k + 3)) % 11; }
'''
CLASSES='''
class E3{ char p; int n; long q; }
bool operator==(E3 ref a, b){ return a.n == b.n && a.q == b.q; }
'''
def driver(types,body,reset,hists,opcode,T='int'):
    """program with a data-driven loop over histories; body: switch cases by operation name"""
    names=sorted(opcode); num={n:i for i,n in enumerate(names)}
    t='void act(int op, int a, int b, int c)\n{\n\tswitch(op)\n\t{\n'
    for n in names: t+='\tcase %d: // %s\n\t\t{ %s }\n\t\tbreak;\n'%(num[n],n,opcode[n])
    t+='\tdefault:\n\t\tevi(-777);\n\t}\n}\n'
    flat=[]
    for h in hists:
        for k,(op,a,b,c) in enumerate(h): flat.append((k,num[op],a,b,c))
    t+='int[] data = { %s };\n'%', '.join('%d, %d, %d, %d, %d'%q for q in flat)
    t+='void go()\n{\n\tfor(int i = 0; i < data.size / 5; i++)\n\t{\n\t\tint k = data[i * 5];\n\t\tif(k == 0){ %s }\n\t\tevh(short(k));\n\t\tauto r = try(auto(){ act(data[i * 5 + 1], data[i * 5 + 2], data[i * 5 + 3], data[i * 5 + 4]); });\n\t\tif(!r) evm(r.message);\n\t\tsee();\n\t}\n}\ngo();\n'%reset
    return t
def seq(seed,n): return [(seed*(k+3))%11 for k in range(n)]
def elem(T):
    if T=='E3': return CLASSES,'E3','E3 r; r.p = 3; r.n = a; r.q = long(a) * 1000l; return r;','evi(a.q == long(a.n) * 1000l && (a.p == 3 || a.n == 0 && a.p == 0) ? a.n : -12345);','a.n'
    if T=='ref': return CLASSES,'E3 ref','E3 ref r = new E3(); r.p = 3; r.n = a; r.q = long(a) * 1000l; return r;','evi(a.q == long(a.n) * 1000l ? a.n : -12345);','a.n'
    if T=='str': return '','char[]','return (a).str();','evi(int(a));','int(a)'
    d,ty,mk,sh=ELEMS[T]
    back={'int':'a','long':'int((a - 7l) / 4294967296l)','char':'int(a)','double':'int(a - 0.5)','short':'int(a)'}[T]
    return d,ty,'return %s;'%mk,sh+';',back
def vector_prog(id,T,hists):
    """hists: lists of spec operations"""
    d,ty,mk,sh,back=elem(T)
    cmpv={'E3':'a.n < b.n','ref':'a.n < b.n','str':'int(a) < int(b)'}.get(T,'a < b')
    pre=HEAD+d+'%s mk(int a){ %s }\nvoid sh(%s a){ %s }\nint un(%s a){ return %s; }\nint f2(%s a){ return un(a) * 2 + 1; }\nint odd(%s a){ return un(a) %% 2 == 1; }\n'%(ty,mk,ty,sh,ty,back,ty,ty)
    pre+='%s fo(%s a, %s b){ return mk((un(a) * 3 + un(b)) %% %d); }\nint neg(%s a){ return -un(a); }\n'%(ty,ty,ty,1000,ty)
    pre+='vector<%s> v;\nvoid see(){ evi(v.size()); for(x in v) sh(x); }\n'%ty
    pre+='%s[] sl(int seed, int n){ auto r = new %s[n]; for(int k = 0; k < n; k++) r[k] = mk(sq(seed, k)); return r; }\ncoroutine %s gen(int n){ for(int k = 1; k <= n; k++) yield mk(k + 10); return mk(0); }\n'%(ty,ty,ty)
    O=dict(push='v.push_back(mk(a));',pop='v.pop_back();',back='sh(*v.back());',front='sh(*v.front());',get='sh(v[a]);',set='v[a] = mk(b);',setback='*v.back() = mk(a);',resize='v.resize(a);',reserve='v.reserve(a); evi(v.capacity() >= a);',clear='v.clear();',destroy='v.destroy();',
        iter='for(x in v) sh(x);',iterset='for(x in v) x = mk(un(x) + 1);',sum='evi(v.sum(f2));',average='evi(v.average(f2));',minf='evi(v.min_element(neg));',maxf='evi(v.max_element(neg));',
        count='evi(v.count_if(odd));',all='evi(v.all(odd));',any='evi(v.any(odd));',fill='v.fill(sl(a, b));',assign='v = sl(a, b);',mult='v.push_back_mult(sl(a, b));',
        genfill='auto g = auto(){ int n = a; int k = 0; coroutine %s gg(){ for(int i = 1; i <= n; i++) yield mk(i + 10); return mk(0); } return gg; }; v.fill(g());'%ty,genmult='auto g = auto(){ int n = a; coroutine %s gg(){ for(int i = 1; i <= n; i++) yield mk(i + 10); return mk(0); } return gg; }; v.push_back_mult(g());'%ty,
        sortup='v.sort(auto(%s a, %s b){ return %s; });'%(ty,ty,cmpv),sortdown='v.sort(auto(%s a, %s b){ return %s; });'%(ty,ty,cmpv.replace('<','>')),
        foldl='sh(v.foldl(fo));',foldr='sh(v.foldr(fo));',map='auto m = v.map(f2); for(x in m) evi(x);',filter='auto m = v.filter(odd); for(x in m) sh(x);',slice='auto q = v[a, b]; sh(q[c]);')
    if T in ELEMS: O.update({'min':'sh(v.min_element());','max':'sh(v.max_element());','in':'evi(mk(a) in v);'})
    return emit(id,pre,O,'v.destroy();',hists,['vector'])
def emit(id,pre,O,reset,hists,start,enc=None):
    rows=[]
    for h in hists:
        row=[]
        for o in h:
            a=list(o[1:]); 
            if o[0] in('fill','assign','mult','copyin'): spec_args=a; a=[a[0][0],a[0][1]]
            row.append((o[0],)+tuple((a+[0,0,0])[:3]))
        rows.append(row)
    spec=[(start,[ [o[0],seq(*o[1])] if o[0] in('fill','assign','mult','copyin') else list(o) for o in h]) for h in hists]
    return Prog(id,spec,pre+driver(None,None,reset,rows,O))
NOSORT=('sortup','sortdown')
def model_vec(ops):
    """keeps only operations that are defined where they stand (aggregates of an empty vector are left out)"""
    out=[]; n=0; srt=True
    for o in ops:
        if o[0] in('min','max','minf','maxf','foldl','foldr') and n==0: continue
        if o[0] in('push',): n+=1
        elif o[0]=='pop': n=max(0,n-1)
        elif o[0]=='resize' and o[1]>=0: n=o[1]
        elif o[0] in('clear','destroy'): n=0
        elif o[0] in('fill','assign'): n=o[1][1]
        elif o[0]=='mult': n+=o[1][1]
        elif o[0]=='genfill': n=o[1]
        elif o[0]=='genmult': n+=o[1]
        out.append(o)
    return out
def vec_random(R,T,n):
    hi=30 if T!='char' else 20
    ops=[]; base=['push']*7+['pop']*3+['back','front','get','get','set','set','setback','resize','reserve','clear','destroy','iter','iterset','sum','average','minf','maxf','count','all','any','fill','assign','mult','genfill','genmult','sortup','sortdown','foldl','foldr','map','filter','slice','slice']
    if T in ELEMS: base+=['min','max','in','in']
    if T=='char': base=[b for b in base if b[:4]!='fold']
    for _ in range(n):
        o=R.choice(base); sz=R.choice([0,1,2,3,4,5,6,8,12])
        if o in('push','setback','in'): ops.append((o,R.randrange(hi)))
        elif o=='get': ops.append((o,R.randrange(-1,9)))
        elif o=='set': ops.append((o,R.randrange(-1,9),R.randrange(hi)))
        elif o=='resize':
            if T in('str','ref','long','double'): continue             # new elements are empty, not a number that was made
            ops.append((o,R.choice([-1,0,1,2,5,9,17])))
        elif o=='reserve': ops.append((o,R.choice([-1,0,1,5,16])))
        elif o in('fill','assign','mult'): ops.append((o,(R.randrange(1,9),R.choice([0,1,2,3,7]))))
        elif o in('genfill','genmult'): ops.append((o,R.randrange(0,5)))
        elif o=='slice': ops.append((o,R.randrange(-1,6),R.randrange(-1,8),R.randrange(-1,5)))
        else: ops.append((o,))
    return model_vec(ops)
LT='list_node<%s> ref'
def list_prog(id,T,hists):
    d,ty,mk,sh,back=elem(T)
    pre=HEAD+d+'%s mk(int a){ %s }\nvoid sh(%s a){ %s }\nint un(%s a){ return %s; }\nint f2(%s a){ return un(a) * 2 + 1; }\nint odd(%s a){ return un(a) %% 2 == 1; }\nint neg(%s a){ return -un(a); }\n'%(ty,mk,ty,sh,ty,back,ty,ty,ty)
    pre+='list<%s>[3] l;\nlist_node<%s> ref[9] hn;\n'%(ty,ty)
    pre+='void dump(int w){ for(x in l[w]) sh(x); evi(-1); auto n = l[w].end(); int guard = 0; while(n){ sh(n.elem); n = n.prev; if(guard++ > 500) break; } }\n'
    pre+='void see(){ evi(l[1].empty()); evi(l[2].empty()); dump(1); evi(-2); dump(2); }\nvoid shn(int k){ if(hn[k]){ evi(1); sh(hn[k].value); }else evi(0); }\n'
    pre+='int member(int w, int k){ if(!hn[k]) return 0; auto n = l[w].begin(); while(n){ if(n == hn[k]) return 1; n = n.next; } return 0; }\n'
    O=dict(pushb='l[a].push_back(mk(b));',pushf='l[a].push_front(mk(b));',popb='l[a].pop_back();',popf='l[a].pop_front();',insert='l[a].insert(hn[b], mk(c));',erase='l[a].erase(hn[b]);',clear='for(int z = 0; z < 9; z++) if(member(a, z)) hn[z] = nullptr; l[a].clear();',
        begin='hn[b] = l[a].begin(); shn(b);',end='hn[b] = l[a].end(); shn(b);',next='if(!member(a, b)) evi(7); else{ hn[b] = hn[b].next; shn(b); }',prev='if(!member(a, b)) evi(7); else{ hn[b] = hn[b].prev; shn(b); }',
        value='if(!hn[b]) evi(7); else sh(hn[b].value);',setvalue='if(!hn[b]) evi(7); else hn[b].value = mk(c);',back='sh(*l[a].back());',front='sh(*l[a].front());',setfront='*l[a].front() = mk(b);',
        iter='for(x in l[a]) sh(x);',iterset='for(x in l[a]) x = mk(un(x) + 1);',sum='evi(l[a].sum(f2));',average='evi(l[a].average(f2));',minf='evi(l[a].min_element(neg));',maxf='evi(l[a].max_element(neg));',count='evi(l[a].count_if(odd));',all='evi(l[a].all(odd));',any='evi(l[a].any(odd));')
    if T=='ref': O['setvalue']=O['setvalue'].replace('.value =','.elem =')
    if T in ELEMS: O.update({'min':'sh(l[a].min_element());','max':'sh(l[a].max_element());','in':'evi(mk(b) in l[a]);','find':'hn[b] = l[a].find(mk(c)); shn(b);'})
    return emit(id,pre,O,'l[1].clear(); l[2].clear(); for(int z = 0; z < 9; z++) hn[z] = nullptr;',hists,['list'])
def list_random(R,T,n):
    base=['pushb']*5+['pushf']*5+['popb','popf']*2+['insert']*4+['erase']*4+['clear','begin','end','next','prev','value','setvalue','back','front','setfront','iter','iterset','sum','average','minf','maxf','count','all','any']+['begin','end','next','prev']*2
    if T in ELEMS: base+=['min','max','in','find','find']
    ops=[]
    for _ in range(n):
        o=R.choice(base); w=R.choice([1,1,1,2]); s=R.randrange(1,5); x=R.randrange(12)
        if o in('pushb','pushf','setfront','in'): ops.append((o,w,x))
        elif o in('insert','setvalue','find'): ops.append((o,w,s,x))
        elif o in('erase','begin','end','next','prev','value'): ops.append((o,w,s))
        else: ops.append((o,w))
    return ops
KEYS={ # key type, keys 1..6 as source text, hash function or None
 'str':('char[]',['"a"','"b"','""','"ab"','"ba"','"a longer key"'],None),
 'int':('int',['0','1','-1','1024','2048','7'],'return a;'),
 'intc':('int',['0','1','-1','1024','2147483647','7'],'return 5;'),
 'intn':('int',['0','1','-1','1024','2147483647','-2147483647'],'return -a - 1;'),
 'cls':('KK',['kk(0, 1l)','kk(1, 0l)','kk(1, 1l)','kk(-1, 4294967296l)','kk(-1, 0l)','kk(5, 5l)'],'return a.x & 3;'),
 'long':('long',['0l','1l','4294967296l','-1l','4294967297l','9223372036854775807l'],'return int(a);'),
}
def map_prog(id,kt,vt,hists):
    ty,keys,hf=KEYS[kt]; d,vty,mk,sh,back=elem(vt)
    pre=HEAD+d+'class KK{ int x; long y; }\nKK kk(int x, long y){ KK r; r.x = x; r.y = y; return r; }\nbool operator==(KK a, b){ return a.x == b.x && a.y == b.y; }\n'
    pre+='%s mk(int a){ %s }\nvoid sh(%s a){ %s }\nint un(%s a){ return %s; }\n'%(vty,mk,vty,sh,vty,back)
    pre+='%s key(int k){ switch(k){ %s } return %s; }\n'%(ty,' '.join('case %d: return %s;'%(n+1,q) for n,q in enumerate(keys)),keys[0])
    if hf: pre+='int hf(%s a){ %s }\n'%(ty,hf)
    ctor='hashmap<%s, %s>(%s)'%(ty,vty,'hf' if hf else '')
    pre+='hashmap<%s, %s> m = %s;\n'%(ty,vty,ctor)
    pre+='void see(){ for(int k = 1; k <= 6; k++){ auto p = m.find(key(k)); if(p) sh(*p); else evi(-999); } }\n'
    extra={'str':'("x" + i.str())','int':'(i + 100000)','intc':'(i + 100000)','intn':'(i + 100000)','cls':'kk(i + 100000, 0l)','long':'(long(i) + 100000l)'}[kt]
    O=dict(set='m[key(a)] = mk(b);',read='sh(*m[key(a)]);' if False else 'sh(m[key(a)]);',find='auto p = m.find(key(a)); if(p){ evi(1); sh(*p); }else evi(0);',store='auto p = m.find(key(a)); if(p){ *p = mk(b); evi(1); }else evi(0);',
        remove='m.remove(key(a));',clear='m.clear();',many='int n = 0; for(int i = 0; i < b; i++) m[%s] = mk(i %% 100); for(int i = 0; i < b; i++){ auto p = m.find(%s); if(p && un(*p) == i %% 100) n++; } for(int i = 0; i < b; i++) m.remove(%s); evi(n);'%(extra,extra,extra))
    if vt=='int': O['add']='m[key(a)] += b;'
    return emit(id,pre,O,'m.clear();',hists,['map',6])
def map_random(R,vt,n):
    base=['set']*5+['read','find','find','store','remove','remove','remove','many']+(['clear'] if R.random()<.5 else [])+(['add']*3 if vt=='int' else [])
    if vt in('str','ref','long','double'): base=[b for b in base if b!='read']
    ops=[]
    for _ in range(n):
        o=R.choice(base); k=R.randrange(1,7)
        if o in('set','add','store'): ops.append((o,k,R.randrange(30)))
        elif o in('read','find','remove'): ops.append((o,k))
        elif o=='many': ops.append((o,1,R.choice([3,20,90])))
        else: ops.append((o,1))
    return ops
def event_prog(id,hists,args=1):
    tl=', '.join(['int']*args); pl=', '.join('int x%d'%q for q in range(args)); sm=' + '.join('x%d'%q for q in range(args)); al=', '.join(['a']+['0']*(args-1))
    pre=HEAD+'typedef void ref(%s) H;\nevent<H> e;\nH[6] hs;\n'%tl+''.join('void h%d(%s){ evi(%d + %s); }\n'%(q,pl,q*1000,sm) for q in(1,2,3))
    pre+='auto mkc(int n){ return auto(%s){ evi(n * 1000 + %s); }; }\nhs[1] = h1; hs[2] = h2; hs[3] = h3; hs[4] = mkc(4); hs[5] = mkc(5);\nvoid see(){ evi(bool(e)); }\n'%(pl,sm)
    O=dict(attach='e.attach(hs[a]);',plus='e += hs[a];',detach='e.detach(hs[a]);',minus='e -= hs[a];',clear='e.detach_all();',fire='e(%s);'%al)
    return emit(id,pre,O,'e.detach_all();',hists,['event'])
def event_random(R,n):
    ops=[]
    for _ in range(n):
        o=R.choice(['attach','attach','plus','detach','minus','fire','fire','clear'] if R.random()<.3 else ['attach','plus','detach','minus','fire','fire'])
        ops.append((o,R.randrange(1,6)) if o!='clear' else (o,))
    return ops
def range_prog(id,hists):
    pre=HEAD+'void see(){}\n'
    O={'range':'if(c == 1) for(i in range(a, b)) evi(i); else for(i in range(a, b, c)) evi(i);','nested':'int n = 0, s = 0; for(i in range(a, b)) for(k in range(a, b)){ n++; s += i; } evi(n); evi(s);'}
    return emit(id,pre,O,'',hists,['range'])
def array_prog(id,T,hists):
    d,ty,mk,sh,back=elem(T)
    cmpv={'E3':'a.n < b.n','ref':'a.n < b.n','str':'int(a) < int(b)'}.get(T,'*a < *b' if False else 'a < b')
    pre=HEAD+d+'%s mk(int a){ %s }\nvoid sh(%s a){ %s }\nint un(%s a){ return %s; }\nint f2(%s ref a){ return un(*a) * 2 + 1; }\n%s fo(%s a, %s b){ return mk((un(a) * 3 + un(b)) %% 1000); }\n'%(ty,mk,ty,sh,ty,back,ty,ty,ty,ty)
    pre+='%s[] v = new %s[0];\nvoid see(){ evi(v.size); for(x in v) sh(x); }\n%s[] sl(int seed, int n){ auto r = new %s[n]; for(int k = 0; k < n; k++) r[k] = mk(sq(seed, k)); return r; }\n'%(ty,ty,ty,ty)
    O=dict(new='v = new %s[a]; for(x in v) x = mk(0);'%ty,set='v[a] = mk(b);',get='sh(v[a]);',copyin='array_copy(v, sl(a, b));',dup='%s[] w = duplicate(v); for(x in v) x = mk(1); for(x in w) sh(x); v = w;'%ty,
        map='auto m = map(v, f2); for(x in m) evi(x);',foldl='sh(foldl(v, fo));',foldr='sh(foldr(v, fo));',
        sortup='sort(v, 0, v.size, auto(%s a, %s b){ return %s; });'%(ty,ty,cmpv),sortdown='sort(v, 0, v.size, auto(%s a, %s b){ return %s; });'%(ty,ty,cmpv.replace('<','>')),
        aset='auto[] t = v; int n = v.size; %s z = mk(b); t.set(&z, a); __force_size(&t, a >= n ? a + 1 : n); for(int k = n; k < a; k++){ %s zz = mk(0); t.set(&zz, k); } v = t;'%(ty,ty),
        bind='auto f = bind_first(auto(int x, y){ return x * 10 + y; }, a); auto g = bind_last(auto(int x, y){ return x * 10 + y; }, b); evi(f(b) == g(a) ? f(b) : -1);',
        comp='auto m = { for(x in v) if(un(x) %% 2 == 1) yield x; }; for(x in m) sh(x);'.replace('%%','%'))
    O['filter']='auto[] m = filter(v, auto(auto ref x){ %s ref p = x; return int(un(*p) %% 2 == 1); }); evi(m.size); %s[] mm = m; for(x in mm) sh(x);'%(ty,ty)
    if T in ELEMS: O['in']='evi(mk(a) in v);'
    return emit(id,pre,O,'v = new %s[0];'%ty,hists,['array'])
def array_random(R,T,n):
    ops=[('new',R.choice([0,1,3,5,8,33,50]))]; size=ops[0][1]
    base=['set','set','set','get','copyin','copyin','dup','map','filter','foldl','foldr','comp','sortup','sortdown','aset','aset','aset','bind']+(['in','in'] if T in ELEMS else [])
    if T=='char': base=[b for b in base if b[:4]!='fold']
    for _ in range(n):
        o=R.choice(base)
        if o=='set': ops.append((o,R.randrange(-1,size+2),R.randrange(20)))
        elif o=='get': ops.append((o,R.randrange(-1,size+2)))
        elif o=='copyin': ops.append((o,(R.randrange(1,9),R.choice([0,1,size,size,max(size-1,0),size+1]))))
        elif o=='aset': p=R.choice([0,size//2,size,size+1,size+size//2,size+size//2+1,size+7]); ops.append((o,p,R.randrange(20))); size=max(size,p+1)
        elif o=='bind': ops.append((o,R.randrange(9),R.randrange(9)))
        elif o=='in': ops.append((o,R.randrange(12)))
        else: ops.append((o,))
    return ops
def exhaustive(alpha,n): return [list(q) for q in itertools.product(alpha,repeat=n)]
if __name__=='__main__':
    R=random.Random(1)
    import sys
    k=sys.argv[1]
    P={'vector':lambda: vector_prog('v','int',[vec_random(R,'int',20)]),'list':lambda: list_prog('l','int',[list_random(R,'int',20)]),'map':lambda: map_prog('m','str','int',[map_random(R,'int',20)]),'event':lambda: event_prog('e',[event_random(R,20)]),'array':lambda: array_prog('a','int',[array_random(R,'int',20)])}[k]()
    print(P.text)
