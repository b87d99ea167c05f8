"""Overload sets and calls for the C06 check; what a call has to select is said by spec/Overload.tla."""
import re
import ops as O
NUM=['bool','char','short','int','long','float','double']
CLS={'A':[], 'B':['A'], 'C':['B','A'], 'S':[]}
def table():
    T={}
    def add(name,k,of='',gn=False,nm='',up=()):
        T[name]=dict(k=k,of=of,gn=gn,nm=nm,up=list(up),code=len(T)+1,len=0)
    for n in NUM: add(n,'n')
    for c,u in CLS.items(): add(c,'c',up=u)
    add('auto ref','ar'); add('auto[]','aa')
    for f in('int ref(int)','double ref(double)','void ref()'): add(f,'f')
    base=list(T)
    for b in('int','double','A','S'):
        add(b+'[]','u',b)
        for n in(2,3): add('%s[%d]'%(b,n),'a',b)
    for b in list(T): add(b+' ref','r',b) if b!='auto ref' else None
    add('auto ref[]','u','auto ref')
    n=len(T)
    add('generic','g',gn=True); add('@T','g',gn=True,nm='T'); add('@U','g',gn=True,nm='U')
    for g in('generic','@T','@U'):
        add(g+' ref','r',g,gn=True); add(g+'[]','u',g,gn=True)
    add('@T[] ref','r','@T[]',gn=True); add('@T ref[]','u','@T ref',gn=True) if 0 else None
    add('nullptr','nul'); add('$set','fs')
    return T
TY=table()
SHOW=[t for t,d in TY.items() if not d['gn'] and t not in('nullptr','$set')]
PRE='''import verif;
class A extendable{ int id; } class B extendable: A{ } class C: B{ } class S{ int id; }
A mkA(int n){ A x; x.id = n; return x; } B mkB(int n){ B x; x.id = n; return x; } C mkC(int n){ C x; x.id = n; return x; } S mkS(int n){ S x; x.id = n; return x; }
int tc(typeid t){ %s return 0; }
void gv(auto ref r){
 if(r == nullptr){ evi(-1); return; }
 typeid t = typeid(r);
 %s
 if(t == int ref(int)){ int ref(int) ref f = r; int ref(int) g = *f; if(g == nullptr) evi(-1); else evi(g(0)); return; }
 if(t == double ref(double)){ double ref(double) ref f = r; double ref(double) g = *f; if(g == nullptr) evi(-1); else evi(int(g(0.0))); return; }
 if(t == void ref()){ void ref() ref f = r; void ref() g = *f; if(g == nullptr) evi(-1); else g(); return; }
 if(t == auto[]){ auto[] ref f = r; if(f.size == 0) evi(-1); else gv((*f)[0]); return; }
 evi(-999);
}
bool gb = true; char gc = char(21); short gs = short(22); int gi = 23; long gl = 24l; float gf = 25.0f; double gd = 26.0;
A oa = mkA(31); B ob = mkB(32); C oc = mkC(33); S os = mkS(34);
A ref rab = &ob; A ref rac = &oc; B ref rbc = &oc; A ref raa = &oa;
int[3] a3; a3[0] = 41; int[2] a2; a2[0] = 42; int[] au = new int[4]; au[0] = 43; double[3] d3; d3[0] = 44.0; double[] du = new double[2]; du[0] = 45.0;
A[3] ca3; ca3[0].id = 46; A[] cau = new A[2]; cau[0].id = 47; S[2] sa2; sa2[0].id = 48; S[] sau = new S[2]; sau[0].id = 49;
int h1(int x){ return 51 + x; } double h2(double x){ return 52.0 + x; } void h3(){ evi(53); }
int hs(int x){ return 54 + x; } double hs(double x){ return 55.0 + x; }
auto ref gr = &gi; auto ref grb = &ob; auto[] gaa = a3;
'''%(' '.join('if(t == %s) return %d;'%(t,TY[t]['code']) for t in SHOW),
 '\n '.join(['if(t == %s){ evi(int(%s(r))); return; }'%(n,n) for n in NUM]+['if(t == %s){ %s ref p = r; evi(p.id); return; }'%(c,c) for c in CLS]
 +['if(t == %s[%s]){ %s[%s] ref p = r; if(p.size == 0) evi(-1); else evi(%s); return; }'%(b,n,b,n,'int((*p)[0])' if b in('int','double') else '(*p)[0].id') for b in('int','double','A','S') for n in('','2','3')]))
# argument expressions: (text, static type, value, dynamic type, overloads of a function name)
ARGS=[('true','bool',1),('char(2)','char',2),('short(3)','short',3),('4','int',4),('5l','long',5),('6.0f','float',6),('7.0','double',7),('0','int',0),
 ('gb','bool',1),('gc','char',21),('gs','short',22),('gi','int',23),('gl','long',24),('gf','float',25),('gd','double',26),
 ('oa','A',31),('ob','B',32),('oc','C',33),('os','S',34),('mkA(11)','A',11),('mkB(12)','B',12),('mkS(14)','S',14),
 ('&gi','int ref',23),('&gd','double ref',26),('&gc','char ref',21),('&oa','A ref',31,'A'),('&ob','B ref',32,'B'),('&oc','C ref',33,'C'),('&os','S ref',34,'S'),
 ('rab','A ref',32,'B'),('rac','A ref',33,'C'),('rbc','B ref',33,'C'),('raa','A ref',31,'A'),
 ('a3','int[3]',41),('a2','int[2]',42),('au','int[]',43),('d3','double[3]',44),('du','double[]',45),('ca3','A[3]',46),('cau','A[]',47),('sa2','S[2]',48),('sau','S[]',49),
 ('{8, 9, 10}','int[3]',8),('{8.0, 9.0}','double[2]',8),('&a3','int[3] ref',41),('&au','int[] ref',43),('&d3','double[3] ref',44),('&du','double[] ref',45),
 ('h1','int ref(int)',51),('h2','double ref(double)',52),('h3','void ref()',53),('hs','$set',0,'',['int ref(int)','double ref(double)']),
 ('gr','auto ref',23,'int'),('grb','auto ref',32,'B'),('gaa','auto[]',41),('nullptr','nullptr',-1)]
def arg(a,nm=''):
    t=a[1]; dyn=a[3] if len(a)>3 else (TY[t]['of'] if TY[t]['k']=='r' else t)
    return dict(t=t,nm=nm,n=a[2],dyn=dyn,fs=a[4] if len(a)>4 else [],pack=[],x=a[0])
PLAIN=[t for t in SHOW if TY[t]['k'] in('n','c','ar','aa','f','u')  or (TY[t]['k']=='r' and TY[t]['of'] in('int','double','char','A','B','C','S','int[]','double[]','int[3]'))]
PLAIN=[t for t in PLAIN if t!='auto ref[]']
OPER=['A','B','S','int','double','A ref','S ref','int[]']
GEN=['generic','@T','@U','generic ref','@T ref','generic[]','@T[]','@T[] ref']
DEF={'bool':('true',1),'char':('char(61)',61),'short':('short(62)',62),'int':('63',63),'long':('64l',64),'float':('65.0f',65),'double':('66.0',66),'A':('mkA(67)',67),'S':('mkS(68)',68)}
def par(t,nm,ex=False,df=False):
    return dict(nm=nm,t=t,ex=ex,df=df,dt=t if df else 'int',dn=DEF[t][1] if df else 0)
def psrc(f):
    seen=set(); o=[]
    for p in f['p']:
        t=p['t']
        for a in('@T','@U'):
            pass
        o.append(('explicit ' if p['ex'] else '')+t+' '+p['nm']+(' = '+DEF[p['t']][0] if p['df'] else ''))
    return ', '.join(o)
def body(f,i):
    s='evi(%d); '%i
    for p in f['p']:
        n=p['nm']
        if p['t']=='auto ref[]': s+='evi(%s.size); for(int i_ = 0; i_ < %s.size; i_++){ evi(tc(typeid(%s[i_]))); gv(%s[i_]); } '%(n,n,n,n)
        elif p['t']=='auto ref': s+='evi(tc(typeid(%s))); gv(%s); '%(n,n)
        elif p['t'] in('generic','@T','@U'): s+='if(typeof(%s) == auto ref){ auto ref z_ = %s; evi(tc(typeid(z_))); } else evi(tc(typeof(%s))); gv(%s); '%(n,n,n,n)
        elif TY[p['t']]['k']=='r' and TY[TY[p['t']]['of']]['k']=='c': s+='evi(tc(typeof(%s))); if(%s == nullptr) evi(-1); else gv(%s); '%(n,n,n)
        else: s+='evi(tc(typeof(%s))); gv(%s); '%(n,n)
    return s+'evi(1001);'
def sig(f): return (f['own'],tuple(p['t'].replace('@U','generic').replace('@T','generic') for p in f['p']))
class Set:
    """an overload set and the calls tried on it"""
    def __init__(s,R,pool,n,place,arity,gen=.2,named=.15):
        s.R=R; s.place=place; s.funs=[]; s.calls=[]
        seen=set(); k=0
        while len(s.funs)<n and k<60:
            k+=1; ar=R.choice(arity); ps=[]; names=['a','b','c','d'][:ar]
            if R.random()<.3: R.shuffle(names)
            isgen=R.random()<gen
            for q in range(ar):
                t=R.choice(GEN) if isgen and R.random()<.6 else R.choice(pool)
                ps.append(par(t,names[q]))
            if not isgen and ar and R.random()<.12: ps[-1]=par('auto ref[]',names[-1])
            if not isgen and ar and R.random()<.25:
                q=ar-1-(ps[-1]['t']=='auto ref[]')
                while q>=0 and ps[q]['t'] in DEF and R.random()<.7: ps[q]=par(ps[q]['t'],ps[q]['nm'],df=True); q-=1
            for q in range(ar):
                if gen==0 and R.random()<.1: ps[q]['ex']=True
            # @T has to be bound where it is first used
            f=dict(p=ps,gen=any(TY[p['t']]['gn'] for p in ps),own='')
            if place=='hier': f['own']=R.choice(['KA','KB','KC'])
            elif place=='method': f['own']='KS'
            if place=='oper' and (ar!=2 or any(p['df'] or p['t']=='auto ref[]' for p in ps) or not all(TY[p['t']]['k'] in('c','r','n','u') for p in ps) or not any(TY[p['t']]['k']=='c' for p in ps)): continue
            if place=='value' and (f['gen'] or any(p['df'] or p['ex'] or p['t']=='auto ref[]' for p in ps)): continue
            if sig(f) in seen or (place in('method','hier') and f['gen'] and R.random()<.5): continue
            seen.add(sig(f)); s.funs.append(f)
        s.gref=any(p['t'] in('generic ref','@T ref','@U ref') for f in s.funs for p in f['p'])
        s.hasgen=any(f['gen'] for f in s.funs); s.hasany=s.hasgen or any(p['t'] in('auto ref','auto ref[]') for f in s.funs for p in f['p'])
    def call(s,named=.15):
        R=s.R
        if s.place=='value':
            f=R.choice(s.funs); ts=[p['t'] for p in f['p']]
            if ts and R.random()<.4: ts[R.randrange(len(ts))]=R.choice(['int','double','A ref','auto ref','int[]'])
            o=[arg(R.choice([a for a in ARGS if a[1]==t] or [('nullptr',t,-1)])) for t in ts]
            if any(a['t']!=t for a,t in zip(o,ts)): return
            s.calls.append(dict(args=o,recv='',val=1)); return
        pool=[a for a in ARGS if not(a[1]=='nullptr' and s.hasgen) and not(a[1]=='$set' and s.hasany) and not(a[1]=='auto ref' and s.gref)]
        f=R.choice(s.funs); n=len(f['p'])
        if n and f['p'][-1]['t']=='auto ref[]': n+=R.choice([-1,0,1,2])
        elif s.place=='oper': n=2
        elif n and f['p'][-1]['df'] and R.random()<.5: n-=1
        elif R.random()<.05: n+=R.choice([-1,1])
        args=[]
        for q in range(max(0,n)):
            p=f['p'][min(q,len(f['p'])-1)]['t'] if f['p'] else ''
            near=[a for a in pool if a[1]==p or p==a[1]+' ref' or a[1]==p+' ref' or (p in NUM and a[1] in NUM) or (p and TY[p]['k'] in('c','r') and TY.get(a[1],{}).get('k') in('c','r')) or (p and TY[p]['k']=='u' and TY[a[1]]['k'] in('u','a'))]
            x=R.random()
            a=R.choice(near) if near and x<.75 else R.choice(pool)
            args.append(arg(a))
        if s.place=='oper':
            if not any(TY[a['t']]['k']=='c' for a in args): args[R.randrange(2)]=arg(R.choice([a for a in ARGS if a[1] in CLS]))
            if any(a['t'] in('nullptr','$set') for a in args): return s.call(named)
        elif f['p'] and args and R.random()<named and len(args)<=len(f['p']) and f['p'][-1]['t']!='auto ref[]':
            u=R.randrange(0,len(args)); names=[p['nm'] for p in f['p']][u:]
            if all(not({p['nm'] for p in g['p'][:u]}&set(names)) for g in s.funs):      # no candidate gets an argument twice
                R.shuffle(names)
                for a,nm in zip(args[u:],names): a['nm']=nm
        recv='' if s.place not in('method','hier') else 'KS' if s.place=='method' else R.choice(['KA','KB','KC'])
        s.calls.append(dict(args=args,recv=recv,val=0))
    def source(s,o):
        d=[]; own={}
        for i,f in enumerate(s.funs,1):
            t='void f(%s){ %s }'%(psrc(f),body(f,i)) if s.place!='oper' else 'int operator*(%s){ %s return 0; }'%(psrc(f),body(f,i))
            own.setdefault(f['own'],[]).append(t)
        x=', '.join((a['nm']+': ' if a['nm'] else '')+a['x'] for a in o['args'])
        if s.place=='oper': return None,PRE+'\n'.join(own[''])+'\nevi(1000); %s * %s;'%tuple('(%s)'%a['x'] for a in o['args'])
        if s.place=='value': return None,PRE+'\n'.join(own[''])+'\nevi(1000); void ref(%s) p_ = f; p_(%s);'%(', '.join(a['t'] for a in o['args']),x)
        if s.place=='global': return None,PRE+'\n'.join(own[''])+'\nevi(1000); f(%s);'%x
        if s.place=='space': return None,PRE+'namespace N{\n'+'\n'.join(own[''])+'\n}\nevi(1000); N.f(%s);'%x
        if s.place=='inside': return None,PRE+'\n'.join(own[''])+'\nvoid t_(){ evi(1000); f(%s); }\nt_();'%x
        if s.place=='module':
            k=len(own[''])//2
            return PRE+'\n'.join(own[''][:k]),'import verif; import ov;\n'+'\n'.join(own[''][k:])+'\nevi(1000); f(%s);'%x
        if s.place=='method': return None,PRE+'class KS{ int z; %s }\nKS o_; evi(1000); o_.f(%s);'%('\n'.join(own['KS']),x)
        return None,PRE+'class KA extendable{ int z; %s }\nclass KB extendable: KA{ %s }\nclass KC: KB{ %s }\nKA oKA; KB oKB; KC oKC; evi(1000); o%s.f(%s);'%('\n'.join(own.get('KA',[])),'\n'.join(own.get('KB',[])),'\n'.join(own.get('KC',[])),o['recv'],x)
def types(place):
    T=dict(TY)
    for c,u in(('KS',[]),('KA',[]),('KB',['KA']),('KC',['KB','KA'])): T[c]=dict(k='c',of='',gn=False,nm='',up=u,code=0,len=0)
    return T
def prog(id,s):
    hist=[(dict(types=types(s.place),funs=s.funs),[dict(args=[{k:v for k,v in a.items() if k!='x'} for a in o['args']],recv=o['recv'],val=o['val']) for o in s.calls])]
    cmds=[]; text=[]
    for k,o in enumerate(s.calls):
        m,p=s.source(o); cmds.append(['log','h%d'%k])
        if m and not k: cmds.append(['module','ov',m])
        cmds.append(['buildrun',p]); text.append('call %d: '%(k+1)+p.rsplit('evi(1000); ',1)[1])
    m,p=s.source(s.calls[0])
    return O.Prog(id,hist,(('module ov:\n'+m.replace(PRE,'')+'\n\n') if m else '')+p.replace(PRE,'').rsplit('evi(1000);',1)[0]+'\n'+'\n'.join(text),cmds)
def parse(lines,prog):
    out=[]
    for l in lines:
        if l=='end': break
        p=l.split(' ')
        if p[0]=='log': out.append([]); continue
        if not out: out.append([])
        r=out[-1]
        if p[0]=='i': r.append(['i',int(p[1])])
        elif p[0] in('module','r') or p==['run','ok']: continue
        elif p[0]=='build':
            if p[1]=='fail':
                m=bytes.fromhex(p[2]).decode(errors='replace') if len(p)>2 else ''
                r.append(['rejected',0] if re.search(r"ERROR: can't find function '(\S*f|\*)'|can't resolve generic type '[^']*' instance for|ERROR: ambiguity|function 'f' is not defined in class|no function 'f' taking|operation \\* is not supported on|no matching function|cannot find|cannot convert",m) else ['build',m[:300]])
        elif p[0]=='run' and p[1]=='fail' and len(p)>2 and bytes.fromhex(p[2]).startswith(b'ERROR: cannot convert from'): r.append(['fail',0])
        else: r.append([p[0],' '.join(p[1:])])
    return [out]
