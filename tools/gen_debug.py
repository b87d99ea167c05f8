"""programs of one statement per line and histories of breakpoints and debugger responses for spec/Debug.tla"""
import ops as O
def St(k,l=-1,f='',x=0,b=(),e=()): return dict(k=k,l=l,f=f,x=x,b=list(b),e=list(e))
class Gen:
    def __init__(s,R,budget=40,rec=True,fault=False,host=False):
        s.host=host; s.inf=False
        s.R=R; s.t=['import verif;']; s.ls=[]; s.fs={}; s.how={}; s.cost={}; s.budget=budget; s.rec=rec
        n=R.choice([0,1,1,2,2,3]); s.names=[]
        if R.random()<.4: s.t.append('class O{ int z; }'); s.meth=True
        else: s.meth=False
        for k in range(n):
            f='f%d'%k; kind=R.choice(['f','f','v','m' if s.meth else 'f']); s.how[f]=kind
            s.t.append('void %s(int x){'%('O:'+f if kind=='m' else f)); body=[]; s.cur=f; s.left=R.choice([3,8,14])
            c=s.block(body,R.choice([1,2,3]),1,True); s.t.append('}'); s.fs[f]=body; s.cost[f]=c; s.names.append(f)
        if s.meth: s.t.append('O o;')
        for f in s.names:
            if s.how[f]=='v': s.t.append('void ref(int) v%s = %s;'%(f,f))
        s.x=R.choice([0,1,2]); s.t.append('int x = %d;'%s.x); s.cur=''; s.left=budget; s.g=[]
        s.block(s.g,R.choice([2,3,5,7]),0,False)
        if fault: l=s.line('evi(1 / idi(0));'); s.g.append(St('fault',l))
        s.t.append('return 7;')
    def cond(s,c): return s.R.choice(['x > %d'%c,'x > %d'%c]+(['x','x != 0','!(!x)','x && x'] if c==0 else ['x >= 2','x - 1 > 0','x & 2']))
    def line(s,t): s.t.append(t); s.ls.append(len(s.t)-1); return len(s.t)-1
    def block(s,out,n,d,fn):
        R=s.R; cost=0
        for _ in range(n):
            if s.left<cost+2: break
            k=R.choice(['ev','ev','ev','call','call','if','loop','rec' if fn and s.rec and d<3 else 'ev','ret' if fn else 'ev']+(['host'] if s.host and d<2 else []))
            if k=='call':
                fs=[f for f in s.names if s.cost[f]+1<=s.left-cost]
                k='call' if fs else 'ev'
            if k=='ev': l=len(s.t); s.line('evi(%d);'%l); out.append(St('ev',l)); cost+=1
            elif k=='call':
                f=R.choice(fs); x=R.choice([0,1,2]); l=s.line({'f':'%s(%d);','v':'v%s(%d);','m':'o.%s(%d);'}[s.how[f]]%(f,x) if not(s.how[f]!='f' and (fn or s.inf)) else ''); 
                if not s.t[-1]: s.t[-1]='%s(%d);'%(f,x) if s.how[f]=='v' else 'evi(%d);'%l
                if s.t[-1].startswith('evi'): out.append(St('ev',l)); cost+=1
                else: out.append(St('call',l,f,x)); cost+=s.cost[f]+1
            elif k=='rec':
                s.t.append('if(%s)'%s.cond(0)); f=s.cur; l=s.line('%s(x - 1);'%f); out.append(St('if',x=0,b=[St('rec',l,f)])); cost+=1; cost*=2
            elif k=='ret': c=R.choice([0,1]); s.t.append('if(%s) return;'%s.cond(c)); out.append(St('ret',x=c))
            elif k=='host':
                l=s.line('hcall(auto(){'); b=[]; h=s.host; s.host=False; cur,s.cur=s.cur,''; inf,s.inf=s.inf,s.inf or fn; r=s.rec; s.rec=False; cost+=1; s.left,old=s.left-cost,s.left; c=s.block(b,R.choice([1,2]),2,False); s.left=old; s.host=h; s.cur=cur; s.inf=inf; s.rec=r; s.t.append('});'); out.append(St('host',l,b=b)); cost+=c
            elif k=='if':
                c=R.choice([0,1]); b=[]; e=[]; s.t.append('if(%s){'%s.cond(c)); cost+=s.block(b,R.choice([1,2]),d+1,fn); s.t.append('}else{'); cost+=s.block(e,R.choice([0,1,2]),d+1,fn); s.t.append('}'); out.append(St('if',x=c,b=b,e=e))
            else:
                m=R.choice([1,2,3]); b=[]; old=s.left; s.left=(s.left-cost)//m; v='i%d'%len(s.t); kind=R.randrange(4); s.t.append(['for(int %s = 0; %s < %d; %s++){'%(v,v,m,v),'for(int %s = %d; %s; %s--){'%(v,m,v,v),'int %s = %d; do{'%(v,m),'int %s = %d; while(%s--){'%(v,m,v)][kind]); c=s.block(b,R.choice([1,2,3]),d+1,fn); s.t.append('}while(--%s);'%v if kind==2 else '}'); s.left=old; out.append(St('loop',x=m,b=b)); cost+=c*m
        return cost
RESP=['go','go','step','step','into','into','out']
def acts(R,g,p):
    a=[]
    while R.random()<p and len(a)<3: k=R.choice(['del','del','add','one','clear']); a.append([k] if k=='clear' else [k,R.choice(g.ls)])
    return a
def script(R,g):
    if g.host: return [[acts(R,g,.2),'go'] for _ in range(R.choice([0,5,15]))]+([[[],'stop']] if R.random()<.2 else [])
    mode=R.choice(['go','into','step','out','mix','mix','mix']); n=R.choice([0,1,3,8,20,40]); p=R.choice([0,0,.15,.4]); q=[]
    for _ in range(n):
        r=R.choice(RESP) if mode=='mix' or R.random()<.15 else mode
        if R.random()<.02: r='stop'
        q.append([acts(R,g,p),r])
    if R.random()<.15: q.append([[],'stop'])
    return q
def ops(R,g,n):
    es=[f for f in g.names if g.how[f]!='m']; en=[R.choice(es),R.choice([0,1,2])] if es and R.random()<.35 else []
    o=[['plain'],['lines'],['code',en]]
    for _ in range(n):
        k=R.choice(['add','add','one','one','del','rel','rel','clear','run','run','run'])
        if k in('add','one'):
            for l in R.sample(g.ls,min(len(g.ls),R.choice([1,1,2,3]))): o.append([k,l])
        elif k=='del': o.append([k,R.choice(g.ls)])
        elif k=='rel': o.append([k,R.choice(['add','one','one','del']),R.randrange(1001)])
        elif k=='clear': o.append([k])
        else: o.append([k,script(R,g)])
    if o[-1][0]!='run': o.append(['run',script(R,g)])
    return o
def resp(e): return ''.join('clear;' if a[0]=='clear' else '%s:%d;'%(a[0],a[1]) for a in e[0])+e[1]
def prog(id,g,o):
    text='\n'.join(g.t); cmds=[['build',text]]
    en=o[2][1]; go=['runfn',en[0],'i',str(en[1])] if en else ['run']
    for k,x in enumerate(o):
        cmds.append(['log','h%d'%k])
        if x[0]=='plain': cmds+=[['bpfn','100000','go'],['run']]
        elif x[0]=='lines': cmds+=[['bplines']]
        elif x[0]=='code': cmds+=[['bpfn','100000','go'],['bpall'],go,['bpclear']]
        elif x[0]=='clear': cmds+=[['bpclear']]
        elif x[0]=='rel': cmds+=[['bprel',x[1],str(x[2])]]
        elif x[0]=='run': cmds+=[['bpfn','100000']+[resp(e) for e in x[1]]+['go'],go]
        else: cmds+=[['bp'+x[0],str(x[1])]]
    cmds.append(['log','z']); cmds.append(['bpclear'])
    P=dict(g=g.g,fs=g.fs or {'_':[]},x=g.x,ls=g.ls)
    return O.Prog(id,[(P,o)],'\n'.join('%3d %s'%(n,l) for n,l in enumerate(g.t)),cmds)
def parse(lines,prog):
    out=[]; o=prog.hists[0][1]; z=False
    for l in lines:
        if l=='end' or z: break
        p=l.split(' ')
        if p[0]=='log':
            if p[1]=='z': z=True; continue
            out.append([]); continue
        if not out:
            if p!=['build','ok']: out.append([[p[0],' '.join(p[1:])[:300]]])
            continue
        r=out[-1]; k=o[len(out)-1][0] if len(out)<=len(o) else ''
        if p[0]=='i': r.append(['i',int(p[1])])
        elif p[0] in('hc','he'): continue
        elif p[0]=='bp': r.append(['b',int(p[3]),int(p[4])])
        elif p[0] in('bpfn','bpall','run') and not(p[0]=='run' and p[1]=='fail'): continue
        elif p[0]=='bpclear':
            if k!='code': r.append(['a',int(p[1])])
        elif p[0] in('bpadd','bpone','bpdel'): r.append(['a',int(p[-1]) if p[-1]!='none' else -1])
        elif p[0]=='bprel': r.append(['x',int(p[1]),int(p[2])])
        elif p[0]=='lines': r+=[[int(q.split(':')[0]),int(q.split(':')[1])] for q in p[1:]]
        elif p[0]=='r': r.append(['r','done' if (p[1:]==['i','7'] if not prog.hists[0][1][2][1] or k=='plain' else p[1] in('v','0')) else ' '.join(p[1:])])
        elif p[0]=='run':
            m=bytes.fromhex(p[2]).decode(errors='replace') if len(p)>2 else ''
            r.append(['fail','stop' if 'execution was stopped after breakpoint' in m else 'fault' if 'integer division by zero' in m else m[:200]])
        else: r.append([p[0],' '.join(p[1:])[:300]])
    return [out]
