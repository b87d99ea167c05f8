"""Validates recorded executions against spec/NullcMachine.tla (through spec/MachineTrace.tla)."""
import os,sys,json,subprocess,struct,binascii,tempfile,shutil,re,time
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import harness as H, lang as L
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KINDS=[('array index out of bounds','oob'),('integer division by zero','div0'),('integer overflow','ovf'),('null pointer access','null'),("function didn't return a value",'noret'),
 ('stack overflow','overflow'),('register overflow','overflow'),('null function','nullcall'),('invalid function pointer','nullcall'),('reached global memory maximum','memlimit'),("can't allocate array",'alloc'),('requested memory size is less','alloc'),('allocation failed','alloc'),
 ('Assertion failed','assert'),("doesn't implement method",'nomethod'),('cannot convert from','cast'),("can't assign value of type",'cast'),("types don't match",'types')]
def failkind(h):
    try: msg=binascii.unhexlify(h).decode('latin-1')
    except Exception: return 'other'
    first=msg.split('\nCall stack')[0].strip()
    for a,b in KINDS:
        if a in first: return b
    return 'msg:'+re.sub(r'^ERROR: ','',first)[:2000]
def tok(line):
    p=line.split(' ')
    k=p[0]
    if k in('b','c','h','i'): return [k,int(p[1])]
    if k=='l': return [k,L.to_limbs(int(p[1]))]
    if k=='d': return [k,L.dyadic(struct.unpack('>d',bytes.fromhex(p[1]))[0])]
    if k=='f': return [k,L.dyadic(struct.unpack('>f',bytes.fromhex(p[1]))[0])]
    if k=='s' or k=='z': return [k,list(bytes.fromhex(p[1] if len(p)>1 else ''))]
    if k=='r':
        if p[1]=='i': return ['r',4,int(p[2])]
        if p[1]=='l': return ['r',5,L.to_limbs(int(p[2]))]
        if p[1]=='d': return ['r',7,L.dyadic(struct.unpack('>d',bytes.fromhex(p[2]))[0])]
        return ['r',12,0]
    if k=='m': return ['m',failkind(p[1] if len(p)>1 else '')]
    if k=='run' and p[1]=='fail': return ['fail',failkind(p[2])]
    if k=='build': return ['buildfail',failkind(p[2])]
    return [k]+p[1:]
def tokens(lines):
    out=[]
    for l in lines:
        if l=='end': break
        if l=='module ok': continue
        out.append(tok(l))
    return out
def wellformed(lines): return not any(l.startswith('build fail') for l in lines)
class Case:
    """one program: id, source, specification form, harness command list"""
    def __init__(s,id,text,spec,cmds=None,meta=None): s.id=id; s.text=text; s.spec=spec; s.cmds=cmds or [['buildrun',text]]; s.meta=meta or {}
def tlc(shard,work,name,spec='MachineTrace',tier=None,timeout=800,xmx='2g'):
    f=os.path.join(work,name+'.json'); json.dump(shard,open(f,'w'))
    md=os.path.join(work,name+'.md'); os.makedirs(md,exist_ok=True)
    env=dict(os.environ,MACHINE_FILE=f,TLC_XMX=xmx); 
    if tier: env['TLC_TIER']=tier
    out=open(os.path.join(work,name+'.out'),'w')
    return subprocess.Popen([V+'/tools/tlc.sh','-workers','1','-metadir',md,'-config',V+'/spec/%s.cfg'%spec,V+'/spec/%s.tla'%spec],stdout=out,stderr=subprocess.STDOUT,env=env,cwd=work,start_new_session=True),out.name
VRE=re.compile(r'<<"V", (\d+), "(\w+)", (\d+), (.*)>>$')
STAT=re.compile(r'(\d+) states generated, (\d+) distinct states found')
def validate(cases,traces,who=None,procs=8,work=None,spec='MachineTrace',timeout=800,xmx='2g'):
    """traces: {(case index, trace number): token list} -> verdicts {key:(verdict,pos,expected)}, stats"""
    own=work is None; work=work or tempfile.mkdtemp(prefix='verif-tlc-')
    try:
        keys=list(traces); n=max(1,min(procs,len(keys)))
        # spread by estimated cost
        load=[0]*n; shards=[[] for _ in range(n)]
        for k in sorted(keys,key=lambda k:-(len(traces[k])+len(cases[k[0]].spec['nodes'])//4)):
            i=load.index(min(load)); shards[i].append(k); load[i]+=len(traces[k])+5+len(cases[k[0]].spec['nodes'])//4
        ps=[]
        for i,sh in enumerate(shards):
            if not sh: continue
            ids=sorted(set(k[0] for k in sh)); pos={c:q+1 for q,c in enumerate(ids)}
            ps.append((sh,)+tlc(dict(progs=[cases[c].spec for c in ids],jobs=[[pos[k[0]],traces[k],int(who is not None and all(o for _,o in who[k]))] for k in sh]),work,'sh%d'%i,spec,timeout=timeout,xmx=xmx))
        res={}; stats=dict(states=0,distinct=0,tlc_runs=len(ps)); end=time.time()+timeout; errs=[]
        for sh,p,out in ps:
            try: p.wait(max(1,end-time.time()))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid,9); p.wait(); errs.append('timeout')
            txt=open(out,errors='replace').read()
            for m in re.finditer(r'<<\s*"V",(.*?)>>\n(?=<<|[A-Z]|\d|$)',txt,re.S):
                line=re.sub(r'\s+',' ','<<"V",'+m.group(1)+'>>')
                q=VRE.match(line)
                if q: res[sh[int(q.group(1))-1]]=(q.group(2),int(q.group(3)),q.group(4))
            q=STAT.search(txt)
            if q: stats['states']+=int(q.group(1)); stats['distinct']+=int(q.group(2))
            if 'Model checking completed. No error' not in txt: errs.append(txt[-3000:])
        stats['errors']=errs
        return res,stats
    finally:
        if own: shutil.rmtree(work,ignore_errors=True)
def first_run(t):
    for i,x in enumerate(t):
        if x[0] in('r','fail','buildfail','timeout','crash'): return t[:i+1],t[i+1:]
    return t,[]
def record(cases,configs=H.ALL,repeat=1,**kw):
    """runs every case on every configuration; {(case, n): tokens}, {(case,n): [configs]}"""
    r=H.run_jobs([(str(i),c.cmds) for i,c in enumerate(cases)],configs=configs,**kw)
    traces={}; who={}; bad={}
    for i,c in enumerate(cases):
        groups={}
        for cfg in configs:
            ls=r[cfg].get(str(i),['missing'])
            groups.setdefault(json.dumps(tokens(ls)),[]).append(cfg)     # messages are compared by kind, not with their call stack text
        for n,(t,cf) in enumerate(groups.items()):
            full=json.loads(t)
            if repeat>1:
                one,rest=first_run(full); part=full and full[-1][0] in('timeout','overflow','cut')
                if part: pass
                elif rest and rest!=one: one=one[:-1]+[['repeated run differs']+rest[:1]]     # never a behaviour of the machine
                elif not rest: one=one+[['repeated run is missing']]
                full=one
            traces[(i,n)]=full; who[(i,n)]=cf
    return traces,who
