"""Validates recorded operation histories against the specification modules (through spec/OpsTrace.tla); builds script programs from histories."""
import sys,os,json,re,tempfile,shutil,subprocess,time,collections
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import harness as H, machine as M, engine as E
V=M.V
def validate(module,jobs,procs=8,timeout=600,xmx='2g'):
    """jobs: [dict(start, ops, res)] -> [(verdict, position, expected)], stats"""
    work=tempfile.mkdtemp(prefix='verif-ops-')
    try:
        n=max(1,min(procs,len(jobs))); load=[0]*n; shards=[[] for _ in range(n)]
        for k in sorted(range(len(jobs)),key=lambda k:-len(jobs[k]['ops'])):
            i=load.index(min(load)); shards[i].append(k); load[i]+=len(jobs[k]['ops'])+1
        ps=[(sh,)+M.tlc(dict(jobs=[jobs[k] for k in sh]),work,'sh%d'%i,module,xmx=xmx) for i,sh in enumerate(shards) if sh]
        out=[None]*len(jobs); st=collections.Counter(); end=time.time()+timeout
        for sh,p,o in ps:
            try: p.wait(max(1,end-time.time()))
            except subprocess.TimeoutExpired: os.killpg(p.pid,9); p.wait(); raise RuntimeError('TLC time out')
            txt=open(o,errors='replace').read()
            for m in re.finditer(r'<<\s*"V",(.*?)>>\n(?=<<|[A-Z]|\d|$)',txt,re.S):
                q=M.VRE.match(re.sub(r'\s+',' ','<<"V",'+m.group(1)+'>>'))
                if q: out[sh[int(q.group(1))-1]]=(q.group(2),int(q.group(3)),q.group(4))
            q=M.STAT.search(txt)
            if q: st['states']+=int(q.group(1)); st['distinct']+=int(q.group(2))
            if 'Model checking completed. No error' not in txt: raise RuntimeError('TLC: '+txt[-2500:])
        if None in out: raise RuntimeError('TLC gave no verdict for %d histories'%out.count(None))
        return out,st
    finally: shutil.rmtree(work,ignore_errors=True)
class Prog:
    """a program that performs operation histories [(start, operations)] one after another: the results of operation k follow the marker event h k, a history begins at h 0"""
    def __init__(s,id,hists,text,cmds=None): s.id=id; s.hists=hists; s.text=text; s.cmds=cmds or [['buildrun',text]]
def parse(lines,prog):
    """[results of history 0, ...] from the trace lines; a fault ends the last one"""
    hs=[]; n=len(prog.hists)
    for t in M.tokens(lines):
        if t[0]=='h':
            if t[1]==0: hs.append([])
            if not hs: hs.append([])
            if t[1]==len(hs[-1]): hs[-1].append([])
            else: hs[-1].append([['marker',t[1]]])
        elif t[0] in('r','fail','buildfail','crash','timeout','exit','overflow','missing','cut'):
            if t[0]!='r':
                if not hs: hs.append([])
                if not hs[-1]: hs[-1].append([])
                hs[-1][-1].append([t[0],json.dumps(t[1:])])
            break
        elif hs and hs[-1]: hs[-1][-1].append(t)
    return hs+[[] for _ in range(n-len(hs))]
def errors_alike(res,op): return [['m',0] if t[0]=='m' else t for t in res]
def batch(c,name,module,progs,configs=H.ALL,timeout=30,norm=errors_alike,key=None,parser=parse,**kw):
    """runs every program on every configuration and validates what was recorded"""
    if not progs: return
    t0=time.time()
    def rec(ps,timeout):
        kw2=dict(kw); kw2.setdefault('maxlines',400000)
        r=H.run_jobs([(str(i),h.cmds) for i,h in enumerate(ps)],configs=configs,timeout=timeout,**kw2)
        jobs=[]; who=[]
        for i,h in enumerate(ps):
            g=[{} for _ in h.hists]
            for cfg in configs:
                for q,res in enumerate(parser(r[cfg].get(str(i),['missing']),h)[:len(h.hists)]):
                    if norm: res=[norm(x,h.hists[q][1][z] if z<len(h.hists[q][1]) else None) for z,x in enumerate(res)]
                    g[q].setdefault(json.dumps(res),[]).append(cfg)
            for q,gg in enumerate(g):
                for t,cf in gg.items(): jobs.append(dict(start=h.hists[q][0],ops=h.hists[q][1],res=json.loads(t))); who.append((i,q,cf))
        return jobs,who
    jobs,who=rec(progs,timeout); t1=time.time()
    vs,st=validate(module,jobs)
    bad=[k for k,q in enumerate(vs) if q[0]!='ok']
    if bad:
        idx=sorted(set(who[k][0] for k in bad))[:6]; sub=[progs[i] for i in idx]
        j2,w2=rec(sub,90); v2,_=validate(module,j2); n=0
        for k,q in enumerate(v2):
            if q[0]=='ok' or (not j2[k]['res'] and w2[k][1]>0): continue          # a history that was not reached: the one before failed
            pr=sub[w2[k][0]]; h=pr.hists[w2[k][1]]; got=j2[k]['res'][q[1]] if q[1]<len(j2[k]['res']) else 'nothing'; op=h[1][q[1]] if q[1]<len(h[1]) else None
            what='operation %d %s gave %s, the specification allows %s on %s'%(q[1]+1,json.dumps(op),json.dumps(got)[:300],q[2][:300],w2[k][2])
            n+=1
            if n<40: c.violation(key(pr,h,op,got) if key else '%s#%d'%(pr.id,w2[k][1]),what,'%s\n\ngot %s\n\nallowed %s\n\nstart %s\noperations and results:\n%s\n\nprogram:\n%s'%(what,json.dumps(got),q[2],json.dumps(h[0]),'\n'.join('%d %s -> %s'%(m+1,json.dumps(o),json.dumps(x)) for m,(o,x) in enumerate(zip(h[1],j2[k]['res']))),pr.text))
    no=sum(len(o) for p in progs for _,o in p.hists); nh=sum(len(p.hists) for p in progs)
    c.cov['states']+=st['distinct']; c.cov['transitions']+=st['states']; c.cov['traces_validated_against_impl']+=len(jobs); c.cov['histories']+=nh; c.cov['operations']+=no; c.cov['executions']+=nh*len(configs)
    c.extra.setdefault('batches',{})[name]=dict(programs=len(progs),histories=nh,operations=no,record_s=round(t1-t0,1),tlc_s=round(time.time()-t1,1))
    c.sample(json.dumps(progs[len(progs)//2].hists[0][1])[:1500])
