"""Common part of every check: tier and seed, known findings, evidence, verdict lines, machine batches."""
import os,sys,json,time,random,hashlib,traceback,collections
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import harness as H
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def known_findings():
    """lines 'finding: property=<id> key=<key> <what fails>' of known-findings.txt"""
    out={}
    p=os.path.join(V,'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            w=l.split()
            if len(w)>2 and w[0]=='finding:': out[(w[1].split('=',1)[1],w[2].split('=',1)[1])]=' '.join(w[3:])
    return out

class Check:
    def __init__(s,prop):
        s.prop=prop; s.tier='thorough' if os.environ.get('VERIF_TIER')=='thorough' or '--thorough' in sys.argv else 'quick'
        s.seed=int(os.environ.get('VERIF_SEED','1') or 1); s.t0=time.time(); s.viol={}; s.known={}; s.kf=known_findings()
        s.cov=collections.Counter(); s.extra={}; s.samples=[]; s.notes=[]; s.level='model_checking'; s.assumptions=[]
        s.budget=dict(quick=int(os.environ.get('VERIF_QUICK_S','150')),thorough=int(os.environ.get('VERIF_THOROUGH_S','780')))[s.tier]
        s.dir=os.path.join(V,'.replay',prop); os.makedirs(s.dir,exist_ok=True)
        for f in os.listdir(s.dir): os.unlink(os.path.join(s.dir,f))
    def quick(s): return s.tier=='quick'
    def elapsed(s): return time.time()-s.t0
    def time_left(s): return s.budget-s.elapsed()
    def rng(s,*k): return random.Random(int(hashlib.sha256(repr((s.seed,)+k).encode()).hexdigest()[:12],16))
    def violation(s,key,what,replay):
        """key identifies the failing input (stable over runs); replay: text written to a file"""
        if (s.prop,key) in s.kf: s.known[key]=s.kf[(s.prop,key)]; return
        if key in s.viol: return
        f=os.path.join(s.dir,hashlib.sha256(key.encode()).hexdigest()[:10]+'.txt')
        open(f,'w').write('property %s\nkey %s\n%s\n\n%s\n'%(s.prop,key,what,replay if isinstance(replay,str) else json.dumps(replay,indent=1)))
        s.viol[key]=(what,f)
    def sample(s,x):
        if len(s.samples)<3: s.samples.append(x if isinstance(x,str) else json.dumps(x)[:3000])
    def finish(s):
        cov=dict(s.cov); cov.update(s.extra); cov['samples']=s.samples or ['(none)']
        ev=dict(property=s.prop,tier=s.tier,seed=s.seed,level=s.level,coverage=cov,assumptions=s.assumptions,wall_s=round(s.elapsed(),1),violations=len(s.viol))
        os.makedirs(V+'/evidence',exist_ok=True)
        json.dump(ev,open(V+'/evidence/%s.json'%s.prop,'w'),indent=1)
        for k,w in s.known.items(): print('KNOWN-FINDING: property=%s %s'%(s.prop,w))
        for k,(w,f) in list(s.viol.items())[:20]: print('VIOLATION property=%s replay=%s  %s: %s'%(s.prop,f,k,w[:300]))
        print('%s %s: %s in %.0f s; %s'%(s.prop,s.tier,'VIOLATED' if s.viol else 'held',s.elapsed(),', '.join('%s=%s'%(k,v) for k,v in s.cov.items())))
        sys.stdout.flush()
        return 1 if s.viol else 0

def run(prop,fn):
    c=Check(prop)
    fn(c)
    sys.exit(c.finish())

# ---------------------------------------------------------------- programs judged by the abstract machine
CUT=300
def types(**kw):
    import lang
    return [(lang.prim(k),w) for k,w in kw.items()]
def cut(tr,CUT=CUT):
    if tr and tr[-1][0]=='timeout': tr=tr[:-1]; end=['timeout']
    else: end=None
    if len(tr)>CUT+1: return tr[:CUT]+[['cut']]
    return tr+[end] if end else tr
def agree(a,b):
    """equal, except that a recording that was cut, or ended where the call stack ran out, is compared up to there"""
    def part(t): return bool(t) and (t[-1][0] in('cut','timeout') or t[-1]==['fail','overflow'])
    if part(a) or part(b):
        n=min(len(a)-part(a),len(b)-part(b))
        if len(a)-part(a)>n and not part(b) or len(b)-part(b)>n and not part(a): return False
        return a[:n]==b[:n]
    return a==b
def elidable(tr): return bool(tr) and tr[-1][0]=='fail' and tr[-1][1] in('div0','ovf','oob','null')
def judge(cases,traces,who,maxev=CUT,**kw):
    """{(case,group): text of what is wrong}, verdicts, stats"""
    import machine as M
    traces={k:cut(v,maxev) for k,v in traces.items()}
    wrong={}
    tr={}
    for k,v in traces.items():
        if v and v[0][0]=='buildfail': wrong[k]='well-formed program is rejected: %s'%v[0][1]
        elif any(x[0] in('crash','exit','missing') for x in v): wrong[k]='the process ended: %s'%json.dumps([x for x in v if x[0] in('crash','exit','missing')][0])
        else: tr[k]=v
    res,st=M.validate(cases,tr,who,**kw)
    if st['errors']: raise RuntimeError('TLC: '+st['errors'][0][-1500:])
    for k,v in res.items():
        if v[0]=='bad': wrong[k]='event %d is %s, the specification allows %s'%(v[1]+1,json.dumps(tr[k][v[1]]) if v[1]<len(tr[k]) else 'missing',v[2])
    missing=[k for k in tr if k not in res]
    if missing: raise RuntimeError('TLC gave no verdict for %d traces'%len(missing))
    # where the specification leaves a value open, all configurations must still agree
    by=collections.defaultdict(list)
    for k in traces: by[k[0]].append(k)
    for i,ks in by.items():
        if len(ks)<2 or any(k in wrong for k in ks): continue
        opt={}
        for k in ks:
            for cfg in who[k]: opt.setdefault(cfg[1],set()).add(k)
        for o,s in opt.items():
            if len(s)>1 and not all(agree(traces[a],traces[b]) for a in s for b in s): wrong[sorted(s)[1]]='interpreter and JIT differ at optimization level %d'%o
        base=sorted(opt.get(0,()))
        if base and not elidable(traces[base[0]]):
            for k in ks:
                if k not in opt[0] and not agree(traces[base[0]],traces[k]) and not any(k2 in wrong for k2 in ks): wrong[k]='optimized code %s differs from unoptimized code'%(who[k],)
    return wrong,res,st
def describe(case,tr,who,what):
    return '%s\nconfigurations (executor, optimization): %s\n\n%s\n\nobserved events:\n%s'%(what,who,case.text,'\n'.join(json.dumps(t) for t in tr[:400]))
def batch(c,name,cases,configs=H.ALL,timeout=4,repeat=1,maxev=CUT,**kw):
    """records and judges a list of cases; reports what is wrong only after a second run shows it again"""
    import machine as M
    if not cases: return
    t0=time.time()
    for i,x in enumerate(cases):
        x.id=x.id or '%s-%d'%(name,i)
        if repeat>1 and len(x.cmds)==1: x.cmds=x.cmds*repeat
    kw['repeat']=repeat; kw.setdefault('maxlines',4*maxev)
    traces,who=M.record(cases,configs=configs,timeout=timeout,**kw)
    t1=time.time()
    wrong,res,st=judge(cases,traces,who,maxev)
    if wrong:
        idx=sorted(set(k[0] for k in wrong))[:12]; sub=[cases[i] for i in idx]
        tr2,who2=M.record(sub,configs=configs,timeout=20,**kw)
        w2,_,_=judge(sub,tr2,who2,maxev)
        for k,what in w2.items():
            cs=sub[k[0]]
            c.violation(cs.id,'%s on %s'%(what,who2[k]),describe(cs,tr2[k],who2[k],what))
    cnt=collections.Counter(v[0] for v in res.values())
    c.cov['states']+=st['distinct']; c.cov['transitions']+=st['states']
    c.cov['traces_validated_against_impl']+=len(res); c.cov['programs']+=len(cases)
    c.cov['events']+=sum(len(traces[k]) for k in res)
    c.cov['executions']+=len(cases)*len(configs)
    for k in('ok','open','long'): c.cov['verdict_'+k]+=cnt.get(k,0)
    c.extra.setdefault('batches',{})[name]=dict(programs=len(cases),verdicts=dict(cnt),ends=dict(collections.Counter(('fail:'+str(t[-1][1])) if t and t[-1][0]=='fail' else (t[-1][0] if t else 'none') for t in traces.values()).most_common(8)),record_s=round(t1-t0,1),tlc_s=round(time.time()-t1,1))
    if cases: c.sample(cases[len(cases)//2].text)
def sequences(c,name,seqs,configs=H.ALL,timeout=10,maxev=CUT,**kw):
    """seqs: lists of programs that run one after another in one process: (case, how) with how 'build' or 'again' (run the linked program once more);
    every run has to be a behaviour of its own program, whatever ran before"""
    import machine as M
    if not seqs: return
    t0=time.time()
    def rec(seqs,timeout):
        jobs=[(str(i),[(['buildrun',q.text] if how=='build' else ['run']) for q,how in sq]) for i,sq in enumerate(seqs)]
        r=H.run_jobs(jobs,configs=configs,timeout=timeout,maxlines=4*maxev*max(map(len,seqs)),**kw)
        progs=[]; pos={}; groups={}; origin={}; short=[]
        for i,sq in enumerate(seqs):
            for cfg in configs:
                t=M.tokens(r[cfg].get(str(i),['missing'])); n=0
                for q,how in sq:
                    if not t and n: short.append((i,cfg,n)); break
                    one,t=M.first_run(t); n+=1
                    if id(q) not in pos: pos[id(q)]=len(progs); progs.append(q)
                    g=groups.setdefault(pos[id(q)],{}).setdefault(json.dumps(one),[])
                    g.append(cfg); origin.setdefault((pos[id(q)],json.dumps(one)),(i,n,cfg))
                    if one and one[-1][0] in('timeout','cut','crash','exit','overflow'): break
        traces={}; who={}; org={}
        for p,g in groups.items():
            for n,(t,cf) in enumerate(g.items()): traces[(p,n)]=json.loads(t); who[(p,n)]=sorted(set(cf)); org[(p,n)]=origin[(p,t)]
        return progs,traces,who,org,short
    progs,traces,who,org,short=rec(seqs,timeout)
    wrong,res,st=judge(progs,traces,who,maxev)
    if wrong or short:
        sub=sorted(set([org[k][0] for k in wrong]+[s[0] for s in short]))[:12]; sub=[seqs[i] for i in sub]
        p2,t2,w2,o2,s2=rec(sub,30)
        x2,_,_=judge(p2,t2,w2,maxev)
        for k,what in x2.items():
            i,n,cfg=o2[k]; sq=sub[i]
            c.violation('%s@%s'%(sq[n-1][0].id,'+'.join(q.id for q,_ in sq[:n])),'run %d of a sequence: %s on %s'%(n,what,w2[k]),'sequence:\n'+'\n----\n'.join('%s %s\n%s'%(q.id,how,q.text) for q,how in sq[:n])+'\n'+describe(sq[n-1][0],t2[k],w2[k],what))
        for i,cfg,n in s2: c.violation('seq-'+'+'.join(q.id for q,_ in sub[i][:n]),'run %d of the sequence is missing on %s'%(n+1,cfg),'\n----\n'.join(q.text for q,_ in sub[i]))
    cnt=collections.Counter(v[0] for v in res.values())
    c.cov['states']+=st['distinct']; c.cov['transitions']+=st['states']
    c.cov['traces_validated_against_impl']+=len(res); c.cov['sequences']+=len(seqs); c.cov['programs']+=len(progs)
    c.cov['executions']+=sum(map(len,seqs))*len(configs)
    for k in('ok','open','long'): c.cov['verdict_'+k]+=cnt.get(k,0)
    c.extra.setdefault('batches',{})[name]=dict(sequences=len(seqs),programs=len(progs),verdicts=dict(cnt),ends=dict(collections.Counter(('fail:'+str(t[-1][1])) if t and t[-1][0]=='fail' else (t[-1][0] if t else 'none') for t in traces.values()).most_common(12)),s=round(time.time()-t0,1))
    c.sample('\n----\n'.join('%s\n%s'%(how,q.text) for q,how in seqs[len(seqs)//2]))
def random_cases(c,name,count,**profile):
    import gen,lang,machine as M
    out=[]
    for i in range(count):
        g=gen.G(c.rng(name,i),**profile); m=g.program()
        out.append(M.Case('%s-s%d-%d'%(name,c.seed,i),g.text(m),lang.emit(m)))
    return out
