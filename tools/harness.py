"""Runs jobs (lists of harness commands) on engine configurations and returns the recorded traces."""
import os,subprocess,tempfile,shutil,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import build as B
ALL=[(0,0),(0,1),(0,2),(1,0),(1,1),(1,2)]   # (executor: 0 interpreter, 1 JIT; optimization level)
def esc(s): return s.replace('\\','\\\\').replace('\n','\\n').replace('\t','\\t').replace('\r','\\r')
def write_jobs(path,jobs):
    with open(path,'w') as f:
        for jid,cmds in jobs:
            f.write('job\t%s\n'%jid)
            for c in cmds: f.write('\t'.join(esc(str(x)) for x in c)+'\n')
def parse(path):
    res={}; cur=None
    with open(path,errors='replace') as f:
        for l in f:
            l=l.rstrip('\n')
            if l.startswith('job '): cur=l[4:]; res[cur]=[]
            else: res[cur].append(l)
    return res
def run_jobs(jobs,configs=ALL,std=False,preload=(),timeout=20,exe=None,par=None,imp=None,work=None,extra=None,maxlines=0):
    """returns {config: {jobid: [trace lines]}}"""
    exe=exe or B.build(extra)
    own=work is None
    work=work or tempfile.mkdtemp(prefix='verif-')
    try:
        jf=os.path.join(work,'jobs.txt'); write_jobs(jf,jobs)
        par=par or max(1,(8+len(configs)-1)//len(configs))
        ps=[]
        for (e,o) in configs:
            out=os.path.join(work,'out-%d-%d.txt'%(e,o))
            cmd=[exe,'--exec',str(e),'--opt',str(o),'--jobs',jf,'--out',out,'--par',str(par),'--timeout',str(timeout),'--import',(imp or B.REPO+'/Modules/')]
            if std: cmd.append('--std')
            if maxlines: cmd+=['--maxlines',str(maxlines)]
            for p in preload: cmd+=['--preload',p]
            ps.append(((e,o),out,subprocess.Popen(cmd,stdout=subprocess.DEVNULL,stderr=subprocess.PIPE,cwd=work)))
        res={}
        for cfg,out,p in ps:
            err=p.communicate()[1]
            if p.returncode: raise RuntimeError('harness %s failed (%d): %s'%(cfg,p.returncode,err.decode(errors='replace')[:2000]))
            res[cfg]=parse(out)
        return res
    finally:
        if own: shutil.rmtree(work,ignore_errors=True)
