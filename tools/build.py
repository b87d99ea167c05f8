"""Builds the conformance harness from /repo's current working tree.
Objects are cached by content (source, all headers, flags) under /verif/.build, never by time stamps."""
import hashlib,os,subprocess,sys,concurrent.futures,shutil,fcntl
REPO=os.environ.get('VERIF_REPO','/repo')
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD=os.path.join(VERIF,'.build')
NOT_BUILT={'nullc_android.cpp','InstructionTreeVmTests.cpp'}
CXX=['g++','-O1','-w','-DNULLC_VERIFICATION','-I'+REPO]
CC=['gcc','-O1','-w']
STDLIB=['canvas','dynamic','file','gc','io','math','pugi','random','string','time','typeinfo','vector','memory','error']

def sources():
    # follow the Makefile's list, so that files added to or removed from the library are picked up
    lib=[]
    mk=open(os.path.join(REPO,'Makefile')).read()
    import re
    for var in ('LIB_SOURCES','LIB_SOURCES_VM','STDLIB_SOURCES'):
        m=re.search(r'^%s\s*=\s*((?:.*\\\n)*.*)$'%var,mk,re.M)
        if m: lib+=[x for x in m.group(1).replace('\\\n',' ').split() if x.endswith(('.cpp','.c','.S'))]
    if not any(x.endswith('StdLib.cpp') for x in lib):
        lib=['NULLC/'+f for f in sorted(os.listdir(os.path.join(REPO,'NULLC'))) if f.endswith('.cpp') and f not in NOT_BUILT]
    if not any('includes/' in x for x in lib):
        lib+=['NULLC/includes/%s.cpp'%x for x in STDLIB]
    lib=[x for x in lib if 'pugi' not in x and 'canvas' not in x and 'window' not in x]
    d='external/dyncall/'
    lib=[x for x in lib if 'dyncall' not in x]+[d+x for x in ('dyncall_api.c','dyncall_callvm.c','dyncall_callvm_base.c','dyncall_struct.c','dyncall_vector.c','dyncall_call.S')]
    out=[]
    for x in lib:
        if x not in out and os.path.exists(os.path.join(REPO,x)): out.append(x)
    return out

def header_hash():
    h=hashlib.sha256()
    for root in ('NULLC','external/dyncall'):
        for dp,dn,fn in sorted(os.walk(os.path.join(REPO,root))):
            for f in sorted(fn):
                if f.endswith(('.h','.hpp','.inl','.inc')):
                    p=os.path.join(dp,f)
                    h.update(os.path.relpath(p,REPO).encode()); h.update(open(p,'rb').read())
    return h.hexdigest()

def compile_one(src,flags,hh):
    data=open(src,'rb').read()
    key=hashlib.sha256((' '.join(flags)+hh+src).encode()+data).hexdigest()[:32]
    obj=os.path.join(BUILD,'obj',key+'.o')
    if not os.path.exists(obj):
        tmp=obj+'.%d.tmp'%os.getpid()
        r=subprocess.run(flags+['-c',src,'-o',tmp],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
        if r.returncode: raise RuntimeError('compile failed: %s\n%s'%(src,r.stdout.decode(errors='replace')[-3000:]))
        os.rename(tmp,obj)
    else: os.utime(obj)
    return obj

def build(extra=None):
    """Returns the path of the harness executable. extra: additional C++ files (generated)."""
    os.makedirs(os.path.join(BUILD,'obj'),exist_ok=True)
    lock=open(os.path.join(BUILD,'lock'),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    try:
        hh=header_hash()
        jobs=[]
        for s in sources():
            jobs.append((os.path.join(REPO,s),(CXX if s.endswith('.cpp') else CC)))
        hdir=os.path.join(VERIF,'harness')
        hx=hashlib.sha256(b''.join(open(os.path.join(hdir,f),'rb').read() for f in sorted(os.listdir(hdir)) if f.endswith('.h'))).hexdigest()
        mine=[os.path.join(hdir,f) for f in sorted(os.listdir(hdir)) if f.endswith('.cpp')]+list(extra or [])
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            fs=[ex.submit(compile_one,s,fl,hh) for s,fl in jobs]
            fs+=[ex.submit(compile_one,s,CXX+['-I'+hdir],hh+hx) for s in mine]
            objs=[f.result() for f in fs]
        key=hashlib.sha256('\n'.join(objs).encode()).hexdigest()[:32]
        exe=os.path.join(BUILD,'runner-'+key)
        if not os.path.exists(exe):
            tmp=exe+'.%d.tmp'%os.getpid()
            r=subprocess.run(['g++','-o',tmp]+objs+['-lm','-lpthread','-ldl'],stdout=subprocess.PIPE,stderr=subprocess.STDOUT)
            if r.returncode: raise RuntimeError('link failed\n'+r.stdout.decode(errors='replace')[-3000:])
            os.rename(tmp,exe)
        prune()
        return exe
    finally:
        fcntl.flock(lock,fcntl.LOCK_UN)

def prune(limit=1500<<20):
    # keep the cache bounded: oldest first
    fs=[]
    for d in (BUILD,os.path.join(BUILD,'obj')):
        for f in os.listdir(d):
            p=os.path.join(d,f)
            if os.path.isfile(p) and (f.endswith('.o') or f.startswith('runner-')): st=os.stat(p); fs.append((st.st_mtime,st.st_size,p))
    tot=sum(x[1] for x in fs); fs.sort()
    for m,sz,p in fs:
        if tot<=limit: break
        os.unlink(p); tot-=sz

if __name__=='__main__':
    print(build())
