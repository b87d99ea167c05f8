#!/usr/bin/env python3
# probe.py [-gc] FILE... : runs script(s) on all configurations, prints the traces (a development aid)
import sys,os,binascii,struct
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import harness as H
def pretty(l):
    p=l.split(' ')
    try:
        if p[0] in 'sz' or p[0]=='he': return p[0]+' '+repr(binascii.unhexlify(p[1]).decode(errors='replace'))
        if p[0]=='d': return 'd %r'%struct.unpack('>d',bytes.fromhex(p[1]))[0]
        if p[0]=='f': return 'f %r'%struct.unpack('>f',bytes.fromhex(p[1]))[0]
        if len(p)>2 and p[1]=='fail': return p[0]+' fail '+binascii.unhexlify(p[2]).decode(errors='replace').strip()[:400]
    except Exception as e: pass
    return l
if __name__=='__main__':
    gc='-gc' in sys.argv; files=[x for x in sys.argv[1:] if x!='-gc']
    jobs=[]
    for f in files:
        txt=open(f).read() if f!='-' else sys.stdin.read()
        for k,part in enumerate(txt.split('\n####\n')):
            jobs.append(('%s#%d'%(f,k),[['buildrun',part]+(['gc'] if gc else [])]))
    r=H.run_jobs(jobs,std=True)
    for j,_ in jobs:
        groups={}
        for c in H.ALL: groups.setdefault('\n'.join('   '+pretty(x) for x in r[c][j]),[]).append(c)
        print('==',j)
        for t,cs in groups.items(): print('  ' if len(groups)==1 else '  %s'%cs); print(t)
