"""Histories of string, number/text and sorting operations (C17) for spec/Text.tla and the programs that perform them."""
import struct,binascii,os,sys
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from ops import Prog
import machine as M
HEAD='''import verif; import std.string; import std.io; import std.algorithm; import std.error;
char[] r1, r2, r3, r4; string t1, t2, t3, t4;
void sr(char[] a){ evi(a.size); evs(a); }
void st(string ref s){ evi(s.size); for(int i = 0; i < s.size; i++) evi(s.data[i] & 255); if(s.data.size && (s.data[s.data.size - 1] != 0 || s.data.size - 1 != s.size)) evi(-555); }
double infd(){ double z = idd(0.0); return 1.0 / z; }
'''
ESC={10:'\\n',13:'\\r',9:'\\t',0:'\\0',39:"\\'",34:'\\"',92:'\\\\'}
def lit(R,b,plain=False):
    """a string literal with these characters (the terminating zero is implied)"""
    if not plain and R.random()<.2 and not any(c in(34,0,10,13) for c in b): return '@"%s"'%bytes(b).decode('latin-1')
    return '"%s"'%''.join(ESC[c] if c in(34,92,0) or (c in ESC and (c in(10,13) or R.random()<.7)) else chr(c) for c in b)
def ch(c): return "'%s'"%(ESC[c] if c in(39,92,0,10,13,9) else chr(c))
def num(neg,d,long=False):
    v=int(''.join(map(str,d))); t=str(v)
    if not neg: return t+('l' if long else '')
    if long: return '(-%dl - 1l)'%(v-1) if v==2**63 else '(-%dl)'%v
    return '(-%d - 1)'%(v-1) if v==2**31 else '(-%d)'%v
def digs(n): return [int(c) for c in str(abs(n))]
def parts(x):
    """sign, digits of m, e with x = m * 2^e"""
    b=struct.unpack('>Q',struct.pack('>d',x))[0]; e=(b>>52)&2047; m=b&(2**52-1)
    if e==2047: return bool(b>>63),[],0
    if e: m+=2**52
    else: e=1
    e-=1075
    if m==0: e=0
    while m and m%2==0: m//=2; e+=1
    return bool(b>>63),digs(m),e
def parse(lines,prog):
    """as ops.parse; char arrays become their characters, floating point numbers sign, digits and exponent"""
    hs=[]; n=len(prog.hists)
    for l in lines:
        if l=='end': break
        p=l.split(' ')
        if p[0]=='d': ts=[['D']+list(parts(struct.unpack('>d',bytes.fromhex(p[1]))[0]))]
        elif p[0]=='f': ts=[['D']+list(parts(struct.unpack('>f',bytes.fromhex(p[1]))[0]))]
        elif p[0]=='s': ts=[['i',b] for b in bytes.fromhex(p[1] if len(p)>1 else '')]
        else: ts=[M.tok(l)]
        for t in ts:
            if t[0]=='h':
                if t[1]==0: hs.append([])
                if not hs: hs.append([])
                hs[-1].append([] if t[1]==len(hs[-1]) else [['marker',t[1]]])
            elif t[0] in('r','fail','buildfail','crash','timeout','exit','overflow','missing','cut'):
                if t[0]!='r':
                    if not hs: hs.append([])
                    if not hs[-1]: hs[-1].append([])
                    hs[-1][-1].append([t[0],' '.join(map(str,t[1:]))[:300]])
                return hs+[[] for _ in range(n-len(hs))]
            elif hs and hs[-1]: hs[-1][-1].append(t)
    return hs+[[] for _ in range(n-len(hs))]
class H:
    """operations with the code that performs them; knows (roughly) what the slots hold so as to stay inside what is specified"""
    def __init__(s,R): s.R=R; s.ops=[]; s.r=[[] for _ in range(5)]; s.t=[0]*5; s.pre=[]; s.n=0
    def op(s,o,code): s.ops.append((o,code))
    def ascii(s,n,alpha=None): return [s.R.choice(alpha or [97,98,99,97,98,97]) for _ in range(n)]
    def text(s): return s.ascii(s.R.choice([0,0,1,1,2,3,4,5,7,8,15,16,23]),s.R.choice([None,None,[97],[97,98],list(range(32,127))+[9,10]]))
    def clean(s,k):
        """slot k as an argument of the string class: no zero inside"""
        b=s.r[k]; return 0 not in(b[:-1] if b else b) or (bool(b) and b[-1]==0)
    def term(s,k): return bool(s.r[k]) and s.r[k][-1]==0
    def arg(s,chars=False,needterm=False):
        """a string argument: specification and source"""
        R=s.R; z=R.random()
        ks=[k for k in range(1,5) if s.clean(k) and (s.term(k) or not needterm)]
        if z<.5 or (not ks and not chars): k=R.randrange(1,5); return ['t',k],'t%d'%k,k
        if chars and z<.7: c=R.choice([97,98,99,122]); return ['c',c],ch(c),None
        if not ks: k=R.randrange(1,5); return ['t',k],'t%d'%k,k
        k=R.choice(ks); return ['r',k],'r%d'%k,None
    def raw(s):
        R=s.R; k=R.randrange(1,5); a=R.randrange(1,5); b=R.randrange(1,5)
        w=R.choice(['lit']*4+['arr']*3+['cat']*3+['add']*2+['eq','eq','strlen','strstr','strstr','strchr','strcmp','strcpy','strcpy','put','iter','copy','empty'])
        if w=='lit': t=s.text(); s.r[k]=t+[0]; s.op(['lit',k,t],'r%d = %s; sr(r%d);'%(k,lit(R,t),k))
        elif w=='empty': s.r[k]=[]; s.op(['arr',k,[]],'r%d = nullptr; sr(r%d);'%(k,k))
        elif w=='arr':
            t=s.ascii(R.choice([1,2,3,5,8,12]),R.choice([[97,98,99],[97,98],[97,98,99,0],[1,127,128,255,32]])); s.r[k]=t
            s.op(['arr',k,t],'r%d = new char[%d]; %ssr(r%d);'%(k,len(t),''.join('r%d[%d] = char(%d); '%(k,i,c) for i,c in enumerate(t)),k))
        elif w in('cat','add'):
            x,y=(s.r[a],s.r[b]) if w=='cat' else (s.r[k],s.r[a])
            if len(x)+len(y)>60: return
            s.r[k]=x if not y else (x[:-1] if x and x[-1]==0 else x)+y
            s.op([w,k,a]+([b] if w=='cat' else []),('r%d = r%d + r%d; '%(k,a,b) if w=='cat' else 'r%d += r%d; '%(k,a))+'sr(r%d);'%k)
        elif w=='eq': s.op(['eq',k,a],'evi(r%d == r%d); evi(r%d != r%d);'%(k,a,k,a))
        elif w=='strlen': s.op(['strlen',k],'evi(strlen(r%d));'%k)
        elif w=='strstr': s.op(['strstr',k,a],'evi(strstr(r%d, r%d));'%(k,a))
        elif w=='strchr': c=R.choice([97,98,99,0,120]); s.op(['strchr',k,c],'evi(strchr(r%d, %s));'%(k,ch(c)))
        elif w=='strcmp':
            if any(c>127 for c in s.r[k]+s.r[a]): return
            s.op(['strcmp',k,a],'evi(strcmp(r%d, r%d));'%(k,a))
        elif w=='strcpy':
            n=s.r[a].index(0) if 0 in s.r[a] else -1
            s.op(['strcpy',k,a],'evi(strcpy(r%d, r%d)); sr(r%d);'%(k,a,k))
            if k==a: pass
            elif n<0 or n>=len(s.r[k]): s.op(['arr',k,[]],'r%d = nullptr; sr(r%d);'%(k,k)); s.r[k]=[]      # what a failed copy leaves is not specified
            else: s.r[k]=s.r[a][:n+1]+s.r[k][n+1:]
        elif w=='put':
            p=R.randrange(-1,len(s.r[k])+1) if R.random()<.2 else R.randrange(0,max(1,len(s.r[k]))); c=R.choice([97,98,99,0])
            s.op(['put',k,p,c],'r%d[idi(%d)] = %s; sr(r%d);'%(k,p,ch(c),k))
            if 0<=p<len(s.r[k]): s.r[k]=s.r[k][:p]+[c]+s.r[k][p+1:]
        elif w=='iter': s.op(['iter',k],'for(c in r%d) evi(int(c) & 255);'%k)
        elif w=='copy': s.r[k]=list(s.r[a]); s.op(['copy',k,a],'r%d = duplicate(r%d); sr(r%d);'%(k,a,k))
    def string(s):
        R=s.R; k=R.randrange(1,5); j=R.randrange(1,5); n=s.t[k]
        w=R.choice(['of']*5+['fill','clear','size','at','at','put','ends','slice','slice','substr','substr','add','add','add','cat','cat','cat','insert','insert','insert','erase','erase','erase','replace','replace','replace','swap']+['find']*3+['rfind']*3+['first']*3+['last']*3+['in','rel','rel','rel','rel','char'])
        pos=lambda lo=0,hi=1: R.choice([0,n,n-1 if n else 0,n//2,R.randrange(0,n+1)]) if R.random()<.85 else R.choice([n+1,n+2,n+9]) if hi else 0
        ln=lambda: R.choice([-1,0,1,2,3,n,n+1,n-1 if n else 0,2147483647,R.randrange(0,n+2)])
        show='st(t%d);'%k
        if w=='of':
            a,c,_=s.arg(); s.op(['S.of',k,a],R.choice(['t%d = %s; %s'%(k,c,show),'t%d = string(%s); %s'%(k,c,show)]) if a[0]!='c' else 't%d = %s; %s'%(k,c,show)); s.t[k]=6
        elif w=='char': c=R.choice([97,98,122]); s.op(['S.char',k,c],'t%d = %s; %s'%(k,ch(c),show)); s.t[k]=1
        elif w=='fill': m=R.choice([-1,0,1,2,7,8,20]); s.op(['S.fill',k,m,97],"t%d = string(%d, 'a'); %s"%(k,m,show)); s.t[k]=max(m,0) if m>=0 else n
        elif w=='clear': s.op(['S.clear',k],'t%d.clear(); %s evi(t%d.empty());'%(k,show,k)); s.t[k]=0
        elif w=='size': s.op(['S.size',k],'evi(t%d.size); evi(t%d.length()); evi(t%d.empty());'%(k,k,k))
        elif w=='at': p=R.choice([0,0,1,2,n//2,n-1,-1,n+3]); s.op(['S.at',k,p],'if(t%d.size != %d) evi(t%d[idi(%d)] & 255);'%(k,p,k,p))
        elif w=='put': p=R.choice([0,0,1,2,n//2,n-1,-1,n+3]); c=R.choice([97,98,99]); s.op(['S.put',k,p,c],'if(t%d.size != %d) t%d[idi(%d)] = %s; %s'%(k,p,k,p,ch(c),show))
        elif w=='ends': s.op(['S.ends',k],'if(!t%d.empty()){ evi(*t%d.front() & 255); evi(*t%d.back() & 255); }'%(k,k,k))
        elif w=='slice':
            x=pos(); y=pos(); s.op(['S.slice',k,j,x,y],'t%d = t%d[idi(%d), idi(%d)]; st(t%d);'%(j,k,x,y,j)); s.t[j]=min(6,max(0,y-x+1))
        elif w=='substr':
            x=pos(); m=ln(); s.op(['S.substr',k,j,x,m],'t%d = t%d.substr(%d%s); st(t%d);'%(j,k,x,'' if m==-1 and R.random()<.5 else ', %d'%m,j)); s.t[j]=4
        elif w=='add':
            if n>40: return
            a,c,_=s.arg(); s.op(['S.add',k,a],'t%d += %s; %s'%(k,c,show)); s.t[k]=n+4
        elif w=='cat':
            a,c,_=s.arg(); b,d,_=s.arg()
            if a[0]!='t' and b[0]!='t': return
            s.op(['S.cat',j,a,b],'t%d = %s + %s; st(t%d);'%(j,c,d,j)); s.t[j]=8
        elif w=='insert':
            if n>40: return
            p=pos()
            if R.random()<.2: m=R.choice([0,1,3]); s.op(['S.fill',j,m,98],"t%d = string(%d, 'b'); st(t%d);"%(j,m,j)); s.op(['S.insert',k,p,['t',j]],"t%d.insert(%d, %d, 'b'); %s"%(k,p,m,show)); s.t[j]=m
            else: a,c,_=s.arg(); s.op(['S.insert',k,p,a],'t%d.insert(%d, %s); %s'%(k,p,c,show))
            s.t[k]=n+4
        elif w=='erase':
            p=pos(); m=ln()
            if m==0: p=min(p,0)
            s.op(['S.erase',k,p,m],'t%d.erase(%d%s); %s'%(k,p,'' if m==-1 and R.random()<.5 else ', %d'%m,show)); s.t[k]=max(0,n-2)
        elif w=='replace':
            if n>40: return
            p=pos(); m=ln(); a,c,_=s.arg(); s.op(['S.replace',k,p,m,a],'t%d.replace(%d, %d, %s); %s'%(k,p,m,c,show)); s.t[k]=n+3
        elif w=='swap':
            if j!=k: s.op(['S.swap',k,j],'t%d.swap(t%d); st(t%d); st(t%d);'%(k,j,k,j)); s.t[k],s.t[j]=s.t[j],s.t[k]
        elif w in('find','rfind'):
            a,c,_=s.arg(chars=True); o=pos() if R.random()<.6 else (0 if w=='find' else -1)
            s.op(['S.'+w,k,a,o],'evi(t%d.%s(%s%s));'%(k,w,c,'' if o in(0,-1) and (o==0)==(w=='find') and R.random()<.5 else ', %d'%o))
        elif w in('first','last'):
            a,c,_=s.arg(chars=True); o=pos() if R.random()<.6 else (0 if w=='first' else -1); not_=R.random()<.5
            s.op(['S.'+w,k,a,o,0 if not_ else 1],'evi(t%d.find_%s%s_of(%s%s));'%(k,w,'_not' if not_ else '',c,'' if o in(0,-1) and (o==0)==(w=='first') and R.random()<.5 else ', %d'%o))
        elif w=='in': c=R.choice([97,98,120]); s.op(['S.in',k,c],'evi(%s in t%d);'%(ch(c),k))
        elif w=='rel':
            a,c,_=s.arg(needterm=True); b,d,_=s.arg(needterm=True)
            if a[0]!='t' and b[0]!='t': return
            s.op(['S.rel',a,b],' '.join('evi(%s %s %s);'%(c,q,d) for q in('==','!=','<','<=','>','>=')))
    INTS=[0,1,-1,5,7,9,10,-10,11,99,100,-100,101,999,1000,1024,65535,32767,-32768,12345,-9876,2147483647,-2147483648,1000000000,-1000000001,2**40,-2**40,2**63-1,-2**63,-2**63+1,10**18,-10**18,10**17-1,999999999999]
    def integer(s,T):
        R=s.R; b={'short':15,'int':31,'long':63}[T]
        while True:
            v=R.choice(s.INTS) if R.random()<.5 else R.randrange(-2**R.randrange(0,b+1),2**R.randrange(0,b+1))
            if -2**b<=v<2**b: return v
    def numbers(s):
        R=s.R; w=R.choice(['istr']*3+['print']*4+['parse']*4+['fstr']*4+['fprint']*2+['fparse']*3+['puts','write','bool'])
        T=R.choice(['short','int','int','long','long']); v=s.integer(T); src=num(v<0,digs(v),T=='long')
        var='idl(%s)'%src if T=='long' else 'idi(%s)'%src if T=='int' else 'short(idi(%s))'%src
        if w=='istr': s.op(['istr',v<0,digs(v)],'%s x = %s; evs(x.str());'%(T,var if R.random()<.7 else src))
        elif w=='print':
            if T=='short': return
            b=R.choice(list(range(2,17))+[10,16,2,8]+[0,1,17,-2,100]); x=var if R.random()<.5 else src
            if R.random()<.5 or not 2<=b<=16: s.op(['print',v<0,digs(v),b],'Print(%s, %d); evio();'%(x,b) if b!=10 or R.random()<.5 else 'Print(%s); evio();'%x)
            else: s.op(['print',v<0,digs(v),b],'io.out << io.%s << %s << io.dec; evio();'%({2:'bin',8:'oct',16:'hex',10:'dec'}[b] if b in(2,8,16,10) else 'base(%d)'%b,x))
        elif w=='bool': x=R.random()<.5; s.op(['chars',list(b'true' if x else b'false')],'io.out << %s; evio();'%('true' if x else 'false'))
        elif w in('puts','write'):
            k=R.randrange(1,5)
            if w=='write' and not s.r[k]: return
            s.op([w,k],'%s; evio();'%('Write(r%d)'%k if w=='write' else R.choice(['Print(r%d)','io.out << r%d'])%k))
        elif w=='parse':
            t=[ord(c) for c in R.choice(['','-','a','-0','00','007'])] if R.random()<.12 else [45]*(v<0)+[48]*R.choice([0,0,0,1,3])+[48+d for d in digs(v)]
            t+=s.ascii(1,[97,32,46,45,120]) if R.random()<.15 else []
            if T=='long' and R.random()<.2: t=[c for c in t if c!=45 and 48<=c<=57]+[48+R.randrange(10) for _ in range(R.randrange(1,5))]
            sh={'short':'evi(%s)','int':'evi(%s)','long':'evl(%s)'}[T]
            if R.random()<.5: s.op(['parse',T,t+[0]],sh%('%s(%s)'%(T,lit(R,t)))+';')
            else: # without a terminating zero, more digits behind
                n=len(t); s.op(['parse',T,t],"char[] w = new char[%d]; for(i in w) i = '7'; %s "%(n+8,''.join('w[%d] = char(%d); '%(i,c) for i,c in enumerate(t)))+'auto[] z = w; __force_size(&z, %d); char[] v = z; '%n+sh%('%s(v)'%T)+';')
        elif w in('fstr','fprint'): s.fl(w)
        else: s.fparse()
    def fl(s,w):
        R=s.R; z=R.random()
        if z<.04: x=float('inf')*R.choice([1,-1])
        elif z<.1: x=R.choice([0.0,-0.0])
        elif z<.3: x=R.choice([.5,1.5,2.5,.25,.125,.375,9.5,99.5,.0625,-.5,-2.5,1e5,123456789.0,1e15,.75,9.9375,-999.96875,99999.5])
        elif z<.5: x=R.randrange(-10**6,10**6)/R.choice([1,10,100,1000,7,3])
        elif z<.7: x=R.choice([1,-1])*R.random()*10**R.randrange(-12,13)
        elif z<.9: x=R.choice([1,-1])*R.randrange(1,2**R.randrange(1,54))*2.0**R.randrange(-80,60)
        else: x=R.choice([1,-1])*(1+R.random())*2.0**R.choice([300,700,1000,1023,200,-200,-300,120,128,400])
        T=R.choice(['float','double','double']) if w=='fstr' else 'double'
        if T=='float':
            try: x=struct.unpack('>f',struct.pack('>f',x))[0]
            except OverflowError: x=1.5
        p=R.choice([-1,0,0,1,2,3,4,6,8,10,12,15,17,20,30,60]) if R.random()<.95 else R.choice([120,128,130,255,256,260])
        sci=R.random()<.35 and w=='fstr'
        n,m,e=parts(x)
        if m: src='%s0x%xl'%('-' if n else '',int(''.join(map(str,m)))); src='double(%s)'%src if e==0 else 'double(%s) %s pw(%d)'%(src,'*' if e>0 else '/',abs(e))
        else: src='-infd()' if n else 'infd()'
        if m==[0]: src='-idd(0.0)' if n else '0.0'
        # 2^1074 overflows: in two steps
        if abs(e)>1000: src='double(%s0x%xl) %s pw(%d) %s pw(%d)'%('-' if n else '',int(''.join(map(str,m))),'*' if e>0 else '/',500,'*' if e>0 else '/',abs(e)-500)
        if w=='fstr': s.op(['fstr',n,m,e,p,sci],'%s x = %s; evs(x.str(%s));'%(T,src,'%d, %s'%(p,'true' if sci else 'false') if sci or p!=6 else ''))
        else: s.op(['fprint',n,m,e,max(p,0) if p<0 else p],R.choice(['double x = %s; Print(x, %d); evio();','double x = %s; io.out << io.precision(%d) << x; evio();'])%(src,max(p,0) if p<0 else p))
    def fparse(s):
        R=s.R; z=R.random(); neg=R.random()<.3
        if z<.4: # exactly representable
            m=R.randrange(0,2**R.randrange(1,24)); k=R.randrange(0,8); d=str(m*5**k); x=-k; exact=1; T=R.choice(['float','double'])
        else: d=str(R.randrange(0,10**R.randrange(1,17))); x=R.randrange(-25,20); exact=0; T='double'
        if d=='0': exact=1
        # as text: with a point and/or an exponent
        if x<=0 and R.random()<.7:
            t=d.rjust(-x+1,'0') if -x>=len(d) else d; t=t[:len(t)+x]+('.'+t[len(t)+x:] if x else '')
        elif R.random()<.5 and len(d)>1: t=d[0]+'.'+d[1:]+'e%d'%(x+len(d)-1)
        else: t=d+'e%d'%x
        o=['fparse',neg,[int(c) for c in d],x,exact]
        y='evd(%s);' if T=='double' else 'evf(%s);'
        fast=int(d)<2**53 and abs(x)<=22
        # sum of the exponent applied by the literal parser stays in the exactly rounded range
        if R.random()<.4 and fast and ('.' in t or 'e' in t) and T=='double': s.op(o,y%(('-' if neg else '')+t))
        elif R.random()<.6: s.op(o,y%('%s("%s%s")'%(T,'-' if neg else '',t)))
        else:
            b=('-' if neg else '')+t
            s.op(o,"char[] w = new char[%d]; for(i in w) i = '7'; %s auto[] z = w; __force_size(&z, %d); char[] v = z; "%(len(b)+8,''.join("w[%d] = '%s'; "%(i,c) for i,c in enumerate(b)),len(b))+y%('%s(v)'%T))
    def sorts(s,big=200):
        R=s.R; n=R.choice([0,1,2,3,5,10,31,32,33,34,40,41,42,64,100,big]); kind=R.randrange(7)
        q=[R.randrange(-50,50) for _ in range(n)]
        if kind==0: q=[R.randrange(3) for _ in range(n)]
        if kind==1: q=sorted(q)
        if kind==2: q=sorted(q,reverse=True)
        if kind==3: q=[7]*n
        if kind==4: q=[min(i,n-i) for i in range(n)]
        if kind==5: q=[i*37%max(n,1) for i in range(n)]
        how=R.choice(['up','down','mod7','half']) 
        if how in('mod7','half'): q=[abs(x) for x in q]
        cmp={'up':'x < y','down':'x > y','mod7':'x % 7 < y % 7','half':'x / 2 < y / 2'}[how]
        a=('int[] a = { %s };'%', '.join(map(str,q))) if q else 'int[] a;'
        w=R.choice(['sort']*4+['map','filter','fold'])
        if w=='sort':
            # some arrays hold objects, some long or double
            s.op(['sort',q,how],a+R.choice([' sort(a, <int x, int y>{ %s; }); for(x in a) evi(x);'%cmp,' sort(a, <x, y>{ %s; }); for(x in a) evi(x);'%cmp.replace('x','*x').replace('y','*y'),
              ' Pair[] b = new Pair[a.size]; for(i in b, j in a){ i.k = j; i.c = char(j); } sort(b, <l, r>{ int x = l.k, y = r.k; return %s; }); for(x in b) evi(x.c == char(x.k) ? x.k : -99999);'%cmp,
              ' long[] b = new long[a.size]; for(i in b, j in a) i = long(j) * 5000000000l; sort(b, 0, b.size, auto(long l, long r){ int x = l / 5000000000l, y = r / 5000000000l; return %s; }); for(x in b) evi(int(x / 5000000000l));'%cmp]))
        elif w=='map': s.op(['map',q],a+' auto b = map(a, <x>{ return *x * 2 + 1; }); for(x in b) evi(x);')
        elif w=='filter': s.op(['filter',q],a+' int[] b = filter(a, <int x>{ x % 3 != 0; }); for(x in b) evi(x);')
        elif q: s.op(['fold',[abs(x)%50 for x in q]],a.replace('-','')+' for(x in a) x = x % 50; evi(foldl(a, auto(int x, int y){ return (x * 3 + y) % 1000; })); evi(foldr(a, auto(int x, int y){ return (x * 3 + y) % 1000; }));')
def program(id,ops):
    t=HEAD+'class Pair{ char c; int k; }\ndouble pw(int n){ double r = 1.0; for(int i = 0; i < n; i++) r = r * 2.0; return r; }\n'
    for k,(o,c) in enumerate(ops): t+='auto f%d = auto(){ %s }; evh(%d); { auto r = try(f%d); if(!r) evm(r.message); }\n'%(k,c,k,k)
    return Prog(id,[([],[o for o,_ in ops])],t)
