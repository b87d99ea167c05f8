"""Histories of function replacement for spec/Replace.tla (C19)."""
import os,sys,json
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
from ops import Prog
F=['f1','f2','f3','f4']; D=['d1','d2']; H=['h1','h2']; M=['m1','m2']; C=['c1','c2']
TY={**{f:'i' for f in F+M+C},**{f:'d' for f in D},**{f:'h' for f in H}}
CX={**{f:'' for f in F+D+H},'m1':'K','m2':'K','c1':'c1','c2':'c2'}
OBJ={'k1':3,'k2':7}
def q(s): return '"'+s.replace('\\','\\\\').replace('"','\\"').replace('\n','\\n')+'"'
def code(b,x,ty,R=None):
    """statements of a body; x: name of the argument(s)"""
    k=b[0]; wrap=R.randrange(8) if R else 0
    if ty=='d': t='return %s * %d + %d;'%(x,b[1],b[2])
    elif ty=='h': t='return %s * %d + %s * %d + long(%s) * %d;'%(x[0],b[1],x[1],b[2],x[2],b[3])
    elif k=='lin' and wrap==1: t='int loc(int y){ return y * %d; } return loc(%s) + %d;'%(b[1],x,b[2])
    elif k=='lin' and wrap==2: t='int r = 0; for(int i = 0; i < %d; i++) r += %s; return r + %d;'%(b[1],x,b[2])
    elif k=='lin' and wrap==3: t='int[] a = { %d, %d }; auto z = auto(int p){ return p * a[0] + a[1]; }; return z(%s);'%(b[1],b[2],x)
    elif k=='lin': t='return %s * %d + %d;'%(x,b[1],b[2])
    elif k=='glob': t='g += %s; return g + %d;'%(x,b[1])
    elif k=='ev': t='evi(%s + %d); return %s;'%(x,b[1],x)
    elif k=='this': t='return v * %d + %s;'%(b[1],x)
    elif k=='call': t='if(%s < 1) return %d; return %s(%s - 1) + %d;'%(x,b[2],b[1],x,b[2])
    elif k=='twice': t='if(%s < 1) return %d; int p = %s(%s - 1); int q = %s(%s - 1); return p - q + %d;'%(x,b[2],b[1],x,b[1],x,b[2])
    elif k=='morph': t='override(%s, "return arg0 * %d + 1;"); return %s(%s) + %s;'%(b[1],b[2],b[1],x,x)
    elif k=='evalin': t='eval("g += %d;"); return %s;'%(b[1],x)
    if wrap==4: t='/*'+'x'*R.choice([10,2000,3000,5000])+'*/ '+t
    if wrap==6: t=''.join('int q%d(int y){ return y + %d; } '%(z,z) for z in range(R.choice([5,60,250])))+t
    if wrap==5: t='\n'+t.replace('; ',';\n')+' // end\n'
    return t
class Gen:
    def __init__(s,R,steps):
        s.R=R; s.steps=steps; s.ops=[]; s.n=0
        s.body={f:s.newbody(f) for f in F+D+H+M}; s.body['m1']=['this',R.randrange(1,4)]; s.body['m2']=['this',R.randrange(4,7)]; s.body['c1']=['cap']; s.body['c2']=['cap']
        s.vals={'p0':s.value(),'p1':s.value(),'p2':['',0],'p3':['c1',R.randrange(1,9)],'p4':['c2',R.randrange(1,9)],'p5':['c1',R.randrange(1,9)]}
        s.g=R.randrange(0,20); s.init=dict(body=dict(s.body),vals=dict(s.vals)); s.incs=[]; s.texts={}
    def newbody(s,f):
        R=s.R; a=R.randrange(1,7); b=R.randrange(0,9)
        if TY[f]=='d': return ['lin',a,b]
        if TY[f]=='h': return ['lin3',a,b,R.randrange(0,5)]
        k=R.choice(['lin','lin','glob','ev','call','call','twice','morph','evalin'])
        return {'lin':['lin',a,b],'glob':['glob',a],'ev':['ev',a],'call':['call',R.choice(F),a],'twice':['twice',R.choice(F),a],'morph':['morph',R.choice(F),a],'evalin':['evalin',a]}[k]
    def value(s):
        R=s.R; f=R.choice(F+F+M)
        return [f,OBJ[R.choice(['k1','k2'])] if f in M else 0]
    def act(s):
        """one script operation and its statement(s)"""
        R=s.R; x=R.randrange(0,7)
        k=R.choice(['call']*5+['mcall']*3+['via']*3+['arg']*2+['val']*6+['take']*3+['copy','loop','loop']+['ov']*7+['ovval']*3+['text']*6+['bad']*3+['textval','eval','eval','badeval','g','setg'])
        refuse=lambda st: '{ void e(){ %s } auto r = try(e); evi(r.message.size > 0); }'%st
        arg={'i':'%d'%x,'d':'%d.0'%x,'h':'%d, %d, %d.0'%(x,x+1,x+2)}
        if k in('call','via','arg'):
            f=R.choice(F+F+D+H); t={'call':'%s(%s)','via':'via_%s(%s)','arg':'apply_%s('%TY[f]+'%s, %s)'}[k]%(f,arg[TY[f]])
            return [k,f,x],'evi(int(%s));'%t
        if k=='mcall':
            f=R.choice(M); o=R.choice(list(OBJ)); return [k,f,x,OBJ[o]],'evi(%s.%s(%d));'%(o,f,x)
        if k=='val':
            c=[p for p in s.vals if s.vals[p][0]]; p=R.choice(c); return [k,p,x],'evi(%s(%d));'%(p,x)
        if k=='take':
            p=R.choice(['p0','p1','p2']); f=R.choice(F+M)
            if f in M: o=R.choice(list(OBJ)); s.vals[p]=[f,OBJ[o]]; return [k,p,f,OBJ[o]],'%s = %s.%s;'%(p,o,f)
            s.vals[p]=[f,0]; return [k,p,f,0],'%s = %s;'%(p,f)
        if k=='copy':
            p=R.choice(['p0','p1','p2']); o=R.choice(sorted(s.vals)); s.vals[p]=s.vals[o]; return [k,p,o],'%s = %s;'%(p,o)
        if k=='loop':
            f=R.choice(F); n=R.randrange(2,6); return [k,f,n],'{ int t = 0; for(int i = 0; i < %d; i++) t += %s(i); evi(t); }'%(n,f)
        if k=='ov':
            f=R.choice(F*3+M*2+D+H); g=R.choice(F*3+M+D+H) if R.random()<.25 else R.choice([z for z in TY if TY[z]==TY[f] and z not in C])
            ref=lambda z: '%s.%s'%(R.choice(list(OBJ)),z) if z in M else z
            return [k,f,g],refuse('override(%s, %s);'%(ref(f),ref(g)))
        if k=='ovval':
            p,o=R.choice(sorted(s.vals)),R.choice(sorted(s.vals)); return [k,p,o],refuse('override(%s, %s);'%(p,o))
        if k in('text','bad'):
            f=R.choice(F*3+M+D+H); b=s.newbody(f); ref='%s.%s'%(R.choice(list(OBJ)),f) if f in M else f
            if k=='bad': return [k,f],refuse('override(%s, %s);'%(ref,q(R.choice(['return syntax error','return "abc";','return nosuch(arg0);','int a = 5','return arg9;','int[3] a; return a;','return 1; }','import verif; return 1;']))))
            return [k,f,b],refuse('override(%s, %s);'%(ref,q(code(b,['arg0','arg1','arg2'] if TY[f]=='h' else 'arg0',TY[f],R))))
        if k=='textval':
            p=R.choice(sorted(s.vals)); b=s.newbody('f1'); return [k,p,b],refuse('override(%s, %s);'%(p,q(code(b,'arg0','i',R))))
        if k=='eval':
            f=R.choice(F); n=R.randrange(1,9); return [k,n,f],'eval("g += %d; evi(%s(2));");'%(n,f)
        if k=='badeval': return [k],refuse('eval(%s);'%q(R.choice(['g += ;','g = "a";','nosuch = 1;'])))
        if k=='g': return [k],'evi(g);'
        n=R.randrange(0,50); return [k,n],'g = %d;'%n
    def make(s):
        R=s.R; s.scripts=[]
        while len(s.ops)<s.steps:
            k=R.choice(['script']*12+['hcall']*4+['hset']*2+['link','ncall','ncall','badlink','get','set','rerun']+(['rebuild'] if R.random()<.5 else []))
            x=R.randrange(0,7)
            if k=='script':
                qs=[s.act() for _ in range(R.choice([1,1,1,2,3,5]))]; s.scripts.append([t for _,t in qs]); s.ops.append((['script',[o for o,_ in qs]],[['runfn','op%d'%(len(s.scripts)-1)]]))
            elif k=='hcall': f=R.choice(F); s.ops.append((['hcall',f,x],[['runfn',f,'i',str(x)]]))
            elif k=='hset':
                f=R.choice(F+D); g=R.choice(F+D); s.ops.append((['hset',f,g],[['getfn',g,g],['setfn',f,g]]))
            elif k=='link':
                s.n+=1; n='n%d'%s.n; f=R.choice(F); a=R.randrange(0,9); s.incs.append(n)
                s.ops.append((['link',n,f,a],[['compile','import __last; int %s(int x){ g += 1; return %s(x) + %d; } return 0;'%(n,f,a)],['bytecodenc',n],['link',n]]))
            elif k=='badlink': s.ops.append((['badlink'],[['compile','import __last; int bad(int x){ return nosuch(x); } return 0;']]))
            elif k=='ncall':
                if s.incs: n=R.choice(s.incs); s.ops.append((['ncall',n,x],[['runfn',n,'i',str(x)]]))
            elif k=='get': s.ops.append((['get'],[['geti','g']]))
            elif k=='set': s.ops.append((['set',x],[['seti','g',str(x)]]))
            elif k=='rerun': s.vals=dict(s.init['vals']); s.ops.append((['rerun'],[['run']]))
            else: s.vals=dict(s.init['vals']); s.incs=[]; s.ops.append((['rebuild'],[['buildrun0']]))
        return s
def root(g):
    t='import verif; import std.dynamic; import std.error;\nint g = %d;\n'%g.g
    for f in F: t+='int %s(int x);\n'%f
    t+='class K{ int v; %s }\n'%' '.join('int %s(int x){ %s }'%(m,code(g.init['body'][m],'x','i')) for m in M)
    for f in F: t+='int %s(int x){ %s }\n'%(f,code(g.init['body'][f],'x','i'))
    for f in D: t+='double %s(double x){ %s }\n'%(f,code(g.init['body'][f],'x','d'))
    for f in H: t+='long %s(int x, long y, double z){ %s }\n'%(f,code(g.init['body'][f],['x','y','z'],'h'))
    t+='int ref(int) mk1(int k){ return int c1(int x){ return x + k; }; }\nint ref(int) mk2(int k){ return int c2(int x){ return x + k; }; }\n'
    for f in F: t+='int via_%s(int x){ return %s(x); }\n'%(f,f)
    for f in D: t+='double via_%s(double x){ return %s(x); }\n'%(f,f)
    for f in H: t+='long via_%s(int x, long y, double z){ return %s(x, y, z); }\n'%(f,f)
    t+='int apply_i(int ref(int) f, int x){ return f(x); } double apply_d(double ref(double) f, double x){ return f(x); } long apply_h(long ref(int, long, double) f, int x, long y, double z){ return f(x, y, z); }\n'
    t+='K k1; K k2; k1.v = 3; k2.v = 7;\nint ref(int) p0, p1, p2, p3, p4, p5;\n'
    for p,(f,c) in g.init['vals'].items():
        if f in M: t+='%s = %s.%s;\n'%(p,'k1' if c==3 else 'k2',f)
        elif f in C: t+='%s = mk%s(%d);\n'%(p,f[1],c)
        elif f: t+='%s = %s;\n'%(p,f)
    for i,b in enumerate(g.scripts): t+='int op%d(){\n%s\nreturn 7; }\n'%(i,'\n'.join(b))
    return t+'return 9;'
def prog(id,g):
    t=root(g); cmds=[['log','h0'],['build',t],['run']]; sops=[]
    for i,(o,cs) in enumerate(g.ops):
        cmds.append(['log','h%d'%i] if i else ['log','start'])
        for c in cs: cmds+=[['build',t],['run']] if c[0]=='buildrun0' else [c]
        sops.append(o)
    st=dict(body=g.init['body'],ty=TY,cx=CX,vals=g.init['vals'],g=g.g)
    return Prog(id,[(st,sops)],'%s\n\n%s'%(t,'\n'.join('%d %s'%(i,json.dumps(o)) for i,(o,_) in enumerate(g.ops))),cmds)
def parse(lines,prog):
    out=[]; i=0
    for l in lines:
        if l=='end': break
        p=l.split(' ')
        if p[0]=='log':
            if p[1]=='start': out=[[]] if out and out[0]==[['ok',0],['r',9]] else [[['start',0]]]; continue
            out.append([]); continue
        if not out: out.append([])
        r=out[-1]; msg=1 if len(p)>2 and p[-1] else 0
        if p[0]=='i': r.append(['i',int(p[1])])
        elif p[0]=='r': r.append(['r',int(p[2])] if len(p)>2 and p[1]!='d' else ['r',' '.join(p)])
        elif p[0]=='get': r.append(['none',0] if p[1]=='none' else ['get',int(p[1])])
        elif p[0]=='set': r.append([p[0],int(p[1])])
        elif p[0]=='getfn':
            if p[1]!='ok': r.append(['fail',0])
        elif len(p)>1 and p[1]=='ok': r.append(['ok',0])
        elif len(p)>1 and p[1]=='fail': r.append(['fail',msg])
        else: r.append([p[0],' '.join(p[1:])])
    ops=prog.hists[0][1]
    for k,o in enumerate(ops):                                # the build of a rebuild
        if k<len(out) and o[0]=='rebuild' and out[k][:1]==[['ok',0]]: out[k]=out[k][1:]
    return [out]
