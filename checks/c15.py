#!/usr/bin/env python3
"""C15: definition, references, hover and completion agree with what the program defines and uses."""
import sys,os,json
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
MOD='Trace_LspNav'
class T:
    """a token: kind, name, text, optional; nested tokens in sub (offset, token)"""
    def __init__(s,k,n,o=False,tail=()): s.k=k; s.n=n; s.o=o; s.tail=tail
NAMES=['A','B','X','N1','MX']
MACS=['MX','MYY','MZ']
class Scope:
    def __init__(s): s.vars={}; s.seqs=[]; s.used=[]
class Gen:
    def __init__(s,r,nest=True): s.r=r; s.nest=nest; s.files={}; s.mode='open'; s.id=0; s.copyowner={}
    def case(s,t): return t if s.r.random()<.8 else t.lower()
    # ---- a statement from pieces ----
    def line(s,k,lab,op,pieces,**x):
        txt=''; toks=[]
        def put(p):
            nonlocal txt
            if isinstance(p,str): txt+=p; return
            c=len(txt); pre={'VAR':'&','SEQ':'.'}.get(p.k,''); txt+=pre+s.case(p.n); i=len(toks); toks.append(None)
            e=len(txt)
            if p.tail: toks.append(None)
            for y in p.tail: put(y)
            toks[i]=dict(k=p.k,n=p.n.upper(),c=c,e=e,o=p.o)
            if p.tail: toks[i+1]=dict(k='SUB',n='-',c=e,e=len(txt),o=True)
        if lab: put(lab)
        txt+=' '*s.r.choice([1,1,3]); oc=len(txt); txt+=op; oe=len(txt)
        if pieces:
            txt+=' '*s.r.choice([1,1,2])
            for p in pieces: put(p)
        if pieces and s.r.random()<.15: txt+=' '+s.r.choice(['remark &A .A','X','see A'])
        # an ordinary symbol next to a variable symbol in the operands is not certainly recognised
        var=any(t['k']=='VAR' for t in toks) and k not in('set','decl')
        if var:
            for t in toks:
                if t['k']=='ORD' and t['c']>oc: t['o']=True
        return dict(l=0,k=k,text=txt,seq=lab.n.upper() if lab and lab.k=='SEQ' else '',op=[op.upper(),oc,oe],toks=toks,decl=x.get('decl',[]),sym=x.get('sym','').upper(),val=x.get('val',''),attr=x.get('attr',''),sig='',file=x.get('file','-'),to=x.get('to',''),
                    _d=[t for t in toks] )
    # ---- tokens ----
    def ord(s): return T('ORD',s.r.choice(NAMES+['R1']))
    def var(s,sc,d=0):
        r=s.r; v=r.choice(list(sc.vars)); ty,arr=sc.vars[v]
        if arr: return T('VAR',v,tail=['(']+s.aexp(sc,d+1)+[')'])
        return T('VAR',v)
    def aterm(s,sc,d):
        r=s.r; k=r.random()
        if sc.vars and d<3 and k<.6: return [s.var(sc,d)]
        if k<.75 and not s.instr: return ["L'",s.ord()]
        return [str(r.randrange(1,9))]
    def aexp(s,sc,d=0):
        o=s.aterm(sc,d)
        if s.r.random()<.3: o+=[s.r.choice('+-*')]+s.aterm(sc,d)
        return o
    instr=False
    def sterm(s,sc):
        # an attribute reference within a string is not certainly told from the end of the string
        s.instr=True; o=s.sterm1(sc); s.instr=False
        if s.r.random()<.2: o+=['(']+s.aexp(sc,1)+[',']+s.aexp(sc,1)+[')']
        return o
    def sterm1(s,sc):
        r=s.r; o=["'"]
        for _ in range(r.randrange(0,4)):
            if sc.vars and r.random()<.6: o+=[s.var(sc,1)]+([r.choice(['.','',' ','.'])] )
            else: o.append(r.choice(['A','X ','N1,','it','.A']))
        # a name must not be glued to the variable before it
        f=[]
        for i,p in enumerate(o):
            if isinstance(p,str) and p and i and isinstance(o[i-1],str) and o[i-1]=='' and (p[0].isalnum() or p[0]=='.'): f.append('.')
            f.append(p)
        # symbols of subscripts in a string are not certainly recognised
        def loose(p):
            if isinstance(p,T):
                if p.k=='ORD': p.o=True
                for y in p.tail: loose(y)
        for p in f: loose(p)
        return f+["'"]
    def cexp(s,sc):
        o=s.sterm(sc)
        if s.r.random()<.2: o=['(UPPER ']+s.sterm(sc)+[')']
        elif s.r.random()<.2: o+=['.']+s.sterm(sc)
        return o
    def lexp(s,sc):
        r=s.r
        if r.random()<.6: return s.aexp(sc)+[r.choice([' EQ ',' LT '])]+s.aexp(sc)
        return s.sterm(sc)+[' EQ ']+s.sterm(sc)
    def mexp(s):
        o=[s.ord()] if s.r.random()<.6 else ["L'",s.ord()] if s.r.random()<.5 else [str(s.r.randrange(9))]
        if s.r.random()<.3: o+=['+']+s.mexp()
        return o
    def seqlab(s,sc):
        free=[n for n in NAMES if n not in sc.seqs]
        if free and s.r.random()<.2: n=s.r.choice(free); sc.seqs.append(n); return T('SEQ',n)
    # ---- statements ----
    def stmts(s,sc,n,lab=True,depth=0,copies=True):
        o=[]
        while n>0:
            n-=1; o+=s.stmt(sc,lab,depth,copies)
        return o
    def stmt(s,sc,lab,depth,copies):
        r=s.r; k=r.random(); sl=s.seqlab(sc) if lab and not .84<=k<.92 else None
        L=lambda *a,**x: [s.line(*a,**x)]
        if k<.04: return [dict(s.line('comment',None,'',[]),text='* comment &A X',toks=[],op=['',0,0])]
        if k<.14:
            new=[n for n in NAMES if n not in sc.vars]
            if new:
                ty=r.choice('ABC'); gl=r.choice(['LCL','GBL']); vs=r.sample(new,min(len(new),r.choice([1,1,2]))); p=[]; d=[]
                for i,v in enumerate(vs):
                    arr=r.random()<.3; sc.vars[v]=(ty,arr); p+=([','] if i else [])+[T('VAR',v,tail=['(5)'] if arr else ())]; d.append(v)
                x=s.line('decl',sl,gl+ty,p); x['decl']=[[t['n'],t['c'],ty] for t in x['toks'] if t['k']=='VAR']; return [x]
        if k<.34:
            v=r.choice(NAMES); ty=r.choice('ABC')
            if v in sc.vars:
                ty,arr=sc.vars[v]
                if ty=='P': return []
            else: arr=False
            e=s.aexp(sc) if ty=='A' else ['(']+s.lexp(sc)+[')'] if ty=='B' else s.cexp(sc)
            t=T('VAR',v,tail=(['(']+s.aexp(sc,1)+[')']) if arr else ())
            sc.vars.setdefault(v,(ty,arr))
            x=s.line('set',t,'SET'+ty,e); x['decl']=[[v,0,ty]]; return [x]
        if k<.42:
            n=r.choice(NAMES); return L('plain',sl,'AIF',['(1 EQ 0 AND ']+s.lexp(sc)+[')',T('SEQ',n)])
        if k<.46 and lab:
            free=[n for n in NAMES if n not in sc.seqs]
            if free:
                n=r.choice(free); sc.seqs.append(n)
                return L('ago',sl,'AGO',[T('SEQ',n)],to=n)+s.stmts(sc,r.choice([0,1,2]),False,depth,False)+L('plain',T('SEQ',n),'ANOP',[])
        if k<.58:
            n=r.choice(NAMES+['R1'])
            if r.random()<.5:
                v=r.choice([r.randrange(1,10),r.randrange(0,4097)]); ln=r.choice([None,None,r.randrange(1,300)]); ty=r.choice([None,'A','X','F']) if ln else None
                return L('plain',T('ORD',n),'EQU',[str(v)]+([',%d'%ln] if ln else [])+([",C'%s'"%ty] if ty else []),sym=n,val='%d\n\n---\n\nAbsolute'%v,attr='L: %d  \nT: %s  \n'%(ln or 1,ty or 'U'))
            return L('plain',T('ORD',n),r.choice(['EQU']),s.mexp(),sym=n)
        if k<.66:
            n=r.choice(NAMES)
            if r.random()<.4: k=r.randrange(1,200); t=r.choice('CX'); return L('plain',T('ORD',n),'DS',['%sL%d'%(t,k)],sym=n,val='R',attr='L: %d  \nI: 0  \nS: 0  \nT: %s  \n'%(k,t))
            return L('plain',T('ORD',n),'DS',['(']+s.mexp()+[')CL(']+s.mexp()+[')'],sym=n)
        if k<.72: return L('plain',sl,'DC',['A(']+s.mexp()+[',']+s.mexp()+[')'])
        if k<.8:
            if sc.vars and r.random()<.4: return L('plain',sl,'LR',[s.var(sc),',',s.ord()] if r.random()<.5 else [s.ord(),',',s.var(sc)])
            return L('plain',sl,*r.choice([('LR',[s.ord(),',',s.ord()]),('L',[s.ord(),',',s.ord(),'(',s.ord(),',',s.ord(),')']),('MVC',[s.ord(),'(',s.ord(),'),',s.ord()])]))
        if k<.84 and copies:
            n=s.copy(sc)
            if n: return L('copy',sl,'COPY',[T('COPY',n)],file='LIB/'+n)
        if k<.92 and depth<3:
            m=r.choice([x for x in MACS+['LIBX','LIBY'] if x not in s.busy] or ['LIBX'])
            if m in s.busy: return []
            ops=[]
            for i in range(r.randrange(0,4)):
                q=r.random()
                o=[s.ord()] if q<.35 else ['(',s.ord(),',',s.ord(),')'] if q<.45 else [s.var(sc)] if sc.vars and q<.7 else [T('ORD','K',o=True),'=',T('ORD','X',o=True)] if q<.75 else [str(r.randrange(9))]
                ops+=([','] if i else [])+o
            return L('call',None,m,ops)
        if depth<2 and s.nest and r.random()<(.8 if depth==0 else .3): return s.macro(depth,sc)
        return []
    busy=()
    def copy(s,sc):
        own=[n for n,o in s.copyowner.items() if o is sc]
        if own and s.r.random()<.3 and not any(x['k']=='macro' for x in s.files['LIB/'+own[0]]): 
            n=own[0]
            if s.r.random()<.7 and not any(x['seq'] for x in s.all(n)): return n
            return None
        if len(s.copyowner)>=4 or s.incopy: return None
        n='CP%d'%len(s.copyowner); s.copyowner[n]=sc; s.incopy=True
        s.files['LIB/'+n]=s.stmts(sc,s.r.randrange(1,5),s.r.random()<.5,2,False) or [s.line('plain',None,'ANOP',[])]
        s.incopy=False; return n
    incopy=False
    def all(s,n): return s.files['LIB/'+n]
    def macro(s,depth,sc,name=None):
        r=s.r; o=[]; m=Scope(); name=name or r.choice(MACS); save=s.busy
        if name in s.busy: return []
        s.busy=tuple(s.busy)+(name,)
        for _ in range(r.choice([0,0,1,2])): o.append(dict(s.line('comment',None,'',[]),text=r.choice(['* about it','.* hidden','*']),toks=[],op=['',0,0]))
        o.append(s.line('macro',None,'MACRO',[]))
        ps=r.sample(NAMES,r.randrange(0,3)); lab=None
        if ps and r.random()<.3: lab=T('VAR',ps[0])
        pieces=[]; decl=[]; pos=[]; kw=[]
        for i,p in enumerate(ps[1 if lab else 0:]):
            d=s.r.choice(['5','',"'A'"]) if r.random()<.3 else None
            pieces+=([','] if i else [])+[T('VAR',p)]+(['=',d] if d is not None else [])
            if d is None: pos.append('&'+p)
            else: kw.append('&'+p+'='+d)
        for p in ps: m.vars[p]=('P',False)
        x=s.line('proto',lab,name,pieces); x['decl']=[[t['n'],t['c'],'P'] for t in x['toks'] if t['k']=='VAR']; x['sig']=('&%s '%lab.n if lab else '')+name+' '+','.join(pos+kw); o.append(x)
        for _ in range(r.choice([0,0,1])): o.append(dict(s.line('comment',None,'',[]),text='* after it',toks=[],op=['',0,0]))
        o+=s.stmts(m,r.randrange(1,7),True,depth+1)
        o.append(s.line('mend',s.seqlab(m),'MEND',[])); s.busy=save; return o
    def program(s):
        r=s.r; sc=Scope(); s.open=sc
        for l in ('LIBX','LIBY'):
            if r.random()<.6: s.busy=('LIBX','LIBY')+tuple(MACS) if r.random()<.5 else (l,); s.busy=tuple(x for x in s.busy if x!=l); s.files['LIB/'+l]=s.macro(0,None,l) ; s.busy=()
        s.files['OPEN']=s.stmts(sc,r.randrange(4,16))
        F={}
        n=0
        for f,st in s.files.items():
            for i,x in enumerate(st): x['l']=i; x.pop('_d',None); n+=1
            F[f]=st
        if n>120 or any(len(x['text'])>71 for st in F.values() for x in st): return None
        if not ok(F): return None
        q=[]; comp=[]
        for f,st in F.items():
            for x in st:
                cols=set(range(len(x['text'])+1)) if r.random()<.3 else {y for t in x['toks'] for y in(t['c'],t['e'],(t['c']+t['e'])//2,t['c']+1)}|{x['op'][1],x['op'][2],0,len(x['text'])}
                for c in sorted(cols): q.append([f,x['l'],c])
                if r.random()<.4 and x['k'] not in('macro','comment'): comp.append([f,x['l'],r.choice([1,len(x['text'])]),r.choice('&.')])
                if f=='OPEN' and r.random()<.1 and x['text'][0]==' ' and x['op'][0]: comp.append([f,x['l'],r.randrange(x['op'][1],x['op'][2]+1),'I'])
        return dict(src=text(F['OPEN']),libs={f[4:]:text(st) for f,st in F.items() if f!='OPEN'},q=q,comp=comp,files=F)
def text(st): return ''.join(x['text']+'\n' for x in st)
def ok(F):
    """the program ends, no definition is read twice and it is not too long: run it"""
    mac={}; steps=0; seen=set()
    def whole(f): return [(f,i) for i in range(len(F[f]))]
    def flat(b,copied):
        o=[]
        for f,i in b:
            x=F[f][i]; o.append((f,i))
            if x['k']=='copy' and not copied: o+=flat(whole(x['file']),copied)
        return o
    def find(b,n):
        l=0
        for i,(g,y) in enumerate(b):
            k=F[g][y]['k']
            if k=='macro': l+=1
            elif k=='mend' and l: l-=1
            elif l==0 and F[g][y]['seq']==n: return i
        raise ValueError
    def define(b,i,copied):
        n=0
        for e in range(i,len(b)):
            k=F[b[e][0]][b[e][1]]['k']
            if k=='macro': n+=1
            if k=='mend':
                n-=1
                if n==0: break
        f,j=b[i+1]; ident=(f,j)
        if ident in seen: raise ValueError
        seen.add(ident); mac[F[f][j]['op'][0]]=flat(b[i+2:e+1],copied); return e+1
    def run(b,m,depth):
        nonlocal steps
        if depth>12: raise ValueError
        i=0
        while i<len(b):
            steps+=1
            if steps>300: raise ValueError
            f,j=b[i]; x=F[f][j]; i+=1
            if x['k']=='macro': i=define(b,i-1,m)
            elif x['k']=='mend': return
            elif x['k']=='copy' and not m: run(whole(x['file']),False,depth+1)
            elif x['k']=='ago': i=find(b,x['to'])
            elif x['k']=='call':
                n=x['op'][0]
                if n not in mac and 'LIB/'+n in F:
                    L=whole('LIB/'+n); define(L,[y for y,(g,z) in enumerate(L) if F[g][z]['k']=='macro'][0],False)
                if n in mac: run(mac[n],True,depth+1)
    try: run(whole('OPEN'),False,0)
    except (ValueError,IndexError): return False
    return True
def combine(c,r): return dict(files=c['files'],q=c['q'],comp=c['comp'],a=r.get('a',[]),canswer=r.get('comp',[]),src=c['src'])
def rand(s,k,**a):
    o=[]
    while len(o)<k:
        p=Gen(s.rng,**a).program()
        if p: o.append(p)
    return o
DRV=('vp_lib','nav')
def dev(s,k): return rand(s,k)
def body(s):
    build(['vp_lib'])
    s.model('MC_LspNav','MC_LspNav.cfg' if s.quick else 'MC_LspNav_deep.cfg')
    s.conform('vp_lib','nav',rand(s,4000 if s.quick else 30000),MOD,MOD+'.cfg',combine=combine,label='programs: definition, references, hover and completion at every token',chunk=100)
    s.findings('vp_lib','nav')
if __name__=='__main__': Check('C15').main(body)
