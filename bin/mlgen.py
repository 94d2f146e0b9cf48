"""Generator and renderer of abstract macro-language programs (the statements of spec/MacroLang.tla)."""
from hgen import *
import json
def S(op_,seq='',**k): return dict(op=op_,seq=seq,**k)
def log(e,seq=''): return S('log',seq,e=e if isinstance(e,dict) else lit(e))
def logp(*p): return S('log','',e=string([s_(x) if isinstance(x,str) else x for x in p]))
def sete(k,v,*x,seq=''): return S('set',seq,k=k,v=v,x=list(x))
def dcl(g,k,*x): return S('dcl','',g=g,k=k,x=[dict(n=n,sc=sc) for n,sc in x])
def ago(*t,e=(),seq=''): return S('ago',seq,e=list(e),t=list(t))
def aif(*x,seq=''): return S('aif',seq,x=[dict(c=c,t=t) for c,t in x])
def actr(n,seq=''): return S('actr',seq,e=num(n) if isinstance(n,int) else n)
def anop(seq=''): return S('anop',seq)
def mexit(seq=''): return S('mexit',seq)
def mend(seq=''): return S('mend',seq)
def macro(name,body,par=(),lab='',seq='',mseq=''): return [S('macro',seq),S('proto','',n=name,lab=lab,par=list(par))]+list(body)+[S('mend',mseq)]
def call(o,*args,lab=(),seq=''): return S('call',seq,o=[s_(o)] if isinstance(o,str) else o,lab=[s_(lab)] if isinstance(lab,str) else list(lab),args=list(args))
def copy(m,seq=''): return S('copy',seq,m=m)
def opsyn(n,o=''): return S('opsyn','',n=n,o=o)
def ordst(n,ty,ln,txt): return S('ord','',n=n,ty=ty,len=ln,txt=txt)
def txt(*p): return dict(t='txt',p=[s_(x) if isinstance(x,str) else x for x in p])
OM=dict(t='omit')
def sub(*x): return dict(t='sub',x=list(x))
def key(n,a): return dict(t='key',n=n,a=a)
def pp(n): return dict(k='p',n=n,d=dict(m='s',v=''))
def po(): return dict(k='o',n='',d=dict(m='s',v=''))
def pk(n,d=''): return dict(k='k',n=n,d=dict(m='s',v=d) if isinstance(d,str) else d)
def comp(*x): return dict(m='c',x=[dict(m='s',v=y) if isinstance(y,str) else y for y in x])
def dtext(d): return d['v'] if d['m']=='s' else '('+','.join(dtext(x) for x in d['x'])+')'
class Rend:
    def __init__(s,rng=None): s.r=R(rng); s.rng=rng
    def c(s,x): return rcase(s.rng,x)
    def arg(s,a):
        t=a['t']
        if t=='omit': return ''
        if t=='var': return s.r.var(a)
        if t=='txt': return s.r.text(a['p'])
        if t=='sub': return '('+','.join(s.arg(x) for x in a['x'])+')'
        if t=='key': return a['n']+'='+s.arg(a['a'])
    def lines(s,stmts):
        L=[]
        for x in stmts:
            o=x['op']; q=('.'+s.c(x['seq'])) if x['seq'] else ''
            if o in('log','set') and q: L.append(q+' ANOP')
            if o=='log':
                L.append('&VPN SETA &VPN+1'); L+=cont('&VPL(&VPN) SETC '+s.r.e(x['e']))
            elif o=='set': L+=cont(s.r.var(x['v'])+' '+s.c('SET'+x['k'])+' '+','.join('' if e['t']=='omit' else s.r.e(e) for e in x['x']))
            elif o=='dcl': L+=cont(q+' '+s.c(('GBL' if x['g'] else 'LCL')+x['k'])+' '+','.join('&'+s.c(v['n'])+('' if v['sc'] else '(1)') for v in x['x']))
            elif o=='ago': L+=cont(q+' AGO '+('('+s.r.e(x['e'][0])+')' if x['e'] else '')+','.join('.'+s.c(t) for t in x['t']))
            elif o=='aif':
                def cond(c): t=s.r.e(c); return t if c['t']=='list' else '('+t+')'
                L+=cont(q+' AIF '+','.join(cond(y['c'])+'.'+s.c(y['t']) for y in x['x']))
            elif o=='actr': L+=cont(q+' ACTR '+s.r.e(x['e']))
            elif o in('anop','mexit','mend','macro'): L.append(q+' '+s.c(o.upper()))
            elif o=='proto':
                ps=[]
                for p in x['par']: ps.append('' if p['k']=='o' else '&'+p['n']+('='+dtext(p['d']) if p['k']=='k' else ''))
                L+=cont(('&'+x['lab'] if x['lab'] else '')+' '+s.c(x['n'])+' '+','.join(ps)); L+=[' GBLA &VPN',' GBLC &VPL(1)']
            elif o=='call':
                lb=s.r.text(x['lab']) if x['lab'] else q
                L+=cont(lb+' '+(s.c(x['o'][0]['s']) if len(x['o'])==1 and x['o'][0]['t']=='s' else s.r.text(x['o']))+' '+','.join(s.arg(a) for a in x['args']))
            elif o=='copy': L.append(q+' '+s.c('COPY')+' '+x['m'])
            elif o=='opsyn': L.append(x['n']+' OPSYN '+x['o'])
            elif o=='ord': L.append((x['n'])+' '+x['txt'])
            else: raise Exception(o)
        return [l.rstrip(' ') if not l.endswith('X') else l for l in L]
HDR=[' GBLA &VPN',' GBLC &VPL(1)']
def render(prog,rng=None,macros_in=()):
    r=Rend(rng)
    c=dict(prog=prog,src='\n'.join(HDR+r.lines(prog['open']))+'\n',libs={k:'\n'.join(r.lines(v))+'\n' for k,v in prog['libs'].items()},log=1)
    return c
def combine(c,r): return dict(prog=c['prog'],log=r.get('log',[]),codes=sorted({{'E056':'E055','W014':'W013'}.get(x,x) for x in r.get('codes',[])+r.get('libcodes',[])}),src=c['src'],libs=c['libs'])
class P:
    """random program; w: weights per statement kind"""
    def __init__(s,rng,w,loops=True,errs=.04):
        s.r=rng; s.w=w; s.libs={}; s.loops=loops; s.errs=errs; s.ops=['M1','M2','M3']; s.nlog=0; s.syms=[]
        s.labels=['A','B','CC','D']; s.maxn=10; s.libmac=.2
    def ch(s,*x): return s.r.choice(x)
    # --- scopes: what is (probably) declared
    def scope(s,params=(),mac=False): return dict(A=['I'],B=[],C=['S'],AA=[],AC=[],par=list(params),mac=mac,arr=False)
    def G(s,sc):
        r=s.r
        def bad(v): return var('NOSUCH') if r.random()<s.errs else v
        A=[lambda g,d,n=n:bad(var(n)) for n in sc['A']+sc['B']]+[lambda g,d,n=n:var(n,[num(r.choice([1,2,3]+([0] if r.random()<s.errs else [])))]) for n in sc['AA']]
        if sc['par']: A.append(lambda g,d:attr('N',s.pvar(sc))); A.append(lambda g,d:attr('K',s.pvar(sc,True)))
        if s.syms: A.append(lambda g,d:dict(t='sattr',a=r.choice('LD'),s=r.choice(s.syms)))
        B=[lambda g,d,n=n:var(n) for n in sc['B']]+[lambda g,d:lst(var('I'),op(r.choice(['LT','EQ','GT','NE'])),num(r.randrange(5)))]
        if s.syms: B.append(lambda g,d:lst(dict(t='sattr',a='T',s=r.choice(s.syms)),op(r.choice(['EQ','NE'])),lit(r.choice('UFMNCI'))))
        T=[lambda g,d,n=n:bad(var(n)) for n in sc['A']+sc['B']+sc['C']]+[lambda g,d,n=n:var(n,[num(r.choice([1,2,3]))]) for n in sc['AA']+sc['AC']]
        if sc['par']: T+=[lambda g,d:s.pvar(sc,True)]*3
        if sc['mac']: T+=[lambda g,d:var('SYSNDX'),lambda g,d:var('SYSNEST'),lambda g,d:var('SYSMAC',[num(r.choice([0,1,2,3]))])]; A+=[lambda g,d:var('SYSNEST')]
        return G(r,{'A':A,'B':B,'C':[],'T':T},small=True)
    def pvar(s,sc,nz=False):
        r=s.r; n=r.choice(sc['par']+(['SYSLIST'] if sc['mac'] else []))
        k=r.random(); ix=[]
        if n=='SYSLIST': ix=[num(r.choice([0,1,1,2,3]))] if nz or k<.7 else []
        if k<.35: ix=ix+[num(r.choice([1,2,3]))] if ix or n!='SYSLIST' else ix
        if k<.1 and ix: ix=ix+[num(r.choice([1,2]))]
        return var(n,ix)
    def logst(s,sc):
        s.nlog+=1; g=s.G(sc); r=s.r
        p=[s_('%d:'%s.nlog)]
        for _ in range(r.choice([0,1,1,2])): p+=[s_('/') if p[-1]['t']!='s' else s_(''),r.choice(g.v['T'])(g,0)]
        p=[x for x in p if x['t']!='s' or x['s']]
        q=[]
        for x in p:
            if q and q[-1]['t']=='s' and x['t']=='s': q[-1]=s_(q[-1]['s']+x['s'])
            else: q.append(x)
        return log(string(q))
    def cond(s,sc):
        g=s.G(sc); e=g.B(s.ch(0,1,1,2))
        return e if e['t']=='list' else lst(e)
    def text(s): return s.ch('A','B1','X+Y','12','ABC','SYM',"'A B'","'A,B'",'Q','5','7','R1','-3')
    def arg(s,sc,d=2):
        r=s.r; k=r.random(); g=s.G(sc)
        if k<.12: return OM
        if k<.42: return txt(s.text())
        if k<.62: return r.choice(g.v['T'])(g,0)
        if k<.74:
            a,b=s_(s.ch('A','B','X1')),r.choice(g.v['T'])(g,0)
            return txt(a,b) if r.random()<.5 else txt(b,s_(s.ch('A','B','X1')))
        if d>0: return sub(*[s.sarg(sc,d-1) for _ in range(s.ch(1,2,2,3))])
        return txt('Z')
    def sarg(s,sc,d):
        a=s.arg(sc,d)
        # inside a sublist only plain text, omitted elements and sublists of text
        return a if a['t'] in('omit','sub') or a['t']=='txt' and all(p['t']=='s' for p in a['p']) else txt('W')
    def data(s,d=1):
        r=s.r; k=r.random()
        if k<.3: return ''
        if k<.7 or d==0: return s.ch('DEF','1','A1','XY')
        return comp(*[s.data(0) or 'E' for _ in range(s.ch(1,2,3))])
    def stmt(s,sc,depth):
        r=s.r; k=r.choices(list(s.w),list(s.w.values()))[0]
        seq=r.choice(s.labels) if r.random()<.35 else ''
        g=s.G(sc)
        if k=='log': return ([anop(seq)] if seq else [])+[s.logst(sc)]
        if k=='set':
            t=s.ch(*'AABCC'); e={'A':g.A,'B':g.B,'C':g.C}[t](s.ch(0,0,1,1,2))
            if t=='B' and e['t']!='list': e=lst(e)
            names={'A':['I','J']+sc['A'],'B':['FB']+sc['B'],'C':['S','S2']+sc['C']}[t]
            n=r.choice(names); v=var(n)
            if t in 'AC' and sc['A'+t] and r.random()<.35: v=var(r.choice(sc['A'+t]),[num(s.ch(1,2,3))])
            if r.random()<s.errs: v=var(s.ch('I','S','FB',*(sc['par'] or ['I'])),[num(s.ch(0,1))] if r.random()<.5 else [])
            if r.random()<.08: v=var('',v['ix'],[s_(v['n'][:1]),s_(v['n'][1:])] if len(v['n'])>1 else [s_(v['n'])])
            x=[e]
            if v['ix'] and t=='A' and r.random()<.3: x=[e,OM,g.A(0)] if r.random()<.3 else [e,g.A(0)]
            if not v['ix'] and v['n'] and v['n'] not in sc[t]: sc[t].append(v['n'])
            return ([anop(seq)] if seq else [])+[sete(t,v,*x)]
        if k=='dcl':
            t=s.ch(*'ABC'); gl=r.random()<.6
            names={'A':['GA','GX','J','I'],'B':['GB','FB','GX'],'C':['GC','S2','GX','S']}[t]
            xs=[]
            for _ in range(s.ch(1,1,2)):
                n=r.choice(names); 
                if n not in [a for a,_ in xs]: xs.append((n,True))
                key_='A'+t
                if r.random()<.3 and t in 'AC':
                    n={'A':'ARA','C':'ARC'}[t]
                    if n not in [a for a,_ in xs]: xs.append((n,False)); 
            for n,scl in xs:
                if scl and n not in sc[t]: sc[t].append(n)
                if not scl and n not in sc['A'+t]: sc['A'+t].append(n)
            return [dcl(gl,t,*xs)]
        if k=='ago':
            if r.random()<.3: return [ago(*[r.choice(s.labels) for _ in range(s.ch(1,2,3))],e=[r.choice([num(s.ch(0,1,2,3,4)),var('I'),g.A(1)])],seq=seq)]
            return [ago(r.choice(s.labels),seq=seq)]
        if k=='aif': return [aif(*[(s.cond(sc),r.choice(s.labels)) for _ in range(s.ch(1,1,1,2,3))],seq=seq)]
        if k=='actr': return [actr(s.ch(2,5,9),seq=seq)]
        if k=='anop': return [anop(seq)]
        if k=='mexit': return [mexit(seq)] if sc['mac'] or r.random()<s.errs else [anop(seq)]
        if k=='copy': return [copy(s.copyname(depth),seq)]
        if k=='opsyn':
            n=s.ch(*s.ops,'NEW1','LR','ANOP') ; o=s.ch('',*s.ops,*s.ops,'LR','ANOP','NEW1','NOSUCHOP')
            return [opsyn(n,o)]
        if k=='ord': 
            n=r.choice(s.syms or ['X1']); ty,ln,tx=r.choice([('F',4,'DS F'),('C',5,'DS CL5'),('H',2,"DC H'1'"),('U',1,'EQU 7'),('U',9,'EQU 7,9'),('Z',3,"EQU 1,3,C'Z'"),('I',2,'LR 1,1'),('X',2,"DC X'1234'")])
            return [ordst(n,ty,ln,tx)]
        if k=='macro':
            if depth<=0: return [anop(seq)]
            return s.mdef(s.ch(*s.ops),depth-1,seq)
        if k=='call':
            o=s.callee(sc); lab=()
            if o=='ANOP': return [anop(seq)]
            if r.random()<.3 and not seq: lab=[s_(s.ch('LB','X1','FLD'))] if r.random()<.6 else [r.choice(g.v['T'])(g,0),s_('X')] if s.lablit() else [s_('QQ')]
            args=[s.arg(sc) for _ in range(s.ch(0,1,2,2,3,4))]
            if r.random()<.35:
                a=s.arg(sc); kn=s.ch('K1','K2','k1')
                if a['t']=='txt' or a['t'] in('var','sub','omit'): args.insert(r.randrange(len(args)+1),key(kn,a))
            if r.random()<.05: args.append(key('UNKN',txt('V1')))
            if args and args[-1]['t']=='omit': args[-1]=txt('LAST')
            return [call(o,*args,lab=lab if not seq else (),seq=seq)]
        raise Exception(k)
    def lablit(s): return False
    def callee(s,sc): 
        x=[o for o in s.ops if o>sc.get('me','')]
        return s.r.choice(x) if x else 'ANOP'
    def copyname(s,depth):
        n=s.ch('C1','C2','C3')
        if s.r.random()<s.errs/2: return 'NOMEMB'
        return n
    def block(s,sc,n,depth):
        o=[]
        for _ in range(n): o+=s.stmt(sc,depth)
        return o
    def mdef(s,name,depth,seq=''):
        r=s.r; par=[]; names=[]
        for n in ['P1','P2','P3'][:s.ch(0,1,2,3)]: par.append(pp(n) if r.random()<.9 else po()); names+=[n] if par[-1]['k']=='p' else []
        for n in ['K1','K2'][:s.ch(0,1,2)]:
            par.insert(r.randrange(len(par)+1),pk(n,s.data())); names.append(n)
        lab='LAB' if r.random()<.4 else ''
        sc=s.scope(names+([lab] if lab else []),True); sc['me']=name
        body=[sete('A',var('I'),num(r.randrange(3)))]+[sete('C',var('S'),lit(s.ch('s','tt')))]
        if s.loops: body.insert(0,actr(s.ch(1,2,3,4,7)))
        body+=s.block(sc,r.randrange(1,s.maxn),depth)
        return macro(name,body,par,lab,seq,mseq=s.ch('','','MX'))
    def program(s,n):
        sc=s.scope()
        o=[sete('A',var('I'),num(0)),sete('C',var('S'),lit('o'))]
        if s.loops: o.insert(0,actr(s.ch(2,4,6,9)))
        for m in s.ops:
            k=s.r.random()
            if k<.6: o+=s.mdef(m,s.ch(0,0,1))
            elif k<.6+s.libmac: s.libs[m]=s.mdef(m,s.ch(0,0,1))
        for m in ['C1','C2','C3']: s.libs[m]=[]
        w=dict(s.w); s.w={k:v for k,v in w.items() if k not in('macro',)}
        for m in ['C1','C2','C3']:
            s.libs[m]=[x for x in s.block(dict(sc,par=[]),s.r.randrange(0,5),0) if x['op']!='copy' or x['m']>m]
        s.w=w
        o+=s.block(sc,n,1)
        return dict(open=o,libs=s.libs)
