#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_SymDeps'
def n(v): return dict(k='n',v=v)
def s_(x): return dict(k='s',s=x)
def L_(x): return dict(k='L',s=x)
LOC=dict(k='loc')
def bi(k,a,b): return dict(k=k,a=a,b=b)
def neg(a): return dict(k='neg',a=a)
def sect(l,kind='CSECT'): return dict(op='SECT',lab=l,kind=kind)
def loctr(l): return dict(op='LOCTR',lab=l)
def ds(l,e,form='dup'): return dict(op='DS',lab=l,e=e,form=form)
def equ(l,e,ln=-1,ty=0): return dict(op='EQU',lab=l,e=e,len=ln,ty=ty)
TYS={231:"C'X'",195:"C'C'",241:"C'1'",200:"X'C8'",230:'230'}
PR={'+':1,'-':1,'*':2,'/':2}
def ex(e,p=0):
    k=e['k']
    if k=='n': return str(e['v'])
    if k=='s': return e['s']
    if k=='L': return "L'"+e['s']
    if k=='loc': return '*'
    if k=='neg': o='-'+ex(e['a'],3); return '('+o+')' if p>0 else o
    q=PR[k]; o=ex(e['a'],q)+k+ex(e['b'],q+1)
    return '('+o+')' if q<p else o
def stm(t):
    if t['op']=='SECT': return f"{t['lab']} {t['kind']}"
    if t['op']=='LOCTR': return f"{t['lab']} LOCTR"
    if t['op']=='EQU': return f"{t['lab']} EQU {ex(t['e'])}"+(f",{t['len'] if t['len']>=0 else ''}" if t['len']>=0 or t['ty'] else '')+(f",{TYS[t['ty']]}" if t['ty'] else '')
    return f"{t['lab']} DS "+(f"({ex(t['e'])})C" if t['form']=='dup' else f"CL({ex(t['e'])})")
def render(p):
    return dict(src='\n'.join(stm(t) for t in p)+'\n',dl=1,syms=sorted({t['lab'] for t in p if t['lab']}),prog=[{k:v for k,v in t.items() if k!='kind'} for t in p])
def combine(c,r): return dict(prog=c['prog'],sym=r.get('sym',{}),diags=[dict(c=d['c'],l=d['l']+1) for d in r.get('diags',[])],src=c['src'])
class Gen:
    """kinds and a rank for every EQU are chosen first; most references go to lower ranks, a few anywhere (cycles)"""
    def __init__(s,r,cyc=.05,und=.04,loc=.25,ndef=8):
        s.r=r; s.cyc=cyc; s.und=und; s.nd=r.randrange(2,6); s.ne=r.randrange(2,ndef)
        s.secs=['SA'] if r.random()<.6 else ['SA','SB']
        s.sk=[]; cur='SA'; s.lab={'SA':[], 'SB':[]}; s.lloc={}
        cl='SA'; s.sk.append(sect('SA')); nl=0
        for i in range(s.nd+r.randrange(0,3)):
            if r.random()<.2 and len(s.secs)>1:
                cur='SB' if cur=='SA' else 'SA'; s.sk.append(sect(cur,'CSECT' if cur=='SA' else r.choice(['DSECT','CSECT']))); s.sk[-1]['kind']='CSECT' if cur=='SA' else s.__dict__.setdefault('kb',s.sk[-1]['kind']); cl=s.__dict__.setdefault('last',{}).get(cur,cur)
            elif r.random()<loc*.4: nl+=1; cl='C%d'%nl; s.sk.append(loctr(cl)); s.__dict__.setdefault('last',{})[cur]=cl
            l='D%d'%i; s.lab[cur].append(l); s.lloc[l]=cl; s.sk.append(dict(op='DS',lab=l,sec=cur))
        s.eq=[]
        for i in range(s.ne):
            k=r.random(); kind='small' if k<.45 else 'abs' if k<.65 else 'addr' if k<.9 else 'cplx'
            s.eq.append(dict(n='E%d'%i,kind=kind,sec=r.choice([x for x in s.secs if s.lab[x]] or ['SA']),rank=i,late=False,ln=r.choice([-1,-1,-1,1,4,7])))
        r.shuffle(s.eq)
        for i,e in enumerate(s.eq): e['rank']=i
    def refs(s,kind,rank,sec=None,late=False):
        r=s.r; f=lambda lim:[e for e in s.eq if e['kind']==kind and (e['rank']<lim) and (sec is None or e['sec']==sec) and (late or not e['late'])]
        o=f(10**6 if r.random()<s.cyc else rank)
        return r.choice(o) if o else None
    def labs(s,late):
        """two labels of one section (of one location counter unless late), in layout order"""
        r=s.r; c=[x for x in s.secs if len(s.lab[x])>1]
        if not c: return None
        l=s.lab[r.choice(c)]; a,b=sorted(r.sample(range(len(l)),2)); a,b=l[a],l[b]
        if s.lloc[a]!=s.lloc[b] and not late: return None
        return a,b
    def anysym(s): return s.r.choice([t['lab'] for t in s.sk if t['op']=='DS']+[e['n'] for e in s.eq])
    def small(s,rank,d,late=False):
        r=s.r; k=r.random()
        if r.random()<s.und: return s_('U1') if r.random()<.7 else L_('U1')
        if d>0 and k<.35:
            o=r.choice(['+','+','+','*','/'])
            a=s.small(rank,d-1,late)
            return bi(o,a,n(r.choice([1,2,3]))) if r.random()<.5 or o!='+' else bi(o,a,s.small(rank,d-1,late))
        if k<.6:
            e=s.refs('small',rank,late=late)
            if e: return s_(e['n'])
        if k<.75:
            p=s.labs(late)
            if p: return bi('-',s_(p[1]),s_(p[0]))
        if k<.87:
            return L_(r.choice([t['lab'] for t in s.sk if t['op']=='DS']+[e['n'] for e in s.eq if e['ln']>=0]))
        return n(r.choice([1,1,2,3,4,5,8]))
    def abs_(s,rank,d,late=False):
        r=s.r; k=r.random()
        if d>0 and k<.4:
            o=r.choice(['+','-','-','*','/']); a,b=s.abs_(rank,d-1,late),s.abs_(rank,d-1,late)
            return bi(o,a,b) if o in '+-' else bi(o,a,n(r.choice([2,3,-0,5])))
        if d>0 and k<.5: return neg(s.abs_(rank,d-1,late))
        if k<.65:
            e=s.refs('abs',rank,late=late)
            if e: return s_(e['n'])
        if k<.72:
            a,b=s.refs('addr',rank),None
            if a: return bi('-',s_(a['n']),s.addr(a['sec'],rank,0)) if r.random()<.7 else bi('-',s.addr(a['sec'],rank,0),s_(a['n']))
        if k<.78:
            p=s.labs(late)
            if p: return bi('-',s_(p[0]),s_(p[1]))
        return s.small(rank,d-1 if d>0 else 0,late)
    def addr(s,sec,rank,d):
        r=s.r; k=r.random()
        if d>0 and k<.3: return bi('+',s.addr(sec,rank,d-1),s.abs_(rank,d-1,True))
        if d>0 and k<.4: return bi('-',s.addr(sec,rank,d-1),s.abs_(rank,d-1,True))
        if d>0 and k<.5: return bi('+',s.abs_(rank,d-1,True),s.addr(sec,rank,d-1))
        if d>0 and k<.57: return bi('+',bi('-',s.addr(sec,rank,0),s.addr(sec,rank,0)),s.addr(sec,rank,0))
        if k<.7:
            e=s.refs('addr',rank,sec)
            if e: return s_(e['n'])
        return s_(r.choice(s.lab[sec]+[sec]) if s.lab[sec] else sec)
    def cplx(s,rank):
        r=s.r; x=r.choice(s.secs); y=r.choice(s.secs); a=s.addr(x,rank,0); b=s.addr(y,rank,0); k=r.random()
        if k<.3: return neg(a)
        if k<.6: return bi('+',a,b)
        if k<.8: return bi('-',n(r.choice([0,3,9])),a)
        return bi('-',bi('+',a,b),s.addr(r.choice(s.secs),rank,0))
    def program(s):
        r=s.r; prog=[]
        for t in s.sk:
            if t['op']!='DS': prog.append(t); continue
            k=r.random()
            e=n(r.choice([0,1,1,2,3,4,8]))if k<.35 else s.small(10**6,1)
            form=r.choice(['dup','dup','len'])
            if form=='len' and e==n(0): e=n(1)
            prog.append(ds(t['lab'] if r.random()<1 else '',e,form))
        for e in s.eq:
            k=e['kind']; rank=e['rank']
            # a value that may span location counters does not size storage
            v=s.small(rank,2) if k=='small' else s.abs_(rank,2,True) if k=='abs' else s.addr(e['sec'],rank,2) if k=='addr' else s.cplx(rank)
            at=r.randrange(1,len(prog)+1)
            here=[t['lab'] for t in prog[:at] if t['op']=='SECT'][-1]
            if k=='addr' and here==e['sec'] and r.random()<.4: v=LOC if r.random()<.5 else bi('+',LOC,n(r.choice([1,4])))
            prog.insert(at,equ(e['n'],v,e['ln'],r.choice([0,0,0,*TYS])))
        return prog
def rand(s,k,**a): return [render(Gen(s.rng,**a).program()) for _ in range(k)]
def dev(s,k): return rand(s,k,cyc=float(os.environ.get('CYC','.05')),und=float(os.environ.get('UND','.04')),loc=float(os.environ.get('LOC','.25')),ndef=int(os.environ.get('ND','8')))
A,B,C,P,Q,R=[s_(x) for x in 'ABCPQR']
def forms(me):
    o=[x for x in 'ABC' if x!=me]
    return [n(2),s_(o[0]),s_(o[1]),bi('+',s_(o[0]),n(1)),bi('+',s_(o[0]),s_(o[1])),bi('*',s_(o[1]),n(2)),L_('P'),L_('Q'),bi('-',Q,P),bi('-',R,P),bi('-',R,Q),s_('U'),s_(me),bi('+',L_('Q'),s_(o[1])),bi('-',bi('+',R,n(1)),Q)]
def small(place):
    """every choice of definitions of three EQU symbols around storage whose sizes are A and B"""
    for a,b,c in itertools.product(forms('A'),forms('B'),forms('C')):
        ea,eb,ec=equ('A',a),equ('B',b),equ('C',c)
        yield [[sect('S'),ds('P',A),ds('Q',B,'len'),ds('R',n(1)),ea,eb,ec],[sect('S'),ea,ds('P',A),eb,ds('Q',B,'len'),ec,ds('R',n(1))],[sect('S'),ec,eb,ea,ds('P',A),ds('Q',B,'len'),ds('R',n(1))],[sect('S'),ds('P',n(3)),ec,ds('Q',A,'len'),ea,ds('R',C),eb]][place]
def body(s):
    build(['vp_lib']); q=s.quick
    s.model('MC_SymDeps','MC_SymDeps.cfg')
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000)
    for pl in range(4):
        cs=list(small(pl))
        if q: s.rng.shuffle(cs); cs=cs[:500]
        go([render(p) for p in cs],'three mutually defined symbols%s, placement %d'%(' (sample)' if q else '',pl))
    for l,k in (('no cycles',dict(cyc=0,und=0)),('cycles',dict(cyc=.12,und=0)),('cycles and undefined symbols',dict(cyc=.08,und=.06)),('undefined symbols',dict(cyc=0,und=.05)),('one counter',dict(cyc=.03,und=.02,loc=0,ndef=12))):
        go(rand(s,800 if q else 20000,**k),'random definitions, '+l)
    s.findings('vp_lib','asm')
if __name__=='__main__': Check('C11').main(body)
