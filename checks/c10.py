#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_LocCtr'
def num(v): return [dict(sg=1,k='num',v=v)]
def sym(n,sg=1): return dict(sg=sg,k='sym',n=n)
LOC=dict(sg=1,k='loc')
def plus(v): return [] if v==0 else [dict(sg=1 if v>0 else -1,k='num',v=abs(v))]
def ds(l,al,unit,e,ty,dc=False): return dict(op='ds',l=l,al=al,unit=unit,e=e,ty=ty,dc=dc)
def ins(l,ln): return dict(op='ins',l=l,len=ln)
def org(e=(),b=0,o=0,l=''): return dict(op='org',l=l,e=[list(e)] if e else [],b=b,o=o)
def equ(l,e): return dict(op='equ',l=l,e=e)
def sect(n,kind='CSECT'): return dict(op='sect',n=n,kind=kind)
def loctr(n): return dict(op='loctr',n=n)
TY={'F':(4,4,"F'1'"),'H':(2,2,"H'1'"),'D':(8,8,"D'1'"),'X':(1,1,"X'1'"),'A':(4,4,'A(0)'),'AD':(8,8,'AD(0)'),'C':(1,1,"C'A'")}
INS={2:'LR 1,1',4:'LA 1,1',6:"MVC 0(1,1),0(1)"}
def ex(e):
    o=''
    for i,t in enumerate(e): o+=('' if i==0 and t['sg']==1 else '+' if t['sg']==1 else '-')+(str(t['v']) if t['k']=='num' else '*' if t['k']=='loc' else t['n'])
    return o
def stm(s):
    op=s['op']
    if op=='sect': return f"{s['n']} {s['kind']}"
    if op=='loctr': return f"{s['n']} LOCTR"
    if op=='equ': return f"{s['l']} EQU {ex(s['e'])}"
    if op=='ins': return f"{s['l']} {INS[s['len']]}"
    if op=='org':
        a=ex(s['e'][0]) if s['e'] else ''
        if s['b'] or s['o']: a+=','+(str(s['b']) if s['b'] else '')
        if s['o']: a+=','+str(s['o'])
        return f"{s['l']} ORG {a}".rstrip()
    ty=s['ty']; e=s['e']; n=e[0]['v'] if len(e)==1 and e[0]['k']=='num' else None
    if ty=='L': return f"{s['l']} DS XL({ex(e)})"
    d='' if n==1 else str(n) if n is not None else f'({ex(e)})'
    return f"{s['l']} {'DC' if s['dc'] else 'DS'} {d}{TY[ty][2] if s['dc'] else ty}"
def render(prog):
    labs=[]
    for s in prog:
        n=s.get('l') or (s['n'] if s['op'] in('sect','loctr') else '')
        if n and n not in labs: labs.append(n)
    return dict(src='\n'.join(stm(s) for s in prog)+'\n',syms=labs,prog=[{k:v for k,v in s.items() if k not in('ty','dc')} for s in prog])
def dsn(l,ty,e,dc=False):
    if ty=='L': return ds(l,1,1,e,'L')
    return ds(l,TY[ty][0],TY[ty][1],e,ty,dc)
class Gen:
    """random layouts; labels used in expressions lie earlier in the same location counter"""
    def __init__(s,rng,late=.5,loctrs=True,bound=.15,bad=.03):
        s.r=rng; s.late=late; s.n=0; s.prog=[]; s.tail=[]; s.labs={}; s.cur=('',''); s.last={}; s.loctrs=loctrs; s.bound=bound; s.bad=bad; s.secs=[]; s.kinds={}; s.names=[]
    def lab(s,p=.7):
        if s.r.random()>p: return ''
        s.n+=1; return 'L%d'%s.n
    def const(s,v):
        """an expression of value v, possibly over symbols defined later"""
        r=s.r
        if r.random()>=s.late: return num(v)
        s.n+=1; n='N%d'%s.n
        k=r.random()
        (s.tail if r.random()<.75 else s.prog).append(equ(n,num(v) if k<.7 else num(v-1)+num(1)))
        return [sym(n)]
    def add(s,st):
        s.prog.append(st)
        if st.get('l') and st['op']!='equ': s.labs.setdefault(s.cur,[]).append(st['l'])
    def here(s): return s.labs.get(s.cur,[])
    def step(s):
        r=s.r; k=r.random()
        if k<.5:
            ty=r.choice(['F','H','D','X','X','X','C','A','AD','L'])
            n=r.choice([0,1,1,2,3,5]) if ty!='L' else r.choice([1,2,3,7])
            hs=s.here()
            if hs and len(hs)>1 and r.random()<.12:
                i=r.randrange(len(hs)-1); a,b=hs[i],hs[i+1]
                e=[sym(b),sym(a,-1)]
                if r.random()<.4: s.n+=1; e2=e; e=[sym('D%d'%s.n)]; s.tail.append(equ('D%d'%s.n,e2))
                if ty=='L': ty='X'
            else: e=s.const(n)
            s.add(dsn(s.lab(),ty,e,r.random()<.3 and ty!='L'))
        elif k<.6: s.add(ins(s.lab(),r.choice([2,4,6])))
        elif k<.82:
            b=0;o=0
            if r.random()<s.bound: b=r.choice([2,4,8,16]); o=r.choice([0,0,1,2,-1])
            hs=s.here(); q=r.random()
            if q<.35: e=[]
            elif q<.65 and hs: e=[sym(r.choice(hs))]+(plus(r.choice([0,0,1,2,5,8])) if r.random()<.5 else [])
            else:
                v=r.choice([1,2,3,4,9]) if r.random()<.8 else -r.choice([1,2])
                e=[LOC]+plus(v)
                if r.random()<s.late*.5 and v>0: e=[LOC]+s.const(v)
                elif r.random()<s.late*.2 and hs: e=[sym(r.choice(hs))]+s.const(abs(v))
            s.add(org(e,b,o,s.lab(.2)))
        elif k<.9: 
            s.n+=1; hs=s.here(); e=[LOC]+plus(r.choice([0,0,2,5]))
            if hs and r.random()<.4: e=[sym(r.choice(hs))]+plus(r.choice([0,1,4]))
            elif len(hs)>1 and r.random()<.5: e=[sym(r.choice(hs)),sym(r.choice(hs),-1)]
            s.prog.append(equ('E%d'%s.n,e))
        elif k<.95 or not s.loctrs:
            n=r.choice(['SA','SB','SC'])
            if r.random()<.35:
                k=r.choice(['CSECT','COM','DSECT']); key='' if k=='CSECT' else '#'+k
                s.prog.append(sect('',k)); s.last.setdefault(key,key); s.cur=(key,s.last[key]); return
            s.kinds.setdefault(n,r.choice(['CSECT','DSECT','RSECT','COM','CSECT']))
            s.prog.append(sect(n,s.kinds[n])); s.last.setdefault(n,n); s.cur=(n,s.last[n])
            if n not in s.names: s.names.append(n)
        else:
            n=r.choice(['CA','CB','CC']+s.names)
            own=[c for c in s.last if s.owns(c,n)]
            sec=own[0] if own else s.cur[0]
            if not own: s.own=dict(getattr(s,'own',{}),**{n:sec})
            s.prog.append(loctr(n)); s.last[sec]=n; s.cur=(sec,n)
    def owns(s,sec,n): return n==sec or getattr(s,'own',{}).get(n)==sec
    def program(s,n):
        s.last.setdefault('','')
        if s.r.random()<.7: s.prog.append(sect('SA','CSECT')); s.kinds['SA']='CSECT'; s.last['SA']='SA'; s.cur=('SA','SA'); s.names.append('SA')
        for _ in range(n): s.step()
        if s.r.random()<.5: s.tail.reverse()
        return s.prog+s.tail
def combine(c,r): return dict(prog=c['prog'],sym=r.get('sym',{}),codes=r.get('codes',[]),src=c['src'])
def rand(s,n,size,**k): return [render(Gen(s.rng,late=s.rng.choice([0,.3,.6]),**k).program(s.rng.randrange(2,size))) for _ in range(n)]
def dev(s,n): return rand(s,n,int(os.environ.get('SZ','10')),loctrs=os.environ.get('LOC')!='0',bound=float(os.environ.get('BD','.15')))
def small(n,late,pre):
    """every sequence of n statements over a small alphabet; sizes known at once or defined at the end"""
    def N(v,i): return [sym('N%d'%v)] if late else num(v)
    alpha=[lambda i:dsn('L%d'%i,'X',N(3,i)),lambda i:dsn('L%d'%i,'F',N(1,i)),lambda i:dsn('L%d'%i,'H',N(0,i)),lambda i:ins('L%d'%i,2),
           lambda i:org(l='L%d'%i),lambda i:org([sym('L0')],l='L%d'%i),lambda i:org([sym('L0')]+plus(5),l='L%d'%i),lambda i:org([LOC]+(N(3,i) if late else plus(3)),l='L%d'%i),
           lambda i:org([LOC]+plus(-1),l='L%d'%i),lambda i:loctr('CA'),lambda i:loctr('CB'),lambda i:sect('SB'),lambda i:sect('SA'),lambda i:sect('','CSECT'),lambda i:sect('','COM'),lambda i:equ('L%d'%i,[LOC]+plus(2))]
    base=[sect('SA'),dsn('L0','X',num(2) if pre==0 else [sym('N2')])]
    for w in itertools.product(alpha,repeat=n):
        p=base+[x(i+1) for i,x in enumerate(w)]+[dsn('LZ','X',num(1))]
        # L0 belongs to the first counter: ORG L0 elsewhere is an error outside the modelled set
        cur='SA';own={'SA':'SA','SB':'SB'};last={'SA':'SA','SB':'SB'};sec='SA';ok=True
        for st in p[2:]:
            if st['op']=='sect': sec=st['n'] or '#'+st['kind']; cur=last.setdefault(sec,sec)
            elif st['op']=='loctr':
                if st['n'] in own: sec=own[st['n']]
                else: own[st['n']]=sec
                cur=st['n']; last[sec]=cur
            elif st['op']=='org' and st['e'] and any(t['k']=='sym' and t['n']=='L0' for t in st['e'][0]) and cur!='SA': ok=False
        if ok: yield render(p+[equ('N%d'%v,num(v)) for v in (0,1,2,3)])
def body(s):
    build(['vp_lib']); q=s.quick
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000)
    for late in (0,1):
        for pre in (0,1): go(list(small(2,late,pre)),'all two-statement layouts, late=%d/%d'%(late,pre))
    for late in (0,1):
        for pre in (0,1):
            cs=list(small(3,late,pre))
            if q: s.rng.shuffle(cs); cs=cs[:1000]
            go(cs,'three-statement layouts%s, late=%d/%d'%(' (sample)' if q else '',late,pre))
    for label,k in (('one counter',dict(loctrs=False,bound=0)),('several counters',dict(bound=0)),('boundaries',dict(loctrs=False,bound=.3))):
        go(rand(s,1500 if q else 30000,12 if q else 16,**k),'random layouts, '+label)
    s.findings('vp_lib','asm')
if __name__=='__main__': Check('C10').main(body)
