#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
from mlgen import *
import copy as cp, itertools
NORM={'E056':'E055','W014':'W013'}
MOD='Trace_DiagLoc'
W=dict(log=3,set=5,ago=1.5,aif=2,call=4,dcl=1,macro=.6,copy=2,mexit=.3,anop=.5,ord=1.2)
VPD=[dcl(True,'A',('VPN',True)),dcl(True,'C',('VPL',False))]
def place(prog,rng=None):
    """renders the program; gives every statement its file and its physical statements (first and last line, from 0)"""
    r=Rend(rng); texts={}
    def one(f,L):
        out=[]; T=[]; body=[]
        if f=='OPEN': body+=cp.deepcopy(VPD)
        for x in L:
            body.append(x)
            if x['op']=='proto': body+=cp.deepcopy(VPD)
        for x in body:
            l=r.lines([x])
            if x['op']=='proto': l=l[:-2]
            b=len(T); ph=[]
            if x['op'] in('log','set') and x['seq']: ph.append([b,b]); b+=1
            if x['op']=='log': ph.append([b,b]); b+=1
            T+=l; ph.append([b,len(T)-1])
            out.append(dict(x,f=f,ph=ph,nest=[]))
        texts[f]='\n'.join(T)+'\n'
        return out
    p=dict(open=one('OPEN',prog['open']),libs={k:one(k,v) for k,v in prog['libs'].items()})
    return p,texts
def case(rng,prog):
    p,t=place(prog,rng)
    return dict(prog=p,src=t['OPEN'],libs={k:x for k,x in t.items() if k!='OPEN'},dl=2)
def rand(s,n,size,errs=.12):
    out=[]
    for _ in range(n):
        p=P(s.rng,W,errs=errs); p.maxn=6; p.libmac=.3; p.syms=['X1','FLD','LB']
        g=p.program(s.rng.randrange(3,size))
        for L in [g['open']]+list(g['libs'].values()):
            a,b=(2,len(L)-1) if L and L[0]['op']=='macro' and L is not g['open'] else (0,len(L))
            ok=[i for i in range(a,b+1) if i>=len(L) or L[i]['op']!='proto']
            if ok and s.rng.random()<.5: L.insert(s.rng.choice(ok),bad(s.rng.choice(BAD)))
        g['open']+=cp.deepcopy(LATE)
        out.append(case(s.rng,g))
    return out
def at(x): return dict(f=x['f'].split('/')[-1],l=x['l'])
def combine(c,r): return dict(prog=c['prog'],diags=[dict(at(d),c=NORM.get(d['c'],d['c']),r=[at(x) for x in d['r']]) for d in r.get('diags',[])],cut=len(r.get('diags',[]))>=400)
def sa(a,n): return dict(t='sattr',a=a,s=n)
BAD=['LR 1,99','LR 1,LATEV','LR 1,LATEW','DC H','DS CL(LATEV-200)','L 1,0(LATEV,1)','DC (LATEV)X']
def bad(b): return dict(ordst('','I',4,b),bad=1)
LATE=[ordst('LATEV','U',1,'EQU LATEX'),ordst('LATEX','U',1,'EQU 99')]
ERR=[lambda:[sete('A',var('I'),var('NOSUCH'))],lambda:[ago('ZZ')],lambda:[ordst('X','H',2,"DC H'1'")],lambda:[call('NOOP')],lambda:[sete('C',var('TT'),sa('T','LATER'))],lambda:[copy('NONE')],lambda:[call('M1')]]+[lambda b=b:[bad(b)] for b in BAD]
def places():
    """statements in error at the end of every chain of up to three macros, library macros and members, and behind the statement that leads there"""
    out=[]
    for n in range(4):
        for ch in itertools.product('olc',repeat=n):
            for x,y,k in itertools.product(range(len(ERR)),range(len(ERR)),range(n+1)):
                if k==n and y: continue
                if 'o' not in ch[:1] and (x==6 or y==6): continue
                opn=[]; libs={'NONE0':[]}; cur=[anop()]*(n+1)+ERR[x]()
                if k==n: cur=cur+[log('z')]
                for i in range(n-1,-1,-1):
                    nm='M%d'%(i+1)
                    if ch[i]=='o': opn=opn+macro(nm,cur); lead=call(nm)
                    elif ch[i]=='l': libs[nm]=macro(nm,cur); lead=call(nm)
                    else: nm='C%d'%(i+1); libs[nm]=cur; lead=copy(nm)
                    cur=[anop()]*(i+1)+[lead]+(ERR[y]() if k==i else [])
                out.append(case(None,dict(open=opn+[actr(20)]+cur+[anop('A'),log('t'),ordst('X','C',7,'DS CL7'),anop('A'),ordst('LATER','F',4,'DS F')]+LATE,libs=libs)))
    return out
def dev(s,n):
    c=places(); s.rng.shuffle(c); print(len(c)); return c[:n]+rand(s,n//2,14)
def body(s):
    build(['vp_lib']); q=s.quick
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=2000)
    cs=places(); s.rng.shuffle(cs); go(cs[:1800] if q else cs,'errors along chains of calls and members')
    go(rand(s,1000 if q else 20000,14),'random programs')
if __name__=='__main__': Check('C19').main(body)
