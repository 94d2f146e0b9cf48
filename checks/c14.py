#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
from mlgen import *
import copy as cp
MOD='Trace_Debugger'; SRV=1; DRV=('vp_srv','dbg')
W=dict(log=2,set=4,ago=1.2,aif=2,call=5,dcl=.8,macro=.5,copy=1.5,mexit=.4,anop=.6,ord=.6)
VPD=[dcl(True,'A',('VPN',True)),dcl(True,'C',('VPL',False))]
def place(prog,rng=None):
    """renders the program; gives every statement its file, its physical statements (first and last line, from 0)"""
    r=Rend(rng); texts={}
    def one(f,L):
        out=[]; T=[]
        body=[]
        if f=='PROG': body+=cp.deepcopy(VPD)
        for x in L:
            body.append(x)
            if x['op']=='proto': body+=cp.deepcopy(VPD)
        for x in body:
            l=r.lines([x])
            if x['op']=='proto': l=l[:-2]
            b=len(T); ph=[]
            if x['op'] in('log','set') and x['seq']: ph.append([b,b]); b+=1
            if x['op']=='log': ph.append([b,b]); b+=1
            T+=l; ph.append([b,len(T)-1])
            out.append(dict(x,f=f,ph=ph,nest=[]))
        texts[f]='\n'.join(T)+'\n'
        return out
    p=dict(open=one('PROG',prog['open']),libs={k:one('lib/'+k,v) for k,v in prog['libs'].items()})
    return p,texts
def case(rng,prog,cmds,entry=1,bps=(),**kw):
    p,t=place(prog,rng)
    nl={f:x.count('\n') for f,x in t.items()}
    if callable(bps): bps=bps(nl)
    if callable(cmds): cmds=cmds(nl)
    return dict(pre=kw.pop('pre',[]),files=list(t),prog=p,src=t['PROG'],libs={f[4:]:x for f,x in t.items() if f!='PROG'},entry=entry,bps=bps,cmds=cmds,**kw)
def rbp(rng,nl):
    f=rng.choice([f for f in nl if nl[f]] or ['PROG'])
    return dict(a='bp',f=f,l=sorted({rng.randrange(nl[f]+1) for _ in range(rng.choice([0,1,1,2,3]))}))
def rand(s,n,race=.3):
    out=[]; r=s.rng
    for _ in range(n):
        p=P(r,W,errs=.02); p.maxn=6; p.libmac=.3
        style=r.choice(['in','next','mix','bp','bp'])
        wt=dict(a=1)
        def cmds(nl):
            o=[]
            for _ in range(r.randrange(3,14)):
                a=r.choices(['in','next','cont','bp','disc'],dict(zip(['in','next','mix','bp'],[[9,1,.2,.3,.1],[2,9,.3,.5,.1],[4,4,1,.7,.2],[1,2,5,2,.1]]))[style])[0]
                o.append(rbp(r,nl) if a=='bp' else dict(a=a))
                if a=='disc': break
            if r.random()<race and (not o or o[-1]['a']!='disc'):
                q=[]
                for _ in range(r.randrange(1,9)):
                    a=r.choice(['in','next','cont','bp','in','next','launch'] if r.random()<.5 else ['cont','cont','next'])
                    q.append(dict(rbp(r,nl) if a=='bp' else dict(a=a),us=r.choice([0,0,0,20,100,400])))
                o.append(dict(a='race',q=q,end=r.choice(['disc','exit'])))
            return o
        pre=[dict(a=r.choice(['in','next','cont','look'])) for _ in range(r.choice([0,0,0,1,2]))]
        c=None
        c=case(r,p.program(r.randrange(3,12)),cmds,entry=int(r.random()<.8 or style!='bp'),bps=lambda nl:[rbp(r,nl) for _ in range(r.choice([0,1,2,3] if style!='bp' else [2,3,4]))],base=r.randrange(2),pre=pre,delay=r.choice([0,0,300]))
        if '()' in c['src']+''.join(c['libs'].values()): continue   # what a sublist without elements looks like is left open
        out.append(c)
    return out
def combine(c,r):
    return dict(prog=c['prog'],entry=c['entry'],bps=c['bps'],cmds=c['cmds'],obs=r.get('obs',[]),xs=r.get('xs',0),xe=r.get('xe',0))
def dev(s,n): return rand(s,n)
def small(n):
    """every command sequence of length n over a program with nested calls, a loop, COPY members in and outside macros"""
    import itertools
    pr=dict(open=macro('MM',[sete('A',var('I'),num(0)),sete('A',var('I'),dict(t='ar',x=[var('I'),'+',num(1)]),seq='L'),call('NN',var('I')),aif((lst(var('I'),op('LT'),num(2)),'L')),copy('C1')],[pp('P1')],'LAB')
          +macro('NN',[anop(),mexit(),anop()],[pp('Q')])+[call('MM',sub(txt('A'),txt('B')),lab='X1'),copy('C2'),ordst('SS','F',4,'DS F')],
          libs=dict(C1=[sete('C',var('S'),lit('x'))],C2=[anop(),call('NN',txt('7'))]))
    out=[]
    for bp in ([],[dict(f='lib/C1',l=[0])],[dict(f='PROG',l=[7,15])],[dict(f='lib/C2',l=[1]),dict(f='PROG',l=[17])]):
        for w in itertools.product(['in','next','cont'],repeat=n):
            # get to the interesting part first
            out.append(case(None,pr,[dict(a='in')]*5+[dict(a=a) for a in w],bps=bp))
    return out
def body(s):
    build(['vp_srv']); q=s.quick
    s.model('MC_Debugger','MC_Debugger.cfg' if q else 'MC_Debugger_deep.cfg',timeout=1500)
    s.conform('vp_srv','dbg',small(4 if q else 6),MOD,MOD+'.cfg',combine=combine,label='all command sequences',timeout=60,chunk=1500)
    s.conform('vp_srv','dbg',rand(s,650 if q else 15000),MOD,MOD+'.cfg',combine=combine,label='random programs and sessions',timeout=60,chunk=1500)
if __name__=='__main__': Check('C14').main(body)
