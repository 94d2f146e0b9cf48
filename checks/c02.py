#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_RequestQueue'; DRV=('vp_srv','reqq'); SRV=1
def combine(c,r): return dict(steps=c['steps'],**{k:r.get(k) for k in('obs','final','overlap','stuck')})
class Sim:
    """keeps the script meaningful: which releases and finishes are possible (mirrors RequestQueue.Settle)"""
    def __init__(s): s.q=[]; s.run=0; s.fin=0; s.frun=0; s.n=0; s.steps=[]; s.closed=set()
    def settle(s):
        while True:
            if s.fin and not s.frun and s.run!=s.fin:
                m=[i for i,x in enumerate(s.q) if x==s.fin]
                if m: s.frun=s.q.pop(m[0])
                else: s.closed.add(s.fin); s.fin=0
            elif not s.fin and not s.run and s.q: s.run=s.q.pop(0)
            else: return
    def ok(s,a):
        if a[0]=='add': return not s.fin and a[1] not in s.closed
        if a[0]=='fin': return not s.fin and a[1] not in s.closed
        if a[0]=='rel': return s.run!=0
        if a[0]=='relf': return s.frun!=0
    def do(s,a):
        if a[0]=='add':
            s.n+=1; s.q.append(a[1]); s.steps.append(dict(a='add',id=s.n,s=a[1],f=a[2],k=a[3]))
        elif a[0]=='fin': s.fin=a[1]; s.steps.append(dict(a='fin',s=a[1]))
        elif a[0]=='rel': s.run=0; s.steps.append(dict(a='rel'))
        else: s.frun=0; s.steps.append(dict(a='relf'))
        s.settle()
    def copy(s):
        t=Sim(); t.q=list(s.q); t.run=s.run; t.fin=s.fin; t.frun=s.frun; t.n=s.n; t.steps=list(s.steps); t.closed=set(s.closed); return t
def words(alpha,n,pre=()):
    """every script of n meaningful actions"""
    lv=[Sim()]
    for a in pre: lv[0].do(a)
    for _ in range(n): 
        nx=[]
        for x in lv:
            for a in alpha:
                if x.ok(a): y=x.copy(); y.do(a); nx.append(y)
        lv=nx
    return [dict(steps=x.steps) for x in lv]
E1=('add',1,'a','edit'); E2=('add',1,'b','edit'); H1=('add',1,'a','query'); H2=('add',1,'b','query'); O1=('add',1,'a','open'); W=('add',1,'','other'); X=('add',2,'a','edit'); C1=('add',1,'a','close'); N=('add',1,'','none')
R=('rel',);F=('relf',);FA=('fin',1);FB=('fin',2)
def rand(s,n,size,fins=True):
    out=[]
    al=[E1]*4+[E2]*2+[H1]*2+[H2,O1,W,C1,N]+[R]*7+([X,FA,FB]+[F]*4 if fins else [])
    for _ in range(n):
        x=Sim()
        while len(x.steps)<size:
            a=s.rng.choice(al)
            if x.ok(a) and not(a[0]=='fin' and s.rng.random()<.6): x.do(a)
            elif not any(x.ok(b) for b in al): break
        out.append(dict(steps=x.steps))
    return out
def dev(s,n): return words([E1,E2,H1,R,W],4)[:n//2]+rand(s,n//2,12)
def stress(s,n):
    return [dict(p=s.rng.choice([1,2,3,4]),n=s.rng.choice([5,20,60]),fin=s.rng.random()<.5) for _ in range(n)]
def body(s):
    build(['vp_srv']); q=s.quick
    s.model('MC_RequestQueue','MC_RequestQueue_quick.cfg' if q else 'MC_RequestQueue.cfg',timeout=1500)
    s.model('MC_RequestQueue','MC_RequestQueue_live.cfg')
    go=lambda cs,l,**k: s.conform('vp_srv','reqq',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000,shards=32,timeout=60,**k)
    for n in range(1,6 if q else 7): go(words([E1,E2,H1,R],n),'all scripts of %d steps, one server'%n)
    go(words([O1,C1,W,N,E1,R],4 if q else 5),'all scripts over the other message kinds')
    go(words([E1,X,R,F,FA,FB],4 if q else 5),'all scripts with two servers and finishing')
    go(rand(s,1500 if q else 30000,14,False),'random scripts, one server')
    go(rand(s,300 if q else 4000,12),'random scripts with finishing')
    s.conform('vp_srv','reqstress',stress(s,300 if q else 4000),'Trace_Producers','Trace_Producers.cfg',combine=lambda c,r:dict(p=c['p'],n=c['n'],**{k:r.get(k) for k in('log','overlap')}),label='free running producers',chunk=500)
if __name__=='__main__': Check('C02').main(body)
