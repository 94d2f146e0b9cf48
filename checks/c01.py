#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
ALPHA=[97,98,32,10,13,233,0x4e2d,0x1F600]
def starts(t):
    r=[0]
    for i,c in enumerate(t):
        if c==10 or (c==13 and not(i+1<len(t) and t[i+1]==10)): r.append(i+1)
    return r
def linelen(t,ls,l):
    o=ls[l]; u=0
    while o<len(t) and t[o] not in(10,13): u+=2 if t[o]>65535 else 1; o+=1
    return u
def offset(t,l,c):
    ls=starts(t)
    if l>=len(ls): return len(t)
    o=ls[l]
    while c>0 and o<len(t) and t[o] not in(10,13):
        c-=2 if t[o]>65535 else 1; o+=1
    return o
def valid_cols(t,ls,l):
    o=ls[l]; u=0; r=[0]
    while o<len(t) and t[o] not in(10,13): u+=2 if t[o]>65535 else 1; o+=1; r.append(u)
    return r
def rtext(rng,n,alpha):
    t=[]
    while len(t)<n:
        if rng.random()<0.12: t+=rng.choice([[13,10],[10],[13],[10,13],[13,13,10]])
        else: t.append(rng.choice(alpha))
    return t[:n]
def redit(rng,t,alpha,maxins):
    if rng.random()<0.06: return dict(w=True,sl=0,sc=0,el=0,ec=0,t=rtext(rng,rng.randrange(0,12),alpha))
    ls=starts(t)
    def pos():
        r=rng.random()
        if r<0.03: return (len(ls)+rng.randrange(0,3),rng.randrange(0,4))
        l=rng.randrange(len(ls)); vc=valid_cols(t,ls,l)
        if r<0.10: return (l,vc[-1]+rng.randrange(1,9))
        return (l,rng.choice([rng.choice(vc),vc[0],vc[-1]]))
    a,b=pos(),pos()
    if rng.random()<0.4: b=a
    if b<a: a,b=b,a
    return dict(w=False,sl=a[0],sc=a[1],el=b[0],ec=b[1],t=rtext(rng,rng.choice([0,0,1,1,2,3,rng.randrange(0,maxins+1)]),alpha))
def apply(t,e):
    if e['w']: return list(e['t'])
    b=offset(t,e['sl'],e['sc']); f=offset(t,e['el'],e['ec'])
    return t[:b]+e['t']+t[f:]
def gen(rng,nsteps,alpha,maxlen):
    docs=['A','B']; st={}; steps=[]; v=1
    for _ in range(nsteps):
        d='A' if rng.random()<0.8 else 'B'; v+=1
        if d not in st:
            if rng.random()<0.04:
                steps.append(dict(a='close',d=d)); continue
            t=rtext(rng,rng.randrange(0,maxlen),alpha); st[d]=t; steps.append(dict(a='open',d=d,v=v,t=t))
        else:
            x=rng.random()
            if x<0.04: steps.append(dict(a='close',d=d)); del st[d]
            elif x<0.10: steps.append(dict(a=rng.choice(['proc','hold']),d=d))
            elif x<0.13: st[d]=rtext(rng,rng.randrange(0,maxlen),alpha); steps.append(dict(a='open',d=d,v=v,t=st[d]))
            else:
                es=[]
                for _ in range(rng.choice([1,1,1,2,3])):
                    e=redit(rng,st[d],alpha,6); st[d]=apply(st[d],e); es.append(e)
                steps.append(dict(a='change',d=d,v=v,e=es))
    return dict(docs=docs,steps=steps)
def small_scope(limit,rng):
    """every document of <=3 characters over {a,CR,LF,wide}, every range, every insertion of <=1 character, then a probing edit"""
    al=[97,10,13,0x1F600]; out=[]
    for n in range(0,4):
        for t in itertools.product(al,repeat=n):
            t=list(t); ls=starts(t); ps=[(l,c) for l in range(len(ls)) for c in valid_cols(t,ls,l)]
            for a in ps:
                for b in ps:
                    if b<a: continue
                    for x in [[],[97],[10],[13],[0x1F600]]:
                        e=dict(w=False,sl=a[0],sc=a[1],el=b[0],ec=b[1],t=x); t2=apply(t,e)
                        ls2=starts(t2); steps=[dict(a='open',d='A',v=1,t=t),dict(a='change',d='A',v=2,e=[e])]
                        # probe: insert a marker at the start of every line of the result (line index must be right)
                        for l in range(len(ls2)-1,-1,-1):
                            steps.append(dict(a='change',d='A',v=3,e=[dict(w=False,sl=l,sc=0,el=l,ec=0,t=[120])]))
                        out.append(dict(docs=['A'],steps=steps))
    if limit and len(out)>limit: out=rng.sample(out,limit)
    return out
def body(s):
    build(['vp_srv'])
    s.model('MC_TextSync','MC_TextSync.cfg')
    q=s.quick
    s.conform('vp_srv','textsync',small_scope(6000 if q else None,s.rng),'Trace_TextSync','Trace_TextSync.cfg',label='small scope')
    s.conform('vp_srv','textsync',[gen(s.rng,s.rng.randrange(4,25),ALPHA,30) for _ in range(3000 if q else 40000)],'Trace_TextSync','Trace_TextSync.cfg',label='random histories',chunk=10000)
    s.conform('vp_srv','textsync',[gen(s.rng,s.rng.randrange(10,60),[97,98,10,13,0x1F600],120) for _ in range(300 if q else 4000)],'Trace_TextSync','Trace_TextSync.cfg',label='long histories',chunk=2000)
    s.assumptions=['cpp-netlib/uri replaced by a stand-in header','positions never split a surrogate pair']
Check('C01').main(body)
