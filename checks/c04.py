#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_DapRouting'; DRV=('vp_srv','dap'); SRV=1
def combine(c,r): return dict(ids=c['ids'],steps=[{k:v for k,v in x.items() if k!='m'} for x in c['steps'] if x['a']!='wait'],**{k:r.get(k) for k in('log','stuck','framed')})
T='hlasm/dap_tunnel'
STRAY=[{'jsonrpc':'2.0','method':T,'params':'1'},{'jsonrpc':'2.0','method':T},{'jsonrpc':'2.0','method':T,'params':None},{'jsonrpc':'2.0','method':T+'/'},{'jsonrpc':'2.0','method':T+'/777','params':{'seq':1,'type':'request','command':'threads'}},
 {'jsonrpc':'2.0','method':T+'X','params':{}},{'jsonrpc':'2.0','method':5,'params':{}},{'jsonrpc':'2.0','params':{}},{'jsonrpc':'2.0','method':'$/other','params':{'method':T+'/1'}},{'jsonrpc':'2.0','method':'x'+T+'/1','params':{'seq':9,'type':'request','command':'threads'}},
 {'id':'a','result':{'method':T+'/1'}},{'jsonrpc':'2.0','method':T+'/01','params':{'seq':1,'type':'request','command':'disconnect'}},{'jsonrpc':'2.0','method':T+'/1/2','params':{'seq':1,'type':'request','command':'disconnect'}}]
CM=['threads','threads','initialize','setBreakpoints','setBreakpoints','configurationDone','setExceptionBreakpoints','nosuch','notype','noseq','badargs']
class B:
    def __init__(s,ids): s.ids=ids; s.st={i:'none' for i in ids}; s.q=0; s.steps=[]; s.last={}; s.lq=None
    def reg(s,i,mv=False):
        s.steps.append(dict(a='reg',s=i,mv=mv))
        if s.st[i]=='none': s.st[i]='live'
    def dap(s,i,cmd,n=0,mv=False):
        s.q+=1; s.steps.append(dict(a='dap',s=i,cmd=cmd,q=s.q,n=n,mv=mv))
        if s.st[i]=='live' and cmd=='disconnect': s.st[i]='over'; s.last[i]=s.q
    def lsp(s,mv=False): s.q+=1; s.lq=s.q; s.steps.append(dict(a='lsp',q=s.q,mv=mv))
    def stray(s,m): s.steps.append(dict(a='stray',m=m))
    def sync(s,i):
        if s.st[i]=='over': s.steps.append(dict(a='wait',s=i,q=s.last[i]))
        elif s.st[i]=='live': s.dap(i,'threads'); s.steps.append(dict(a='wait',s=i,q=s.q))
    def end(s):
        for i in s.ids: s.sync(i)
        s.lsp(); s.steps.append(dict(a='wait',s='lsp',q=s.lq))
        return dict(ids=s.ids,steps=s.steps)
def rand(s,n,size):
    out=[];r=s.rng
    for _ in range(n):
        ids=r.sample(['0','1','12','2','123','21','4294967296','18446744073709551615'],r.randint(1,4)); b=B(ids)
        for _ in range(r.randint(3,size)):
            i=r.choice(ids);k=r.random();mv=r.random()<.5
            if k<.12: b.reg(i,mv)
            elif k<.7: b.dap(i,r.choice(CM),r.randint(0,3),mv)
            elif k<.76: b.dap(i,'disconnect',0,mv)
            elif k<.88: b.lsp(mv)
            elif k<.94: b.stray(r.choice(STRAY))
            else: b.sync(i)
            if b.st[i]=='none' and r.random()<.5: b.reg(i,mv)
        out.append(b.end())
    return out
def words(n,waits):
    """all sequences of n client actions over two sessions"""
    A=[('reg','1'),('reg','12'),('dap','1','threads'),('dap','12','initialize'),('dap','1','disconnect'),('dap','12','disconnect'),('lsp',)]
    out=[]
    for w in itertools.product(A,repeat=n):
        b=B(['1','12'])
        for a in w:
            getattr(b,a[0])(*a[1:])
            if waits and a[0]=='dap': b.sync(a[1])
        out.append(b.end())
    return out
def stress(s,n):
    out=[]
    for _ in range(n):
        ids=[str(x) for x in s.rng.sample(range(100),s.rng.randint(4,8))]; b=B(ids)
        for i in ids: b.reg(i); b.dap(i,'initialize')
        for _ in range(150):
            i=s.rng.choice(ids); b.dap(i,s.rng.choice(CM),s.rng.randint(0,9),True)
            if s.rng.random()<.2: b.lsp()
            if s.rng.random()<.01: b.dap(i,'disconnect')
        out.append(b.end())
    return out
def dev(s,n): return words(2,False)+words(2,True)+rand(s,n,25)+stress(s,10)
def body(s):
    build(['vp_srv']); q=s.quick
    s.model('MC_DapRouting','MC_DapRouting.cfg')
    g=lambda cs,l,**k: s.conform('vp_srv','dap',cs,MOD,MOD+'.cfg',combine=combine,label=l,timeout=60,chunk=3000,shards=16,**k)
    g(words(1,False)+words(2,False)+words(3,False),'all sequences of up to three actions over two sessions')
    g(words(2,True)+words(3,True)if q else words(4,True),'all sequences with every action awaited')
    g(rand(s,1500 if q else 20000,30),'random sessions')
    g(stress(s,40 if q else 500),'many sessions at once')
if __name__=='__main__': Check('C04').main(body)
