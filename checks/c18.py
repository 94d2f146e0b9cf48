#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
MOD='Trace_MachInstr'
def table():
    """the instruction set as the specification (spec/MachTable.tla) gives it: name -> kinds of the operands to write, how many may be left out"""
    s=open(os.path.join(SPEC,'MachTable.tla')).read(); t={}; e={}
    for f,ks,opt,ns in re.findall(r'<<"(\w+)", <<([^>]*)>>, (\d+), \{([^}]*)\}>>',s):
        for n in re.findall(r'"(\w+)"',ns): t[n]=(re.findall(r'"(\w+)"',ks),int(opt))
    for n,b,r in re.findall(r'^ (\w+) \|-> <<"(\w+)", <<((?:<<\d+, \d+>>(?:, )?)*)>>>>',s,re.M):
        ks,opt=t[b]; fx={int(p) for p in re.findall(r'<<(\d+), \d+>>',r)}
        e[n]=([k for i,k in enumerate(ks,1) if i not in fx],len([i for i in range(len(ks)-opt+1,len(ks)+1) if i not in fx]))
    if len(t)<1000 or len(e)<500: raise CheckError('instruction table not read')
    return {**t,**e}
R={'reg':(0,15),'mask':(0,15),'vec':(0,15),'imm4u':(0,15),'imm8s':(-128,127),'imm8u':(0,255),'imm12s':(-2048,2047),'imm16s':(-32768,32767),'imm16u':(0,65535),'imm32s':(-2**31,2**31-1),'imm32u':(0,2**31-1),
   'rel12':(-2048,2047),'rel16':(-32768,32767),'rel24':(-8388608,8388607),'rel32':(-2**31,2**31-1),
   'db12':(0,4095),'db20':(-524288,524287),'dxb12':(0,4095),'dxb20':(-524288,524287),'drb12':(0,4095),'dvb12':(0,4095),'dlb8':(0,4095),'dlb4':(0,4095)}
MX={'dxb12':15,'dxb20':15,'drb12':15,'dvb12':15,'dlb8':256,'dlb4':16}
T=table(); NONE={n for n in T if not T[n][0]}
def O(k,d=0,x=0,b=0): return dict(k=k,d=d,x=x,b=b)
def good(k,r=None):
    """operands the kind accepts, at its limits"""
    lo,hi=R[k]; c=[O('v',lo),O('v',hi)]
    if lo<0: c+=[O('v',0),O('v',-1)]
    if k[:3]=='rel': c+=[O('r')]
    if k[0]=='d':
        c=[O('v',lo),O('v',hi),O('r'),O('db',lo,0,0),O('db',hi,0,15)]
        if k in MX: m=MX[k]; c=c[:3]+[O('db',hi,0,m),O('db',lo,0,0),O('dxb',lo,m,15),O('dxb',hi,0,0),O('dxb',hi,m,0),O('d.b',hi,0,15),O('d.b',lo,0,0)]
    return c
def bad(k):
    lo,hi=R[k]; c=[O('e')]
    if k[0]=='d':
        c+=[O('v',hi+1),O('v',lo-1),O('dx.',0,1),O('db',hi+1,0,1),O('db',lo-1,0,1),O('d.b',0,0,16),O('dxb',0,1,16),O('dxb',1,0,-1)]
        if k in MX:
            m=MX[k]
            if k!='dvb12': c+=[O('dxb',0,m+1,1),O('db',0,0,m+1)]
            c+=[O('dxb',0,-1,1),O('dxb',0,m+17,1),O('db',0,0,m+17),O('db',0,0,-1)]
        else: c+=[O('dxb',0,1,1),O('db',0,0,16),O('db',0,0,-1),O('d.b',0,0,1)]
    else:
        if hi<2**31-1: c+=[O('v',hi+(17 if k=='vec' else 1))]
        if lo>-2**31: c+=[O('v',lo-1)]
        c+=[O('db',lo if lo>-2**31 else 0,0,1),O('dxb',1,1,1)]
        if k[:3]!='rel': c+=[O('r')]
    return c
def lists(n,t,r,full):
    """operand lists of one mnemonic: each operand at each of its limits and beyond, the others acceptable; every number of operands"""
    ks,opt=t[n]; mid=lambda k:r.choice(good(k))
    if not ks: return [[]]
    o=[[mid(k) for k in ks]]
    for i,k in enumerate(ks):
        for c in good(k)+bad(k): o.append([c if j==i else mid(q) for j,q in enumerate(ks)])
    for m in range(len(ks)):
        o.append([mid(k) for k in ks[:m]])
        if len(ks)-m<=opt and m>0: o.append([mid(k) for k in ks[:m-1]]+[r.choice(bad(ks[m-1]))])
    o.append([mid(k) for k in ks]+[O('v',0)])
    if full: o+=[[r.choice(good(k)+bad(k)) for k in ks] for _ in range(12)]
    # a single empty operand cannot be written
    return [x for x in o if not(len(x)==1 and x[0]['k']=='e')]
class Prog:
    def __init__(s,r,late=.15,early=.15): s.r=r; s.late=late; s.early=early; s.pre=[]; s.tail=[]; s.st=[]; s.src=[]
    def num(s,v):
        x=s.r.random()
        if x<s.late+s.early and abs(v)<2**31-1:
            n='N%d'%(len(s.pre)+len(s.tail)); (s.tail if x<s.late else s.pre).append(f'{n} EQU {v}'); return n
        if v==-2**31: return '-2147483647-1'
        return str(v)
    def rel(s): return s.r.choice(['LAST','LAST+2','FIRST','FIRST+4','*','*-2','*+6','L0','LAST-8'])
    def op(s,o):
        k=o['k']; d=lambda:s.num(o['d'])
        if k=='e': return ''
        if k=='v': return d()
        if k=='r': return s.rel()
        if k=='db': return f"{d()}({s.num(o['b'])})"
        if k=='dxb': return f"{d()}({s.num(o['x'])},{s.num(o['b'])})"
        if k=='d.b': return f"{d()}(,{s.num(o['b'])})"
        return f"{d()}({s.num(o['x'])},)"
    def add(s,n,ops):
        if s.r.random()<.15: k=s.r.choice([1,1,3,2]); s.put(dict(k='d',n='',ops=[],len=k),f'DS CL{k}')
        t=','.join(s.op(o) for o in ops)
        rem=s.r.choice(['','','',' A REMARK',' X,(1)']) if t or n in NONE else ''
        s.put(dict(k='m',n=n,ops=ops,len=0),f'{n} {t}{rem}'.rstrip())
    def put(s,d,t): s.st.append(dict(d,lab='L%d'%len(s.st))); s.src.append(t)
    def done(s):
        for i,d in enumerate(s.st): d['line']=i+len(s.pre)+1
        src=['FIRST CSECT']+s.pre+[f'L{i} {t}' for i,t in enumerate(s.src)]+['LAST DS 0C']+s.tail
        return dict(src='\n'.join(src)+'\n',dl=1,syms=[d['lab'] for d in s.st],stmts=s.st)
def programs(items,r,size=40,**a):
    o=[]
    for i in range(0,len(items),size):
        p=Prog(r,**a)
        for n,ops in items[i:i+size]: p.add(n,ops)
        o.append(p.done())
    return o
def combine(c,r):
    by={}
    for d in r.get('diags',[]): by.setdefault(d['l'],[]).append(d['c'])
    st=[dict(x,diags=by.pop(x['line'],[])) for x in c['stmts']]
    return dict(stmts=st,sym=r.get('sym',{}),other=[[str(k)]+v for k,v in by.items()],src=c['src'])
def every(s,full,**a):
    t=T; it=[(n,x) for n in sorted(t) for x in lists(n,t,s.rng,full)]
    return it
def dev(s,k):
    it=every(s,False); s.rng.shuffle(it); return programs(it[:k*20],s.rng,20)
def body(s):
    build(['vp_lib']); q=s.quick
    s.model('MC_MachInstr','MC_MachInstr.cfg')
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000)
    it=every(s,not q); s.rng.shuffle(it)
    go(programs(it,s.rng,30),'every mnemonic, each operand at and beyond its limits, every number of operands')
    if not q:
        for l,a in (('symbols defined later',dict(late=.7)),('symbols defined before',dict(early=.8,late=0)),('numbers',dict(early=0,late=0))):
            s.rng.shuffle(it); go(programs(it,s.rng,30,**a),'every mnemonic, '+l)
    s.findings('vp_lib','asm')
if __name__=='__main__': Check('C18').main(body)
