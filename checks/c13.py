#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
from mlgen import *
import itertools
MOD='Trace_MacroLang'
W=dict(log=6,set=3,ago=3,aif=5,anop=2,copy=2.5,call=2,ord=5,macro=.6,actr=.1,mexit=.2)
class P13(P):
    def __init__(s,rng):
        super().__init__(rng,W,errs=.02); s.syms=['X1','FLD','LB','Y2','QQ']; s.libmac=.15; s.maxn=6
def rand(s,n,size): return [render(P13(s.rng).program(s.rng.randrange(5,size)),s.rng) for _ in range(n)]
def dev(s,n): return equ() if n==1 else defs() if n==2 else rand(s,n,20)
def T(*p): return string([s_(x) if isinstance(x,str) else x for x in p])
def sa(a,n): return dict(t='sattr',a=a,s=n)
def small(n,lib):
    """every sequence of n statements mixing searches, targets and definitions, with a member and a macro around"""
    tx=lambda i:[sete('C',var('TT'),sa('T','X')),log(T('%dt'%i,var('TT')))]
    alpha=[lambda i:tx(i),lambda i:[aif((lst(sa('T','X'),op('EQ'),lit('F')),'A')),log('%dn'%i)],lambda i:[ordst('X','F',4,'DS F')],lambda i:[ordst('X','C',5,'DS CL5')],lambda i:[ago('A')],lambda i:[anop('A')],
           lambda i:[copy('C1')],lambda i:[copy('C1','A')],lambda i:macro('M2',[ordst('X','H',2,"DC H'1'"),anop('A'),log('m2')]),lambda i:[call('M1')],lambda i:[call('NOPE',lab='X')],
           lambda i:[aif((lst(sa('L','Y'),op('EQ'),num(8)),'B')),log('%dy'%i)],lambda i:[anop('B')],lambda i:[ordst('Y','D',8,'DS D')]]
    libs={'C1':[[log('c')],[ordst('X','X',2,"DC X'1234'"),log('cx')],[anop('A'),log('ca')],[ago('B'),ordst('X','I',2,'LR 1,1'),anop('B'),log('cb')],[copy('C2')]][lib],'C2':[sete('C',var('TT'),sa('T','X')),log(T('d',var('TT'))),anop('A')]}
    m1=macro('M1',[sete('C',var('TT'),sa('T','X')),log(T('m',var('TT'))),aif((lst(sa('L','Y'),op('EQ'),num(8)),'E')),log('ne'),anop('E')])
    out=[]
    for w in itertools.product(alpha,repeat=n):
        b=[]
        for i,x in enumerate(w): b+=x(i)+[log('%d'%i)]
        out.append(render(dict(open=m1+[actr(5)]+b+tx(9),libs=libs)))
    return out
def defs():
    """definitions nested to depth three in the text passed over, with labels and members at every level of them; they count for nothing"""
    out=[]
    X=lambda k:ordst('X',*[('H',2,"DC H'1'"),('C',7,'DS CL7'),('D',8,'DS D')][k])
    its=[lambda k:[X(k),anop('A'),log('i%d'%k)],lambda k:[copy('C1')],lambda k:[],lambda k:[copy('NONE')]]
    starts=[[sete('C',var('TT'),sa('T','X')),log(T('t',var('TT')))],[ago('A'),log('no')],[call('M1')],[copy('C0')],[aif((lst(sa('L','X'),op('EQ'),num(4)),'A')),log('no')]]
    m1=macro('M1',[sete('C',var('TT'),sa('T','X')),log(T('m',var('TT'),'/',var('I'))),sete('A',var('I'),sa('L','X')),log(T('l',var('I')))])
    libs={'C0':[sete('C',var('TT'),sa('T','X')),log(T('c',var('TT'))),ago('A'),log('no')],'C1':[log('c1'),ordst('X','E',4,'DS E')]}
    for st in starts:
        for shape in range(4):
            for a,b,c,d in itertools.product(range(4),repeat=4):
                pre,post,inn,inn2=its[a](0),its[b](1),its[c](2),its[d](0)
                if shape==0: body=pre+macro('N1',inn)+post
                elif shape==1: body=pre+macro('N1',macro('N2',inn)+inn2)+post
                elif shape==2: body=macro('N1',inn)+pre+macro('N2',inn2)+post
                else: body=macro('N1',inn+macro('N2',inn2+macro('N3',post)+pre)+inn)
                use=[call('O1')]+([call('N1')] if shape!=1 or c!=1 else [])
                out.append(render(dict(open=m1+[actr(8)]+st+macro('O1',body)+[ordst('X','F',4,'DS F'),anop('A'),log('end'),sete('C',var('TT'),sa('T','X')),log(T('z',var('TT')))]+use,libs=libs)))
    return out
def equ():
    """attributes of a symbol found ahead, for every way EQU gives them"""
    out=[]
    base=[ordst('B5','C',5,'DS CL5'),ordst('BD','D',8,'DS D'),ordst('BA','U',3,'EQU 7,3'),ordst('BI','I',4,'L 1,2(3)')]
    defs_=[('U',1,'EQU 5'),('U',5,'EQU B5'),('U',8,'EQU BD'),('U',5,'EQU B5+4'),('U',8,'EQU BD-B5'),('U',3,'EQU BA'),('U',4,'EQU BI'),('U',1,'EQU 4+B5'),('U',1,'EQU *'),('U',9,'EQU B5,9'),('U',0,'EQU 1,0'),('U',1,"EQU C'A'"),
           ('F',5,"EQU B5,,C'F'"),('F',9,"EQU B5,9,C'F'"),('I',5,"EQU B5,L'B5,T'BI"),('C',8,"EQU 3,L'BD,T'B5"),('U',65535,'EQU 1,65535'),('Z',1,"EQU 2,,X'E9'"),('U',5,"EQU (B5)"),('U',8,"EQU BD+B5-B5"),('U',8,'EQU 1,8'),('U',1,'EQU -1')]
    asks=[[log(T('L',var('I'))),log(T('T',var('TT')))]]
    m1=macro('M1',[sete('A',var('I'),sa('L','X')),sete('C',var('TT'),sa('T','X')),log(T('L',var('I'))),log(T('T',var('TT')))])
    ask=[sete('A',var('I'),sa('L','X')),sete('C',var('TT'),sa('T','X')),log(T('L',var('I'))),log(T('T',var('TT')))]
    for d in defs_:
        for pos in range(4):
            x=[ordst('X',*d)]; mid=[log('m')] if pos!=2 else [copy('C1')]
            body={0:ask+mid+x+ask,1:[call('M1')]+mid+x+[call('M1')],2:ask+mid+ask,3:x+ask}[pos]
            out.append(render(dict(open=m1+base+body,libs={'C1':x})))
    return out
def body(s):
    build(['vp_lib']); q=s.quick
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000)
    cs=defs(); s.rng.shuffle(cs); go(cs[:900] if q else cs,'definitions passed over'); go(equ(),'attributes from EQU')
    go([c for lib in range(5) for c in small(2,lib)],'all two-statement search programs')
    if q:
        cs=[c for lib in range(5) for c in small(3,lib)]; s.rng.shuffle(cs); go(cs[:2000],'three-statement search programs (sample)')
    else:
        for lib in range(5): go(small(3,lib),'all three-statement search programs, member %d'%lib)
    s.conform('vp_lib','asm',rand(s,1000 if q else 30000,20),MOD,MOD+'.cfg',combine=combine,label='random programs',chunk=4000)
if __name__=='__main__': Check('C13').main(body)
