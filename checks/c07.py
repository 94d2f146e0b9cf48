#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
from mlgen import *
import itertools
MOD='Trace_MacroLang'
W=dict(log=8,set=3,ago=3,aif=4,anop=1,mexit=.7,copy=1.5,call=3,actr=.4,macro=.6)
def rand(s,n,size): return [render(P(s.rng,W).program(s.rng.randrange(3,size)),s.rng) for _ in range(n)]
def dev(s,n): return rand(s,n,14)
I=var('I')
def lt(n): return lst(I,op('LT'),num(n))
INC=sete('A',I,ar(I,'+',num(1)))
def small(n,lib):
    """every sequence of n control statements, in open code and as the body of a macro"""
    alpha=[[ago('A')],[ago('B')],[aif((lt(2),'A'))],[aif((lt(3),'B'),(lt(4),'A'))],[anop('A')],[anop('B')],[INC],[copy('C1')],[call('M1')],[ago('A','B',e=[I])],[copy('C1','A')],[mexit()]]
    libs={'C1':[[log('c')],[anop('A'),log('ca')],[log('c1'),ago('B'),log('c2')],[INC,aif((lt(3),'A')),log('c3')],[copy('C2'),log('c4')]][lib],'C2':[log('d'),aif((lt(2),'B')),anop('B'),log('e')]}
    m1=macro('M1',[log(string([s_('m'),var('SYSNDX')])),aif((lst(var('SYSNDX'),op('GT'),num(3)),'Q')),log('n'),mexit(),log('x'),anop('Q'),log('q')])
    out=[]
    for w in itertools.product(alpha,repeat=n):
        b=[log('0')]
        for i,x in enumerate(w): b+=x+[log(string([s_('%d:'%(i+1)),I]))]
        pre=[actr(7),sete('A',I,num(0))]
        if not any(x[0]['op']=='mexit' for x in w): out.append(render(dict(open=m1+pre+b+[log('end')],libs=libs)))
        out.append(render(dict(open=m1+macro('MM',pre+b+[log('me')])+[call('MM'),log('end')],libs=libs)))
    return out
def limits():
    """default branch limit, macro nesting limit, unconditional recursion, runaway loops at several depths"""
    loop=lambda:[anop('L'),ago('L')]
    out=[dict(open=[log('a')]+loop()+[log('b')],libs={}),
         dict(open=macro('M1',[log('a')]+loop()+[log('b')])+[call('M1'),log('c'),call('M1'),log('d')],libs={}),
         dict(open=macro('M1',[call('M1')])+[call('M1'),log('end')],libs={}),
         dict(open=macro('M1',[log(string([var('P1')])),sete('A',I,ar(var('P1'),'+',num(1))),call('M1',txt(I)),log('back')],[pp('P1')])+[call('M1',txt('1')),log('end')],libs={}),
         dict(open=macro('M1',[aif((lst(var('P1'),op('GT'),num(97)),'X')),sete('A',I,ar(var('P1'),'+',num(1))),call('M1',txt(I)),anop('X'),log(string([var('P1')]))],[pp('P1')])+[call('M1',txt('1')),log('end')],libs={})]
    for k in(0,1,2,99,100,101): out.append(dict(open=[sete('A',I,num(0)),anop('L'),actr(3),INC,aif((lt(k),'L')),log(string([I]))],libs={}))
    for k in(0,1,5): out.append(dict(open=macro('M1',[actr(k),sete('A',I,num(0)),anop('L'),INC,log(string([I])),aif((lt(4),'L')),log('done')])+[call('M1'),log('o'),actr(k)]+loop()+[log('p')],libs={}))
    return [render(p) for p in out]
def body(s):
    build(['vp_lib']); q=s.quick
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000)
    go(limits(),'branch and nesting limits')
    go([c for lib in range(5) for c in small(2,lib)],'all two-statement control flows')
    if not q:
        for lib in range(5): go(small(3,lib),'all three-statement control flows, member %d'%lib)
    else:
        cs=[c for lib in range(5) for c in small(3,lib)]; s.rng.shuffle(cs); go(cs[:1500],'three-statement control flows (sample)')
    go(rand(s,1200 if q else 40000,14),'random programs')
if __name__=='__main__': Check('C07').main(body)
