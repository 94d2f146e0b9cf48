#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
from mlgen import *
import itertools
MOD='Trace_MacroLang'
W=dict(log=9,set=7,dcl=4,call=5,macro=.5,copy=.4,aif=.6,mexit=.3)
def rand(s,n,size): return [render(P(s.rng,W,errs=.06).program(s.rng.randrange(3,size)),s.rng) for _ in range(n)]
def dev(s,n): return texts() if os.environ.get('TEXTS') else rand(s,n,14)
def logs(*es): return [log(e) for e in es]
def T(*p): return string([s_(x) if isinstance(x,str) else x for x in p])
def shapes(n,quick):
    """every call with n operands of every shape; everything the macro can observe of its parameters is logged"""
    A=[OM,txt('A'),sub(txt('A'),txt('B')),sub(txt('A')),sub(txt('A'),OM,txt('C')),sub(OM,txt('B')),sub(txt('A'),sub(txt('B'),txt('C'))),sub(sub(txt('A'),txt('B')),sub(txt('C')),txt('D')),
       var('LS'),var('PL'),txt(var('PL'),'X'),txt("'A,B'"),key('K1',txt('V')),key('K1',sub(txt('V'),txt('W'))),key('K1',var('LS')),key('K2',OM)]
    if n==3 and quick: A=[A[0],A[1],A[2],A[6],A[8],A[12]]
    P1,P2,K1,SL=var('P1'),var('P2'),var('K1'),'SYSLIST'
    def v(n,*ix): return var(n,[num(i) for i in ix])
    obs=[]
    for n_ in('P1','P2','K1','K2'):
        obs+=[log(T(v(n_),'/',v(n_,1),'/',v(n_,2),'/',v(n_,3))),log(T(v(n_,2,1),'/',v(n_,2,2),'/',v(n_,1,2))),sete('A',var('I'),attr('N',v(n_))),log(T('N',var('I'))),sete('A',var('I'),attr('K',v(n_))),log(T('K',var('I'))),
              sete('A',var('I'),attr('N',v(n_,2))),log(T('N2',var('I')))]
    for i in(0,1,2,3): obs+=[log(T(v(SL,i),'/',v(SL,i,1),'/',v(SL,i,2),'/',v(SL,i,2,1))),sete('A',var('I'),attr('N',v(SL,i))),log(T('N',var('I'))),sete('A',var('I'),attr('K',v(SL,i,1))),log(T('K',var('I')))]
    obs+=[sete('A',var('I'),attr('N',var(SL))),log(T('NS',var('I'))),log(T(var('LAB'),'-',var('SYSNDX')))]
    mac=macro('MM',obs,[pp('P1'),pk('K1','DF'),pp('P2'),pk('K2',comp('D1','D2'))],'LAB')
    out=[]
    for w in itertools.product(A,repeat=n):
        if w and w[-1]['t']=='omit': continue
        if sum(x['t']=='key' and x['n']=='K1' for x in w)>1: continue
        out.append(render(dict(open=mac+[sete('C',var('LS'),lit('(X,(Y,Z))')),sete('C',var('PL'),lit('PQ')),call('MM',*w,lab='LB' if len(out)%2 else ())],libs={})))
    return out
TEXTS=["((A)B,C)","(A(1,2),B)","('X,Y',Z)","(K'A,B)","(L'A,'P,Q')","(A,)","(A","A)","(A)(B)","('A)","(A''B,C)","(N'X,T'Y)","('(',B)","(,A)","(',',B)","(A'B,C'D,E)","((A,B)(C),D)","(A,(B)C)","((A,B))","(((A)),B)","('A''B',C)",
  "(L'A,B,'C,D')","(D'A,O'B)","(I'A,S'B,C)","(A B,C)","(1-L'A,B)","(X'AB',C)","('A,B','C,D')","((K'A,B),C)","(('X,Y'),Z)","(A('X'),B)","(k'A,B)","(S'A,B','C)","((A,B),(C,(D,E)))","((A","(A))","(A)B","A(B,C)","(A,B)C,D","((A,B)","(A,B,C,D)","(,)","(,,B)","(T'A,T'B,T'C)","'(A,B)'","('A','B)"]
def texts():
    """values of variables passed as operands: every text that may or may not be a sublist"""
    def v(n,*ix): return var(n,[num(i) for i in ix])
    obs=[]
    for n_ in('P1','K1'):
        obs+=[log(T(v(n_),'/',v(n_,1),'/',v(n_,2),'/',v(n_,3))),log(T(v(n_,1,1),'/',v(n_,1,2),'/',v(n_,2,1),'/',v(n_,2,2),'/',v(n_,2,2,1))),sete('A',var('I'),attr('N',v(n_))),log(T('N',var('I'))),sete('A',var('I'),attr('N',v(n_,1))),log(T('N1',var('I'))),sete('A',var('I'),attr('K',v(n_,1))),log(T('K1',var('I')))]
    obs+=[sete('A',var('I'),attr('N',v('SYSLIST',1))),log(T('NS',var('I'))),log(T(v('SYSLIST',1,2)))]
    mac=macro('MM',obs,[pp('P1'),pk('K1','DF')],'LAB'); out=[]
    for t in TEXTS:
        for w in([var('LS')],[key('K1',var('LS'))],[sub(var('LS'),txt('B'))],[sub(txt('A'),var('LS'))]):
            out.append(render(dict(open=mac+[sete('C',var('LS'),lit(t)),call('MM',*w)],libs={})))
    for w in([sub(txt("K'A"),txt('B'))],[sub(txt("'X,Y'"),txt("L'Z"),txt('W'))],[sub(txt('(A)B'),txt('C'))],[sub(txt('A'),sub(txt("T'B"),txt("'C,D'")))],[txt("S'A"),txt("'B,C'")],[key('K1',sub(txt("N'A"),txt("'B(C'")))]):
        out.append(render(dict(open=mac+[call('MM',*w)],libs={})))
    return out
def scopes(n):
    """every sequence of n declarations, assignments and calls around one name, in open code and in a macro"""
    X=var('X'); bump=sete('A',X,ar(X,'+',num(1)))
    alpha=[[dcl(True,'A',('X',True))],[dcl(False,'A',('X',True))],[dcl(True,'C',('X',True))],[dcl(False,'B',('X',True))],[sete('A',X,num(5))],[sete('C',X,lit('s'))],[bump],[call('MG')],[call('ML')],[call('MS')],[dcl(True,'A',('X',False))],[sete('A',var('X',[num(2)]),num(8))]]
    lib=macro('MG',[dcl(True,'A',('X',True)),bump,log(T('g',X))])+macro('ML',[dcl(False,'A',('X',True)),bump,log(T('l',X))])+macro('MS',[sete('A',X,num(7)),log(T('s',X)),call('MG')])
    out=[]
    for w in itertools.product(alpha,repeat=n):
        b=[y for x in w for y in x]+[log(T('=',X)),call('MG'),log(T('=',X)),log(T('2',var('X',[num(2)])))]
        out.append(render(dict(open=lib+b,libs={}))); out.append(render(dict(open=lib+macro('MM',b)+[call('MM'),call('MM'),log(T('o',X))],libs={})))
    return out
def body(s):
    build(['vp_lib']); q=s.quick
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000)
    go(shapes(1,q)+shapes(2,q)+shapes(3,q),'every operand shape of calls')
    go(texts(),'variables holding every kind of sublist text')
    go(scopes(2)+([] if q else scopes(3)),'all declaration and call sequences over one name')
    s.conform('vp_lib','asm',rand(s,1000 if q else 30000,14),MOD,MOD+'.cfg',combine=combine,label='random programs',chunk=4000)
if __name__=='__main__': Check('C08').main(body)
