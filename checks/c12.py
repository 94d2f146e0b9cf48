#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
from mlgen import *
import itertools
MOD='Trace_MacroLang'
W=dict(log=3,opsyn=6,call=9,macro=3,set=.5,ago=.6,aif=.8,copy=1,mexit=.3,ord=.2)
ONE=[txt('1'),txt('1')]
class P12(P):
    """operation codes: macros, aliases and instructions under the same names; every call has operands valid for an instruction"""
    def __init__(s,rng):
        super().__init__(rng,W,errs=.02); s.labels=['A','B']; s.maxn=6; s.libmac=.3; s.nx=0
    def sym(s):
        if s.syms and s.r.random()<.1: return s.r.choice(s.syms)
        s.nx+=1; n='X%d'%s.nx; s.syms.append(n); return n
    def stmt(s,sc,depth):
        r=s.r; k=r.choices(list(s.w),list(s.w.values()))[0]
        names=s.ops+['NEW','LR','BAL']
        if k=='opsyn':
            n=r.choice(names); o=r.choice(names+['','AR','AR','NOPE'])
            if r.random()<.2 and depth>=0: return [opsyn('GOX',s.ch('AGO','AGO','ANOP','MGO','MEXIT' if sc['mac'] else ''))]
            return [opsyn(n,o)]
        if k=='call':
            if r.random()<.15 and depth>=0: return [call('GOX',txt('.'+r.choice(s.labels)))]
            o=r.choice([x for x in names if x>sc.get('me','') or x in('LR','BAL','NEW')])
            oo=[s_(o)]
            if r.random()<.12: oo=[var('S2')]; pre=[sete('C',var('S2'),lit(o))]
            else: pre=[]
            lab=s.sym() if r.random()<.5 else ()
            if sc['mac'] and lab: lab=()
            out=pre+[call(oo,*ONE,lab=lab)]
            if lab and r.random()<.6: out.append(log(string([s_('t'),var('TT')]))); out.insert(len(out)-1,sete('C',var('TT'),dict(t='sattr',a='T',s=lab)))
            return out
        if k=='macro':
            return s.mdef(r.choice(names),depth-1) if depth>0 else [anop()]
        if k=='log':
            s.nlog+=1; return [log('%d'%s.nlog)]
        if k=='ord': return [ordst(s.sym(),'F',4,'DS F')]
        if k=='set': return [sete('A',var('I'),lst(var('I'),op('AND'),num(3)) if False else num(r.randrange(3)))]
        w=s.w; s.w={k:1}; x=super().stmt(sc,depth); s.w=w; return x
    def mdef(s,name,depth,seq=''):
        sc=s.scope(['P1','LAB'],True); sc['me']=name if name in s.ops else 'M3'; s.nlog+=1
        body=[actr(3),log(string([s_('%d%s:'%(s.nlog,name)),var('LAB'),s_('/'),var('P1')]))]+s.block(sc,s.r.randrange(0,s.maxn),depth)
        return macro(name,body,[pp('P1'),pp('P2')],'LAB',seq)
    def program(s,n):
        p=super().program(n); p['open']=macro('MGO',[log(string([s_('GO'),var('P1')]))],[pp('P1')])+p['open']; return p
    def block(s,sc,n,depth): return super().block(sc,n,-1 if depth==0 and not sc['mac'] else depth)
    def G(s,sc):
        g=super().G(dict(sc,par=[])); return g
def rand(s,n,size):
    return [render(P12(s.rng).program(s.rng.randrange(4,size)),s.rng) for _ in range(n)]
def dev(s,n): return nest() if n==1 else rand(s,n,16)
def small(n):
    """every sequence of n operations over two names"""
    mac=lambda nm,t: macro(nm,[log(t+nm)],[],'')
    alpha=[lambda i:mac('LR','m%d'%i),lambda i:mac('QQ','m%d'%i),lambda i:[opsyn('QQ','LR')],lambda i:[opsyn('LR','QQ')],lambda i:[opsyn('QQ','BAL')],lambda i:[opsyn('LR','BAL')],
           lambda i:[opsyn('QQ','')],lambda i:[opsyn('LR','')],lambda i:[opsyn('QQ','QQ')],lambda i:[opsyn('BAL','QQ')]]
    out=[]
    for w in itertools.product(range(len(alpha)),repeat=n):
        for lib in ({},{'QQ':mac('QQ','lib')}) if n<3 or w[0]%2 else ({},):
            o=[]
            for i,k in enumerate(w):
                o+=alpha[k](i)
                for j,nm in enumerate(['LR','QQ','BAL']):
                    l='Y%d%d'%(i,j); o+=[call(nm,*ONE,lab=l),sete('C',var('S'),dict(t='sattr',a='T',s=l)),sete('A',var('I'),num(0)),aif((lst(string([var('S')]),op('EQ'),lit('M')),'S'+l)),aif((lst(string([var('S')]),op('EQ'),lit('U')),'S'+l)),
                        sete('A',var('I'),dict(t='sattr',a='L',s=l)),log(string([s_(nm+':'),var('S'),var('I')]),seq='S'+l)]
            out.append(render(dict(open=o,libs=lib)))
    return out
def nest():
    """definitions within definitions: a name means the inner definition only after the outer one was called, siblings and depth three included"""
    out=[]; L=lambda t:[log(t)]
    shapes=[lambda a,b,c: macro(a,L('1')+macro(b,L('2'))+L('3')),
            lambda a,b,c: macro(a,L('1')+macro(b,L('2')+macro(c,L('3'))+L('4'))+L('5')),
            lambda a,b,c: macro(a,L('1')+macro(b,L('2'))+L('3')+macro(c,L('4'))+L('5')),
            lambda a,b,c: macro(a,macro(b,macro(c,L('3')))),
            lambda a,b,c: macro(a,L('1')+macro(b,L('2')+macro(c,L('3')+macro('LR',L('4'))+L('5'))+L('6')+macro(c,L('7')))+L('8')),
            lambda a,b,c: macro(a,L('1')+[opsyn(b,c)]+macro(c,L('2'))+[call(b,*ONE)]),
            lambda a,b,c: macro(a,[ago('S')]+macro(b,L('2')+macro(c,L('3')))+[anop('S')]+L('9')+macro(c,L('4')))]
    names=[('O1','O2','O3'),('O1','O1','O2'),('O1','O2','O1'),('O1','LR','O2'),('O1','O2','O2')]
    for sh in shapes:
        for nm in names:
            for calls in itertools.product(sorted(set(nm)|{'LR'}),repeat=3):
                o=sh(*nm)+[actr(9)]
                for x in calls: o+=[call(x,*ONE),log(x)]
                out.append(render(dict(open=o,libs={'O2':macro('O2',[log('lib')])} if len(out)%2 else {})))
                if len(out)%5==0: out.append(render(dict(open=[ago('E')]+sh(*nm)+[anop('E')]+[call(x,*ONE) for x in calls],libs={})))
    return out
def body(s):
    build(['vp_lib']); q=s.quick
    cs=nest(); s.rng.shuffle(cs); s.conform('vp_lib','asm',cs[:700] if q else cs,MOD,MOD+'.cfg',combine=combine,label='nested definitions',chunk=4000)
    s.conform('vp_lib','asm',small(2)+([] if q else small(3)),MOD,MOD+'.cfg',combine=combine,label='all sequences of definitions over three names',chunk=4000)
    s.conform('vp_lib','asm',rand(s,1200 if q else 30000,16),MOD,MOD+'.cfg',combine=combine,label='random programs',chunk=4000)
if __name__=='__main__': Check('C12').main(body)
