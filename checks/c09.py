#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
from hgen import *
import itertools
VARS=[dict(n='IA',ty='A',sc=True),dict(n='IB',ty='A',sc=True),dict(n='LONGNAMEDVARIABLE',ty='A',sc=True),dict(n='FB',ty='B',sc=True),dict(n='SC',ty='C',sc=True),dict(n='SN',ty='C',sc=True),
      dict(n='AA',ty='A',sc=False),dict(n='AC',ty='C',sc=False),dict(n='AB',ty='B',sc=False)]
def mkvars(rng):
    g=G(rng,{'A':[],'B':[],'C':[]}); out=[]
    for v in VARS:
        k=1 if v['sc'] else 3
        val=lambda:{'A':lambda:g.int()*rng.choice([1,-1]),'B':lambda:rng.randrange(2),'C':lambda:g.rawtext().replace('&','')}[v['ty']]()
        vals=[val() for _ in range(k)]
        if v['n']=='SN': vals=[rng.choice(['','0','1','12','255',"X'1F'","B'101'","C'A'",'-5','+7','ABC',"X'G'"])]
        out.append(dict(v,v=vals))
    return out
def render(case,rng):
    R_=R(rng); L=[' GBLA &RA(1)',' GBLB &RB(1)',' GBLC &RC(1)']
    for v in case['vars']:
        L.append(f" LCL{v['ty']} &{v['n']}{'' if v['sc'] else '(1)'}")
        for i,x in enumerate(v['v']):
            t=str(x) if v['ty']!='C' else "'"+x.replace("'","''")+"'"
            L+=cont(f"&{v['n']}{'' if v['sc'] else '('+str(i+1)+')'} SET{v['ty']} {t}")
    lines=[]
    for i,s in enumerate(case['st']):
        a=len(L); L+=cont(f"&R{s['k']}({i+1}) SET{s['k']} {R_.e(s['e'])}"); lines.append((a,len(L)))
    case['src']='\n'.join(L)+'\n'; case['lines']=lines; case['globs']=['RA','RB','RC']; case['dl']=1
    return case
def combine(c,r):
    g={k:dict((i,v) for i,v in r['glob'][k]) for k in('RA','RB','RC')}
    obs=[]
    for i,s in enumerate(c['st']):
        a,b=c['lines'][i]
        obs.append(dict(v=g['R'+s['k']].get(i+1,{'A':0,'B':0,'C':''}[s['k']]),c=sorted({d['c'] for d in r['diags'] if a<=d['l']<b})))
    other=[d for d in r['diags'] if not any(a<=d['l']<b for a,b in c['lines'])]
    if other: obs[0]['c']=obs[0]['c']+['ELSEWHERE:'+str(other)]
    return dict(vars=c['vars'],st=c['st'],obs=obs,src=c['src'])
def getters(case_st):
    def prev(k):
        def f(g,d):
            c=[i+1 for i,s in enumerate(case_st) if s['k']==k]
            return var('R'+k,[num(g.r.choice(c))]) if c else var('IA' if k=='A' else 'FB' if k=='B' else 'SC')
        return f
    A=[lambda g,d:var(g.r.choice(['IA','IB','LONGNAMEDVARIABLE'])),lambda g,d:var('AA',[num(g.r.choice([1,2,3,4]))]),lambda g,d:var('AA',[ar(num(1),'+',num(g.r.randrange(2)))]),
       lambda g,d:var('FB'),prev('A'),lambda g,d:var('',(),[s_('I'),s_('A')]),
       lambda g,d:var('SN') if g.r.random()<.5 else var('IB'),lambda g,d:var('NOSUCH') if g.r.random()<.1 else var('IA'),
       lambda g,d:var('AA',[num(0)]) if g.r.random()<.1 else var('IA'),lambda g,d:var('AA') if g.r.random()<.1 else var('IA'),lambda g,d:var('IA',[num(1)]) if g.r.random()<.1 else var('IA')]
    B=[lambda g,d:var('FB'),lambda g,d:var('AB',[num(g.r.choice([1,2,3,4]))]),lambda g,d:var('IA'),prev('B')]
    T=[lambda g,d:var(g.r.choice(['IA','FB','SC','SN'])),lambda g,d:var(g.r.choice(['AA','AB','AC']),[num(g.r.choice([1,2,3,4]))]),prev('C'),lambda g,d:var('SC')]
    return {'A':A,'B':B,'C':[],'T':T}
def gen(rng,n,depth):
    c=dict(vars=mkvars(rng),st=[])
    g=G(rng,getters(c['st']))
    for i in range(n):
        k=rng.choice('AAABBBCCC'); d=rng.randrange(0,depth+1)
        e={'A':g.A,'B':g.B,'C':g.C}[k](d)
        if k=='B' and e['t']!='list': e=lst(e)
        if k=='C' and rng.random()<.08: e=attr('T',rng.choice(g.v['T'])(g,1))
        if len(R().e(e))>900: continue
        c['st'].append(dict(k=k,e=e))
    return render(c,rng)
def exhaustive(rng,quick):
    """operator tables: every operator on every pair of boundary values, all small flat boolean and arithmetic forms"""
    BV=[0,1,2,-1,-2,31,32,33,255,-256,65535,-65536,2147483647,-2147483647,1073741824]
    mk=lambda v:num(v) if v>=0 else lst(dict(t='neg',x=num(-v)))
    MIN=lst(ar(dict(t='neg',x=num(2147483647)),'-',num(1)))
    vals=[mk(v) for v in BV]+[MIN]
    st=[]
    for a in vals:
        for b in vals:
            for o in '+-*/': st.append(('A',ar(a,o,b)))
            for o in ['AND','OR','XOR','SLA','SLL','SRA','SRL']: st.append(('A',lst(a,op(o),b)))
            for o in ['EQ','NE','LE','LT','GE','GT']: st.append(('B',lst(a,op(o),b)))
        for n in [0,1,5,15,16,30,31,32,33,40,62,63,64,65]:
            for o in ['SLA','SLL','SRA','SRL']: st.append(('A',lst(a,op(o),num(n))))
        st.append(('A',lst(op('NOT'),a)))
        for f in FCA: st.append(('C',fn(f,a)))
    # every boolean chain of 3 operators over 0/1
    for ops in itertools.product(['AND','OR','XOR'],repeat=3):
        for bits in itertools.product([0,1],repeat=4):
            x=[num(bits[0])]
            for o,b in zip(ops,bits[1:]): x+=[op(o),num(b)]
            st.append(('B',lst(*x)))
            if len(set(ops))>1: st.append(('B',lst(*([op('NOT')]+x))))
    for o1,o2 in itertools.product(['AND','OR','XOR'],repeat=2):
        for bits in itertools.product([0,1],repeat=3):
            # comparisons bind tighter than every boolean operator
            st.append(('B',lst(num(bits[0]),op(o1),num(bits[1]),op('EQ'),num(1),op(o2),num(bits[2]))))
            st.append(('B',lst(num(bits[0]),op('EQ'),num(1),op(o1),num(bits[1]),op(o2),num(bits[2]),op('EQ'),num(1))))
            if o1=='AND': st.append(('B',lst(num(bits[0]),op(o1),op('NOT'),num(bits[1]),op(o2),num(bits[2]))))
    for ops in itertools.product('+-*/',repeat=3):
        for vs in [(7,3,5,2),(100,7,3,11),(9,0,4,2)]:
            st.append(('A',ar(num(vs[0]),ops[0],num(vs[1]),ops[1],num(vs[2]),ops[2],num(vs[3]))))
    for ops in itertools.product(['AND','OR','XOR','SLL','SRA'],repeat=2):
        for n in range(4):
            x=[num(45)]; 
            if n&1: x=[op('NOT')]+x
            x+=[op(ops[0]),num(3),op(ops[1])]+([op('NOT')] if n&2 and ops[1] in('AND','OR','XOR') else [])+[num(6)]
            st.append(('A',lst(*x)))
    # character functions and relations over a fixed vocabulary
    V=['','0','1','10','00000001','1'*32,'1'*33,'2147483647','2147483648','-1','+5','-2147483648','--1','A','AB','ABCD','ABCDE','FF','ffffffff','123456789','1G',"'","''","A''B",'a','z','Z','9','A1','1A','$A','A_','A B',"'A'",' ','0000000001','00000000001','+2147483647','-0','4294967295','999999999','-','+','F'*8,'0'*8,'0'*9,'#','@1','_','A#','&&','A&&','&&&&','0123456789ABCDEF']
    # lengths around the limits of the functions
    for f in FA+FCC:
        for c,ns in (('A',(4,5,62,63,64,65,255,256)),('1',(7,8,9,10,11,31,32,33,64,255)),('F',(7,8,9,16))):
            for n in ns: st.append(('A' if f in FA else 'C',fn(f,string([s_(c)],[num(n)]))))
    for s in V:
        for f in FA+FCC: st.append(('A' if f in FA else 'C',fn(f,lit(s))))
        for t in V:
            if quick and rng.random()<.6: continue
            st.append(('B',lst(lit(s),op(rng.choice(['EQ','NE','LE','LT','GE','GT'])),lit(t))))
            st.append(('A',fn(rng.choice(['FIND','INDEX']),lit(s),lit(t))))
            st.append(('A',lst(lit(s),op(rng.choice(['FIND','INDEX'])),lit(t))))
    for a in range(0,6):
        for b in range(0,6): st.append(('C',string([s_('ABCD')],(),[num(a),num(b)])))
        st.append(('C',string([s_('ABCD')],(),[num(a)]))); st.append(('C',string([s_('ABCD')],[num(a)]))); st.append(('C',string([s_('ABCD')],[num(a)],[num(2),num(2)])))
    st+=[('C',string([s_('ABCD')],[num(1016)])),('C',string([s_('ABCD')],[num(1017)])),('C',string([s_('ABCD')],[dict(t='neg',x=num(1))]))]
    out=[]; vs=mkvars(rng)
    for o in range(0,len(st),60):
        out.append(render(dict(vars=vs,st=[dict(k=k,e=e) for k,e in st[o:o+60]]),rng))
    return out
def body(s):
    build(['vp_lib']); q=s.quick
    ex=exhaustive(s.rng,q); s.cov['table_statements']=sum(len(c['st']) for c in ex)
    s.conform('vp_lib','asm',ex,'Trace_CaExpr','Trace_CaExpr.cfg',combine=combine,label='operator and function tables')
    cs=[gen(s.rng,s.rng.randrange(5,20),3) for _ in range(1500 if q else 30000)]
    s.cov['random_statements']=sum(len(c['st']) for c in cs)
    s.conform('vp_lib','asm',cs,'Trace_CaExpr','Trace_CaExpr.cfg',combine=combine,label='random statements',chunk=6000)
    s.assumptions=['characters outside the printable EBCDIC set, the negation of -2147483648 and OR/XOR NOT followed by a tighter operator are left open']
if __name__=='__main__': Check('C09').main(body)
