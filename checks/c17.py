#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_DataDef'
TY="B C CA CE CU G X P Z H F FD A AD Y S SY R RD V VD Q QD QY J JD E EH ED EB D DH DD DB L LH LQ LD LB".split()
LEN={'B':(1,256),'C':(1,256),'X':(1,256),'CU':(1,256),'G':(1,256),'P':(1,16),'Z':(1,16),'H':(1,8),'F':(1,8),'A':(1,8),'Y':(1,2),'S':(2,2),'SY':(3,3),'R':(3,4),'V':(3,4),'Q':(1,4),'QD':(1,8),'QY':(3,3),'J':(2,8),'E':(1,8),'D':(1,8),'L':(1,16)}
def lim(t): return LEN.get(t) or LEN[t[0]]
SYMS=['Y1','Y2']
class Gen:
    def __init__(s,r,bad=.1,fwd=.2): s.r=r; s.bad=bad; s.fwd=fwd; s.equ=[]
    def num(s,alpha='',mode=''):
        r=s.r; d=lambda lo,hi:''.join(r.choice('0123456789') for _ in range(r.randrange(lo,hi)))
        v=r.choice(['','','+','-'])+(d(1,6) if r.random()<.7 else r.choice([d(1,3)+'.'+d(0,4),'.'+d(1,4)]))
        if alpha and r.random()<.2: v+='E'+r.choice(['','+','-'])+d(1,2)
        if mode and r.random()<.15: v+='R'+r.choice({'B':['1','4','5','6','7'],'H':['1','7'],'D':['8','10','15']}[mode])
        return v
    def vals(s,f):
        r=s.r; n=r.choice([1,1,1,2,3]); return ','.join(f() for _ in range(n))
    def string(s,t):
        r=s.r; k=t[0]; w=lambda a,lo,hi:''.join(r.choice(a) for _ in range(r.randrange(lo,hi)))
        def sp(v):
            if r.random()<.25 and len(v)>1: i=r.randrange(1,len(v)); v=v[:i]+' '+v[i:]
            return v
        if k=='B': o=s.vals(lambda:sp(w('01',1,r.choice([5,9,12,20]))))
        elif k=='X': o=s.vals(lambda:sp(w('0123456789ABCDEF',1,r.choice([3,6,9]))))
        elif k=='C': o=w("AB12 ,&'.x(",1,r.choice([3,6,12]))
        elif k=='G': o='<'+w('.A',1,4).replace('A','AB').replace('.','XY')+'>'
        elif k in 'PZ': o=s.vals(s.num)
        elif k in 'HF': o=s.vals(lambda:(s.num(1) if r.random()<.9 else 'U'+str(r.randrange(999))))
        else: o=s.vals(lambda:s.num(1,t[1:] if t[1:] in ('B','H','D') else ''))
        if k not in 'CG' and r.random()<s.bad*.6:
            i=r.randrange(len(o)+1); o=r.choice([o[:i]+r.choice(['.','+','-','G','Z',',','E','R','2','U','9'])+o[i:],o[:i]+o[i+1:],o+',',','+o,''])
        return o
    def exprs(s,t):
        r=s.r; n=r.choice([1,1,1,2,3]); o=[]
        for _ in range(n):
            k=r.random()
            if t[0] in 'RVQJ': o.append(dict(k='rel',v=0,b=0,s=r.choice(SYMS)))
            elif t[0]=='S':
                mx=4095 if t=='S' else 524287; mn=0 if t=='S' else -524288
                v=r.choice([mn,mx,0,5,r.randrange(mn,mx)])
                if r.random()<s.bad: v=r.choice([mx+1,mn-1,999999])
                if k<.5: o.append(dict(k='addr',v=v,b=r.choice([0,5,15]) if r.random()>s.bad else r.choice([16,-1])))
                elif k<.7: o.append(dict(k='rel',v=0,b=0,s=r.choice(SYMS)))
                else: o.append(dict(k='abs',v=v,b=0))
            elif k<.4: o.append(dict(k='rel',v=0,b=0,s=r.choice(SYMS)+r.choice(['','','+1','-2'])))
            elif k<.4+s.bad*.3: o.append(dict(k='addr',v=4,b=3))
            else: o.append(dict(k='abs',v=r.choice([0,1,77]),b=0))
        return o
    def op(s,instr):
        r=s.r; t=r.choice(TY); o=dict(dup=[],ty=t[0],x=t[1:],lk='',lv=0,sc=[],ex=[],nk='none',s=[],e=[])
        if r.random()<s.bad*.3: o['x']=r.choice('AUHBDQY')
        if r.random()<.35: o['dup']=[r.choice([0,0,1,2,3,5])]
        if r.random()<s.bad*.2: o['dup']=[-1]
        lo,hi=lim(t)
        if r.random()<.4:
            o['lk']='B'; o['lv']=r.choice([lo,hi,r.randrange(lo,min(hi,20)+1)])
            if t in ('CU','G') and r.random()>.1: o['lv']=max(2,o['lv']//2*2)
            if t[0]=='J' or t in ('RD','VD'): o['lv']=r.choice([3,4,8,8,3,2])
            if t in ('ED','EB'): o['lv']=4
            if t in ('DD','DB'): o['lv']=8
            if t in ('LD','LB'): o['lv']=16
            if r.random()<s.bad: o['lv']=r.choice([0,lo-1,hi+1,17,257,-1]) if t not in ('CU','G') else r.choice([0,1,3,258])
            if instr=='DS' and t in ('C','X','G','CA') and r.random()<.2: o['lv']=r.choice([300,65535,65534,65536])
            if t[0] in 'BCXPZHFAYEDL' and t!='CU' and r.random()<.35:
                o['lk']='b'; m=hi*8; o['lv']=r.choice([1,3,7,8,9,r.randrange(1,m+1) if m<200 else 13])
                if t in('EH','DH','LH','LQ'): o['lv']=r.choice([12,20,33,64])
                if t in ('ED','EB','DD','DB','LD','LB'): o['lv']={'E':32,'D':64,'L':128}[t[0]]
                if r.random()<s.bad: o['lv']=r.choice([0,m+1,11,m])
            elif r.random()<s.bad*.3: o['lk']='b'
        fl=t[0] in 'HFEDL'
        if r.random()<(.2 if fl else s.bad*.2):
            mx={'H':346,'F':346,'E':5,'D':13,'L':27}.get(t[0],3); o['sc']=[r.choice([0,1,2,mx])]
            if t[0] in 'HF': o['sc']=[r.choice([-187,-3,0,2,9,346])]
            if r.random()<s.bad: o['sc']=[r.choice([-188,347,mx+1,-1])]
        if r.random()<(.15 if fl else s.bad*.2):
            if t=='C': t='CA'; o['x']='A'
            o['ex']=[r.choice([-85,-1,0,2,75])]
            if r.random()<s.bad: o['ex']=[r.choice([-86,76])]
        if instr=='DC' and not (o['dup']==[0] and r.random()<.5) and r.random()>s.bad*.3 or instr=='DS' and r.random()<.35:
            want='s' if t[0] in 'BCGXPZHFEDL' else 'e'
            if r.random()<s.bad*.2: want='e' if want=='s' else 's'
            o['nk']=want
            if want=='s':
                v=s.string(t if t[0] in 'BCGXPZHFEDL' else 'X'); o['s']=list(v)
            else: o['e']=s.exprs(t)
        if o['ty'] in 'AY' and o['nk']=='none' and o['lk']: o['lv']=r.choice([1,2])
        if r.random()<s.bad*.15 and o['lk']!='b': o['dup']=[r.choice([2147483647,1500000000,1073741824])]
        if o['dup'] and o['dup'][0]>100000:
            # either surely too long or not at all
            n=len(''.join(o['s']).split(',')) if o['s'] else max(1,len(o['e']))
            if o['lk']!='B' or o['lv']*n<2: o['dup']=[3]
        if o['lv']>1000 and o['dup'] and o['dup'][0]>2: o['dup']=[1]
        return o
    def modv(s,v,line,pure=False):
        """a number or, sometimes, a symbol or an expression for it"""
        r=s.r
        if pure or r.random()<.75: return str(v)
        if r.random()<.4: return f'({v})' if v>=0 else f'(0{v})'
        n='N%d'%len(s.equ); late=r.random()<s.fwd
        s.equ.append((n,v,late)); line['late']|=late
        return f'({n})'
    def render_op(s,o,line):
        f=s.r; t=o['ty']+o['x']; line0=dict(late=False)
        out=(s.modv(o['dup'][0],line,o['dup'][0]<0 and False) if o['dup'] else '')+t
        if o['lk']: out+='L'+('.' if o['lk']=='b' else '')+s.modv(o['lv'],line0)
        if o['sc']: out+='S'+s.modv(o['sc'][0],line0)
        if o['ex']: out+='E'+s.modv(o['ex'][0],line)
        line['late']|=line0['late']; line['modlate']=line0['late']
        if o['nk']=='s': out+="'"+''.join({'&':'&&',"'":"''"}.get(c,c) for c in o['s'])+"'"
        if o['nk']=='e': out+='('+','.join(e['s'] if 's' in e else f"{e['v']}({e['b']})" if e['k']=='addr' else str(e['v']) for e in o['e'])+')'
        return out
    def program(s):
        r=s.r; n=r.randrange(2,8); st=[]; body=[]; top=[]; tail=[]; globs=[]; qn=0; free=[]
        for i in range(n):
            instr=r.choice(['DC','DC','DS']); ops=[s.op(instr) for _ in range(r.choice([1,1,1,2,2,3,4]))]
            line=dict(late=False); texts=[]; first=False
            for j,o in enumerate(ops):
                line['modlate']=False; texts.append(s.render_op(o,line))
                if j==0: first=line['modlate']
            lab='X%d'%i if r.random()<.85 else ''
            x=dict(op=instr,lab=lab,ops=ops,qs=[]); st.append(x)
            text=f"{lab or ''} {instr} {','.join(texts)}"
            if len(text)>71: return None
            body.append((text,x))
            if lab:
                o=ops[0]; nums=o['ty'] in 'FHPZEDL'
                for how in ('before','after','equ'):
                    for a in ('L','S','I'):
                        if (a!='L' and not nums) or r.random()<.5 or len(o['x'])>0 and o['ty']+o['x'] not in TY: continue
                        if how!='equ' and line['late'] or first and a=='I': continue
                        qn+=1; v='A%d'%qn
                        x['qs'].append(dict(a=a,how=how,q=('Q%d' if how=='equ' else 'A%d')%qn))
                        if how=='equ': tail.append((f"Q{qn} EQU {a}'{lab}",None,'q'))
                        elif how=='before': top.append((f"&A{qn} SETA {a}'{lab}",None,'q'))
                        else: body.append((f"&A{qn} SETA {a}'{lab}",None,'q'))
        gl=[q['q'] for x in st for q in x['qs'] if q['q'][0]=='A']
        pre=[(' GBLA '+','.join('&'+g for g in gl[i:i+8]),None) for i in range(0,len(gl),8)]
        pre+=[(f'{a} EQU {v}',None) for a,v,l in s.equ if not l]
        # the questions asked at the top look ahead, they must not find symbols that are defined at the end
        tail=[('Y1 DS 0C',None),('Y2 DS 0C',None)]+[(f'{a} EQU {v}',None) for a,v,l in s.equ if l]+tail
        src=''
        for i,l in enumerate(pre+top+body+tail):
            src+=l[0]+'\n'
            if l[1] is not None: l[1]['line']=i
            if len(l)>2: free.append(i)
        return dict(src=src,dl=1,syms=[x['lab'] for x in st if x['lab']]+[q['q'] for x in st for q in x['qs'] if q['q'][0]=='Q'],globs=gl,stmts=st,free=free)
def combine(c,r):
    st=json.loads(json.dumps(c['stmts'])); good=[]
    for x in st:
        for q in x['qs']:
            n=q['q']
            if n[0]=='Q': v=r.get('sym',{}).get(n,{}); q['v']=v.get('v',-99999) if v.get('k')=='abs' else -99999
            else:
                v=r.get('glob',{}).get(n); q['v']=v[0][1] if v else 0
        for o in x['ops']:
            for e in o['e']: e.pop('s',None)
    return dict(stmts=st,sym=r.get('sym',{}),diags=[dict(c=d['c'],l=d['l']) for d in r.get('diags',[])],free=c['free'],src=c['src'])
def rand(s,k,**a):
    o=[]
    while len(o)<k:
        p=Gen(s.rng,**a).program()
        if p: o.append(p)
    return o
def dev(s,k): return rand(s,k,bad=float(os.environ.get('BAD','.1')),fwd=float(os.environ.get('FWD','.2')))
BASE=dict(dup=[],lk='',lv=0,sc=[],ex=[],nk='none',s=[],e=[])
VAL={'B':'1','C':'ABC','G':'<AB>','X':'1 2,345','P':'1.25,7','Z':'+12.5','H':'1,2','F':'7','E':'1','D':'-2','L':'3'}
def mk(t,r,k=0):
    o=dict(json.loads(json.dumps(BASE)),ty=t[0],x=t[1:])
    if t[0] in VAL: o['nk']='s'; o['s']=list(VAL[t[0]])
    elif t[0] in 'AY': o['nk']='e'; o['e']=[dict(k='rel',v=0,b=0,s='Y1'),dict(k='abs',v=4,b=0)]
    elif t[0]=='S': o['nk']='e'; o['e']=[dict(k='addr',v=4,b=3)]
    else: o['nk']='e'; o['e']=[dict(k='rel',v=0,b=0,s='Y2')]
    if k==1: o['dup']=[0]
    elif k==2: o['dup']=[3]
    elif k==3: o['nk']='none'; o['s']=[]; o['e']=[]
    elif k==4: o['lk']='B'; o['lv']={'S':2,'SY':3,'QY':3,'ED':4,'EB':4,'DD':8,'DB':8,'LD':16,'LB':16,'CU':2,'G':2}.get(t,3 if t[0] in 'RVJ' else 2)
    elif k==5: o['lk']='b'; o['lv']={'ED':32,'EB':32,'DD':64,'DB':64,'LD':128,'LB':128}.get(t,13)
    return o
class Fixed(Gen):
    """given statements; modifiers are numbers or symbols defined before or after"""
    def __init__(s,r,sts,how): Gen.__init__(s,r,0,0); s.sts=sts; s.how=how
    def modv(s,v,line,pure=False):
        if s.how==0: return str(v)
        n='N%d'%len(s.equ); s.equ.append((n,v,s.how==2)); line['late']|=s.how==2
        return f'({n})'
    def program(s):
        st=[]; src=[]; tail=['Y1 DS 0C','Y2 DS 0C']
        for i,(instr,ops) in enumerate(s.sts):
            line=dict(late=False,modlate=False); st.append(dict(op=instr,lab='X%d'%i,ops=ops,qs=[],line=0)); src.append(f"X{i} {instr} "+','.join(s.render_op(o,line) for o in ops))
        pre=[f'{a} EQU {v}' for a,v,l in s.equ if not l]; tail+=[f'{a} EQU {v}' for a,v,l in s.equ if l]
        for i,x in enumerate(st): x['line']=len(pre)+i
        return dict(src='\n'.join(pre+src+tail)+'\n',dl=1,syms=[x['lab'] for x in st],globs=[],stmts=st,free=[])
def bytes_(k): return ('DS',[dict(json.loads(json.dumps(BASE)),ty='C',x='',lk='B',lv=k)])
END=('DS',[dict(json.loads(json.dumps(BASE)),ty='C',x='',dup=[0])])
def singles(r):
    """every type with each form of modifiers, at addresses 1 to 16, with values known before and after"""
    for t in TY:
        for k in range(6):
            for instr in ('DC','DS'):
                for how in range(3):
                    for a in (1,2,4,7,8,16):
                        yield Fixed(r,[bytes_(a),(instr,[mk(t,r,k)]),END],how).program()
def pairs(r):
    """every ordered pair of types as two operands of one statement, from every odd and even start"""
    for t,u in itertools.product(TY,TY):
        for k,j in ((0,0),(2,1),(4,0),(5,0),(0,5),(5,5)):
            for a in (1,2,7):
                yield Fixed(r,[bytes_(a),('DC',[mk(t,r,k),mk(u,r,j)]),END],r.choice([0,0,2])).program()
def body(s):
    build(['vp_lib']); q=s.quick
    s.model('MC_DataDef','MC_DataDef.cfg' if q else 'MC_DataDef_deep.cfg')
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=8000)
    def pick(g,n,l):
        cs=list(g)
        if q: s.rng.shuffle(cs); cs=cs[:n]
        go(cs,l+(' (sample)' if q else ''))
    pick(singles(s.rng),3500,'every type, modifier form and start'); pick(pairs(s.rng),4000,'pairs of operands')
    for l,k in (('correct',dict(bad=0)),('some incorrect',dict(bad=.1)),('many incorrect',dict(bad=.35)),('modifiers defined later',dict(bad=.03,fwd=.7))):
        go(rand(s,2000 if q else 30000,**k),'random programs, '+l)
    s.findings('vp_lib','asm')
if __name__=='__main__': Check('C17').main(body)
