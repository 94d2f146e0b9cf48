"""Typed generator and renderer of conditional assembly expressions (the AST is the one of spec/CaExpr.tla)."""
def cont(line):
    """splits a long statement into continued lines"""
    out=[]
    first=True
    while True:
        w=71 if first else 56
        if len(line)<=w:
            out.append(line if first else ' '*15+line); return out
        out.append((line[:w] if first else ' '*15+line[:w])+'X'); line=line[w:]; first=False
def num(v): return dict(t='num',v=v)
def s_(x): return dict(t='s',s=x)
def var(n,ix=(),p=()): return dict(t='var',n=n,ix=list(ix),p=list(p))
def string(p,dup=(),sub=()): return dict(t='str',p=list(p),dup=list(dup),sub=list(sub))
def lit(x): return string([s_(x)] if x else [])
def fn(f,*x,dup=()): return dict(t='fn',f=f,x=list(x),dup=list(dup))
def op(o): return dict(t='op',o=o)
def lst(*x): return dict(t='list',x=list(x))
def ar(*x): return dict(t='ar',x=list(x))
def attr(a,v): return dict(t='attr',a=a,x=v)
def rcase(rng,s): return ''.join(rng.choice([c,c.lower()]) for c in s) if rng and rng.random()<.3 else s
class R:
    """renders an AST to HLASM text"""
    def __init__(s,rng=None): s.rng=rng
    def var(s,e):
        n='('+''.join(s.part(p) for p in e['p'])+')' if e['p'] else rcase(s.rng,e['n'])
        return '&'+n+('('+','.join(s.e(x) for x in e['ix'])+')' if e['ix'] else '')
    def part(s,p,nxt=None): return p['s'] if p['t']=='s' else s.var(p)
    def text(s,parts,q=False):
        """concatenation text: a dot separates a variable symbol from following text where needed"""
        o=''
        for i,p in enumerate(parts):
            if p['t']=='s':
                x=p['s']
                if i and parts[i-1]['t']!='s' and x: o+='.'
                o+=x.replace("'","''") if q else x
            else: o+=s.var(p)
        return o
    def e(s,e):
        t=e['t']
        if t=='num': return str(e['v'])
        if t=='sdt': return e['k']+"'"+e['s']+"'"
        if t=='var': return s.var(e)
        if t=='ar': return ''.join(x if isinstance(x,str) else s.e(x) for x in e['x'])
        if t=='neg': return '-'+s.e(e['x'])
        if t=='pos': return '+'+s.e(e['x'])
        if t=='list': return '('+' '.join(rcase(s.rng,x['o']) if x['t']=='op' else s.e(x) for x in e['x'])+')'
        if t=='str':
            o='' if not e['dup'] else '('+s.e(e['dup'][0])+')'
            o+="'"+s.text(e['p'],True)+"'"
            if e['sub']: o+='('+s.e(e['sub'][0])+','+(s.e(e['sub'][1]) if len(e['sub'])==2 else '*')+')'
            return o
        if t=='cat': return '.'.join(s.e(x) for x in e['x'])
        if t=='fn': return ('('+s.e(e['dup'][0])+')' if e['dup'] else '')+rcase(s.rng,e['f'])+'('+','.join(s.e(x) for x in e['x'])+')'
        if t=='sattr': return e['a']+"'"+e['s']
        if t=='attr': return e['a']+"'"+s.var(e['x'])
        raise Exception(t)
INTS=[0,1,2,3,4,5,7,8,9,10,15,16,17,31,32,33,63,64,65,100,127,128,255,256,999,1000,32767,32768,65535,65536,99999,1000000,1073741823,1073741824,2147483646,2147483647]
FA=['B2A','C2A','D2A','X2A','DCLEN','ISBIN','ISDEC','ISHEX','ISSYM']
FCC=['B2D','B2X','C2B','C2D','C2X','D2B','D2X','DCVAL','DEQUOTE','DOUBLE','LOWER','UPPER','X2B','X2D']
FCA=['A2B','A2D','A2X','SIGNED']
EB={}
for i,c in enumerate("ABCDEFGHI"): EB[c]=0xC1+i; EB[c.lower()]=0x81+i
for i,c in enumerate("JKLMNOPQR"): EB[c]=0xD1+i; EB[c.lower()]=0x91+i
for i,c in enumerate("STUVWXYZ"): EB[c]=0xE2+i; EB[c.lower()]=0xA2+i
for i,c in enumerate("0123456789"): EB[c]=0xF0+i
EB.update({' ':64,'.':75,'(':77,'+':78,')':93,'-':96,'/':97,',':107,'=':126,"'":125,'*':92,'$':91,'#':123,'@':124,'_':109})
class G:
    """vars: dict A/B/C -> list of var-node makers (callables returning var nodes valid in that context)"""
    def __init__(s,rng,vars,small=False): s.r=rng; s.v=vars; s.small=small
    def ch(s,*x): return s.r.choice(x)
    def int(s):
        if s.small: return s.r.choice([0,1,2,3,4,5])
        return s.r.choice(INTS) if s.r.random()<.6 else s.r.randrange(0,2**s.r.randrange(1,31))
    def rawtext(s,n=None):
        r=s.r; k=r.random(); n=r.choice([0,1,1,2,3,4,5,8]) if n is None else n
        if k<.2: return ''.join(r.choice('01') for _ in range(r.choice([1,3,4,7,8,9,16,31,32,33])))
        if k<.45: return r.choice(['','+','-'])+str(s.int()) if not s.small else str(s.int())
        if k<.6: return ''.join(r.choice('0123456789ABCDEFabcdef') for _ in range(r.choice([1,2,3,4,7,8,9])))
        if k<.7: return ''.join(r.choice("AB'") for _ in range(n))
        if k<.75: return r.choice(['2147483647','2147483648','-2147483648','-2147483649','+2147483647','-','+','--1','+-1','99999999999','12345678901','-1234567890','00000000001','1A','G1','A$_#@9','9A','A B'])
        return ''.join(r.choice('ABCXYZabcxyz0189 .+-=/*$#@_') for _ in range(n))
    def A(s,d):
        r=s.r
        if d<=0:
            k=r.random()
            if k<.5 or not s.v['A']: return num(s.int())
            if k<.85: return r.choice(s.v['A'])(s,d)
            k=r.choice('XBC')
            return dict(t='sdt',k=k,s={'X':'%X'%s.int(),'B':bin(s.int())[2:],'C':r.choice(['A','AB','Z9','0',' ','abcd'])}[k])
        k=r.random()
        if k<.40:
            x=[s.A(d-1)]
            for _ in range(r.choice([1,1,2,2,3,4])):
                x+=[r.choice('+-*/'),s.term(d-1)]
            x[0]=s.unterm(x[0]); return dict(t='ar',x=x)
        if k<.48: return dict(t=s.ch('neg','pos'),x=s.term(d-1))
        if k<.70: return s.alist(d-1)
        if k<.76: return fn(r.choice(FA),s.C(d-1))
        if k<.79: return fn(r.choice(['FIND','INDEX']),s.C(d-1),s.C(d-1))
        if k<.86 and s.v.get('T'): return attr(r.choice('KN'),r.choice(s.v['T'])(s,d))
        return s.A(0)
    def unterm(s,e): return lst(e) if e['t'] in('ar',) else e
    def term(s,d):
        e=s.A(d)
        return lst(e) if e['t'] in('ar','neg','pos') else e
    def alist(s,d):
        r=s.r
        if r.random()<.15: return lst(s.A(d))
        if r.random()<.12: return lst(s.cexpr(d),op(s.ch('FIND','INDEX')),s.CL(d))
        x=[]
        for i in range(r.choice([1,2,2,3,3,4])):
            if i: x.append(op(r.choice(['AND','OR','XOR','SLA','SLL','SRA','SRL'])))
            if r.random()<.2: x.append(op('NOT'))
            if i and x[-2 if x[-1].get('o')=='NOT' else -1].get('o') in('SLA','SLL','SRA','SRL') and x[-1].get('o')!='NOT' and r.random()<.8: x.append(num(r.choice([0,1,2,3,7,8,15,16,30,31,32,33,62,63,64,65])))
            else: x.append(s.term(d-1))
        if len(x)==1: x=[x[0]]
        return lst(*x)
    def rel(s,d):
        r=s.r
        o=op(r.choice(['EQ','NE','LE','LT','GE','GT']))
        if r.random()<.6: return [s.term(d-1),o,s.term(d-1)]
        return [s.cexpr(d-1),o,s.CL(d-1)]
    def B(s,d):
        r=s.r
        if d<=0:
            return num(r.randrange(2)) if r.random()<.4 or not s.v['B'] else r.choice(s.v['B'])(s,d)
        x=[]; n=r.choice([1,1,2,2,3,3,4]); 
        ops=[r.choice(['AND','OR','XOR']) for _ in range(n-1)]
        for i in range(n):
            if i: x.append(op(ops[i-1]))
            # NOT after OR/XOR is only used when nothing tighter follows on the same level
            if r.random()<.25 and (i==0 or ops[i-1]=='AND' or i==n-1 or ops[i]!='AND' and not(ops[i-1]=='XOR' and ops[i]=='OR')): x.append(op('NOT'))
            k=r.random()
            if k<.5: x+=s.rel(d)
            elif k<.75: x.append(s.B(d-1) if d>1 else s.B(0))
            else: x.append(s.B(0))
        return lst(*x)
    def cexpr(s,d):
        """a character expression usable left of a relational operator: starts with an unduplicated string"""
        a=s.str(d,nodup=True)
        if s.r.random()<.2: return dict(t='cat',x=[a,s.str(0,nodup=True)])
        return a
    def CL(s,d):
        """character operand inside an operator list: no leading duplication factor"""
        while True:
            e=s.C(d)
            h=e['x'][0] if e['t']=='cat' else e
            if not h.get('dup'): return e
    def parts(s,d):
        r=s.r; p=[]
        for _ in range(r.choice([0,1,1,1,2,3])):
            if r.random()<.6 or not s.v.get('T'):
                if not p or p[-1]['t']!='s': p.append(s_(s.rawtext()))
            else: p.append(r.choice(s.v['T'])(s,d))
        return [x for x in p if x['t']!='s' or x['s']]
    def str(s,d,nodup=False):
        r=s.r; dup=[]; sub=[]
        if not nodup and r.random()<.12: dup=[num(r.choice([0,1,2,3,2,3,r.choice([4,5,500,5000])]) if r.random()<.9 or s.small else s.int()) if r.random()<.7 else s.A(min(d,1))]
        p=s.parts(d)
        if r.random()<.35:
            sub=[num(r.randrange(0,9)) if r.random()<.8 else s.A(min(d,1)),num(r.randrange(0,9)) if r.random()<.8 else s.A(min(d,1))]
            if r.random()<.2: sub=sub[:1]
        return string(p,dup,sub)
    def C(s,d):
        r=s.r; k=r.random()
        if k<.55 or d<=0:
            return s.str(d)
        if k<.68: return dict(t='cat',x=[s.str(d-1,nodup=i>0) for i in range(r.choice([2,3]))])
        if k<.72: return lst(op(s.ch('UPPER','LOWER','DOUBLE')),s.str(d-1,nodup=True))
        if k<.75: return lst(op('SIGNED'),s.term(d-1))
        dup=[num(r.randrange(0,4))] if r.random()<.15 else []
        if k<.86: return fn(r.choice(FCC),s.C(d-1),dup=dup)
        if k<.95: return fn(r.choice(FCA),s.A(d-1),dup=dup)
        # conversions to characters: arguments are the codes of printable characters
        t=''.join(r.choice(sorted(set(EB)-{"'"})) for _ in range(r.choice([1,2,3,4])))
        b=bytes(EB[c] for c in t); f=r.choice(['X2C','B2C','D2C','A2C','BYTE'])
        if f=='X2C': return fn(f,lit(b.hex() if r.random()<.5 else b.hex().upper()))
        if f=='B2C': return fn(f,lit(''.join('{:08b}'.format(x) for x in b)))
        b=(b*4)[:4]; v=int.from_bytes(b,'big',signed=True)
        if f=='BYTE': return fn(f,num(b[0]) if r.random()<.9 else num(256+r.randrange(1000)))
        if f=='D2C': return fn(f,lit(str(v)))
        return fn(f,ar(num(0),'-',num(-v)) if -v<2**31 and v<0 else num(max(v,0)) ) if v!=-2**31 else fn('BYTE',num(193))
