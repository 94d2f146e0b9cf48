#!/usr/bin/env python3
"""C16: records -> statements, AREAD and AINSERT. Random records are assembled; TLC reads the same records."""
import sys,os,json
sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
MOD='Trace_Records'
GBL=' GBLC &CV(1),&MP(1),&AR(1)\n GBLA &AV(1),&MN,&AN\n'
LIBS={'RD':' MACRO\n RD &N\n'+GBL+""" LCLA &I
.L AIF (&I EQ &N).E
&I SETA &I+1
&AN SETA &AN+1
&AR(&AN) AREAD
 AGO .L
.E MEND
""",'CALL':' MACRO\n CALL\n'+GBL+""" LCLA &I
&MN SETA &MN+1
&I SETA N'&SYSLIST
&MP(&MN) SETC 'N=&I'
&I SETA 0
.L AIF (&I EQ N'&SYSLIST).E
&I SETA &I+1
&MN SETA &MN+1
&MP(&MN) SETC '&SYSLIST(&I)'
 AGO .L
.E MEND
""",'MX':' MACRO\n MX\n'+GBL+""" LCLA &I
.L ANOP
&I SETA &I+1
 AIF (&I GT N'&SYSLIST).E
 AIF ('&SYSLIST(&I)' EQ 'R').R
 AIF ('&SYSLIST(&I)' EQ 'B').B
&I SETA &I+1
 AINSERT &SYSLIST(&I),FRONT
 AGO .L
.B ANOP
&I SETA &I+1
 AINSERT &SYSLIST(&I),BACK
 AGO .L
.R ANOP
&AN SETA &AN+1
&AR(&AN) AREAD
 AGO .L
.E MEND
"""}
class Rec(str): pass
WORD='ABCXYZ019ab$#@_'
class Gen:
    def __init__(s,r,io=.3,wrap='open',seq=True):
        s.r=r; s.io=io; s.wrap=wrap; s.seq=seq; s.nsym=0; s.protos={}; s.pn={}; s.syms=[]
    # ---- text ----
    def word(s,n=None): return ''.join(s.r.choice(WORD) for _ in range(n or s.r.choice([1,2,3,5,8,20,40])))
    def text(s,n):
        return ''.join(s.r.choice(["''",' ',' ',',','(',')','*','.','=','+','-','/']+list(WORD)) for _ in range(n))
    def quoted(s,amp=False):
        t=s.text(s.r.choice([0,1,3,10,30,60,66,67,68,69,70,71,90]) or 1)
        if amp and s.r.random()<.3: i=s.r.randrange(len(t)+1); i+=(t[:i].count("'")%2); t=t[:i]+'&&'+t[i:]
        return "'"+t+"'"
    def num(s): return str(s.r.randrange(0,10**s.r.choice([1,2,3,6])))
    def sum(s,k=None): return '+'.join(s.num() for _ in range(k or s.r.choice([1,1,2,3,6,12,20])))
    def mop(s,first=False):
        r=s.r; k=r.random()
        if k<.3: return s.quoted()
        if k<.45: return '('+','.join(s.word(3) for _ in range(r.choice([1,2,4])))+')'
        if k<.55 and not first: return ''
        if k<.6: return s.word()+s.r.choice('+-*/')+s.word()
        return s.word()
    def remark(s,n):
        if n<=0: return ''
        t=s.r.choice(['',"it''s a remark",'remark, x','X','(','1+1',s.text(s.r.randrange(0,40)).replace("'",'')])
        t=(' '+t)[:n]
        # known finding: a letter of an attribute in column 71 of a remark, the next record starts with an apostrophe
        return t[:-1] if len(t)==n and t[-1].upper() in 'DONSKILT' else t
    # ---- records ----
    def cont(s): return s.r.choice('XXX*-1C,\'&(')
    def seqno(s): return s.r.choice(['','','12345678','  X','00000001','longer than eight columns, it is','\'']) if s.seq else ''
    def end(s,line):
        """a record that is not continued: anything from column 73"""
        if s.r.random()<.25 and len(line)<=71: return (line.ljust(72)+s.seqno()).rstrip(' ') if s.r.random()<.7 else line+' '*s.r.randrange(0,5)
        return line
    def fold(s,head,ops,alt):
        """break a statement into records: anywhere in the text when a record is full, after a comma in the alternative format"""
        r=s.r; out=[]; line=head; room=71
        def cut():
            nonlocal line
            out.append(line.ljust(71)+s.cont()+s.seqno()); line=' '*15
        if r.random()<.06: line=line+' '*(71-len(line)) ; cut(); line+=' '*r.choice([0,0,0,1,5] if s.wrap=='open' and 'PR' not in head else [0])   # operands start in the continuation
        toks=[]
        for i,o in enumerate(ops):
            toks.append(o+(',' if i<len(ops)-1 else ''))
        for i,t in enumerate(toks):
            while len(line)+len(t)>71 or (len(line)+len(t)==71 and i<len(toks)-1 and False):
                k=71-len(line); line+=t[:k]; t=t[k:]
                if not t: break
                cut()
            line+=t
            if alt and i<len(toks)-1 and toks[i].endswith(',') and r.random()<.3 and len(line)<71 and (toks[i+1] not in (',','') or i+1<len(toks)-1):
                line+=s.remark(71-len(line)); cut()
            elif alt and i<len(toks)-1 and len(line)==71 and r.random()<.5: cut()
        # remarks
        if ops and r.random()<.35 and len(line)<70:
            line+=s.remark(71-len(line))
            if r.random()<.2 and not (alt and ops[-1]==''):
                cut(); line+=s.r.choice(['more, remarks','X',"'", ' a,'])
        elif len(line)==71 and r.random()<.3 and ops and not (alt and line.endswith(',')):
            cut(); line+=' '+s.word(3)
        out.append(s.end(line)); return out if len(out)<=10 else None
    def stmt(s,io=True,depth=0):
        while True:
            o=s.stmt1(io,depth)
            if o: return o
    def stmt1(s,io,depth):
        r=s.r; k=r.random()
        gap=lambda: ' '*r.choice([1,1,1,2,4,9])
        if k<.1:
            t=r.choice(['*','.*'])+s.text(r.randrange(0,90)).replace('P','Q')
            if len(t)<=71: return [s.end(t)]
            if r.random()<.5: return [t[:71]+' '+t[72:]]
            return [t[:71].ljust(71)+s.cont()+s.seqno(),r.choice(['               comment again','* X','&CV(1) SETC \'no\'',' '*15+'&CV(1) SETC \'no\''])]
        if k<.13: return [r.choice(['','   ',' '*71,' '*80])]
        if io and k<.13+s.io:
            j=r.random()
            if j<.35: n=r.choice([0,1,1,2,3]); return s.io_stmt(' RD'+gap(),[str(n)],True,['R']*n)
            if j<.65:
                rec=s.inserted(depth); d=r.choice(['FRONT','BACK'])
                return s.io_stmt(' AINSERT'+gap(),[s.ins(rec[0]),d],False,[(d[0],rec[0])]) if len(rec)==1 else None
            ops=[]; do=[]
            for _ in range(r.randrange(1,5)):
                if r.random()<.4: ops.append('R'); do.append('R')
                else:
                    rec=s.inserted(depth); d=r.choice('FB')
                    for x in (rec if d=='B' else rec[::-1]): ops+=[d,s.ins(x)]; do.append((d,x))
            return s.io_stmt(' MX'+gap(),ops,True,do)
        j=r.random()
        if j<.3: return s.fold(f'&CV({r.randrange(1,9)})'+gap()+'SETC'+gap(),[s.quoted() for _ in range(r.choice([1,1,2,3]))],True)
        if j<.45: return s.fold(f'&AV({r.randrange(1,9)})'+gap()+'SETA'+gap(),[s.sum() for _ in range(r.choice([1,1,2,4]))],True)
        if j<.6:
            s.nsym+=1; l='L%d'%s.nsym; x=s.fold(l+gap()+'EQU'+gap(),[s.sum()],False)
            if x: s.syms.append(l)
            return x
        if j<.75:
            s.nsym+=1; l='L%d'%s.nsym; x=s.fold(l+gap()+'DC'+gap(),['C'+s.quoted(True) for _ in range(r.choice([1,1,2,3]))],False)
            if x: s.syms.append(l)
            return x
        if j<.85:
            n='PR%d'%len(s.protos); ps=[]
            for i in range(r.randrange(1,6)): ps.append(f'&K{i}='+s.mop())
            p=s.fold(' '+n+gap(),ps,True)
            if not p: return None
            s.protos[n]=p; s.pn[n]=len(ps); return [' '+n+(s.remark(60) if False else '')]
        k=r.choice([0,1,1,2,3,6]); return s.fold(' CALL'+gap(),[s.mop(i==0) for i in range(k)],True)
    def io_stmt(s,head,ops,alt,do):
        x=s.fold(head,ops,alt)
        if x: x[0]=Rec(x[0]); x[0].do=do; x[0].more=len(x)-1
        return x
    def ins(s,x): return "'"+x.replace("'","''").replace('&','&&')+"'"
    def inserted(s,depth):
        """records for AINSERT: a whole statement (its continuation records are inserted too) or a comment"""
        while True:
            if depth>1 or s.r.random()<.3: x=['*'+s.text(s.r.randrange(0,80)).replace("''",'x')[:70]]
            else: x=s.stmt(True,depth+1)
            if len(x)>1 and s.r.random()<.6: continue
            y=[Rec(l[:80]) for l in x]; y[0].do=getattr(x[0],'do',[]); y[0].more=len(x)-1
            if all(y): return y
    def data(s): return s.r.choice(['',' MEND',' RD 1','*comment',s.text(100).replace("''","'"),s.text(s.r.randrange(1,90)).replace("''","'"),('x'*71+'X1234'),' AINSERT','  '])
    def play(s,recs):
        """put a record of data where the program reads one; None if a part of an inserted statement is read"""
        out=[]; todo=list(recs); q=[]; steps=0
        while todo or q:
            steps+=1
            if steps>400: return None
            x=q.pop(0) if q else todo[0]
            fromq=x is not (todo[0] if todo else None)
            if not fromq: out.append(todo.pop(0))
            n=getattr(x,'more',0)
            for _ in range(n):
                if fromq:
                    if not q: return None
                    q.pop(0)
                else: out.append(todo.pop(0))
            for d in getattr(x,'do',[]):
                if d=='R':
                    if q:
                        if getattr(q.pop(0),'more',0): return None
                    elif todo or s.r.random()<.6: out.append(s.data())
                elif d[0]=='F': q.insert(0,d[1])
                else: q.append(d[1])
        return out
    def program(s):
        r=s.r; recs=[]; io=s.wrap=='open'
        n=r.randrange(2,10)
        for _ in range(n):
            x=s.stmt(io)
            if len(x)>1 and not hasattr(x[0],'more'): x[0]=Rec(x[0]); x[0].more=len(x)-1
            recs+=x
        recs=s.play(recs)
        if recs is None: return None
        libs=dict(LIBS)
        for k,p in s.protos.items():
            ks=[]
            libs[k]=' MACRO\n'+'\n'.join(p)+'\n CALL '+','.join('&K%d'%i for i in range(s.pn[k]))+'\n MEND\n'
        eol=r.choice(['\n','\n','\r\n']); body=eol.join(recs)+(eol if r.random()<.8 or not recs[-1] else '')
        pre=GBL.replace('\n',eol)
        if s.wrap=='open': src=pre+body
        elif s.wrap=='copy': libs['CPY']=body; src=pre+' COPY CPY'+eol
        elif s.wrap=='macro': src=pre+' MACRO'+eol+' WRAP'+eol+pre+body+(eol if not body.endswith('\n') else '')+' MEND'+eol+' WRAP'+eol
        else: libs['WRAP']=' MACRO'+eol+' WRAP'+eol+pre+body+(eol if not body.endswith('\n') else '')+' MEND'+eol; src=pre+' WRAP'+eol
        return dict(src=src,libs=libs,dl=1,syms=sorted(set(s.syms)),globs=['CV','AV','MP','AR'],recs=recs,protos=s.protos)
def combine(c,r):
    g=r.get('glob',{}); y=r.get('sym',{})
    return dict(recs=c['recs'],protos=c['protos'] or {'none':['']},c=[x for x in g.get('CV',[])],a=g.get('AV',[]),mp=g.get('MP',[]),ar=g.get('AR',[]),
      syms=[[k,v.get('v',-1),v.get('len',-1)] for k,v in y.items() if v.get('k') in('abs','rel')],diags=[d['c'] for d in r.get('diags',[])],src=c['src'])
def rand(s,k,**a):
    o=[]
    while len(o)<k:
        p=Gen(s.rng,**a).program()
        if p: o.append(p)
    return o
def dev(s,k): return rand(s,k,io=float(os.environ.get('IO','.3')),wrap=os.environ.get('WRAP','open'))
# ---- every position of the end of a record in given statements ----
SHAPES=[("&CV(1)","SETC",["'AB''CD'","'E,F G'","'H'"],True),("&AV(2)","SETA",["12+345","6","78+9"],True),("","CALL",["AB","(C,D)","'E F,G'","H+I",""],True),
  ("L1","EQU",["12+345+6"],False),("L1","DC",["C'AB''C D'","C'E,F'","C'(G'"],False),("","AINSERT",["'&&CV(3) SETC ''X Y'',''Z'''","BACK"],False),("","AINSERT",["' CALL A,(B,C)'","FRONT"],False),("","RD",["2"],True),("","MX",["R","B","' CALL Q'","R","F","'&&AV(5) SETA 7,8'"],True)]
def exact(head,text,cont,num,tail):
    out=[]; line=head
    while len(line)+len(text)>71: k=71-len(line); out.append(line+text[:k]+cont+num); text=text[k:]; line=' '*15
    return out+[line+text+(tail if len(line+text)+len(tail)<=71 else '')]
def package(recs,wrap,syms,eol='\n'):
    libs=dict(LIBS); body=eol.join(recs)+eol; pre=GBL.replace('\n',eol)
    if wrap=='open': src=pre+body
    elif wrap=='copy': libs['CPY']=body; src=pre+' COPY CPY'+eol
    elif wrap=='macro': src=pre+' MACRO'+eol+' WRAP'+eol+pre+body+' MEND'+eol+' WRAP'+eol
    else: libs['WRAP']=' MACRO'+eol+' WRAP'+eol+pre+body+' MEND'+eol; src=pre+' WRAP'+eol
    return dict(src=src,libs=libs,dl=1,syms=syms,globs=['CV','AV','MP','AR'],recs=recs,protos={})
def positions():
    """the statement starts so far right that each of its characters is once the last one before the continuation column"""
    for lab,op,ops,alt in SHAPES:
        text=','.join(ops); io=op in('AINSERT','RD','MX'); w0=len(lab)+1+len(op)
        for gap in range(max(1,71-w0-len(text)-2),71-w0):
            head=(lab+' '+op).ljust(w0+gap); cont='X*-\',&('[gap%7]; num=('','12345678','\'X')[gap%3]
            for tail in ('',' remark, it'):
                if alt and ops[-1]=='' and tail: continue
                recs=[" CALL BEFORE"]+exact(head,text,cont,num,tail)+([" data 1","*data 2"] if op in("RD","MX") else [])+[" CALL AFTER"]
                for w in ('open',) if io else ('open','copy','macro','lib'):
                    yield package(recs,w,['L1'] if lab=='L1' else [],'\n' if gap%2 else '\r\n')
            if not alt: continue
            # alternative format: a record ends after each comma in turn
            for k in range(1,len(ops)):
                if k==len(ops)-1 and ops[k]=='': continue
                a=exact((lab+' '+op).ljust(w0+max(1,gap%50)),','.join(ops[:k])+',',cont,num,' remark, it')
                a=a[:-1]+[a[-1].ljust(71)+cont+num]
                recs=[" CALL BEFORE"]+a+exact(' '*15,','.join(ops[k:]),cont,num,'')+([" data 1","*data 2"] if op in("RD","MX") else [])+[" CALL AFTER"]
                for w in ('open',) if io else ('open','copy','macro','lib'): yield package(recs,w,[])
def mixes(n):
    """all sequences of n operations on the source of records"""
    import itertools
    OPS=[' RD 1',' RD 2'," AINSERT ' CALL I%d',BACK"," AINSERT ' CALL I%d',FRONT"," AINSERT '*I%d',BACK"," AINSERT ' RD 1',FRONT"," AINSERT ' RD 1',BACK",' CALL C%d','* comment %d'," MX R,B,' CALL M%d',R"," MX F,' CALL M%d',B,'* M%d'"]
    for seq in itertools.product(OPS,repeat=n):
        yield package([o.replace('%d',str(i)) for i,o in enumerate(seq)]+[' CALL Z1','*Z2',' CALL Z3'],'open',[])
def body(s):
    build(['vp_lib']); q=s.quick
    s.model('MC_Records','MC_Records.cfg' if q else 'MC_Records_deep.cfg')
    go=lambda cs,l: s.conform('vp_lib','asm',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=4000)
    def pick(g,n,l):
        cs=list(g)
        if q and len(cs)>n: s.rng.shuffle(cs); cs=cs[:n]; l+=' (sample)'
        go(cs,l)
    pick(positions(),1500,'every position of the end of a record')
    pick(mixes(3),1331,'all mixtures of 3 operations on the source of records')
    if not q: pick(mixes(4),0,'all mixtures of 4 operations on the source of records')
    go(rand(s,1000 if q else 15000,io=.3),'random records, open code'); go(rand(s,700 if q else 15000,io=.6),'random records, many AREAD and AINSERT')
    for w in ('copy','macro','lib'): go(rand(s,500 if q else 8000,wrap=w),'random records, '+w)
    s.findings('vp_lib','asm')
if __name__=='__main__': Check('C16').main(body)
