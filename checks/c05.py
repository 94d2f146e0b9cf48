#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_Workspace'; DRV=('vp_srv','ws'); SRV=1
PC='.hlasmplugin/pgm_conf.json'; PG='.hlasmplugin/proc_grps.json'
MACS=['MACA','MACB','MACC']; CPYS=['CPYA','CPYB']; LIBS=['lib1','lib2']
PROGS=['P','Q','R']
def st(k,n=''): return dict(k=k,n=n)
def line(x): return {'ok':' LR 1,1','bad':' BADOP','call':' '+x['n'],'copy':' COPY '+x['n']}[x['k']]
def text(f,ss):
    n=f.split('/')[-1]
    b=''.join(line(x)+'\n' for x in ss)
    return ' MACRO\n '+n+'\n'+b+' MEND\n' if n.startswith('MAC') else b
def grps(g): return json.dumps(dict(pgroups=[dict(name=k,libs=v) for k,v in g.items()]))
def pgms(m): return json.dumps(dict(pgms=[dict(program=k,pgroup=v) for k,v in m.items()]))
def member_text(r,n):
    """statements of a library member; macros call later macros only and copy members of the last library only"""
    out=[]
    for _ in range(r.randint(0,3)):
        if n.startswith('MAC'):
            later=[m for m in MACS if m>n]
            out.append(r.choice([st('ok'),st('bad'),st('copy','CPYB')]+[st('call',m) for m in later]*2))
        else: out.append(r.choice([st('ok'),st('bad')]))
    return out
def prog_text(r,big=False):
    if big: return [st('bad') for _ in range(r.randint(9,12))]
    return [r.choice([st('ok'),st('bad')]+[st('call',m) for m in MACS]*2+[st('copy',c) for c in CPYS]) for _ in range(r.randint(0,4))]
def member_files(): return [l+'/'+n for l in LIBS for n in MACS+CPYS if not(l=='lib1' and n=='CPYB')]
class B:
    def __init__(s,disk,mp,gr): s.disk=dict(disk); s.open={}; s.c=dict(disk=dict(disk),map=mp,grps=gr,steps=[]); s.map=dict(mp); s.grps=dict(gr); s.bad=''
    def add(me,**k): me.c['steps'].append(k)
    def do_open(s,f,t): s.open[f]=t; s.add(a='open',f=f,s=t)
    def do_change(s,f,t): s.open[f]=t; s.add(a='change',f=f,s=t)
    def do_close(s,f): s.open.pop(f); s.add(a='close',f=f)
    def do_put(s,f,t): s.disk[f]=t; s.add(a='put',f=f,s=t)
    def do_del(s,f): s.disk.pop(f); s.add(a='del',f=f)
    def do_cfg(s,mp=None,gr=None,bad=''):
        if bad: s.bad=bad; s.add(a='config',c=dict(bad=bad,code='W0003' if bad==PC else 'W0002',map=s.map,grps=s.grps))
        else:
            s.map=s.map if mp is None else mp; s.grps=s.grps if gr is None else gr; s.bad=''
            s.add(a='config',c=dict(bad='',code='',map=s.map,grps=s.grps))
def render(c):
    files={f:text(f,t) for f,t in c['disk'].items()}; files[PC]=pgms(c['map']); files[PG]=grps(c['grps'])
    for l in LIBS: files.setdefault(l+'/README',' ')
    steps=[];idx=[]
    for m in c['steps']:
        a=m['a']
        if a in('open','change'): steps.append(dict(a=a,f=m['f'],t=text(m['f'],m['s'])))
        elif a=='close': steps.append(dict(a='close',f=m['f']))
        elif a in('put','del'): steps+= [dict(a='disk',f=m['f'],t=text(m['f'],m['s']) if a=='put' else '\x01'),dict(a='watch',fs=[m['f']])]
        else:
            cc=m['c']
            if cc['bad']: steps+=[dict(a='disk',f=cc['bad'],t=m.get('junk','{"pgms')),dict(a='watch',fs=[cc['bad']])]
            else: steps+=[dict(a='disk',f=PG,t=grps(cc['grps'])),dict(a='disk',f=PC,t=pgms(cc['map'])),dict(a='watch',fs=[PC])]
        idx.append(len(steps)-1)
    return dict(c,files=files,folders=[dict(p='',n='w')],steps=steps,abs=c['steps'],idx=idx)
def combine(c,r):
    obs=[]
    for k in c['idx']:
        o=[]
        for x in r['obs'][k]['v']:
            for d in dict.fromkeys(x['d']):
                code,l=d.split(':')
                if not code.startswith('L'): o.append(dict(f=x['f'],l=int(l),c=code))
        obs.append(o)
    return dict(disk=c['disk'],map=c['map'],grps=c['grps'],steps=[dict({k:v for k,v in m.items() if k!='junk'}) for m in c['abs']],obs=obs)
GR={'G1':['lib1','lib2'],'G2':['lib2']}
def rand(s,n,size):
    out=[];r=s.rng
    for _ in range(n):
        mf=member_files()
        disk={f:member_text(r,f.split('/')[-1]) for f in mf if r.random()<.75}
        mp={'P':r.choice(['G1','G2']),'Q':r.choice(['G1','G1','G2'])}
        if r.random()<.15: mp['R']='GX'
        b=B(disk,mp,dict(GR))
        b.do_cfg(mp)   # the configuration is read once before anything else
        docs=PROGS+mf
        for _ in range(r.randint(3,size)):
            k=r.random()
            if k<.35:
                f=r.choice(PROGS if r.random()<.6 else mf)
                if f in b.open: b.do_change(f,prog_text(r,r.random()<.08) if f in PROGS else member_text(r,f.split('/')[-1]))
                else: b.do_open(f,prog_text(r,r.random()<.08) if f in PROGS else (b.disk.get(f) if f in b.disk and r.random()<.7 else member_text(r,f.split('/')[-1])))
            elif k<.55 and b.open: f=r.choice(sorted(b.open)); b.do_change(f,prog_text(r) if f in PROGS else member_text(r,f.split('/')[-1]))
            elif k<.7 and b.open: b.do_close(r.choice(sorted(b.open)))
            elif k<.86: f=r.choice(mf); b.do_put(f,member_text(r,f.split('/')[-1]))
            elif k<.92:
                fs=[f for f in mf if f in b.disk]
                if fs: b.do_del(r.choice(fs))
            elif k<.97: b.do_cfg({p:r.choice(['G1','G2','G2','GX']) for p in PROGS if r.random()<.7},r.choice([dict(GR),{'G1':['lib2','lib1'],'G2':['lib2']},{'G1':['lib1','lib2']},{'G1':['lib1','lib2'],'G2':['lib2','lib1']}]))
            else: b.do_cfg(bad=b.bad or r.choice([PC,PG]))
        out.append(render(b.c))
    return out
def words(n,cap=None,rng=None):
    """all sequences of n events over two programs sharing members"""
    MA=[st('bad'),st('call','MACB')];MA2=[st('call','MACB')];MB=[st('bad'),st('copy','CPYB')];MB2=[st('ok')]
    disk={'lib1/MACA':MA,'lib2/MACB':MB,'lib2/CPYB':[st('ok'),st('bad')]}
    P1=[st('call','MACA')];P2=[st('copy','CPYB'),st('bad')]
    ev=[('open','P',P1),('open','Q',[st('call','MACB')]),('change','P',P2),('change','P',P1),('close','P'),('close','Q'),('open','lib2/MACB',MB2),('close','lib2/MACB'),('change','lib2/MACB',MB),('put','lib2/MACB',MB2),('put','lib1/MACB',[st('bad')]),('del','lib2/MACB'),('put','lib2/CPYB',[st('bad')]),('cfg',{'P':'G2'}),('cfg',{'P':'G1','Q':'G1'})]
    seqs=list(itertools.product(ev,repeat=n))
    out=[]
    for w in seqs:
        b=B(disk,{'P':'G1','Q':'G2'},dict(GR)); ok=True
        for e in w:
            a=e[0]
            if a=='open': ok=e[1] not in b.open
            elif a in('change','close'): ok=e[1] in b.open
            elif a=='del': ok=e[1] in b.disk
            if not ok: break
            if a=='cfg': b.do_cfg(e[1])
            else: getattr(b,'do_'+a)(*e[1:])
        if ok: out.append(b.c)
    if cap and len(out)>cap: out=rng.sample(out,cap)
    return [render(c) for c in out]
def dev(s,n): return words(2)+rand(s,n,14)
def body(s):
    build(['vp_srv']); q=s.quick
    s.model('MC_Workspace','MC_Workspace.cfg' if q else 'MC_Workspace_deep.cfg')
    g=lambda cs,l: s.conform('vp_srv','ws',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=1500)
    g(words(1)+words(2)+words(3)+words(4,1500 if q else None,s.rng),'event sequences of up to four events over shared members')
    g(rand(s,2000 if q else 30000,16),'random histories')
if __name__=='__main__': Check('C05').main(body)
