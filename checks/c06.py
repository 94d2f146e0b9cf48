#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_LibResolve'; DRV=('vp_srv','ws'); SRV=1
PC='/.hlasmplugin/pgm_conf.json'; PG='/.hlasmplugin/proc_grps.json'
PARMS=['A','BB']
NAMES=['MACA','MACB','MACC','CPYA']
ASKS=NAMES[:3]
def grps(f,c):
    gs=[]
    for g in c['groups']:
        libs=[]
        for l in g['libs']:
            o={'path':l['p']}
            if l['opt']: o['optional']=True
            if l['exts']: o['macro_extensions']=l['exts']
            libs.append(l['p'] if len(o)==1 and not l.get('obj') else o)
        x=dict(name=g['n'],libs=libs)
        if g['parm']: x['asm_options']=dict(SYSPARM=g['parm'])
        gs.append(x)
    d=dict(pgroups=gs)
    if c['exts']: d['macro_extensions']=c['exts']
    return json.dumps(d)
def pgms(c):
    d=dict(pgms=[dict(program=e['p'],pgroup=e['g']) for e in c['pgms']])
    if c['always']: d['alwaysRecognize']=c['always']
    if c['lim']>=0: d['diagnosticsSuppressLimit']=c['lim']
    return json.dumps(d)
def member(r):
    return ' BADY\n' if r['k']=='cpy' else ' MACRO\n %s\n BADX\n MEND\n'%r['b'].split('.')[0].upper()
def prog(ss):
    t=''.join((' COPY ' if s['k']=='copy' else ' ')+s['n']+'\n' for s in ss)
    for i,p in enumerate(PARMS): t+=f" AIF ('&SYSPARM' NE '{p}').X{i}\n BADOP\n.X{i} ANOP\n"
    for i,n in enumerate(ASKS): t+=f" AIF (O'{n} NE 'U').Y{i}\n BADOP\n.Y{i} ANOP\n"
    return t
def strip(c): return dict(c,groups=[dict(g,libs=[dict(d=l['d'],opt=l['opt'],exts=l['exts']) for l in g['libs']]) for g in c['groups']])
def render(c):
    files={p:member(r) for p,r in c['disk'].items()}
    for d in c['dirs']: files.setdefault(d,'\x02')
    for f in c['plain']: files[f]=' '
    for f,k in c['conf'].items(): files[f+PC]=pgms(k); files[f+PG]=grps(f,k)
    steps=[];idx=[];act=list(c['ws'])
    n=0
    for m in c['steps']:
        a=m['a']
        if a=='probe': steps+=[dict(a='open',f=m['f'],t=prog(m['s'])),dict(a='close',f=m['f'])]; idx.append(len(steps)-2); continue
        if a=='add': steps.append(dict(a='folders',add=[dict(p=m['f'],n=m['n'])],rem=[])); act.append(m['f'])
        elif a=='rem': steps.append(dict(a='folders',add=[],rem=[dict(p=m['f'],n=m['n'])])); act.remove(m['f'])
        elif a=='conf':
            steps+=[dict(a='disk',f=m['f']+PG,t=grps(m['f'],m['c'])),dict(a='disk',f=m['f']+PC,t=pgms(m['c']))]
            if m['f'] in act: steps.append(dict(a='watch',fs=[m['f']+m['w']]))
        elif a=='put': steps+=[dict(a='disk',f=m['f'],t=member(m['r'])),dict(a='watch',fs=[m['f']])]
        elif a=='del': steps+=[dict(a='disk',f=m['f'],t='\x01'),dict(a='watch',fs=[m['f']])]
        elif a=='lim': steps.append(dict(a='config',v=dict(diagnosticsSuppressLimit=m['n'])))
        idx.append(len(steps)-1)
    return dict(c,files=files,folders=[dict(p=f,n=c['names'][f]) for f in c['ws']],steps=steps,abs=c['steps'],idx=idx)
def combine(c,r):
    obs=[]
    for k in c['idx']:
        o=[];n=dict(L0002=0,L0003=0,L0004=0)
        for x in r['obs'][k]['v']:
            for d in x['d']:
                code,l=d.split(':')
                if code in n: n[code]+=1
            for d in dict.fromkeys(x['d']):
                code,l=d.split(':')
                if code not in n: o.append(dict(f=x['f'],l=int(l),c=code))
        obs.append(dict(d=o,n=n))
    ab=[]
    for m in c['abs']:
        m={k:v for k,v in m.items() if k not in('n','w') or m['a']=='lim'}
        if m['a']=='conf': m['c']=strip(m['c'])
        ab.append(m)
    return dict(disk=c['disk'],dirs=c['dirs'],plain=c['plain'],conf={f:strip(k) for f,k in c['conf'].items()},ws=c['ws'],parms=PARMS,asks=ASKS,steps=ab,obs=obs)
FOLD=['w','w2','w/sub']
PROGS=['P1','pgm.asm','a+b.hlasm','src/P1','src/x/P2','A(1)','p[1]','P$1','x-y=z','P!1','a|b','P^1','P{1}','P1.','P','aab']
EXT=['mac','.mac','.asm','hlasm','.x.mac']
def entry(d,b,k): return dict(d=d,b=b,k=k)
def rfile(r,dirs):
    d=r.choice(dirs); n=r.choice(NAMES); k='cpy' if n[0]=='C' else 'mac'
    b=n if r.random()<.7 else n.lower() if r.random()<.3 else n.capitalize()
    if r.random()<.5: b+=r.choice(['.mac','.asm','.hlasm','.x.mac','.Mac','.'])
    return d+'/'+b,entry(d,b,k)
def rpat(r):
    p=r.choice(PROGS)
    if r.random()<.35: return p
    for _ in range(r.randint(1,3)):
        i=r.randint(0,len(p)); j=r.randint(i,min(len(p),i+4))
        k=r.random()
        p=p[:i]+('*' if k<.5 else '?'*max(1,j-i) if k<.9 else '**')+p[j:]
    return p
def rlib(r,f,dirs):
    d=r.choice(dirs)
    rel=os.path.relpath(d,f)
    p=r.choice([rel,rel+'/','./'+rel,'x/../'+rel,'@ROOT@/'+d,'@ROOT@/'+d+'/'])
    return dict(d=d,p=p,opt=r.random()<.3,exts=r.sample(EXT,r.randint(1,2)) if r.random()<.2 else [],obj=r.random()<.3)
def rconf(r,f,dirs):
    gs=[dict(n=r.choice(['G','H','I']) ,libs=[rlib(r,f,dirs) for _ in range(r.randint(0,3))],parm=r.choice(['','A','BB','B'])) for _ in range(r.randint(0,3))]
    if r.random()<.03 and gs: gs[-1]['parm']='Z'*r.choice([255,256])
    return dict(groups=gs,pgms=[dict(p=rpat(r),g=r.choice(['G','H','I'])) for _ in range(r.randint(0,5))],exts=r.sample(EXT,r.randint(1,3)) if r.random()<.3 else [],
        always=[r.choice(['*.mac','x/*.asm','*.x.mac','abc','*','?.hlasm']) for _ in range(r.randint(0,2))] if r.random()<.25 else [],lim=r.choice([-1,-1,0,1,3,20]))
def rprobe(r):
    f=r.choice(FOLD+['w','w','w3','w2x','z']); ns=r.sample(NAMES+['MACD','CPYB'],r.randint(1,4))
    return dict(a='probe',f=f+'/'+r.choice(PROGS),s=[dict(k='copy' if n[0]=='C' else 'call',n=n) for n in ns])
def rand(s,n,size):
    r=s.rng;out=[]
    for _ in range(n):
        dirs=['w/l1','w/l2','w/l1/l3','w2/l1','ext/l','w/sub/l4']; exist=[d for d in dirs if r.random()<.85]
        disk=dict(rfile(r,exist or ['w/l1']) for _ in range(r.randint(0,8)))
        # two spellings of one name with no extension rule are left out: which is taken is not determined
        seen={};
        for p,e in list(disk.items()):
            if seen.setdefault((e['d'],e['b'].upper()),p)!=p: del disk[p]
        exist=sorted(set(exist)|{e['d'] for e in disk.values()}); exist=[d for d in dirs if any(x==d or x.startswith(d+'/') for x in exist)]
        plain=[d for d in dirs if d not in exist and r.random()<.4 and (d!='w/l1/l3' or 'w/l1' in exist)]
        names={f:r.choice(['n1','n1','n2']) for f in FOLD}
        conf={f:rconf(r,f,dirs) for f in FOLD if r.random()<.8}
        ws=[f for f in FOLD if r.random()<.7] or ['w']; act=list(ws)
        c=dict(disk=dict(disk),dirs=exist,plain=plain,conf=dict(conf),ws=ws,names=names,steps=[])
        for _ in range(r.randint(2,size)):
            k=r.random()
            if k<.65: c['steps'].append(rprobe(r))
            elif k<.8:
                f=r.choice(FOLD); c['steps'].append(dict(a='conf',f=f,c=rconf(r,f,dirs),w=r.choice([PC,PG])))
            elif k<.88:
                p,e=rfile(r,exist or ['w/l1'])
                if e['d'] not in exist or (e['d'],e['b'].upper()) in {(x['d'],x['b'].upper()) for q,x in disk.items() if q!=p}: continue
                disk[p]=e; c['steps'].append(dict(a='put',f=p,r=e))
            elif k<.92 and disk:
                p=r.choice(sorted(disk)); del disk[p]; c['steps'].append(dict(a='del',f=p))
            elif k<.97:
                f=r.choice(FOLD)
                if f in act: act.remove(f); c['steps'].append(dict(a='rem',f=f,n=names[f]))
                else: act.append(f); c['steps'].append(dict(a='add',f=f,n=names[f]))
            else: c['steps'].append(dict(a='lim',n=r.choice([0,2,5,30])))
        c['steps'].append(rprobe(r)); out.append(render(c))
    return out
def wild(s,pl,fl,cap):
    """every wildcard pattern over a small alphabet against every short name: one group per pattern, the parameter tells which was chosen"""
    al=['a','*','?','.','+']
    pats=[''.join(x) for k in range(1,pl+1) for x in itertools.product(al,repeat=k)]
    names=[''.join(x) for k in range(1,fl+1) for x in itertools.product('ab.+',repeat=k) if ''.join(x) not in('.','..')]
    if cap and len(pats)>cap: pats=s.rng.sample(pats,cap)
    out=[]
    for p in pats:
        conf=dict(groups=[dict(n='G',libs=[],parm='A')],pgms=[dict(p=p,g='G')],exts=[],always=[],lim=-1)
        out.append(render(dict(disk={'q/M':entry('q','M','mac')},dirs=[],plain=[],conf={'w':conf},ws=['w'],names={'w':'n'},steps=[dict(a='probe',f='w/'+n,s=[dict(k='call',n='MACA')]) for n in names])))
    return out
def dev(s,n): return wild(s,2,3,0)+rand(s,n,10)
def body(s):
    build(['vp_srv']); q=s.quick
    s.model('MC_LibResolve','MC_LibResolve.cfg')
    g=lambda cs,l: s.conform('vp_srv','ws',cs,MOD,MOD+'.cfg',combine=combine,label=l,chunk=1500)
    g(wild(s,4 if q else 5,3,250 if q else 0),'wildcard patterns against all short names')
    g(rand(s,2500 if q else 30000,12),'random configurations, folders and members')
if __name__=='__main__': Check('C06').main(body)
