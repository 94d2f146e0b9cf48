"""Shared machinery: build, run drivers, run TLC, report."""
import json, os, re, subprocess, sys, time, random, shutil, hashlib
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,os.path.join(ROOT,'bin'))
import build as _build
SPEC=os.path.join(ROOT,'spec'); OUT=os.path.join(ROOT,'out'); BIN=os.path.join(ROOT,'build','obj','bin')
NPROC=8
class CheckError(Exception): pass
class Violation(Exception):
    def __init__(s,what,case,detail=''): s.what=what; s.case=case; s.detail=detail
def seed(): return int(os.environ.get('VERIF_SEED','1') or 1)
def tier(): return os.environ.get('VERIF_TIER','quick') or 'quick'
def log(*a): print(*a,file=sys.stderr,flush=True)
def build(targets):
    ok,lg=_build.build(targets)
    if not ok: raise CheckError('build failed, see '+lg)
_n=[0]
def scratch(pid):
    d=os.path.join(OUT,pid); os.makedirs(d,exist_ok=True); return d
def run_driver(binary,mode,cases,outdir,timeout=20,shards=NPROC,tag='r',env=None,wall=700):
    """cases: list of dicts; returns list of result dicts in the same order."""
    for i,c in enumerate(cases): c['id']=i
    shards=max(1,min(shards,len(cases)//4 or 1)); procs=[]
    for s in range(shards):
        ci=os.path.join(outdir,f'{tag}.in{s}.ndjson'); co=os.path.join(outdir,f'{tag}.out{s}.ndjson')
        with open(ci,'w') as f:
            for c in cases[s::shards]: f.write(json.dumps(c)+'\n')
        e=dict(os.environ); e.update(env or {})
        wd=os.path.join(outdir,f'{tag}.wd{s}'); shutil.rmtree(wd,ignore_errors=True); os.makedirs(wd)
        procs.append((subprocess.Popen([os.path.join(BIN,binary),mode,ci,co,str(timeout)],stdout=subprocess.DEVNULL,stderr=open(co+'.err','w'),env=e,cwd=wd),ci,co,wd))
    res={}
    end=time.time()+wall
    for p,ci,co,wd in procs:
        try: p.wait(timeout=max(1,end-time.time()))
        except subprocess.TimeoutExpired:
            for q,*_ in procs: q.kill()
            raise CheckError('driver did not finish in time')
        if p.returncode!=0: raise CheckError(f'driver {binary} {mode} failed rc={p.returncode}: '+open(co+'.err').read()[-500:])
        for l in open(co):
            r=json.loads(l); res[r['id']]=r
        os.unlink(ci); os.unlink(co); os.unlink(co+'.err'); shutil.rmtree(wd,ignore_errors=True)
    if len(res)!=len(cases): raise CheckError('driver lost cases')
    return [res[i] for i in range(len(cases))]
class Tlc:
    def __init__(s): s.states=0; s.distinct=0; s.violated=None; s.out=''; s.state={}
def tlc(module,cfg,outdir,env=None,workers=NPROC,extra=(),timeout=600,heap='6g',tag=None,gc='-XX:+UseParallelGC'):
    tag=tag or module
    meta=os.path.join(outdir,'tlcmeta.'+tag); shutil.rmtree(meta,ignore_errors=True)
    cmd=['java',gc,'-Xmx'+heap,'-Xss64m','-cp','/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar','tlc2.TLC',
         '-workers',str(workers),'-metadir',meta,'-noGenerateSpecTE','-config',cfg,*extra,module+'.tla']
    e=dict(os.environ); e.update(env or {})
    try: p=subprocess.run(cmd,cwd=SPEC,env=e,capture_output=True,text=True,timeout=timeout)
    except subprocess.TimeoutExpired: raise CheckError(f'TLC timeout on {module}/{cfg}')
    finally: shutil.rmtree(meta,ignore_errors=True)
    t=Tlc(); t.out=p.stdout
    open(os.path.join(outdir,f'tlc.{tag}.log'),'w').write(p.stdout+p.stderr)
    m=re.findall(r'([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct',p.stdout)
    if m: t.states,t.distinct=[int(x.replace(',','')) for x in m[-1]]
    else:
        m=re.findall(r'The number of states generated: ([\d,]+)',p.stdout)
        if m: t.states=int(m[-1].replace(',',''))
    if p.returncode==0: return t
    m=re.search(r'Error: (Invariant (\S+) is violated|Temporal properties were violated|Deadlock reached|Action property (\S+) is violated|The postcondition .* is violated)',p.stdout)
    if p.returncode in(10,11,12,13) and m:
        t.violated=m.group(1)
        blocks=re.split(r'\nState \d+: ',p.stdout)
        t.laststate=blocks[-1] if len(blocks)>1 else p.stdout
        return t
    raise CheckError(f'TLC failed rc={p.returncode} on {module}/{cfg}: '+(p.stdout+p.stderr)[-1500:])
def write_trace(path,recs):
    with open(path,'w') as f:
        for r in recs: f.write(json.dumps(r)+'\n')
def validate(module,cfg,recs,outdir,tag='trace',timeout=600,chunk=None,workers=NPROC,heap='3g',extra=()):
    """Validates recorded behaviours in parallel single-worker TLC processes; returns (bad index or None, states, laststate)."""
    from concurrent.futures import ThreadPoolExecutor
    n=max(1,min(NPROC,len(recs)//25)); size=(len(recs)+n-1)//n or 1
    if chunk and size>chunk: size=chunk
    parts=[(o,recs[o:o+size]) for o in range(0,len(recs),size)]
    def one(a):
        k,(o,part)=a
        tf=os.path.join(outdir,f'{tag}.{k}.ndjson'); write_trace(tf,part)
        t=tlc(module,cfg,outdir,env={'VP_TRACE':tf},workers=1,timeout=timeout,tag=f'{tag}.{k}',heap=heap,extra=extra,gc='-XX:+UseSerialGC')
        os.unlink(tf); return o,t
    states=dist=0; bad=None
    with ThreadPoolExecutor(NPROC) as ex: res=list(ex.map(one,enumerate(parts)))
    for o,t in res:
        states+=t.states; dist+=t.distinct
        if t.violated and bad is None:
            m=re.search(r'/\\ ci = (\d+)',t.laststate)
            if not m: raise CheckError('cannot locate rejected behaviour: '+t.laststate[:800])
            bad=(o+int(m.group(1))-1,t.laststate)
    if bad: return bad[0],(states,dist),bad[1]
    return None,(states,dist),None
def known(pid):
    p=os.path.join(ROOT,'known','findings.json')
    return [k for k in json.load(open(p)) if k.get('property')==pid and k.get('status')=='known'] if os.path.exists(p) else []
class Check:
    """One property check: subclasses/instances set the fields and call main()."""
    def __init__(s,pid,level='model_checking'):
        s.pid=pid; s.level=level; s.t0=time.time(); s.states=0; s.trans=0; s.traces=0; s.samples=[]; s.cov={}; s.assumptions=[]
        s.dir=scratch(pid); s.rng=random.Random(seed()*1000003+int(pid[1:])); s.viol=0
        s.quick=tier()!='thorough'
    def model(s,module,cfg,**kw):
        t=tlc(module,cfg,s.dir,**kw)
        if t.violated: raise CheckError(f'specification {module}/{cfg} violates its own property: {t.violated}')
        s.states+=t.distinct or t.states; s.trans+=t.states
        s.cov.setdefault('models',[]).append(dict(module=module,cfg=cfg,states=t.states,distinct=t.distinct))
        return t
    def conform(s,binary,mode,cases,module,cfg,combine=None,timeout=20,chunk=None,label=None,tlc_timeout=600,shards=NPROC,env=None,heap='3g',workers=NPROC,rerun=True,simplify=None):
        """Runs cases on the real code, validates the recorded behaviour against the spec; rejections are re-run."""
        comb=combine or (lambda c,r:dict(c,**r))
        res=run_driver(binary,mode,cases,s.dir,timeout=timeout,shards=shards,env=env)
        recs=[comb(c,r) for c,r in zip(cases,res)]
        for i,r in enumerate(res):
            if 'crash' in r or 'exception' in r:
                r2=run_driver(binary,mode,[dict(cases[i])],s.dir,timeout=timeout*2,tag='re',env=env)[0]
                if 'crash' in r2 or 'exception' in r2: s.violation(f"{mode}: {r2.get('crash') or r2.get('exception')}",cases[i],r2)
                recs[i]=comb(cases[i],r2)
        bad,st,last=validate(module,cfg,recs,s.dir,chunk=chunk,timeout=tlc_timeout,heap=heap,workers=workers)
        s.trans+=st[0]; s.states+=st[1]
        if bad is not None:
            c=dict(cases[bad]); r2=run_driver(binary,mode,[c],s.dir,timeout=timeout*2,tag='re',env=env)[0]
            b2,_,last2=validate(module,cfg,[comb(c,r2)],s.dir,tag='re')
            if b2 is None: raise CheckError('a rejected behaviour was accepted on re-run (not reported): '+json.dumps(c)[:500])
            s.violation(f'{mode}: recorded behaviour rejected by {module}',comb(c,r2),last2)
        s.traces+=len(recs)
        s.cov.setdefault('conformance',[]).append(dict(label=label or mode,behaviours=len(recs),spec=module,states=st[0]))
        if recs: s.samples.append(json.loads(json.dumps(recs[len(recs)//2])) if len(json.dumps(recs[len(recs)//2]))<4000 else json.dumps(recs[len(recs)//2])[:4000])
        return recs
    def findings(s,binary,mode):
        """recorded defects that are not repaired: reported, never an alarm"""
        for k in known(s.pid):
            if 'case' not in k: continue
            r=run_driver(binary,mode,[dict(k['case'])],s.dir,tag='kf')[0]
            if all(r.get(x)==y for x,y in k['observed'].items()): print(f"KNOWN-FINDING: property={s.pid} {k['what']}",flush=True)
    def violation(s,what,case,detail=''):
        raise Violation(what,case,detail)
    def evidence(s):
        os.makedirs(os.path.join(ROOT,'evidence'),exist_ok=True)
        cov=dict(states=s.states,transitions=s.trans,traces_validated_against_impl=s.traces,samples=s.samples[:3] or ['none'])
        cov.update(s.cov)
        json.dump(dict(property=s.pid,tier=tier() if tier() in('quick','thorough') else 'quick',seed=seed(),level=s.level,coverage=cov,assumptions=s.assumptions,
             wall_s=round(time.time()-s.t0,1),violations=s.viol),open(os.path.join(ROOT,'evidence',s.pid+'.json'),'w'),indent=1)
    def main(s,body):
        rc=0
        try: body(s)
        except Violation as v:
            s.viol=1
            rp=os.path.join(s.dir,'replay.json')
            json.dump(dict(property=s.pid,what=v.what,case=v.case,detail=v.detail),open(rp,'w'),indent=1)
            print(v.what); print(str(v.detail)[:3000])
            print(f'VIOLATION property={s.pid} replay={rp}',flush=True); rc=1
        except CheckError as e:
            print('CHECK-ERROR:',e,flush=True); rc=3
        s.evidence()
        print(f'{s.pid}: rc={rc} states={s.states} transitions={s.trans} behaviours={s.traces} wall={time.time()-s.t0:.1f}s',flush=True)
        sys.exit(rc)
