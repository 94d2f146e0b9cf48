#!/usr/bin/env python3
"""Builds the drivers (and optionally the real language_server) from /repo's working tree into /verif/build."""
import hashlib, json, shutil, os, subprocess, sys, time, fcntl
ROOT=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get('VP_REPO','/repo')
B=os.path.join(ROOT,'build'); D='/opt/vp/deps'
TARGETS=['vp_lib','vp_srv']
SRC_DIRS=['parser_library','language_server','utils','cmake','benchmark']
def tree_hash():
    h={}
    def add(p):
        try: h[p]=hashlib.sha256(open(p,'rb').read()).hexdigest()
        except OSError: pass
    add(os.path.join(REPO,'CMakeLists.txt'))
    for d in SRC_DIRS:
        for r,ds,fs in os.walk(os.path.join(REPO,d)):
            ds[:]=[x for x in ds if x not in('test','res','node_modules','.git')]
            for f in fs: add(os.path.join(r,f))
    return h
def run(cmd,log,env):
    with open(log,'a') as f:
        f.write('+ '+' '.join(cmd)+'\n'); f.flush()
        return subprocess.run(cmd,stdout=f,stderr=subprocess.STDOUT,env=env).returncode
def build(targets=None,quiet=True):
    targets=targets or TARGETS
    os.makedirs(B,exist_ok=True)
    lock=open(os.path.join(B,'lock'),'w'); fcntl.flock(lock,fcntl.LOCK_EX)
    log=os.path.join(B,'build.log'); open(log,'w').close()
    env=dict(os.environ,CC='gcc',CXX='g++',LC_ALL='C.UTF-8',PATH=os.path.join(B,'bin')+':'+os.environ['PATH'],
             CCACHE_DIR=os.path.join(B,'ccache'),CCACHE_MAXSIZE='4G',CCACHE_SLOPPINESS='time_macros',CCACHE_NOHASHDIR='1')
    env.pop('VERIF_SEED',None); env.pop('VERIF_TIER',None)
    O=os.path.join(B,'obj'); stampf=os.path.join(B,'stamp.json')
    cur=tree_hash(); now=time.time()
    old={}
    try: old=json.load(open(stampf))
    except Exception: pass
    if old:
        changed=[p for p in set(cur)|set(old['hash']) if cur.get(p)!=old['hash'].get(p)]
        # a changed file whose time stamp is not newer than the last build would be invisible to ninja
        stale=[p for p in changed if not os.path.exists(p) or os.path.getmtime(p)<=old['time']]
        if stale and os.path.exists(os.path.join(O,'build.ninja')):
            for p in stale:
                if os.path.exists(p): pass
            run(['ninja','-C',O,'-t','clean'],log,env)
    elif os.path.exists(os.path.join(O,'build.ninja')):
        run(['ninja','-C',O,'-t','clean'],log,env)
    # ANTLR's build writes its jar into its source tree: build from a private copy
    A=os.path.join(B,'antlr4cpp')
    if not os.path.isdir(A):
        shutil.copytree(D+'/antlr4cpp',A+'.tmp',symlinks=True); os.rename(A+'.tmp',A)
    os.makedirs(os.path.join(B,'bin'),exist_ok=True); mvn=os.path.join(B,'bin','mvn')
    open(mvn,'w').write('#!/bin/bash\nexec bash '+A+'/bridge/make.sh\n'); os.chmod(mvn,0o755)
    launcher=['-DCMAKE_CXX_COMPILER_LAUNCHER=ccache'] if subprocess.run(['which','ccache'],capture_output=True).returncode==0 else []
    cfg=['cmake','-S',REPO,'-B',O,'-G','Ninja','-DCMAKE_BUILD_TYPE=None','-DBUILD_TESTING=OFF','-DCMAKE_CXX_FLAGS=-O1 -DNDEBUG -w -DVP_VERIF',
      '-DDISCOVER_TESTS=Off','-DBUILD_VSIX=Off','-DFETCHCONTENT_FULLY_DISCONNECTED=ON','-DFETCHCONTENT_SOURCE_DIR_ANTLR4CPP='+A,
      '-DFETCHCONTENT_SOURCE_DIR_JSON='+D+'/json','-DFETCHCONTENT_SOURCE_DIR_URI_EXT='+ROOT+'/harness/uri','-DFETCHCONTENT_SOURCE_DIR_BOOST_EXT='+D+'/asio',
      '-DVP_HARNESS_DIR='+ROOT+'/harness','-DCMAKE_PROJECT_HlasmServer_INCLUDE='+ROOT+'/harness/vp_project.cmake']+launcher
    if run(cfg,log,env)!=0: return False,log
    if run(['ninja','-C',O,'-j8']+targets,log,env)!=0: return False,log
    json.dump(dict(hash=cur,time=now),open(stampf,'w'))
    return True,log
if __name__=='__main__':
    t=time.time(); ok,log=build(sys.argv[1:] or None)
    print('build',('ok' if ok else 'FAILED, see '+log),round(time.time()-t,1),'s')
    if not ok:
        print('\n'.join(l[:300] for l in open(log).read().split('\n') if 'error' in l or 'FAILED' in l)[:4000])
    sys.exit(0 if ok else 2)
