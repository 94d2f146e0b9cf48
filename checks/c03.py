#!/usr/bin/env python3
import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','bin'))
from vplib import *
import itertools
MOD='Trace_LspSession'; DRV=('vp_srv','session'); SRV=1
# ------------------------------------------------------------------ framing
def canon(b):
    """canonical JSON text of a body, None when the body is no JSON text (generated bodies are built to be decidable)"""
    return b[1]
def jd(v): return json.dumps(v,separators=(',',':'),sort_keys=True,ensure_ascii=False).encode()
VALS=[0,7,-1,'x','','a b',"\u00e9","\u20ac\U0001F600",'\r\n\r\n','Content-Length: 5\r\n\r\n','\\"',[],{},[1,2,3],{'a':1},{'a':{'b':['\u010d',None,True,False]}},'\u0000\u0001\t',{'jsonrpc':'2.0','id':1,'method':'m','params':{'t':'A\nB\r\nC'}}]
def body_of(rng):
    """(bytes of the body, canonical bytes or None)"""
    k=rng.random()
    if k<.18:
        b=rng.choice([b'{',b'}',b'{"a":}',b'hello',b'[1,2',b'"abc',b'{"a":1}}',b'\x00',b'tru',b'\r\n',b'Content-Length: 3\r\n\r\n',b'{} {}',b'01'])
        return b,None
    v=rng.choice(VALS)
    if rng.random()<.3: v={'k':[rng.choice(VALS),rng.choice(VALS)]}
    if rng.random()<.05: v='x'*rng.choice([1,10,500,1023,1024,1025,4096])
    st=rng.random()
    if st<.4: b=jd(v)
    elif st<.6: b=json.dumps(v,ensure_ascii=True).encode()
    elif st<.8: b=json.dumps(v,indent=2,ensure_ascii=False).replace('\n','\r\n' if rng.random()<.5 else '\n').encode()
    else: b=b' \r\n\t'+jd(v)+b'\n '
    return b,jd(v)
OTH=[b'Content-Type: application/vscode-jsonrpc; charset=utf-8',b'X: y',b'content-other: 12',b'Content-Type: Content-Length: 9',b'Content-LengthX: 4',b'A:']
def frame(rng,b):
    h=[rng.choice(OTH) for _ in range(rng.choice([0,0,0,1,1,2]))]
    h.insert(rng.randint(0,len(h)),b'Content-Length: '+str(len(b)).encode())
    return b''.join(x+b'\r\n' for x in h)+b'\r\n'+b
def fcase(rng,n,cut=None):
    s=b'';valid=[];seen=set()
    for _ in range(n):
        b,c=body_of(rng); s+=frame(rng,b)
        if c is not None and b not in seen: valid.append(dict(b=list(b),c=list(c))); seen.add(b)
    if cut is not None: s=s[:rng.randint(0,len(s))]
    return dict(**{'in':list(s)},valid=valid,chunks=rng.choice([[],[1],[2],[3,1],[16],[5,1,64],[rng.randint(1,40) for _ in range(5)]]))
def fframe(s,n):
    r=s.rng
    return [fcase(r,r.randint(0,4),None if r.random()<.7 else 1) for _ in range(n)]
def fcuts():
    """every cut of, and every chunk size on, a fixed stream"""
    out=[]
    bs=[(b'{"a":"\xc3\xa9\\r\\n"}','{"a":"\u00e9\\r\\n"}'.encode()),(b'nope',None),(b' [1, 2]\r\n',b'[1,2]')]
    s=b'Content-Length: %d\r\nX: y\r\n\r\n'%len(bs[0][0])+bs[0][0]+b'X: 1\r\nContent-Length: %d\r\n\r\n'%len(bs[1][0])+bs[1][0]+b'Content-Length: %d\r\n\r\n'%len(bs[2][0])+bs[2][0]
    v=[dict(b=list(b),c=list(c)) for b,c in bs if c]
    for i in range(len(s)+1): out.append(dict(**{'in':list(s[:i])},valid=v,chunks=[3]))
    for k in range(1,len(s)+1): out.append(dict(**{'in':list(s)},valid=v,chunks=[k]))
    return out
def fcomb(c,r): return dict(**{'in':c['in']},valid=c['valid'],got=r.get('got'),out=r.get('out'))
# ------------------------------------------------------------------ sessions
U='file:///c%3A/doc1'
TD={'textDocument':{'uri':U}}
def pos(l=0,c=0): return dict(TD,position={'line':l,'character':c})
OPEN={'textDocument':{'uri':U,'languageId':'hlasm','version':1,'text':' LR 1,2\nA EQU 1\n MACRO\n M\n MEND\n M\n'}}
REQ=[('initialize',{'processId':1,'rootUri':None,'capabilities':{}}),('initialize',{'capabilities':{'workspace':{'workspaceFolders':True}},'workspaceFolders':[{'uri':'file:///nowhere','name':'n'}]}),
 ('textDocument/definition',pos(1,1)),('textDocument/references',pos()),('textDocument/hover',pos(5,1)),('textDocument/hover',pos(500,1000)),
 ('textDocument/completion',dict(pos(0,1),context={'triggerKind':1})),('textDocument/completion',dict(pos(0,1),context={'triggerKind':2,'triggerCharacter':'&'})),('textDocument/semanticTokens/full',TD),
 ('textDocument/definition',{'textDocument':{'uri':'file:///unknown'},'position':{'line':3,'character':3}}),('textDocument/hover',{'textDocument':{'uri':'file:///unknown'},'position':{'line':3,'character':3}}),
 ('textDocument/references',{'textDocument':{'uri':'file:///unknown'},'position':{'line':0,'character':0}}),('textDocument/semanticTokens/full',{'textDocument':{'uri':'file:///unknown'}}),
 ('textDocument/completion',{'textDocument':{'uri':'file:///unknown'},'position':{'line':0,'character':0},'context':{'triggerKind':1}})]
NOTE=[('initialized',{}),('textDocument/didOpen',OPEN),('textDocument/didChange',{'textDocument':{'uri':U,'version':2},'contentChanges':[{'text':' SAM64\nB EQU A\n'}]}),
 ('textDocument/didChange',{'textDocument':{'uri':U,'version':3},'contentChanges':[{'range':{'start':{'line':0,'character':0},'end':{'line':0,'character':1}},'text':'X '}]}),
 ('textDocument/didClose',TD),('$/cancelRequest',{'id':1}),('workspace/didChangeConfiguration',{'settings':{}}),('workspace/didChangeWatchedFiles',{'changes':[{'uri':'file:///x','type':1}]}),
 ('workspace/didChangeWorkspaceFolders',{'event':{'added':[],'removed':[]}}),('unknown/notification',{'a':[]}),('textDocument/didSave',TD)]
# malformed or unsupported, sent with or without an id; a parameter object that lacks something or has another type
BADP=[{},[],'x',5,{'textDocument':{}},{'textDocument':{'uri':5}},{'textDocument':'a'},{'textDocument':None},dict(TD,position={}),dict(TD,position={'line':'a','character':0}),{'position':{'line':0,'character':0}}]
NEEDP=['textDocument/definition','textDocument/references','textDocument/hover','textDocument/completion']
BADN=[('textDocument/didOpen',p) for p in BADP[:8]]+[('textDocument/didOpen',{'textDocument':{'uri':U,'version':'a','text':'x'}}),('textDocument/didOpen',{'textDocument':{'uri':U,'version':1}}),
 ('textDocument/didChange',{'textDocument':{'uri':U,'version':2}}),('textDocument/didChange',{'textDocument':{'uri':U,'version':2},'contentChanges':[{}]}),('textDocument/didChange',{'textDocument':{'uri':U,'version':2},'contentChanges':[{'range':{},'text':''}]}),
 ('textDocument/didChange',{'textDocument':{'uri':'file:///unknown','version':2},'contentChanges':[{'text':'A'}]}),('textDocument/didClose',{}),('textDocument/didClose',{'textDocument':{'uri':'file:///unknown'}}),
 ('workspace/didChangeWatchedFiles',{}),('workspace/didChangeWatchedFiles',{'changes':[{}]}),('workspace/didChangeWorkspaceFolders',{}),('workspace/didChangeWorkspaceFolders',{'event':{'added':[{}],'removed':[{}]}}),('workspace/didChangeWorkspaceFolders',{'event':{'added':[],'removed':[{'uri':'file:///gone','name':'x'}]}})]
RAW=['[]','{}','5','"x"','null','true','[{"jsonrpc":"2.0","method":"exit","params":{}}]','{"method":5,"params":{}}','{"method":null,"params":null}','{"method":"exit"}','{"params":{}}','{"id":{},"result":{}}','{"id":"register1","result":{}}','{"id":"config_request_0","result":[]}','{"id":"config_request_0","result":"x"}','{"id":99,"error":{}}','{"error":5}','{"result":null}','{"id":[1],"error":{"message":"m"}}',
 '{"jsonrpc":"2.0","id":"config_request_0","result":[{"diagnosticsSuppressLimit":10}]}']
IDS=[lambda k:k,lambda k:'s%d'%k,lambda k:-k,lambda k:'"\u010d \\%d'%k,lambda k:2147483648+k]
def enc(m,i,p,k):
    """(abstract message, text)"""
    d={'jsonrpc':'2.0','method':m,'params':p}
    if i is not None: d['id']=i
    return k,('' if i is None else json.dumps(i,ensure_ascii=False)),json.dumps(d,ensure_ascii=False)
def mk(rng,k,n):
    i=rng.choice(IDS)(n)
    if k=='req': return enc(*((lambda t:(t[0],i,t[1]))(rng.choice(REQ))),'req')
    if k=='note': m,p=rng.choice(NOTE); return enc(m,None,p,'note')
    if k=='shutdown': return enc('shutdown',i,rng.choice([{},None,[]]),'shutdown')
    if k=='exit': return enc('exit',None,rng.choice([{},None]),'exit')
    r=rng.random()
    if r<.3: return 'odd','',rng.choice(RAW)
    if r<.55: m,p=rng.choice(BADN); return enc(m,None,p,'odd')
    if r<.8: return enc(rng.choice(NEEDP),i,rng.choice(BADP),'odd')
    if r<.9: return enc(rng.choice(['unknown/request','','textDocument/rename','workspace/symbol']),i,{},'odd')
    return enc(rng.choice(NEEDP),None,rng.choice(BADP),'odd')
def case(ms,a): return dict(kinds=[dict(k=k,id=i) for k,i,_ in ms],msgs=[t for _,_,t in ms],**{'async':a})
def sess(s,n,size,a):
    out=[]
    for _ in range(n):
        ms=[];ex=False
        for j in range(s.rng.randint(1,size)):
            k=s.rng.choice(['req']*5+['note']*5+['odd']*5+['shutdown','exit'] if j>2 else ['req','note','odd','shutdown'])
            if ex and a and k in('shutdown','exit'): continue   # whether a message behind exit is still read is a matter of timing
            ex=ex or k=='exit'; ms.append(mk(s.rng,k,j+1))
        if s.rng.random()<.5 and not ex: ms+=[mk(s.rng,'shutdown',90),mk(s.rng,'exit',91)][s.rng.randint(0,1):]
        out.append(case(ms,a))
    return out
def words(s,n,a):
    out=[]
    for w in itertools.product(['req','note','odd','shutdown','exit'],repeat=n):
        if a and 'exit' in w and any(x in('shutdown','exit') for x in w[w.index('exit')+1:]): continue
        out.append(case([mk(s.rng,k,i+1) for i,k in enumerate(w)],a))
    return out
def every(s,a):
    """every odd message and note alone between two requests, ended properly"""
    out=[];r=s.rng
    odd=[('odd','',x) for x in RAW]+[enc(m,None,p,'odd') for m,p in BADN]+[enc(m,i,p,'odd') for m in NEEDP for p in BADP for i in(None,5)]+[enc(m,None,p,'note') for m,p in NOTE]+[enc(m,i,p,'odd') for m,p in NOTE for i in(6,)]
    for o in odd:
        out.append(case([enc(*('initialize',1,REQ[0][1]),'req'),enc('textDocument/didOpen',None,OPEN,'note'),o,enc('textDocument/hover',2,pos(5,1),'req'),enc('shutdown',3,{},'shutdown'),enc('exit',None,{},'exit')],a))
    return out
def combine(c,r): return dict(msgs=c['kinds'],**{k:r.get(k) for k in('resp','ret','framed')})
def dev(s,n): return every(s,False)+every(s,True)+sess(s,n//2,10,False)+sess(s,n//2,10,True)
def body(s):
    build(['vp_srv']); q=s.quick
    s.model('MC_BaseProtocol','MC_BaseProtocol.cfg')
    s.model('MC_LspLifecycle','MC_LspLifecycle.cfg')
    f=lambda cs,l: s.conform('vp_srv','frame',cs,'Trace_BaseProtocol','Trace_BaseProtocol.cfg',combine=fcomb,label=l,chunk=2000)
    f(fcuts(),'framing: every cut and chunk size of a fixed stream')
    f(fframe(s,2000 if q else 40000),'framing: random streams')
    g=lambda cs,l: s.conform('vp_srv','session',cs,MOD,MOD+'.cfg',combine=combine,label=l,timeout=60,chunk=5000)
    for a in(False,True):
        m='asynchronous' if a else 'synchronous'
        g(every(s,a)+sum([words(s,n,a) for n in range(1,5 if q else 7)],[]),'every odd message, and all sequences of up to %d message kinds, %s'%(4 if q else 6,m))
        g(sess(s,1200 if q else 20000,12,a),'random sessions, '+m)
if __name__=='__main__': Check('C03').main(body)
