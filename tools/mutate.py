#!/usr/bin/env python3
"""Single-token changes of every function's source (a comparison, an arithmetic operator, a constant, a dropped statement), each put
through the proofs alone in a scratch copy. FAIL: an obligation fails. SURV: all are discharged (read it: equivalent, or the contract is
too weak). SAME: extraction drops the text (messages). LOST, NORES: the proof does not decide (the search does).
usage: mutate.py SCRATCH [FILE...]; JOBS, FRAC in the environment. Needs build/rx (setup.sh)."""
import re,os,subprocess,sys,glob,random,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__))); T=sys.argv[1]; RX=V+'/build/rx/release/rx'
os.makedirs(T+'/repo',exist_ok=True); os.makedirs(T+'/new',exist_ok=True)
subprocess.run('git -C /repo archive HEAD | tar x -C %s/repo'%T,shell=True,check=True)
from concurrent.futures import ThreadPoolExecutor
SRC=T+'/repo'
FILES=[f for g in ('packages/zkenc-cli/src/*.rs','packages/zkenc-core/src/*.rs','packages/zkenc-js/src/*.rs','packages/zkenc-js/src/*.ts') for f in glob.glob(SRC+'/'+g)]
W=int(os.environ.get('JOBS','6'))
def units(f):
    out=[]
    for u in sorted(glob.glob(V+'/proofs/*.vr')):
        n=os.path.basename(u)[:-3]
        if n.startswith(('shim','spec','interop')) or n.endswith('body'): continue
        d=open(u).read(); d+=''.join(open(V+'/proofs/'+x).read() for x in re.findall(r'//@@ include (\S+)',d))
        if re.search(r'//@@ file \w+ (%s|ts:%s)\s'%(re.escape(f),re.escape(os.path.basename(f)) if f.endswith('.ts') else 'NONE'),d): out.append(n)
    return out

OPS=[(r' < ',' <= '),(r' <= ',' < '),(r' > ',' >= '),(r' >= ',' > '),(r' == ',' != '),(r' != ',' == '),(r' === ',' !== '),(r' !== ',' === '),(r' \+ ',' - '),(r' - ',' + '),(r' \* ',' + '),(r' \+= ',' -= '),(r' && ',' || '),(r' \|\| ',' && '),(r'\btrue\b','false'),(r'\bfalse\b','true'),(r'if !','if '),(r'\.\.=','..'),(r'\bcontinue;',';'),(r'\.is_some\(\)','.is_none()'),(r'\.is_empty\(\)','.len() == 1'),(r'if \(!','if ('),(r' >>= ',' <<= '),(r' % ',' / ')]
def muts(f,t):
    L=t.split('\n'); cut=next((i for i,l in enumerate(L) if '#[cfg(test)]' in l),len(L)); ts=f.endswith('.ts')
    for i,l in enumerate(L[:cut]):
        q=l.strip()
        if not q or q.startswith(('//','*','/*','#','use ','import','pub use','"','println','eprintln','pub mod','mod ','impl','pub fn','fn ','pub struct','export interface')): continue
        code=re.sub(r'"(?:[^"\\]|\\.)*"',lambda m:'\0'*len(m[0]),l)
        code=re.sub(r'//.*',lambda m:'\0'*len(m[0]),code)
        if '->' in code and ('fn ' in code): continue
        for o,n in OPS:
            for m in re.finditer(o,code):
                if 'let' in o: continue
                yield i,'%s=>%s@%d'%(m[0].strip(),n.strip(),m.start()),[l[:m.start()]+n+l[m.end():]]
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])',code):
            yield i,'%s=>%d@%d'%(m[0],int(m[0])+1,m.start()),[l[:m.start()]+str(int(m[0])+1)+l[m.end():]]
        if re.match(r'^[\w.*\[\]&]+(\(.*\)\??| [-+|^>]*= .*);$',q) and not q.startswith(('let','const','return','use','println','eprintln')): yield i,'del',['']
MOD=float(os.environ.get('FRAC','1'))
jobs=[]
only=sys.argv[2:]
for f in FILES:
    rel=os.path.relpath(f,SRC)
    if only and not any(o in rel for o in only): continue
    us=units(rel)
    if not us: continue
    t=open(f).read()
    for x in muts(f,t):
        if MOD and random.Random(str(x[:2])+rel).random()>MOD: continue
        i,k,new=x[:3]; n=x[3] if len(x)>3 else 1
        L=t.split('\n'); L[i:i+n]=new
        jobs.append((rel,i+1,k,'\n'.join(L),us))
random.Random(5).shuffle(jobs)
print(len(jobs),'mutants',flush=True)
import threading
subprocess.run(['node',V+'/tools/tx/tx.mjs',SRC+'/packages/zkenc-js/src',T+'/tx'],capture_output=True)
for u in sorted({u for j in jobs for u in j[4]}): subprocess.run([RX,V+'/proofs/%s.vr'%u,SRC,T+'/new/%s.rs'%u,T+'/new/%s.json'%u],capture_output=True,env=dict(os.environ,TXDIR=T+'/tx'))
tl=threading.local(); cnt=[0]; lk=threading.Lock()
def go(j):
    rel,line,k,text,us=j
    if not hasattr(tl,'d'):
        with lk: cnt[0]+=1; tl.d=T+'/t%d'%cnt[0]
        shutil.rmtree(tl.d,ignore_errors=True); os.makedirs(tl.d); subprocess.run(['cp','-a',SRC,tl.d+'/r'])
    R=tl.d+'/r'; p=R+'/'+rel; base=open(SRC+'/'+rel).read(); open(p,'w').write(text); res=[]
    tx=T+'/tx'
    if rel.endswith('.ts'):
        tx=tl.d+'/tx'; r=subprocess.run(['node',V+'/tools/tx/tx.mjs',R+'/packages/zkenc-js/src',tx],capture_output=True,text=True)
    for u in us:
        o=tl.d+'/%s.rs'%u
        r=subprocess.run([RX,V+'/proofs/%s.vr'%u,R,o,o[:-3]+'.json'],capture_output=True,text=True,env=dict(os.environ,TXDIR=tx))
        if r.returncode: res.append((u,'LOST '+(r.stdout+r.stderr).strip()[-120:])); continue
        old=T+'/new/%s.rs'%u
        if os.path.exists(old) and open(old).read()==open(o).read(): res.append((u,'same')); continue
        r=subprocess.run(['verus','--triggers-mode','silent',o],capture_output=True,text=True,cwd=tl.d)
        m=re.search(r'(\d+) verified, (\d+) errors',r.stdout)
        e=[l for l in r.stderr.splitlines() if l.startswith('error')]
        if not m: res.append((u,'NORES '+' | '.join(e[:1])))
        elif m[2]!='0': res.append((u,'FAIL '+' | '.join(e[:2])))
        else: res.append((u,'ok'))
    open(p,'w').write(base)
    with lk:
        xs=[x for u,x in res]
        v='FAIL' if any(x.startswith('FAIL') for x in xs) else 'NORES' if any(x.startswith('NORES') for x in xs) else 'LOST' if any(x.startswith('LOST') for x in xs) else 'SURV' if 'ok' in xs else 'SAME'
        print(v,rel.split('/')[-1],line,k,[(u,x[:60]) for u,x in res if x!='same'] if v!='FAIL' else '',flush=True)
with ThreadPoolExecutor(W) as ex: list(ex.map(go,jobs))
