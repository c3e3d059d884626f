#!/usr/bin/env python3
"""Development aid: plants one-line mutations in scratch copies of /repo, keeps
those that build and pass the stable tests, and reports which checks notice them.
usage: mutate.py OUT.jsonl FILE[:A-B].. [--workers N] [--runs N] [--sample K] [--ops a,b]"""
import sys, re, os, json, subprocess, shutil, random, threading, queue
W='/tmp/mut'
def code(line):
    s=line.split('//')[0].rstrip('\n'); return s
def mutants(src, a, b):
    L=src.split('\n'); out=[]
    intest=False
    for i,l in enumerate(L):
        if not (a<=i+1<=b): continue
        s=code(l); t=s.strip()
        if '#[test]' in t or 'mod test' in t: intest=True
        if intest and l.startswith('}'): intest=False; continue
        if intest or not t or t.startswith(('*','use ','pub use','extern','#','///','/*','type ')): continue
        def add(op,n): 
            if n!=s: out.append((i,op,n))
        if t.endswith(';') and not t.startswith(('let','return','pub','mod','fn','where','break','static')) and t.count('(')==t.count(')') and t.count('{')==t.count('}') and t not in ('};','});',');','],',']);'):
            add('del', re.sub(r'\S.*','',s))
        m=re.match(r'^(\s*(?:\}?\s*else\s+)?if )(?!let)(.*?)( \{.*)$',s)
        if m:
            add('iftrue',m.group(1)+'true || ('+m.group(2)+')'+m.group(3)); add('iffalse',m.group(1)+'false && ('+m.group(2)+')'+m.group(3))
        for x,y in [('==','!='),('!=','=='),('&&','||'),('||','&&'),('+ 1','+ 0'),('- 1','- 0'),('true','false'),('false','true'),(' < ',' <= '),(' <= ',' < '),(' > ',' >= '),(' >= ',' > ')]:
            for m in re.finditer(re.escape(x) if not x.isalpha() else r'\b'+x+r'\b',s):
                if x=='||' and re.search(r'[(,=]\s*$|move\s*$',s[:m.start()]): continue
                add('op '+x+'→'+y, s[:m.start()]+y+s[m.end():])
        for x,y in [('Effect::Observe','Effect::Allocate'),('Effect::Allocate','Effect::Observe'),('Effect::Force','Effect::Alloc'),('Effect::Alloc','Effect::Force'),('Dir2::Left','Dir2::Right'),('Dir2::Right','Dir2::Left'),('n1','n2'),('n2','n1'),('(l,r)','(r,l)'),('(nl,nr)','(nr,nl)'),('preds','succs'),('succs','preds'),('left','right'),('right','left'),('l1','l2'),('l2','l1'),('Some(','None.or(Some('),('.is_some()','.is_none()'),('.is_none()','.is_some()'),('nm1','nm2'),('nm2','nm1'),('lev1','lev2'),('lev2','lev1')]:
            if y.startswith('None'): continue
            for m in re.finditer(r'(?<!\w)'+re.escape(x)+(r'(?!\w)' if x[-1].isalnum() else ''),s): add('swap '+x, s[:m.start()]+y+s[m.end():])
        for m in re.finditer(r'Some\((\w+)\.clone\(\)\)',s): add('none', s[:m.start()]+'None'+s[m.end():])
        for m in re.finditer(r'name_of_str\("([^"]*)"\)',s): add('str', s[:m.start()]+'name_of_str("zz")'+s[m.end():])
        for m in re.finditer(r'push\(',s): add('pushfront', s[:m.start()]+'insert(0,'+s[m.end():])
    return L,out
env=dict(os.environ,RUSTUP_TOOLCHAIN='stable',RUSTC_WRAPPER='',CARGO_NET_OFFLINE='true',CARGO_TERM_COLOR='never',CARGO_INCREMENTAL='1',CARGO_PROFILE_DEV_DEBUG='line-tables-only',CARGO_BUILD_JOBS='2')
for k in list(env):
    if k.startswith('ADAPTON_'): del env[k]
STABLE=set(json.load(open('/opt/vp/BASELINE.json')).get('stable',[])) if os.path.exists('/opt/vp/BASELINE.json') else set()
PROPS=['C12','C13','C10','C06','C14','C01','C03','C04','C02','C09','C11','C08','C07','C05']
def sh(c,cwd,t): 
    try: p=subprocess.run(c,cwd=cwd,shell=True,env=env,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,text=True,errors='replace'); return p.returncode,p.stdout
    except subprocess.TimeoutExpired: return 124,''
def setup(k):
    w=f'{W}/w{k}'
    os.makedirs(w,exist_ok=True)
    subprocess.run(f'rsync -a --checksum --no-times --exclude target --exclude .git {os.environ.get("REPO","/repo")}/ {w}/repo/; rsync -a --checksum --no-times --exclude target --exclude Cargo.toml /verif/sim/ {w}/sim/; sed "s#/repo#{w}/repo#" /verif/sim/Cargo.toml > {w}/ct; cmp -s {w}/ct {w}/sim/Cargo.toml || cp {w}/ct {w}/sim/Cargo.toml; cp /verif/known-findings.txt {w}/; mkdir -p {w}/evidence',shell=True,check=True)
    sh('cargo test --workspace --no-run --offline',w+'/repo',600); r=sh('cargo build --release --offline --quiet',w+'/sim',600)
    if r[0]: print(r[1]); sys.exit(1)
    return w
def run_one(w,f,L,mu,runs):
    i,op,n=mu; p=f'{w}/repo/{f}'; orig='\n'.join(L)
    M=list(L); M[i]=n; open(p,'w').write('\n'.join(M))
    try:
        c,o=sh('timeout 120 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1 > %s/t.log 2>&1; cat %s/t.log'%(w,w),w+'/repo',150)
        if 'could not compile' in o: return 'nobuild',None
        if c==124: return 'tests',None
        sh(f'python3 /opt/vp/results.py {w}/t.json cargo:{w}/t.log',w,60)
        r=sh(f'bash /verif/tools/chk.sh {w}/t.json',w,60)[1].strip().split('\n')[-1]
        if r!='missing: set()': return 'tests',None
        c,o=sh('cargo build --release --offline --quiet',w+'/sim',600)
        if c: return 'simbuild',o[-500:]
        hit={}
        for q in PROPS:
            c,o=sh(f'timeout 60 ./sim/target/release/sim survey --prop {q} --runs {runs}',w,70)
            m=re.findall(r'^(\w+): (\d+) runs$',o,re.M)
            if c==124 or 'stuck in run' in o: hit[q]='hang'
            elif c: hit[q]='crash %d'%c
            elif m: hit[q]=' '.join(x+':'+y for x,y in m)
            if hit: break
        return 'live',hit
    finally: open(p,'w').write(orig)
def main():
    a=sys.argv[1:]; out=a[0]; files=[]; workers=4; runs=1500; sample=None; ops=None; only=None; k=1
    while k<len(a):
        if a[k]=='--workers': workers=int(a[k+1]); k+=2
        elif a[k]=='--runs': runs=int(a[k+1]); k+=2
        elif a[k]=='--sample': sample=int(a[k+1]); k+=2
        elif a[k]=='--redo':
            only={(d['file'],d['line'],d['new']) for d in map(json.loads,open(a[k+1])) if d['status']=='live' and not d['hit']}; k+=2
        elif a[k]=='--ops': ops=a[k+1].split(','); k+=2
        else: files.append(a[k]); k+=1
    jobs=[]
    for f in files:
        f,_,rng=f.partition(':'); A,B=(map(int,rng.split('-')) if rng else (1,10**9))
        L,ms=mutants(open('/repo/'+f).read(),A,B)
        for m in ms:
            if only is not None and (f,m[0]+1,m[2]) not in only: continue
            if ops and not any(m[1].startswith(o) for o in ops): continue
            jobs.append((f,L,m))
    print(len(jobs),'mutants')
    if sample: random.seed(1); random.shuffle(jobs); jobs=jobs[:sample]
    if out=='-': 
        for f,L,m in jobs: print(f,m[0]+1,m[1],'|',m[2].strip())
        return
    done=set()
    if os.path.exists(out):
        for l in open(out): d=json.loads(l); done.add((d['file'],d['line'],d['new']))
    q=queue.Queue()
    for j in jobs:
        if (j[0],j[2][0]+1,j[2][2]) not in done: q.put(j)
    lock=threading.Lock(); fo=open(out,'a')
    def work(k):
        w=setup(k)
        while True:
            try: f,L,m=q.get_nowait()
            except queue.Empty: return
            st,hit=run_one(w,f,L,m,runs)
            with lock: fo.write(json.dumps(dict(file=f,line=m[0]+1,op=m[1],old=L[m[0]],new=m[2],status=st,hit=hit))+'\n'); fo.flush()
    ts=[threading.Thread(target=work,args=(k,)) for k in range(workers)]
    [t.start() for t in ts]; [t.join() for t in ts]
if __name__ == "__main__": main()
