#!/usr/bin/env python3
"""Development aid: tries hand-written bugs in scratch copies of /repo.
usage: batch.py BUGS.py [--workers N] [--runs N] [--all] [--ids a,b]; BUGS.py defines
BUGS = [(id, prop, [(file, old, new), ..]), ..] (prop may list several, with +)."""
import sys, os, json, re, threading, queue, importlib.util
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutate as m
m.W = '/tmp/bt'
a = sys.argv[1:]; src = a[0]; workers = 4; runs = 8000; every = False; ids = None; k = 1
while k < len(a):
    if a[k] == '--workers': workers = int(a[k+1]); k += 2
    elif a[k] == '--runs': runs = int(a[k+1]); k += 2
    elif a[k] == '--all': every = True; k += 1
    elif a[k] == '--ids': ids = a[k+1].split(','); k += 2
spec = importlib.util.spec_from_file_location('b', src); b = importlib.util.module_from_spec(spec); spec.loader.exec_module(b)
q = queue.Queue(); [q.put(x) for x in b.BUGS if not ids or x[0] in ids]
lock = threading.Lock()
def one(w, bug):
    id, prop, edits = bug; saved = {}
    try:
        for f, old, new in edits:
            p = f'{w}/repo/{f}'; s = open(p).read(); saved.setdefault(p, s)
            if s.count(old) != 1: return f'{id}: edit of {f} matches {s.count(old)} times'
            open(p, 'w').write(s.replace(old, new))
        c, o = m.sh('timeout 150 cargo test --workspace --no-fail-fast --offline -- --test-threads 4 2>&1 > %s/t.log 2>&1; cat %s/t.log' % (w, w), w + '/repo', 170)
        if 'could not compile' in o: return f'{id}: does not build\n' + '\n'.join(re.findall(r'^error.*(?:\n.*){6}', o, re.M)[:2])
        m.sh(f'python3 /opt/vp/results.py {w}/t.json cargo:{w}/t.log', w, 60)
        r = m.sh(f'bash /verif/tools/chk.sh {w}/t.json', w, 60)[1].strip().split('\n')[-1]
        t = 'tests pass' if r == 'missing: set()' else 'TESTS FAIL ' + r[:80]
        c, o = m.sh('cargo build --release --offline --quiet', w + '/sim', 900)
        if c: return f'{id}: sim does not build {o[-300:]}'
        out = []
        for p in ([p for p in m.PROPS] if every else prop.split('+')):
            c, o = m.sh(f'timeout 100 ./sim/target/release/sim survey --prop {p} --runs {runs}', w, 110)
            h = re.findall(r'^(\w+): (\d+) runs$', o, re.M)
            out.append(p + ': ' + ('hang' if c == 124 or 'stuck in run' in o else f'crash {c}' if c else ' '.join(x + ':' + y for x, y in h) or '-'))
        return f'{id}: {t}; ' + '; '.join(out)
    finally:
        for p, s in saved.items(): open(p, 'w').write(s)
def work(k):
    w = m.setup(k)
    while True:
        try: x = q.get_nowait()
        except queue.Empty: return
        r = one(w, x)
        with lock: print(r, flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(workers)]
[t.start() for t in ts]; [t.join() for t in ts]
