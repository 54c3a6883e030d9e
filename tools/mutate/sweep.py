#!/usr/bin/env python3
"""sweep.py DIR test|check [N]: development tool. Runs the changes that main.go
lists (DIR/mut.jsonl) through build and stable tests, then those that survive
through the checks named for their file until one reports a violation. Resumes."""
import bisect, difflib, json, sys, os, subprocess, shutil, threading, queue
D, phase = sys.argv[1], sys.argv[2]
N = int(sys.argv[3]) if len(sys.argv) > 3 else 8
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
muts = [json.loads(l) for l in open(D + '/mut.jsonl')]
stable = json.load(open('/opt/vp/BASELINE.json'))['stable']
ORDER = {
 'internal/logger.go': 'C01 C18 C17 C06 C03 C02 C07',
 'internal/logger_factory.go': 'C02 C07 C20 C06 C01 C08',
 'internal/logger_manager.go': 'C20 C08 C07 C04 C06 C09 C01',
 'internal/log4g.go': 'C01 C07 C04 C20 C08 C19 C09',
 'internal/output_base.go': 'C05 C04 C19 C09 C03 C17 C10',
 'internal/output_rollingwriter.go': 'C10 C11 C12 C13 C14 C15 C23 C03 C21 C09 C05',
 'internal/output_rolling.go': 'C09 C10 C12 C13 C11 C19 C23 C05',
 'internal/output_fsutil.go': 'C11 C14 C10 C13 C09 C12',
 'internal/format_parser.go': 'C16 C18 C17',
 'internal/format_text.go': 'C16 C18 C17 C03 C08',
 'internal/logger_callerinfo.go': 'C18 C06 C03 C16',
 'internal/output_memory.go': 'C19 C03 C01 C06',
 'internal/output_console.go': 'C19 C05 C09 C04',
 'internal/output_syslog.go': 'C19 C16 C18 C04 C08 C23',
 'api/logger_level.go': 'C19 C09 C01 C16',
 'api/logger_api.go': 'C17 C16 C19',
 'api/logger_mange.go': 'C20 C08 C09 C07',
}
def order(f):
    return ORDER.get(f, 'C21 C13').split()
def moved(old, new):
    """where a byte offset of old is in new, or None if its line has changed"""
    a, b = old.splitlines(True), new.splitlines(True)
    to, n, m = {}, [0], [0]
    for l in a: n.append(n[-1] + len(l))
    for l in b: m.append(m[-1] + len(l))
    for t, i, j, x, y in difflib.SequenceMatcher(None, a, b, False).get_opcodes():
        if t == 'equal':
            for k in range(j - i): to[i + k] = x + k
    def f(o):
        i = bisect.bisect_right(n, o) - 1
        return m[to[i]] + o - n[i] if i in to else None
    return f
def apply(m, repo):
    p = repo + '/' + m['file']
    b = open(D + '/base/' + m['file'], 'rb').read() # what main.go read
    to = lambda o: o
    if phase == 'check':
        new = open('/repo/' + m['file'], 'rb').read()
        to, b = moved(b, new), new
    for s, e, t in sorted(m['edits'], reverse=True):
        s, e = to(s), to(e - 1)
        if s is None or e is None: return False
        b = b[:s] + t.encode() + b[e + 1:]
    open(p, 'wb').write(b)
    return True
def undo(m, repo):
    shutil.copyfile(('/repo/' if phase == 'check' else D + '/base/') + m['file'], repo + '/' + m['file'])
res = {}
rf = '%s/%s.jsonl' % (D, phase)
if os.path.exists(rf):
    for l in open(rf):
        r = json.loads(l); res[r['i']] = r
out = open(rf, 'a')
lock = threading.Lock()
def put(r):
    with lock:
        out.write(json.dumps(r) + '\n'); out.flush()
def fresh(repo):
    shutil.rmtree(repo, ignore_errors=True) # a change may have removed anything here
    subprocess.run(['cp', '-a', '/repo' if phase == 'check' else D + '/base', repo]); os.makedirs(repo + '/.tmp', exist_ok=True)
    subprocess.run(['chown', '-R', '65534:65534', repo])
def test(i, m, repo):
    fresh(repo)
    apply(m, repo)
    env = dict(os.environ, HOME=D, GOCACHE=D + '/cache', GOFLAGS='-mod=mod', GOPROXY='off', GOTOOLCHAIN='local', TMPDIR=repo + '/.tmp', GOMODCACHE=D + '/modcache')
    pre = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups']
    try:
        p = subprocess.run(pre + ['go', 'build', '-buildvcs=false', './...'], cwd=repo, env=env, capture_output=True, text=True, timeout=120)
        if p.returncode:
            return put({'i': i, 'r': 'build'})
        p = subprocess.run(pre + ['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '60s', './...'], cwd=repo, env=env, capture_output=True, text=True, timeout=180)
        ok = set()
        for l in p.stdout.splitlines():
            try: e = json.loads(l)
            except ValueError: continue
            if e.get('Action') == 'pass' and 'Test' in e:
                ok.add(e['Package'] + '/' + e['Test'])
        bad = [s for s in stable if s not in ok]
        put({'i': i, 'r': 'test' if bad else 'survives', 'bad': bad[:3]})
    except subprocess.TimeoutExpired:
        put({'i': i, 'r': 'timeout'})
    finally:
        undo(m, repo)
def check(i, m, repo):
    if not apply(m, repo):
        return put({'i': i, 'r': 'moved'})
    rcs = {}
    try:
        for c in order(m['file']):
            env = dict(os.environ, REPO=repo)
            try:
                p = subprocess.run([V + '/run.sh', c, '-deadline', '8'], env=env, capture_output=True, text=True, timeout=400)
                rc, o = p.returncode, p.stdout
            except subprocess.TimeoutExpired:
                rc, o = 99, ''
            rcs[c] = rc
            if rc == 1:
                msg = [l for l in o.splitlines() if l.startswith(c + ':')]
                return put({'i': i, 'r': 'caught', 'by': c, 'rcs': rcs, 'msg': (msg or [''])[0][:200]})
        put({'i': i, 'r': 'MISSED' if all(v == 0 for v in rcs.values()) else 'ODD', 'rcs': rcs})
    finally:
        undo(m, repo)
todo = queue.Queue()
if phase == 'test':
    for i, m in enumerate(muts):
        if i not in res: todo.put((i, m))
else:
    import random
    ls = list(open(D + '/test.jsonl'))
    random.Random(7).shuffle(ls)
    for l in ls:
        r = json.loads(l)
        if r['r'] == 'survives' and r['i'] not in res: todo.put((r['i'], muts[r['i']]))
print(todo.qsize(), 'to do', flush=True)
def work(k):
    repo = '%s/w%d' % (D, k)
    fresh(repo)
    while True:
        try: i, m = todo.get_nowait()
        except queue.Empty: return
        (test if phase == 'test' else check)(i, m, repo)
ts = [threading.Thread(target=work, args=(k,)) for k in range(N)]
[t.start() for t in ts]; [t.join() for t in ts]
