#!/usr/bin/env python3
"""mkseed.py BATCH.py [ID...]: development tool. Builds /verif/seeded/<id> from
a batch description (S: list of dicts) and confirms it in scratch copies of
/repo: patch applies, builds, stable tests pass, demo passes without and fails
with it, changed lines are original ones; then runs the property's check
against the changed copy (REPO=copy run.sh)."""
import subprocess, sys, os, json, shutil, tempfile, re, concurrent.futures as cf
V = '/verif'
COMMON = r'''package log4g_test

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/xtfly/log4g"
	"github.com/xtfly/log4g/api"
)

var _ = bytes.NewBuffer
var _ = context.Background
var _ = fmt.Sprint
var _ = ioutil.ReadFile
var _ = os.Open
var _ = filepath.Join
var _ = sort.Strings
var _ = strings.Join
var _ = time.Now
var _ sync.Mutex

// rec is an output that records "name level message".
type rec struct {
	mu   sync.Mutex
	got  []string
	f    api.Formatter
	hook func(*api.Event)
}

func (r *rec) Send(e *api.Event) {
	if r.hook != nil {
		r.hook(e)
	}
	s := e.Name + " " + e.Level.String() + " " + e.Message()
	if r.f != nil {
		s = string(r.f.Format(e))
	}
	r.mu.Lock()
	r.got = append(r.got, s)
	r.mu.Unlock()
}
func (r *rec) SetFormatter(f api.Formatter) { r.f = f }
func (r *rec) CallerInfoFlag() int {
	if r.f != nil {
		return r.f.CallerInfoFlag()
	}
	return 0
}
func (r *rec) Close() {}
func (r *rec) all() []string {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([]string{}, r.got...)
}

// load sets a configuration given as YAML.
func load(t *testing.T, y string) {
	t.Helper()
	if err := log4g.GetManager().LoadConfig([]byte(strings.Replace(y, "\t", "  ", -1)), "yaml"); err != nil {
		t.Fatal(err)
	}
}

// file returns the content of a file, "<none>" if there is none.
func file(p ...string) string {
	b, err := ioutil.ReadFile(filepath.Join(p...))
	if err != nil {
		return "<none>"
	}
	return string(b)
}

// names lists a directory.
func names(dir string) []string {
	fis, _ := ioutil.ReadDir(dir)
	var r []string
	for _, fi := range fis {
		r = append(r, fi.Name())
	}
	sort.Strings(r)
	return r
}

func eq(t *testing.T, what string, got, want interface{}) {
	t.Helper()
	if fmt.Sprintf("%q", got) != fmt.Sprintf("%q", want) {
		t.Fatalf("%s: got %q, want %q", what, got, want)
	}
}

'''
DEMO = '''#!/bin/bash
# Run in the repository root after a build: exit 0 if the property holds here.
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 9
trap 'rm -rf "$T"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod TMPDIR=$T TZ=UTC
cp go.mod go.sum "$T/"
echo "{\\"Replace\\":{\\"$R/%(dir)szz_demo_test.go\\":\\"$D/demo_test.go\\"}}" > "$T/o.json"
%(pre)stimeout 240 go test -modfile="$T/go.mod" -overlay "$T/o.json" -vet=off -count=1 -timeout 200s %(flags)s -run 'TestDemo' ./%(dir)s
'''
ENV = dict(os.environ, HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
STABLE = [x for x in json.load(open('/opt/vp/BASELINE.json'))['stable']]
def sh(cmd, cwd, timeout=1000, env=ENV):
    p = subprocess.run(cmd, shell=True, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, errors='replace')
    return p.returncode, p.stdout
def blame_ok(wt):
    """at least one line removed or changed is of the first commit"""
    root = sh('git rev-list --max-parents=0 HEAD', wt)[1].strip()
    d = sh('git diff -U0', wt)[1]
    cur = None; orig = mine = 0
    for l in d.split('\n'):
        if l.startswith('--- a/'): cur = l[6:]
        m = re.match(r'@@ -(\d+)(?:,(\d+))? ', l)
        if m and cur:
            n = int(m.group(2) or 1)
            n = n or 1
            b = sh(f'git blame -s -l -L{m.group(1)},+{n} HEAD -- {cur}', wt)[1]
            for x in b.strip().split('\n'):
                if x.lstrip('^').startswith(root[:30]): orig += 1
                else: mine += 1
    return orig, mine
def one(s):
    id = s['id']; out = []
    wt = f'/tmp/sw/{id}'
    shutil.rmtree(wt, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', wt], check=True)
    sd = f'{V}/seeded/{id}'
    os.makedirs(sd, exist_ok=True)
    for f, a, b in s['edits']:
        p = f'{wt}/{f}'; t = open(p).read()
        if t.count(a) != 1: return id, f'EDIT {f}: {t.count(a)} matches of {a!r}'
        open(p, 'w').write(t.replace(a, b))
    sh('gofmt -l -w $(git diff --name-only)', wt)
    open(f'{sd}/patch.diff', 'w').write(sh('git diff', wt)[1])
    code = s['demo'] if s['demo'].lstrip().startswith('package') else COMMON.replace('import (\n', 'import (\n' + ''.join('\t"%s"\n' % i for i in s.get('imports', '').split()), 1) + s['demo']
    open(f'{sd}/demo_test.go', 'w').write(code)
    sh(f'gofmt -w {sd}/demo_test.go', wt)
    open(f'{sd}/demo.sh', 'w').write(DEMO % dict(dir=s.get('dir', ''), flags=s.get('flags', ''), pre=s.get('pre', '')))
    os.chmod(f'{sd}/demo.sh', 0o755)
    json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(f'{sd}/meta.json', 'w'), indent=1)
    o, m = blame_ok(wt)
    if not o and not s.get('noblame'): return id, f'BLAME original={o} mine={m}'
    rc, t = sh('go build ./... && go vet ./... 2>&1 | head -20; go build ./...', wt)
    if rc: return id, 'BUILD ' + t[-600:]
    rc, t = sh(f'go test -json -vet=off -count=1 -timeout 10m ./...', wt)
    ok = set(re.findall(r'"Action":"pass","Package":"([^"]*)","Test":"([^"]*)"', t))
    miss = [x for x in STABLE if tuple(x.rsplit('/', 1)) not in ok]
    if miss: return id, f'TESTS {miss}'
    if '-demo' not in sys.argv[1:]:
        for i in range(2):
            rc, t = sh(f'{sd}/demo.sh', '/repo')
            if rc: return id, 'DEMO fails on the unchanged tree: ' + t[-1500:]
        for i in range(2):
            rc, t = sh(f'{sd}/demo.sh', wt)
            if not rc: return id, 'DEMO passes with the patch'
        if 'build failed' in t or 'setup failed' in t: return id, 'DEMO does not build: ' + t[-1500:]
        out.append('demo: ' + ' | '.join(x.strip() for x in t.split('\n') if 'demo_test.go' in x or 'DATA RACE' in x or 'panic' in x)[:160])
    rc, t = sh(f'{V}/run.sh {s["prop"]}', V, env=dict(ENV, REPO=wt, VERIF_TIER='quick'))
    v = [x for x in t.split('\n') if x.startswith('VIOLATION')]
    shutil.rmtree(wt, ignore_errors=True)
    return id, ('CAUGHT ' if rc == 1 and v else f'MISSED rc={rc} ') + f'orig={o} mine={m} ' + ' '.join(out) + ' :: ' + (' '.join(v[:1]) + ' ' + (t.split('VIOLATION')[1].split('\n', 2)[1][:200] if v else t[-500:]))
g = {}
exec(open(sys.argv[1]).read(), g)
ids = [a for a in sys.argv[2:] if not a.startswith('-')]
todo = [s for s in g['S'] if not ids or s['id'] in ids]
with cf.ThreadPoolExecutor(2) as ex:
    for id, r in ex.map(one, todo):
        print(f'{id}: {r}', flush=True)
        if r.split()[0] not in ('CAUGHT', 'MISSED'): shutil.rmtree(f'{V}/seeded/{id}'); shutil.rmtree(f'/tmp/sw/{id}', ignore_errors=True)
