#!/usr/bin/env python3
"""refs.py AC [NAME...]: applies each set of behaviour-preserving edits to a scratch copy and runs every check on it."""
import os, shutil, subprocess, sys, re, concurrent.futures as cf
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from refspecs import R
ac = sys.argv[1]
props = os.environ.get('PROPS')
names = sys.argv[2:] or list(R)
def one(n):
    d = '/tmp/rf/' + n
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    shutil.copytree('/repo', d + '/repo', symlinks=True)
    shutil.copy('/verif/known_findings.txt', d)
    for f, old, new in R[n]:
        p = d + '/repo/' + f
        s = open(p).read()
        if s.count(old) != 1:
            return '%s: edit of %s matches %d times: %s' % (n, f, s.count(old), old[:200])
        open(p, 'w').write(s.replace(old, new))
    r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; go mod tidy -e >/dev/null 2>&1; git checkout -q go.mod go.sum; go build ./... && go vet ./... && go test -count=1 ./...'], cwd=d + '/repo', capture_output=True, text=True)
    if r.returncode:
        return n + ': ' + (r.stdout + r.stderr)[-2500:]
    ps = props or ','.join(sorted(set(re.findall(r'register\("(C\d+)"', open('/verif/tool/props.go').read()))))
    ps = ps.split(',')
    slow = [p for p in ps if p in ('C17', 'C18', 'C19', 'C20')]
    out, rc = '', 0
    for group in [[p for p in ps if p not in slow]] + [[p] for p in slow]:
        if group:
            r = subprocess.run(['bash', '-c', '. /opt/vp/env.sh; %s -repo %s/repo -prop %s -out %s' % (ac, d, ','.join(group), d)], capture_output=True, text=True)
            out += r.stdout + r.stderr
            rc = max(rc, r.returncode)
    shutil.rmtree(d + '/repo')
    return n + ': exit %d\n' % rc + out
with cf.ThreadPoolExecutor(int(os.environ.get('J', '4'))) as ex:
    for s in ex.map(one, names):
        print(s, flush=True)
