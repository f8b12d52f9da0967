#!/usr/bin/env python3
"""mkseed.py [ID...]: builds seeded/<ID> from seedspecs.py and confirms each planted bug in a scratch copy of /repo."""
import json, os, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from seedspecs import seeds

DEMO = '''#!/bin/bash
. /opt/vp/env.sh
d="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%%s/%(dir)szz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$d" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 -overlay "$t/overlay.json" -run '^TestDemo$' ./%(dir)s
'''

def sh(cmd, cwd):
    return subprocess.run(['bash', '-c', '. /opt/vp/env.sh; ' + cmd], cwd=cwd, capture_output=True, text=True)

def build(s):
    out = '/verif/seeded/' + s['id']
    os.makedirs(out, exist_ok=True)
    t = tempfile.mkdtemp(prefix='seed')
    w = t + '/repo'
    try:
        shutil.copytree('/repo', w, symlinks=True)
        d = s.get('dir', '')
        open(out + '/demo.go.txt', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write(DEMO % {'dir': d})
        os.chmod(out + '/demo.sh', 0o755)
        r = sh(out + '/demo.sh', w)
        if r.returncode != 0:
            return 'demo fails on the unchanged tree: ' + (r.stdout + r.stderr)[-1500:]
        for f, old, new in s['edits']:
            x = open(w + '/' + f).read()
            if x.count(old) != 1:
                return 'edit of %s matches %d times: %s' % (f, x.count(old), old)
            open(w + '/' + f, 'w').write(x.replace(old, new))
        r = sh('gofmt -l . ; go build ./... && go vet ./...', w)
        if r.returncode != 0:
            return 'does not build: ' + (r.stdout + r.stderr)[-1500:]
        r = sh('go test -count=1 ./...', w)
        if r.returncode != 0:
            return 'tests fail: ' + (r.stdout + r.stderr)[-1500:]
        r = sh(out + '/demo.sh', w)
        if r.returncode == 0:
            return 'demo passes with the change'
        if 'build failed' in r.stdout + r.stderr or 'setup failed' in r.stdout + r.stderr:
            return 'demo does not build: ' + r.stdout + r.stderr
        p = sh('git diff', w).stdout
        open(out + '/patch.diff', 'w').write(p)
        json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        return None
    finally:
        shutil.rmtree(t)

want = sys.argv[1:]
for s in seeds:
    if want and s['id'] not in want or not want and os.path.exists('/verif/seeded/%s/patch.diff' % s['id']):
        continue
    e = build(s)
    print(s['id'], s['prop'], 'ok' if e is None else 'BAD: ' + e)
    if e is not None and not os.path.exists('/verif/seeded/%s/patch.diff' % s['id']):
        shutil.rmtree('/verif/seeded/' + s['id'])
