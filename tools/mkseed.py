#!/usr/bin/env python3
"""Make seeded/<id> from a description and confirm it against a scratch copy.

usage: mkseed.py SPEC.py [ID...]
SPEC.py defines SEEDS: dicts with id, property, edits [(file, old, new)], demo (source of
demo.cd or dict of files), expect (output) or check (body of a shell script that ends
with the verdict), needs, breaks.  Only kept if: the patch builds, the stable tests pass
with it, the demonstration passes without it and fails with it.
"""
import json
import os
import runpy
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = '''#!/bin/bash
# Run with cwd = the repository. Exit 0: the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
go build -o "$T/candice" ./cmd/compiler || exit 3
cd "$T" || exit 3
'''
PLAIN = '''cp -r "$here"/files/. . || exit 3
timeout 100 ./candice -name prog demo.cd > build.log 2>&1
[ -x prog ] || { cat build.log; echo "demo.cd was not built"; exit 1; }
timeout 60 ./prog > out.txt 2> err.txt
code=$?
if [ $code -ne 0 ]; then echo "status $code"; cat out.txt err.txt; exit 1; fi
diff "$here"/expected.txt out.txt || exit 1
exit 0
'''
REJECT = '''cp -r "$here"/files/. . || exit 3
timeout 100 ./candice -name prog demo.cd > build.log 2>&1
[ -x prog ] && { echo "demo.cd was accepted"; exit 1; }
grep -q 'goroutine' build.log && { cat build.log; exit 1; }
exit 0
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def make(s):
    d = os.path.join(V, 'seeded', s['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    files = s.get('demo', {})
    if isinstance(files, str):
        files = {'demo.cd': files}
    for n, t in files.items():
        p = os.path.join(d, 'files', n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as f:
            f.write(t)
    if 'check' in s:
        body = HEAD.replace('./cmd/compiler', s.get('cmd', './cmd/compiler')) if not s.get('raw') else ''
        body += s['check']
    elif 'expect' in s:
        body = HEAD + PLAIN
        with open(d + '/expected.txt', 'w') as f:
            f.write(s['expect'])
    else:
        body = HEAD + REJECT
    with open(d + '/demo.sh', 'w') as f:
        f.write(body)
    os.chmod(d + '/demo.sh', 0o755)
    with open(d + '/meta.json', 'w') as f:
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, f, indent=1)
        f.write('\n')
    assert not sh('git -C /repo status --porcelain').stdout
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    if r.returncode:
        return 'demo fails on the clean tree: ' + r.stdout[-800:] + r.stderr[-800:]
    try:
        for f, old, new in s['edits']:
            p = '/repo/' + f
            t = open(p).read()
            if t.count(old) != 1:
                return 'text found %d times: %s' % (t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        r = sh('. /opt/vp/env.sh; gofmt -l internals pkg cmd; bash /opt/vp/build.sh', cwd='/repo')
        if r.returncode or 'internals' in (r.stdout if s.get('gofmt') else ''):
            return 'does not build: ' + r.stdout + r.stderr
        with open(d + '/patch.diff', 'w') as f:
            f.write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/test.sh /tmp/seed-test.json')
        res = json.load(open('/tmp/seed-test.json'))
        stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
        bad = [t for t in stable if t not in str(res)] or ('19 passed' not in r.stdout and [r.stdout[-500:]])
        if bad:
            return 'tests fail: %s' % bad
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        if r.returncode == 0:
            return 'demo passes with the patch'
        print('   demo: ' + (r.stdout + r.stderr).strip().replace('\n', '\n         ')[-500:])
    finally:
        sh('git -C /repo checkout -- .')
    return None


for s in runpy.run_path(sys.argv[1])['SEEDS']:
    if sys.argv[2:] and s['id'] not in sys.argv[2:]:
        continue
    e = make(s)
    print('%s %s' % (s['id'], 'ok' if e is None else 'NOT KEPT: ' + e), flush=True)
    if e is not None:
        shutil.rmtree(os.path.join(V, 'seeded', s['id']))
