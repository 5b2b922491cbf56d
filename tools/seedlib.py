"""Write /verif/seeded/<id>/ from a description of one change and its demonstration (a Go test file placed in the package through an overlay)."""
import os, subprocess, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SCRATCH = '/tmp/seedrepo'
DEMO = '''#!/bin/bash
# demonstration: run in the repository root; fails when the property is broken
D=$(cd "$(dirname "$0")" && pwd)
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
OV=/tmp/vp-demo-%(id)s.json
python3 - "$D" "$PWD" "$OV" <<'PY'
import sys, json, os, glob
d, r, o = sys.argv[1:4]
rep = {}
for t in glob.glob(os.path.join(r, '%(pkg)s', '*_test.go')):
    rep[t] = ''
rep[os.path.join(r, '%(pkg)s', 'zz_demo_test.go')] = os.path.join(d, 'demo_test.go')
json.dump({'Replace': rep}, open(o, 'w'))
PY
timeout 250 go test -vet=off -count=1 -overlay "$OV" -run '^TestDemo$' ./%(pkg)s
rc=$?
rm -f /tmp/vp-demo-%(id)s.json
exit $rc
'''
def seed(id, prop, edits, pkg, test, needs, breaks):
    """edits: list of (file, old, new)"""
    d = os.path.join(V, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    if os.path.exists(SCRATCH): shutil.rmtree(SCRATCH)
    subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=SCRATCH)
    for f, old, new in edits:
        p = os.path.join(SCRATCH, f); s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', 'diff'], cwd=SCRATCH).decode()
    open(os.path.join(d, 'patch.diff'), 'w').write(diff)
    open(os.path.join(d, 'demo_test.go'), 'w').write(test)
    open(os.path.join(d, 'demo.sh'), 'w').write(DEMO % {'id': id, 'pkg': pkg})
    os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
def confirm(id):
    """demo passes on HEAD, fails with the patch; the patch builds and passes the stable tests"""
    d = os.path.join(V, 'seeded', id)
    env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod')
    if os.path.exists(SCRATCH): shutil.rmtree(SCRATCH)
    subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=SCRATCH)
    r0 = subprocess.run(['bash', d + '/demo.sh'], cwd=SCRATCH, capture_output=True, text=True)
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=SCRATCH)
    b = subprocess.run("go build $(go list -e ./... | grep -vE '/experiments/overlap/(adv-censor|parallel|two-steps)$')", shell=True, cwd=SCRATCH, env=env, capture_output=True, text=True)
    out = subprocess.run(['go', 'test', '-json', '-vet=off', '-count=1', '-timeout', '3m', './...'], cwd=SCRATCH, env=env, capture_output=True, text=True).stdout
    ok = set()
    for l in out.splitlines():
        try: e = json.loads(l)
        except ValueError: continue
        if e.get('Action') == 'pass' and e.get('Test'): ok.add(e['Package'] + '/' + e['Test'])
    r1 = subprocess.run(['bash', d + '/demo.sh'], cwd=SCRATCH, capture_output=True, text=True)
    good = r0.returncode == 0 and b.returncode == 0 and STABLE <= ok and r1.returncode != 0
    print(id, 'OK' if good else 'BAD', 'demo-clean', r0.returncode, 'build', b.returncode, 'missing', sorted(STABLE - ok), 'demo-patched', r1.returncode)
    if r0.returncode: print(r0.stdout[-1500:], r0.stderr[-500:])
    if b.returncode: print(b.stderr[-800:])
    return good
def check(id, prop=None):
    """run the property's check against the patched scratch copy"""
    d = os.path.join(V, 'seeded', id)
    prop = prop or json.load(open(d + '/meta.json'))['property']
    if os.path.exists(SCRATCH): shutil.rmtree(SCRATCH)
    subprocess.check_call(['cp', '-a', '/repo', SCRATCH])
    subprocess.check_call(['git', 'checkout', '-q', '--', '.'], cwd=SCRATCH)
    subprocess.check_call(['git', 'apply', d + '/patch.diff'], cwd=SCRATCH)
    import time; t = time.time()
    r = subprocess.run(['bash', V + '/check.sh', prop], env=dict(os.environ, REPO=SCRATCH), capture_output=True, text=True)
    v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')]
    f = [l for l in r.stdout.splitlines() if 'failed' in l][:4]
    print(id, prop, 'exit', r.returncode, v, '%.0fs' % (time.time() - t)); print('   ', '\n    '.join(x[:200] for x in f))
if __name__ == '__main__':
    import sys
    for i in sys.argv[2:]:
        {'confirm': confirm, 'check': check}[sys.argv[1]](i)
