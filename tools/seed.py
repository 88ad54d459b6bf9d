#!/usr/bin/env python3
"""Keep a planted bug: tools/seed.py make SPEC.py | tools/seed.py catch [ID...]

SPEC.py defines ID, PROP, EDITS=[(file, old, new)], PKG, TEST (Go test source
with TestDemo) or SH (body of demo.sh), NEEDS, BREAKS. `make` applies the edits
in a scratch copy, confirms that it builds, that the stable tests pass and that
the demonstration fails with the change and passes without it.
`catch` applies each bug to /repo, runs the check of its property, undoes it.
"""
import json, os, shutil, subprocess, sys, tempfile, time

SEEDED = '/verif/seeded'
SH = '''#!/bin/bash
# exit 0 when the behaviour is right, non-zero otherwise; run in the repository
here=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
printf '{"Replace":{"%%s":"%%s"}}' "$PWD/%(pkg)s/zz_demo_test.go" "$here/demo_test.go" > "$tmp/o.json"
go test -count=1 -overlay "$tmp/o.json" -run 'TestDemo$' -timeout 200s ./%(pkg)s
'''


def sh(cmd, cwd, timeout=900):
    p = subprocess.run(['bash', '-c', '. /opt/vp/env.sh\n' + cmd], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       text=True, timeout=timeout)
    return p.returncode, p.stdout


def make(spec):
    g = {'SH': None, 'TEST': None, 'FILES': {}}
    exec(open(spec).read(), g)
    d = os.path.join(SEEDED, g['ID'])
    wt = tempfile.mkdtemp(prefix='wt-')
    shutil.rmtree(wt)
    shutil.copytree('/repo', wt, symlinks=True)
    dd = tempfile.mkdtemp(prefix='demo-')
    try:
        sh('git checkout -q -- . && git clean -fdq', wt)
        if g['SH']:
            open(dd + '/demo.sh', 'w').write(g['SH'])
        else:
            open(dd + '/demo.sh', 'w').write(SH % {'pkg': g['PKG']})
            open(dd + '/demo_test.go', 'w').write(g['TEST'])
        for n, t in g['FILES'].items():
            open(os.path.join(dd, n), 'w').write(t)
        rc, out = sh('bash %s/demo.sh' % dd, wt)
        if rc != 0:
            print('FAIL: demo fails on the unchanged tree\n' + out[-1500:])
            return 1
        for f, old, new in g['EDITS']:
            p = os.path.join(wt, f)
            s = open(p).read()
            if s.count(old) != 1:
                print('FAIL: %r occurs %d times in %s' % (old, s.count(old), f))
                return 1
            open(p, 'w').write(s.replace(old, new))
        _, patch = sh('git diff', wt)
        # line_test.go does not compile at the pinned commit, see /opt/vp/test.sh
        open(dd + '/o.json', 'w').write(open('/opt/vp/overlay.json').read().replace('/repo/', wt + '/'))
        rc, out = sh('go build ./... && (go test -overlay %s/o.json -vet=off -json -count=1 ./... >%s/log; python3 /opt/vp/results.py %s/res gojson:%s/log)' % (dd, dd, dd, dd), wt)
        if os.path.exists(dd + '/res'):
            passed = set(json.load(open(dd + '/res'))['passed'])
            missing = [t for t in json.load(open('/opt/vp/BASELINE.json'))['stable'] if t not in passed]
            if missing:
                print('FAIL: tests', missing[:4])
                return 1
            os.remove(dd + '/res')
            os.remove(dd + '/log')
        else:
            print('FAIL: build', out[-1500:])
            return 1
        os.remove(dd + '/o.json')
        rc, out = sh('bash %s/demo.sh' % dd, wt)
        if rc == 0:
            print('FAIL: demo passes with the change')
            return 1
        os.makedirs(d, exist_ok=True)
        open(d + '/patch.diff', 'w').write(patch)
        for n in os.listdir(dd):
            shutil.copy(os.path.join(dd, n), d)
        os.chmod(d + '/demo.sh', 0o755)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        print('kept', g['ID'], '| demo says:', [l for l in out.splitlines() if 'zz_demo' in l or 'panic' in l][:2])
        return 0
    finally:
        shutil.rmtree(wt)
        shutil.rmtree(dd)


def catch(ids):
    ids = ids or sorted(os.listdir(SEEDED))
    if subprocess.run(['git', '-C', '/repo', 'status', '--porcelain', '-uno'], capture_output=True, text=True).stdout.strip():
        print('/repo is not clean')
        return 1
    bad = []
    for i in ids:
        d = os.path.join(SEEDED, i)
        prop = json.load(open(d + '/meta.json'))['property']
        t = time.time()
        try:
            subprocess.run(['git', '-C', '/repo', 'apply', d + '/patch.diff'], check=True)
            p = subprocess.run(['python3', '/verif/run.py', prop], capture_output=True, text=True)
        finally:
            subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
        ok = p.returncode == 1 and ('VIOLATION property=%s ' % prop) in p.stdout
        print('%-8s %-30s %s %.0fs' % ('caught' if ok else 'MISSED', i, prop, time.time() - t), flush=True)
        if not ok:
            bad.append(i)
            print(p.stdout[-600:])
    print('missed:', bad)
    return 0


if __name__ == '__main__':
    sys.exit(make(sys.argv[2]) if sys.argv[1] == 'make' else catch(sys.argv[2:]))
