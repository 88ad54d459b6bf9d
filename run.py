#!/usr/bin/env python3
"""Run the check of one property: build the harness (and, when needed, the
commands) from /repo's working tree in a scratch directory, replay the saved
cases, search with several shards, merge, write the evidence, give the verdict.

  run.py Cxx            tier and seed from VERIF_TIER / VERIF_SEED
  run.py Cxx --replay F replay one stored case
Exit 0 = held on everything explored, 1 = VIOLATION line printed, 2 = error.
"""
import json, os, resource, shutil, signal, subprocess, sys, tempfile, time, glob

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'tools'))
import checks as CH  # noqa: E402

REPO = '/repo'


def env():
    e = dict(os.environ)
    e.update(HOME='/root', GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOSUMDB='off',
             GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE='/root/.cache/go-build',
             GOTRACEBACK='all')
    e['PATH'] = '/opt/veriftools/go1.27.3/bin:' + e.get('PATH', '/usr/bin:/bin')
    for k in list(e):
        if k.startswith('RAPID_'):
            del e[k]
    return e


def die(msg):
    print('ERROR', msg)
    sys.exit(2)


def build(work, race, e, cmds):
    """Harness binary and the five commands, from the current tree."""
    h = os.path.join(work, 'harness')
    shutil.copytree(os.path.join(VERIF, 'harness'), h)
    exe = os.path.join(work, 'check')
    jobs = [['go', 'build'] + (['-race'] if race else []) + ['-o', exe, '.']]
    p = subprocess.run(jobs[0], cwd=h, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        die('harness does not build:\n' + p.stdout[-4000:])
    if cmds:
        b = os.path.join(work, 'bin')
        os.mkdir(b)
        # in a copy of the module's build list, so that /repo's go.mod/go.sum stay as they are
        mod = os.path.join(work, 'mod')
        os.mkdir(mod)
        shutil.copy(REPO + '/go.mod', mod)
        shutil.copy(REPO + '/go.sum', mod)
        p = subprocess.run(['go', 'build', '-modfile', mod + '/go.mod', '-o', b + '/'] + cmds, cwd=REPO, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            die('commands do not build:\n' + p.stdout[-4000:])
    return exe


def limits(cpu):
    def f():
        os.setsid()
        if cpu:
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def replay(exe, path, e, cwd, times=1, cpu=120, wall=400):
    """-> ('ok'|'violation'|'crash'|'stuck'|'error', text)"""
    try:
        p = subprocess.Popen([exe, '-replay', path, '-times', str(times)], env=e, cwd=cwd, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, preexec_fn=limits(cpu))
        try:
            out, _ = p.communicate(timeout=wall)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            return 'error', 'wall-clock limit'
    except OSError as ex:
        return 'error', str(ex)
    txt = out.decode('utf8', 'replace')
    rc = p.returncode
    if rc == 0 and 'REPLAY-OK' in txt:
        return 'ok', txt[-2000:]
    if rc == 1 and 'REPLAY-VIOLATION' in txt:
        return 'violation', txt[txt.index('REPLAY-VIOLATION'):][:6000]
    if rc == 77 or rc in (-signal.SIGXCPU, -signal.SIGKILL):
        return 'stuck', 'resource limit: rc=%d %s' % (rc, txt[-1500:])
    if rc == 78 or 'HARNESS' in txt:
        return 'error', txt[-3000:]
    return 'crash', 'the process ended with status %d\n%s' % (rc, crash_text(txt))


def crash_text(txt):
    for key in ('WARNING: DATA RACE', 'panic:', 'fatal error:'):
        if key in txt:
            return txt[txt.index(key):][:4000]
    return txt[-2500:]


def save_replay(pid, stored, work_detail):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, '%s.json' % pid)
    stored = dict(stored)
    stored['detail'] = work_detail
    with open(path, 'w') as f:
        json.dump(stored, f, indent=1)
    return path


def known_findings(pid):
    r = []
    f = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith('finding: property=%s ' % pid):
                rest = l.split(' ', 2)[2]
                key, _, text = rest.partition(' ')
                r.append((key, text))
    return r


def setup():
    """Warm the build cache: the harness with and without the race detector, and the commands."""
    e = env()
    work = tempfile.mkdtemp(prefix='verif-setup-')
    try:
        build(work, False, e, ['./cmd/...'])
        shutil.rmtree(os.path.join(work, 'harness'))
        build(work, True, e, [])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0


def main():
    if sys.argv[1:] == ['--setup']:
        return setup()
    if len(sys.argv) < 2 or sys.argv[1] not in CH.CHECKS:
        die('usage: run.py <property id> [--replay FILE]')
    pid = sys.argv[1]
    cfg = CH.CHECKS[pid]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    tier = os.environ.get('VERIF_TIER', 'quick')
    scale = os.environ.get('VERIF_SCALE', '')
    only = os.environ.get('VERIF_ONLY', '')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    t0 = time.time()
    e = env()
    work = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('VERIF_TMP') or None)
    os.chmod(work, 0o755)
    try:
        return run(pid, cfg, seed, tier, scale, only, e, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def run(pid, cfg, seed, tier, scale, only, e, work, t0):
    race = cfg.get('race', False)
    exe = build(work, race, e, cfg.get('cmds', []))
    e['VERIF_BIN'] = os.path.join(work, 'bin')
    e['VERIF_WORK'] = work
    e['TMPDIR'] = os.path.join(work, 'tmp')
    os.mkdir(e['TMPDIR'])
    if race:
        e['GORACE'] = 'halt_on_error=1 exitcode=66 atexit_sleep_ms=0'
    cwd = os.path.join(work, 'cwd')
    os.mkdir(cwd)
    for k, v in cfg.get('env', {}).items():
        e[k] = v

    if '--replay' in sys.argv:
        st, txt = replay(exe, os.path.abspath(sys.argv[sys.argv.index('--replay') + 1]), e, cwd)
        print(st)
        print(txt)
        return 1 if st in ('violation', 'crash', 'stuck') else (0 if st == 'ok' else 2)

    violations = []
    errors = []
    t_build = time.time() - t0
    # 1. saved cases
    corpus = sorted(glob.glob(os.path.join(VERIF, 'corpus', pid, '*.json')))
    nrep = 0
    for c in corpus:
        st, txt = replay(exe, c, e, cwd)
        nrep += 1
        if st in ('violation', 'crash') or (st == 'stuck' and cfg.get('termination', True)):
            violations.append((c, txt))
        elif st != 'ok':
            errors.append('replay of %s: %s %s' % (c, st, txt))
    # 2. search
    merged = dict(evaluations=0, excluded={}, tags={}, per_sub={}, known={}, samples=[])
    hashes = set()
    shards = cfg.get('shards', 8)
    if not violations and not errors:
        procs = []
        for i in range(shards):
            out = os.path.join(work, 'res%d.json' % i)
            cur = os.path.join(work, 'cur%d.json' % i)
            a = [exe, '-id', pid, '-seed', str(seed), '-shard', str(i), '-shards', str(shards), '-out', out, '-current', cur]
            if tier == 'thorough':
                a += ['-thorough', '-shrink', '60s']
            if scale:
                a += ['-scale', scale]
            if only:
                a += ['-only', only]
            ee = dict(e)
            ee.setdefault('GOMAXPROCS', str(cfg.get('procs', 2)))
            d = os.path.join(work, 'cwd%d' % i)
            os.mkdir(d)
            ee['TMPDIR'] = os.path.join(work, 'tmp%d' % i)
            os.mkdir(ee['TMPDIR'])
            procs.append((i, subprocess.Popen(a, env=ee, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                              preexec_fn=limits(0)), out, cur))
        deadline = t0 + (cfg.get('quick_deadline', 600) if tier == 'quick' else cfg.get('thorough_deadline', 3300))
        dead = []
        # a shard stuck in one case: its current file stops changing
        stuck_after = cfg.get('stuck_wall', 200 if tier == 'quick' else 400)
        live = list(procs)
        while live:
            time.sleep(0.05)
            for it in list(live):
                i, p, out, cur = it
                rc = p.poll()
                if rc is not None:
                    live.remove(it)
                    if rc != 0 or not os.path.exists(out):
                        dead.append((i, rc, cur, 'exit'))
                    continue
                now = time.time()
                try:
                    m = os.stat(cur).st_mtime
                except OSError:
                    m = now
                if now > deadline or now - max(m, t0) > stuck_after:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    live.remove(it)
                    dead.append((i, 'killed', cur, 'deadline' if now > deadline else 'stuck'))
        for i, p, out, cur in procs:
            if not os.path.exists(out):
                continue
            r = json.load(open(out))
            merged['evaluations'] += r['evaluations']
            for k in ('excluded', 'tags', 'per_sub', 'known'):
                for a, b in (r.get(k) or {}).items():
                    merged[k][a] = merged[k].get(a, 0) + b
            hashes.update(r.get('hashes') or [])
            if r.get('samples') and len(merged['samples']) < 12:
                merged['samples'] += r['samples'][:12 - len(merged['samples'])]
            if r.get('err'):
                errors.append('shard %d: %s %s' % (i, r['err'], json.dumps(r.get('first'))[:1500]))
            elif r.get('failure'):
                if r.get('flaky'):
                    errors.append('shard %d: failure that does not reproduce: %s' % (i, json.dumps(r['first'])[:3000]))
                else:
                    # confirm in a fresh process
                    tmp = os.path.join(work, 'fail%d.json' % i)
                    json.dump(r['failure'], open(tmp, 'w'))
                    st, txt = replay(exe, tmp, e, cwd, times=5)
                    if st in ('violation', 'crash'):
                        violations.append((r['failure'], txt))
                    else:
                        errors.append('shard %d: failure does not reproduce in a fresh process (%s): %s' % (
                            i, st, json.dumps(r['failure'])[:3000]))
        for i, rc, cur, why in dead:
            if not os.path.exists(cur):
                errors.append('shard %d ended with %s before its first case' % (i, rc))
                continue
            if violations:
                continue
            st, txt = replay(exe, cur, e, cwd, times=cfg.get('crash_times', 3))
            if st in ('violation', 'crash'):
                violations.append((json.load(open(cur)), txt))
            elif st == 'stuck' and cfg.get('termination', True):
                violations.append((json.load(open(cur)), 'does not finish within 120 s of CPU time, or within its memory limit (a case takes seconds at most)\n' + txt))
            else:
                errors.append('shard %d ended with %s (%s); replaying its case %s: %s %s' % (
                    i, rc, why, open(cur).read()[:3000], st, txt[-1500:]))
    wall = time.time() - t0

    kf = known_findings(pid)
    for key, text in kf:
        print('KNOWN-FINDING: property=%s %s %s' % (pid, key, text))
    cov = dict(evaluations=merged['evaluations'] + nrep, distinct_nontrivial=len(hashes),
               rule=cfg['rule'], samples=merged['samples'] or ['none: the run stopped in the replay of the saved cases'],
               replayed_saved_cases=nrep, per_statement=merged['per_sub'], classes=dict(sorted(merged['tags'].items())),
               excluded_outside_domain=merged['excluded'], shards=shards, build_s=round(t_build, 1))
    if merged['known']:
        cov['known_findings_met'] = merged['known']
    ev = dict(property=pid, tier=tier, seed=seed, level='exploration', coverage=cov,
              assumptions=cfg.get('assumptions', []), wall_s=round(wall, 2), violations=len(violations))
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % pid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, '%s.json' % pid))

    if violations:
        # prefer the smallest case
        best = None
        for c, txt in violations:
            if isinstance(c, str):
                best = (c, txt)
                break
            n = len(json.dumps(c))
            if best is None or n < best[2]:
                best = (c, txt, n)
        c, txt = best[0], best[1]
        path = c if isinstance(c, str) else save_replay(pid, c, txt)
        print(txt)
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for x in errors[:5]:
            print('ERROR', x)
        return 2
    try:  # what an earlier run found is gone
        os.remove(os.path.join(VERIF, 'evidence', 'replay', pid + '.json'))
    except OSError:
        pass
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs' % (
        pid, tier, seed, cov['evaluations'], cov['distinct_nontrivial'], wall))
    return 0


if __name__ == '__main__':
    sys.exit(main())
