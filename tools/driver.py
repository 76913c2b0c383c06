"""Runs the deductive proofs and the bounded exploration for one property and combines them."""
import fcntl, json, os, re, shutil, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
EVID = os.path.join(VERIF, 'evidence')
HARN = os.path.join(VERIF, 'harness')


def tree_hash():
    import hashlib
    h = hashlib.sha256()
    for base in (os.path.join(REPO, 'src'), os.path.join(HARN, 'src')):
        for d, _, fs in sorted(os.walk(base)):
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode()); h.update(open(p, 'rb').read())
    for p in (os.path.join(REPO, 'Cargo.toml'), os.path.join(HARN, 'Cargo.toml')):
        h.update(open(p, 'rb').read())
    return h.hexdigest()


def build_harness():
    """Build the exploration harness from /repo's working tree. Returns (binary, note)."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        want = tree_hash()
        err = ''
        for mode, flags in (('hooks', '--cfg verif_hooks -Awarnings'), ('nohooks', '-Awarnings')):
            tgt = os.path.join(BUILD, mode)
            exe = os.path.join(tgt, 'debug', 'verif-harness')
            stamp = os.path.join(tgt, 'verif-stamp')
            note = 'built with the hooks' if mode == 'hooks' else \
                'built without the hooks (they do not compile against this tree); private state is not compared'
            if os.path.exists(stamp) and os.path.exists(exe) and open(stamp).read() == want:
                return exe, note
            # cargo decides by time stamps: make sure the crate under test is rebuilt
            fp = os.path.join(tgt, 'debug', '.fingerprint')
            if os.path.isdir(fp):
                for n in os.listdir(fp):
                    if n.startswith('rust-systre') or n.startswith('verif-harness'):
                        shutil.rmtree(os.path.join(fp, n))
            env = dict(os.environ, RUSTFLAGS=flags, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
            r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=HARN, env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode == 0:
                open(stamp, 'w').write(want)
                return exe, note
            err = r.stdout[-3000:]
        return None, 'the harness does not compile against this tree:\n' + err


def explore(pid, thorough, seed, secs, extra=()):
    exe, note = build_harness()
    if exe is None:
        return {'built': False, 'note': note}
    out = os.path.join(BUILD, 'result-%s-%d.json' % (pid, os.getpid()))
    cmd = [exe, pid, '--seed', str(seed), '--secs', str(secs), '--out', out] + (['--thorough'] if thorough else []) + list(extra)
    t = time.time()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=secs + 120)
    d = {'built': True, 'note': note, 'rc': r.returncode, 'wall': time.time() - t, 'cmd': cmd}
    if r.returncode < 0 and not os.path.exists(out):
        # the process was killed by the code under test (abort, stack overflow, ...)
        d['crash'] = 'the process running the code under test ended with signal %d\n%s' % (-r.returncode, r.stderr[-500:])
        return d
    if r.returncode != 0 or not os.path.exists(out):
        raise RuntimeError('harness: exit %s %s' % (r.returncode, r.stderr[-2000:]))
    d.update(json.load(open(out)))
    os.remove(out)
    return d


def known():
    res = []
    for l in open(os.path.join(VERIF, 'known-findings.txt')):
        m = re.match(r'known: property=(\S+) check=(.*?) input=(.*?) \| (.*)$', l.strip())
        if m:
            res.append(m.groups())
    return res


def main(argv):
    pid = argv[0]
    thorough = '--thorough' in argv or os.environ.get('VERIF_TIER') == 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    import proofs
    pr = {}

    def prove():
        try:
            pr.update(proofs.run(pid, thorough))
        except Exception as e:          # the proof machinery itself failed: say so, do not alarm
            pr.update({'status': 'not-run', 'note': 'proof machinery: %r' % (e,)})
    th = threading.Thread(target=prove)
    th.start()
    ex = explore(pid, thorough, seed, 400 if thorough else 100)
    th.join()
    # a contract that no longer holds, or could not be decided: look harder for a failing input
    if not ex.get('violations') and not ex.get('crash') and ex.get('built') and (pr.get('failed') or pr.get('undecided')):
        deeper = explore(pid, True, seed + 1000, 200 if pr.get('failed') else 80)
        for k in ('evaluations', 'distinct'):
            deeper[k] = deeper.get(k, 0) + ex.get(k, 0)
        ex = deeper

    os.makedirs(EVID, exist_ok=True)
    rdir = os.path.join(VERIF, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines, nviol = [], 0
    kn = [k for k in known() if k[0] == pid]
    new = []
    for v in ex.get('violations', []):
        k = next((k for k in kn if k[1] == v['check'] and k[2] == v['input']), None)
        if k:
            lines.append('KNOWN-FINDING: property=%s %s' % (pid, k[3]))
        else:
            new.append(v)
    if ex.get('crash'):
        new.append({'check': 'run', 'index': 0, 'input': 'see command', 'message': ex['crash']})
    fails = pr.get('failed', [])
    if new:
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: the code in /repo breaks it on these inputs\n' % pid)
            for v in new:
                f.write('\nsub-check: %s\ninput: %s\nobserved: %s\n' % (v['check'], v['input'], v['message']))
                f.write('replay: %s\n' % ' '.join(ex['cmd'] + ['--only', str(v['index'])]))
            for o in fails:
                f.write('\nfailed obligation: %s\n%s\n' % (o['name'], o['output']))
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        nviol += len(new)
    elif fails:
        path = os.path.join(rdir, '%s.txt' % pid)
        with open(path, 'w') as f:
            f.write('property %s: the verifier rejects these obligations, generated from /repo; no failing input is known\n' % pid)
            for o in fails:
                f.write('\nfailed obligation: %s\n%s\n' % (o['name'], o['output']))
            f.write('\nre-run: cd /verif && ./check %s\n' % pid)
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        nviol += len(fails)

    cov = {
        'evaluations': ex.get('evaluations', 0), 'distinct_nontrivial': ex.get('distinct', 0),
        'rule': 'inputs generated from VERIF_SEED by the harness module of this property and compared with an independent oracle; '
                'distinct = different sub-check or input text',
        'per_subcheck': ex.get('per_check', {}), 'samples': ex.get('samples', []) or ['none'],
        'bounded': 'the exploration is a bounded stand-in; it is not counted as proved',
        'harness': ex['note'],
    }
    level = proofs.level(pid, pr)
    cov.update(proofs.coverage(pid, pr))
    ev = {'property': pid, 'tier': 'thorough' if thorough else 'quick', 'seed': seed, 'level': level,
          'coverage': cov, 'assumptions': proofs.assumptions(pid, pr),
          'wall_s': round(time.time() - t0, 2), 'violations': nviol}
    tmp = os.path.join(EVID, '.%s.%d' % (pid, os.getpid()))
    json.dump(ev, open(tmp, 'w'), indent=1, ensure_ascii=False)
    os.replace(tmp, os.path.join(EVID, pid + '.json'))
    for l in lines:
        print(l)
    print('%s: %d cases, %s violations; proofs: %s (%d of %d obligations)' % (
        pid, cov['evaluations'], nviol, pr.get('status', 'none'), pr.get('discharged', 0), pr.get('obligations', 0)))
    return 1 if nviol else 0
