"""The deductive stage: extract the functions under contract from /repo's current source, verify them with Verus,
and say for every function whether its contract was discharged, refuted, or could not be decided."""
import fcntl, hashlib, json, os, re, subprocess, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
BUILD = os.path.join(VERIF, 'build')
SPECS = os.path.join(VERIF, 'specs')
CONF = json.load(open(os.path.join(SPECS, 'props.json')))


def extractor():
    os.makedirs(BUILD, exist_ok=True)
    tgt = os.path.join(BUILD, 'extract')
    exe = os.path.join(tgt, 'debug', 'verif-extract')
    src = os.path.join(VERIF, 'extract')
    with open(os.path.join(BUILD, 'lock-extract'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        h = hashlib.sha256()
        for p in ('src/main.rs', 'src/lower.rs', 'Cargo.toml'):
            h.update(open(os.path.join(src, p), 'rb').read())
        stamp = os.path.join(tgt, 'verif-stamp')
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return exe
        env = dict(os.environ, CARGO_TARGET_DIR=tgt, CARGO_NET_OFFLINE='true')
        r = subprocess.run(['cargo', 'build', '--offline', '--locked'], cwd=src, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('extractor: ' + r.stdout[-2000:])
        open(stamp, 'w').write(h.hexdigest())
    return exe


def regions(rs):
    """line -> label of the extracted function it belongs to"""
    out, cur = {}, None
    for i, l in enumerate(open(rs), 1):
        if l.startswith('// >>fn '):
            cur = l[8:].rstrip('\n')
        elif l.startswith('// <<fn '):
            cur = None
        elif cur:
            out[i] = cur
    return out


def verus(rs, limit, extra=()):
    cmd = ['verus', os.path.basename(rs), '--output-json', '--time-expanded', '--error-format=json',
           '--multiple-errors', '0', '--num-threads', '4', '--triggers-mode', 'silent'] + list(extra)
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.dirname(rs), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return {'timeout': True, 'wall': time.time() - t, 'diags': [], 'cmd': cmd}
    diags = []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('level', '').startswith('error') and not d['message'].startswith('aborting due to'):
            diags.append(d)
    try:
        j = json.loads(r.stdout)
    except ValueError:
        j = {}
    vr = j.get('verification-results', {})
    return {'timeout': False, 'wall': time.time() - t, 'diags': diags, 'results': vr, 'cmd': cmd,
            'smt_ms': j.get('times-ms', {}).get('smt', {}).get('total', 0), 'stderr': r.stderr,
            'ran': bool(vr) and not vr.get('encountered-vir-error', False) and vr.get('verified', 0) + vr.get('errors', 0) > 0
                   and not any(d.get('code') for d in diags)}


def where(d, reg, start_of):
    """the extracted function an error belongs to"""
    spans = d.get('spans', [])
    pref = [s for s in spans if (s.get('label') or '').startswith(('at the end of the function body', 'at this exit', 'at this'))]
    pref += [s for s in spans if s.get('is_primary')] + spans
    for s in pref:
        for i in range(s['line_start'], s['line_end'] + 1):
            if i in reg:
                return reg[i], s
    return None, (pref[0] if pref else None)


def show(d, rs):
    lines = open(rs).read().splitlines()
    out = [d['message']]
    for s in d.get('spans', []):
        i = s['line_start']
        out.append('  %s:%d: %s%s' % (os.path.basename(rs), i, (s.get('label') + ': ') if s.get('label') else '', lines[i - 1].strip() if i <= len(lines) else ''))
    return '\n'.join(out)


def unit(name, thorough, src=None):
    """Extract and verify one unit. Returns per-function verdicts."""
    exe = extractor()
    work = os.path.join(BUILD, 'verus-%d' % os.getpid())
    os.makedirs(work, exist_ok=True)
    src = src or os.path.join(REPO, 'src')
    rs, js = os.path.join(work, name + '.rs'), os.path.join(work, name + '.json')
    drops = []
    limit = 400 if thorough else 240
    res = {'unit': name, 'functions': {}, 'failed': [], 'undecided': [], 'probe_unreached': [], 'smt_ms': 0, 'wall': 0, 'verified': 0,
           'trusted': [], 'imported': [], 'cmd': ''}

    def extract(out, outj, probe=0):
        cmd = [exe, src, SPECS, name + '.vs', os.path.join(SPECS, 'baseline.txt'), out, outj]
        for d in drops:
            cmd += ['--drop', d]
        if probe:
            cmd += ['--probe', str(probe)]
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise RuntimeError('extraction of %s: %s' % (name, r.stdout[-1500:]))
        return json.load(open(outj))

    info = extract(rs, js)
    for _ in range(12):
        v = verus(rs, limit)
        res['cmd'] = ' '.join(v['cmd'])
        res['wall'] += v['wall']
        if v['timeout'] or v['ran']:
            break
        reg = regions(rs)
        more = []
        for d in v['diags']:
            lab, _s = where(d, reg, None)
            if lab and lab not in drops and lab not in more:
                more.append(lab)
        if not more:
            res['undecided'].append({'name': name, 'why': 'the extracted text is outside the verifier\'s language: ' +
                                     '; '.join(show(d, rs).split('\n')[0] for d in v['diags'][:3])})
            break
        drops += more
        info = extract(rs, js)
    own = [f for f in info['functions'] if not f['imported']]
    res['imported'] = [f['label'] for f in info['functions'] if f['imported']]
    byl = {}
    for f in own:
        byl[f['label']] = f
        verdict = 'discharged'
        if f['error']:
            verdict = 'undecided'
            res['undecided'].append({'name': f['label'], 'why': f['error']})
        res['functions'][f['label']] = {'file': f['file'], 'verdict': verdict, 'lines': f['lines']}
    text = open(rs).read()
    res['trusted'] = trusted(text, regions(rs))
    if not v.get('ran'):
        if v['timeout']:
            res['undecided'].append({'name': name, 'why': 'no answer within %d s' % limit})
        for f in res['functions'].values():
            f['verdict'] = 'undecided'
        return res
    res['verified'] = v['results'].get('verified', 0)
    res['smt_ms'] = v['smt_ms']
    reg = regions(rs)
    bad = judge(v['diags'], reg, rs)
    if bad:
        # a second opinion: another solver seed and more resources, so that an unlucky search is not taken for a refutation
        v2 = verus(rs, limit, ['--rlimit', '40', '--smt-option', 'smt.random_seed=7', '--smt-option', 'sat.random_seed=7'])
        if v2.get('ran'):
            bad2 = judge(v2['diags'], reg, rs)
            for k in list(bad):
                if k not in bad2:
                    del bad[k]
                elif bad2[k]['rlimit']:
                    bad[k]['rlimit'] = True
            if v2['results'].get('verified', 0) > res['verified']:
                res['verified'] = v2['results']['verified']
    for lab, b in bad.items():
        f = byl.get(lab)
        if f is None:
            res['undecided'].append({'name': lab, 'why': b['text']})
            continue
        same = f['base_skel'] is not None and f['base_skel'] == f['skel'] and not f['unused']
        if same and not b['rlimit']:
            res['functions'][lab]['verdict'] = 'failed'
            res['failed'].append({'name': '%s (%s)' % (lab, f['file']), 'label': lab, 'output': b['text']})
        else:
            res['functions'][lab]['verdict'] = 'undecided'
            res['undecided'].append({'name': lab, 'why': ('resource limit: ' if b['rlimit'] else
                                     'the function was restructured and its loop annotations no longer fit: ') + b['text']})
    # vacuity: with 'assert(false)' put first (thorough: also last) every function must be rejected
    for p in (1, 2) if thorough else (1,):
        prs, pjs = rs[:-3] + '_probe%d.rs' % p, js[:-5] + '_probe%d.json' % p
        extract(prs, pjs, p)
        pv = verus(prs, limit)
        if pv.get('ran'):
            hit = judge(pv['diags'], regions(prs), prs)
            for lab in res['functions']:
                if res['functions'][lab]['verdict'] == 'discharged' and lab not in hit:
                    res['probe_unreached'].append('%s (probe %d)' % (lab, p))
        else:
            res['probe_unreached'].append('probe %d gave no answer' % p)
    return res


def judge(diags, reg, rs):
    bad = {}
    for d in diags:
        lab, _s = where(d, reg, None)
        lab = lab or 'lemma'
        b = bad.setdefault(lab, {'rlimit': False, 'text': ''})
        if 'rlimit' in d['message'] or 'Resource limit' in d['message']:
            b['rlimit'] = True
        b['text'] += show(d, rs) + '\n'
    return bad


def trusted(text, reg):
    out = []
    lines = text.splitlines()
    for i, l in enumerate(lines, 1):
        if i in reg:
            continue
        if 'external_body' in l:
            m = re.search(r'\bfn (\w+)', l) or re.search(r'\bfn (\w+)', lines[i] if i < len(lines) else '')
            j = i
            ctx = ''
            while j > 0:
                m2 = re.match(r'\s*impl.*', lines[j - 1])
                if m2:
                    ctx = lines[j - 1].strip().split('{')[0].strip()
                    break
                if lines[j - 1].startswith('}') or re.match(r'(pub )?(proof |open |closed )?(spec )?fn', lines[j - 1]):
                    break
                j -= 1
            if m:
                out.append((ctx + ' :: ' if ctx else '') + m.group(1))
        elif 'assume_specification' in l:
            out.append(re.sub(r'.*assume_specification.*\[\s*(.*?)\s*\].*', r'assumed: \1', l))
        elif re.search(r'\b(assume|admit)\s*\(', l):
            out.append('assume: ' + l.strip())
        elif re.search(r'broadcast axiom|axiom fn', l):
            out.append(l.strip())
    # one line per group of operator implementations
    seen, res = set(), []
    for o in out:
        o = re.sub(r'impl V\w+(<&*\w+>)? for &*(Rat|Int|i64|i32|usize) :: \w+', r'\2: exact operators', o)
        if o not in seen:
            seen.add(o)
            res.append(o)
    return res


def run(pid, thorough):
    c = CONF.get(pid)
    if not c:
        return {'status': 'none', 'obligations': 0, 'discharged': 0, 'failed': []}
    t = time.time()
    with ThreadPoolExecutor(max_workers=4) as ex:
        us = list(ex.map(lambda u: unit(u, thorough), c['units']))
    import shutil
    shutil.rmtree(os.path.join(BUILD, 'verus-%d' % os.getpid()), ignore_errors=True)
    fns, failed, und, unreached = {}, [], [], []
    obl = dis = 0
    for u in us:
        for k, f in u['functions'].items():
            fns[u['unit'] + ': ' + k] = f
        bad = sum(1 for f in u['functions'].values() if f['verdict'] != 'discharged')
        obl += u['verified'] + bad if u['verified'] else len(u['functions'])
        dis += u['verified']
        # contracts of the unit that this property does not depend on are reported, and judged by the properties that do
        other = lambda n: any(re.search(x, n) for x in c.get('ignore', []))
        failed += [x for x in u['failed'] if not other(x['name'])]
        und += [x for x in u['undecided'] if not other(x['name'])]
        unreached += [x for x in u['probe_unreached'] if not other(x)]
    st = 'failed' if failed else 'undecided' if und else 'vacuous' if unreached or not obl else 'proved'
    return {'status': st, 'obligations': obl, 'discharged': dis, 'failed': failed, 'undecided': und, 'unreached': unreached,
            'functions': fns, 'units': us, 'wall': time.time() - t}


def level(pid, pr=None):
    c = CONF.get(pid)
    if not c:
        return 'exploration'
    if pr is not None and pr.get('status') not in ('proved', 'failed'):
        return 'exploration'
    return c['level']


def coverage(pid, pr):
    c = CONF.get(pid)
    if not c or 'units' not in pr:
        return {'proof_status': pr.get('status', 'none'), 'proof_note': pr.get('note', '')}
    us = pr['units']
    tb = []
    for u in us:
        for x in u['trusted']:
            if x not in tb:
                tb.append(x)
    return {
        'obligations': pr['obligations'], 'discharged': pr['discharged'],
        'checker_cmd': 'verif-extract /repo/src specs UNIT.vs ... && ' + us[0]['cmd'] + '   (once per unit: %s)' % ', '.join(u['unit'] for u in us),
        'trusted_base': tb + ['the mechanical lowering of verif-extract (see DESIGN.md)', 'Verus 0.2026.09.13, its Z3 and vstd'],
        'proof_status': pr['status'],
        'functions_under_contract': ['%s [%s] %s' % (k, f['file'], f['verdict']) for k, f in pr['functions'].items()],
        'contracts_assumed_here_and_discharged_elsewhere': sorted(set(x for u in us for x in u['imported'])),
        'undecided_functions': ['%s: %s' % (x['name'], x['why'][:400]) for x in pr['undecided']],
        'vacuity_guard': 'every function is rejected when assert(false) is put first' if not pr['unreached'] else pr['unreached'],
        'solver_s': round(sum(u['smt_ms'] for u in us) / 1000.0, 2), 'proof_wall_s': round(pr['wall'], 1),
        'proved': c['proved'], 'not_proved': c['not_proved'],
    }


def assumptions(pid, pr):
    c = CONF.get(pid)
    if not c:
        return []
    return CONF['_assumptions'] + c.get('assumptions', [])


def baseline():
    """Record names and control structure of the functions under contract (run on the unchanged tree)."""
    exe = extractor()
    seen = {}
    work = os.path.join(BUILD, 'baseline')
    os.makedirs(work, exist_ok=True)
    for u in sorted({u for k, c in CONF.items() if not k.startswith('_') for u in c['units']}):
        js = os.path.join(work, u + '.json')
        subprocess.run([exe, os.path.join(REPO, 'src'), SPECS, u + '.vs', '/dev/null', os.path.join(work, u + '.rs'), js], check=True)
        for f in json.load(open(js))['functions']:
            if f['error']:
                print('ERROR', u, f['label'], f['error'])
            seen[(f['file'], f['key'])] = (' '.join(f['binds']), f['skel'].split('#')[0])
    with open(os.path.join(SPECS, 'baseline.txt'), 'w') as o:
        for (a, b), (c, d) in sorted(seen.items()):
            o.write('\t'.join((a, b, c, d)) + '\n')


if __name__ == '__main__':
    import sys
    if sys.argv[1] == 'baseline':
        baseline()
    elif sys.argv[1] == 'unit':
        u = unit(sys.argv[2], '--thorough' in sys.argv)
        u['functions'] = {k: f for k, f in u['functions'].items() if f['verdict'] != 'discharged'}
        u.pop('imported'); 
        if '-v' not in sys.argv: u.pop('trusted')
        print(json.dumps(u, indent=1))
