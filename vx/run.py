"""Runs the Verus units: extract from /repo, verify, and check that no contract is vacuous."""
import glob, json, os, re, subprocess, sys, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import extract

def units(prop=None):
    out = []
    for p in sorted(glob.glob(os.path.join(HERE, 'units', '*.vrs'))):
        u = extract.parse_unit(p)
        if prop is None or prop in u['props']: out.append((p, u))
    return out

def verus(path, timeout, extra=()):
    t = time.time()
    try:
        r = subprocess.run(['verus', os.path.basename(path), '--crate-type', 'lib', '--multiple-errors', '3', '--triggers-mode', 'silent', '--output-json', '--time-expanded', *extra],
                           cwd=os.path.dirname(path), capture_output=True, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: return None, '', time.time() - t
    try: js = json.loads(r.stdout[r.stdout.index('{'):])
    except ValueError: js = None
    return js, r.stderr, time.time() - t

def err_blocks(err):
    """[(message, line numbers)] of the errors in Verus' output"""
    out = []
    for b in re.split(r'\n(?=(?:error|warning|note)(?:\[|:))', '\n' + err):
        b = b.strip('\n')
        if not b.startswith('error') or b.startswith('error: aborting'): continue
        lines = [int(x) for x in re.findall(r'^\s*(\d+) [|/]', b, re.M)] + [int(x) for x in re.findall(r'-->\s*\S+?:(\d+):', b)]
        out.append((b, lines))
    return out

def run_unit(path, repo, work, timeout=240):
    """-> list of obligations"""
    name = os.path.basename(path)[:-4]
    out = os.path.join(work, 'vx_%s.rs' % name)
    ob = lambda fn, st, detail='', secs=0.0: dict(name='verus:%s:%s' % (name, fn), function=fn, status=st, backend='verus/z3', secs=secs, detail=detail, unit=name)
    u = extract.parse_unit(path)
    fns = [(p.get('impl', '') + '::' if p.get('impl') else '') + p['name'] for p in u['parts'] if not isinstance(p, str) and p['kind'] == 'fn']
    try: u, spans = extract.build(repo, path, out)
    except extract.Lost as e: return [ob(f, 'not established', 'extraction: %s' % e) for f in fns]
    except Exception as e: return [ob(f, 'not established', 'extraction: %r' % e) for f in fns]
    js, err, secs = verus(out, timeout)
    vr = (js or {}).get('verification-results') or {}
    if js is None or 'verified' not in vr or vr.get('encountered-vir-error'):
        return [ob(f, 'not established', 'outside the verifier\'s reach: ' + err[:1500], secs / max(1, len(fns))) for f in fns]
    blocks = err_blocks(err)
    hard = [b for b in blocks if re.match(r'error\[E\d+\]', b[0])]
    if hard: return [ob(f, 'not established', 'does not compile under Verus: ' + hard[0][0][:800]) for f in fns]
    times = {}
    def walk(x):
        if isinstance(x, dict):
            if 'function' in x and ('time' in x or 'time-micros' in x): times[x['function'].split('::', 1)[1]] = x.get('time-micros', x.get('time', 0) * 1000) / 1e6
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk((js or {}).get('times-ms') or {})
    res, used = [], set()
    for (a, b, fn, f) in spans:
        mine = [(i, t) for i, (t, ls) in enumerate(blocks) if any(a <= l <= b for l in ls)]
        used |= {i for i, _ in mine}
        tm = sum(v for k, v in times.items() if k.endswith('::' + fn.split('::')[-1]))
        if not mine: res.append(ob(fn, 'proved', '', tm))
        elif all('rlimit' in t or 'Resource limit' in t for _, t in mine): res.append(ob(fn, 'undecided', mine[0][1][:800], tm))
        else: res.append(ob(fn, 'failed', '\n'.join(t for _, t in mine)[:3000], tm))
    rest = [t for i, (t, ls) in enumerate(blocks) if i not in used]
    lem = [k for k in times if not any(k.endswith('::' + fn.split('::')[-1]) for fn in fns)]
    # our own lemmas and code outside the extracted functions: an error there is ours, and nothing is established
    if rest:
        return [dict(o, status='not established', detail='an auxiliary lemma fails: ' + rest[0][:800]) for o in res]
    if vr['verified'] == 0: return [dict(o, status='not established', detail='nothing was verified') for o in res]
    res.append(ob('lemmas (%d of our own)' % max(0, vr['verified'] - len(fns)), 'proved' if not [o for o in res if o['status'] != 'proved'] or vr['verified'] else 'undecided', '', sum(times.get(k, 0) for k in lem)))
    res[-1]['function'] = None
    # vacuity guard: with `ensures false` added, every function has to fail
    def canary(fn):
        can = os.path.join(work, 'vx_%s_canary_%s.rs' % (name, fn.replace('::', '_')))
        _, sp = extract.build(repo, path, can, canary=fn)
        return fn, sp, verus(can, timeout)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex: cans = list(ex.map(canary, [s[2] for s in spans]))
    for fn, sp, (js2, err2, _) in cans:
        b2 = err_blocks(err2)
        if not any(a <= l <= b for (a, b, g, _) in sp if g == fn for (_, ls) in b2 for l in ls):
            for o in res:
                if o['function'] == fn and o['status'] == 'proved': o['status'] = 'not established'; o['detail'] = 'vacuous: also verifies with ensures false'
    return res

if __name__ == '__main__':
    import tempfile
    w = '/tmp/w/run'; os.makedirs(w, exist_ok=True)
    for p, u in units():
        if len(sys.argv) > 1 and u['name'] not in sys.argv[1:]: continue
        for o in run_unit(p, os.environ.get('VERIF_REPO', '/repo'), w): print('%-16s %-60s %.2f %s' % (o['status'], o['name'], o['secs'], o['detail'][:200]))
