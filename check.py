#!/usr/bin/env python3
"""Decides one property of /repo:  python3 check.py C01

Exit 0: every obligation generated from /repo's current source was discharged and no failing input was found.
Exit 1 + VIOLATION line: an obligation fails (with a failing input where one is found).
Any other exit: the check itself could not run.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
WORK = os.path.join(V, 'work')
HARNESS = os.path.join(V, 'harness')
os.environ['CARGO_NET_OFFLINE'] = 'true'

def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, **kw)

def build_harness():
    env = dict(os.environ); env.pop('RUSTFLAGS', None)
    r = sh(['cargo', 'build', '--release', '--offline'], cwd=HARNESS, env=env, timeout=600)
    if r.returncode != 0:
        sys.stderr.write(r.stdout[-2000:] + r.stderr[-6000:])
        print('check error: the harness does not build against /repo')
        sys.exit(2)
    return os.path.join(HARNESS, 'target/release/harness')

def bounded(binary, prop, secs, seed, cases=None):
    cmd = [binary, 'fuzz', prop, '--secs', str(secs), '--seed', str(seed), '--threads', str(os.cpu_count() or 8)]
    if cases: cmd += ['--cases', str(cases)]
    try:
        r = sh(cmd, timeout=secs + 240)
    except subprocess.TimeoutExpired:
        return None, 'harness timed out'
    for line in r.stdout.splitlines():
        try: d = json.loads(line)
        except ValueError: continue
        if d.get('property') == prop: return d, None
    return None, 'harness died: rc=%s %s' % (r.returncode, (r.stdout + r.stderr)[-1500:])

def known_findings(prop):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    for line in open(p):
        line = line.strip()
        if line.startswith('{'):
            d = json.loads(line)
            if d['property'] == prop and d['status'] == 'known': out.append(d)
    return out

def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(WORK, exist_ok=True); os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    import obligations
    plan = obligations.PLAN[prop]

    # 1. the proof: obligations generated from /repo's current source
    res = obligations.run(prop, REPO, WORK, tier)        # list of dicts
    # 2. the bounded stand-in for what is not under contract, and the search for failing inputs
    binary = build_harness()
    secs = (30 if tier == 'quick' else 420)
    failed = [o for o in res if o['status'] == 'failed']
    if failed: secs = max(secs, 120)
    d, err = bounded(binary, prop, secs, seed)
    if d is None and err and 'timed out' not in err:
        d, err = bounded(binary, prop, secs, seed + 1000)
    if d is None:
        print('check error:', err); sys.exit(2)

    violations = list(d.get('violations') or [])
    if d.get('hang'):
        if prop == 'C08': violations.append(dict(property=prop, key='hang', detail='does not return', **d['hang']) if isinstance(d['hang'], dict) else dict(property=prop, key='hang', detail=str(d['hang'])))
    proved = [o for o in res if o['status'] == 'proved']
    open_ = [o for o in res if o['status'] not in ('proved', 'failed')]

    # 3. known findings
    for k in known_findings(prop):
        r = sh([binary, 'parse', k.get('config', '')], input=k['doc'], timeout=120)
        if k['expect'] in r.stdout:
            print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))

    # 4. verdict
    rc = 0
    replay = os.path.join(V, 'evidence', 'replay_%s.json' % prop)
    if os.path.exists(replay): os.remove(replay)
    if violations or failed:
        rc = 1
        v = violations[0] if violations else None
        json.dump(dict(property=prop, failed_obligations=failed, failing_input=v,
                       replay_cmd=('cd /verif/harness && ./target/release/harness case %s "%s" AUX < DOC  (doc, config and aux as in failing_input)' % (prop, v.get('config', ''))) if v else None,
                       other_inputs=violations[1:6]), open(replay, 'w'), indent=1, ensure_ascii=False)
        for o in failed: print('failed obligation: %s: %s' % (o['name'], o.get('detail', '')[:300]))
        if v: print('failing input (config %r): %r -> %s' % (v.get('config'), v.get('doc'), str(v.get('detail'))[:600]))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if v else ' no-failing-input-found'))

    ev = dict(property=prop, tier=tier, seed=seed, level=plan['level'], wall_s=round(time.time() - t0, 2), violations=(1 if rc else 0))
    cov = dict(bounded=dict(label='bounded: generated documents run on the real parser; not counted as proved',
                            evaluations=d['evaluations'], distinct_nontrivial=d['distinct_nontrivial'], not_applicable=d.get('not_applicable', 0), rule=plan['rule'], samples=d.get('samples', [])[:3]))
    if plan['level'] == 'proof' and res:
        cov.update(obligations=len(res), discharged=len(proved), checker_cmd=plan['checker_cmd'], trusted_base=plan['trusted'],
                   functions_under_contract=sorted({o['function'] for o in proved if o.get('function')}),
                   by_backend={b: sum(1 for o in proved if o.get('backend') == b) for b in sorted({o.get('backend', '?') for o in res})},
                   solver_seconds=round(sum(o.get('secs', 0) for o in res), 2),
                   not_established=[dict(name=o['name'], status=o['status'], detail=o.get('detail', '')[:400]) for o in open_],
                   failed=[dict(name=o['name'], detail=o.get('detail', '')[:400]) for o in failed],
                   obligation_names=[o['name'] for o in res][:400])
        if open_: cov['note'] = 'obligations listed under not_established could not be generated or decided on this tree; for them only the bounded run stands in'
    else:
        ev['level'] = 'exploration'
        cov.update(evaluations=d['evaluations'], distinct_nontrivial=d['distinct_nontrivial'], rule=plan['rule'], samples=d.get('samples', [])[:3])
    ev['coverage'] = cov
    ev['assumptions'] = plan['assumptions']
    json.dump(ev, open(os.path.join(V, 'evidence', prop + '.json'), 'w'), indent=1, ensure_ascii=False)
    print('%s: %d obligations, %d discharged, %d failed, %d not established; bounded run: %d evaluations, %d violations; %.1f s' %
          (prop, len(res), len(proved), len(failed), len(open_), d['evaluations'], len(violations), time.time() - t0))
    sys.exit(rc)

if __name__ == '__main__': main()
