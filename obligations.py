"""The obligations of each property: which are generated, from what, and what they rest on."""
import json, os, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'vx'))
RULE = ('documents: templates x payloads and random syntax trees for the property, random settings; a case is non-trivial when '
        "the property's oracle had something to look at (see harness/src/oracle.rs)")
VX_TRUSTED = ['Verus 0.2026.09.13 and its z3', 'vx/extract.py (what it drops and rewrites is listed per unit in vx/units and DESIGN.md)',
              'assumed contracts of std::string, indexmap and fancy_regex in vx/*.rs']
MIR_TRUSTED = ['rustc nightly -Zunpretty=mir', 'mirvc/mir.py and mirvc/engine.py (VC generator), z3 4.x', 'meaning given to library calls in mirvc/engine.py and mirvc/specs.py']
ASSUME = ['machine arithmetic on usize/i32 counters does not overflow unless an obligation says so', 'the regex engine, ammonia, url and indexmap crates behave as their assumed contracts state']
PLAN = {('C%02d' % i): dict(level='proof', rule=RULE, checker_cmd='python3 /verif/check.py C%02d' % i, trusted=VX_TRUSTED + MIR_TRUSTED, assumptions=ASSUME) for i in range(1, 17)}

def mir_tier(prop, repo, work):
    script = os.path.join(HERE, 'mirvc', 'run.py')
    if not os.path.exists(script): return []
    t = time.time()
    try: r = subprocess.run(['python3-vt', '-B', script, prop, repo, work], capture_output=True, text=True, timeout=500)
    except subprocess.TimeoutExpired: return [dict(name='mir:%s' % prop, status='undecided', function=None, backend='mirvc/z3', secs=500.0, detail='time limit')]
    try: return json.loads(r.stdout)
    except ValueError: return [dict(name='mir:%s' % prop, status='not established', function=None, backend='mirvc/z3', secs=time.time() - t, detail=(r.stdout + r.stderr)[-800:])]

def run(prop, repo, work, tier):
    import run as vx
    jobs = [lambda p=p: vx.run_unit(p, repo, work) for p, u in vx.units(prop)] + [lambda: mir_tier(prop, repo, work)]
    with ThreadPoolExecutor(4) as ex: res = list(ex.map(lambda j: j(), jobs))
    return [o for l in res for o in l]
