"""python3-vt mirvc/run.py PROP REPO WORK -> JSON list of obligations on stdout"""
import json, os, sys, time
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mir, engine, specs

def ob(name, status, fn=None, secs=0.0, detail=''):
    return dict(name='mir:' + name, status=status, function=fn, backend='mirvc/z3', secs=round(secs, 3), detail=detail)

def decide(prog, spec, tag):
    roots = [f for f in prog.fns if f.kind == 'fn' and f.short == 'Textile::parse' and not f.closure]
    if len(roots) != 1: return [ob(tag, 'not established', detail='Textile::parse not found')]
    root = (roots[0].key, ())
    e = engine.Engine(prog, spec); e.trace = []
    t = time.time()
    try: e.run([root], budget=360)
    except Exception as x: return [ob(tag, 'not established', secs=time.time() - t, detail='%s: %s' % (type(x).__name__, str(x)[:300]))]
    out = []
    live = e.reachable([root])
    for i in e.order:
        if i not in live: continue
        c = e.contracts[i]; b = e.bodies[i]
        f = prog.fns[i[0]]
        if '/lazy_static-' in f.name: continue
        cl = ['%s(%s) <= %s' % (p, 'result' if o == 'ret' else '*param %d' % o[1], ' & '.join('%s(param %d)' % (q, k) for k, q in sorted(d)) or 'true') for (o, p), d in c.outs.items() if d is not None]
        cl += ['result = true ==> %s(param %d)' % (p, k) for (k, p), v in c.sure.items() if v]
        cl += ['requires of callers, for "%s": %s' % (n, sorted(d)) for n, d in c.reqs.items() if d]
        if cl: out.append(ob('%s: contract of %s' % (tag, e.label(i)), 'proved', e.label(i), b.secs, '; '.join(cl)))
    un = e.unseen([root])
    out.append(ob('%s: every closure made in reachable code is under contract' % tag, 'not established' if un else 'proved', None, 0.0, '; '.join(un)))
    for (name, ok, detail) in spec.goals(e, root):
        d = detail if ok else detail + '\n' + '\n'.join(e.trace)[:6000]
        out.append(ob('%s: %s' % (tag, name), 'not established' if ok is None else 'proved' if ok else 'failed', 'Textile::parse', 0.0, d))
    return out

def main():
    prop, repo, work = sys.argv[1:4]
    out = []
    if prop not in specs.SPECS: print('[]'); return
    try:
        text = mir.dump(repo, os.path.join(work, 'mir_target'))
        prog = engine.Program(text, repo)
        from multiprocessing import get_context
        sp = specs.SPECS[prop]
        with get_context('fork').Pool(min(len(sp), 6)) as pool:
            res = [pool.apply_async(work1, (text, repo, prop, k)) for k in range(len(sp))]
            for r in res: out += r.get(timeout=470)
    except Exception as x:
        out.append(ob(prop, 'not established', detail='%s: %s' % (type(x).__name__, str(x)[:600])))
    print(json.dumps(out))

def work1(text, repo, prop, k):
    prog = engine.Program(text, repo)
    spec = specs.SPECS[prop][k]()
    return decide(prog, spec, spec.tag)

if __name__ == '__main__': main()
