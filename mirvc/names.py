"""Which struct fields and captured variables end up as the name of an element (`<{}` in a template, `"<" + name`): the fields a
predicate about names has to be carried by.  Found by a pass over all functions; a missed field costs a proof, never soundness."""
import re, z3
import mir, engine

class _Spec(engine.Spec):
    preds = ()

class _Engine(engine.Engine):
    def contract(self, inst, caller=None):
        if inst not in self.contracts: self.contracts[inst] = engine.Contract(True)
        return self.contracts[inst]

class _Body(engine.Body):
    def __init__(self, *a):
        self.origin = {}
        engine.Body.__init__(self, *a)
    def fld(self, t, ty, variant, n, fty):
        r = engine.Body.fld(self, t, ty, variant, n, fty)
        el = self.agg.get(t.get_id())
        if el is None or n >= len(el) or el[n][0].get_id() != r.get_id(): self.origin.setdefault(r.get_id(), (t, ty, variant, n))
        return r

def owner(ty):
    m = re.search(r'\{closure@([^}]*)\}', ty)
    return 'closure@' + m.group(1) if m else mir.base_type(ty)

def name_fields(prog):
    e = _Engine(prog, _Spec()); e.work = []
    bodies = []
    for f in prog.fns:
        if f.kind != 'fn' or '/lazy_static-' in f.name: continue
        try: bodies.append(_Body(e, (f.key, ())))
        except Exception: continue
    fields, params = set(), set()
    while True:
        n = len(fields) + len(params)
        for b in bodies:
            for s in b.sites:
                for t in holes(b, s, params): trace(b, t, fields, params)
        if len(fields) + len(params) == n: return fields

def holes(b, s, params):
    if s.fn is not None:
        for i, (a, _) in enumerate(s.args):
            if (s.fn.key, i) in params: yield a
        return
    if s.callee.endswith('Arguments::new') and s.ret.get_id() in b.fmt:
        pcs, args = b.fmt[s.ret.get_id()]
        ctx = ''
        for x in pcs:
            if x[0] == 'lit': ctx += x[1]; continue
            if ctx.endswith('<') and x[1] < len(args): yield args[x[1]][0]
            ctx += '\0'
    elif len(s.args) == 2 and b.litof(s.args[0][0]) == '<': yield s.args[1][0]

def trace(b, t, fields, params):
    seen = set()
    while t.get_id() not in seen:
        k = t.get_id(); seen.add(k)
        nm = t.decl().name()
        m = re.match(r'param_(\d+)$', nm)
        if m: params.add((b.fn.key, int(m.group(1)))); return
        if k in b.origin:
            p, ty, variant, n = b.origin[k]
            if variant in ('Some', 'Ok', 'Borrowed', 'Owned'): t = p; continue
            o = owner(ty)
            if re.match(r'\w|closure@', o) and not ty.lstrip('&').startswith('('): fields.add((o, n)); return
            el = b.agg.get(p.get_id())
            if el is None or n >= len(el): return
            t = el[n][0]; continue
        return
