"""Modular contract verifier over the MIR of /repo.

Every function (and closure) reachable from the entry gets a contract

    requires  R(param) ...          (from obligations its body cannot discharge alone)
    ensures   P(ret) / P(*mut param)   whenever the listed P(param) hold
    ensures   ret == true  ==>  P(param)

over the predicates a property specification declares.  Contracts and loop invariants are the greatest ones that
survive (Houdini): all start out claimed and are given up only when z3 refutes one against the body, callers being
checked against the contract of the callee and never its body.  What is left at the fixpoint is inductive: each
remaining claim was discharged by z3 for all inputs and all iterations.

Values are terms of an uninterpreted sort; references are transparent; strings are compared by value.
"""
import re, time
import z3
import mir

V = z3.DeclareSort('V')
Bt = z3.Function('B', V, z3.BoolSort())
It = z3.Function('I', V, z3.IntSort())
Dt = z3.Function('D', V, z3.IntSort())

VARIANTS = {'None': 0, 'Some': 1, 'Ok': 0, 'Err': 1, 'Borrowed': 0, 'Owned': 1, 'Continue': 0, 'Break': 1}
TEXTFREE = set('bool usize u16 u32 u64 u128 i8 i16 i32 i64 isize f64 Regex RangeFull Ordering ControlFlow Range RangeFrom RangeTo RangeInclusive '
               'std ops collections fancy_regex std option result Option Result fmt cell RefCell RefMut Lazy lazy_static lazy Duration SystemTime time '
               'DefaultHasher hash hash_map mut HtmlKind Error io Infallible convert core alloc ammonia Builder dyn for Fn parser Response blocking reqwest '
               'ImageInfo imageinfo Hasher ImageInfoResult ImageInfoError ImageSize BTreeMap'.split())
IDENT = re.compile(r"(?<!')\b[A-Za-z_]\w*")

def textfree(t):
    if '{closure@' in t: return False
    t = re.sub(r"'\w+", '', t)
    if 'regex_cache' in t: return True
    if re.fullmatch(r'&?(mut )?(std::cell::)?(RefCell|RefMut)<.*', t): return True
    if 'HashMap<u32, HashMap<&str' in t or 'HashMap<&str, Regex' in t.replace('fancy_regex::', '').replace('std::collections::', ''): return True
    ids = set(IDENT.findall(t)) - {'const', 'static', 'as'}
    if not ids: return True
    return ids <= TEXTFREE and t.strip() not in ('&[u8]', '[u8]')

MAYHOLD = re.compile(r"&(?:'\w+ )?mut |closure@|\bEntry\b|OccupiedEntry|IterMut|Drain|Splice|\bdyn\b|ValuesMut|(?<![\w:'])[A-Z](?![\w:])")

def callee_of(s):
    """'f::<T>(a, b)' -> ('f::<T>', ['a','b'])"""
    d, i = 0, 0
    while i < len(s):
        c = s[i]
        if c in '<{[': d += 1
        elif c in '}]': d -= 1
        elif c == '>' and s[i - 1] not in '-=': d -= 1
        elif c == '(' and d == 0: break
        elif c == '(':
            i = mir.balanced(s, i, '(', ')')
        i += 1
    return s[:i], s[i + 1:]

class Program:
    def __init__(self, text, repo):
        self.fns = mir.annotate(mir.parse(text), repo)
        self.closures, self.free, self.meth, self.trait, self.consts, self.inits = {}, {}, {}, {}, {}, {}
        self.promoted = {}
        self.repo = repo
        owner, lastderef = None, None
        for k, f in enumerate(self.fns):
            f.key = k
            m = re.search(r'::promoted\[(\d+)\]$', f.name)
            if m and owner is not None:
                self.promoted.setdefault(owner.key, {})[int(m.group(1))] = f
                continue
            owner = f
            if f.kind != 'fn':
                self.consts.setdefault(f.short.split('::')[-1], []).append(f); continue
            if '/lazy_static-' in f.name:
                if f.name.endswith('>::deref'): lastderef = re.sub(r'^&', '', f.types[f.params[0]])
                elif f.name.endswith('__static_ref_initialize'): self.inits.setdefault(lastderef, []).append(f)
                continue
            if f.closure:
                self.closures[f.closure] = f; continue
            last = f.short.split('::')[-1]
            if f.trait: self.trait.setdefault((f.ty, f.trait, last), []).append(f)
            elif f.ty and f.short.count('::') == 1: self.meth.setdefault((f.ty, last), []).append(f)
            else: self.free.setdefault(last, []).append(f)
        self.fields, self.ftypes = {}, {}
        self.variants = dict(VARIANTS)
        self._source(repo)

    def _source(self, repo):
        import os, glob
        for p in glob.glob(os.path.join(repo, 'src', '*.rs')):
            s = re.sub(r'//[^\n]*', '', open(p).read())
            for m in re.finditer(r'\bstruct\s+(\w+)[^;{(]*\{([^}]*)\}', s):
                fs = [re.sub(r'pub(\([^)]*\))?\s+', '', x).split(':')[0].strip() for x in mir.split_top(re.sub(r'#\[[^\]]*\]', '', m.group(2))) if ':' in x]
                self.fields[m.group(1)] = fs
                self.ftypes[m.group(1)] = [x.split(':', 1)[1].strip() for x in mir.split_top(re.sub(r'#\[[^\]]*\]', '', m.group(2))) if ':' in x]
            for m in re.finditer(r'\benum\s+(\w+)[^;{(]*\{', s):
                e = mir.balanced(s, m.end() - 1, '{', '}')
                for i, v in enumerate(mir.split_top(s[m.end():e])):
                    n = re.match(r'(?:#\[[^\]]*\]\s*)*(\w+)', v.strip())
                    if n: self.variants.setdefault(n.group(1), i)

    def resolve(self, callee, argtypes=()):
        c = mir.strip_generics(callee)
        m = re.match(r'<(.*) as ([^>]*(?:<.*>)?)>::(\w+)$', c, re.S)
        if m:
            ty, tr, me = m.groups()
            if tr.startswith('Into<'):
                tgt = mir.base_type(tr[5:-1])
                for f in self.trait.get((tgt, 'From', 'from'), []):
                    if mir.base_type(f.types[f.params[0]]) == mir.base_type(ty): return f
                return None
            cands = self.trait.get((mir.base_type(ty), mir.base_type(tr), me), [])
            if len(cands) == 1 and not (argtypes and tr.startswith('From<')): return cands[0]
            for f in cands:
                if [mir.base_type(f.types[p]) for p in f.params] == [mir.base_type(t) for t in argtypes]: return f
            return None
        c = re.sub(r"<'[^>]*>", '', c)
        parts = c.split('::')
        if len(parts) >= 2:
            l = self.meth.get((parts[-2], parts[-1]), [])
            if len(l) == 1: return l[0]
        l = self.free.get(parts[-1], [])
        if len(l) == 1 and (len(parts) == 1 or parts[0] not in ('core', 'std', 'alloc', 'fancy_regex', 'url', 'reqwest', 'ammonia', 'indexmap')): return l[0]
        return None

class Contract:
    def __init__(self, top): self.outs, self.sure, self.reqs, self.top = {}, {}, {}, top
    def out(self, o, p): return self.outs.get((o, p), frozenset() if self.top else None)
    def is_sure(self, i, p): return self.sure.get((i, p), self.top)
    def same(self, o): return self.outs == o.outs and self.sure == o.sure and self.reqs == o.reqs and self.top == o.top

class Site: pass

class Engine:
    def __init__(self, prog, spec):
        self.prog, self.spec = prog, spec
        spec.prog = prog
        self.preds = {p: z3.Function('P_' + p, V, z3.BoolSort()) for p in spec.preds}
        self.contracts, self.callers, self.order, self.bodies = {}, {}, [], {}
        self.queries = 0; self.qtime = 0.0; self.notes = set()
        self.externals = {}; self.trace = None

    def vac(self, p, ty): return (textfree(ty) and not self.spec.speaks_of(p, ty)) or self.spec.vac(p, ty)
    def P(self, p, term, ty):
        if self.vac(p, ty): return z3.BoolVal(True)
        return self.preds[p](term)

    def contract(self, inst, caller=None):
        if inst not in self.contracts:
            self.contracts[inst] = Contract(True); self.work.append(inst); self.order.append(inst)
        if caller is not None: self.callers.setdefault(inst, set()).add(caller)
        return self.contracts[inst]

    def run(self, roots, budget=600):
        self.work = []
        t0 = time.time()
        for r in roots: self.contract(r)
        n = 0
        while self.work:
            inst = self.work.pop(0)
            if time.time() - t0 > budget: raise TimeoutError('fixpoint not reached in %d s' % budget)
            t1 = time.time()
            b = Body(self, inst)
            c = b.solve()
            b.secs = time.time() - t1
            n += 1
            self.bodies[inst] = b
            if not c.same(self.contracts[inst]):
                if self.trace is not None:
                    for k, v in c.outs.items():
                        if v is None and self.contracts[inst].out(*k) is not None: self.trace.append('\n'.join(explain(self, inst, *k)))
                    for k, v in c.reqs.items():
                        if v is None and self.contracts[inst].reqs.get(k, 0) is not None: self.trace.append('requirement lost: %s in %s' % (k, self.label(inst)))
                self.contracts[inst] = c
                for k in self.callers.get(inst, ()):
                    if k not in self.work: self.work.append(k)
        self.rounds = n
        return self

    def reachable(self, roots):
        """instances called from blocks that can be reached, starting at the roots"""
        seen, todo = set(), list(roots)
        while todo:
            i = todo.pop()
            if i in seen: continue
            seen.add(i)
            b = self.bodies.get(i)
            if b is not None: todo += list(b.called)
        return seen

    def unseen(self, roots):
        """closures made in reachable code that no analysed call takes"""
        live = self.reachable(roots); keys = {i[0] for i in live}; out = []
        for i in live:
            for span, blk in self.bodies[i].made:
                g = self.prog.closures.get(span)
                if blk not in self.bodies[i].dead and (g is None or g.key not in keys): out.append('%s in %s' % (span, self.label(i)))
        return sorted(set(out))

    def label(self, inst):
        f, cs = inst
        f = self.prog.fns[f]
        return f.short + (('[%s]' % ','.join('%s=%s' % (f.params[i], v) for i, v in cs)) if cs else '')

class Body:
    def __init__(self, eng, inst, assume=None):
        self.e, self.inst = eng, inst
        self.fn = eng.prog.fns[inst[0]]
        self.facts, self.keep = [], []
        self.n = 0
        self.agg, self.lit, self.fmt, self.ctors = {}, {}, {}, {}     # side tables by term id
        self.strs, self.ints = {}, {}
        self.flds = {}
        self.called = set(); self.sites = []; self.made = set(); self.dead = set()
        self.obs = []            # (name, guard, formula)
        self.cands = []          # loop invariant candidates
        self.TRUE, self.FALSE = z3.Const('TRUE', V), z3.Const('FALSE', V)
        self.fact(Bt(self.TRUE)); self.fact(z3.Not(Bt(self.FALSE)))
        self.consts = dict(inst[1])
        self.build()

    # ---- terms
    def fact(self, f): self.facts.append(f)
    def fresh(self, hint='v'):
        self.n += 1
        t = z3.Const('%s!%d' % (hint, self.n), V); self.keep.append(t); return t
    def string(self, s):
        if s not in self.strs:
            t = z3.Const('str!%d' % len(self.strs), V); self.strs[s] = t; self.lit[t.get_id()] = s; self.keep.append(t)
            for p in self.e.spec.preds:
                if self.e.spec.lit(p, s): self.fact(self.e.preds[p](t))
        return self.strs[s]
    def integer(self, n):
        if n not in self.ints:
            t = z3.Const('int!%d' % len(self.ints), V); self.ints[n] = t; self.fact(It(t) == n); self.keep.append(t); self.lit[t.get_id()] = n
            for p in self.e.spec.preds:
                if self.e.spec.litint(p, n): self.fact(self.e.preds[p](t))
        return self.ints[n]
    def litof(self, t): return self.lit.get(t.get_id())
    def uf(self, name, args):
        f = z3.Function('f:' + name, *([V] * len(args)), V)
        t = f(*args); self.keep.append(t); return t
    def ctor(self, name, elems, ty, variant=None, fields=None):
        """aggregate; elems: [(term, type)]"""
        t = self.uf('mk:' + name, [x for x, _ in elems]) if elems else z3.Const('mk:' + name, V)
        k = t.get_id(); self.keep.append(t)
        if k in self.ctors: return t
        self.ctors[k] = (name, elems)
        for i, (x, _) in enumerate(elems): self.fact(self.rawfld(variant, i)(t) == x)
        if variant is not None and variant in self.e.prog.variants: self.fact(Dt(t) == self.e.prog.variants[variant])
        for p in self.e.spec.preds:
            if self.e.vac(p, ty): continue
            parts = [self.e.P(self.e.spec.elem_pred(p, ty, i, xt), x, xt) for i, (x, xt) in enumerate(elems) if self.e.spec.field_t(p, ty, variant, i, xt)]
            cp = self.e.spec.ctor_parts(p, self, ty, elems)
            if cp is not None: parts = cp
            if not parts and p in self.e.spec.noempty and not (variant == 'None' and p in self.e.spec.none_ok): continue
            self.fact(z3.Implies(z3.And(*parts) if parts else z3.BoolVal(True), self.e.preds[p](t)))
        self.agg[k] = elems
        return t
    def rawfld(self, variant, n): return z3.Function('fld:%s:%s' % (variant or '', n), V, V)
    def fld(self, t, ty, variant, n, fty):
        cfg = self.e.spec.config_field(self, ty, n)
        if cfg is not None: return cfg
        k = t.get_id()
        if k in self.agg and n < len(self.agg[k]) and (variant is None or self.ctors[k][0].endswith(variant)): return self.agg[k][n][0]
        r = self.rawfld(variant, n)(t); self.keep.append(r)
        key = r.get_id()
        if key not in self.flds:
            self.flds[key] = True
            for p in self.e.spec.preds:
                q = self.e.spec.elem_pred(p, ty, n, fty)
                if not self.e.vac(p, ty) and self.e.spec.read_field(p, ty, variant, n, fty) and not self.e.vac(q, fty):
                    self.fact(z3.Implies(self.e.preds[p](t), self.e.preds[q](r)))
        return r

    # ---- static information: aliases of mutable references
    def prepare(self):
        fn = self.fn
        self.defs = {}
        for b, (st, cl) in fn.blocks.items():
            if cl: continue
            for s in st:
                m = re.match(r'(\S.*?) = (.*)$', s, re.S)
                if not m: continue
                try: pl = mir.parse_place(m.group(1))
                except ValueError: continue
                if not pl[1]: self.defs.setdefault(pl[0], []).append(m.group(2))
        self.alias = {}
        self._al = {}
        for l in fn.types: self._alias(l)
        # weak roots
        self.roots = {p: ({(p, ())} if MAYHOLD.search(fn.types[p]) else set()) for p in fn.params}
        changed = True
        while changed:
            changed = False
            for l, rs in self.defs.items():
                if l in fn.params: continue
                cur = self.roots.setdefault(l, set())
                if not MAYHOLD.search(fn.types.get(l, '')): continue
                for r in rs:
                    for x in self._sources(r):
                        if x not in cur: cur.add(x); changed = True

    def _alias(self, l):
        """place a mutable reference local stands for, or None"""
        if l in self._al: return self._al[l]
        self._al[l] = None
        fn = self.fn
        if l in fn.params: self._al[l] = (l, ()); return self._al[l]
        ds = self.defs.get(l, [])
        if len(ds) != 1 or not re.match(r"&(?:'\w+ )?mut ", fn.types.get(l, '')): return None
        d = ds[0].replace('no_retag ', '')
        m = re.match(r'(?:&mut |&raw mut |copy |move |deref_copy )(.*)$', d)
        if not m or '->' in d: return None
        try: pl = mir.parse_place(m.group(1))
        except ValueError: return None
        self._al[l] = self.canon(pl, d.startswith('&'))
        return self._al[l]

    def canon(self, pl, isref=True):
        root, pr = pl
        path = []
        for x in pr:
            if x[0] == '*': continue
            path.append(x)
        a = None
        if re.match(r"&(?:'\w+ )?mut ", self.fn.types.get(root, '')) and root not in self.fn.params:
            a = self._alias(root)
        if a: return (a[0], a[1] + tuple(path))
        return (root, tuple(path))

    def _sources(self, r):
        out = set()
        r = r.replace('no_retag ', '')
        for m in re.finditer(r'(&mut |&raw mut |&|move |copy |deref_copy )(\(?[\(\*_][^,;}\]]*)', r):
            txt = m.group(2)
            # take a balanced place prefix
            try: (root, pr), rest = mir._place(txt)
            except (ValueError, IndexError): continue
            c = self.canon((root, pr))
            if m.group(1).startswith('&mut') or m.group(1).startswith('&raw'): out.add(c)
            if MAYHOLD.search(self.fn.types.get(root, '')):
                out |= self.roots.get(root, set())
                a = self._alias(root)
                if a: out.add(a)
        return out

    # ---- places
    def ptype(self, pl):
        t = self.fn.types.get(pl[0], '?')
        for x in pl[1]:
            if x[0] == 'f': t = x[2]
            elif x[0] == '*': t = re.sub(r"^(&('\w+ )?(mut )?|std::boxed::Box<|Box<)", '', t)
            elif x[0] in 'is':
                t = re.sub(r"^&('\w+ )?(mut )?", '', t)
                m = re.match(r'\[(.*?)(; .*)?\]$', t, re.S)
                t = m.group(1) if m else '?'
        return t

    def walk(self, t, ty, path):
        """path: projections without derefs"""
        var = None
        for x in path:
            if x[0] == '*':
                ty = re.sub(r"^(&('\w+ )?(mut )?|std::boxed::Box<|Box<)", '', ty)
            elif x[0] == 'v': var = x[1]
            elif x[0] == 'f':
                base = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty)
                t = self.fld(t, base, var, x[1], x[2]); ty = x[2]; var = None
            else:
                k = t.get_id()
                el = self.fresh('elem') if x[0] == 'i' else None
                if x[0] == 's':
                    m = re.match(r'(\d+) of', x[1])
                    if m and k in self.agg and int(m.group(1)) < len(self.agg[k]): t = self.agg[k][int(m.group(1))][0]; ty = '?elem'; continue
                    el = self.uf('elem:' + x[1], [t])
                ety = '?elem'
                for p in self.e.spec.preds: self.fact(z3.Implies(self.e.preds[p](t), self.e.preds[p](el)))
                t, ty = el, ety
        return t, ty

    def read(self, env, pl):
        root, pr = self.canon(pl)
        if root not in env:
            env[root] = self.fresh('undef' + root)
        t, _ = self.walk(env[root], self.fn.types.get(root, '?'), pr)
        return t

    def write(self, env, pl, term, tty):
        root, path = self.canon(pl)
        env[root] = self.update(env.get(root) if root in env else self.fresh('undef'), self.fn.types.get(root, '?'), path, term, tty)
        if path or pl[1]: self.weaken(env, root, [(term, tty)])

    def weaken(self, env, root, written):
        """a write through a reference whose target is only known weakly"""
        for r, _ in self.roots.get(root, ()):
            if r == root or r not in env: continue
            old = env[r]; new = self.fresh('w' + r)
            ty = self.fn.types.get(r, '?')
            for p in self.e.spec.preds:
                if self.e.vac(p, ty): continue
                self.fact(z3.Implies(z3.And(self.e.preds[p](old), *[self.e.P(p, t, x) for t, x in written], self.e.P(p, env[root], self.fn.types.get(root, '?'))), self.e.preds[p](new)))
            env[r] = new

    def update(self, t, ty, path, v, vty):
        path = [x for x in path if x[0] != '*']
        if not path: return v
        x = path[0]; var = None; rest = path[1:]
        if x[0] == 'v': var = x[1]; x = rest[0] if rest else None; rest = rest[1:]
        if x is None: return v
        base = re.sub(r"^(&('\w+ )?(mut )?)+", '', ty)
        new = self.fresh('upd')
        if x[0] == 'f':
            inner = self.update(self.fld(t, base, var, x[1], x[2]), x[2], rest, v, vty)
            self.fact(self.rawfld(var, x[1])(new) == inner)
            for m in range(0, 16):
                if m != x[1]: self.fact(self.rawfld(var, m)(new) == self.rawfld(var, m)(t))
            for p in self.e.spec.preds:
                if self.e.vac(p, ty): continue
                c = [self.e.preds[p](t)]
                if self.e.spec.field_t(p, base, var, x[1], x[2]): c.append(self.e.P(self.e.spec.elem_pred(p, base, x[1], x[2]), inner, x[2]))
                self.fact(z3.Implies(z3.And(*c), self.e.preds[p](new)))
        else:
            for p in self.e.spec.preds:
                self.fact(z3.Implies(z3.And(self.e.preds[p](t), self.e.P(p, v, vty)), self.e.preds[p](new)))
        return new

    # ---- operands and rvalues
    def const(self, s):
        s = s.strip()
        if s.startswith('"'): return self.string(mir.str_const(s)), '&str'
        if s.startswith('b"'):
            b = mir.unescape_bytes(s[2:-1]); t = self.string('b:' + repr(b)); self.lit[t.get_id()] = b; return t, '&[u8]'
        if s == 'true': return self.TRUE, 'bool'
        if s == 'false': return self.FALSE, 'bool'
        m = re.match(r'(-?\d+)_([ui]\w+)$', s)
        if m: return self.integer(int(m.group(1))), m.group(2)
        m = re.match(r"'(.*)'$", s, re.S)
        if m:
            c = mir.unescape_bytes(m.group(1)).decode('utf8', 'replace')
            t = self.string('c:' + c); self.fact(It(t) == ord(c[0])) if c else None
            return t, 'char'
        m = re.search(r'promoted\[(\d+)\]$', s)
        if m:
            f = self.e.prog.promoted.get(self.curfn.key, {}).get(int(m.group(1)))
            if f is not None: return self.inline(f), f.ret
        m = re.match(r'\{alloc\d+: &(.*)\}$', s)
        if m: return z3.Const('static:' + m.group(1), V), '&' + m.group(1)
        m = re.match(r'(?:ZeroSized: )?\{closure@([^}]*)\}$', s)
        if m: return self.closure(m.group(1), []), '{closure@' + m.group(1) + '}'
        name = mir.strip_generics(s).split('::')[-1]
        cs = self.e.prog.consts.get(name)
        if cs and not s.startswith('<'):
            cs2 = [c for c in cs if c.kind == 'const']
            if len(cs2) == 1: return self.inline(cs2[0]), cs2[0].ret
            ins = [c for c in cs2 if self.fn.short.split('::{')[0] in c.name]
            if len(ins) == 1: return self.inline(ins[0]), ins[0].ret
        # function items and zero sized values
        t = z3.Const('item:' + mir.strip_generics(s), V); self.keep.append(t)
        f = self.e.prog.resolve(s)
        if f is not None and f.kind == 'fn':
            inst = (f.key, ())
            c = self.e.contract(inst, self.inst); self.called.add(inst)
            self.check_closure(inst, c)
            for p in self.e.spec.preds:
                if all(v is not None for (o, q), v in c.outs.items() if q == p): self.fact(self.e.preds[p](t))
        else:
            for p in self.e.spec.preds:
                if self.e.spec.item(p, mir.strip_generics(s)): self.fact(self.e.preds[p](t))
        return t, 'fn-item'

    def inline(self, f):
        """value of a constant or promoted item"""
        save_fn, save_al, save_defs, save_roots, save_a = self.fn, self._al, self.defs, self.roots, self.curfn
        self.fn = f; self.curfn = f; self._al = {}; self.prepare()
        env = {}
        try:
            for b, (st, cl) in f.blocks.items():
                for s in st:
                    if s.startswith('Storage') or s == 'return': continue
                    m = re.match(r'(\S.*?) = (.*?)( -> .*)?$', s, re.S)
                    if m and not m.group(3): self.assign(env, m.group(1), m.group(2))
                    elif m: self.write(env, mir.parse_place(m.group(1)), self.fresh('constcall'), f.types.get(m.group(1), '?'))
            return env.get('_0', self.fresh('const'))
        finally:
            self.fn, self._al, self.defs, self.roots, self.curfn = save_fn, save_al, save_defs, save_roots, save_a

    def operand(self, env, s):
        s = s.strip()
        if s.startswith('no_retag '): s = s[9:]
        m = re.match(r'(move|copy|deref_copy) (.*)$', s, re.S)
        if m:
            pl = mir.parse_place(m.group(2))
            return self.read(env, pl), self.ptype(pl)
        if s.startswith('const '): return self.const(s[6:])
        if re.match(r'[A-Za-z<{]', s): return self.const(s)
        raise ValueError('operand ' + s)

    BIN = {'Eq': lambda a, b: a == b, 'Ne': lambda a, b: a != b, 'Lt': lambda a, b: a < b, 'Le': lambda a, b: a <= b, 'Gt': lambda a, b: a > b, 'Ge': lambda a, b: a >= b}
    def rvalue(self, env, s, dty):
        s = s.strip()
        if s.startswith('no_retag '): s = s[9:]
        m = re.match(r'(?:move|copy|deref_copy|const) ', s)
        if m:
            c = re.match(r'(.*?) as (.*) \((\w+)(\(.*\))?\)$', s, re.S)
            if c and c.group(3) in ('IntToInt', 'PointerCoercion', 'Transmute', 'PtrToPtr', 'FloatToInt', 'IntToFloat', 'ReifyFnPointer', 'Subtype'):
                t, ty = self.operand(env, c.group(1))
                if c.group(3) == 'IntToInt':
                    r = self.uf('int', [t]); self.fact(It(r) == It(t))
                    for p in self.e.spec.preds: self.fact(z3.Implies(self.e.P(p, t, ty), self.e.preds[p](r)))
                    return r, c.group(2)
                return t, ty
            return self.operand(env, s)
        m = re.match(r'&(?:mut |raw mut |raw const |fake |fake shallow )?(.*)$', s, re.S)
        if m and not s.startswith('&&'):
            pl = mir.parse_place(m.group(1))
            return self.read(env, pl), dty
        m = re.match(r'discriminant\((.*)\)$', s)
        if m:
            t = self.read(env, mir.parse_place(m.group(1)))
            r = self.uf('discr', [t]); self.fact(It(r) == Dt(t)); return r, 'isize'
        m = re.match(r'(Eq|Ne|Lt|Le|Gt|Ge)\((.*)\)$', s, re.S)
        if m:
            a, b = mir.split_top(m.group(2)); (x, xt), (y, yt) = self.operand(env, a), self.operand(env, b)
            r = self.fresh('cmp')
            if xt == 'bool': self.fact(Bt(r) == (Bt(x) == Bt(y) if m.group(1) == 'Eq' else Bt(x) != Bt(y)))
            else: self.fact(Bt(r) == self.BIN[m.group(1)](It(x), It(y)))
            return r, 'bool'
        m = re.match(r'(Add|Sub|Mul)(WithOverflow|Unchecked)?\((.*)\)$', s, re.S)
        if m:
            a, b = mir.split_top(m.group(3)); (x, xt), (y, yt) = self.operand(env, a), self.operand(env, b)
            v = self.fresh('arith')
            if m.group(1) != 'Mul': self.fact(It(v) == (It(x) + It(y) if m.group(1) == 'Add' else It(x) - It(y)))
            if m.group(2) == 'WithOverflow': return self.ctor('tuple', [(v, xt), (self.fresh('ovf'), 'bool')], dty), dty
            return v, xt
        m = re.match(r'Not\((.*)\)$', s)
        if m:
            x, xt = self.operand(env, m.group(1)); r = self.fresh('not')
            if x.eq(self.TRUE): return self.FALSE, 'bool'
            if x.eq(self.FALSE): return self.TRUE, 'bool'
            self.fact(Bt(r) == z3.Not(Bt(x))); return r, 'bool'
        m = re.match(r'(BitAnd|BitOr|Rem|Div|Shl|Shr|BitXor|Neg|PtrMetadata|Len|Offset|Cmp)\((.*)\)$', s, re.S)
        if m:
            r = self.fresh('op')
            if m.group(1) in ('BitAnd', 'BitOr') and dty == 'bool':
                a, b = mir.split_top(m.group(2)); x, y = self.operand(env, a)[0], self.operand(env, b)[0]
                self.fact(Bt(r) == (z3.And(Bt(x), Bt(y)) if m.group(1) == 'BitAnd' else z3.Or(Bt(x), Bt(y))))
            return r, dty
        if s == '()' : return z3.Const('unit', V), '()'
        if s.startswith('('):
            el = [self.operand(env, x) for x in mir.split_top(s[1:-1])]
            return self.ctor('tuple', el, dty), dty
        if s.startswith('['):
            body = s[1:-1]
            parts = mir.split_top(body, ';')
            if len(parts) == 2: el = [self.operand(env, parts[0])]; return self.ctor('rep', el, dty), dty
            el = [self.operand(env, x) for x in mir.split_top(body)]
            return self.ctor('array%d' % len(el), el, dty), dty
        m = re.match(r'\{closure@([^}]*)\}(?: \{(.*)\})?$', s, re.S)
        if m:
            el = [self.operand(env, x.split(':', 1)[1]) for x in mir.split_top(m.group(2) or '')]
            return self.closure(m.group(1), el), dty
        # struct or enum aggregates
        m = re.match(r'(.*?) \{(.*)\}$', s, re.S)
        if m:
            name = mir.strip_generics(m.group(1)).strip()
            el = [self.operand(env, x.split(':', 1)[1]) for x in mir.split_top(m.group(2)) if ':' in x]
            return self.ctor(name, el, dty, self.variant_of(name)), dty
        h, rest = callee_of(s)
        if rest:
            name = mir.strip_generics(h)
            el = [self.operand(env, x) for x in mir.split_top(rest[:-1])]
            return self.ctor(name, el, dty, self.variant_of(name)), dty
        name = mir.strip_generics(s)
        return self.ctor(name, [], dty, self.variant_of(name)), dty

    def variant_of(self, name):
        parts = name.split('::')
        l = parts[-1]
        if len(parts) > 1 and l in self.e.prog.variants: return l
        return None

    def closure(self, span, el):
        self.made.add((span, getattr(self, 'cur', 'bb0')))
        t = self.ctor('closure:' + span, el, '{closure@' + span + '}')
        self.lit[t.get_id()] = ('closure', span)
        return t

    def closure_facts(self, span):
        """whether calling the closure with P arguments gives P results"""
        f = self.e.prog.closures.get(span)
        if f is None: return {p: True for p in self.e.spec.preds}
        inst = (f.key, ())
        c = self.e.contract(inst, self.inst); self.called.add(inst)
        return {p: (all(v is not None for (o, q), v in c.outs.items() if q == p)) for p in self.e.spec.preds}

    def closure_of(self, a, t):
        """span of the closure an argument is (or refers to)"""
        l = self.lit.get(a.get_id())
        if isinstance(l, tuple) and l[0] == 'closure': return l[1]
        m = re.match(r"(?:&(?:'\w+ )?(?:mut )?)*\{closure@([^}]*)\}$", t)
        return m.group(1) if m else None

    def check_closure(self, inst, c): pass

    def assign(self, env, dst, rv):
        pl = mir.parse_place(dst)
        dty = self.ptype(pl)
        t, ty = self.rvalue(env, rv, dty)
        self.write(env, pl, t, dty if dty != '?' else ty)

    # ---- the function
    def build(self):
        fn = self.fn; self.curfn = fn
        self.defs, self._al, self.roots = {}, {}, {}
        self.prepare()
        blocks = {b: st for b, (st, cl) in fn.blocks.items() if not cl}
        succ = {b: self.succs(st[-1]) if st else [] for b, st in blocks.items()}
        # depth first order and back edges
        order, state, back = [], {}, set()
        stack = [('bb0', iter(succ['bb0']))]; state['bb0'] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in blocks: continue
                if state.get(s) == 1: back.add((b, s))
                elif s not in state: state[s] = 1; stack.append((s, iter(succ[s]))); break
            else:
                state[b] = 2; order.append(b); stack.pop()
        order.reverse()
        preds = {}
        for b in order:
            for s in succ[b]: preds.setdefault(s, []).append(b)
        loops = {}
        for (b, h) in back:
            body = {h, b}; todo = [b]
            while todo:
                x = todo.pop()
                if x == h: continue
                for y in preds.get(x, []):
                    if y not in body: body.add(y); todo.append(y)
            loops.setdefault(h, set()).update(body)
        self.loops = loops
        env0 = {}
        for i, p in enumerate(fn.params):
            if i in self.consts: env0[p] = self.TRUE if self.consts[i] else self.FALSE
            else: env0[p] = self.param(i)
        self.env0 = dict(env0)
        self.edges = {}         # (b, s) -> list of (cond, env)
        self.reach = {}
        self.returns = []
        for b in order:
            if b == 'bb0' and b not in loops: env = dict(env0); cond = z3.BoolVal(True)
            else:
                inc = [x for y in preds.get(b, []) if (y, b) not in back for x in self.edges.get((y, b), [])]
                if b == 'bb0': inc = [(z3.BoolVal(True), dict(env0))]
                if not inc: continue
                cond = z3.Bool('reach_' + b)
                self.fact(cond == z3.Or(*[c for c, _ in inc]))
                env = {}
                keys = set.intersection(*[set(e) for _, e in inc])
                havoc = set()
                if b in loops: havoc = self.writes(blocks, loops[b])
                for k in keys:
                    vals = [e[k] for _, e in inc]
                    if k in havoc:
                        h = self.fresh('loop_%s_%s' % (b, k)); env[k] = h
                        ty = fn.types.get(k, '?')
                        for p in self.e.spec.preds:
                            if not self.e.vac(p, ty):
                                g = z3.Bool('inv_%s_%s_%s' % (b, k, p))
                                self.fact(z3.Implies(g, self.e.preds[p](h)))
                                self.cands.append((g, b, k, p, h, [(c, e[k]) for c, e in inc]))
                    elif all(v.eq(vals[0]) for v in vals): env[k] = vals[0]
                    else:
                        ph = self.fresh('phi_%s_%s' % (b, k)); env[k] = ph
                        for (c, e) in inc: self.fact(z3.Implies(c, ph == e[k]))
            self.reach[b] = cond
            self.cur = b
            self.block(b, blocks[b], env, cond)
        # back edge values of the invariants
        self.invs = []
        for (g, h, k, p, hv, inc) in self.cands:
            inc = list(inc)
            for (b, s) in back:
                if s == h:
                    for (c, e) in self.edges.get((b, s), []):
                        if k in e: inc.append((c, e[k]))
                        else: inc.append((c, None))
            self.invs.append((g, h, k, p, hv, inc))
        self.succ_of = succ
        for (n, cond, formula, site) in self.e.spec.finish(self): self.obs.append((n, cond, formula, site))
        if len(self.strs) > 1: self.fact(z3.Distinct(*self.strs.values()))

    def param(self, i): return z3.Const('param_%d' % i, V)

    def writes(self, blocks, body):
        out = set()
        for b in body:
            for s in blocks[b]:
                m = re.match(r'(\S.*?) = (.*)$', s, re.S)
                if not m: continue
                try: pl = mir.parse_place(m.group(1))
                except ValueError: continue
                root, path = self.canon(pl); out.add(root)
                if path or pl[1]: out |= {r for r, _ in self.roots.get(root, ())}
                if ' -> ' in m.group(2):
                    _, rest = callee_of(m.group(2))
                    for x in re.findall(r'(?:move|copy) \(?\(?\*?\(?(_\d+)', rest):
                        if MAYHOLD.search(self.fn.types.get(x, '')):
                            a = self._alias(x)
                            if a: out.add(a[0]); out |= {r for r, _ in self.roots.get(a[0], ())}
                            out.add(x); out |= {r for r, _ in self.roots.get(x, ())}
        return out

    def succs(self, t):
        m = re.match(r'goto -> (bb\d+)', t)
        if m: return [m.group(1)]
        if t.startswith('switchInt'): return re.findall(r': (bb\d+)', t[t.rindex('-> ['):])
        m = re.search(r'-> \[(?:return|success): (bb\d+)', t)
        if m: return [m.group(1)]
        m = re.search(r'-> (bb\d+)$', t)
        if m: return [m.group(1)]
        m = re.search(r'real: (bb\d+)', t)
        if m: return [m.group(1)]
        return []

    def edge(self, b, s, cond, env): self.edges.setdefault((b, s), []).append((cond, env))

    def block(self, b, st, env, cond):
        for s in st[:-1]:
            if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'AscribeUserType', 'Coverage', 'PlaceMention', 'Retag', 'ConstEvalCounter', 'BackwardIncompatibleDropHint', 'assume')): continue
            m = re.match(r'(\S.*?) = (.*)$', s, re.S)
            if m: self.assign(env, m.group(1), m.group(2)); continue
            if s.startswith(('discriminant', 'Deinit', 'set_discriminant')): continue
            raise ValueError('statement ' + s)
        t = st[-1]
        if t == 'return':
            self.returns.append((cond, dict(env))); return
        if t.startswith('goto') or t.startswith('drop') or t.startswith('false'):
            for s in self.succs(t): self.edge(b, s, cond, env)
            return
        if t in ('unreachable', 'resume', 'terminate') or t.startswith('unreachable'): return
        if t.startswith('switchInt'):
            k = t.rindex(') -> [')
            op = t[len('switchInt('):k]
            v, ty = self.operand(env, op)
            others = []
            n = 0
            for part in mir.split_top(t[k + 6:-1]):
                lab, tgt = part.split(': ')
                if lab == 'otherwise': c = z3.And(*[z3.Not(o) for o in others])
                else:
                    if ty == 'bool': o = z3.Not(Bt(v)) if lab == '0' else Bt(v)
                    else: o = It(v) == int(lab)
                    others.append(o); c = o
                e = z3.Bool('edge_%s_%d' % (b, n)); n += 1
                self.fact(e == z3.And(cond, c))
                self.edge(b, tgt, e, dict(env))
            return
        if t.startswith('assert('):
            e = mir.balanced(t, 6, '(', ')')
            c = mir.split_top(t[7:e])[0]
            neg = c.startswith('!')
            v, _ = self.operand(env, c[1:] if neg else c)
            self.fact(z3.Implies(cond, z3.Not(Bt(v)) if neg else Bt(v)))
            for s in self.succs(t): self.edge(b, s, cond, env)
            return
        m = re.match(r'(\S.*?) = (.*) -> (\[return: (bb\d+).*\]|unwind.*|bb\d+)$', t, re.S)
        if m:
            self.call(b, env, cond, m.group(1), m.group(2))
            for s in self.succs(t): self.edge(b, s, cond, env)
            return
        raise ValueError('terminator ' + t)

    # ---- calls
    STRID = re.compile(r'(::deref$|::deref_mut$|::as_ref$|::borrow$|::to_owned$|::clone$|::as_str$|::into_owned$|::as_deref$|::as_mut$|::cloned$|::copied$|::to_mut$|'
                       r'::as_bytes$|::into_iter$|^must_use$|::by_ref$|^Box::new$|::into_boxed_str$|::as_slice$|::as_mut_slice$|::into_string$|::as_option_str$|::from_residual$)')
    def identity(self, c, args, rty):
        if len(args) < 1: return False
        t = args[0][1]
        if self.STRID.search(c): return True
        if re.search(r' as Into<(String|Cow<.*|Box<str>|Arc<str>|Rc<str>)>>::into$', c) and self.plain_text(t): return True
        if re.search(r'<(String|Cow<.*|Box<str>) as From<.*>>::from$', c) and self.plain_text(t): return True
        if re.search(r'<(&*str|String|Cow<.*|&+String|&+Cow<.*) as ToString>::to_string$', c): return True
        if c == 'core::fmt::rt::Argument::new_display' or c.endswith('Argument::new_display'): return True
        if re.search(r'::index$', c) and len(args) == 2 and args[1][1] == 'fn-item' and 'RangeFull' in str(args[1][0]): return True
        return False
    def plain_text(self, t):
        t = re.sub(r"^(&('\w+ )?(mut )?)+", '', t)
        return bool(re.match(r"(str|String|std::string::String|Cow<'_, str>|std::borrow::Cow<'_, str>|Box<str>|char)$", t))

    def call(self, b, env, cond, dst, rhs):
        callee, rest = callee_of(rhs)
        args = [self.operand(env, x) for x in mir.split_top(rest[:-1])] if rest[:-1].strip() else []
        ops = mir.split_top(rest[:-1]) if rest[:-1].strip() else []
        dpl = mir.parse_place(dst); rty = self.ptype(dpl)
        s = Site(); s.body, s.callee, s.raw, s.args, s.ops, s.rty, s.cond, s.block, s.env = self, mir.strip_generics(callee), callee, args, ops, rty, cond, b, env
        s.cond = cond
        # call of a local closure or function value
        s.fn = None
        m = re.match(r'(?:move |copy )?\(?(_\d+)', callee)
        f = self.e.prog.resolve(callee, [t for _, t in args])
        if callee.startswith(('move ', 'copy ')): f = None
        mc = re.match(r'<(?:&|&mut )?\{closure@([^}]*)\} as Fn(?:Once|Mut)?<.*>>::call(?:_once|_mut)?$', s.callee)
        if mc: f = self.e.prog.closures.get(mc.group(1))
        # lazy statics
        ms = re.match(r'<(.*) as Deref>::deref$', callee)
        if ms and ms.group(1) in self.e.prog.inits: s.static = ms.group(1)
        else: s.static = None
        # mutable roots reached by the arguments
        s.muts = []
        for i, op in enumerate(ops):
            m = re.match(r'(?:no_retag )?(?:move|copy) (_\d+)$', op)
            if not m:
                m2 = re.match(r'(?:no_retag )?(?:move|copy) (.*)$', op)
                if m2:
                    pl = mir.parse_place(m2.group(1))
                    if MAYHOLD.search(self.ptype(pl)): s.muts.append((i, self.canon(pl), True))
                continue
            l = m.group(1); ty = self.fn.types.get(l, '')
            if not MAYHOLD.search(ty): continue
            a = self._alias(l)
            if re.match(r"&(?:'\w+ )?mut ", ty) and a: s.muts.append((i, a, True))
            else:
                if re.match(r"&(?:'\w+ )?mut ", ty): s.muts.append((i, (l, ()), True))
                for r in self.roots.get(l, ()):
                    if r != (l, ()): s.muts.append((i, r, False))
        self.sites.append(s)
        spec = self.e.spec
        ret = None
        pure = not s.muts
        static_inits = self.e.prog.inits.get(s.static) if s.static else None
        if static_inits:
            ret = z3.Const('lazy:' + s.static, V)
            s.fn = None
            cs = []
            for g in static_inits:
                inst = (g.key, ()); cs.append(self.e.contract(inst, self.inst)); self.called.add(inst)
            for p in spec.preds:
                if not self.e.vac(p, rty) and all(c.out('ret', p) == frozenset() for c in cs): self.fact(self.e.preds[p](ret))
            s.ret = ret
            self.write(env, dpl, ret, rty); return
        if f is not None and f.kind == 'fn':
            consts = tuple((i, a[0].eq(self.TRUE)) for i, a in enumerate(args) if i < len(f.params) and f.types[f.params[i]] == 'bool' and (a[0].eq(self.TRUE) or a[0].eq(self.FALSE))) if not f.closure else ()
            inst = (f.key, consts)
            s.fn, s.inst = f, inst
            name = f.short
        else: name = s.callee
        s.name = name
        if spec.unreached(s): 
            # a call that must not be reachable
            self.obs.append(('%s is not reached' % spec.unreached(s), cond, z3.BoolVal(False), s))
        ident = f is None and self.identity(s.callee, args, rty) and not spec.deny(None, s)
        if ident:
            ret = args[0][0]
            if textfree(args[0][1]) and not textfree(rty):
                for p in spec.preds: self.fact(self.e.P(p, ret, rty))
        else:
            sel = spec.pure_args(name)
            if pure and args:
                use = args if sel is None else [args[i] for i in sel if i < len(args)]
                ret = self.uf(name + '#' + ','.join('%d' % i for i, _ in (getattr(s, 'inst', ((), ()))[1])), [a for a, _ in use]) if use else self.fresh('r')
            elif sel is not None and args: ret = self.uf(name, [args[i][0] for i in sel if i < len(args)])
            elif pure and f is not None: ret = z3.Const('c:' + name, V)
            else: ret = self.fresh('r')
        s.ret = ret
        self.builtin(s, name, args, ret, rty)
        # new values of mutated roots
        news = []
        byroot = {}
        for i, r, exact in s.muts:
            byroot.setdefault(r, []).append((i, exact))
        for r, uses in byroot.items():
            if r[0] not in env: continue
            old, oty = self.walk(env[r[0]], self.fn.types.get(r[0], '?'), r[1])
            if oty == '?elem': oty = '?'
            new = self.fresh('m')
            news.append((r, uses, old, new, oty))
        s.news = news
        extra = self.arg_closures(args)
        for p in spec.preds:
            h = spec.call(p, s, extra)
            if f is not None and h is None:
                c = self.e.contract(inst, self.inst)
                d = c.out('ret', p)
                if not ident and d is not None and not self.e.vac(p, rty):
                    self.fact(z3.Implies(self.conj(d, args, extra), self.e.preds[p](ret)))
                for (r, uses, old, new, oty) in news:
                    if self.e.vac(p, oty): continue
                    conds, ok = [self.e.preds[p](old)] if any(not ex for _, ex in uses) else [], True
                    for i, ex in uses:
                        o = c.out(('mut', i), p)
                        if o is None: ok = False
                        else: conds.append(self.conj(o, args, extra))
                    if ok: self.fact(z3.Implies(z3.And(*conds) if conds else z3.BoolVal(True), self.e.preds[p](new)))
                if rty == 'bool' and p in spec.sure:
                    for i, (a, at) in enumerate(args):
                        if c.is_sure(i, p) and not self.e.vac(p, at): self.fact(z3.Implies(Bt(ret), self.e.preds[p](a)))
            elif h is None:
                ok = not spec.deny(p, s) and not (p in spec.noempty and all(self.e.vac(p, t) for _, t in args))
                # things of exempt types hide text P says nothing about
                hid = [1 for a, t in args if not textfree(t) and self.e.vac(p, t)]
                cj = z3.And(*[self.e.P(p, a, t) for a, t in args], *[x[p] for x in extra]) if args else z3.BoolVal(True)
                if ok and not ident and not self.e.vac(p, rty) and not (hid and not spec.opaque_ok(p, rty)):
                    self.fact(z3.Implies(cj, self.e.preds[p](ret)))
                for (r, uses, old, new, oty) in news:
                    if ok and not self.e.vac(p, oty): self.fact(z3.Implies(z3.And(self.e.preds[p](old), cj), self.e.preds[p](new)))
            else:
                rf, mf = h
                if rf is not None: self.fact(z3.Implies(rf, self.e.P(p, ret, rty)))
                if mf is not None:
                    for (r, uses, old, new, oty) in news:
                        if callable(mf): self.fact(z3.Implies(mf(old), self.e.P(p, new, oty)))
                        else: self.fact(z3.Implies(z3.And(self.e.P(p, old, oty), mf), self.e.P(p, new, oty)))
        if f is not None:
            self.called_guarded(inst, cond, s)
        elif f is None: self.e.externals.setdefault(s.callee, 0); self.e.externals[s.callee] += 1
        for i, (a, t) in enumerate(args):
            l = self.closure_of(a, t)
            if l is not None:
                g = self.e.prog.closures.get(l)
                if g is not None: self.called_guarded((g.key, ()), cond, s, closure=a)
        for (n, formula) in spec.oblige(s): self.obs.append((n, cond, formula, s))
        for (r, uses, old, new, oty) in news:
            env[r[0]] = self.update(env[r[0]], self.fn.types.get(r[0], '?'), r[1], new, oty)
            if r[1] or True: self.weaken(env, r[0], [(new, oty)])
        spec.after(s)
        self.write(env, dpl, ret, rty)

    def conj(self, deps, args, extra):
        out = []
        for (i, p) in deps:
            if i < len(args): out.append(self.e.P(p, args[i][0], args[i][1]))
            for x in extra:
                if x['i'] == i: out.append(x[p])
        return z3.And(*out) if out else z3.BoolVal(True)

    def arg_closures(self, args):
        out = []
        for i, (a, t) in enumerate(args):
            l = self.closure_of(a, t)
            if l is not None:
                d = {p: self.closure_needs(l, p, v, a, args) for p, v in self.closure_facts(l).items()}; d['i'] = i; out.append(d)
        return out

    def closure_needs(self, span, p, ok, a, args):
        """what calling the closure with P arguments needs beyond P: the other predicates its contract mentions, of what it captured and of the other arguments"""
        f = self.e.prog.closures.get(span)
        if not ok or f is None: return z3.BoolVal(ok)
        c = self.e.contract((f.key, ()), self.inst); need = []
        for (i, q) in sorted({x for (o, r), v in c.outs.items() if r == p and v for x in v if x[1] != p}):
            if i == 0: need.append(self.e.P(q, a, '{closure@'))
            else: need += [self.e.P(q, b, t) for b, t in args if not b.eq(a)]
        return z3.And(*need) if need else z3.BoolVal(True)

    def called_guarded(self, inst, cond, s, closure=None):
        c = self.e.contract(inst, self.inst); self.called.add(inst)
        for n, deps in c.reqs.items():
            if deps is None or n.startswith('local:'): continue          # reported where it arises
            if not deps: continue
            if closure is None: form = self.conj(deps, s.args, [])
            else:
                # the closure's own parameter 0 is its environment; the others come from the callee: trust them as far as the other arguments are P
                parts = []
                for (i, p) in deps:
                    if i == 0: parts.append(self.e.P(p, closure, '{closure@'))
                    else: parts += [self.e.P(p, a, t) for a, t in s.args if not a.eq(closure)]
                form = z3.And(*parts)
            self.obs.append((n, cond, form, s))

    def builtin(self, s, name, args, ret, rty):
        """meaning of a few library functions"""
        c = s.callee
        if re.search(r'<.* as PartialEq(<.*>)?>::(eq|ne)$', c) and len(args) == 2:
            eq = args[0][0] == args[1][0]
            self.fact(Bt(ret) == (eq if c.endswith('eq') else z3.Not(eq)))
        elif c.endswith('::is_empty') and len(args) == 1 and re.search(r'str|String|Cow', args[0][1]) and 'Vec' not in args[0][1] and 'Map' not in args[0][1]:
            self.fact(Bt(ret) == (args[0][0] == self.string('')))
        elif c == 'Option::is_some': self.fact(Bt(ret) == (Dt(args[0][0]) == 1))
        elif c == 'Option::is_none': self.fact(Bt(ret) == (Dt(args[0][0]) == 0))
        elif c == 'Result::is_ok': self.fact(Bt(ret) == (Dt(args[0][0]) == 0))
        elif c in ('Option::map',): self.fact(Dt(ret) == Dt(args[0][0]))
        elif c in ('String::new',) and not args: self.fact(ret == self.string(''))
        elif c.endswith('Arguments::new') and len(args) == 2:
            tpl = self.litof(args[0][0]); el = self.agg.get(args[1][0].get_id())
            if isinstance(tpl, bytes) and el is not None: self.fmt[ret.get_id()] = (mir.template(tpl), el)
            elif isinstance(tpl, bytes): self.fmt[ret.get_id()] = (mir.template(tpl), [])
        elif c.endswith(('Arguments::from_str', 'Arguments::from_str_nonconst')):
            l = self.litof(args[0][0])
            if isinstance(l, str): self.fmt[ret.get_id()] = ([('lit', l)], [])
        elif c == 'format' or c.endswith('fmt::format'):
            f = self.fmt.get(args[0][0].get_id())
            if f is not None: self.fmt[ret.get_id()] = f

    # ---- solving
    def solve(self):
        e, fn, spec = self.e, self.fn, self.e.spec
        s = z3.Solver()
        s.set('timeout', 30000)
        s.add(*self.facts)
        self.solver = s
        params = [(i, p) for i in range(len(fn.params)) if i not in self.consts for p in spec.preds if not e.vac(p, fn.types[fn.params[i]])]
        lits = {}
        for (i, p) in params:
            l = z3.Bool('assume_%d_%s' % (i, p)); lits[(i, p)] = l
            s.add(z3.Implies(l, e.preds[p](self.param(i))))
        allset = frozenset(params)
        old = e.contracts[self.inst]
        c = Contract(False)
        invcache = {}
        def check(assume, viol):
            """True if viol is impossible under the assumptions (with the invariants they support)"""
            a = [lits[x] for x in assume]
            if assume not in invcache: invcache[assume] = self.houdini(s, a)
            return self.unsat(s, a + invcache[assume], viol)
        self.check = check
        # only call what can be reached
        def core(viol, start):
            if start is not None and check(start, viol): return start
            if not check(allset, viol): return None
            cur = set(allset)
            for x in list(sorted(allset)):
                if start is not None and x in start: continue
                t = frozenset(cur - {x})
                if check(t, viol): cur = set(t)
            return frozenset(cur)
        outs = [('ret', fn.ret, lambda env: env.get('_0'))]
        for i, p in enumerate(fn.params):
            if re.match(r"&(?:'\w+ )?mut ", fn.types[p]): outs.append((('mut', i), fn.types[p], lambda env, p=p: env.get(p)))
            elif '{closure@' in fn.types[p] and i == 0: outs.append((('mut', i), fn.types[p], lambda env, p=p: env.get(p)))
            elif MAYHOLD.search(fn.types[p]): outs.append((('mut', i), fn.types[p], lambda env, p=p: env.get(p)))
        for (o, ty, get) in outs:
            for p in spec.preds:
                if e.vac(p, ty): continue
                prev = old.out(o, p)
                if prev is None: c.outs[(o, p)] = None; continue
                viol = z3.Or(*[z3.And(cond, z3.Not(e.preds[p](get(env)))) for cond, env in self.returns if get(env) is not None]) if self.returns else z3.BoolVal(False)
                c.outs[(o, p)] = core(viol, prev)
        if fn.ret == 'bool':
            for p in spec.sure:
                for i, prm in enumerate(fn.params):
                    if e.vac(p, fn.types[prm]) or i in self.consts: continue
                    if not old.is_sure(i, p): c.sure[(i, p)] = False; continue
                    viol = z3.Or(*[z3.And(cond, Bt(env['_0']), z3.Not(e.preds[p](self.param(i)))) for cond, env in self.returns])
                    c.sure[(i, p)] = check(frozenset(), viol)
        self.failed = []
        groups = {}
        for (n, cond, form, site) in self.obs: groups.setdefault(n, []).append((cond, form, site))
        for n, l in groups.items():
            prev = old.reqs.get(n, frozenset())
            viol = z3.Or(*[z3.And(cond, z3.Not(form)) for cond, form, _ in l])
            c.reqs[n] = core(viol, prev) if prev is not None else None
        # closures and callees in unreachable blocks do not count
        dead = {b for b, cond in self.reach.items() if self.unsat(s, [], cond)} if spec.prune else set()
        self.dead = dead
        if dead:
            live = set()
            for st in self.sites:
                if st.block in dead: continue
                if getattr(st, 'inst', None): live.add(st.inst)
                if st.static: live |= {(g.key, ()) for g in e.prog.inits[st.static]}
                for a, t in st.args:
                    l = self.closure_of(a, t)
                    if l in e.prog.closures: live.add((e.prog.closures[l].key, ()))
                    ct = self.ctors.get(a.get_id())
            items = {i for i in self.called if e.prog.fns[i[0]].closure is None and i not in {getattr(st, 'inst', None) for st in self.sites}}
            self.called = live | items
        return c

    def unsat(self, s, assumps, viol):
        t = time.time()
        s.push(); s.add(viol)
        r = s.check(*assumps)
        s.pop()
        self.e.queries += 1; self.e.qtime += time.time() - t
        return r == z3.unsat

    def houdini(self, s, a):
        active = list(self.invs)
        while active:
            viols = []
            for (g, h, k, p, hv, inc) in active:
                v = [z3.And(c, z3.Not(self.e.preds[p](x))) for c, x in inc if x is None or not x.eq(hv)] if all(x is not None for _, x in inc) else [z3.BoolVal(True)]
                viols.append(z3.Or(*v) if v else z3.BoolVal(False))
            t = time.time()
            s.push(); s.add(z3.Or(*viols))
            r = s.check(*(a + [x[0] for x in active]))
            if r == z3.sat:
                m = s.model()
                keep = [x for x, v in zip(active, viols) if not z3.is_true(m.eval(v, model_completion=True))]
            s.pop()
            self.e.queries += 1; self.e.qtime += time.time() - t
            if r == z3.unsat: break
            if r != z3.sat: return []
            if len(keep) == len(active): return []
            active = keep
        return [x[0] for x in active]

class Spec:
    """defaults of a property specification"""
    preds, sure, config, prune = (), (), {}, True
    noempty = ()         # predicates an empty value does not have
    none_ok = ()         # ... but None does
    def lit(self, p, s): return True
    def litint(self, p, n): return True
    def vac(self, p, ty): return False
    def speaks_of(self, p, ty): return False          # p says something about this type although it holds no text
    def field(self, p, ty, variant, n): return True
    def field_t(self, p, ty, variant, n, fty): return self.field(p, ty, variant, n)
    def read_field(self, p, ty, variant, n, fty): return self.field_t(p, ty, variant, n, fty)
    def elem_pred(self, p, ty, n, fty): return p          # the predicate a field has when the whole has p
    def ctor_parts(self, p, body, ty, elems): return None
    def finish(self, body): return []
    def item(self, p, name): return True
    def deny(self, p, site): return False
    def opaque_ok(self, p, rty): return False
    def call(self, p, site, extra): return None
    def oblige(self, site): return []
    def after(self, site): pass
    def unreached(self, site): return None
    def pure_args(self, name): return None
    def config_field(self, body, ty, n):
        if mir.base_type(ty) != 'Textile' or not self.config: return None
        names = body.e.prog.fields.get('Textile', [])
        if n >= len(names) or names[n] not in self.config: return None
        v = self.config[names[n]]
        if v is True: return body.TRUE
        if v is False: return body.FALSE
        t = z3.Const('cfg:' + names[n], V)
        key = ('cfg', names[n])
        if key not in body.flds:
            body.flds[key] = True; body.fact(Dt(t) == v)
            for p in self.preds: body.fact(body.e.preds[p](t))
        return t


def explain(eng, inst, out='ret', p=None, limit=30, want=None, req=None):
    """counterexample to a lost claim: calls whose result (or target) lacks a predicate although their arguments have it"""
    work, eng.work = eng.work, []
    try: return _explain(eng, inst, out, p, limit, want, req)
    finally: eng.work = work

def _explain(eng, inst, out, p, limit, want, req):
    b = Body(eng, inst); fn = b.fn
    preds = [p or eng.spec.preds[0]] if req is None else list(eng.spec.preds)
    s = z3.Solver(); s.set('timeout', 20000); s.add(*b.facts)
    for i in range(len(fn.params)):
        if i in b.consts: continue
        for q in eng.spec.preds:
            if not eng.vac(q, fn.types[fn.params[i]]) and (want is None or (i, q) in want): s.add(eng.preds[q](b.param(i)))
    inv = b.houdini(s, [])
    for g in inv: s.add(g)
    if req is None:
        get = (lambda env: env.get('_0')) if out == 'ret' else (lambda env: env.get(fn.params[out[1]]))
        viol = [z3.And(c, z3.Not(eng.preds[preds[0]](get(env)))) for c, env in b.returns]
    else: viol = [z3.And(c, z3.Not(f)) for n, c, f, _ in b.obs if n == req]
    s.add(z3.Or(*viol))
    r = s.check()
    if r != z3.sat: return ['%s: no counterexample (%s)' % (eng.label(inst), r)]
    m = s.model(); ev = lambda f: z3.is_true(m.eval(f, model_completion=True))
    lines = [eng.label(inst) + ('' if req is None else ': ' + req)]
    if req is not None:
        for n, c, f, st in b.obs:
            if n == req and ev(z3.And(c, z3.Not(f))):
                lines.append('  fails at %s: %s(%s)' % (st.block, st.callee, ' | '.join('%s{%s}' % (b.litof(a) if isinstance(b.litof(a), str) else t[-40:], ','.join(q for q in preds if not eng.vac(q, t) and not ev(eng.preds[q](a)))) for a, t in st.args)))
    for st in b.sites:
        if not ev(b.reach[st.block]) or st.ret is None: continue
        for q in preds:
            bad = []
            if not eng.vac(q, st.rty) and not ev(eng.preds[q](st.ret)): bad.append('ret')
            for (r, uses, old, new, oty) in getattr(st, 'news', []):
                if not eng.vac(q, oty) and not ev(eng.preds[q](new)) and ev(eng.preds[q](old)): bad.append('mut%s' % (r[0],))
            if bad:
                al = ['%s%s' % (b.litof(a) if isinstance(b.litof(a), str) else t[-28:], '' if eng.vac(q, t) or ev(eng.preds[q](a)) else '!!') for a, t in st.args]
                root = not any(x.endswith('!!') for x in al)
                lines.append('%s %s %s %s <- %s(%s) : %s' % ('ROOT' if root else '    ', st.block, q, ','.join(bad), st.callee[-60:], ' | '.join(al), st.rty[-40:]))
    lost = [x for x in b.invs if x[0] not in inv]
    for x in lost[:6]: lines.append('     lost invariant %s %s %s: %s' % (x[1], x[2], x[3], fn.types.get(x[2])))
    return lines[:limit + 10]

def explain_req(eng, inst, name):
    try: return '\n'.join(explain(eng, inst, req=name))
    except Exception as x: return repr(x)
