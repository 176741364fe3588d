"""Evaluates the MIR that builds the regular expressions and string tables of /repo (constants, lazy statics, closures of the
regex cache).  Unknown text is HOLE; anything not understood is None."""
import re
import mir
from engine import callee_of

HOLE = '\ue000'

class Re:
    def __init__(self, pat): self.pat = pat
    def __repr__(self): return 'Re(%r)' % (self.pat,)

class Fold:
    def __init__(self, prog): self.prog, self.memo, self.depth = prog, {}, 0
    def static(self, ty):
        """values a lazy static of this type can have (one per initializer)"""
        if ty not in self.memo:
            self.memo[ty] = None
            self.memo[ty] = [self.run(f, []) for f in self.prog.inits.get(ty, [])]
        return self.memo[ty]
    def run(self, f, args, env0=None):
        self.depth += 1
        try:
            if self.depth > 12: return None
            return self._run(f, args)
        except (ValueError, IndexError, KeyError, RecursionError): return None
        finally: self.depth -= 1
    def _run(self, f, args):
        env = dict(zip(f.params, args))
        b, steps = 'bb0', 0
        self_f = f
        while steps < 4000:
            steps += 1
            st, _ = f.blocks[b]
            for s in st[:-1]:
                m = re.match(r'(\S.*?) = (.*)$', s, re.S)
                if not m or s.startswith(('Storage', 'discriminant')): continue
                self.put(env, m.group(1), self.rvalue(f, env, m.group(2)))
            t = st[-1]
            if t == 'return': return env.get('_0')
            m = re.match(r'goto -> (bb\d+)', t)
            if m: b = m.group(1); continue
            if t.startswith(('drop', 'assert', 'false')):
                m = re.search(r'-> \[(?:return|success|real): (bb\d+)', t); b = m.group(1); continue
            if t.startswith('switchInt'):
                k = t.rindex(') -> [')
                v = self.operand(f, env, t[len('switchInt('):k])
                if v is None or isinstance(v, str): return None
                v = int(v); b = None
                for part in mir.split_top(t[k + 6:-1]):
                    lab, tgt = part.split(': ')
                    if lab == 'otherwise' or int(lab) == v: b = tgt; break
                continue
            m = re.match(r'(\S.*?) = (.*) -> (\[return: (bb\d+).*\]|bb\d+)$', t, re.S)
            if m:
                self.put(env, m.group(1), self.call(f, env, m.group(2)))
                b = m.group(4) or m.group(3); continue
            return None
        return None
    def put(self, env, dst, v):
        r, pr = mir.parse_place(dst)
        pr = [x for x in pr if x[0] != '*']
        if not pr: env[r] = v
        else: env[r] = None
    def get(self, env, txt):
        r, pr = mir.parse_place(txt)
        v = env.get(r)
        for x in pr:
            if x[0] == '*' or x[0] == 'v': continue
            if x[0] == 'f' and isinstance(v, tuple) and x[1] < len(v): v = v[x[1]]
            elif x[0] == 's' and isinstance(v, list):
                m = re.match(r'(\d+) of', x[1]); v = v[int(m.group(1))] if m else None
            elif x[0] == 'f' and x[1] == 0 and isinstance(v, (str, Re, list)): v = v       # Some/Ok/newtype
            else: return None
        return v
    def operand(self, f, env, s):
        s = s.strip()
        if s.startswith('no_retag '): s = s[9:]
        m = re.match(r'(?:move|copy|deref_copy) (.*)$', s, re.S)
        if m: return self.get(env, m.group(1))
        if s.startswith('const '): return self.const(f, s[6:].strip())
        return None
    def const(self, f, s):
        if s.startswith('"'): return mir.str_const(s)
        if s.startswith('b"'): return mir.unescape_bytes(s[2:-1])
        if s == 'true': return 1
        if s == 'false': return 0
        m = re.match(r'(-?\d+)_([ui]\w+)$', s)
        if m: return int(m.group(1))
        m = re.match(r"'(.*)'$", s, re.S)
        if m: return mir.unescape_bytes(m.group(1)).decode('utf8', 'replace')
        m = re.search(r'promoted\[(\d+)\]$', s)
        if m:
            g = self.prog.promoted.get(f.key, {}).get(int(m.group(1)))
            return self.run(g, []) if g else None
        m = re.match(r'(?:ZeroSized: )?\{closure@([^}]*)\}$', s)
        if m: return ('closure', m.group(1), ())
        m = re.match(r'\{alloc\d+: &(.*)\}$', s)
        if m: return ('static', m.group(1))
        name = mir.strip_generics(s).split('::')[-1]
        cs = [c for c in self.prog.consts.get(name, []) if c.kind == 'const']
        if len(cs) > 1: cs = [c for c in cs if f.short.split('::{')[0] in c.name] or cs
        if len(cs) == 1: return self.run(cs[0], [])
        return None
    def rvalue(self, f, env, s):
        s = s.strip()
        if s.startswith('no_retag '): s = s[9:]
        if re.match(r'(?:move|copy|deref_copy|const) ', s):
            c = re.match(r'(.*?) as (.*) \((\w+)(\(.*\))?\)$', s, re.S)
            if c: return self.operand(f, env, c.group(1))
            return self.operand(f, env, s)
        m = re.match(r'&(?:mut |raw mut |raw const |fake )?(.*)$', s, re.S)
        if m:
            try: return self.get(env, m.group(1))
            except ValueError: return None
        m = re.match(r'Not\((.*)\)$', s)
        if m:
            v = self.operand(f, env, m.group(1)); return None if v is None else 1 - int(v)
        if s.startswith('('): return tuple(self.operand(f, env, x) for x in mir.split_top(s[1:-1]))
        if s.startswith('['):
            if len(mir.split_top(s[1:-1], ';')) == 2: return None
            return [self.operand(f, env, x) for x in mir.split_top(s[1:-1])]
        m = re.match(r'\{closure@([^}]*)\}(?: \{(.*)\})?$', s, re.S)
        if m: return ('closure', m.group(1), tuple(self.operand(f, env, x.split(':', 1)[1]) for x in mir.split_top(m.group(2) or '')))
        return None
    def text(self, v):
        if isinstance(v, str): return v
        if isinstance(v, int): return str(v)
        return HOLE
    def call(self, f, env, rhs):
        callee, rest = callee_of(rhs)
        args = [self.operand(f, env, x) for x in mir.split_top(rest[:-1])] if rest[:-1].strip() else []
        ms = re.match(r'<(.*) as Deref>::deref$', callee)
        if ms and ms.group(1) in self.prog.inits:
            v = self.static(ms.group(1))
            return v[0] if v and len(v) == 1 else (HOLE if 'String' in str(v) else None)
        c = mir.strip_generics(callee)
        g = self.prog.resolve(callee, [])
        mc = re.match(r'<(?:&|&mut )?\{closure@([^}]*)\} as Fn(?:Once|Mut)?<.*>>::call(?:_once|_mut)?$', c)
        if mc: g = self.prog.closures.get(mc.group(1))
        l = c.split('::')[-1]
        if c.endswith('Regex::new'): return Re(args[0]) if isinstance(args[0], str) else Re(HOLE)
        if l in ('unwrap', 'expect', 'must_use', 'deref', 'as_str', 'as_ref', 'to_owned', 'clone', 'to_string', 'into', 'from', 'new_display', 'borrow', 'into_owned', 'as_bytes') and args:
            if g is None: return args[0]
        if c.endswith('Arguments::new') and len(args) == 2 and isinstance(args[0], bytes):
            out = ''
            for p in mir.template(args[0]):
                if p[0] == 'lit': out += p[1]
                else: out += self.text(args[1][p[1]]) if isinstance(args[1], list) and p[1] < len(args[1]) else HOLE
            return out
        if c.endswith(('Arguments::from_str', 'Arguments::from_str_nonconst')): return args[0]
        if c == 'format' or c.endswith('fmt::format'): return args[0]
        if l == 'join' and isinstance(args[0], list) and isinstance(args[1], str): return args[1].join(self.text(x) for x in args[0])
        if l == 'concat' and isinstance(args[0], list): return ''.join(self.text(x) for x in args[0])
        if l == 'add' and len(args) == 2: return self.text(args[0]) + self.text(args[1])
        if g is not None and g.kind == 'fn' and not g.closure: return self.run(g, args)
        if g is not None and g.closure:
            env_v = args[0] if args and isinstance(args[0], tuple) and args[0][:1] == ('closure',) else None
            return self.closure(('closure', g.closure, env_v[2] if env_v else ()))
        if re.search(r'\bString\b|str', callee) and l in ('escape', 'quote'): return HOLE
        return None
    def closure(self, v):
        g = self.prog.closures.get(v[1])
        if g is None: return None
        return self.run(g, [tuple(v[2])] + [None] * (len(g.params) - 1))
