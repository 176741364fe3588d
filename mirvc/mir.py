"""Reads the MIR that rustc prints for /repo's current source (-Zunpretty=mir)."""
import re, os, subprocess, sys, time

class Fn:
    __slots__ = ('name', 'params', 'ret', 'types', 'blocks', 'span', 'short', 'impl', 'trait', 'ty', 'closure', 'debug', 'kind', 'key')

def balanced(s, i, op, cl):
    d = 0
    q = False
    while i < len(s):
        c = s[i]
        if q:
            if c == '\\': i += 1
            elif c == '"': q = False
        elif c == '"': q = True
        elif c == op: d += 1
        elif c == cl:
            d -= 1
            if d == 0: return i
        i += 1
    raise ValueError(s)

def split_top(s, sep=','):
    """splits at top level separators (brackets, quotes and <> respected)"""
    out, d, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                if s[j] == '\\': j += 1
                j += 1
            cur += s[i:j + 1]; i = j + 1; continue
        if c == "'" :
            m = re.match(r"'(\\u\{[0-9a-f]+\}|\\x..|\\.|[^\\'])'", s[i:])
            if m: cur += m.group(0); i += m.end(); continue
        if c in '([{<': d += 1
        elif c in ')]}': d -= 1
        elif c == '>' and s[i - 1] not in '-=': d -= 1
        if c == sep and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur.strip())
    return out

def parse_place(s):
    """-> (root local, (projection, ...)); projections: ('*',) ('f', n, ty) ('v', name) ('i',) ('s',)"""
    p, rest = _place(s.strip())
    if rest.strip(): raise ValueError('place: %r rest %r' % (s, rest))
    return p

def _place(s):
    if s.startswith('('):
        e = balanced(s, 0, '(', ')')
        inner, rest = s[1:e], s[e + 1:]
        if inner.startswith('*'):
            (r, pr), x = _place(inner[1:])
            if x.strip(): raise ValueError('deref: ' + inner)
            base = (r, pr + (('*',),))
        else:
            (r, pr), x = _place(inner)
            m = re.match(r'\s+as\s+([\w#]+)$', x)
            if m: base = (r, pr + (('v', m.group(1)),))
            else:
                m = re.match(r'\.(\d+):\s*(.*)$', x, re.S)
                if m: base = (r, pr + (('f', int(m.group(1)), m.group(2)),))
                elif re.match(r'\s+as\s+subtype', x) or not x.strip(): base = (r, pr)
                else: raise ValueError('field: ' + inner)
    else:
        m = re.match(r'_\d+', s)
        if not m: raise ValueError('local: ' + s)
        base, rest = (m.group(0), ()), s[m.end():]
    while rest.startswith('['):
        e = balanced(rest, 0, '[', ']')
        body = rest[1:e]
        base = (base[0], base[1] + ((('i', body),) if re.match(r'_\d+$', body) else (('s', body),)))
        rest = rest[e + 1:]
    return base, rest

HEADER = re.compile(r'^(?:pub |unsafe |extern "C" |const )*fn (.*?)\((.*)\) -> (.*) \{$')
def parse(text):
    fns, cur, blk = [], None, None
    lines = text.split('\n')
    i = 0
    while i < len(lines):
        l = lines[i]; i += 1
        if cur is None:
            m = re.match(r'const (.*?): (.*?) = const (.*);$', l) or re.match(r'const (.*?): (.*?) = const (".*)$', l)
            if m:
                val = m.group(3)
                if l.endswith(';') is False:
                    while not l.endswith('";'): l = lines[i]; i += 1; val += '\n' + l
                    val = val[:-1]
                f = Fn(); f.name = m.group(1); f.closure = None; f.params = []; f.ret = m.group(2); f.debug = {}
                f.types = {'_0': f.ret}; f.blocks = {'bb0': (['_0 = const ' + val, 'return'], False)}; f.kind = 'const'
                fns.append(f); continue
            m = re.match(r'(const|static(?: mut)?) (.*): (.*) = \{$', l)
            if m:
                f = Fn(); f.name = m.group(2); f.closure = None; f.params = []; f.ret = m.group(3); f.debug = {}
                f.types = {'_0': f.ret}; f.blocks = {}; f.kind = m.group(1).split()[0]
                cur = f; continue
            if l.startswith('fn ') or l.startswith('const fn ') or l.startswith('unsafe fn '):
                k = l.index('(')
                e = balanced(l, k, '(', ')')
                f = Fn(); f.name = l[:k].split('fn ', 1)[1]; f.closure = None
                f.types = {}; f.params = []; f.blocks = {}; f.debug = {}; f.kind = 'fn'
                for a in split_top(l[k + 1:e]):
                    n, t = a.split(': ', 1); f.params.append(n.strip()); f.types[n.strip()] = t
                m = re.match(r'\s*-> (.*) \{$', l[e + 1:])
                f.ret = m.group(1) if m else '()'
                f.types['_0'] = f.ret
                cur = f
            continue
        if l == '}': fns.append(cur); cur = None; continue
        s = l.strip()
        m = re.match(r'let (?:mut )?(_\d+): (.*);$', s)
        if m and blk is None: cur.types[m.group(1)] = m.group(2); continue
        m = re.match(r'debug (\S+) => (.*);$', s)
        if m and blk is None: cur.debug.setdefault(m.group(1), m.group(2)); continue
        m = re.match(r'(bb\d+)( \(cleanup\))?: \{$', s)
        if m:
            blk = []; cur.blocks[m.group(1)] = (blk, bool(m.group(2))); continue
        if s == '}': 
            blk = None if l.startswith('    }') else blk
            continue
        if blk is not None and s:
            while not s.endswith(';') and i < len(lines):
                s += '\n' + lines[i].strip(); i += 1
            blk.append(s[:-1])
    return fns

def unescape_bytes(s):
    out, i = bytearray(), 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            d = s[i + 1]
            if d == 'x': out.append(int(s[i + 2:i + 4], 16)); i += 4; continue
            if d == 'u':
                e = s.index('}', i); out += chr(int(s[i + 3:e], 16)).encode(); i = e + 1; continue
            out += {'n': b'\n', 't': b'\t', 'r': b'\r', '0': b'\0', '\\': b'\\', '"': b'"', "'": b"'"}[d]; i += 2; continue
        out += c.encode(); i += 1
    return bytes(out)

def str_const(s):
    """value of a printed string constant"""
    return unescape_bytes(s[1:-1]).decode('utf8', 'replace')

def template(b):
    """pieces of a format template: ('lit', text) and ('arg', index, plain)"""
    out, i, nxt = [], 0, 0
    while i < len(b):
        c = b[i]; i += 1
        if c == 0: break
        if c < 0x80: out.append(('lit', b[i:i + c].decode('utf8', 'replace'))); i += c; continue
        if c == 0x80:
            n = b[i] | b[i + 1] << 8; i += 2
            out.append(('lit', b[i:i + n].decode('utf8', 'replace'))); i += n; continue
        plain = True; idx = nxt
        if c & 1: i += 4; plain = False
        if c & 2: i += 2; plain = False
        if c & 4: i += 2; plain = False
        if c & 8: idx = b[i] | b[i + 1] << 8; i += 2
        nxt = idx + 1
        out.append(('arg', idx, plain))
    return out

def strip_generics(p):
    """removes ::<...> and lifetimes from a path"""
    out, i = '', 0
    while i < len(p):
        if p.startswith('::<', i) and not p.startswith('::<impl', i):
            d, j = 0, i + 2
            while True:
                if p[j] == '<': d += 1
                elif p[j] == '>' and p[j - 1] not in '-=': d -= 1
                j += 1
                if d == 0: break
            i = j; continue
        out += p[i]; i += 1
    return out

def base_type(t):
    """ParserState of &mut parser::ParserState<'_>"""
    t = re.sub(r"^(&('\w+ )?(mut )?)+", '', t.strip())
    t = re.sub(r'<.*$', '', t, flags=re.S)
    return t.split('::')[-1].strip()

def dump(repo, target):
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    nonce = 'vmir_%x' % (time.time_ns())     # an unused cfg makes cargo run rustc even if nothing changed
    r = subprocess.run(['cargo', '+nightly', 'rustc', '--lib', '--offline', '--', '-Zunpretty=mir', '--cfg', nonce, '-Awarnings'], cwd=repo, env=env, capture_output=True, text=True, timeout=600)
    if r.returncode != 0: raise RuntimeError('MIR: ' + r.stderr[-3000:])
    return r.stdout

def annotate(fns, repo):
    """names: short name, impl type and trait from the source lines the impl spans point at"""
    cache = {}
    def line(f, n):
        if f not in cache: cache[f] = open(os.path.join(repo, f)).read().split('\n')
        return cache[f]
    for f in fns:
        f.ty = f.trait = None; f.impl = None
        m = re.search(r'<impl at (src/\w+\.rs):(\d+):(\d+): (\d+):(\d+)>', f.name)
        if m:
            ls = line(m.group(1), 0); a, c1, b, c2 = int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5))
            txt = '\n'.join(ls[a - 1:b])
            head = ls[a - 1][c1 - 1:]
            if head.startswith('impl'):
                full = ' '.join(x.strip() for x in ls[a - 1:b])
                full = re.sub(r'^impl\s*', '', full)
                if full.startswith('<'):
                    d = 0
                    for k, c in enumerate(full):
                        if c == '<': d += 1
                        elif c == '>': d -= 1
                        if d == 0: break
                    full = full[k + 1:].strip()
                full = re.sub(r'\bwhere\b.*', '', full).split('{')[0].strip()
                if ' for ' in full:
                    tr, ty = full.split(' for ', 1); f.trait = base_type(tr); f.ty = base_type(ty)
                else: f.ty = base_type(full)
            else:      # derive
                f.trait = re.match(r'\w+', head).group(0)
                for l in ls[a - 1:a + 12]:
                    mm = re.search(r'\b(?:struct|enum)\s+(\w+)', l)
                    if mm: f.ty = mm.group(1); break
        f.short = re.sub(r'<impl at [^>]*>', lambda m: '', f.name)
        if f.params and '{closure@' in f.types[f.params[0]]:
            f.closure = re.search(r'\{closure@([^}]*)\}', f.types[f.params[0]]).group(1)
        last = f.name
        # what comes behind the impl
        tail = re.split(r'<impl at src[^>]*>::', f.name)[-1]
        f.short = (f.ty + '::' if f.ty else '') + tail
    return fns
