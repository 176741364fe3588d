"""Cuts functions and types out of /repo's current source and writes them, with contracts from a unit file, into one
Verus file.  What is changed on the way (and nothing else):
  * visibility, attributes, doc comments and `where`-less generics stay or go as they are, see strip_*
  * format!(..)            -> the same pieces appended to a String one after the other
  * unreachable!/panic!    -> vx_unreachable(), whose contract is `requires false`
  * lazy_static!{..}       -> dropped; `NAME` of a `static ref NAME: T` becomes a call `NAME()` of an uninterpreted value
  * the return value gets a name, and the contract, loop invariants and proof hints are inserted
  * per-unit rewrites listed in the unit file (`//@ rewrite`), each a token-level replacement that is shown in DESIGN.md
"""
import os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from rustlex import lex, match, Tok

class Lost(Exception): pass          # an anchor is gone: the unit says nothing about this tree

_cache = {}
def load(repo, f):
    p = os.path.join(repo, 'src', f)
    if p not in _cache:
        try: src = open(p).read()
        except OSError: raise Lost('no file ' + f)
        # drop the unit tests
        m = re.search(r'^#\[cfg\(test\)\]\s*\nmod \w+ \{', src, re.M)
        if m: src = src[:m.start()]
        _cache[p] = (src, lex(src))
    return _cache[p]

def impl_ranges(toks, ty, trait=None):
    out = []
    for i, t in enumerate(toks):
        if t.k == 'id' and t.s == 'impl':
            j = i + 1
            if toks[j].s == '<':
                d = 0
                while True:
                    if toks[j].s == '<': d += 1
                    if toks[j].s == '>': d -= 1
                    j += 1
                    if d == 0: break
            head = []
            while toks[j].s not in ('{', 'where', ';'): head.append(toks[j].s); j += 1
            while toks[j].s != '{': j += 1
            if 'for' in head:
                k = head.index('for'); tr, target = ''.join(head[:k]), head[k + 1:]
            else: tr, target = None, head
            if target and target[0] == ty or (len(target) > 2 and ty in target):
                if (trait is None and tr is None) or (trait is not None and tr is not None and trait in tr):
                    out.append((i, j, match(toks, j)))
    return out

def find_fn(repo, f, name, impl=None, trait=None):
    src, toks = load(repo, f)
    rs = impl_ranges(toks, impl, trait) if impl else [(0, 0, len(toks) - 1)]
    hits = []
    for (hd, a, b) in rs:
        for i in range(a, b):
            if toks[i].s == 'fn' and toks[i].k == 'id' and toks[i + 1].s == name: hits.append((hd, a, i))
    if not hits: raise Lost('no fn %s in %s%s' % (name, f, ' impl ' + impl if impl else ''))
    if len(hits) > 1: raise Lost('fn %s is ambiguous in %s' % (name, f))
    hd, a, i = hits[0]
    j = i + 2
    while toks[j].s not in ('{', ';'):
        if toks[j].s in ('(', '['): j = match(toks, j)
        j += 1
    if toks[j].s == ';': raise Lost('fn %s has no body' % name)
    e = match(toks, j)
    header = src[toks[hd].a:toks[a].a] if impl else None
    return src, toks, i, j, e, header

def find_item(repo, f, kind, name):
    src, toks = load(repo, f)
    for i in range(len(toks) - 1):
        if toks[i].s == kind and toks[i + 1].s == name:
            j = i
            while toks[j].s not in ('{', ';', '('): 
                j += 1
            e = match(toks, j) if toks[j].s != ';' else j
            if toks[j].s == '(' : e += 1    # tuple struct: the ;
            if kind in ('const', 'static'):
                e = j
                k = i
                while toks[k].s != ';': k = match(toks, k) if toks[k].s in '([{' else k; k += 1
                e = k
            return src[toks[i].a:toks[e].b]
    raise Lost('no %s %s in %s' % (kind, name, f))

def apply_edits(src, a, b, edits):
    edits = sorted(edits, key=lambda x: (x[0], x[1]))
    out, p = [], a
    for (x, y, s) in edits:
        if x < p: raise Lost('overlapping edits')
        out.append(src[p:x]); out.append(s); p = y
    out.append(src[p:b])
    return ''.join(out)

def str_value(tok):
    s = tok.s
    m = re.match(r'r(#*)"', s)
    if m: return s[m.end():len(s) - 1 - len(m.group(1))]
    body = s[1:-1]
    body = re.sub(r'\\\n\s*', '', body)
    def un(m):
        x = m.group(1)
        if x[0] == 'u': return chr(int(x[2:-1], 16))
        if x[0] == 'x': return chr(int(x[1:], 16))
        return {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '\\': '\\', '"': '"', "'": "'"}[x]
    return re.sub(r'\\(u\{[0-9a-fA-F]+\}|x[0-9a-fA-F]{2}|.)', un, body)

def rust_lit(s):
    o = '"'
    for c in s:
        if c == '"': o += '\\"'
        elif c == '\\': o += '\\\\'
        elif c == '\n': o += '\\n'
        elif c == '\t': o += '\\t'
        elif c == '\r': o += '\\r'
        else: o += c
    return o + '"'

def split_args(toks, a, b):
    """token ranges of the comma separated arguments in toks[a:b]"""
    out, s, i = [], a, a
    while i < b:
        if toks[i].s in ('(', '[', '{'): i = match(toks, i)
        elif toks[i].s == ',': out.append((s, i)); s = i + 1
        i += 1
    if s < b: out.append((s, b))
    return out

def fmt_rewrite(src, toks, i, sub):
    """format!( at token i -> text of a block that builds the string"""
    o = i + 2; c = match(toks, o)
    args = split_args(toks, o + 1, c)
    if not args: raise Lost('format! without arguments')
    ft = toks[args[0][0]]
    if ft.k != 'str' or args[0][1] - args[0][0] != 1: raise Lost('format! without a literal template')
    tpl = str_value(ft)
    pos, named = [], {}
    for (x, y) in args[1:]:
        if y - x > 2 and toks[x].k == 'id' and toks[x + 1].s == '=': named[toks[x].s] = (x + 2, y)
        else: pos.append((x, y))
    parts, k, nxt, lit = [], 0, 0, ''
    while k < len(tpl):
        ch = tpl[k]
        if tpl.startswith('{{', k) or tpl.startswith('}}', k): lit += ch; k += 2; continue
        if ch == '{':
            e = tpl.index('}', k); spec = tpl[k + 1:e]; k = e + 1
            if ':' in spec: raise Lost('format! with a format specification')
            if lit: parts.append(('lit', lit)); lit = ''
            if spec == '': parts.append(('arg', sub(*pos[nxt]))); nxt += 1
            elif spec.isdigit(): parts.append(('arg', sub(*pos[int(spec)])))
            elif spec in named: parts.append(('arg', sub(*named[spec])))
            else: parts.append(('arg', spec))
            continue
        lit += ch; k += 1
    if lit: parts.append(('lit', lit))
    out = '{ let mut vx_f = String::new(); '
    for kind, v in parts:
        out += 'vx_f.push_str(%s); ' % rust_lit(v) if kind == 'lit' else 'vx_push_disp(&mut vx_f, &(%s)); ' % v
    return out + 'vx_f }', c

def transform(src, toks, a, b, opts):
    """text of tokens a..b (inclusive) with the mechanical rewrites"""
    edits = []
    statics = opts['statics']
    i = a
    def sub(x, y): return transform(src, toks, x, y - 1, opts)
    while i <= b:
        t = toks[i]
        if t.k == 'op' and t.s == '#' and i + 1 <= b and toks[i + 1].s == '[':
            e = match(toks, i + 1); edits.append((t.a, toks[e].b, '')); i = e + 1; continue
        if t.k == 'id' and i + 2 <= b and toks[i + 1].s == '!' and toks[i + 2].s in ('(', '{', '['):
            e = match(toks, i + 2)
            if t.s in ('unreachable', 'panic'): edits.append((t.a, toks[e].b, 'vx_unreachable()')); i = e + 1; continue
            if t.s == 'format':
                s, e = fmt_rewrite(src, toks, i, sub); edits.append((t.a, toks[e].b, s)); i = e + 1; continue
            if t.s == 'lazy_static':
                for k in range(i + 3, e):
                    if toks[k].s == 'static' and toks[k + 1].s == 'ref':
                        ty = []
                        m = k + 4
                        while toks[m].s != '=':
                            ty.append(toks[m].s); m += 1
                        statics[toks[k + 2].s] = ' '.join(ty)
                x = toks[e].b
                if e + 1 <= b and toks[e + 1].s == ';': x = toks[e + 1].b; e += 1
                edits.append((t.a, x, '')); i = e + 1; continue
        if t.k == 'id' and t.s == 'pub':
            e = i
            if toks[i + 1].s == '(': e = match(toks, i + 1)
            edits.append((t.a, toks[e].b, '')); i = e + 1; continue
        if t.k == 'id' and t.s in opts['static_names'] and (i == a or toks[i - 1].s not in ('ref', '::', 'fn')):
            edits.append((t.a, t.b, t.s + '()'))
        i += 1
    for (x, y, s) in opts['inserts']:
        if toks[a].a <= x and y <= toks[b].b: edits.append((x, y, s))
    return apply_edits(src, toks[a].a, toks[b].b, edits)

def loops(toks, a, b, skip):
    """(keyword index, body { index) of every loop between tokens a and b, outside the skipped ranges"""
    out = []
    i = a
    while i < b:
        for (x, y) in skip:
            if x <= i <= y: i = y + 1
        t = toks[i]
        if t.k == 'id' and t.s in ('while', 'loop', 'for') and not (t.s == 'for' and toks[i + 1].s == '<'):
            j = i + 1
            while toks[j].s != '{':
                if toks[j].s in ('(', '['): j = match(toks, j)
                j += 1
            out.append((i, j))
        i += 1
    return out

# std calls written out (their documented meaning)
GLOBAL = [
    (r"\bconst (\w+): \[(\(?)&str", r"let \1: [\2&'static str"),        # a const inside a function
    (r"\bAsRef<str>", "VxAsRef"),
    (r"\(([^()]*?)\.\.=([^()]*?)\)\.contains\(&(\w+)\)", r"((\1) <= \3 && \3 <= (\2))"),
    (r"String::from\(([^()]*)\) \+ (&?\w+(?:\([^()]*\))?)", r"vx_add(String::from(\1), \2)"),
    (r"(\w+)\.chars\(\)\.all\(([\w:]+)\)", r"vx_all_chars(\1, \2)"),
]
def emit_fn(repo, d):
    """d: directive of a unit file"""
    src, toks, i, j, e, header = find_fn(repo, d['file'], d['name'], d.get('impl'), d.get('trait'))
    d['spans'].append((d['file'], toks[i].a, toks[e].b))
    if True:
        txt = src[toks[i].a:toks[e].b]
        for (pat, rep) in GLOBAL: txt = re.sub(pat, rep, txt)
        for (pat, rep, opt) in d['rewrites']:
            txt, n = re.subn(pat, rep, txt, flags=re.S)
            if n == 0 and not opt: raise Lost('%s: nothing matches the rewrite %s' % (d['name'], pat))
        src, toks, i = txt, lex(txt), 0
        j = 2
        while toks[j].s != '{':
            if toks[j].s in ('(', '['): j = match(toks, j)
            j += 1
        e = match(toks, j)
    # nested fn items that are extracted on their own
    skip = []
    for nm in d.get('drop', []):
        for k in range(j, e):
            if toks[k].s == 'fn' and toks[k + 1].s == nm:
                m = k
                while toks[m].s != '{':
                    if toks[m].s in ('(', '['): m = match(toks, m)
                    m += 1
                skip.append((k, match(toks, m)))
    inserts = [(toks[x].a, toks[y].b, '') for (x, y) in skip]
    lp = loops(toks, j, e, skip)
    if 'nloops' in d and len(lp) != d['nloops']: raise Lost('%s has %d loops, %d expected' % (d['name'], len(lp), d['nloops']))
    for n, txt in d.get('loop', {}).items():
        if n > len(lp): raise Lost('%s has no loop %d' % (d['name'], n))
        x = toks[lp[n - 1][1]].a; inserts.append((x, x, '\n' + txt + '\n'))
    for n, it in d.get('iter', {}).items():
        kw, ob = lp[n - 1]
        if toks[kw].s != 'for': raise Lost('loop %d of %s is no for loop' % (n, d['name']))
        k = kw
        while toks[k].s != 'in': k += 1
        x = toks[k].b; inserts.append((x, x, ' ' + it + ':'))
    for (where, n), txt in d.get('hint', {}).items():
        if where == 'before loop': x = toks[lp[n - 1][0]].a
        elif where == 'loop start': x = toks[lp[n - 1][1]].b
        elif where == 'loop end': x = toks[match(toks, lp[n - 1][1])].a
        elif where == 'after loop': x = toks[match(toks, lp[n - 1][1])].b
        elif where == 'entry': x = toks[j].b
        elif where == 'after let':
            x = None
            for k in range(j, e):
                if toks[k].s == 'let':
                    m = k + 1
                    if toks[m].s == 'mut': m += 1
                    if toks[m].s == n and toks[m + 1].s in ('=', ':'):
                        while toks[m].s != ';': m = match(toks, m) if toks[m].s in ('(', '[', '{') else m; m += 1
                        x = toks[m].b
                        break
            if x is None: raise Lost('no `let %s` in %s' % (n, d['name']))
        elif where == 'end':
            # in front of the tail expression: behind the last ; or } at depth 1, or at the start
            k, x = j + 1, toks[j].b
            while k < e:
                if toks[k].s in ('(', '['): k = match(toks, k)
                elif toks[k].s == '{':
                    k = match(toks, k)
                    if toks[k + 1].s not in ('.', '?', 'else') and k + 1 < e and toks[k].s == '}': x = toks[k].b
                elif toks[k].s == ';': x = toks[k].b
                k += 1
        else: raise Lost('unknown hint ' + where)
        inserts.append((x, x, '\n' + txt + '\n'))
    if len(d.get('hint', {})) and any(k[0] != 'entry' and k[0] != 'end' and k[0] != 'after let' and k[1] > len(lp) for k in d['hint']): raise Lost('loops')
    opts = dict(statics=d['statics'], static_names=d['static_names'], inserts=[])
    sig = transform(src, toks, i, j - 1, dict(opts))
    opts['inserts'] = inserts
    body = transform(src, toks, j, e, opts)
    where = ''
    m = re.search(r'\bwhere\b', sig)
    if m: sig, where = sig[:m.start()], sig[m.start():].rstrip().rstrip(',')
    ret = d.get('ret')
    if ret:
        k = sig.rfind('->')
        if k < 0: raise Lost('%s returns nothing' % d['name'])
        sig = sig[:k] + '-> (' + ret + ': ' + sig[k + 2:].strip() + ')'
    for (p, r) in d.get('sig', []): sig = re.sub(p, r, sig)
    spec = d.get('spec', '')
    if d.get('canary'):      # vacuity guard: with `ensures false` the function must not verify
        m = re.search(r'\bensures\b', spec)
        spec = spec[:m.end()] + ' false, ' + spec[m.end():] if m else spec.rstrip() + ' ensures false\n'
        d = dict(d, spec=spec)
    text = d.get('attr', '') + '\n' + sig + ' ' + where + '\n' + d.get('spec', '') + '\n' + body + '\n'
    if header: 
        for (p, r) in d.get('header', []): header = re.sub(p, r, header)
        text = header + '{\n' + text + '}\n'
    return text

def parse_unit(path):
    """-> dict(props, parts): parts is a list of text and of extraction directives"""
    u = dict(name=os.path.basename(path)[:-4], props=[], parts=[], include=[], rlimit=None, trusted=[])
    cur, field = None, None
    for line in open(path):
        m = re.match(r'\s*//@\s*(.*)$', line)
        if not m:
            if cur is None:
                if u['parts'] and isinstance(u['parts'][-1], str): u['parts'][-1] += line
                else: u['parts'].append(line)
            else: field(line)
            continue
        c = m.group(1).strip(); w = c.split()
        if w[0] == 'props': u['props'] = w[1:]
        elif w[0] == 'include': u['include'] += w[1:]
        elif w[0] == 'trusted': u['trusted'].append(c[8:])
        elif w[0] == 'extract':
            # extract FILE [impl TYPE [trait T]] fn NAME [-> RET]   |  extract FILE struct|enum|const NAME
            cur = dict(file=w[1], loop={}, iter={}, hint={}, rewrites=[], sig=[], header=[], drop=[], kind='fn')
            k = 2
            if w[k] == 'impl': cur['impl'] = w[k + 1]; k += 2
            if w[k] == 'trait': cur['trait'] = w[k + 1]; k += 2
            cur['kind'] = w[k]; cur['name'] = w[k + 1]
            if '->' in w: cur['ret'] = w[w.index('->') + 1]
            u['parts'].append(cur)
            field = lambda l: None
            if cur['kind'] != 'fn' and False: cur = None
        elif w[0] == 'end': cur = None
        elif w[0] == 'spec': cur['spec'] = ''; field = (lambda d: lambda l: d.__setitem__('spec', d['spec'] + l))(cur)
        elif w[0] == 'attr': cur['attr'] = c[5:]
        elif w[0] == 'nloops': cur['nloops'] = int(w[1])
        elif w[0] == 'drop': cur['drop'] += w[1:]
        elif w[0] == 'iter': cur['iter'][int(w[1])] = w[2]
        elif w[0] == 'loop' and len(w) == 2:
            n = int(w[1]); cur['loop'][n] = ''; field = (lambda d, n: lambda l: d['loop'].__setitem__(n, d['loop'][n] + l))(cur, n)
        elif w[0] in ('rewrite', 'rewrite?', 'sig', 'header'):
            p, r = c[len(w[0]):].strip().split(' ==> ') if ' ==> ' in c else (c[len(w[0]):].strip().rstrip('=>').strip(), '')
            if w[0][:7] == 'rewrite': cur['rewrites'].append((p.strip(), r.strip(), w[0][-1] == '?'))
            else: cur[w[0]].append((p.strip(), r.strip()))
        else:
            if w[0] in ('entry', 'end-hint'): key = ('entry' if w[0] == 'entry' else 'end', 0)
            elif w[:2] == ['before', 'loop']: key = ('before loop', int(w[2]))
            elif w[:2] == ['after', 'loop']: key = ('after loop', int(w[2]))
            elif w[:2] == ['after', 'let']: key = ('after let', w[2])
            elif w[0] == 'loop' and w[2] in ('start', 'end'): key = ('loop ' + w[2], int(w[1]))
            else: raise ValueError('bad directive: ' + c)
            cur['hint'][key] = ''; field = (lambda d, k: lambda l: d['hint'].__setitem__(k, d['hint'][k] + l))(cur, key)
    return u

HEAD = '''#![feature(pattern, const_destruct)]
#![verifier::allow(undeclared_external_trait)]
#![allow(unused, dead_code, non_snake_case)]
use vstd::prelude::*;
'''
USES = 'use vstd::prelude::*; use vstd::string::*; use vstd::slice::*; use vstd::utf8::*; use std::str::pattern::Pattern; use std::borrow::Cow; use std::collections::BTreeMap;\n'

def cset_expr(cs, v):
    """Rust condition: v is one of the characters in the set"""
    parts, a = [], sorted(c for c in cs if c < 128)
    i = 0
    while i < len(a):
        j = i
        while j + 1 < len(a) and a[j + 1] == a[j] + 1: j += 1
        q = lambda c: "'\\u{%x}'" % c
        parts.append('%s == %s' % (v, q(a[i])) if i == j else '(%s <= %s && %s <= %s)' % (q(a[i]), v, v, q(a[j])))
        i = j + 1
    if 128 in cs: parts.append("%s > '\\u{7f}'" % v)
    return ' || '.join(parts) or 'false'

def regex_facts(repo, statics, spans):
    """axioms about the regular expressions behind the lazy statics of this unit"""
    import regexlit
    ev = regexlit.Ev(repo)
    rx = ev.regexes()
    out, names = '', []
    for n, ty in statics.items():
        if ty != 'Regex': continue
        c = [v for (f, off), v in rx.items() if v[0] == n and any(f == g and a <= off <= b for (g, a, b) in spans)]
        if not c: c = [v for (f, off), v in rx.items() if v[0] == n]
        pats = {v[2] for v in c}
        if len(pats) != 1: continue
        pat = pats.pop()
        if regexlit.HOLE in pat: continue
        try: r = regexlit.Rx(pat)
        except regexlit.Bad: continue
        L = lambda s: rust_lit(s) + '@'
        ens = ['re_groups(*re_%s()) == Some(%dnat)' % (n, r.n + 1), 're_group_always(*re_%s(), 0)' % n]
        ens += ['re_group_always(*re_%s(), %d)' % (n, g) for g in sorted(r.always)]
        for nm, g in r.names.items():
            ens.append('re_name(*re_%s(), %s) == Some(%dint)' % (n, L(nm), g))
            if g in r.always: ens.append('re_name_always(*re_%s(), %s)' % (n, L(nm)))
        out += '/// read off %r\npub broadcast axiom fn axiom_re_%s() ensures #![trigger re_%s()] %s;\n' % (pat, n, n, ', '.join(ens))
        names.append('axiom_re_%s' % n)
        if re.match(r'(\(\?[is]+\))?\^', pat) and re.search(r'(?<!\\)\$$', pat) and r.ast[0] == 'cat':
            out += 'pub broadcast axiom fn axiom_re_%s_full(s: Seq<char>) requires #[trigger] re_matches(*re_%s(), s) ensures re_word(*re_%s(), 0, s);\n' % (n, n, n)
            names.append('axiom_re_%s_full' % n)
        for g in range(r.n + 1):
            node = r.ast if g == 0 else r.groups[g]
            w = r.words(node, 16)
            if w is not None:
                cond = ' || '.join('s == %s' % L(x) for x in sorted(w)); extra = ''
                lits = sorted(w)
            else:
                cs = r.chars(node)
                if cs == regexlit.ALL: continue
                cond = 'forall|j: int| 0 <= j < s.len() ==> { let c = #[trigger] s[j]; %s }' % cset_expr(cs, 'c')
            out += 'pub broadcast axiom fn axiom_re_%s_%d(s: Seq<char>) requires #[trigger] re_word(*re_%s(), %d, s) ensures %s;\n' % (n, g, n, g, cond)
            names.append('axiom_re_%s_%d' % (n, g))
    return out, names

def build(repo, unit_path, out, canary=False):
    """writes the Verus file; returns [(first line, last line, function)] for the extracted functions"""
    here = os.path.dirname(os.path.abspath(__file__))
    u = parse_unit(unit_path)
    _cache.clear()
    statics, chunks, srcspans = {}, [], []
    # first pass to learn the lazy statics
    for _ in range(2):
        chunks = []
        for p in u['parts']:
            if isinstance(p, str): chunks.append((None, p)); continue
            q = dict(p, canary=(canary == p.get('name') if not p.get('impl') else canary == p['impl'] + '::' + p['name']), statics=statics, static_names=set(statics), spans=srcspans)
            if q['kind'] == 'fn': chunks.append((p, emit_fn(repo, q)))
            else:
                txt = find_item(repo, q['file'], q['kind'], q['name'])
                txt = re.sub(r'\bpub(\s*\([^)]*\))?\s+', '', txt)
                for (pp, rr, oo) in q['rewrites']: txt = re.sub(pp, rr, txt)
                chunks.append((p, q.get('attr', '') + '\n' + txt + '\n'))
    text = HEAD
    pre = ''
    for f in ['strings.rs', 'std_str.rs'] + u['include']: pre += open(os.path.join(here, f)).read() + '\n'
    spre = ''
    for n, ty in statics.items():
        if ty == 'Regex': spre += '#[verifier::external_body] pub fn %s() -> (r: &\'static Regex) ensures r == re_%s() { unimplemented!() }\npub uninterp spec fn re_%s() -> &\'static Regex;\n' % (n, n, n)
    uses = USES
    rf = regex_facts(repo, statics, srcspans) if 'regex.rs' in u['include'] else ('', [])
    spre += rf[0]
    text += 'verus! {\npub mod pre {\n' + uses + pre + spre + '}\npub mod code {\n' + uses + 'use super::pre::*;\nbroadcast use {group_strings, group_std' + ''.join(', ' + x for x in rf[1]) + '};\n'
    spans = []
    line = text.count('\n') + 1
    for p, c in chunks:
        if p is not None and p['kind'] == 'fn': spans.append((line, line + c.count('\n'), (p.get('impl', '') + '::' if p.get('impl') else '') + p['name'], p['file']))
        text += c; line = text.count('\n') + 1
    text += '}\n}\nfn main() {}\n'
    open(out, 'w').write(text)
    return u, spans
