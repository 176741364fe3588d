"""Reads the regular expressions of /repo off its source and says simple things about them:
which groups always take part in a match, and which characters a group's text can consist of.
The answers are used as (checked by construction, see selftest) facts about fancy_regex matches."""
import os, re
from rustlex import lex, match
from functools import lru_cache

ASCII = frozenset(range(128)); ALL = frozenset(range(129))      # 128 stands for every non-ASCII character
WS = frozenset([9, 10, 11, 12, 13, 32, 128]); DIG = frozenset(range(48, 58)) | {128}
WORD = frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95, 128])
UP = frozenset(range(65, 91)) | {128}; LOW = frozenset(range(97, 123)) | {128}
PROPS = {'Lu': UP, 'Ll': LOW, 'L': UP | LOW, 'N': DIG, 'Nd': DIG, 'M': frozenset([128]), 'Pc': frozenset([95, 128]),
         'Currency_Symbol': frozenset([36, 128]), 'Sc': frozenset([36, 128])}
class Bad(Exception): pass

class P:
    def __init__(s, t): s.t, s.i, s.n, s.names, s.fl = t, 0, 0, {}, set()
    def pk(s): return s.t[s.i] if s.i < len(s.t) else ''
    def alt(s):
        save = set(s.fl)
        xs = [s.cat()]
        while s.pk() == '|': s.i += 1; xs.append(s.cat())
        s.fl = save
        return ('alt', xs) if len(xs) > 1 else xs[0]
    def cat(s):
        xs = []
        while s.i < len(s.t) and s.pk() not in '|)':
            a = s.atom()
            if a is not None: xs.append(s.quant(a))
        return ('cat', xs)
    def quant(s, a):
        while True:
            c = s.pk()
            if c == '*': lo, hi = 0, None
            elif c == '+': lo, hi = 1, None
            elif c == '?': lo, hi = 0, 1
            elif c == '{':
                m = re.match(r'\{(\d+)(,(\d*))?\}', s.t[s.i:])
                if not m: return a
                lo = int(m.group(1)); hi = lo if not m.group(2) else (int(m.group(3)) if m.group(3) else None)
                s.i += m.end() - 1
            else: return a
            s.i += 1
            if s.pk() and s.pk() in '?+': s.i += 1
            a = ('rep', a, lo, hi)
    def atom(s):
        c = s.pk()
        if c == '(':
            s.i += 1
            if s.pk() == '?':
                s.i += 1
                for pre, k in (('<=', 'look'), ('<!', 'nlook'), ('=', 'look'), ('!', 'nlook'), ('>', 'atomic'), (':', 'nc')):
                    if s.t.startswith(pre, s.i):
                        s.i += len(pre); n = s.alt(); s.close(); return (k, n)
                m = re.match(r'P?<(\w+)>', s.t[s.i:])
                if m:
                    s.i += m.end(); s.n += 1; k = s.n; s.names[m.group(1)] = k; n = s.alt(); s.close(); return ('grp', k, n)
                m = re.match(r'([imsx]+)\)', s.t[s.i:])
                if m: s.fl |= set(m.group(1)); s.i += m.end(); return None
                raise Bad('group ' + s.t[s.i:s.i + 8])
            s.n += 1; k = s.n; n = s.alt(); s.close(); return ('grp', k, n)
        if c == '[': return s.cls()
        if c == '.': s.i += 1; return ('set', ALL if 's' in s.fl else ALL - {10})
        if c in '^$': s.i += 1; return ('zero',)
        if c == '\\': return s.esc()
        s.i += 1
        return ('set', s.ci({min(ord(c), 128)}))
    def ci(s, cs):
        cs = frozenset(cs)
        if 'i' in s.fl:
            ex = set()
            for c in cs:
                if 65 <= c <= 90: ex.add(c + 32)
                if 97 <= c <= 122: ex.add(c - 32)
            if cs & set(b'kKsS'): ex.add(128)
            if 128 in cs: ex |= set(b'kKsS')
            cs |= ex
        return cs
    def close(s):
        if s.pk() != ')': raise Bad('unclosed')
        s.i += 1
    def esc1(s):
        """after the backslash: ('set', ..) or other node"""
        c = s.pk(); s.i += 1
        if c in 'bB' : return ('zero',)
        if c in 'AzZ': return ('zero',)
        if c == 's': return ('set', WS)
        if c == 'S': return ('set', (ALL - WS) | {128})
        if c == 'd': return ('set', DIG)
        if c == 'D': return ('set', (ALL - DIG) | {128})
        if c == 'w': return ('set', WORD)
        if c == 'W': return ('set', (ALL - WORD) | {128})
        if c == 'n': return ('set', frozenset([10]))
        if c == 't': return ('set', frozenset([9]))
        if c == 'r': return ('set', frozenset([13]))
        if c == 'f': return ('set', frozenset([12]))
        if c == 'p':
            m = re.match(r'\{(\w+)\}', s.t[s.i:])
            if not m or m.group(1) not in PROPS: raise Bad('property')
            s.i += m.end(); return ('set', PROPS[m.group(1)])
        if c == 'x':
            m = re.match(r'[0-9a-fA-F]{2}', s.t[s.i:])
            if not m: raise Bad('x')
            s.i += 2; return ('set', frozenset([min(int(m.group(0), 16), 128)]))
        if c.isdigit(): return ('back', int(c))
        if c.isalpha(): raise Bad('escape ' + c)
        return ('set', frozenset([min(ord(c), 128)]))
    def esc(s): s.i += 1; n = s.esc1(); return ('set', s.ci(n[1])) if n[0] == 'set' else n
    def cls(s):
        s.i += 1; neg = False
        if s.pk() == '^': neg = True; s.i += 1
        cs, first = set(), True
        hasna = False
        while s.pk() != ']' or first:
            first = False
            c = s.pk()
            if c == '': raise Bad('class')
            if c == '[':
                if s.t.startswith('[:', s.i): raise Bad('posix class')
                # fancy_regex / regex: nested class
                n = s.cls(); cs |= n[1]; continue
            if c == '&' and s.t.startswith('&&', s.i): raise Bad('intersection')
            if c == '\\':
                s.i += 1; n = s.esc1()
                if n[0] != 'set': raise Bad('class escape')
                lo = n[1]
                if len(lo) != 1: cs |= lo; continue
                lo = next(iter(lo))
            else: s.i += 1; lo = ord(c)
            if s.pk() == '-' and s.i + 1 < len(s.t) and s.t[s.i + 1] != ']' :
                s.i += 1
                if s.pk() == '\\':
                    s.i += 1; n = s.esc1(); hi = max(n[1])
                    if len(n[1]) != 1: raise Bad('range')
                else: hi = ord(s.pk()); s.i += 1
                cs |= set(range(lo, min(hi, 127) + 1))
                if hi > 127: cs.add(128)
            else: cs.add(min(lo, 128))
        s.i += 1
        cs = s.ci(cs)
        if neg: return ('set', (ALL - cs) | {128})
        return ('set', frozenset(cs))

class Rx:
    def __init__(self, pat):
        self.pat = pat
        p = P(pat); self.ast = p.alt()
        if p.i != len(pat): raise Bad('trailing ' + pat[p.i:])
        self.n, self.names = p.n, p.names
        self.groups = {}
        self._index(self.ast)
        self.always = self._always(self.ast)
    def _index(self, n):
        if n[0] == 'grp': self.groups[n[1]] = n[2]
        for x in n[1:]:
            if isinstance(x, tuple): self._index(x)
            elif isinstance(x, list):
                for y in x: self._index(y)
    def _always(self, n):
        k = n[0]
        if k == 'cat': return frozenset().union(*[self._always(x) for x in n[1]]) if n[1] else frozenset()
        if k == 'alt':
            s = None
            for x in n[1]: y = self._always(x); s = y if s is None else s & y
            return s
        if k == 'grp': return self._always(n[2]) | {n[1]}
        if k in ('nc', 'atomic', 'look'): return self._always(n[1]) if k != 'look' else frozenset()
        if k == 'rep': return self._always(n[1]) if n[2] > 0 else frozenset()
        return frozenset()
    def chars(self, n=None, depth=0):
        """over-approximation of the characters in what node n matches"""
        if n is None: n = self.ast
        if depth > 60: return ALL
        k = n[0]
        if k in ('cat', 'alt'): return frozenset().union(*[self.chars(x, depth + 1) for x in n[1]]) if n[1] else frozenset()
        if k == 'grp': return self.chars(n[2], depth + 1)
        if k in ('nc', 'atomic'): return self.chars(n[1], depth + 1)
        if k in ('look', 'nlook', 'zero'): return frozenset()
        if k == 'rep': return self.chars(n[1], depth + 1) if n[3] != 0 else frozenset()
        if k == 'set': return n[1]
        if k == 'back': return self.chars(self.groups[n[1]], depth + 1) if n[1] in self.groups else ALL
        raise Bad(k)
    def nullable(self, n=None):
        if n is None: n = self.ast
        k = n[0]
        if k == 'cat': return all(self.nullable(x) for x in n[1])
        if k == 'alt': return any(self.nullable(x) for x in n[1])
        if k == 'grp': return self.nullable(n[2])
        if k in ('nc', 'atomic'): return self.nullable(n[1])
        if k == 'rep': return n[2] == 0 or self.nullable(n[1])
        if k == 'set': return False
        return True
    def words(self, n=None, cap=64):
        """the finite set of texts node n can match, or None"""
        if n is None: n = self.ast
        k = n[0]
        if k == 'cat':
            out = {''}
            for x in n[1]:
                w = self.words(x, cap)
                if w is None: return None
                out = {a + b for a in out for b in w}
                if len(out) > cap: return None
            return out
        if k == 'alt':
            out = set()
            for x in n[1]:
                w = self.words(x, cap)
                if w is None: return None
                out |= w
            return out if len(out) <= cap else None
        if k == 'grp': return self.words(n[2], cap)
        if k in ('nc', 'atomic'): return self.words(n[1], cap)
        if k in ('look', 'nlook', 'zero'): return {''}
        if k == 'rep':
            if n[3] is None or n[3] > 4: return None
            w = self.words(n[1], cap)
            if w is None: return None
            out, cur = (set() if n[2] > 0 else {''}), {''}
            for i in range(1, n[3] + 1):
                cur = {a + b for a in cur for b in w}
                if i >= n[2]: out |= cur
                if len(out) > cap or len(cur) > cap: return None
            return out
        if k == 'set':
            if 128 in n[1] or len(n[1]) > 16: return None
            return {chr(c) for c in n[1]}
        return None
    def can(self, n, text):
        """can node n match exactly this text?  (over-approximation: look-arounds hold, back references match anything)"""
        return len(text) in self._ends(n, text, frozenset([0]))
    def _ends(self, n, t, st):
        k = n[0]
        if k == 'cat':
            for x in n[1]: st = self._ends(x, t, st)
            return st
        if k == 'alt': return frozenset().union(*[self._ends(x, t, st) for x in n[1]])
        if k == 'grp': return self._ends(n[2], t, st)
        if k in ('nc', 'atomic'): return self._ends(n[1], t, st)
        if k in ('look', 'nlook', 'zero'): return st
        if k == 'rep':
            out, cur, i = (st if n[2] == 0 else frozenset()), st, 0
            while cur and (n[3] is None or i < n[3]) and i <= len(t) + n[2]:
                cur = self._ends(n[1], t, cur); i += 1
                if i >= n[2]: out |= cur
            return out
        if k == 'set': return frozenset(i + 1 for i in st if i < len(t) and (min(ord(t[i]), 128)) in n[1])
        if k == 'back': return frozenset(j for i in st for j in range(i, len(t) + 1))
        raise Bad(k)
    def subs(self):
        """groups inside each group"""
        def inner(n):
            o = set()
            if n[0] == 'grp': o.add(n[1])
            for x in n[1:]:
                if isinstance(x, tuple): o |= inner(x)
                elif isinstance(x, list):
                    for y in x: o |= inner(y)
            return o
        return {g: inner(n) for g, n in self.groups.items()}

# ---------------------------------------------------------------- evaluating the expressions in the source
def str_val(tok):
    from extract import str_value
    return str_value(tok)

HOLE = '\uE000'      # a value known only at run time

class Ev:
    def __init__(self, repo):
        self.consts, self.arrays, self.files = {}, {}, {}
        for f in sorted(os.listdir(os.path.join(repo, 'src'))):
            if not f.endswith('.rs') or f == 'html.rs': continue
            src = open(os.path.join(repo, 'src', f)).read()
            m = re.search(r'^#\[cfg\(test\)\]\s*\nmod \w+ \{', src, re.M)
            if m: src = src[:m.start()]
            self.files[f] = (src, lex(src))
        for _ in range(3):
            for f, (src, toks) in self.files.items(): self.scan_consts(toks)
    def scan_consts(self, toks):
        for i in range(len(toks) - 3):
            nm = None
            if toks[i].s in ('const',) and toks[i + 1].k == 'id': nm, j = toks[i + 1].s, i + 2
            elif toks[i].s == 'static' and toks[i + 1].s == 'ref': nm, j = toks[i + 2].s, i + 3
            if not nm: continue
            ty = ''
            while toks[j].s != '=' and toks[j].s != ';':
                ty += toks[j].s; j += 1
            if toks[j].s != '=': continue
            e = j + 1
            while toks[e].s != ';': e = match(toks, e) if toks[e].s in ('(', '[', '{') else e; e += 1
            if ty in (':&str', ':String', ":&'staticstr"):
                v = self.expr(toks, j + 1, e)
                if v is not None: self.consts[nm] = v
            elif ty.startswith(':[&str'):
                self.arrays[nm] = [str_val(t) for t in toks[j + 1:e] if t.k == 'str']
    def expr(self, toks, a, b, local=None):
        """string value of tokens a..b, with HOLE for unknown parts; None if not a string we understand"""
        local = local or {}
        while a < b and toks[a].s in ('&', '*', '&mut'): a += 1
        if b <= a: return None
        if b - a == 1:
            t = toks[a]
            if t.k == 'str': return str_val(t)
            if t.k == 'id': return local.get(t.s, self.consts.get(t.s, HOLE))
            return HOLE
        if toks[a].k == 'id' and toks[a + 1].s == '!' and match(toks, a + 2) == b - 1:
            from extract import split_args
            args = split_args(toks, a + 3, b - 1)
            if toks[a].s == 'concat': return ''.join(self.expr(toks, x, y, local) or '' for x, y in args)
            if toks[a].s == 'format': return self.fmt(toks, args, local)
            if toks[a].s == 'fregex': return self.expr(toks, *args[0], local)
        if toks[a].s == '(' and match(toks, a) == b - 1: return self.expr(toks, a + 1, b - 1, local)
        # X.join("|") of a known array
        if toks[a].k == 'id' and a + 2 < b and toks[a + 1].s == '.' and toks[a + 2].s == 'join' :
            arr = local.get(toks[a].s, self.arrays.get(toks[a].s))
            if isinstance(arr, list): return str_val(toks[a + 4]).join(arr)
        return HOLE
    def fmt(self, toks, args, local):
        tpl = self.expr(toks, *args[0], local)
        if tpl is None: return None
        pos, named = [], {}
        for (x, y) in args[1:]:
            if y - x > 2 and toks[x].k == 'id' and toks[x + 1].s == '=': named[toks[x].s] = self.expr(toks, x + 2, y, local)
            else: pos.append(self.expr(toks, x, y, local))
        out, i, nx = '', 0, 0
        while i < len(tpl):
            if tpl.startswith('{{', i) or tpl.startswith('}}', i): out += tpl[i]; i += 2; continue
            if tpl[i] == '{':
                e = tpl.index('}', i); sp = tpl[i + 1:e].split(':')[0]; i = e + 1
                if sp == '': v = pos[nx]; nx += 1
                elif sp.isdigit(): v = pos[int(sp)]
                else: v = named.get(sp, local.get(sp, self.consts.get(sp, HOLE)))
                out += HOLE if v is None else v
                continue
            out += tpl[i]; i += 1
        return out
    def regexes(self):
        """(file, line) of every fregex!( / Regex::new( -> pattern (HOLE where unknown)"""
        out = {}
        for f, (src, toks) in self.files.items():
            for i in range(len(toks) - 2):
                if toks[i].s == 'fregex' and toks[i + 1].s == '!':
                    e = match(toks, i + 2); v = self.expr(toks, i + 3, e)
                elif toks[i].s == 'Regex' and toks[i + 1].s == '::' and toks[i + 2].s == 'new':
                    e = match(toks, i + 3); v = self.expr(toks, i + 4, e)
                else: continue
                if v is None: continue
                name = None
                k = i - 1
                while k > i - 12 and k > 0 and toks[k].s != ';':
                    if toks[k].s == 'ref': name = toks[k + 1].s; break
                    k -= 1
                out[(f, toks[i].a)] = (name, src.count('\n', 0, toks[i].a) + 1, v)
        return out

if __name__ == '__main__':
    import sys
    ev = Ev(sys.argv[1] if len(sys.argv) > 1 else '/repo')
    for (f, off), (nm, ln, pat) in ev.regexes().items():
        try:
            r = Rx(pat.replace(HOLE, 'H'))
            print(f, ln, nm, 'n=%d always=%s' % (r.n, sorted(r.always)), 'names=%s' % r.names, repr(pat[:100]), ''.join(HOLE in pat and ' HOLE' or ''))
        except Bad as x: print(f, ln, nm, 'BAD', x, repr(pat))
