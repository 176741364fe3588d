"""A small lexer for Rust: enough to find items, bodies, loops and macro calls without touching strings or comments."""
import re

class Tok:
    __slots__ = ('k', 's', 'a', 'b')
    def __init__(self, k, s, a, b): self.k, self.s, self.a, self.b = k, s, a, b
    def __repr__(self): return '%s:%r' % (self.k, self.s)

ID = re.compile(r'[A-Za-z_][A-Za-z0-9_]*')
NUM = re.compile(r'[0-9][0-9a-zA-Z_]*(\.[0-9][0-9_]*)?')
OPS = ['<<=', '>>=', '...', '..=', '->', '=>', '::', '==', '!=', '<=', '>=', '&&', '||', '+=', '-=', '*=', '/=', '%=', '^=', '&=', '|=', '..']

def lex(src):
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace(): i += 1; continue
        if src.startswith('//', i):
            j = src.find('\n', i); j = n if j < 0 else j
            i = j; continue
        if src.startswith('/*', i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith('/*', j): d += 1; j += 2
                elif src.startswith('*/', j): d -= 1; j += 2
                else: j += 1
            i = j; continue
        m = re.compile(r'b?r(#*)"').match(src, i)
        if m:
            end = src.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            out.append(Tok('str', src[i:end], i, end)); i = end; continue
        if c == '"' or src.startswith('b"', i):
            j = i + (2 if c == 'b' else 1)
            while src[j] != '"': j += 2 if src[j] == '\\' else 1
            out.append(Tok('str', src[i:j + 1], i, j + 1)); i = j + 1; continue
        if c == "'":
            m = re.compile(r"'(\\u\{[0-9a-fA-F]+\}|\\x[0-9a-fA-F]{2}|\\.|[^\\'])'").match(src, i)
            if m: out.append(Tok('chr', m.group(0), i, m.end())); i = m.end(); continue
            m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(src, i)
            out.append(Tok('life', m.group(0), i, m.end())); i = m.end(); continue
        m = ID.match(src, i)
        if m: out.append(Tok('id', m.group(0), i, m.end())); i = m.end(); continue
        m = NUM.match(src, i)
        if m:
            # 0..x is two tokens
            out.append(Tok('num', m.group(0), i, m.end())); i = m.end(); continue
        for o in OPS:
            if src.startswith(o, i): break
        else: o = c
        out.append(Tok('op', o, i, i + len(o))); i += len(o)
    return out

OPEN = {'(': ')', '[': ']', '{': '}'}
def match(toks, i):
    """index of the token that closes the bracket at i"""
    assert toks[i].s in OPEN, toks[i]
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'op':
            if toks[j].s in OPEN: d += 1
            elif toks[j].s in (')', ']', '}'):
                d -= 1
                if d == 0: return j
    raise ValueError('unbalanced')
