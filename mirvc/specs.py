"""What each property says about the values in the MIR of /repo: predicates, the meaning of the calls that matter, goals."""
import re, z3
import os, sys
import mir, engine, names
from engine import Spec, textfree, Bt
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vx'))
import regexlit

TRUE, FALSE = z3.BoolVal(True), z3.BoolVal(False)
# library functions that turn encoded text into other text: what they return is not made of pieces of what they get
DECODERS = re.compile(r'(from_u32|from_digit|decode|unescape|from_str_radix|from_utf16)\w*$|^(url|percent_encoding|html5ever|html_escape|reqwest|serde_json)::')
# (method, index of a pattern argument: it selects text, it does not end up in the result)
PATTERN = {'replace': 1, 'replacen': 1, 'split': 1, 'splitn': 1, 'rsplit': 1, 'rsplitn': 1, 'split_once': 1, 'rsplit_once': 1, 'split_terminator': 1, 'split_inclusive': 1,
           'trim_matches': 1, 'trim_start_matches': 1, 'trim_end_matches': 1, 'trim_left_matches': 1, 'trim_right_matches': 1, 'strip_prefix': 1, 'strip_suffix': 1,
           'find': 1, 'rfind': 1, 'matches': 1, 'match_indices': 1, 'get': 1, 'index': 1, 'name': 1, 'contains_key': 1, 'get_mut': 1, 'remove': 1}
CONCAT = re.compile(r"(<String as Add<&str>>::add|String::push_str|String::push|String::insert|String::insert_str|<String as AddAssign<&str>>::add_assign|<Cow<'_, str> as Add.*::add|<Cow<'_, str> as AddAssign.*::add_assign|join|concat)$")

def last(name): return name.split('::')[-1]

class Base(Spec):
    root_ok = frozenset()
    def method(self, s):
        return last(s.callee) if s.fn is None else None
    def skip(self, s):
        """index of the argument that only selects"""
        m = self.method(s)
        if m in PATTERN and len(s.args) > 1: return PATTERN[m]
        return None
    def preserve(self, p, s, extra, drop=()):
        """result and targets are made of pieces of the arguments"""
        e = s.body.e
        hid = [1 for i, (a, t) in enumerate(s.args) if i not in drop and not textfree(t) and e.vac(p, t)]
        if hid and not self.opaque_ok(p, s.rty): return (FALSE, FALSE)
        cj = z3.And(*[e.P(p, a, t) for i, (a, t) in enumerate(s.args) if i not in drop], *[x[p] for x in extra if x['i'] not in drop])
        return (cj, cj)
    def patterns(self, body, term):
        """the literal regular expressions a static regex can be, or None"""
        n = term.decl().name() if z3.is_app(term) and term.num_args() == 0 else ''
        if not n.startswith('lazy:'): return None
        out = []
        for f in body.e.prog.inits.get(n[5:], []):
            l = [x for st, _ in f.blocks.values() for x in st if 'Regex::new(' in x]
            lits = [mir.str_const(x) for st, _ in f.blocks.values() for s in st for x in re.findall(r'const ("(?:[^"\\\\]|\\\\.)*")', s)]
            if len(l) != 1 or 'fmt::format' in str(f.blocks) : return None
            m = re.search(r'Regex::new\(const ("(?:[^"\\\\]|\\\\.)*")', l[0])
            if m: out.append(mir.str_const(m.group(1)))
            elif len(set(x for x in lits if x != 'Invalid regular expression')) == 1: out.append(lits[0])
            else: return None
        return out or None
    def goal(self, e, root, name, p, allowed=frozenset([(0, None)])):
        d = e.contracts[root].out('ret', p)
        ok = d is not None and all((i, None) in allowed or (i, q) in allowed for i, q in d)
        det = '%s(result) <= %s' % (p, sorted(d) if d is not None else None)
        if not ok: det = '\n'.join(engine.explain(e, root, 'ret', p, want={(i, q) for i in range(2) for q in self.preds if (i, None) in allowed or (i, q) in allowed}))
        return (name, ok, det)
    def site_goals(self, e, root):
        """the obligations at call sites: lost ones fail, and the root's own are not to depend on anything"""
        out = {}
        for i in e.reachable([root]):
            for n, d in e.contracts[i].reqs.items():
                if d is None: out[n] = (n, False, 'in ' + e.label(i) + '\n' + engine.explain_req(e, i, n))
                elif i == root and d - self.root_ok: out[n] = (n, False, 'needs %s of the caller of parse' % sorted(d))
                else: out.setdefault(n, (n, True, ''))
        return list(out.values())
    def is_fn(self, s, name): return s.fn is not None and s.name == name

class C01(Base):
    tag = 'C01'
    """A(v): every angle bracket in v is part of a tag the parser wrote itself"""
    preds = ('A',)
    config = {'restricted': True}
    EX = re.compile(r'\b(UrlString|UrlBits|Url)\b')
    def lit(self, p, s):
        if s.startswith('c:') and len(s) == 3: return s[2] not in '<>'
        return re.fullmatch(r'([^<>]|</?[a-zA-Z][^<>]*>)*', s, re.S) is not None
    def litint(self, p, n): return n not in (60, 62)
    def vac(self, p, ty): return bool(self.EX.search(ty)) and '{closure@' not in ty
    def call(self, p, s, extra):
        if s.fn is not None and s.name == 'encode_html': return (TRUE, None)        # proved: Verus unit `encode`
        if s.fn is not None: return None
        if DECODERS.search(s.callee): return (FALSE, FALSE)
        if s.callee.endswith('Arguments::new'): return self.preserve(p, s, extra, (0,))
        if CONCAT.search(s.callee):
            # an angle bracket the program itself appends is not the author's
            drop = [i for i, (a, t) in enumerate(s.args) if isinstance(s.body.litof(a), str)]
            return self.preserve(p, s, extra, drop)
        k = self.skip(s)
        if k is not None: return self.preserve(p, s, extra, (k,))
        return None
    def after(self, s):
        if s.callee.endswith('str>::trim') and s.fn is None: s.body.fact(z3.Implies(s.ret == s.body.string(''), s.body.e.preds['A'](s.args[0][0])))
        for i, (a, t) in enumerate(s.args):
            pass
    def goals(self, e, root):
        return [self.goal(e, root, "Textile::parse ensures: every < and > of the result is of the parser's own making (for any text)", 'A')]

class C14(Base):
    """S(v): v is what the sanitizer returned for the whole document, but for line breaks"""
    tag = 'C14'; preds = ('S',); config = {'sanitizer_config': 1}
    def lit(self, p, s): return self.brtext(s[2:] if s.startswith('c:') else s)
    def litint(self, p, n): return False
    def vac(self, p, ty): return bool(re.search(r'\bBuilder\b', ty)) and '{closure@' not in ty
    def field(self, p, ty, variant, n): return mir.base_type(ty) != 'Textile'
    def call(self, p, s, extra):
        b = s.body; P = b.e.preds['S']
        if s.fn is not None: return None
        a = s.args
        if re.search(r'\bBuilder(::<.*?>)?::clean$', s.callee): return (TRUE, FALSE)
        if re.search(r'Document as ToString>::to_string$|Document::to_string$', s.callee): return (P(a[0][0]), FALSE)
        m = last(s.callee)
        if m in ('trim_end_matches', 'trim_start_matches', 'trim_matches', 'trim_end', 'trim_start', 'trim') and (len(a) == 1 or (isinstance(b.litof(a[1][0]), str) and b.litof(a[1][0]).replace('c:', '').strip() == '')):
            return (P(a[0][0]), FALSE)
        if m in ('replace', 'replacen') and len(a) >= 3 and all(isinstance(b.litof(x), str) for x, _ in a[1:3]) and self.breaks([b.litof(a[1][0])]) and self.brtext(b.litof(a[2][0])): return (P(a[0][0]), FALSE)
        if m in ('replace_all', 'replace', 'replacen') and len(a) >= 3 and 'Regex' in a[0][1]:
            pats = self.patterns(b, a[0][0])
            if pats and self.breaks(pats): return (z3.And(P(a[1][0]), P(a[2][0])), FALSE)
        return (FALSE, FALSE)
    def brtext(self, s): return re.fullmatch(r'(\s|<br\s*/?>)*', s) is not None
    def breaks(self, pats):
        return all(re.fullmatch(r'(<br( |\\s|\*|\?|\+|/|\(|\)|\(\?:)*>)?(\\n|\n|\s|\\s|[*+?])*', re.sub(r'\(\?<?[!=][^()]*\)', '', x)) for x in pats)
    def after(self, s):
        if s.callee.endswith('str>::trim') and s.fn is None: s.body.fact(z3.Implies(s.ret == s.body.string(''), s.body.e.preds['S'](s.args[0][0])))
    def oblige(self, s):
        m = re.search(r'\bBuilder(?:::<.*?>)?::(\w+)$', s.callee)
        if m and 'std::' not in s.callee:
            ok = m.group(1) in ('clean', 'new', 'default') or (m.group(1) == 'link_rel' and s.body.ctors.get(s.args[1][0].get_id(), ('', 0))[0].endswith('None'))
            return [('the sanitizer is used as configured (ammonia::Builder::%s)' % m.group(1), z3.BoolVal(ok))]
        return []
    def goals(self, e, root):
        return [self.goal(e, root, 'Textile::parse ensures: with a sanitizer set, the result is the sanitizer\'s output but for line breaks (or blank)', 'S', frozenset())] + self.site_goals(e, root)

class C15(Base):
    """K(v): every break and abbreviation tag the parser put into v is of the right kind;  F(v): every break in v stands before a newline or at the end"""
    preds = ('K', 'F')
    def lit(self, p, s):
        if p == 'F': return '<br' not in s.lower() or re.search(r'<br( /)?>(?!\n|$)', s) is None and re.search(r'<br( /)?>', s) is not None
        return not re.search(self.bad, s, re.I)
    def call(self, p, s, extra):
        if s.fn is not None: return None
        b = s.body; a = s.args; P = b.e.preds[p]; m = last(s.callee)
        if p == 'K':
            if s.callee.endswith('Arguments::new') or CONCAT.search(s.callee):
                t = b.litof(a[0][0])
                if isinstance(t, bytes):
                    txt = ''.join(x[1] if x[0] == 'lit' else '\0' for x in mir.template(t))
                    if re.search(self.bad, txt, re.I): return (FALSE, FALSE)
                    return self.preserve(p, s, extra, (0,))
            k = self.skip(s)
            if k is not None: return self.preserve(p, s, extra, (k,))
            return None
        # F
        if m in ('trim_end_matches',) and isinstance(b.litof(a[1][0]), str) and b.litof(a[1][0]) in ('c:\n', '\n'): return (P(a[0][0]), FALSE)
        if m == 'replace_all' and len(a) == 3 and 'Regex' in a[0][1]:
            pats = self.patterns(b, a[0][0])
            if pats and all(self.finds(x) for x in pats):
                e = b.e
                # the replacement has to end its break with a newline
                lits = [l for l in b.strs if l.endswith('\n')]
                return (z3.Or(*[a[2][0] == b.string(l) for l in lits if re.fullmatch(r'<br( /)?>\n', l)]), FALSE)
            return (FALSE, FALSE)
        return (FALSE, FALSE)
    def finds(self, pat):
        try: r = re.compile(pat)
        except re.error: return False
        return all(r.match(t + x) for t in ('<br>', '<br />') for x in (' ', 'a', '<')) 
    def field(self, p, ty, variant, n): return p != 'F' or mir.base_type(ty) != 'Textile'
    def after(self, s):
        if s.callee.endswith('str>::trim') and s.fn is None:
            for p in self.preds: s.body.fact(z3.Implies(s.ret == s.body.string(''), s.body.e.preds[p](s.args[0][0])))
    def goals(self, e, root):
        return [self.goal(e, root, 'Textile::parse ensures (%s): every break and abbreviation tag of the parser in the result is of the right kind' % self.kind, 'K', frozenset([(0, 'K'), (1, 'K')])),
                self.goal(e, root, 'Textile::parse ensures (%s): every break in the result is followed by a newline or the end' % self.kind, 'F', frozenset())]
class C15X(C15):
    tag = 'C15/xhtml'; kind = 'XHTML'; config = {'html_type': 0, 'sanitizer_config': 0}; bad = r'<br>|<br/>|</?abbr\b'
class C15H(C15):
    tag = 'C15/html5'; kind = 'HTML5'; config = {'html_type': 1, 'sanitizer_config': 0}; bad = r'<br\s*/>|</?acronym\b'

class C13(Base):
    """HR(attributes): there is a rel attribute with the value that was set;  NR(attributes): there is none;  NA(name): not the name of a link"""
    preds = ('HR', 'NR', 'NA'); noempty = ('HR',)
    def lit(self, p, s):
        if p == 'HR': return False
        if p == 'NR': return s != 'rel' and not re.search(r'\brel\s*=', s)
        return s != 'a'
    def litint(self, p, n): return p != 'HR'
    def field(self, p, ty, variant, n):
        if p == 'NR' and re.match(r'&*\((&\S* ?)?(str|std::string::String|String),', ty): return n == 0      # (key, value): only the key counts
        ft = self.prog.ftypes.get(mir.base_type(ty))
        if ft is None or n >= len(ft): return True
        if p == 'NA': return re.search(r'^(&.*str|String|Cow<.*str>)$', ft[n]) is not None
        return re.search(r'BlockHtmlAttributes|\[\(|Vec<\(', ft[n]) is not None
    def text(self, body, t):
        """the pieces of a value that is a literal or was formatted in place"""
        l = body.litof(t)
        if isinstance(l, str): return [('lit', l)]
        f = body.fmt.get(t.get_id())
        return f[0] if f else None
    def entries(self, body, t):
        """[(key, value term)] of an attribute list written in place"""
        el = body.agg.get(t.get_id())
        if el is None: return None
        out = []
        for x, _ in el:
            kv = body.agg.get(x.get_id())
            if kv is None or len(kv) != 2: return None
            out.append((body.litof(kv[0][0]), kv[1][0]))
        return out
    def call(self, p, s, extra):
        b = s.body
        if self.is_fn(s, 'BlockHtmlAttributes::insert') and len(s.args) == 3:
            k = b.litof(s.args[1][0]); P = b.e.preds[p]
            nk = b.e.preds['NR'](s.args[1][0])
            if p == 'HR':
                if k == 'rel':
                    v = self.relval(b)
                    return (None, (lambda old: s.args[2][0] == v) if v is not None else FALSE)
                return (None, nk)
            if p == 'NR': return (None, nk)
            return (None, TRUE)
        if self.is_fn(s, 'BlockHtmlAttributes::insert_css_class'): return (None, TRUE)     # changes the class entry only: Verus unit `blockattrs`
        if s.fn is None and p == 'NR':
            k = self.skip(s)
            if k is not None: return self.preserve(p, s, extra, (k,))
        if s.fn is None and p == 'HR':
            # other entries do not take the rel away
            if s.args and re.search(r'::(push|extend|insert|append|extend_from_slice)$', s.callee): return (FALSE, lambda old: b.e.preds[p](old))
        return None
    def relval(self, b):
        if 'cfg:rel' not in [str(x) for x in b.keep] and ('cfg', 'rel') not in b.flds: return None
        return b.rawfld('Some', 0)(z3.Const('cfg:rel', engine.V))
    def oblige(self, s):
        b, out = s.body, []
        lits = [b.litof(a) for a, _ in s.args]
        if self.is_fn(s, 'generate_tag') and len(s.args) == 3:
            tag, at = s.args[0][0], s.args[2][0]
            P = lambda p, t, ty='?': b.e.preds[p](t)
            en = self.entries(b, at)
            frag = False
            if en is not None:
                for k, v in en:
                    tx = self.text(b, v)
                    if k == 'href' and tx and tx[0][0] == 'lit' and tx[0][1].startswith('#'): frag = True
                    if not isinstance(k, str) or k == 'rel': frag = False
            if lits[0] == 'a':
                if self.on: out.append(('every link carries the rel that was set', z3.BoolVal(True) if frag else P('HR', at)))
                else: out.append(('without a rel setting links carry none', z3.BoolVal(True) if frag else P('NR', at)))
            else:
                out.append(('only links carry a rel', z3.And(P('NR', at), b.e.P('NA', tag, s.args[0][1]))))
        if s.callee.endswith('Arguments::new') and s.ret.get_id() in b.fmt:
            pcs, args = b.fmt[s.ret.get_id()]
            ctx = ''
            for x in pcs:
                if x[0] == 'lit':
                    ctx += x[1]
                    if re.search(r'<a\s(?!href="#)', x[1]) or re.search(r'<[^<>]*\brel\s*=', ctx): out.append(('links are made with their rel', FALSE))
                else:
                    if re.search(r'<a$', ctx) and self.on and x[1] < len(args): out.append(('every link carries the rel that was set', b.e.preds['HR'](args[x[1]][0])))
                    ctx += '\0'
        return out
    def goals(self, e, root):
        g = self.site_goals(e, root)
        # the rel setting is looked at somewhere, else nothing above means anything
        return g
class C13S(C13):
    tag = 'C13/some'; config = {'rel': 1}; on = True
class C13N(C13):
    tag = 'C13/none'; config = {'rel': 0}; on = False

class Tags(Base):
    """O(v): every element the parser itself put into v is one of `allowed`;  N(v): v is the name of one of them (or no name);
    G1(r), Gtag(r): in a match of the regex r (or in the captures r) the group holds such a name"""
    GROUPS = {'G1': 1, 'Gtag': 'tag'}
    preds = ('O', 'N', 'G1', 'Gtag')
    noempty = ('N', 'G1', 'Gtag'); none_ok = ('N',)
    allowed = frozenset()
    def ok(self, name): return name in self.allowed
    def name_ok(self, name): return name == '' or self.ok(name)
    def tags_ok(self, txt): return all(self.ok(m.group(1).lower()) for m in re.finditer(r'<([a-zA-Z][a-zA-Z0-9]*)', txt))
    def lit(self, p, s):
        if s.startswith('c:') and len(s) == 3: s = s[2:]
        if p == 'O': return self.tags_ok(s)
        if p == 'N': return self.name_ok(s)
        return False
    def litint(self, p, n): return p == 'O'
    def vac(self, p, ty):
        if p in self.GROUPS: return not re.search(r'Regex|Captures', ty) or '{closure@' in ty
        if p == 'N':
            m = re.search(r'\{closure@([^}]*)\}', ty)
            if m: return not any(o == 'closure@' + m.group(1) for o, _ in self.nf())
            if any(re.search(r'\b%s\b' % re.escape(o), ty) for o, _ in self.nf()): return False
            return re.search(r'str\b|String|Cow|Option<|Match|\?|(?<![\w:\'])[A-Z](?![\w:])', ty) is None
        return bool(re.search(r'^&*(Regex|fancy_regex::Regex)$', ty))
    def nf(self):
        if not hasattr(self, '_nf'): self._nf = names.name_fields(self.prog)
        return self._nf
    def field(self, p, ty, variant, n):
        if p != 'N': return True
        o = names.owner(ty)
        mine = [k for q, k in self.nf() if q == o]
        return n in mine if mine else True
    def speaks_of(self, p, ty): return p in self.GROUPS and re.search(r'\bRegex\b', ty) is not None
    def group_ok(self, pat, g):
        try: r = regexlit.Rx(pat)
        except Exception: return False
        n = g if isinstance(g, int) else r.names.get(g)
        if n is None or n > r.n: return True           # no such group: indexing it gives no text
        # a name that follows a literal `<` in the pattern is that of an element the text already has
        opens = [m.start() for m in re.finditer(r'(?<!\\\\)\((?!\?(?!P?<\w+>))', pat)]
        if n <= r.n == len(opens) and re.search(r'(?<![?P\\\\])<$', pat[:opens[n - 1]]): return True
        return self.words_ok(r, n)
    def words_ok(self, r, n):
        sub = r.groups.get(n)
        if sub is None: return False
        w = r.words(sub)
        return w is not None and all(self.name_ok(x) for x in w)
    def regexes(self, body):
        """what the lazy static this function initialises can be"""
        f = body.fn
        import fold
        for ty, l in body.e.prog.inits.items():
            if f in l:
                v = fold.Fold(body.e.prog).run(f, [])
                return v.pat if isinstance(v, fold.Re) and fold.HOLE not in v.pat else None
        return None
    def call(self, p, s, extra):
        b = s.body; a = s.args; m = last(s.callee); P = b.e.preds[p]
        if p in self.GROUPS:
            if re.search(r'\bRegex\b', s.rty) and 'Captures' not in s.rty:
                pat = self.regexes(b)
                return (z3.BoolVal(pat is not None and self.group_ok(pat, self.GROUPS[p])), FALSE)
            if s.fn is None and re.search(r'Captures|CaptureMatches', s.rty) and a and 'Regex' in a[0][1]: return (P(a[0][0]), FALSE)
            return None
        if p == 'N':
            if s.fn is not None: return None
            if m in ('get', 'index', 'name') and len(a) == 2 and 'Captures' in a[0][1]:
                k = b.litof(a[1][0])
                return (z3.Or(*[b.e.preds[g](a[0][0]) for g, v in self.GROUPS.items() if v == k]), FALSE)
            if m in ('as_str', 'unwrap', 'expect', 'unwrap_or_default', 'unwrap_or', 'map', 'map_or', 'as_option_str', 'into', 'from', 'as_ref', 'as_deref') and a:
                f = [str(x) for x, t in a[1:] if t == 'fn-item']
                if any(not re.search(r'(as_str|as_ref|to_owned|to_string|clone|::from|into)\W*$', x) for x in f): return (FALSE, FALSE)
                return (z3.And(P(a[0][0]), *[b.e.P(p, x, t) for x, t in a[1:] if t != 'fn-item'], *[x[p] for x in extra]), FALSE)
            return (FALSE, FALSE)
        # O
        if s.fn is not None: return None
        if s.callee.endswith('Arguments::new'):
            f = b.fmt.get(s.ret.get_id())
            if f is None: return None
            pcs, args = f
            ctx, need = '', []
            for x in pcs:
                if x[0] == 'lit': ctx += x[1]; continue
                if ctx.endswith('<'): need.append(b.e.preds['N'](args[x[1]][0]) if x[1] < len(args) else FALSE)
                ctx += '\0'
            if not self.tags_ok(ctx): return (FALSE, FALSE)
            cj, _ = self.preserve(p, s, extra, (0,))
            return (z3.And(cj, *need), FALSE)
        if CONCAT.search(s.callee) and len(a) == 2:
            l0, l1 = b.litof(a[0][0]), b.litof(a[1][0])
            if isinstance(l1, str) and l1.endswith('<'): return (FALSE, FALSE)
            if l0 == '<': return (b.e.preds['N'](a[1][0]), FALSE)
        k = self.skip(s)
        if k is not None: return self.preserve(p, s, extra, (k,))
        return None
    def after(self, s):
        if s.callee.endswith('str>::trim') and s.fn is None: s.body.fact(z3.Implies(s.ret == s.body.string(''), s.body.e.preds['O'](s.args[0][0])))
    def goals(self, e, root):
        return [self.goal(e, root, 'Textile::parse ensures (%s): the elements the parser puts into the result are among %s' % (self.kind, self.what()), 'O', frozenset([(0, 'O'), (1, 'O')]))]
    def what(self): return ' '.join(sorted(self.allowed))
SPAN = ['span', 'strong', 'b', 'em', 'i', 'cite', 'del', 'ins', 'sub', 'sup', 'br', 'abbr', 'acronym']
class C12L(Tags):
    tag = 'C12/lite'; kind = 'lite mode'; config = {'lite': True}
    allowed = frozenset(SPAN + ['p', 'blockquote', 'pre', 'code', 'a', 'img', 'ol', 'li'])
    def name_ok(self, name): return name == '' or self.ok(name) or name in ('bq', 'bc')      # Block::new compares the tag with these before it uses it as a name
class C12B(Tags):
    tag = 'C12/block_tags'; kind = 'no block tags'; config = {'block_tags': False}
    allowed = frozenset(SPAN)
class C12I(Tags):
    tag = 'C12/images'; kind = 'images off'; config = {'noimage': True}
    def ok(self, name): return name != 'img'
    def what(self): return 'all but img'
    def words_ok(self, r, n):
        return n in r.groups and not r.can(r.groups[n], 'img') and not r.can(r.groups[n], 'IMG')
class C12N(Base):
    """no network access while get_sizes is off"""
    tag = 'C12/network'; preds = (); config = {'get_sizes': False}
    def oblige(self, s):
        if s.fn is None and re.search(r'\b(reqwest|hyper|ureq|curl|TcpStream|UdpSocket|ToSocketAddrs|Command)\b', s.raw): return [('no network request (%s)' % s.callee, FALSE)]
        return []
    def goals(self, e, root):
        return self.site_goals(e, root) or [('no network request is reachable', True, '')]

class C03(Base):
    """U(v): the URL v (or the one v stands for) is relative or of an allowed scheme;  K(attributes): no href or src among them, K(name): a literal other than these;
    T(state): the URL tables hold only such URLs"""
    preds = ('U', 'K', 'T'); sure = ('U',); noempty = ('K',)
    URLATT = ('href', 'src')
    def scheme_of(self, s):
        m = re.match(r'([a-zA-Z][a-zA-Z0-9+.-]*):', s.strip())
        return m.group(1).lower() if m else None
    def lit(self, p, s):
        if p == 'K': return s.lower() not in self.URLATT
        if p == 'T': return True
        if s.startswith('c:') or s.startswith('b:'): return False
        return self.scheme_of(s) in (None,) + self.allowed
    def litint(self, p, n): return p == 'T'
    def vac(self, p, ty):
        if p == 'K': return '{closure@' in ty or 'BlockHtmlAttributes' in ty or not re.search(r'^&*(str|String|std::string::String)$|\((&?str|std::string::String|String), |\?', ty)
        if p == 'T': return not re.search(r'\{closure@|ParserState|Map<.*UrlString|Map<u32|\?|(?<![\w:\'])[A-Z](?![\w:])', ty)
        if '{closure@' in ty: return True
        return re.search(r'str\b|String|Cow|Url|Option<|Match|\?|(?<![\w:\'])[A-Z](?![\w:])', ty) is None
    def field(self, p, ty, variant, n):
        if p == 'K': return n == 0 or not re.match(r'&*\(', ty)
        ft = self.prog.ftypes.get(mir.base_type(ty))
        if p == 'T' and mir.base_type(ty) == 'ParserState' and ft: return n < len(ft) and re.search(r'UrlString|Map<u32', ft[n]) is not None
        if p == 'T': return True
        if mir.base_type(ty) in ('Textile', 'BlockAttributes', 'BlockHtmlAttributes', 'Block', 'NoteInfo'): return False
        return True
    def pure_args(self, name): return [1] if name == 'ParserState::unrestrict_url' else None
    def call(self, p, s, extra):
        b = s.body; a = s.args; P = b.e.preds['U']; m = last(s.callee)
        if p == 'K':
            if s.fn is not None: return (TRUE, None) if s.name == 'BlockHtmlAttributes::deref' else None
            K = b.e.preds['K']
            if m in ('new', 'default', 'with_capacity') and 'Vec' in s.callee: return (TRUE, TRUE)
            if m in ('push', 'insert', 'deref', 'as_slice', 'into_vec', 'box_assume_init_into_vec_unsafe', 'append', 'extend', 'clone', 'to_vec', 'index'): return self.preserve(p, s, extra, (1,) if m in ('index', 'insert') and len(a) > 1 and 'usize' in a[1][1] else ())
            return (FALSE, FALSE)
        if s.fn is not None:
            n = s.name
            if p == 'T': return None
            if n == 'UrlBits::parse': b.fact(P(s.ret) == P(a[0][0])); return (FALSE, FALSE)
            if n == 'UrlBits::to_string': return (P(a[0][0]), FALSE)
            if n == 'encode_html': return (P(a[0][0]), FALSE)
            if n == 'ParserState::shelve_url': return (P(a[1][0]), FALSE)
            if n == 'UrlBits::scheme': return (FALSE, FALSE)
            return None
        U, T = b.e.preds['U'], b.e.preds['T']
        tab = bool(a) and re.search(r'Map<.*UrlString|Map<u32', a[0][1])
        if p == 'T':
            if m in ('insert', 'entry', 'extend', 'get_mut', 'insert_full', 'iter_mut', 'values_mut', 'index_mut') and tab:
                if 'UrlString' in a[0][1]: return (FALSE, (lambda old: z3.And(T(old), U(a[2][0]))) if m == 'insert' and len(a) == 3 else FALSE)
                return (FALSE, lambda old: T(old) if m == 'insert' else FALSE)     # a key of its own for every URL: shelve_url
            return None
        if m in ('default', 'new') and not a: return (TRUE, FALSE)
        if tab and m in ('get', 'index'): return (T(a[0][0]), FALSE)
        if m in ('unwrap_or_default', 'unwrap', 'expect'): return (P(a[0][0]), FALSE)
        if m == 'unwrap_or' and len(a) == 2: return (z3.And(P(a[0][0]), P(a[1][0])), FALSE)
        if m in ('into', 'from') and a and (b.plain_text(a[0][1])): return (P(a[0][0]), FALSE)
        if m == 'to_string' and 'Url' in a[0][1]: return (P(a[0][0]), FALSE)
        if s.callee.endswith('Arguments::new') or s.callee == 'format' or s.callee.endswith('fmt::format'):
            f = b.fmt.get(s.ret.get_id())
            return (z3.BoolVal(bool(f and f[0] and f[0][0][0] == 'lit' and f[0][0][1].startswith('#'))), FALSE)
        return (FALSE, FALSE)
    def after(self, s):
        b = s.body; a = s.args; P = b.e.preds['U']
        if not hasattr(b, 'schemes'): b.schemes = []
        if self.is_fn(s, 'UrlBits::scheme'):
            b.schemes.append((s.ret, a[0][0]))
            for l in ('',) + self.allowed: b.fact(z3.Implies(s.ret == b.string(l), P(a[0][0])))
        if s.fn is None and last(s.callee) == 'contains' and len(a) == 2:
            for k, (n, el) in list(b.ctors.items()):
                if n.startswith('array') and el and all(isinstance(b.litof(x), str) for x, _ in el):
                    b.fact(z3.Implies(z3.And(Bt(s.ret), a[0][0] == z3.Function('f:mk:' + n, *([engine.V] * (len(el) + 1)))(*[x for x, _ in el])), z3.Or(*[a[1][0] == x for x, _ in el])))
    def oblige(self, s):
        b, a, out = s.body, s.args, []
        P = b.e.preds['U']
        if self.is_fn(s, 'BlockHtmlAttributes::insert') and len(a) == 3:
            k = b.litof(a[1][0])
            if not isinstance(k, str):
                if not b.fn.short.startswith('BlockHtmlAttributes::'): out.append(('attribute names are literals', FALSE))
            elif k.lower() in self.URLATT: out.append(('the URL of every %s is allowed' % k, P(a[2][0])))
        if s.fn is not None and s.name in ('generate_tag', 'join_html_attributes') and b.fn.short != 'generate_tag':
            at = a[-1][0]
            en = C13.entries(self, b, at)
            if en is None:
                out.append(('attribute lists other than BlockHtmlAttributes hold no href or src', b.e.P('K', at, a[-1][1])))
            else:
                for k, v in en:
                    if not isinstance(k, str): out.append(('attribute names are literals', FALSE))
                    elif k.lower() in self.URLATT: out.append(('the URL of every %s is allowed' % k, P(v)))
        if s.fn is None and (s.callee.endswith('Arguments::new') or CONCAT.search(s.callee)):
            txt = ''
            f = b.fmt.get(s.ret.get_id())
            if f: txt = ''.join(x[1] if x[0] == 'lit' else '\0' for x in f[0])
            else: txt = ''.join(l if isinstance(l, str) else '\0' for l in [b.litof(x) for x, _ in a])
            if re.search(r'\b(href|src)\s*=(?!\s*["\']#)', txt, re.I): out.append(('no href or src is written by hand', FALSE))
        if s.fn is None and last(s.callee) == 'insert' and 'Map<' in a[0][1]:
            if 'UrlString' in a[0][1]: out.append(('every URL alias is allowed', P(a[2][0])))
            elif 'Map<u32' in a[0][1] and b.fn.short == 'ParserState::shelve_url': out.append(('local:shelve_url keeps the URL it is given', P(a[2][0])))
        if self.is_fn(s, 'ParserState::retrieve_urls'): out.append(('URLs are put back from the tables of this document', b.e.preds['T'](a[0][0])))
        return out
    def goals(self, e, root):
        g = [x for x in self.site_goals(e, root) if not x[0].startswith('local:')]
        live = e.reachable([root])
        for i in live:
            f = e.prog.fns[i[0]]
            for n, d in e.contracts[i].reqs.items():
                if n.startswith('local:'): g.append(('the URL shelve_url keeps is the one it is given', d is not None and d <= {(1, 'U')}, str(d)))
            if f.short.startswith('ParserState::retrieve_urls::{closure') and f.ret.endswith('String'):
                d = e.contracts[i].out('ret', 'U')
                g.append(('retrieve_urls puts back only URLs of the tables', d is not None and d <= {(0, 'T')}, str(d)))
        need = ['the URL of every href is allowed', 'the URL of every src is allowed', 'every URL alias is allowed', 'the URL shelve_url keeps is the one it is given', 'retrieve_urls puts back only URLs of the tables']
        for n in need:
            if not any(x[0] == n for x in g): g.append((n, None, 'the code this is about was not found'))
        return g
class C03R(C03):
    tag = 'C03/restricted'; config = {'restricted': True}; allowed = ('http', 'https', 'ftp', 'mailto')
class C03U(C03):
    tag = 'C03/unrestricted'; config = {'restricted': False}; allowed = ('http', 'https', 'ftp', 'mailto', 'file', 'tel', 'callto', 'sftp', 'data')

class Attrs(Base):
    """G(v): v is text of the parser's own (literals, numbers, the settings), in a structure: its fields `own`;
    AT(v): v is a list of attributes as BlockHtmlAttributes::to_string writes it (or empty);  GA1, GA2(r): the group holds the attributes of an element already in the text"""
    GROUPS = {'GA1': 1, 'GA2': 2}
    ALLOWED = ('href', 'title', 'rel', 'src', 'alt', 'class', 'id', 'style', 'lang', 'colspan', 'rowspan', 'span', 'width', 'height', 'align', 'cite', 'summary', 'start')
    # T(structure): these fields have the predicate
    OWN = {'NoteInfo': {'id': 'G', 'refids': 'G', 'attrs': 'AT'}, 'ParserState': {'notes': 'T', 'unreferenced_notes': 'T', 'footnotes': 'G', 'textile': 'T'}, 'BlockAttributes': {'class': 'G', 'id': 'G', 'style': 'G'}}
    def struct(self, ty):
        """a type that holds one of these, or a closure"""
        if not hasattr(self, '_st'):
            names = set(self.OWN) | {'Textile'}
            while True:
                more = {n for n, ft in self.prog.ftypes.items() if n not in names and any(re.search(r'\b(%s)\b' % '|'.join(names), x) for x in ft)}
                if not more: break
                names |= more
            self._st = re.compile(r'\b(%s)\b|\{closure@' % '|'.join(sorted(names)))
        return self._st.search(ty)
    noempty = ('GA1', 'GA2'); root_ok = frozenset([(0, 'T')])
    def lit(self, p, s):
        if s.startswith('c:') or s.startswith('b:'): return p == 'G'
        if p == 'G': return True
        if p == 'AT': return re.fullmatch(r'( (%s)="[^"<>\0]*")*' % '|'.join(self.ALLOWED), s) is not None
        return False
    def litint(self, p, n): return p == 'G'
    def vac(self, p, ty):
        if p in self.GROUPS: return not re.search(r'Regex|Captures', ty) or '{closure@' in ty
        if p == 'T': return not self.struct(ty) and re.search(r"\?|(?<![\w:'])[A-Z](?![\w:])", ty) is None
        if p == 'K': return 'BlockHtmlAttributes' in ty or not re.search(r'\((std::string::String|String), (std::string::String|String)\)|\?', ty)
        return ('{closure@' not in ty and bool(self.struct(ty))) or re.match(r"(&('\w+ )?(mut )?)*\{closure@[^}]*\}$", ty) is not None or 'BlockHtmlAttributes' in ty
    def ctor_parts(self, p, b, ty, elems):
        if p == 'K' and len(elems) == 2 and re.match(r'\(', ty): return [self.entry_ok(b, b.litof(elems[0][0]), elems[1][0])]
        return None
    def speaks_of(self, p, ty): return p in self.GROUPS and re.search(r'\bRegex\b', ty) is not None
    def elem_pred(self, p, ty, n, fty):
        if p != 'T': return p
        bt = mir.base_type(ty)
        if bt == 'Textile': return 'G' if not self.struct(fty) else 'T'
        if bt in self.OWN:
            fs = self.prog.fields.get(bt, [])
            q = self.OWN[bt].get(fs[n], 'T') if n < len(fs) else 'T'
            return q if q in self.preds else 'T'
        if '{closure@' in ty and not self.struct(fty): return 'G'
        return 'T'
    def field_t(self, p, ty, variant, n, fty):
        bt = mir.base_type(ty)
        if p == 'T':
            if bt in self.OWN:
                fs = self.prog.fields.get(bt, [])
                if not all(x in fs for x in self.OWN[bt]): raise ValueError('fields of %s are not the known ones' % bt)
                return n < len(fs) and self.OWN[bt].get(fs[n]) in self.preds
            if bt == 'Textile': return True
            if '{closure@' in ty:
                m = re.search(r'\{closure@([^}]*)\}', ty)
                f = self.prog.closures.get(m.group(1))
                if self.struct(fty): return True
                return f is not None and any('&mut' in f.types[x] and re.search(r'\b(NoteInfo|BlockAttributes)\b', f.types[x]) for x in f.params[1:])
            return True
        if p == 'K' and re.match(r'&*\(', ty): return False
        if p == 'G' and re.match(r'&*\((&\S* ?)?str, ', ty): return n == 1      # (key, value)
        return True
    def pieces(self, s):
        """[(context before a hole, term)] of a template"""
        f = s.body.fmt.get(s.ret.get_id())
        if f is None or not s.callee.endswith('Arguments::new'): return None, []
        ctx, out = '', []
        for x in f[0]:
            if x[0] == 'lit': ctx += x[1]; continue
            out.append((ctx, f[1][x[1]][0] if x[1] < len(f[1]) else None)); ctx += '\0'
        return ctx, out
    ATTHOLE = re.compile(r'<(\0|[a-zA-Z][a-zA-Z0-9]*)$')
    QUOTED = re.compile(r'<(\0|[a-zA-Z][a-zA-Z0-9]*)\b[^<>]*?\b([\w-]+)="[^"<>]*$')
    def is_html(self, ctx): return '(?' not in ctx and re.search(r'<[/a-zA-Z\0]', ctx) is not None
    def group_ok(self, pat, n):
        """group n stands between `<name` and `>` in the pattern"""
        return re.search(r'^(\(\?\w+\))?<(\\w\+|[a-zA-Z]\w*|\([\w|\[\]-]+\)|' + '\\\\?[\x00\x01\ue000-\uf8ff]' + r'|\{0\})$', self.before(pat, n) or '!') is not None and self.after_group(pat, n).startswith('>')
    def opens(self, pat):
        return [m.start() for m in re.finditer(r'(?<!\\)\((?!\?(?!P?<\w+>))', pat)]
    def before(self, pat, n):
        o = self.opens(pat)
        return pat[:o[n - 1]] if n <= len(o) else None
    def after_group(self, pat, n):
        o = self.opens(pat)
        if n > len(o): return ''
        d, i = 0, o[n - 1]
        while i < len(pat):
            if pat[i] == '\\': i += 2; continue
            if pat[i] == '(': d += 1
            if pat[i] == ')':
                d -= 1
                if d == 0: return pat[i + 1:]
            i += 1
        return ''
    def regexes(self, b):
        """the pattern a function that makes a regex makes it from"""
        import fold
        for ty, l in b.e.prog.inits.items():
            if b.fn in l:
                v = fold.Fold(b.e.prog).run(b.fn, [])
                return v.pat if isinstance(v, fold.Re) else None
        for s in b.sites:
            if s.callee.endswith('Arguments::new') and s.ret.get_id() in b.fmt: return ''.join(x[1] if x[0] == 'lit' else '{0}' for x in b.fmt[s.ret.get_id()][0])
        return None
    def call(self, p, s, extra):
        b = s.body; a = s.args; m = last(s.callee); P = b.e.preds[p]
        if p in self.GROUPS:
            if s.fn is None and re.search(r'\bRegex\b', s.rty) and re.search(r'Regex::new$|unwrap$|expect$', s.callee):
                pat = self.regexes(b)
                return (z3.BoolVal(pat is not None and self.group_ok(pat, self.GROUPS[p])), FALSE)
            if s.fn is None and re.search(r'Captures|CaptureMatches', s.rty) and a and 'Regex' in a[0][1]: return (P(a[0][0]), FALSE)
            if s.fn is None and m == 'or_insert_with' and 'Regex' in s.rty: return (z3.And(*[x[p] for x in extra]), FALSE)     # one regex per line and key: C11
            return None
        if s.fn is not None:
            if p == 'K' and s.name == 'BlockHtmlAttributes::deref': return (TRUE, FALSE)
            if p == 'AT' and s.name == 'BlockHtmlAttributes::to_string': return (TRUE, FALSE)       # Verus unit blockattrs
            return None
        if p == 'K':
            if m in ('new', 'default', 'with_capacity') and 'Vec' in s.callee: return (TRUE, TRUE)
            if m in ('push', 'insert', 'deref', 'as_slice', 'into_vec', 'box_assume_init_into_vec_unsafe', 'append', 'clone', 'to_vec'): return self.preserve(p, s, extra, ())
            return (FALSE, FALSE)
        if p != 'T' and any(not textfree(t) and b.e.vac(p, t) and '{closure@' not in t for x, t in a): return (FALSE, FALSE)
        if p == 'AT':
            if m in ('get', 'index', 'name') and len(a) == 2 and 'Captures' in a[0][1]:
                k = b.litof(a[1][0])
                return (z3.Or(*[b.e.preds[g](a[0][0]) for g, v in self.GROUPS.items() if v == k]), FALSE)
            if b.fmt.get(s.ret.get_id()) is not None or CONCAT.search(s.callee): return self.preserve(p, s, extra, (0,) if s.callee.endswith('Arguments::new') else ())
        if DECODERS.search(s.callee): return (FALSE, FALSE)
        if s.callee.endswith('Arguments::new'): return self.preserve(p, s, extra, (0,))
        if m in ('insert', 'entry', 'get', 'get_mut', 'index', 'index_mut', 'contains_key', 'remove') and a and 'Map' in a[0][1]: return self.preserve(p, s, extra, (1,))
        if m in ('len', 'is_empty', 'count'): return (TRUE, None)
        k = self.skip(s)
        if k is not None: return self.preserve(p, s, extra, (k,))
        return None
    def opaque_ok(self, p, rty): return True         # closures only: see call

class C02(Attrs):
    tag = 'C02'; preds = ('AT', 'G', 'T', 'K', 'GA1', 'GA2'); config = {'restricted': True}
    def oblige(self, s):
        b, a, out = s.body, s.args, []
        ctx, holes = self.pieces(s)
        if ctx is not None and self.is_html(ctx):
            for c, t in holes:
                if self.ATTHOLE.search(c): out.append(('attributes put into a tag are written by BlockHtmlAttributes', b.e.preds['AT'](t) if t is not None else FALSE))
                elif self.QUOTED.search(c): out.append(('what a template puts between quotes is not text of the document', b.e.preds['G'](t) if t is not None else FALSE))
                elif re.search(r'<[^<>!]*$', c) and not c.endswith('<') and not re.search(r'</(\0)?$', c): out.append(('nothing else is put into a tag (%r)' % c, FALSE))
            for m in re.finditer(r'<[a-zA-Z\0][^<>\0]*?\s([\w-]+)\s*=', ctx):
                if m.group(1) not in self.ALLOWED: out.append(('attribute names are those of Textile (%s)' % m.group(1), FALSE))
            if re.search(r'<[a-zA-Z\0][^<>]*?\s[\w-]+\s*=\s*[^"\s]', ctx): out.append(('attributes are quoted', FALSE))
        if s.fn is None and CONCAT.search(s.callee) and len(a) == 2:
            for x, _ in a:
                l = b.litof(x)
                if isinstance(l, str) and not l.startswith('c:') and re.search(r'<[a-zA-Z][^<>]*$', l) and not (x is a[1][0] and s.muts): out.append(('nothing is put into a tag by hand', FALSE))
        out += self.keys(s)
        return out
    def finish(self, b):
        """a tag begun by appending `<name` to a string: what is appended next, on every path, is attributes, then the end of the tag"""
        out = []
        at = {}
        for s in b.sites: at.setdefault(s.block, []).append(s)
        for s in b.sites:
            if s.fn is not None or not CONCAT.search(s.callee) or len(s.args) != 2 or not s.muts: continue
            l = b.litof(s.args[1][0])
            if not isinstance(l, str) or l.startswith('c:') or not re.search(r'<[a-zA-Z][^<>]*$', l): continue
            n = 'attributes put into a tag are written by BlockHtmlAttributes'
            if not re.search(r'<[a-zA-Z]\w*$', l): out.append((n, s.cond, FALSE, s)); continue
            root = s.muts[0][1]; seen, todo = set(), list(b.succ_of.get(s.block, []))
            while todo:
                k = todo.pop()
                if k in seen or k not in b.succ_of: continue
                seen.add(k)
                mine = [t for t in at.get(k, []) if any(r == root for _, r, _ in t.muts)]
                if any('return' == x for x in b.fn.blocks[k][0][-1:]): out.append((n, s.cond, FALSE, s)); continue
                done = False
                for t in mine:
                    l = b.litof(t.args[1][0]) if t.fn is None and CONCAT.search(t.callee) and len(t.args) == 2 else None
                    if isinstance(l, str):
                        l = l[2:] if l.startswith('c:') else l
                        if re.match(r'\s*/?>', l): done = True
                        elif not re.fullmatch(r'\w*', l): out.append((n, t.cond, FALSE, t))
                    elif t.fn is None and CONCAT.search(t.callee) and len(t.args) == 2: out.append((n, t.cond, b.e.P('AT', t.args[1][0], t.args[1][1]), t))
                    elif t.fn is not None and t.name == 'join_html_attributes': pass
                    else: out.append((n, t.cond, FALSE, t))
                if not done: todo += b.succ_of[k]
        return out
    def keys(self, s):
        b, a, out = s.body, s.args, []
        own = b.fn.short.startswith('BlockHtmlAttributes::')
        k = None
        if self.is_fn(s, 'BlockHtmlAttributes::insert') and len(a) == 3: k = b.litof(a[1][0])
        elif self.is_fn(s, 'BlockHtmlAttributes::add_assign') and len(a) == 2:
            el = b.agg.get(a[1][0].get_id()); k = b.litof(el[0][0]) if el else 0
        elif s.fn is not None and s.name in ('generate_tag', 'join_html_attributes') and b.fn.short != 'generate_tag':
            en = C13.entries(self, b, a[-1][0])
            if en is None: return [('attribute names are those of Textile', b.e.preds['K'](a[-1][0]))]
            return [('attribute names are those of Textile', z3.BoolVal(k in self.ALLOWED)) for k, v in en]
        else: return []
        if not own: out.append(('attribute names are those of Textile', z3.BoolVal(k in self.ALLOWED)))
        return out
    def entry_ok(self, b, k, v): return z3.BoolVal(k in self.ALLOWED)
    def goals(self, e, root):
        g = self.site_goals(e, root)
        for n in ('attributes put into a tag are written by BlockHtmlAttributes', 'attribute names are those of Textile'):
            if not any(x[0] == n for x in g): g.append((n, None, 'the code this is about was not found'))
        return g

class C04(Attrs):
    """the class, id and style values of a restricted document are the parser's own; the language of a code block is exempt: reading `lang` counts as own"""
    tag = 'C04'; preds = ('G', 'T', 'K'); config = {'restricted': True}
    KEYS = ('class', 'id', 'style')
    def read_field(self, p, ty, variant, n, fty):
        if self.is_lang(p, ty, n): return True
        return self.field_t(p, ty, variant, n, fty)
    def elem_pred(self, p, ty, n, fty): return 'G' if self.is_lang(p, ty, n) else Attrs.elem_pred(self, p, ty, n, fty)
    def entry_ok(self, b, k, v): return FALSE if not isinstance(k, str) else b.e.preds['G'](v) if k in self.KEYS else TRUE
    def is_lang(self, p, ty, n):
        fs = self.prog.fields.get('BlockAttributes', [])
        return p == 'T' and mir.base_type(ty) == 'BlockAttributes' and n < len(fs) and fs[n] == 'lang'
    def oblige(self, s):
        b, a, out = s.body, s.args, []
        own = b.fn.short.startswith('BlockHtmlAttributes::')
        n = 'the %s of an element is not chosen by the document'
        G = b.e.preds['G']
        if self.is_fn(s, 'BlockHtmlAttributes::insert') and len(a) == 3 and not own:
            k = b.litof(a[1][0])
            if not isinstance(k, str): out.append(('attribute names are literals', FALSE))
            elif k in self.KEYS: out.append((n % k, G(a[2][0])))
        elif self.is_fn(s, 'BlockHtmlAttributes::insert_css_class'): out.append((n % 'class', G(a[1][0])))
        elif self.is_fn(s, 'BlockHtmlAttributes::add_assign') and len(a) == 2:
            el = b.agg.get(a[1][0].get_id())
            k = b.litof(el[0][0]) if el else None
            if not isinstance(k, str): out.append(('attribute names are literals', FALSE))
            elif k in self.KEYS: out.append((n % k, G(el[1][0])))
        elif s.fn is not None and s.name in ('generate_tag', 'join_html_attributes') and b.fn.short != 'generate_tag':
            en = C13.entries(self, b, a[-1][0])
            if en is None: out.append((n % 'class, id or style', b.e.preds['K'](a[-1][0])))
            else: out += [(n % k, self.entry_ok(b, k, v)) for k, v in en]
        ctx, holes = self.pieces(s)
        if ctx is not None and self.is_html(ctx):
            for c, t in holes:
                m = self.QUOTED.search(c)
                if m and m.group(2) in self.KEYS: out.append((n % m.group(2), G(t) if t is not None else FALSE))
        return out
    def goals(self, e, root):
        g = self.site_goals(e, root)
        for k in self.KEYS:
            if not any(x[0] == 'the %s of an element is not chosen by the document' % k for x in g): g.append((k, None, 'the code this is about was not found'))
        return g

SPECS = {'C01': [C01], 'C02': [C02], 'C04': [C04], 'C03': [C03R, C03U], 'C12': [C12L, C12B, C12I, C12N], 'C13': [C13S, C13N], 'C14': [C14], 'C15': [C15X, C15H]}
