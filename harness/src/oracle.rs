//! What each property demands of the real parser, judged on its public output only.
use crate::gen::*;
use crate::html::*;
use rustextile::{HtmlKind, Textile};
use std::collections::{HashMap, HashSet};

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Cfg { pub restricted: bool, pub lite: bool, pub xhtml: bool, pub noimg: bool, pub rel: bool, pub sanitize: bool, pub noblock: bool, pub raw: bool, pub align: Option<bool> }
pub const REL: &str = "zrel";
impl Cfg {
    pub fn to_str(&self) -> String {
        let mut s = String::new();
        for (b, c) in [(self.restricted, 'r'), (self.lite, 'l'), (self.xhtml, 'x'), (self.noimg, 'n'), (self.rel, 'e'), (self.sanitize, 's'), (self.noblock, 'b'), (self.raw, 'w')] { if b { s.push(c); } }
        match self.align { Some(true) => s.push('A'), Some(false) => s.push('a'), None => {} }
        s
    }
    pub fn from_str(s: &str) -> Self {
        let h = |c| s.contains(c);
        Cfg { restricted: h('r'), lite: h('l'), xhtml: h('x'), noimg: h('n'), rel: h('e'), sanitize: h('s'), noblock: h('b'), raw: h('w'), align: if h('A') { Some(true) } else if h('a') { Some(false) } else { None } }
    }
    pub fn random(r: &mut Rng) -> Self {
        let mut b = || r.chance(1, 4);
        let (lite, xhtml, noimg, rel, sanitize, noblock, raw) = (b(), b(), b(), b(), b(), b(), b());
        Cfg { restricted: r.chance(1, 2), lite, xhtml, noimg, rel, sanitize: sanitize && r.chance(1, 2), noblock: noblock && r.chance(1, 2), raw, align: *r.pick(&[None, None, None, Some(true), Some(false)]) }
    }
    pub fn build_order(&self, order: &[usize], uid: &str) -> Textile {
        let mut t = Textile::default();
        for k in order {
            t = match k {
                0 => t.set_uid(uid),
                1 => t.set_restricted(self.restricted),
                2 => t.set_lite(self.lite),
                3 => t.set_html_kind(if self.xhtml { HtmlKind::XHTML } else { HtmlKind::HTML5 }),
                4 => t.set_images(!self.noimg),
                5 => if self.rel { t.set_rel(Some(REL)) } else { t.set_rel(None::<&str>) },
                6 => t.set_sanitize(self.sanitize),
                7 => t.set_block_tags(!self.noblock),
                8 => t.set_raw_blocks(self.raw),
                9 => t.set_getting_image_size(false),
                _ => match self.align { Some(v) => t.set_align_class(v), None => t },
            };
        }
        t
    }
    pub fn build(&self) -> Textile { self.build_order(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 10], "UID") }
}

#[derive(Clone, Debug)]
pub struct Case { pub doc: String, pub cfg: Cfg, pub aux: String }

pub struct Panicked(pub String);
thread_local! { pub static LAST_PANIC: std::cell::RefCell<String> = std::cell::RefCell::new(String::new()); }
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panicked> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| Panicked(LAST_PANIC.with(|p| p.borrow().clone())))
}
pub fn run(c: &Case) -> Result<String, Panicked> { guarded(|| c.cfg.build().parse(&c.doc)) }

/// None: not applicable to this case.  Some(Ok(nontrivial)): held.  Some(Err(..)): broken.
pub type Verdict = Option<Result<bool, (String, String)>>;
fn bad(key: &str, detail: String) -> Verdict { Some(Err((key.to_string(), detail))) }
fn ok(nontrivial: bool) -> Verdict { Some(Ok(nontrivial)) }

const TAGS: &[&str] = &["p", "h1", "h2", "h3", "h4", "h5", "h6", "blockquote", "pre", "code", "a", "img", "table", "thead", "tbody", "tfoot", "tr", "td", "th", "caption", "colgroup", "col", "ul", "ol", "li", "dl", "dt", "dd", "br", "span", "strong", "b", "em", "i", "cite", "del", "ins", "sub", "sup", "abbr", "acronym"];
const ATTRS: &[&str] = &["href", "title", "rel", "src", "alt", "class", "id", "style", "lang", "colspan", "rowspan", "span", "width", "height", "align", "cite", "summary", "start"];
const R_SCHEMES: &[&str] = &["http", "https", "ftp", "mailto"];
const U_SCHEMES: &[&str] = &["http", "https", "ftp", "mailto", "file", "tel", "callto", "sftp", "data"];

fn raw_html_possible(c: &Case) -> bool { !c.cfg.restricted && c.doc.contains('<') }
fn enc(s: &str, quotes: bool) -> String {
    let mut o = String::new();
    for ch in s.chars() { match ch { '&' => o.push_str("&amp;"), '<' => o.push_str("&lt;"), '>' => o.push_str("&gt;"), '"' if quotes => o.push_str("&quot;"), '\'' if quotes => o.push_str("&#39;"), x => o.push(x) } }
    o
}
pub fn eval(prop: &str, c: &Case) -> Verdict {
    match prop {
        "C01" => c01(c), "C02" => c02(c), "C03" => c03(c), "C04" => c04(c), "C05" => c05(c), "C06" => c06(c), "C07" => c07(c), "C08" => c08(c),
        "C09" => c09(c), "C10" => c10(c), "C11" => c11(c), "C12" => c12(c), "C13" => c13(c), "C14" => c14(c), "C15" => c15(c), "C16" => c16(c),
        _ => None,
    }
}

fn c01(c: &Case) -> Verdict {
    if !c.cfg.restricted { return None; }
    let out = run(c).ok()?;
    for t in tokenize(&out) {
        match t {
            Tok::Text(s) => if s.contains('<') || s.contains('>') { return bad("raw-angle", format!("raw angle bracket in text {:?} of {:?}", s, out)); },
            Tok::Tag { name, attrs, raw, .. } => {
                if !TAGS.contains(&name.as_str()) { return bad(&format!("tag-{}", name), format!("tag {:?} in {:?}", raw, out)); }
                for a in &attrs { let v = a.value.replace("<br>", "").replace("<br />", ""); if !c.cfg.sanitize && (v.contains('<') || v.contains('>')) { return bad("raw-angle-attr", format!("raw angle bracket in {:?} of {:?}", raw, out)); } }
            }
            Tok::Comment(s) => return bad("comment", format!("comment {:?} in {:?}", s, out)),
            Tok::Broken(s) => return bad("broken", format!("unterminated tag {:?} in {:?}", s, out)),
        }
    }
    ok(c.doc.contains('<') || c.doc.contains('&'))
}

fn c02(c: &Case) -> Verdict {
    if !c.cfg.restricted || c.cfg.sanitize { return None; }
    let out = run(c).ok()?;
    let mut n = false;
    for t in tokenize(&out) {
        if let Tok::Tag { attrs, raw, .. } = t {
            for a in &attrs {
                if !ATTRS.contains(&a.name.as_str()) { return bad("attr", format!("attribute {:?} in {:?} of {:?}", a.name, raw, out)); }
                if a.quote != '"' && a.quote != '\'' { return bad("quote", format!("attribute {:?} not properly quoted in {:?} of {:?}", a.name, raw, out)); }
                n = true;
            }
        }
    }
    ok(n && (c.doc.contains('"') || c.doc.contains('\'')))
}

fn c03(c: &Case) -> Verdict {
    if raw_html_possible(c) { return None; }
    let out = run(c).ok()?;
    let allowed = if c.cfg.restricted { R_SCHEMES } else { U_SCHEMES };
    let mut n = false;
    for t in tokenize(&out) {
        if let Tok::Tag { attrs, raw, .. } = t {
            for a in &attrs {
                if a.name == "href" || a.name == "src" {
                    n = true;
                    if let Some(s) = scheme(&unent(&a.value)) {
                        if !allowed.contains(&s.as_str()) { return bad(&format!("scheme-{}", a.name), format!("scheme {:?} in {:?} of {:?}", s, raw, out)); }
                    }
                }
            }
        }
    }
    ok(n)
}

fn re_id(v: &str) -> bool {
    for p in ["fnrevUID-", "noterefUID-", "fnUID-", "noteUID-"] { if let Some(r) = v.strip_prefix(p) { return !r.is_empty() && r.chars().all(|c| c.is_ascii_digit()); } }
    false
}
fn style_ok(v: &str) -> bool {
    v.split(';').map(|s| s.trim()).filter(|s| !s.is_empty()).all(|d| match d.split_once(':') {
        Some(("text-align", x)) => matches!(x, "left" | "right" | "center" | "justify"),
        Some(("vertical-align", x)) => matches!(x, "top" | "middle" | "bottom"),
        Some(("padding-left", x)) | Some(("padding-right", x)) => x.strip_suffix("em").map_or(false, |n| !n.is_empty() && n.chars().all(|c| c.is_ascii_digit())),
        _ => false,
    })
}
fn c04(c: &Case) -> Verdict {
    if !c.cfg.restricted { return None; }
    let out = run(c).ok()?;
    let mut n = false;
    for t in tokenize(&out) {
        if let Tok::Tag { name, attrs, raw, .. } = t {
            for a in &attrs {
                let good = match a.name.as_str() {
                    "class" => {
                        n = true;
                        let v = a.value.as_str();
                        match name.as_str() {
                            "code" => !v.is_empty() && v.chars().all(|c| c.is_ascii_alphanumeric() || c == '_' || c == '-'),
                            "span" => v == "caps",
                            "img" => matches!(v, "align-left" | "align-center" | "align-right"),
                            "p" | "sup" => v == "footnote",
                            _ => false,
                        }
                    }
                    "id" => { n = true; re_id(&a.value) }
                    "style" => { n = true; style_ok(&a.value) }
                    _ => true,
                };
                if !good { return bad(&format!("attr-{}", a.name), format!("{:?} of {:?}", raw, out)); }
            }
        }
    }
    ok(n || c.doc.contains('(') || c.doc.contains('{'))
}

fn c05(c: &Case) -> Verdict {
    // unrestricted documents: only the dedicated generator's, whose attribute values hold no markup
    if (!c.cfg.restricted && c.aux != "benign") || c.cfg.sanitize { return None; }
    let out = run(c).ok()?;
    let mut n = false;
    for t in tokenize(&out) {
        if let Tok::Tag { attrs, raw, closing, .. } = t {
            let mut seen = HashSet::new();
            for a in &attrs { if !seen.insert(a.name.clone()) { return bad("dup", format!("duplicate {:?} in {:?} of {:?}", a.name, raw, out)); } }
            if closing && !attrs.is_empty() { return bad("closing", format!("attributes on closing tag {:?} of {:?}", raw, out)); }
            n |= attrs.len() > 1;
        }
    }
    ok(n)
}

pub const C06_FORMS: &[(&str, &str, &str, u8)] = &[
    // opening markup, closing markup, name, flags: 1 = block level, 2 = up to the next block
    ("bc. ", "", "bc", 1), ("pre. ", "", "pre", 1), ("notextile. ", "", "notextile", 1), ("bc[rust]. ", "", "bc", 1), ("bc(cls). ", "", "bc", 1), ("pre(cls). ", "", "pre", 1),
    ("bc.. ", "\n\np. end", "bc", 3), ("pre.. ", "\n\np. end", "pre", 3), ("notextile.. ", "\n\np. end", "notextile", 3), ("bc[rust].. ", "\n\nh1. end", "bc", 3),
    ("@", "@", "at", 0), ("<code>", "</code>", "code", 0), ("<pre>", "</pre>", "pretag", 0), ("==", "==", "eq", 0), ("<notextile>", "</notextile>", "nt", 0), ("[@", "@]", "atb", 0), ("[==", "==]", "eqb", 0),
];
const C06_INLINE: &[&str] = &["a \u{1} b", "\u{1}", "\u{1} b", "|\u{1}|c|", "|a|b \u{1} c|\n|d|e|", "* a \u{1} b\n* c", "# \u{1}\n## \u{1} d", "h2. \u{1} x", "a \"t \u{1}\":/u b", "*a \u{1} b*", "_c \u{1} d_ b", "x \u{1}, \u{1} y", "bq. \u{1} b", "fn1. a \u{1}", "a \u{1}\n\nb \u{1}", "- a \u{1} := b \u{1}", "a[#n]\n\nnote#n. b \u{1} c\n\nnotelist.", "a \u{1} b -- c (tm) \"d\" !i.png!", "(\u{1})", "<b>\u{1}</b>", "a ABC(d) \u{1} \"l\":/u"];
const C06_BLOCK: &[&str] = &["\u{1}", "a\n\n\u{1}", "\u{1}\n\nb *c*", "|a|b|\n\n\u{1}\n\n* c", "\u{1}\n\n\u{1}", "h1. x\n\n\u{1}\n\n!i.png! \"l\":/u"];
const C06_MARK: &str = "q7q";
/// aux: form index, context index, content; the content replaces a marker word in the output of the same document with the marker
fn c06(c: &Case) -> Verdict {
    let mut it = c.aux.splitn(3, '\u{2}');
    let form = C06_FORMS[it.next()?.parse::<usize>().ok()?];
    let ctx: usize = it.next()?.parse().ok()?;
    let x = it.next()?;
    let out = run(c).ok()?;
    let base = run(&Case { doc: c06_doc(form, ctx, C06_MARK), ..c.clone() }).ok()?;
    let want = match form.2 {
        "bc" | "pre" | "pretag" => base.replace(C06_MARK, &enc(x, true)),
        "at" | "code" | "atb" => base.replace(C06_MARK, &enc(x, false)),
        _ => base.replace(C06_MARK, x),
    };
    let shape = match form.2 { "bc" | "at" | "code" | "atb" => format!("<code>{}</code>", C06_MARK), "pre" | "pretag" => format!("{}</pre>", C06_MARK), _ => C06_MARK.to_string() };
    if !base.replace(" class=\"rust\"", "").contains(&shape) { return bad(&format!("shape-{}", form.2), format!("{:?} is not in {:?}", shape, base)); }
    if out != want { return bad(&format!("text-{}", form.2), format!("want {:?} got {:?}", want, out)); }
    ok(x.chars().any(|c| "<>&\"'*_".contains(c)))
}
fn c06_doc(form: (&str, &str, &str, u8), ctx: usize, x: &str) -> String {
    let piece = format!("{}{}{}", form.0, x, form.1);
    let t = if form.3 & 1 == 1 { C06_BLOCK[ctx % C06_BLOCK.len()] } else { C06_INLINE[ctx % C06_INLINE.len()] };
    fill(t, || piece.clone())
}
fn c06_gen(r: &mut Rng) -> (String, String) {
    let f = r.below(C06_FORMS.len());
    let form = C06_FORMS[f];
    let ctx = r.below(64);
    let n = 1 + r.below(10);
    let mut x: String = (0..n).map(|_| *r.pick(&["a", "<", ">", "&", "\"", "'", "*", "_", "b", " ", "  ", "\n", "\n", "é", "<b>", "&amp;", "--", "...", "(c)", "!x!", "\"y\":z", "<br>", "</x>", "==", "@", "|", "%", "$1", "[1]", "h1. ", "p. ", "\t", "\\", "http://z", "&#60;", "textileRef:", "日", "1", "#", "* c", "|d|", "ABC(e)", "ABC", "[f]g", "-h-", "^", "~", "{x:y}", "(k)", "[#n]", "notextile. "])).collect();
    if matches!(form.2, "notextile" | "eq" | "nt" | "eqb") { x = x.replace("<br>", ""); }
    x = x.split('\n').filter(|l| !l.trim().is_empty()).collect::<Vec<_>>().join("\n");
    if x.is_empty() { x = "q".into(); }
    if form.3 & 2 == 2 && r.chance(1, 2) { x.push_str("\n\nz"); x.push_str(*r.pick(&["", " <x>", " *y*", "\n\n\nz", "\n\n  z", " & \"q\""])); }
    let inline = form.3 & 1 == 0;
    if inline { x = x.replace("==", "").replace('@', "").replace('\n', " "); }
    if matches!(form.2, "eq" | "nt" | "eqb") { x = x.replace('<', "&lt;").replace('>', ""); }
    if matches!(form.2, "atb" | "eqb") { x = x.replace(']', ""); }
    if x.trim().is_empty() { x = "q".into(); }
    (c06_doc(form, ctx, &x), format!("{}\u{2}{}\u{2}{}", f, ctx, x))
}

fn c07(c: &Case) -> Verdict {
    // aux: "<kind>" ; the doc is built from lines
    let br = if c.cfg.xhtml { "<br />" } else { "<br>" };
    let out = run(c).ok()?;
    let want = expected_lines(&c.aux, br)?;
    if out != want { return bad("linebreaks", format!("want {:?} got {:?}", want, out)); }
    ok(c.doc.chars().any(|c| !c.is_ascii()))
}
/// aux grammar: kind \u{2} item \u{3} item ... ; an item is lines joined by \u{4}
pub fn build_lines_doc(aux: &str) -> Option<String> {
    let (kind, rest) = aux.split_once('\u{2}')?;
    let items: Vec<Vec<&str>> = rest.split('\u{3}').map(|i| i.split('\u{4}').collect()).collect();
    let join = |v: &Vec<&str>| v.join("\n");
    Some(match kind {
        "p" => items.iter().map(join).collect::<Vec<_>>().join("\n\n"),
        "h" => items.iter().map(|i| format!("h2. {}", join(i))).collect::<Vec<_>>().join("\n\n"),
        "ul" => items.iter().map(|i| format!("* {}", join(i))).collect::<Vec<_>>().join("\n"),
        "ol" => items.iter().map(|i| format!("# {}", join(i))).collect::<Vec<_>>().join("\n"),
        "dl" => items.iter().map(|i| format!("; {}", join(i))).collect::<Vec<_>>().join("\n"),
        "td" => items.iter().map(|i| format!("|{}|", join(i))).collect::<Vec<_>>().join("\n"),
        _ => return None,
    })
}
pub fn expected_lines(aux: &str, br: &str) -> Option<String> {
    let (kind, rest) = aux.split_once('\u{2}')?;
    // a newline gets a break unless the next line starts with whitespace
    let body = |v: &str| -> String {
        let lines: Vec<&str> = v.split('\u{4}').collect();
        let mut o = String::new();
        for (k, l) in lines.iter().enumerate() {
            if k > 0 {
                if !l.starts_with(' ') { o.push_str(br); }
                o.push('\n');
            }
            let l = if k > 0 || true { *l } else { l };
            let l = l.strip_suffix("<br>").or_else(|| l.strip_suffix("<br />")).or_else(|| l.strip_suffix("<BR>")).unwrap_or(l);
            o.push_str(l);
        }
        o
    };
    let items: Vec<String> = rest.split('\u{3}').map(body).collect();
    Some(match kind {
        "p" => items.iter().map(|i| format!("<p>{}</p>", i)).collect::<Vec<_>>().join("\n\n"),
        "h" => items.iter().map(|i| format!("<h2>{}</h2>", i)).collect::<Vec<_>>().join("\n\n"),
        "ul" | "ol" => format!("<{k}>\n{}\n</{k}>", items.iter().map(|i| format!("\t<li>{}</li>", i)).collect::<Vec<_>>().join("\n"), k = kind),
        "dl" => format!("<dl>\n{}\n</dl>", items.iter().map(|i| format!("\t<dt>{}</dt>", i)).collect::<Vec<_>>().join("\n")),
        "td" => format!("\t<table>{}\n\t</table>", items.iter().map(|i| format!("\n\t\t<tr>\n\t\t\t<td>{}</td>\n\t\t</tr>", i)).collect::<Vec<_>>().concat()),
        _ => return None,
    })
}

fn c08(c: &Case) -> Verdict {
    match run(c) {
        Ok(_) => ok(c.doc.len() > 2),
        Err(Panicked(m)) => if m.contains("BacktrackLimitExceeded") || m.contains("StackOverflow") { None } else { bad(&format!("panic@{}", m.rsplit(" @ ").next().unwrap_or("?")), m) },
    }
}

fn c09(c: &Case) -> Verdict {
    // every lower-case word `w<digits>` of the document shows up in the output exactly once
    let out = run(c).ok()?;
    // `$` links repeat their URL and `[x]/url` lines define aliases: both are meant to
    let spaced = { let mut prev = ' '; let mut f = false; for ch in c.doc.chars() { if ch == '[' && prev.is_whitespace() { f = true; } prev = ch; } f };
    if c.doc.contains('$') || spaced && ["]/", "]h", "].", "]#", "]m", "]?"].iter().any(|x| c.doc.contains(x)) { return None; }
    if c.doc.matches('!').count() > 1 { return None; }                   // images
    if c.doc.contains('[') && c.doc.contains('#') { return None; }      // note references
    if c.doc.contains("\"(") || c.doc.contains("\"[") { return None; }      // attributes of the link
    // list and block syntax at the start of a line is none of this property's business
    if c.doc.lines().any(|l| matches!(l.trim().chars().next(), Some(ch) if !ch.is_alphanumeric() && ch != '"')) { return None; }
    let words: Vec<String> = wordlist(&c.doc);
    let mut counts: HashMap<String, usize> = HashMap::new();
    for w in wordlist(&out) { *counts.entry(w).or_default() += 1; }
    let mut seen = HashSet::new();
    for w in &words { if !seen.insert(w.clone()) { return None; } }
    for w in &words {
        match counts.get(w) { None => return bad("lost", format!("{:?} is lost in {:?}", w, out)), Some(1) => {}, Some(n) => return bad("repeated", format!("{:?} appears {} times in {:?}", w, n, out)) }
    }
    // text outside of links keeps its order
    let plain: Vec<String> = wordlist(&out);
    let mut a = plain.clone(); let mut b = words.clone(); a.sort(); b.sort();
    if a != b { return bad("words", format!("words {:?} became {:?}", words, plain)); }
    ok(c.doc.contains("\":"))
}
fn wordlist(s: &str) -> Vec<String> {
    let b: Vec<char> = s.chars().collect();
    let mut v = Vec::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] == 'w' && (i == 0 || !b[i - 1].is_alphanumeric()) && i + 1 < b.len() && b[i + 1].is_ascii_digit() {
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_digit() { j += 1; }
            v.push(b[i..j].iter().collect());
            i = j;
        } else { i += 1; }
    }
    v
}

fn c10(c: &Case) -> Verdict {
    let out = run(c).ok()?;
    let toks = tokenize(&out);
    let mut ids = HashSet::new();
    let mut refs = Vec::new();
    for t in &toks {
        if let Tok::Tag { attrs, raw, .. } = t {
            for a in attrs {
                if a.name == "id" && !ids.insert(a.value.clone()) { return bad("dup-id", format!("id {:?} twice ({:?}) in {:?}", a.value, raw, out)); }
                if a.name == "href" && a.value.starts_with('#') { refs.push(a.value[1..].to_string()); }
            }
        }
    }
    // aux lists what must resolve: "all" if every reference has its definition
    if c.aux.contains("all") {
        // known finding: from the second reference to a note on, the parser writes href="#note" (the repository's fixtures pin it)
        for r in refs.iter().filter(|r| r.as_str() != "note") { if !ids.contains(r) { return bad("dangling", format!("#{} has no target in {:?}", r, out)); } }
        if out.contains("Undefined Note") { return bad("undefined", format!("defined note reported as undefined in {:?}", out)); }
    }
    // note numbers: references are numbered 1.. in order of first use, the list follows that order
    if let Some(p) = c.aux.find("notes=") {
        let labels: Vec<&str> = c.aux[p + 6..].split(',').filter(|s| !s.is_empty()).collect();
        let mut pos = 0;
        for l in labels {
            let pat = format!("body{} ", l);
            match out[pos..].find(&pat) { Some(q) => pos += q, None => return bad("note-order", format!("note {:?} missing or out of order in {:?}", l, out)) }
        }
    }
    ok(refs.len() > 1)
}

fn c11(c: &Case) -> Verdict {
    // aux: "order:<comma list>" | "history:<doc \u{2} doc...>" | "uid:<other>" | "toggle"
    let base = guarded(|| c.cfg.build_order(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10], "UID").parse(&c.doc)).ok()?;
    let (kind, rest) = c.aux.split_once(':')?;
    let other = match kind {
        "order" => { let o: Vec<usize> = rest.split(',').filter_map(|x| x.parse().ok()).collect(); guarded(|| c.cfg.build_order(&o, "UID").parse(&c.doc)) }
        "history" => guarded(|| { let t = c.cfg.build(); for d in rest.split('\u{2}') { let _ = guarded(|| t.parse(d)); } t.parse(&c.doc) }),
        "uid" => guarded(|| {
            // a parser that already worked under another uid, then gets the base uid
            let t = c.cfg.build_order(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 10], rest);
            let _ = guarded(|| t.parse(&c.doc));
            t.set_uid("UID").parse(&c.doc)
        }),
        "toggle" => guarded(|| {
            // flip every switch before setting the wanted value
            let f = Cfg { restricted: !c.cfg.restricted, lite: !c.cfg.lite, xhtml: !c.cfg.xhtml, noimg: !c.cfg.noimg, rel: !c.cfg.rel, sanitize: !c.cfg.sanitize, noblock: !c.cfg.noblock, raw: !c.cfg.raw, align: None };
            let mut t = f.build();
            let k: usize = rest.parse().unwrap_or(0);
            if k % 2 == 1 { let _ = guarded(|| t.parse(&c.doc)); }
            t = t.set_restricted(c.cfg.restricted).set_lite(c.cfg.lite).set_html_kind(if c.cfg.xhtml { HtmlKind::XHTML } else { HtmlKind::HTML5 })
                .set_images(!c.cfg.noimg).set_sanitize(c.cfg.sanitize).set_block_tags(!c.cfg.noblock).set_raw_blocks(c.cfg.raw)
                .set_rel(if c.cfg.rel { Some(REL) } else { None });
            if let Some(v) = c.cfg.align { t = t.set_align_class(v); }
            t.parse(&c.doc)
        }),
        _ => return None,
    };
    match other {
        Ok(o) if o == base => ok(base.len() > c.doc.len()),
        Ok(o) => bad(kind, format!("{:?} versus {:?}", base, o)),
        Err(Panicked(m)) => bad(&format!("{}-panic", kind), m),
    }
}

const LITE_TAGS: &[&str] = &["p", "blockquote", "a", "img", "br", "span", "strong", "b", "em", "i", "cite", "del", "ins", "sub", "sup", "abbr", "acronym", "ol", "li", "pre", "code"];
fn c12(c: &Case) -> Verdict {
    if raw_html_possible(c) { return None; }
    let out = run(c).ok()?;
    let mut n = false;
    let notes = c.doc.contains("notelist");
    for t in tokenize(&out) {
        if let Tok::Tag { name, raw, .. } = t {
            n = true;
            if c.cfg.noimg && name == "img" { return bad("img", format!("image in {:?}", out)); }
            if c.cfg.lite {
                // `ol`/`li` only come from a note list, `pre`/`code` only from the `bc.` block that lite mode keeps
                let okk = LITE_TAGS.contains(&name.as_str()) && (notes || !matches!(name.as_str(), "ol" | "li")) && (c.doc.contains("bc") || !matches!(name.as_str(), "pre" | "code"));
                if !okk { return bad("lite", format!("{:?} in lite mode: {:?}", raw, out)); }
            }
            if c.cfg.noblock && matches!(name.as_str(), "p" | "h1" | "h2" | "h3" | "h4" | "h5" | "h6" | "blockquote" | "pre" | "table" | "ul" | "ol" | "dl" | "a" | "img" | "code") { return bad("noblock", format!("{:?} without block tags: {:?}", raw, out)); }
        }
    }
    ok(n && (c.cfg.noimg || c.cfg.lite || c.cfg.noblock))
}

fn c13(c: &Case) -> Verdict {
    if raw_html_possible(c) || c.cfg.sanitize { return None; }
    let out = run(c).ok()?;
    let mut n = false;
    for t in tokenize(&out) {
        if let Tok::Tag { name, attrs, raw, closing, .. } = t {
            let rels: Vec<_> = attrs.iter().filter(|a| a.name == "rel").collect();
            let internal = attrs.iter().any(|a| a.name == "href" && ["#fn", "#note"].iter().any(|p| a.value.starts_with(p)) && (a.value.contains("UID-") || a.value == "#note"));
            if name == "a" && !closing && !internal {
                n = true;
                if c.cfg.rel && (rels.len() != 1 || rels[0].value != REL) { return bad("missing", format!("{:?} lacks rel in {:?}", raw, out)); }
            }
            if (!c.cfg.rel || (name != "a" && c.cfg.restricted)) && !rels.is_empty() { return bad("stray", format!("{:?} has a rel in {:?}", raw, out)); }
        }
    }
    ok(n)
}

fn norm_br(s: &str, xhtml: bool) -> String {
    let br = if xhtml { "<br />\n" } else { "<br>\n" };
    let mut o = String::new();
    let mut rest = s;
    loop {
        let a = rest.find("<br>"); let b = rest.find("<br />");
        let (p, l) = match (a, b) { (Some(a), Some(b)) if a < b => (a, 4), (Some(_), Some(b)) => (b, 6), (Some(a), None) => (a, 4), (None, Some(b)) => (b, 6), _ => break };
        o.push_str(&rest[..p]);
        let after = &rest[p + l..];
        if after.starts_with('\n') { o.push_str(&rest[p..p + l]); } else { o.push_str(br); }
        rest = after;
    }
    o.push_str(rest);
    o.trim_end_matches('\n').to_string()
}
fn flat(s: &str, c: &Case) -> String { norm_br(s, c.cfg.xhtml).replace("<br />", "<br>").replace(['\r', '\n'], "") }
fn c14(c: &Case) -> Verdict {
    if !c.cfg.sanitize || c.doc.trim().is_empty() { return None; }
    let out = run(c).ok()?;
    let raw = run(&Case { cfg: Cfg { sanitize: false, ..c.cfg.clone() }, ..c.clone() }).ok()?;
    for t in tokenize(&out) {
        if let Tok::Tag { name, attrs, raw, .. } = t {
            if matches!(name.as_str(), "script" | "style" | "iframe" | "object" | "embed" | "form" | "input" | "svg" | "math" | "base" | "meta" | "link") { return bad("unsafe-tag", format!("{:?} in {:?}", raw, out)); }
            for a in &attrs { if a.name.starts_with("on") || a.name == "style" || a.name == "class" || a.name == "id" { return bad("unsafe-attr", format!("{:?} in {:?}", raw, out)); } }
        }
    }
    let want = norm_br(&rustextile::ammonia::Builder::default().link_rel(None).clean(&raw).to_string(), c.cfg.xhtml);
    if flat(&want, c) != flat(&out, c) { return bad("differs", format!("sanitizing {:?} gives {:?}, parser gave {:?}", raw, want, out)); }
    ok(raw != out)
}

fn c15(c: &Case) -> Verdict {
    if raw_html_possible(c) { return None; }
    let out = run(c).ok()?;
    let mut n = false;
    for t in tokenize(&out) {
        if let Tok::Tag { name, raw, closing, .. } = t {
            if name == "br" {
                n = true;
                if closing || raw != if c.cfg.xhtml && !c.cfg.sanitize { "<br />" } else if c.cfg.xhtml { raw.as_str() } else { "<br>" } { return bad("br", format!("{:?} in {:?}", raw, out)); }
            }
            if (name == "abbr" && c.cfg.xhtml) || (name == "acronym" && !c.cfg.xhtml) { return bad("abbr", format!("{:?} in {:?}", raw, out)); }
        }
    }
    let br = if c.cfg.xhtml { "<br />" } else { "<br>" };
    if !c.cfg.sanitize {
        for (p, _) in out.match_indices(br) { let r = &out[p + br.len()..]; if !r.is_empty() && !r.starts_with('\n') { return bad("br-newline", format!("break without newline in {:?}", out)); } }
    }
    ok(n)
}

fn c16(c: &Case) -> Verdict {
    let out = run(c).ok()?;
    if let Some(p) = out.find("textileRef:UID:") {
        return bad("residue", format!("internal token {:?} left in {:?}", out[p..].chars().take(40).collect::<String>(), out));
    }
    if !c.doc.contains("linkStartMarker") && out.contains("linkStartMarker:") { return bad("marker", format!("link marker left in {:?}", out)); }
    if c.aux == "nest" {
        // every word set aside comes back, in its place
        let (a, b) = (wordlist(&c.doc), wordlist(&out));
        let mut once = HashSet::new();
        if !a.iter().all(|w| once.insert(w.clone())) { return None; }
        for w in &a { if !b.contains(w) { return bad("lost", format!("{:?} is lost in {:?}", w, out)); } }
        let mut seen = HashSet::new();
        let b: Vec<String> = b.into_iter().filter(|w| seen.insert(w.clone())).collect();
        if a != b { return bad("moved", format!("{:?} became {:?} in {:?}", a, b, out)); }
    }
    ok(out.contains('<'))
}

const NEST: &[&str] = &["<!-- \u{1} -->", "<pre>\u{1}</pre>", "@\u{1}@", "==\u{1}==", "<notextile>\u{1}</notextile>", "<code>\u{1}</code>", "*\u{1}*", "_\u{1}_", "\"\u{1}\":/u", "[@\u{1}@]", "<b>\u{1}</b>", "<div>\u{1}</div>", "%\u{1}%", "[*\u{1}*]", "== \u{1} ==", "<pre> \u{1} </pre>", "@ \u{1} @", "<code> \u{1} </code>", "<notextile> \u{1} </notextile>"];
fn nest(r: &mut Rng, depth: usize, k: &mut usize) -> String {
    let mut w = || { *k += 1; format!("w{}", *k) };
    let a = w();
    if depth == 0 { return a; }
    let t = *r.pick(NEST);
    let inner = nest(r, depth - 1, k);
    let mut s = format!("{} {}", a, fill(t, || inner.clone()));
    if r.chance(1, 2) { *k += 1; s.push_str(&format!(" w{}", *k)); }
    if r.chance(1, 4) { s.push(' '); let d = r.below(depth); s.push_str(&nest(r, d, k)); }
    s
}

pub fn generate(prop: &str, i: u64, r: &mut Rng) -> Case {
    let mut cfg = Cfg::random(r);
    let mut aux = String::new();
    let doc = match prop {
        "C01" | "C04" => { cfg.restricted = true; if prop == "C04" || r.chance(3, 4) { cfg.sanitize = false; } general(i, r) }
        "C02" => { cfg.sanitize = false; cfg.restricted = true; general(i, r) }
        "C05" => { cfg.sanitize = false; if r.chance(1, 2) { cfg.restricted = true; general(i, r) } else { aux = "benign".into(); benign_atts(r) } }
        "C03" => { cfg.sanitize = false; general(i, r) }
        "C13" => { cfg.sanitize = false; cfg.rel = r.chance(3, 4); general(i, r) }
        "C12" => { match r.below(3) { 0 => cfg.noimg = true, 1 => cfg.lite = true, _ => cfg.noblock = true } cfg.sanitize = false; general(i, r) }
        "C14" => { cfg.sanitize = true; general(i, r) }
        "C06" => {
            cfg = Cfg { xhtml: cfg.xhtml, rel: cfg.rel, ..Default::default() };
            let (d, a) = c06_gen(r);
            aux = a;
            d
        }
        "C07" => {
            cfg = Cfg { xhtml: cfg.xhtml, restricted: cfg.restricted, ..Default::default() };
            let kind = *r.pick(&["p", "h", "ul", "ol", "dl", "td"]);
            let ni = 1 + r.below(3);
            let mut items = Vec::new();
            for _ in 0..ni {
                let nl = 1 + r.below(4);
                let mut lines: Vec<String> = Vec::new();
                for k in 0..nl {
                    let mut l = words_line(r, 1);
                    if k > 0 && r.chance(1, 6) { l.insert(0, ' '); }
                    lines.push(l);
                }
                if !cfg.restricted {
                    for k in 0..nl.saturating_sub(1) { if !lines[k + 1].starts_with(' ') && r.chance(1, 6) { let b = *r.pick(&["<br>", "<br />", "<BR>"]); lines[k].push_str(b); } }
                }
                items.push(lines.join("\u{4}"));
            }
            aux = format!("{}\u{2}{}", kind, items.join("\u{3}"));
            build_lines_doc(&aux).unwrap()
        }
        "C09" => {
            cfg = Cfg { xhtml: cfg.xhtml, restricted: cfg.restricted, rel: cfg.rel, ..Default::default() };
            let n = 1 + r.below(14);
            let mut s = String::new();
            for k in 0..n {
                let w = format!("w{}", k + 1);
                match r.below(16) {
                    0..=3 => { s.push_str(&w); }
                    4 => s.push('"'), 5 => s.push_str("\":"), 6 => { s.push_str("\":"); s.push_str(&w); }
                    7 => { s.push_str("\":/"); s.push_str(&w); s.push(' '); }
                    8 => { s.push_str("\":http://a.com/"); s.push_str(&w); s.push(' '); }
                    9 => s.push(' '), 10 => { s.push_str(" \""); s.push_str(&w); }
                    11 => { s.push_str("\" "); s.push_str(&w); }
                    12 | 13 => s.push_str(*r.pick(&[")", "]", "(", "[", ".", ",", ";", "!", "?", ")]", "])", ").", "];", "?)", "\")", "\"]", "(\"", "[\"", "/", "=", "#", "&", "é", ":"])),
                    _ => { s.push_str(*r.pick(&["\"w90 (", "[\"", "\"(", "\""])); if s.contains("w90") { s = s.replace("w90", &format!("w{}x", k)); } s.push_str(&w); s.push_str(*r.pick(&["\":/", "\":http://b.org/", ")\":/", "\":", "\":mailto:"])); s.push_str(&format!("w{}", k + 100)); for j in 0..r.below(7) { match r.below(3) { 0 => s.push_str(&format!("w{}", (k + 1) * 1000 + j)), _ => s.push_str(*r.pick(&["]", "[", ")", "(", ".", ",", ";", "=", "?", "&", "]", "[", ")", "!", ":", "é"])) } } }
                }
                if r.chance(1, 3) { s.push(' '); }
                if r.chance(1, 12) { s.push_str(*r.pick(&["\n", "\nz ", "\n\nz ", "\n\""])); }
            }
            if r.chance(3, 4) { format!("z {}", s) } else { s }
        }
        "C10" => {
            cfg = Cfg { xhtml: cfg.xhtml, restricted: cfg.restricted, rel: cfg.rel, ..Default::default() };
            let mut s = String::new();
            let mut labels: Vec<String> = Vec::new();
            let mut seen: Vec<usize> = Vec::new();
            let nfn = r.below(4); let nnote = r.below(13);
            let mut fdefs = Vec::new(); let mut ndefs = Vec::new();
            let early = r.chance(1, 3);
            if early { for k in 0..nnote { s.push_str(&format!("note#l{}. body{} \n\n", k, k)); } }
            for p in 0..(1 + r.below(3)) {
                s.push_str(&format!("para{}", p));
                for _ in 0..r.below(5 + nnote) {
                    if nfn > 0 && r.chance(1, 2) { let k = 1 + r.below(nfn); s.push_str(&format!(" a[{}]", k)); if !fdefs.contains(&k) { fdefs.push(k); } }
                    else if nnote > 0 { let k = r.below(nnote); s.push_str(&format!(" b[#l{}]", k)); if !seen.contains(&k) { seen.push(k); labels.push(format!("{}", k)); ndefs.push(k); } }
                }
                s.push_str("\n\n");
            }
            for k in &fdefs { s.push_str(&format!("fn{}{}. foot{}\n\n", k, if r.chance(1, 2) { "^" } else { "" }, k)); }
            if !early { for k in &ndefs { s.push_str(&format!("note#l{}. body{} \n\n", k, k)); } }
            s.push_str("notelist.");
            // back references need an anchor: only when the first reference of that footnote was a link, which it is here
            aux = format!("all notes={}", labels.join(","));
            s
        }
        "C11" => {
            aux = match r.below(4) {
                0 => { let mut o: Vec<usize> = (0..11).collect(); for k in (1..11).rev() { let j = r.below(k + 1); o.swap(k, j); } format!("order:{}", o.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")) }
                1 => { let a = general(u64::MAX, r); let b = general(u64::MAX, r); format!("history:{}\u{2}{}", a, b) }
                2 => format!("uid:{}", r.pick(&["other", "x", "0", "a-b", "UIDX", "ZUID"])),
                _ => format!("toggle:{}", r.below(2)),
            };
            general(if r.chance(1, 2) { i } else { u64::MAX }, r)
        }
        "C16" if r.chance(1, 3) => { cfg = Cfg { xhtml: cfg.xhtml, rel: cfg.rel, ..Default::default() }; aux = "nest".into(); let mut k = 0; let d = 2 + r.below(6); nest(r, d, &mut k) }
        _ => general(i, r),
    };
    Case { doc, cfg, aux }
}

fn batts(r: &mut Rng) -> String {
    let mut s = String::new();
    for _ in 0..1 + r.below(3) {
        s.push_str(*r.pick(&["(cls)", "(#id)", "(cls#id)", "(c1 c2)", "{color:red}", "{a:b;c:d;}", "[en]", "[fr]", "", "(class)", "(align-left)"]));
    }
    s
}
fn benign_atts(r: &mut Rng) -> String {
    let n = 1 + r.below(3);
    let mut v = Vec::new();
    for _ in 0..n {
        let (a, b) = (batts(r), batts(r));
        let al = *r.pick(&["", "<", ">", "=", "<>", "(", ")", "((", "^", "-", "~"]);
        v.push(match r.below(16) {
            0 => format!("p{}{}. x", al, a), 1 => format!("h1{}{}. x", a, al), 2 => format!("bq{}. x", a), 3 => format!("bc{}. x", a), 4 => format!("fn1{}. x", a), 5 => format!("fn1^{}. x", a),
            6 => format!("!{}{}a.png(t)!", r.pick(&["<", ">", "=", ""]), a), 7 => format!("!{}{}a.png!:/u", r.pick(&["<", ">", "=", ""]), a), 8 => format!("\"{}x(t)\":/u", a), 9 => format!("*{}x* _{}y_ ??{}:/u z??", a, b, b),
            10 => format!("*{} a\n*{} b", a, b), 11 => format!("#5{} a\n#{} b", a, b), 12 => format!("-{} a := b", a), 13 => format!("table{}. sum\n{}. |_\\2/3{}{}. x|y|", a, b, al, a),
            14 => format!("x[{}#n] y[#n]\n\nnote#n{}. z\n\nnotelist{}.", a, b, a), _ => format!("|:\\3{}. 10|20|\n|^{}.\n|a|\n|={}. c|", a, b, a),
        });
    }
    v.join("\n\n")
}

/// Re-derives the auxiliary data when a document is shrunk; None if this property's cases are not shrinkable by text.
pub fn shrinkable(prop: &str) -> bool { !matches!(prop, "C06" | "C07" | "C10") }
