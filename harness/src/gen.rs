//! Deterministic document generators.
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self { let mut r = Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03); for _ in 0..4 { r.next(); } r }
    pub fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}

/// Syntax templates; `\u{1}` marks a hole.
pub const TEMPLATES: &[&str] = &[
    "\u{1}", "!\u{1}!", "!a.png(\u{1})!", "!a.png!:\u{1}", "!>\u{1}!", "!(\u{1})a.png!", "![\u{1}]a.png!", "!{\u{1}}a.png!", "!\u{1}(t)!:\u{1}",
    "!http://a.com/\u{1}.png!",
    "\"\u{1}\":http://a.com", "\"x\":\u{1}", "\"x\":http://a.com/\u{1}", "\"x(\u{1})\":/u", "\"x (\u{1})\":/u", "\"(\u{1})x\":/u", "\"[\u{1}]x\":/u", "\"{\u{1}}x\":/u", "\"$\":\u{1}", "\"$\":http://a.com/\u{1}",
    "[\"\u{1}\":/u]", "[\"x\":\u{1}]", "\"!\u{1}!\":/u", "\"x\":/u?\u{1}", "\"x\":/u#\u{1}", "\"x\":(\u{1})", "\"x\":mailto:\u{1}", "\"\u{1}\":\u{1}",
    "[\u{1}]http://a.com", "[al]\u{1}\n\n\"x\":al", "[al]http://a.com/\u{1}\n\n\"x\":al \"$\":al", "[\u{1}]/u\n\n\"x\":\u{1}", "[\"$\":\u{1}]", "[al]\u{1} \"$\":al",
    "p(\u{1}). t", "p[\u{1}]. t", "p{\u{1}}. t", "p\u{1}. t", "h1\u{1}. t", "p(a#\u{1}). t", "p<\u{1}. t", "p>. \u{1}", "p<>. \u{1}", "p=. \u{1}", "p((. \u{1}", "p)). \u{1}",
    "h1. \u{1}", "h2(\u{1})[\u{1}]. \u{1}", "bq. \u{1}", "bq.:\u{1} q", "bq.. \u{1}\n\n\u{1}\n\np. z", "bq(\u{1}). q", "bq[\u{1}]. q", "bq.:http://a.com/\u{1} q",
    "bc. \u{1}", "bc[\u{1}]. x", "bc(\u{1}). x", "bc.. \u{1}\n\n\u{1}\n\np. z", "pre. \u{1}", "pre(\u{1}). x", "pre[\u{1}]. x", "pre.. \u{1}\n\ny", "notextile. \u{1}", "notextile.. \u{1}\n\ny", "### \u{1}", "###. \u{1}", "###.. \u{1}\n\ny",
    "@\u{1}@", "[@\u{1}@]", "==\u{1}==", "<pre>\u{1}</pre>", "<code>\u{1}</code>", "<notextile>\u{1}</notextile>", "<!--\u{1}-->", "<div>\u{1}</div>", "<b \u{1}>x</b>", "<\u{1}>", "<br>", "<hr />\u{1}", "<img src=\"\u{1}\">", "<p>\u{1}</p>",
    "ABC(\u{1})", "ABC", "\u{1}ABC", "x ABCDEF \u{1}",
    "*\u{1}*", "**\u{1}**", "_\u{1}_", "__\u{1}__", "??\u{1}??", "-\u{1}-", "%\u{1}%", "+\u{1}+", "~\u{1}~", "^\u{1}^", "[*\u{1}*]",
    "*(\u{1})x*", "_[\u{1}]x_", "%{\u{1}}x%", "??:\u{1} x??", "*(\u{1})[\u{1}]{\u{1}}x*", "%(a#\u{1})x%", "*[\u{1}]x*", "*:\u{1} x*", "+:\u{1} y+",
    "* \u{1}", "# \u{1}", "#_ \u{1}", "#5 \u{1}", "#\u{1} x", "** \u{1}", "* a\n** \u{1}\n# b\n## \u{1}", "*(\u{1}) a", "*[\u{1}] a", "#{\u{1}} a", "; \u{1}\n: \u{1}", ";[\u{1}] a\n: b", "* a\n\u{1}\n* b", "# a\n\n\u{1}\n\n#_ b",
    "- \u{1} := \u{1}", "-(\u{1}) a := b", "-[\u{1}] a := b", "- a := \n\u{1} =:", "- a\n- \u{1} := b",
    "|\u{1}|", "|a|\u{1}|\n|b|c|", "|_. \u{1}|", "|(\u{1}). c|", "|[\u{1}]. c|", "|{\u{1}}. c|", "|\\2. \u{1}|", "|/2\u{1}. c|", "|^. \u{1}|", "|\u{1}. c|",
    "table(\u{1}). s\n|a|", "table[\u{1}]. s\n|a|", "table{\u{1}}. s\n|a|", "table. \u{1}\n|a|b|", "|=. \u{1}|\n|a|", "|=[\u{1}]. cap|\n|a|", "|:\\2. 10|\u{1}|\n|a|b|", "|:[\u{1}]. 10|\n|a|", "|:(\u{1}). 10|20|\n|a|b|", "|^.\n|a|\n|-.\n|\u{1}|\n|~.\n|c|", "|^[\u{1}].\n|a|", "|~(\u{1}).\n|a|", "[\u{1}]. |a|b|", "{\u{1}}. |a|", "(\u{1}). |a|", "table(\u{1})[\u{1}]. \u{1}\n|a|",
    "a[1] \u{1}\n\nfn1. b", "fn1. \u{1}", "fn1(\u{1}). b", "fn1[\u{1}]. b", "fn1^. \u{1}", "a[1!] b[1]", "a[\u{1}]", "fn1(a#b). x", "fn1^[\u{1}]. z",
    "a[#\u{1}]", "a[#n]\n\nnote#n. \u{1}\n\nnotelist.", "note#n. \u{1}\n\nb[#n]\n\nnotelist+.", "note#\u{1}. b\n\nnotelist+.", "a[(\u{1})#n] b[#n]\n\nnote#n. c\n\nnotelist.", "a[[\u{1}]#n]\n\nnote#n^[\u{1}]. b\n\nnotelist[\u{1}].", "a[#n!] b[#n]\n\nnote#n*(\u{1}). c\n\nnotelist(\u{1}):A^.", "notelist\u{1}.", "notelist[\u{1}]:a+.", "a[#n] b[#n] c[#n] d[#n] e[#n] f[#n]\n\nnote#n. z\n\nnotelist:\u{1}.", "a[#n] b[#n] c[#n]\n\nnote#n. z\n\nnotelist:\u{1}*.", "a[#\u{1}]\n\nnote#\u{1}. b\n\nnotelist.",
    " \"\u{1}\" ", " '\u{1}' ", " (\"\u{1}) ", " {\"\u{1}} ", " «\"\u{1}» ", "(\u{1})", "[\u{1}]", "{\u{1}}", "\"\u{1}\"", "'\u{1}'", " [\"\u{1}] ",
    "\u{1} -- \u{1}", "\u{1} - \u{1}", "\u{1}...", "2x\u{1}", "(c)\u{1}(tm)", "\u{1}[1/2]", "\u{1}&\u{1}", "\u{1} & \u{1}", "&\u{1};",
    "\u{1}\n\u{1}", "\u{1}\n\n\u{1}", "\u{1} \u{1}", "\u{1}\u{1}", "\u{1}\n \u{1}", "\u{1}\r\n\u{1}", "\u{1}|\u{1}", "\u{1}\":\u{1}", "\"\u{1}\":", " \u{1}",
    "textileRef:UID:\u{1}:shelve", "textileRef:UID:1:url", "textileRef:UID:1:ospan \u{1} textileRef:UID:2:cspan", "textileRef:textileRef:UID:UID:1:\u{1}", "textileRef:UID:linkStartMarker:\"\u{1}\":/u", "textileRef:UID::glyph:\u{1}",
];

pub const PAYLOADS: &[&str] = &[
    "zq", "a b", "foo.png", "http://a.com/b?c=d&e=f", "/rel/x.png?a=b#c", "", " ", "x", "1", "0", "18446744073709551615", "99999999999999999999999", "4294967296", "-1", "[", "]", "(", ")", "{", "}", "|", "\"", "'", ":", "!", "$", "@", "*", "_", "#", "^", "~", "<", ">", "=", "-", "--", "\"\"", "\":", "\": ", ". ", ".", "..",
    "<zq>", "<zq onzq=1>", "<script>zq()</script>", "\" onzq=\"1", "' onzq='1", "\"><zq>", "'><zq x='", " onzq=1 ", "&lt;zq&gt;", "&#60;zq&#62;", "&#x3c;zq>", "%3Czq%3E", "&quot; onzq=&quot;1", "&amp;", "&", "&amp;lt;zq&amp;gt;", "a\" onzq=1 b", "a' onzq=1 b", "a\"b' onzq=1 c",
    "javascript:zq(1)", "JaVaScRiPt:zq(1)", "java\tscript:zq", " javascript:zq", "javascript&#58;zq", "data:text/html,zq", "vbscript:zq", "ftpx:zq", "httpevil:zq", "mailto:a@zq", "file:///zq", "tel:1", "zqscheme:foo", "//zq.com/x", "javascript://a.com/%0azq(1)", "http://[zq", "http://a.com:99999/zq", "jAvascript://[zq", "http:zq", "sftp:zq/b", "\u{1}javascript:zq",
    "@\" onzq=1 x=\"@", "@<zq>@", "==\" onzq=1 x=\"==", "==<zq>==", "*[\" onzq=1 ]a*", "\"x\":onzq=1//", "\"x\":/u", "!a.png!", "!a.png!:/u", "[1]", "[#n]", "ABC(zq)", "*zq*", "_zq_", "??zq??", "%zq%", "*[zq]x*", "\"x(a)\":/u", "ABC",
    "é", "éééé", "İİİ", "ß", "日本語", "\u{1f600}", "e\u{301}", "\u{a0}", "\u{2028}", "\u{200b}", "\u{85}", "ſ", "K", "ﬀ", "\u{feff}", "\u{0}", "&#55296;", "&#xDFFF;", "&#1114112;", "&#0;", "&#128;", "&#xffffffffff;", "&#11;", "\u{d7fb}", "\u{d7ff}", "\u{10ffff}", "\t", "\r", "\n", "\n\n", "\u{b}", "\u{fdd0}", "١", "²", "½", "Ⅷ",
    "onzq", "class", "(zqcls)", "(#zqid)", "{zq:1}", "[zqlang]", "(zqcls#zqid){zq:1}[zqlang]", "zqcls#zqid", "a#b#c", "color:red;zq:1", "zq\" x", "en", "EN", "<>", "((", "))", "(-(", "(-)", "^-~", "\\2/3", "_", "<br>", "<br/>", "<br />", "</li>", "</p>", "<p>", "</code>", "</pre>", "-->", "<!--", "]]", "[[", ")(", "a)b", "a(b", "a]b", "a[b]c",
    "textileRef:", "textileRef:UID:", "textileRef:UID:1:shelve", "UID", "linkStartMarker:", "UID:1:shelve", ":url", ":ospan ", "note#n. z", "fn1. z", "notelist.", "$1", "${1}", "\\1", "\\",
];

pub fn fill(t: &str, mut f: impl FnMut() -> String) -> String {
    let mut out = String::new();
    for c in t.chars() { if c == '\u{1}' { out.push_str(&f()); } else { out.push(c); } }
    out
}

fn leaf(r: &mut Rng) -> String {
    match r.below(10) {
        0..=6 => r.pick(PAYLOADS).to_string(),
        7 => { let a = r.pick(PAYLOADS).to_string(); let b = *r.pick(PAYLOADS); a + b }
        8 => { let n = 1 + r.below(5); (0..n).map(|_| *r.pick(&['a', 'Z', ' ', '"', '\'', '<', '>', '&', ':', '/', '(', ')', '[', ']', '{', '}', '|', '*', '_', '@', '=', '-', '.', '#', '!', '\n', 'é', '1', '%', '+', '~', '^', '?', '$', ';', ','])).collect() }
        _ => "w".to_string(),
    }
}

pub fn tree(r: &mut Rng, depth: usize) -> String {
    if depth == 0 { return leaf(r); }
    let t = *r.pick(TEMPLATES);
    let mut out = String::new();
    for c in t.chars() {
        if c == '\u{1}' { let d = r.below(depth); let s = tree(r, d); out.push_str(&s); } else { out.push(c); }
    }
    out
}

/// The general document generator: first the complete template x payload product, then the
/// template x template x small-payload product (strided), then random trees and soups.
pub fn general(i: u64, r: &mut Rng) -> String {
    let nt = TEMPLATES.len() as u64;
    let np = PAYLOADS.len() as u64;
    if i < nt * np {
        let t = TEMPLATES[(i / np) as usize];
        let p = PAYLOADS[(i % np) as usize];
        return fill(t, || p.to_string());
    }
    let d = match r.below(10) {
        0..=2 => { let p = leaf(r); let t2 = *r.pick(TEMPLATES); let inner = fill(t2, || p.clone()); let t = *r.pick(TEMPLATES); fill(t, || inner.clone()) }
        3..=6 => tree(r, 3),
        7 | 8 => { let n = 2 + r.below(4); let mut s = String::new(); for k in 0..n { if k > 0 { s.push_str(r.pick(&["\n\n", "\n", " ", "", "\n\n\n"])); } let d = 1 + r.below(2); s.push_str(&tree(r, d)); } s }
        _ => { let n = 1 + r.below(12); (0..n).map(|_| leaf(r)).collect::<Vec<_>>().concat() }
    };
    let mut d: String = d.chars().take(400).collect();
    if r.chance(1, 8) && !d.is_empty() {
        // mutate: delete or duplicate a random slice
        let cs: Vec<char> = d.chars().collect();
        let a = r.below(cs.len()); let b = (a + 1 + r.below(4)).min(cs.len());
        d = if r.chance(1, 2) { cs[..a].iter().chain(cs[b..].iter()).collect() } else { cs[..b].iter().chain(cs[a..].iter()).collect() };
    }
    d
}

pub const WORDS: &[&str] = &["foo", "bar", "é", "éééé", "日本語", "word", "x", "ß", "İi", "naïve", "ﬀ", "ſt", "\u{1f600}", "Ⱥb", "ẞa", "日", "ab", "Ωa", "K", "a1b"];
pub fn words_line(r: &mut Rng, min: usize) -> String {
    let n = min + r.below(3);
    (0..n).map(|_| *r.pick(WORDS)).collect::<Vec<_>>().join(" ")
}
