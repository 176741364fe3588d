//! A small WHATWG-shaped HTML tokenizer: what a browser would see as tags and attributes.
#[derive(Debug, Clone, PartialEq)]
pub struct Attr { pub name: String, pub value: String, pub quote: char }
#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Text(String),
    Tag { name: String, attrs: Vec<Attr>, closing: bool, selfclose: bool, raw: String },
    Comment(String),
    /// A tag that never ended before the end of the text.
    Broken(String),
}

fn ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0c') }

pub fn tokenize(s: &str) -> Vec<Tok> {
    let c: Vec<char> = s.chars().collect();
    let n = c.len();
    let mut out = Vec::new();
    let mut text = String::new();
    let mut i = 0;
    macro_rules! flush { () => { if !text.is_empty() { out.push(Tok::Text(std::mem::take(&mut text))); } } }
    while i < n {
        if c[i] != '<' { text.push(c[i]); i += 1; continue; }
        let nx = c.get(i + 1).copied().unwrap_or(' ');
        let nx2 = c.get(i + 2).copied().unwrap_or(' ');
        if nx == '!' && nx2 == '-' && c.get(i + 3) == Some(&'-') {
            flush!();
            let rest: String = c[i + 4..].iter().collect();
            match rest.find("-->") {
                Some(p) => { let body = rest[..p].to_string(); i += 4 + body.chars().count() + 3; out.push(Tok::Comment(body)); }
                None => { out.push(Tok::Broken(rest)); i = n; }
            }
            continue;
        }
        if nx == '!' || nx == '?' || (nx == '/' && !nx2.is_ascii_alphabetic()) {
            flush!();
            let start = i;
            while i < n && c[i] != '>' { i += 1; }
            let body: String = c[start..i.min(n)].iter().collect();
            if i < n { i += 1; out.push(Tok::Comment(body)); } else { out.push(Tok::Broken(body)); }
            continue;
        }
        let closing = nx == '/';
        if !(nx.is_ascii_alphabetic() || closing) { text.push('<'); i += 1; continue; }
        flush!();
        let start = i;
        i += if closing { 2 } else { 1 };
        let mut name = String::new();
        while i < n && !ws(c[i]) && c[i] != '/' && c[i] != '>' { name.push(c[i].to_ascii_lowercase()); i += 1; }
        let mut attrs = Vec::new();
        let mut selfclose = false;
        let mut ended = false;
        loop {
            while i < n && (ws(c[i]) || c[i] == '/') {
                selfclose = c[i] == '/';
                i += 1;
            }
            if i >= n { break; }
            if c[i] == '>' { i += 1; ended = true; break; }
            selfclose = false;
            let mut an = String::new();
            if c[i] == '=' { an.push('='); i += 1; }
            while i < n && !ws(c[i]) && c[i] != '/' && c[i] != '>' && c[i] != '=' { an.push(c[i].to_ascii_lowercase()); i += 1; }
            let mut j = i;
            while j < n && ws(c[j]) { j += 1; }
            let mut val = String::new();
            let mut quote = ' ';
            if j < n && c[j] == '=' {
                i = j + 1;
                while i < n && ws(c[i]) { i += 1; }
                if i >= n { break; }
                if c[i] == '"' || c[i] == '\'' {
                    quote = c[i];
                    i += 1;
                    while i < n && c[i] != quote { val.push(c[i]); i += 1; }
                    if i >= n { break; }
                    i += 1;
                    if i < n && !ws(c[i]) && c[i] != '/' && c[i] != '>' { quote = '?'; }
                } else {
                    quote = 'u';
                    while i < n && !ws(c[i]) && c[i] != '>' { val.push(c[i]); i += 1; }
                }
            }
            attrs.push(Attr { name: an, value: val, quote });
        }
        let raw: String = c[start..i.min(n)].iter().collect();
        if ended { out.push(Tok::Tag { name, attrs, closing, selfclose, raw }); } else { out.push(Tok::Broken(raw)); }
    }
    flush!();
    out
}

/// Decodes the character references an attribute value may hold.
pub fn unent(s: &str) -> String {
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        out.push_str(&rest[..p]);
        rest = &rest[p..];
        let mut done = false;
        if let Some(r) = rest.strip_prefix("&#") {
            let (hex, body) = match r.strip_prefix('x').or_else(|| r.strip_prefix('X')) { Some(b) => (true, b), None => (false, r) };
            let digits: String = body.chars().take_while(|c| if hex { c.is_ascii_hexdigit() } else { c.is_ascii_digit() }).collect();
            if !digits.is_empty() {
                let v = u32::from_str_radix(&digits, if hex { 16 } else { 10 }).unwrap_or(0xfffd);
                out.push(char::from_u32(v).unwrap_or('\u{fffd}'));
                rest = &body[digits.len()..];
                rest = rest.strip_prefix(';').unwrap_or(rest);
                done = true;
            }
        } else {
            for (n, ch) in [("amp", '&'), ("lt", '<'), ("gt", '>'), ("quot", '"'), ("colon", ':'), ("Tab", '\t'), ("NewLine", '\n'), ("apos", '\'')] {
                if let Some(r) = rest[1..].strip_prefix(n) {
                    if let Some(r) = r.strip_prefix(';') { out.push(ch); rest = r; done = true; break; }
                    if matches!(n, "amp" | "lt" | "gt" | "quot") { out.push(ch); rest = r; done = true; break; }
                }
            }
        }
        if !done { out.push('&'); rest = &rest[1..]; }
    }
    out.push_str(rest);
    out
}

/// The scheme a browser would use for this (already entity-decoded) URL, if it is absolute.
pub fn scheme(url: &str) -> Option<String> {
    let u: String = url.trim_start_matches(|c: char| c <= ' ').chars().filter(|c| !matches!(c, '\t' | '\n' | '\r')).collect();
    let p = u.find(':')?;
    let s = &u[..p];
    let mut it = s.chars();
    if !it.next()?.is_ascii_alphabetic() { return None; }
    if it.all(|c| c.is_ascii_alphanumeric() || matches!(c, '+' | '-' | '.')) { Some(s.to_ascii_lowercase()) } else { None }
}
