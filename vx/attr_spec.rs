// ---- Attribute values ----
pub open spec fn has(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
pub proof fn lemma_has(s: Seq<char>, c: char) ensures has(s, c) == (exists|k: int| 0 <= k <= s.len() && #[trigger] pat_at(c, s, k))
{ broadcast use group_pat;
  if has(s, c) { let i = choose|i: int| 0 <= i < s.len() && s[i] == c; assert(pat_at(c, s, i)); }
  else { assert forall|k: int| 0 <= k <= s.len() implies !#[trigger] pat_at(c, s, k) by { if pat_at(c, s, k) { assert(s[k] == c); } } } }
/// a complete attribute value: in quotes, and neither its quote nor < > inside
pub open spec fn quoted(r: Seq<char>) -> bool {
    &&& r.len() >= 2 && r.first() == r.last() && (r.first() == '"' || r.first() == '\'')
    &&& forall|i: int| 0 < i < r.len() - 1 ==> r[i] != r.first() && r[i] != '<' && r[i] != '>' && r[i] != '\n' && r[i] != '\r' && r[i] != '\t'
}
pub open spec fn wrap(q: char, s: Seq<char>) -> Seq<char> { seq![q] + s + seq![q] }
/// what quoteattr has to compute
pub open spec fn qattr(s: Seq<char>) -> Seq<char> {
    let e = enc(s, false, true);
    if has(e, '"') { if has(e, '\'') { wrap('"', repl_char(e, '"', entity('"'))) } else { wrap('\'', e) } } else { wrap('"', e) }
}
pub proof fn lemma_enc_clean(s: Seq<char>)
    ensures forall|i: int| 0 <= i < enc(s, false, true).len() ==> { let c = #[trigger] enc(s, false, true)[i]; c != '<' && c != '>' && c != '\n' && c != '\r' && c != '\t' }
    decreases s.len()
{ if s.len() > 0 { lemma_enc_clean(s.drop_last());
    let a = enc(s.drop_last(), false, true); let b = enc_char(s.last(), false, true); let e = enc(s, false, true);
    assert(e == a + b);
    assert forall|i: int| 0 <= i < e.len() implies { let c = #[trigger] e[i]; c != '<' && c != '>' && c != '\n' && c != '\r' && c != '\t' } by {
        if i < a.len() { assert(e[i] == a[i]); } else { assert(e[i] == b[i - a.len()]); }
    } } }
pub proof fn lemma_repl_clean(s: Seq<char>)
    requires forall|i: int| 0 <= i < s.len() ==> { let c = #[trigger] s[i]; c != '<' && c != '>' && c != '\n' && c != '\r' && c != '\t' }
    ensures forall|i: int| 0 <= i < repl_char(s, '"', entity('"')).len() ==> { let c = #[trigger] repl_char(s, '"', entity('"'))[i]; c != '"' && c != '<' && c != '>' && c != '\n' && c != '\r' && c != '\t' }
    decreases s.len()
{ if s.len() > 0 { assert forall|i: int| 0 <= i < s.drop_last().len() implies { let c = #[trigger] s.drop_last()[i]; c != '<' && c != '>' && c != '\n' && c != '\r' && c != '\t' } by { assert(s.drop_last()[i] == s[i]); }
    lemma_repl_clean(s.drop_last());
    let q = entity('"'); let a = repl_char(s.drop_last(), '"', q); let b = if s.last() == '"' { q } else { seq![s.last()] }; let e = repl_char(s, '"', q);
    assert(e == a + b); assert(s.last() == s[s.len() - 1]);
    assert forall|i: int| 0 <= i < e.len() implies { let c = #[trigger] e[i]; c != '"' && c != '<' && c != '>' && c != '\n' && c != '\r' && c != '\t' } by {
        if i < a.len() { assert(e[i] == a[i]); } else { assert(e[i] == b[i - a.len()]); }
    } } }
pub proof fn lemma_qattr(s: Seq<char>) ensures quoted(qattr(s))
{ lemma_enc_clean(s); let e = enc(s, false, true); lemma_repl_clean(e);
  let r = qattr(s); let q = r.first();
  let m = if has(e, '"') && has(e, '\'') { repl_char(e, '"', entity('"')) } else { e };
  assert(r == wrap(q, m));
  assert forall|i: int| 0 < i < r.len() - 1 implies r[i] != q && r[i] != '<' && r[i] != '>' && r[i] != '\n' && r[i] != '\r' && r[i] != '\t' by { assert(r[i] == m[i - 1]); if m[i - 1] == '\'' { assert(has(e, '\'') || q == '"'); } if m[i-1] == '"' { assert(has(m, '"')); } }
}
pub proof fn lemma_dq() {}
/// characters HTML allows in an attribute name
pub open spec fn valid_attr_char(c: char) -> bool {
    !(char_control(c) || char_ws(c) || ('\u{FDD0}' <= c && c <= '\u{FDEF}') || c == '=' || c == '/' || c == '>' || c == '"' || c == '\'')
}
pub open spec fn valid_name(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> valid_attr_char(#[trigger] s[i]) }
/// the text of the first n attributes
pub open spec fn joined(a: Seq<(String, String)>, n: int) -> Seq<char> decreases n {
    if n <= 0 { seq![] } else { joined(a, n - 1) + (if valid_name(a[n - 1].0@) { seq![' '] + a[n - 1].0@ + seq!['='] + qattr(a[n - 1].1@) } else { seq![] }) }
}
pub open spec fn alnum(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> char_alnum(#[trigger] t[i]) }
/// what generate_tag has to compute
pub open spec fn tag_text(tag: Option<Seq<char>>, content: Option<Seq<char>>, attrs: Seq<(String, String)>) -> Seq<char> {
    let c = match content { Some(c) => c, None => seq![] };
    match tag {
        None => c,
        Some(t) => if t.len() == 0 { c } else if !alnum(t) { enc(c, true, false) } else {
            let open = seq!['<'] + t + joined(attrs, attrs.len() as int);
            match content { Some(c) => open + seq!['>'] + c + seq!['<', '/'] + t + seq!['>'], None => open + seq![' ', '/', '>'] }
        },
    }
}
/// ` name="value"` of the first n attributes
pub open spec fn joined_all(a: Seq<(String, String)>, n: int) -> Seq<char> decreases n {
    if n <= 0 { seq![] } else { joined_all(a, n - 1) + seq![' '] + a[n - 1].0@ + seq!['='] + qattr(a[n - 1].1@) }
}
