// ---- Line breaks ----
pub open spec fn stop_at(t: Seq<char>, k: int, p: Seq<char>) -> bool {
    let b = bpos(t, k); let n = encode_utf8(p).len();
    ieq(encode_utf8(t).subrange(if b < n { 0 } else { b - n }, b), encode_utf8(p))
}
/// what ends in a break, or in an element after which no break belongs
pub open spec fn stop_before(t: Seq<char>, k: int) -> bool {
    stop_at(t, k, "</dd>"@) || stop_at(t, k, "</dt>"@) || stop_at(t, k, "</li>"@) || stop_at(t, k, "<br/>"@) || stop_at(t, k, "<br>"@) || stop_at(t, k, "<br />"@)
}
/// the newline at k gets a break
pub open spec fn br_here(t: Seq<char>, k: int) -> bool {
    !(k + 1 < t.len() && (char_ws(t[k + 1]) || t[k + 1] == '|')) && !stop_before(t, k)
}
/// the first n characters with their breaks
pub open spec fn with_brs(t: Seq<char>, br: Seq<char>, n: int) -> Seq<char> decreases n {
    if n <= 0 { seq![] } else { with_brs(t, br, n - 1) + (if t[n - 1] == '\n' { (if br_here(t, n - 1) { br } else { seq![] }) + seq!['\n'] } else { seq![t[n - 1]] }) }
}
pub proof fn lemma_brs_plain(t: Seq<char>, br: Seq<char>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|i: int| a <= i < b ==> t[i] != '\n'
    ensures with_brs(t, br, b) == with_brs(t, br, a) + t.subrange(a, b) decreases b - a
{ if a < b { lemma_brs_plain(t, br, a, b - 1); assert(t.subrange(a, b) =~= t.subrange(a, b - 1) + seq![t[b - 1]]); assert(with_brs(t, br, b) =~= with_brs(t, br, a) + t.subrange(a, b)); }
  else { assert(t.subrange(a, b) =~= seq![]); assert(with_brs(t, br, a) + seq![] =~= with_brs(t, br, a)); } }
pub proof fn lemma_brs_len(t: Seq<char>, br: Seq<char>, n: int)
    requires 0 <= n <= t.len() ensures with_brs(t, br, n).len() >= n decreases n
{ if n > 0 { lemma_brs_len(t, br, n - 1); } }
