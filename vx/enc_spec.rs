// ---- What encode_html has to compute (written from the property, not from the code) ----
pub open spec fn special(c: char, quotes: bool, spacers: bool) -> bool {
    c == '&' || c == '<' || c == '>' || (quotes && (c == '"' || c == '\'')) || (spacers && (c == '\n' || c == '\r' || c == '\t'))
}
pub open spec fn entity(c: char) -> Seq<char> {
    if c == '&' { seq!['&','a','m','p',';'] }
    else if c == '<' { seq!['&','l','t',';'] }
    else if c == '>' { seq!['&','g','t',';'] }
    else if c == '"' { seq!['&','q','u','o','t',';'] }
    else if c == '\'' { seq!['&','#','3','9',';'] }
    else if c == '\n' { seq!['&','#','1','3',';'] }
    else if c == '\r' { seq!['&','#','1','0',';'] }
    else { seq!['&','#','9',';'] }
}
pub open spec fn enc_char(c: char, quotes: bool, spacers: bool) -> Seq<char> {
    if special(c, quotes, spacers) { entity(c) } else { seq![c] }
}
pub open spec fn enc(s: Seq<char>, quotes: bool, spacers: bool) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { enc(s.drop_last(), quotes, spacers) + enc_char(s.last(), quotes, spacers) }
}
pub proof fn lemma_enc_cat(a: Seq<char>, b: Seq<char>, q: bool, l: bool) ensures enc(a + b, q, l) == enc(a, q, l) + enc(b, q, l) decreases b.len()
{
    if b.len() == 0 { assert(a + b == a); assert(enc(b, q, l) =~= seq![]); assert(enc(a, q, l) + seq![] =~= enc(a, q, l)); }
    else {
        assert((a + b).drop_last() == a + b.drop_last());
        lemma_enc_cat(a, b.drop_last(), q, l);
        assert(enc(a + b, q, l) =~= enc(a, q, l) + enc(b, q, l));
    }
}
pub proof fn lemma_enc_plain(s: Seq<char>, q: bool, l: bool)
    requires forall|i: int| 0 <= i < s.len() ==> !special(#[trigger] s[i], q, l)
    ensures enc(s, q, l) == s decreases s.len()
{
    if s.len() > 0 { lemma_enc_plain(s.drop_last(), q, l); assert(s.drop_last() + seq![s.last()] =~= s); }
    else { assert(s =~= seq![]); }
}
pub proof fn lemma_enc_step(s: Seq<char>, k: int, q: bool, l: bool)
    requires 0 <= k < s.len(), forall|i: int| 0 <= i < k ==> !special(#[trigger] s[i], q, l)
    ensures enc(s.subrange(0, k + 1), q, l) == s.subrange(0, k) + enc_char(s[k], q, l)
{
    lemma_enc_plain(s.subrange(0, k), q, l);
    assert(s.subrange(0, k + 1).drop_last() == s.subrange(0, k));
}
pub proof fn lemma_enc_lits()
    ensures "&"@ == seq!['&'], "<"@ == seq!['<'], ">"@ == seq!['>'], "\""@ == seq!['"'], "'"@ == seq!['\''], "\n"@ == seq!['\n'], "\r"@ == seq!['\r'], "\t"@ == seq!['\t'],
        "&amp;"@ == entity('&'), "&lt;"@ == entity('<'), "&gt;"@ == entity('>'), "&quot;"@ == entity('"'), "&#39;"@ == entity('\''),
        "&#13;"@ == entity('\n'), "&#10;"@ == entity('\r'), "&#9;"@ == entity('\t')
{
    reveal_strlit("&"); reveal_strlit("<"); reveal_strlit(">"); reveal_strlit("\""); reveal_strlit("'"); reveal_strlit("\n"); reveal_strlit("\r"); reveal_strlit("\t");
    reveal_strlit("&amp;"); reveal_strlit("&lt;"); reveal_strlit("&gt;"); reveal_strlit("&quot;"); reveal_strlit("&#39;"); reveal_strlit("&#13;"); reveal_strlit("&#10;"); reveal_strlit("&#9;");
    assert("&"@ =~= seq!['&'] && "<"@ =~= seq!['<'] && ">"@ =~= seq!['>'] && "\""@ =~= seq!['"'] && "'"@ =~= seq!['\''] && "\n"@ =~= seq!['\n'] && "\r"@ =~= seq!['\r'] && "\t"@ =~= seq!['\t']);
    assert("&amp;"@ =~= entity('&') && "&lt;"@ =~= entity('<') && "&gt;"@ =~= entity('>') && "&quot;"@ =~= entity('"') && "&#39;"@ =~= entity('\'')
        && "&#13;"@ =~= entity('\n') && "&#10;"@ =~= entity('\r') && "&#9;"@ =~= entity('\t'));
}
