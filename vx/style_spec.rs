/// an author's style declaration cannot be one of these by accident: they are what the parser itself writes
pub open spec fn generated_decl(d: Seq<char>) -> bool {
    ||| exists|a: Seq<char>| d == #[trigger] ("vertical-align:"@ + a) && (a == "top"@ || a == "middle"@ || a == "bottom"@)
    ||| exists|a: Seq<char>| d == #[trigger] ("text-align:"@ + a) && (a == "left"@ || a == "center"@ || a == "right"@ || a == "justify"@)
    ||| exists|a: Seq<char>| #[trigger] digits(a) && d == "padding-left:"@ + a + "em"@
    ||| exists|a: Seq<char>| #[trigger] digits(a) && d == "padding-right:"@ + a + "em"@
}
pub open spec fn join_style(v: Seq<String>, n: int) -> Seq<char> decreases n { if n <= 0 { seq![] } else if n == 1 { v[0]@ } else { join_style(v, n - 1) + "; "@ + v[n - 1]@ } }
pub open spec fn generated_style(s: Seq<char>) -> bool { exists|v: Seq<String>| v.len() > 0 && (forall|i: int| 0 <= i < v.len() ==> generated_decl(#[trigger] v[i]@)) && s == #[trigger] join_style(v, v.len() as int) + ";"@ }
/// `style.extend(..)` of the author's declarations
#[verifier::external_body] pub fn vx_extend_any(v: &mut Vec<String>) ensures final(v)@.len() >= old(v)@.len(), final(v)@.subrange(0, old(v)@.len() as int) == old(v)@ { unimplemented!() }
/// `style.join("; ") + ";"`
#[verifier::external_body] pub fn vx_join_style(v: &Vec<String>) -> (r: String) ensures r@ == join_style(v@, v@.len() as int) + ";"@ { unimplemented!() }
// which characters the other attribute values consist of: none of them can end or extend an attribute
pub open spec fn an(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') }
pub open spec fn class_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> { let c = #[trigger] s[i]; an(c) || c == '-' || c == ' ' || c == '_' || c == '.' || c == '/' || c == '[' || c == ']' } }
pub open spec fn id_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> { let c = #[trigger] s[i]; an(c) || c == '-' || c == '_' || c == '.' || c == ':' } }
pub open spec fn lang_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> { let c = #[trigger] s[i]; an(c) || c == '-' } }
/// \d: an ASCII digit or some other script's digit
pub open spec fn num_chars(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> { let c = #[trigger] s[i]; ('0' <= c && c <= '9') || c > '\u{7f}' } }
