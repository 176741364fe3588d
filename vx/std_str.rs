// ---- Assumed contracts of std::str / String / char (trusted, listed in evidence) ----
#[verifier::external_trait_specification]
pub trait ExPattern: Sized {
    type ExternalTraitSpecificationFor: Pattern;
}
/// the pattern matches at character position k
pub uninterp spec fn pat_at<P>(p: P, s: Seq<char>, k: int) -> bool;
pub broadcast axiom fn axiom_pat_slice(p: &[char], s: Seq<char>, k: int)
    ensures #[trigger] pat_at(p, s, k) == (0 <= k < s.len() && p@.contains(s[k]));
pub broadcast axiom fn axiom_pat_char(p: char, s: Seq<char>, k: int)
    ensures #[trigger] pat_at(p, s, k) == (0 <= k < s.len() && p == s[k]);
pub broadcast axiom fn axiom_pat_str(p: &str, s: Seq<char>, k: int)
    ensures #[trigger] pat_at(p, s, k) == (0 <= k && k + p@.len() <= s.len() && s.subrange(k, k + p@.len()) == p@);
pub broadcast axiom fn axiom_pat_string(p: &String, s: Seq<char>, k: int)
    ensures #[trigger] pat_at(p, s, k) == (0 <= k && k + p@.len() <= s.len() && s.subrange(k, k + p@.len()) == p@);
pub broadcast group group_pat { axiom_pat_slice, axiom_pat_char, axiom_pat_str, axiom_pat_string }

pub assume_specification<P> [str::find] (s: &str, p: P) -> (r: std::option::Option<usize>) where P: std::str::pattern::Pattern,
    ensures match r {
        None => forall|k: int| 0 <= k <= s@.len() ==> !pat_at(p, s@, k),
        Some(b) => {
            let k = cidx(s@, b as int);
            &&& cb(s@, b as int) && 0 <= k <= s@.len() && b == bpos(s@, k)
            &&& pat_at(p, s@, k)
            &&& forall|j: int| 0 <= j < k ==> !pat_at(p, s@, j)
        },
    };
pub assume_specification<P> [str::contains] (s: &str, p: P) -> (r: bool) where P: std::str::pattern::Pattern,
    ensures r == exists|k: int| 0 <= k <= s@.len() && #[trigger] pat_at(p, s@, k);
pub assume_specification [std::string::String::with_capacity] (_0: usize) -> (r: std::string::String) ensures r@ == Seq::<char>::empty();
#[verifier::external_body]
pub fn vx_unreachable() -> ! requires false { panic!() }
/// no Rust object is larger than isize::MAX bytes
pub broadcast axiom fn axiom_str_len(s: &str) ensures #[trigger] s.spec_bytes().len() <= isize::MAX as int;
/// two &str with the same characters are the same value (what `match` on string literals compares)
pub axiom fn axiom_str_ext(b: &str) ensures forall|a: &str| #![trigger a@] a@ == b@ ==> a == b;
pub broadcast group group_std { axiom_pat_slice, axiom_pat_char, axiom_pat_str, axiom_pat_string, axiom_str_len }
// -- Display: what `format!` appends for an argument
pub trait VxDisp { spec fn disp(&self) -> Seq<char>; }
impl VxDisp for str { open spec fn disp(&self) -> Seq<char> { self@ } }
impl VxDisp for String { open spec fn disp(&self) -> Seq<char> { self@ } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn disp(&self) -> Seq<char> { (*self).disp() } }
#[verifier::external_body]
pub fn vx_push_disp<T: VxDisp + ?Sized>(out: &mut String, x: &T) ensures final(out)@ == old(out)@ + x.disp() { unimplemented!() }
/// replacing every occurrence of a pattern
pub uninterp spec fn replaced<P>(s: Seq<char>, p: P, to: Seq<char>) -> Seq<char>;
pub open spec fn repl_char(s: Seq<char>, p: char, to: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq![] } else { repl_char(s.drop_last(), p, to) + (if s.last() == p { to } else { seq![s.last()] }) }
}
pub axiom fn axiom_repl_char(s: Seq<char>, p: char, to: Seq<char>) ensures replaced(s, p, to) == repl_char(s, p, to);
pub assume_specification<P> [str::replace::<P>] (s: &str, p: P, to: &str) -> (r: String) where P: std::str::pattern::Pattern
    ensures r@ == replaced(s@, p, to@);
pub open spec fn char_ws(c: char) -> bool { vstd::std_specs::char::is_white_space(c) }
pub uninterp spec fn char_control(c: char) -> bool;
pub assume_specification [char::is_control] (c: char) -> (r: bool) ensures r == char_control(c);
/// `s.chars().all(f)`
#[verifier::external_body]
pub fn vx_all_chars<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| call_requires(f, (c,))
    ensures r ==> forall|i: int| 0 <= i < s@.len() ==> call_ensures(f, (#[trigger] s@[i],), true),
        !r ==> exists|i: int| 0 <= i < s@.len() && call_ensures(f, (#[trigger] s@[i],), false),
{ unimplemented!() }
pub uninterp spec fn char_alnum(c: char) -> bool;
pub assume_specification [char::is_alphanumeric] (c: char) -> (r: bool) ensures r == char_alnum(c);
pub assume_specification<'a> [<String as From<&'a str>>::from] (s: &str) -> (r: String) ensures r@ == s@;
/// String + &str
#[verifier::external_body]
pub fn vx_add(a: String, b: &str) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
pub assume_specification<'a> [<String as std::ops::AddAssign<&'a str>>::add_assign] (a: &mut String, b: &str) ensures final(a)@ == old(a)@ + b@;
pub uninterp spec fn trimmed(s: Seq<char>) -> Seq<char>;
pub assume_specification [str::trim] (s: &str) -> (r: &str) ensures r@ == trimmed(s@);
/// AsRef<str>
pub trait VxAsRef { spec fn sview(&self) -> Seq<char>; fn as_ref(&self) -> (r: &str) ensures r@ == self.sview(); }
/// decimal digits of a number, as Display writes them
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dchar(n)] } else { dec(n / 10) + seq![dchar(n % 10)] } }
pub open spec fn dchar(d: nat) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
impl VxDisp for usize { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
impl VxDisp for u32 { open spec fn disp(&self) -> Seq<char> { dec(*self as nat) } }
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] && s[i] <= '9' }
pub proof fn lemma_dec_digits(n: nat) ensures digits(dec(n)), dec(n).len() > 0 decreases n { if n >= 10 { lemma_dec_digits(n / 10); } }
/// different numbers have different digits
pub proof fn lemma_dec_inj(a: nat, b: nat) requires dec(a) == dec(b) ensures a == b decreases a
{
    if a < 10 && b < 10 { assert(dec(a)[0] == dchar(a) && dec(b)[0] == dchar(b)); }
    else if a >= 10 && b >= 10 {
        let x = dec(a); let y = dec(b);
        assert(x.last() == dchar(a % 10) && y.last() == dchar(b % 10));
        assert(x.drop_last() =~= dec(a / 10)); assert(y.drop_last() =~= dec(b / 10));
        lemma_dec_inj(a / 10, b / 10);
    } else { lemma_dec_digits(a / 10); lemma_dec_digits(b / 10); assert(dec(a).len() != dec(b).len()); }
}
pub assume_specification<P> [str::split_once] (s: &str, p: P) -> (r: std::option::Option<(&str, &str)>) where P: std::str::pattern::Pattern,
    ensures r matches Some((a, b)) ==> a@.len() + b@.len() <= s@.len() && a@ == s@.subrange(0, a@.len() as int) && b@ == s@.subrange(s@.len() - b@.len(), s@.len() as int);
pub assume_specification [<[u8]>::eq_ignore_ascii_case] (a: &[u8], b: &[u8]) -> (r: bool) ensures r == ieq(a@, b@);
/// equal up to the case of ASCII letters
pub uninterp spec fn ieq(a: Seq<u8>, b: Seq<u8>) -> bool;
/// `s.match_indices(c).count()`
#[verifier::external_body] pub fn vx_count(s: &str, c: char) -> (r: usize) ensures r <= s@.len(), r == 0 ==> (forall|i: int| 0 <= i < s@.len() ==> s@[i] != c) { unimplemented!() }
/// `s.starts_with(|c| f(c))`
#[verifier::external_body] pub fn vx_starts_with<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| call_requires(f, (c,))
    ensures s@.len() == 0 ==> !r, s@.len() > 0 ==> call_ensures(f, (s@[0],), r) { unimplemented!() }
