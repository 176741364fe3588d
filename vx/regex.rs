// ---- fancy_regex: opaque types with assumed contracts ----
#[verifier::external_body] pub struct Regex { x: u8 }
#[verifier::external_body] pub struct RegexError { x: u8 }

pub struct Match<'t> { pub text: &'t str, pub s: usize, pub e: usize }
impl<'t> Match<'t> {
    pub open spec fn wf(&self) -> bool { cb(self.text@, self.s as int) && cb(self.text@, self.e as int) && self.s <= self.e && self.e <= self.text.spec_bytes().len() }
    pub open spec fn str(&self) -> Seq<char> { self.text@.subrange(cidx(self.text@, self.s as int), cidx(self.text@, self.e as int)) }
    #[verifier::external_body] pub fn start(&self) -> (r: usize) ensures r == self.s { unimplemented!() }
    #[verifier::external_body] pub fn end(&self) -> (r: usize) ensures r == self.e { unimplemented!() }
    #[verifier::external_body] pub fn as_str(&self) -> (r: &'t str) requires self.wf() ensures r@ == self.str() { unimplemented!() }
}
pub uninterp spec fn re_matches(re: Regex, s: Seq<char>) -> bool;
impl Regex {
    #[verifier::external_body] pub fn is_match(&self, t: &str) -> (r: Result<bool, RegexError>) ensures r is Ok ==> r->Ok_0 == re_matches(*self, t@) { unimplemented!() }
    #[verifier::external_body] pub fn find<'t>(&self, t: &'t str) -> (r: Result<Option<Match<'t>>, RegexError>)
        ensures match r { Ok(Some(m)) => m.text == t && m.wf() && re_matches(*self, t@) && re_word(*self, 0, m.str()), Ok(None) => !re_matches(*self, t@), Err(_) => true } { unimplemented!() }
}
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or_default] (x: std::result::Result<T, E>) -> (r: T)
    where E: std::marker::Destruct, T: std::default::Default + std::marker::Destruct,
    ensures match x { Ok(v) => r == v, Err(_) => call_ensures(T::default, (), r) };
#[verifier::external_body] pub struct Captures<'t> { x: &'t str }
impl<'t> Captures<'t> {
    /// number of groups, the whole match included
    pub uninterp spec fn n(&self) -> nat;
    /// what a group matched, if it took part
    pub uninterp spec fn group(&self, i: int) -> Option<Match<'t>>;
    pub uninterp spec fn named(&self, k: Seq<char>) -> Option<Match<'t>>;
    pub uninterp spec fn text(&self) -> &'t str;
    pub open spec fn wf(&self) -> bool {
        &&& self.n() >= 1 && self.group(0) is Some
        &&& forall|i: int| (#[trigger] self.group(i)) matches Some(m) ==> m.text == self.text() && m.wf()
        &&& forall|k: Seq<char>| (#[trigger] self.named(k)) matches Some(m) ==> m.text == self.text() && m.wf()
    }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self.n() { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, i: usize) -> (r: Option<Match<'t>>) ensures r == self.group(i as int) { unimplemented!() }
    #[verifier::external_body] pub fn name(&self, k: &str) -> (r: Option<Match<'t>>) ensures r == self.named(k@) { unimplemented!() }
    pub uninterp spec fn at_spec(&self, i: int) -> &'t str;
    /// `cap[i]`: panics when the group took no part
    #[verifier::external_body] pub fn at(&self, i: usize) -> (r: &'t str) requires self.wf(), self.group(i as int) is Some ensures r@ == self.group(i as int)->Some_0.str(), r == self.at_spec(i as int) { unimplemented!() }
    /// `cap["name"]`
    #[verifier::external_body] pub fn at_name(&self, k: &str) -> (r: &'t str) requires self.wf(), self.named(k@) is Some ensures r@ == self.named(k@)->Some_0.str() { unimplemented!() }
}
/// group i always takes part when `re` matches (read off the expression, see extract.py)
pub uninterp spec fn re_group_always(re: Regex, i: int) -> bool;
pub uninterp spec fn re_name_always(re: Regex, k: Seq<char>) -> bool;
pub uninterp spec fn re_name(re: Regex, k: Seq<char>) -> Option<int>;
pub uninterp spec fn re_groups(re: Regex) -> Option<nat>;
/// group i (0: the whole match) of `re` can match this text
pub uninterp spec fn re_word(re: Regex, i: int, s: Seq<char>) -> bool;
/// what is known about the groups of a match of `re`
pub open spec fn caps_of<'t>(re: Regex, m: Captures<'t>) -> bool {
    &&& re_groups(re) matches Some(n) ==> m.n() == n
    &&& forall|i: int| re_group_always(re, i) ==> (#[trigger] m.group(i)) is Some
    &&& forall|i: int| (#[trigger] m.group(i)) matches Some(g) ==> re_word(re, i, g.str())
    &&& forall|i: int| m.n() <= i ==> (#[trigger] m.group(i)) is None
    &&& forall|k: Seq<char>| re_name_always(re, k) ==> (#[trigger] m.named(k)) is Some
    &&& forall|k: Seq<char>| re_name(re, k) matches Some(i) ==> (#[trigger] m.named(k)) == m.group(i)
}
impl Regex {
    #[verifier::external_body] pub fn captures<'t>(&self, t: &'t str) -> (r: Result<Option<Captures<'t>>, RegexError>)
        ensures match r { Ok(Some(m)) => m.text() == t && m.wf() && re_matches(*self, t@) && caps_of(*self, m), Ok(None) => !re_matches(*self, t@), Err(_) => true } { unimplemented!() }
}
pub assume_specification<T, E> [std::result::Result::<T, E>::unwrap_or] (x: std::result::Result<T, E>, d: T) -> (r: T)
    where E: std::marker::Destruct, T: std::marker::Destruct,
    ensures match x { Ok(v) => r == v, Err(_) => r == d };
