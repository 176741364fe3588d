// ---- Strings: byte offsets of &str against character positions (all lemmas proved here) ----
pub assume_specification<I: std::slice::SliceIndex<str>> [<str as std::ops::Index<I>>::index](s: &str, i: I) -> (r: &I::Output)
    ensures i.index_postcondition(s, r);

/// byte offset of character position k
#[verifier::opaque]
pub open spec fn bpos(s: Seq<char>, k: int) -> int { encode_utf8(s.subrange(0, k)).len() as int }
/// character position of byte offset b
#[verifier::opaque]
pub open spec fn cidx(s: Seq<char>, b: int) -> int { choose|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == b }
/// b is the offset of a character (or the end)
#[verifier::opaque]
pub open spec fn cb(s: Seq<char>, b: int) -> bool { exists|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == b }

pub proof fn lemma_split(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures
        encode_utf8(s) == encode_utf8(s.subrange(0, k)) + encode_utf8(s.subrange(k, s.len() as int)),
        0 <= bpos(s, k) <= encode_utf8(s).len(),
        is_char_boundary(encode_utf8(s), bpos(s, k)),
{
    reveal(bpos); reveal(cidx); reveal(cb);
    let a = s.subrange(0, k); let b = s.subrange(k, s.len() as int);
    assert(s == a + b);
    encode_utf8_concat(a, b);
    encode_utf8_valid_utf8(s); encode_utf8_valid_utf8(a); encode_utf8_valid_utf8(b);
    let eb = encode_utf8(s); let n = bpos(s, k);
    if n == 0 { is_char_boundary_start_end_of_seq(eb); }
    else if n == eb.len() { is_char_boundary_start_end_of_seq(eb); }
    else {
        is_char_boundary_iff_not_is_continuation_byte(eb, n);
        is_char_boundary_start_end_of_seq(encode_utf8(b));
        is_char_boundary_iff_not_is_continuation_byte(encode_utf8(b), 0);
        assert(eb[n] == encode_utf8(b)[0]);
    }
}
pub proof fn lemma_inj(a: Seq<char>, b: Seq<char>) requires encode_utf8(a) == encode_utf8(b) ensures a == b
{ reveal(bpos); reveal(cidx); reveal(cb); encode_utf8_decode_utf8(a); encode_utf8_decode_utf8(b); }

pub proof fn lemma_sub(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures bpos(s, i) <= bpos(s, j),
        encode_utf8(s).subrange(bpos(s, i), bpos(s, j)) == encode_utf8(s.subrange(i, j)),
        bpos(s, s.len() as int) == encode_utf8(s).len(), bpos(s, 0) == 0,
{
    reveal(bpos); reveal(cidx); reveal(cb);
    lemma_split(s, i); lemma_split(s, j);
    let p = s.subrange(0, j);
    lemma_split(p, i);
    assert(p.subrange(0, i) == s.subrange(0, i));
    assert(p.subrange(i, j) == s.subrange(i, j));
    assert(s.subrange(0, s.len() as int) == s);
    assert(s.subrange(0, 0) == Seq::<char>::empty());
    reveal_with_fuel(encode_utf8, 1);
    assert(encode_utf8(s).subrange(bpos(s, i), bpos(s, j)) =~= encode_utf8(s.subrange(i, j)));
}
pub proof fn lemma_nonempty(s: Seq<char>) requires s.len() > 0 ensures encode_utf8(s).len() > 0
{
    reveal(bpos); reveal(cidx); reveal(cb);
    if encode_utf8(s).len() == 0 {
        reveal_with_fuel(encode_utf8, 1);
        assert(encode_utf8(s) =~= encode_utf8(Seq::<char>::empty()));
        lemma_inj(s, Seq::<char>::empty());
    }
}
/// offsets of characters are strictly increasing
pub proof fn lemma_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i < j <= s.len()
    ensures bpos(s, i) < bpos(s, j)
{
    reveal(bpos); reveal(cidx); reveal(cb);
    let p = s.subrange(0, j);
    lemma_split(p, i);
    assert(p.subrange(0, i) == s.subrange(0, i));
    lemma_nonempty(p.subrange(i, j));
}
pub broadcast proof fn lemma_cidx(s: Seq<char>, k: int)
    requires 0 <= k <= s.len()
    ensures cidx(s, #[trigger] bpos(s, k)) == k, cb(s, bpos(s, k)), 0 <= bpos(s, k) <= encode_utf8(s).len(), is_char_boundary(encode_utf8(s), bpos(s, k))
{
    reveal(bpos); reveal(cidx); reveal(cb);
    lemma_split(s, k);
    let b = bpos(s, k);
    let c = cidx(s, b);
    assert(0 <= c <= s.len() && bpos(s, c) == b);
    if c < k { lemma_mono(s, c, k); } else if k < c { lemma_mono(s, k, c); }
}
pub broadcast proof fn lemma_cb(s: Seq<char>, b: int)
    requires #[trigger] cb(s, b)
    ensures 0 <= cidx(s, b) <= s.len(), bpos(s, cidx(s, b)) == b, 0 <= b <= encode_utf8(s).len(), is_char_boundary(encode_utf8(s), b)
{
    reveal(bpos); reveal(cidx); reveal(cb);
    let k = choose|k: int| 0 <= k <= s.len() && #[trigger] bpos(s, k) == b;
    lemma_cidx(s, k);
}
pub broadcast proof fn lemma_ends(s: Seq<char>)
    ensures bpos(s, 0) == 0, bpos(s, s.len() as int) == #[trigger] encode_utf8(s).len(),
            cidx(s, 0) == 0, cidx(s, encode_utf8(s).len() as int) == s.len(),
            cb(s, 0), cb(s, encode_utf8(s).len() as int)
{
    reveal(bpos); reveal(cidx); reveal(cb);
    lemma_sub(s, 0, 0);
    lemma_cidx(s, 0); lemma_cidx(s, s.len() as int);
}
/// the offset behind an ASCII character is one more than its own
pub proof fn lemma_ascii_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len(), (s[k] as u32) < 128
    ensures bpos(s, k + 1) == bpos(s, k) + 1, cb(s, bpos(s, k) + 1), cidx(s, bpos(s, k) + 1) == k + 1
{
    reveal(bpos); reveal(cidx); reveal(cb);
    lemma_sub(s, k, k + 1);
    let one = s.subrange(k, k + 1);
    assert(is_ascii_chars(one));
    is_ascii_chars_encode_utf8(one);
    lemma_split(s, k); lemma_split(s, k + 1);
    lemma_cidx(s, k + 1);
}
/// what `&s[i..j]` gives, in characters
pub broadcast proof fn lemma_slice(s: &str, r: &str, i: int, j: int)
    requires #[trigger] r.spec_bytes() == #[trigger] s.spec_bytes().subrange(i, j), cb(s@, i), cb(s@, j), i <= j
    ensures cidx(s@, i) <= cidx(s@, j), r@ == s@.subrange(cidx(s@, i), cidx(s@, j))
{
    reveal(bpos); reveal(cidx); reveal(cb);
    lemma_cb(s@, i); lemma_cb(s@, j);
    let k = cidx(s@, i); let l = cidx(s@, j);
    if l < k { lemma_mono(s@, l, k); }
    lemma_sub(s@, k, l);
    assert(r.spec_bytes() =~= encode_utf8(s@).subrange(i, j));
    lemma_inj(r@, s@.subrange(k, l));
}
/// offsets in a suffix
pub proof fn lemma_shift(s: Seq<char>, a: int, j: int)
    requires 0 <= a <= s.len(), 0 <= j <= s.len() - a
    ensures bpos(s, a) + bpos(s.subrange(a, s.len() as int), j) == bpos(s, a + j), cb(s, bpos(s, a + j)), cidx(s, bpos(s, a + j)) == a + j
{
    let u = s.subrange(a, s.len() as int);
    lemma_cidx(s, a + j);
    lemma_sub(s, a, a + j);
    reveal(bpos);
    assert(u.subrange(0, j) =~= s.subrange(a, a + j));
    lemma_split(s, a); lemma_split(s, a + j);
}
pub broadcast group group_strings { lemma_cidx, lemma_cb, lemma_ends, lemma_slice }
