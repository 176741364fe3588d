// ---- The attribute list as a map ----
/// str's ordering (what binary_search_by_key uses): a strict total order on character sequences
pub uninterp spec fn slt(a: Seq<char>, b: Seq<char>) -> bool;
pub broadcast axiom fn axiom_slt_irr(a: Seq<char>) ensures !#[trigger] slt(a, a);
pub axiom fn axiom_slt_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>) requires slt(a, b), slt(b, c) ensures slt(a, c);
pub open spec fn sorted(a: Seq<(String, String)>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> slt(#[trigger] a[i].0@, #[trigger] a[j].0@) }
pub open spec fn names_distinct(a: Seq<(String, String)>) -> bool { forall|i: int, j: int| 0 <= i < j < a.len() ==> #[trigger] a[i].0@ != #[trigger] a[j].0@ }
pub open spec fn has_key(a: Seq<(String, String)>, k: Seq<char>) -> bool { exists|i: int| 0 <= i < a.len() && #[trigger] a[i].0@ == k }
/// the value stored under a name
pub open spec fn aget(a: Seq<(String, String)>, k: Seq<char>) -> Option<Seq<char>> {
    if has_key(a, k) { Some(a[choose|i: int| 0 <= i < a.len() && #[trigger] a[i].0@ == k].1@) } else { None }
}
/// b is a with v stored under k, everything else as it was
pub open spec fn upd(a: Seq<(String, String)>, b: Seq<(String, String)>, k: Seq<char>, v: Seq<char>) -> bool {
    forall|x: Seq<char>| #[trigger] aget(b, x) == (if x == k { Some(v) } else { aget(a, x) })
}
pub proof fn lemma_sorted_distinct(a: Seq<(String, String)>) requires sorted(a) ensures names_distinct(a) { broadcast use axiom_slt_irr; }
pub proof fn lemma_val(a: Seq<(String, String)>, i: int) requires names_distinct(a), 0 <= i < a.len() ensures aget(a, a[i].0@) == Some(a[i].1@) {
    let k = a[i].0@; let c = choose|c: int| 0 <= c < a.len() && #[trigger] a[c].0@ == k; assert(a[i].0@ == k);
    if c < i { assert(a[c].0@ != a[i].0@); } else if i < c { assert(a[i].0@ != a[c].0@); }
}
/// what a binary search by name finds
pub open spec fn found(a: Seq<(String, String)>, k: Seq<char>, r: Result<usize, usize>) -> bool {
    match r {
        Ok(i) => i < a.len() && a[i as int].0@ == k,
        Err(i) => i <= a.len() && (forall|j: int| 0 <= j < i ==> slt(#[trigger] a[j].0@, k)) && (forall|j: int| i <= j < a.len() ==> slt(k, #[trigger] a[j].0@)),
    }
}
/// `a.binary_search_by_key(&k, |item| &item.0)`
#[verifier::external_body]
pub fn vx_bsearch(a: &Vec<(String, String)>, k: &str) -> (r: Result<usize, usize>) requires sorted(a@) ensures found(a@, k@, r) { unimplemented!() }
pub proof fn lemma_set(a: Seq<(String, String)>, b: Seq<(String, String)>, i: int)
    requires sorted(a), 0 <= i < a.len(), b.len() == a.len(), b[i].0@ == a[i].0@, forall|j: int| 0 <= j < a.len() && j != i ==> b[j] == a[j]
    ensures sorted(b), upd(a, b, a[i].0@, b[i].1@)
{
    assert forall|x: int, y: int| 0 <= x < y < b.len() implies slt(#[trigger] b[x].0@, #[trigger] b[y].0@) by { assert(b[x].0@ == a[x].0@ && b[y].0@ == a[y].0@); }
    lemma_sorted_distinct(a); lemma_sorted_distinct(b);
    lemma_val(b, i);
    assert forall|x: Seq<char>| #[trigger] aget(b, x) == (if x == a[i].0@ { Some(b[i].1@) } else { aget(a, x) }) by {
        if x != a[i].0@ {
            if has_key(b, x) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j].0@ == x; assert(a[j].0@ == x); lemma_val(b, j); lemma_val(a, j); }
            else if has_key(a, x) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].0@ == x; assert(b[j].0@ == x); }
        }
    }
}
pub proof fn lemma_ins(a: Seq<(String, String)>, b: Seq<(String, String)>, i: int, e: (String, String))
    requires sorted(a), 0 <= i <= a.len(), b == a.insert(i, e),
        forall|j: int| 0 <= j < i ==> slt(#[trigger] a[j].0@, e.0@), forall|j: int| i <= j < a.len() ==> slt(e.0@, #[trigger] a[j].0@)
    ensures sorted(b), upd(a, b, e.0@, e.1@)
{
    broadcast use axiom_slt_irr;
    assert forall|x: int, y: int| 0 <= x < y < b.len() implies slt(#[trigger] b[x].0@, #[trigger] b[y].0@) by {
        let x2 = if x > i { x - 1 } else { x }; let y2 = if y > i { y - 1 } else { y };
        if x == i { assert(b[y] == a[y2]); } else if y == i { assert(b[x] == a[x2]); } else { assert(b[x] == a[x2] && b[y] == a[y2]); }
    }
    lemma_sorted_distinct(a); lemma_sorted_distinct(b);
    assert(b[i] == e); lemma_val(b, i);
    assert forall|x: Seq<char>| #[trigger] aget(b, x) == (if x == e.0@ { Some(e.1@) } else { aget(a, x) }) by {
        if x != e.0@ {
            if has_key(b, x) { let j = choose|j: int| 0 <= j < b.len() && #[trigger] b[j].0@ == x; let j2 = if j > i { j - 1 } else { j }; assert(b[j] == a[j2]); lemma_val(b, j); lemma_val(a, j2); }
            else if has_key(a, x) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].0@ == x; let j2 = if j >= i { j + 1 } else { j }; assert(b[j2].0@ == x); }
        }
    }
}
/// either an entry was replaced or a new one went in where the search said
pub proof fn lemma_put(a: Seq<(String, String)>, b: Seq<(String, String)>, r: Result<usize, usize>, k: Seq<char>, v: Seq<char>)
    requires sorted(a), found(a, k, r), match r {
        Ok(i) => b.len() == a.len() && b[i as int].0@ == k && b[i as int].1@ == v && forall|j: int| 0 <= j < a.len() && j != i ==> b[j] == a[j],
        Err(i) => b == a.insert(i as int, b[i as int]) && b[i as int].0@ == k && b[i as int].1@ == v }
    ensures sorted(b), upd(a, b, k, v)
{ match r { Ok(i) => lemma_set(a, b, i as int), Err(i) => lemma_ins(a, b, i as int, b[i as int]) } }
pub proof fn lemma_absent(a: Seq<(String, String)>, k: Seq<char>, i: int)
    requires 0 <= i <= a.len(), forall|j: int| 0 <= j < i ==> slt(#[trigger] a[j].0@, k), forall|j: int| i <= j < a.len() ==> slt(k, #[trigger] a[j].0@)
    ensures aget(a, k) is None
{ broadcast use axiom_slt_irr; if has_key(a, k) { let j = choose|j: int| 0 <= j < a.len() && #[trigger] a[j].0@ == k; if j < i { assert(slt(a[j].0@, k)); } else { assert(slt(k, a[j].0@)); } } }
pub open spec fn ov(o: Option<String>) -> Option<Seq<char>> { match o { Some(s) => Some(s@), None => None } }
