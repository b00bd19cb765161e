/// Trusted wrappers for std items that have no Verus specification (see evidence: trusted_base)
pub mod stdx {
    use vstd::prelude::*;
    use vstd::std_specs::iter::*;
    /// `x.into()` from a type into itself
    #[verifier::external_body]
    pub fn std_into<T>(x: T) -> (r: T) ensures r == x { x }
    pub open spec fn n_true(k: Seq<bool>) -> nat decreases k.len() {
        if k.len() == 0 { 0 } else { n_true(k.drop_first()) + if k[0] { 1nat } else { 0nat } }
    }
    /// k tells, item by item, what the predicate answered
    pub open spec fn answers<T, P: FnMut(&T) -> bool>(src: Seq<T>, p: P, k: Seq<bool>) -> bool {
        k.len() == src.len()
        && forall|j: int| #![trigger k[j]] #![trigger src[j]] 0 <= j < k.len() ==> p.ensures((&src[j],), k[j])
    }
    /// `it.filter(p).count()`
    #[verifier::external_body]
    pub fn std_filter_count<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> (r: usize)
        requires forall|x: &I::Item| p.requires((x,)),
        ensures exists|k: Seq<bool>| #[trigger] answers(IteratorSpec::remaining(&it), p, k) && r == n_true(k)
    { it.filter(p).count() }
    /// `it.take_while(p).count()`
    #[verifier::external_body]
    pub fn std_take_while_count<I: Iterator, P: FnMut(&I::Item) -> bool>(it: I, p: P) -> (n: usize)
        requires forall|x: &I::Item| p.requires((x,)),
        ensures ({
            let s = IteratorSpec::remaining(&it);
            &&& n <= s.len()
            &&& forall|j: int| #![trigger s[j]] 0 <= j < n ==> p.ensures((&s[j],), true)
            &&& n < s.len() ==> p.ensures((&s[n as int],), false)
        })
    { it.take_while(p).count() }
}
