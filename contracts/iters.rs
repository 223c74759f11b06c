use core::cmp::Ordering;
// ---- iterator adapters and sorting (assumed) -----------------------------------------

/// `slice::iter`
#[verifier::external_body]
pub fn it_of<T>(s: &[T]) -> (r: It<&T>)
    ensures rem(&r) == refs(s@)
{ unimplemented!() }
#[verifier::external_body]
pub fn it_none<T>() -> (r: It<T>)
    ensures rem(&r) == Seq::<T>::empty()
{ unimplemented!() }
pub open spec fn refs<'a, T>(s: Seq<T>) -> Seq<&'a T> { s.map_values(|x: T| &x) }
pub open spec fn derefs<'a, T>(s: Seq<&'a T>) -> Seq<T> { s.map_values(|x: &T| *x) }

impl<T> It<T> {
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<T>)
        ensures r@ == rem(&self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn filter<F: Fn(&T) -> bool>(self, f: F, Ghost(p): Ghost<spec_fn(T) -> bool>) -> (r: It<T>)
        requires forall|t: &T| #[trigger] call_requires(f, (t,)), forall|t: &T, b: bool| #[trigger] call_ensures(f, (t,), b) ==> b == p(*t)
        ensures rem(&r) == rem(&self).filter(p)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn chain(self, o: It<T>) -> (r: It<T>)
        ensures rem(&r) == rem(&self) + rem(&o)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn enumerate(self) -> (r: It<(usize, T)>)
        ensures rem(&self).len() <= usize::MAX, rem(&r).len() == rem(&self).len(),
            forall|i: int| #![trigger rem(&r)[i]] 0 <= i < rem(&r).len() ==> rem(&r)[i] == (i as usize, rem(&self)[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < rem(&self).len() ==> call_requires(f, (#[trigger] rem(&self)[i],))
        ensures rem(&r).len() == rem(&self).len(),
            forall|i: int| #![trigger rem(&r)[i]] 0 <= i < rem(&r).len() ==> call_ensures(f, (rem(&self)[i],), rem(&r)[i])
    { unimplemented!() }
}

pub open spec fn total_on<T>(le: spec_fn(T, T) -> bool, s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] le(s[i], s[j]) || le(s[j], s[i])
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len()
            && #[trigger] le(s[i], s[j]) && #[trigger] le(s[j], s[k]) ==> le(s[i], s[k])
}
/// p is an order of the positions below n.
pub open spec fn perm(p: Seq<int>, n: nat) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}
/// b is a in another order (p says where each came from).
pub open spec fn reordered<T>(a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& perm(p, a.len()) && b.len() == a.len()
    &&& forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] == a[p[i]]
}
/// A sequence of n different numbers below n has them all.
pub proof fn perm_onto(p: Seq<int>, n: nat, v: int)
    requires perm(p, n), 0 <= v < n
    ensures exists|j: int| 0 <= j < n && #[trigger] p[j] == v
{
    let s = p.to_set();
    let full = vstd::set_lib::set_int_range(0, n as int);
    vstd::set_lib::lemma_int_range(0, n as int);
    assert(p.no_duplicates());
    p.unique_seq_to_set();
    assert(s.subset_of(full)) by {
        assert forall|x: int| s.contains(x) implies full.contains(x) by { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; }
    }
    vstd::set_lib::lemma_subset_equality(s, full);
    assert(s.contains(v));
}
/// b is a, sorted; elements that compare equal keep their order (p says where each came from).
pub open spec fn sorted_by<T>(le: spec_fn(T, T) -> bool, a: Seq<T>, b: Seq<T>, p: Seq<int>) -> bool {
    &&& reordered(a, b, p)
    &&& forall|i: int, j: int| 0 <= i < j < b.len() ==> #[trigger] le(b[i], b[j])
    &&& forall|i: int, j: int| 0 <= i < j < b.len() && #[trigger] le(b[j], b[i]) ==> p[i] < p[j]
}
pub open spec fn cmp_is<T, F: Fn(&T, &T) -> core::cmp::Ordering>(cmp: F, le: spec_fn(T, T) -> bool) -> bool {
    &&& forall|a: &T, b: &T| call_requires(cmp, (a, b))
    &&& forall|a: &T, b: &T, o: core::cmp::Ordering| call_ensures(cmp, (a, b), o) ==>
            ((o == core::cmp::Ordering::Less || o == core::cmp::Ordering::Equal) <==> le(*a, *b))
            && ((o == core::cmp::Ordering::Greater || o == core::cmp::Ordering::Equal) <==> le(*b, *a))
}
/// `slice::sort_by`: stable
#[verifier::external_body]
pub fn sort_by<T, F: Fn(&T, &T) -> core::cmp::Ordering>(v: &mut Vec<T>, cmp: F, Ghost(le): Ghost<spec_fn(T, T) -> bool>)
    requires cmp_is(cmp, le),
    ensures
        final(v)@.to_multiset() == old(v)@.to_multiset(),
        exists|p: Seq<int>| #[trigger] reordered(old(v)@, final(v)@, p) && (total_on(le, old(v)@) ==> sorted_by(le, old(v)@, final(v)@, p)),
{ unimplemented!() }

/// Memory that is never given back (an arena).
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Arena<T> { v: Vec<T> }
impl<T> Arena<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc(&self, t: T) -> (r: &mut T)
        ensures *r == t
    { unimplemented!() }
}
#[verifier::external_body]
pub struct SuperAlloc { v: Vec<u8> }
impl SuperAlloc {
    #[verifier::external_body]
    pub fn alloc_arena<T>(&self) -> (r: &Arena<T>)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc<T>(&self, t: T) -> (r: &T)
        ensures *r == t
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_mut<T>(&self, t: T) -> (r: &mut T)
        ensures *r == t
    { unimplemented!() }
    /// A text, kept and seen as `&str`.
    #[verifier::external_body]
    pub fn alloc_text(&self, t: &str) -> (r: &str)
        ensures r@ == t@
    { unimplemented!() }
}

/// `Option::copied`
pub fn copied<T: Copy>(o: Option<&T>) -> (r: Option<T>)
    ensures match o { Some(x) => r == Some(*x), None => r is None }
{ match o { Some(x) => Some(*x), None => None } }
/// `Vec::into_iter`
#[verifier::external_body]
pub fn vec_it<T>(v: Vec<T>) -> (r: It<T>)
    ensures rem(&r) == v@
{ unimplemented!() }
/// `collect()` into a set
#[verifier::external_body]
pub fn set_of<T>(i: It<T>) -> (r: AHashSet<T>)
    ensures r@ == rem(&i).to_set()
{ unimplemented!() }
/// `AHashMap::into_iter`
#[verifier::external_body]
pub fn map_it<K, V>(m: AHashMap<K, V>) -> (r: It<(K, V)>)
    ensures exists|es: Seq<(&K, &V)>| #[trigger] entries(es, m@) && es.len() == rem(&r).len() && forall|i: int| 0 <= i < es.len() ==> #[trigger] rem(&r)[i] == (*es[i].0, *es[i].1)
{ unimplemented!() }
