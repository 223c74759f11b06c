// ---- ahash (assumed): a finite map with lawful keys -----------------------------

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct AHashMap<K, V> { m: std::collections::HashMap<K, V> }
pub uninterp spec fn amap<K, V>(m: &AHashMap<K, V>) -> Map<K, V>;

impl<K, V> View for AHashMap<K, V> {
    type V = Map<K, V>;
    open spec fn view(&self) -> Map<K, V> { amap(self) }
}

/// The entries of a map, each key once, in some order.
pub open spec fn entries<K, V>(es: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> *(#[trigger] es[i]).0 != *(#[trigger] es[j]).0
    &&& forall|i: int| 0 <= i < es.len() ==> m.contains_key(*(#[trigger] es[i]).0) && m[*es[i].0] == *es[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == k
}

impl<K, V> AHashMap<K, V> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Map::<K, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Map::<K, V>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.dom().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<(&K, &V)>)
        ensures entries(rem(&r), self@), rem(&r).len() == self@.dom().len()
    { unimplemented!() }
}

