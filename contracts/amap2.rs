// ---- more of ahash (assumed): lookup, entries, sets ----------------------------------------

/// `Borrow`: which keys a lookup value stands for.
pub trait Borrows<Q: ?Sized>: Sized {
    spec fn same(k: Self, q: &Q) -> bool;
}
impl<T> Borrows<T> for T { open spec fn same(k: T, q: &T) -> bool { k == *q } }
impl Borrows<str> for String { open spec fn same(k: String, q: &str) -> bool { k@ == q@ } }
impl<'a> Borrows<str> for &'a str { open spec fn same(k: &'a str, q: &str) -> bool { k@ == q@ } }


#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct Slot<'a, K, V> { pub m: &'a mut AHashMap<K, V>, pub k: K }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub enum Entry<'a, K, V> { Occupied(Slot<'a, K, V>), Vacant(VacantSlot<'a, K, V>) }
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct VacantSlot<'a, K, V> { pub m: &'a mut AHashMap<K, V>, pub k: K }

impl<K, V> AHashMap<K, V> {
    #[verifier::external_body]
    pub fn get<Q: ?Sized>(&self, q: &Q) -> (r: Option<&V>) where K: Borrows<Q>
        ensures match r {
            Some(v) => exists|k: K| #[trigger] self@.contains_key(k) && K::same(k, q) && self@[k] == *v,
            None => forall|k: K| #[trigger] self@.contains_key(k) ==> !K::same(k, q),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key<Q: ?Sized>(&self, q: &Q) -> (r: bool) where K: Borrows<Q>
        ensures r <==> exists|k: K| #[trigger] self@.contains_key(k) && K::same(k, q)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<Q: ?Sized>(&mut self, q: &Q) -> (r: Option<&mut V>) where K: Borrows<Q>
        ensures match r {
            Some(v) => exists|k: K| #[trigger] old(self)@.contains_key(k) && K::same(k, q) && *v == old(self)@[k] && final(self)@ == old(self)@.insert(k, *final(v)),
            None => final(self)@ == old(self)@ && forall|k: K| #[trigger] old(self)@.contains_key(k) ==> !K::same(k, q),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove<Q: ?Sized>(&mut self, q: &Q) -> (r: Option<V>) where K: Borrows<Q>
        ensures match r {
            Some(v) => exists|k: K| #[trigger] old(self)@.contains_key(k) && K::same(k, q) && v == old(self)@[k] && final(self)@ == old(self)@.remove(k),
            None => final(self)@ == old(self)@ && forall|k: K| #[trigger] old(self)@.contains_key(k) ==> !K::same(k, q),
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry(&mut self, k: K) -> (r: Entry<'_, K, V>)
        ensures match r {
            Entry::Occupied(o) => o.k == k && old(self)@.contains_key(k) && o.m@ == old(self)@ && final(o.m)@ == final(self)@,
            Entry::Vacant(o) => o.k == k && !old(self)@.contains_key(k) && o.m@ == old(self)@ && final(o.m)@ == final(self)@,
        }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: It<&K>)
        ensures each_once(rem(&r), self@.dom()), rem(&r).len() == self@.dom().len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn drain(&mut self) -> (r: It<(K, V)>)
        ensures final(self)@ == Map::<K, V>::empty(),
            exists|es: Seq<(&K, &V)>| #[trigger] entries(es, old(self)@) && es.len() == rem(&r).len()
                && forall|i: int| 0 <= i < es.len() ==> #[trigger] rem(&r)[i] == (*es[i].0, *es[i].1)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn values(&self) -> (r: It<&V>)
        ensures exists|ks: Seq<&K>| #[trigger] each_once(ks, self@.dom()) && ks.len() == self@.dom().len() && rem(&r).len() == ks.len()
            && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] rem(&r)[i]) == self@[*ks[i]]
    { unimplemented!() }
}
/// The members of a set, each once, in some order.
pub open spec fn each_once<K>(s: Seq<&K>, d: Set<K>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]) != *(#[trigger] s[j])
    &&& forall|i: int| 0 <= i < s.len() ==> d.contains(*(#[trigger] s[i]))
    &&& forall|k: K| #[trigger] d.contains(k) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]) == k
}
/// The names a map has entries for, each once.
pub open spec fn names_once<V>(m: Map<String, V>, ns: Seq<Seq<char>>) -> bool {
    exists|ks: Seq<&String>| #[trigger] each_once(ks, m.dom()) && ns == ks.map_values(|k: &String| k@)
}
impl<'a, K, V> Slot<'a, K, V> {
    #[verifier::external_body]
    pub fn remove(self) -> (r: V)
        ensures r == old(self.m)@[self.k], final(self.m)@ == old(self.m)@.remove(self.k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut<'b>(&'b mut self) -> (r: &'b mut V)
        ensures *r == old(self).m@[old(self).k], final(self).k == old(self).k,
            final(self).m@ == old(self).m@.insert(old(self).k, *final(r)), *final(final(self).m) == *final(old(self).m)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_mut(self) -> (r: &'a mut V)
        ensures *r == old(self.m)@[self.k], final(self.m)@ == old(self.m)@.insert(self.k, *final(r))
    { unimplemented!() }
}
impl<'a, K, V> VacantSlot<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V)
        ensures *r == v, final(self.m)@ == old(self.m)@.insert(self.k, *final(r))
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct AHashSet<K> { m: std::collections::HashSet<K> }
pub uninterp spec fn aset<K>(m: &AHashSet<K>) -> Set<K>;
impl<K> View for AHashSet<K> {
    type V = Set<K>;
    open spec fn view(&self) -> Set<K> { aset(self) }
}
impl<K> AHashSet<K> {
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Set::<K>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool)
        ensures r == self@.contains(*k)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool)
        ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k)
    { unimplemented!() }
}
