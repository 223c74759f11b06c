// ---- sort orders ---------------------------------------------------------------------------

/// What `PartialOrd` is used for here: an order of sort keys in which incomparable is equal.
pub trait Ranked: Sized {
    spec fn ord(a: Self, b: Self) -> Ordering;
    /// `partial_cmp(..).unwrap_or(Equal)`
    fn cmp_or_equal(&self, o: &Self) -> (r: Ordering)
        ensures r == Self::ord(*self, *o);
    proof fn lawful(a: Self, b: Self)
        ensures Self::ord(b, a) == turned(Self::ord(a, b));
}
impl Ranked for f32 {
    open spec fn ord(a: f32, b: f32) -> Ordering { fcmp(a, b) }
    #[verifier::external_body]
    fn cmp_or_equal(&self, o: &f32) -> (r: Ordering) { unimplemented!() }
    proof fn lawful(a: f32, b: f32) { broadcast use fgt_asym; }
}
/// Texts are compared by their characters.
pub uninterp spec fn text_ord(a: Seq<char>, b: Seq<char>) -> Ordering;
pub axiom fn text_ord_lawful(a: Seq<char>, b: Seq<char>)
    ensures text_ord(b, a) == turned(text_ord(a, b)), text_ord(a, b) == Ordering::Equal <==> a == b;
pub broadcast axiom fn text_ord_trans(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires #[trigger] text_ord(a, b) != Ordering::Greater, #[trigger] text_ord(b, c) != Ordering::Greater
    ensures text_ord(a, c) != Ordering::Greater;
impl<'a> Ranked for &'a String {
    open spec fn ord(a: &'a String, b: &'a String) -> Ordering { text_ord(a@, b@) }
    #[verifier::external_body]
    fn cmp_or_equal(&self, o: &&'a String) -> (r: Ordering) { unimplemented!() }
    proof fn lawful(a: &'a String, b: &'a String) { text_ord_lawful(a@, b@); }
}

/// Positions of the products in the catalogue sorted by their keys, ties in catalogue order.
pub open spec fn positions<T>(order: Seq<usize>, keys: Seq<T>, le: spec_fn(T, T) -> bool, p: Seq<int>) -> bool {
    &&& perm(p, keys.len()) && order.len() == keys.len()
    &&& forall|k: int| 0 <= k < p.len() ==> order[#[trigger] p[k]] == k
    &&& total_on(le, keys) ==> {
        &&& forall|i: int, j: int| 0 <= i < j < p.len() ==> le(keys[#[trigger] p[i]], keys[#[trigger] p[j]])
        &&& forall|i: int, j: int| 0 <= i < j < p.len() && le(keys[#[trigger] p[j]], keys[#[trigger] p[i]]) ==> p[i] < p[j]
    }
}
pub open spec fn keys_of<'a, T, M: Fn(&'a Product<'a>, &'a FeatureSet) -> T>(maker: M, c: &'a ProductContainer<'a>, keys: Seq<T>) -> bool {
    keys.len() == c.products@.len() && forall|i: int| 0 <= i < keys.len() ==> call_ensures(maker, (&c.products@[i], &c.extra_features), #[trigger] keys[i])
}
pub open spec fn ordered_by<'a, T, M: Fn(&'a Product<'a>, &'a FeatureSet) -> T>(maker: M, c: &'a ProductContainer<'a>, le: spec_fn(T, T) -> bool, order: Seq<usize>) -> bool {
    exists|keys: Seq<T>, p: Seq<int>| #[trigger] keys_of(maker, c, keys) && #[trigger] positions(order, keys, le, p)
}
pub open spec fn up<T: Ranked>() -> spec_fn(T, T) -> bool { |a: T, b: T| T::ord(a, b) != Ordering::Greater }
pub open spec fn by_first<T>(le: spec_fn(T, T) -> bool) -> spec_fn((T, usize), (T, usize)) -> bool { |a: (T, usize), b: (T, usize)| le(a.0, b.0) }

impl<'a> It<&'a String> {
    /// `map(String::as_str)`
    #[verifier::external_body]
    pub fn as_texts(self) -> (r: It<&'a str>)
        ensures rem(&r).map_values(|s: &str| s@) == rem(&self).map_values(|k: &String| k@)
    { unimplemented!() }
}
impl OrderIndex {
/*@fn classic_indexes/order.rs :: impl OrderIndex :: fn new
@opt ret = r
@spec
    ensures r.orders@ == Map::<String, Vec<usize>>::empty(),
@*/
/*@fn classic_indexes/order.rs :: impl OrderIndex :: fn add_custom_cmp
@opt attr = #[verifier::loop_isolation(false)]
@opt loops = 1
@sub < 'a , T : 'a > ==> <'a, T: 'a, M: Fn(&'a Product<'a>, &'a FeatureSet) -> T, C: Fn(&T, &T) -> Ordering>
@bind ( & mut self , $products : & 'a ProductContainer < 'a > , $maker : & 'a dyn $$m , $cmp : & 'a dyn $$c , $key : String
@sub & 'a dyn Fn ( & 'a Product , & 'a FeatureSet ) -> T ==> &M
@sub & 'a dyn Fn ( & T , & T ) -> std :: cmp :: Ordering , $key : String ==> &C, $key: String, Ghost(le): Ghost<spec_fn(T, T) -> bool>
@sub? . products . iter ( ) . map ( | $prod | { $$body } ) . collect ( ) ==> .products_it().map(|$prod: &'a Product<'a>| -> (r: (T, usize)) requires call_requires(*$maker, ($prod, features)) ensures call_ensures(*$maker, ($prod, features), r.0), r.1 == $prod.serialization_id { $$body }).collect()
@sub? $maker ( $$args ) ==> (*$maker)($$args)
@sub $data . sort_by ( | ( $a , _ ) , ( $b , _ ) | $$body ) ; ==> sort_by(&mut $data, |x: &(T, usize), y: &(T, usize)| -> (o: Ordering) ensures call_ensures(*$cmp, (&x.0, &y.0), o) { let $a = &x.0; let $b = &y.0; $$body }, Ghost(by_first(le)));
@sub? $cmp ( $a , $b ) ==> (*$cmp)($a, $b)
@sub? $data . into_iter ( ) . enumerate ( ) ==> vec_it($data).enumerate()
@bind let mut $order : Vec < usize >
@bind let mut $data : Vec < ( T , usize ) >
@desugar 1 feed
@spec
    requires numbered($products), cmp_is(*$cmp, le),
        forall|i: int| #![trigger $products.products@[i]] 0 <= i < $products.products@.len() ==> call_requires(*$maker, (&$products.products@[i], &$products.extra_features)),
    ensures exists|order: Vec<usize>| final(self).orders@ == #[trigger] old(self).orders@.insert($key, order) && ordered_by(*$maker, $products, le, order@),
@before sort_by (
    let ghost d0 = $data@;
    let ghost keys = Seq::new(d0.len(), |i: int| d0[i].0);
    assert(keys_of(*$maker, $products, keys)) by {
        assert forall|i: int| 0 <= i < keys.len() implies call_ensures(*$maker, (&$products.products@[i], &$products.extra_features), #[trigger] keys[i]) by { let d = d0[i]; }
    }
@after sort_by ( $$sa ) ;
    let ghost ds = $data@;
    let ghost p = choose|p: Seq<int>| #[trigger] reordered(d0, ds, p) && (total_on(by_first(le), d0) ==> sorted_by(by_first(le), d0, ds, p));
    proof {
        assert forall|k: int| 0 <= k < ds.len() implies (#[trigger] ds[k]).1 == p[k] by { assert(0 <= p[k] < d0.len()); assert(d0[p[k]].1 == $products.products@[p[k]].serialization_id); }
        if total_on(le, keys) {
            assert(total_on(by_first(le), d0)) by {
                assert forall|i: int, j: int| 0 <= i < d0.len() && 0 <= j < d0.len() implies #[trigger] by_first(le)(d0[i], d0[j]) || by_first(le)(d0[j], d0[i]) by { assert(le(keys[i], keys[j]) || le(keys[j], keys[i])); }
                assert forall|i: int, j: int, k: int| 0 <= i < d0.len() && 0 <= j < d0.len() && 0 <= k < d0.len()
                    && #[trigger] by_first(le)(d0[i], d0[j]) && #[trigger] by_first(le)(d0[j], d0[k]) implies by_first(le)(d0[i], d0[k]) by { assert(le(keys[i], keys[j]) && le(keys[j], keys[k])); }
            }
            assert forall|i: int, j: int| 0 <= i < j < p.len() implies le(keys[#[trigger] p[i]], keys[#[trigger] p[j]]) by { assert(by_first(le)(ds[i], ds[j])); }
            assert forall|i: int, j: int| 0 <= i < j < p.len() && le(keys[#[trigger] p[j]], keys[#[trigger] p[i]]) implies p[i] < p[j] by { assert(by_first(le)(ds[j], ds[i])); }
        }
    }
@before loop {
    let ghost mut k: int = 0;
    proof { assert(rem(&feed) =~= rem(&feed).skip(0)); }
    let ghost all = rem(&feed);
@loop 1
    invariant
        0 <= k <= ds.len(), $order@.len() == ds.len(), rem(&feed) == all.skip(k),
        forall|j: int| 0 <= j < k ==> $order@[#[trigger] p[j]] == j,
    decreases ds.len() - k,
@in 1
    proof { assert(all.skip(k).skip(1) =~= all.skip(k + 1)); assert(all[k] == (k as usize, ds[k])); assert(0 <= p[k] < ds.len()); }
@endin 1
    proof { k = k + 1; }
@before self . orders . insert
    proof { assert(positions($order@, keys, le, p)); }
@*/
}
impl OrderIndex {
/*@fn classic_indexes/order.rs :: impl OrderIndex :: fn add
@bind ( & mut self , $products : & 'a ProductContainer < 'a > , $maker : & 'a dyn $$m , $key : String
@sub < 'a , T : PartialOrd + 'a > ==> <'a, T: Ranked + 'a, M: Fn(&'a Product<'a>, &'a FeatureSet) -> T>
@sub & 'a dyn Fn ( & 'a Product , & 'a FeatureSet ) -> T ==> &M
@sub? $a . partial_cmp ( $b ) . unwrap_or ( std :: cmp :: Ordering :: Equal ) ==> $a.cmp_or_equal($b)
@sub & | $a , $b | $$body , $key , ==> &|$a: &T, $b: &T| -> (o: Ordering) ensures o == T::ord(*$a, *$b) { $$body }, $key, Ghost(up::<T>())
@spec
    requires numbered($products),
        forall|i: int| #![trigger $products.products@[i]] 0 <= i < $products.products@.len() ==> call_requires(*$maker, (&$products.products@[i], &$products.extra_features)),
    ensures exists|order: Vec<usize>| final(self).orders@ == #[trigger] old(self).orders@.insert($key, order) && ordered_by(*$maker, $products, up::<T>(), order@),
@start
    proof { assert forall|a: T, b: T| #[trigger] T::ord(a, b) == turned(T::ord(b, a)) by { T::lawful(b, a); } }
@*/
/*@fn classic_indexes/order.rs :: impl OrderIndex :: fn get_orders
@opt ret = r
@bind & self , $name : & str
@spec
    ensures match r {
            Some(o) => exists|k: String| k@ == $name@ && #[trigger] self.orders@.contains_key(k) && self.orders@[k] == *o,
            None => forall|k: String| #[trigger] self.orders@.contains_key(k) ==> k@ != $name@,
        },
@*/
/*@fn classic_indexes/order.rs :: impl OrderIndex :: fn options
@opt ret = r
@sub impl Iterator < Item = & str > ==> It<&str>
@sub? . map ( String :: as_str ) ==> .as_texts()
@spec
    ensures names_once(self.orders@, rem(&r).map_values(|s: &str| s@)),
@*/
}
impl<'a> ProductContainer<'a> {
    /// `self.products.iter()`
    pub fn products_it(&'a self) -> (r: It<&'a Product<'a>>)
        ensures rem(&r) == refs(self.products@)
    { it_of(self.products.as_slice()) }
}
