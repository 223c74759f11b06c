// ---- the endpoints -------------------------------------------------------------------------
/*@item lib.rs :: type Index @*/


/// `Mutex`: what it holds, and whether a holder of its lock has panicked.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Mutex<T> { v: T }
pub uninterp spec fn inside<T>(m: &Mutex<T>) -> T;
pub uninterp spec fn poisoned<T>(m: &Mutex<T>) -> bool;
pub struct Poisoned { }
impl<T> Mutex<T> {
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<&T, Poisoned>)
        ensures match r { Ok(g) => !poisoned(self) && *g == inside(self), Err(e) => poisoned(self) }
    { unimplemented!() }
}
/// The statics of lib.rs.
pub struct Shared {
    pub index: Mutex<Option<Arc<Index>>>,
    pub classic: Mutex<Option<Arc<ClassicIndexes<'static>>>>,
}
impl Shared {
    pub open spec fn the_index(&self) -> Option<Arc<Index>> { if poisoned(&self.index) { None } else { inside(&self.index) } }
    pub open spec fn the_classic(&self) -> Option<Arc<ClassicIndexes<'static>>> { if poisoned(&self.classic) { None } else { inside(&self.classic) } }
    /// Both indexes are of the same catalogue.
    pub open spec fn wf(&self) -> bool {
        match self.the_index() {
            Some(i) => hold_within(&*i) && match self.the_classic() {
                Some(c) => c.tags.wf() && forall|k: String| #[trigger] c.order.orders@.contains_key(k) ==> c.order.orders@[k]@.len() == i.product_container.products@.len(),
                None => true,
            },
            None => true,
        }
    }
}
/// The gram lists hold products of the catalogue.
pub open spec fn hold_within<'a, G: GramAtom, const N: usize>(i: &GramIndex<'a, G, Product<'a>, N>) -> bool {
    forall|g: [G; N], k: int| #![trigger i.data@[g]@[k]] i.data@.contains_key(g) && 0 <= k < i.data@[g]@.len() ==> i.data@[g]@[k].serialization_id < i.product_container.products@.len()
}
pub proof fn hits_within<'a, G: GramAtom, const N: usize>(i: &GramIndex<'a, G, Product<'a>, N>, answers: Seq<Option<([G; N], f32)>>, h: int)
    requires hold_within(i), 0 <= h < hits(i, answers).len()
    ensures hits(i, answers)[h].0.serialization_id < i.product_container.products@.len()
    decreases answers.len()
{
    let before = hits(i, answers.drop_last());
    if h < before.len() { hits_within(i, answers.drop_last(), h); } else {
        let (g, c) = answers.last()->0;
        let d = i.data@[g]@[h - before.len()];
        assert(listed(i, answers.last())[h - before.len()] == (d, c));
    }
}
pub proof fn found_within<'a, const N: usize>(i: &GramIndex<'a, char, Product<'a>, N>, input: Seq<char>, r: Seq<(&'a Product<'a>, f32)>)
    requires hold_within(i), i.found(input, r)
    ensures forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k]).0.serialization_id < i.product_container.products@.len()
{
    let answers = choose|answers: Seq<Option<([char; N], f32)>>| answers.len() == input.len() && #[trigger] answered(i, input, answers)
        && ranked::<String, Product<'a>>(tally::<String, Product<'a>>(hits(i, answers)), r);
    each_product_once::<String, Product<'a>>(hits(i, answers), r);
    assert forall|k: int| 0 <= k < r.len() implies (#[trigger] r[k]).0.serialization_id < i.product_container.products@.len() by {
        let h = choose|h: int| 0 <= h < hits(i, answers).len() && (#[trigger] hits(i, answers)[h]).0 == r[k].0;
        hits_within(i, answers, h);
    }
}

pub trait Lowered { spec fn text(&self) -> Seq<char>; fn lowered_it(&self) -> (r: It<char>) ensures rem(&r) == lower(self.text()); }
impl Lowered for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn lowered_it(&self) -> (r: It<char>) { unimplemented!() }
}
impl<A, B> It<(A, B)> {
    /// `map(|(v, _)| v)`
    #[verifier::external_body]
    pub fn map_first(self) -> (r: It<A>)
        ensures rem(&r) == rem(&self).map_values(|e: (A, B)| e.0)
    { unimplemented!() }
}
/// `Box::new`
pub fn boxed<T>(t: T) -> (r: T)
    ensures r == t
{ t }
impl CategoryHandler {
    pub open spec fn lets(&self, p: &Product) -> bool { in_options(self, p) }
    pub open spec fn letting<'a>(&self) -> spec_fn(&'a Product<'a>) -> bool { |p: &'a Product<'a>| self.lets(p) }
}
impl TagHandler {
    pub open spec fn lets(&self, p: &Product) -> bool { in_tags(self, p) }
    pub open spec fn letting<'a>(&self) -> spec_fn(&'a Product<'a>) -> bool { |p: &'a Product<'a>| self.lets(p) }
}

pub open spec fn by_key(key: spec_fn(usize) -> int) -> spec_fn(usize, usize) -> bool { |a: usize, b: usize| key(a) <= key(b) }
/// `sort_by_cached_key`: stable
#[verifier::external_body]
pub fn sort_by_key<F: Fn(&usize) -> usize>(v: &mut Vec<usize>, f: F, Ghost(key): Ghost<spec_fn(usize) -> int>)
    requires
        forall|i: int| 0 <= i < old(v)@.len() ==> #[trigger] call_requires(f, (&old(v)@[i],)),
        forall|x: &usize, k: usize| #[trigger] call_ensures(f, (x,), k) ==> k == key(*x),
    ensures exists|p: Seq<int>| #[trigger] sorted_by(by_key(key), old(v)@, final(v)@, p)
{ unimplemented!() }

pub proof fn filter_filter<T>(s: Seq<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool, r: spec_fn(T) -> bool)
    requires forall|x: T| #[trigger] r(x) == (p(x) && q(x))
    ensures s.filter(p).filter(q) == s.filter(r)
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        let s0 = s.drop_last();
        filter_filter(s0, p, q, r);
        if p(s.last()) {
            assert(s0.filter(p).push(s.last()).drop_last() =~= s0.filter(p));
        }
    } else {
        assert(s.filter(p) =~= Seq::empty());
        assert(s.filter(r) =~= Seq::empty());
    }
}
pub proof fn filter_has<T>(s: Seq<T>, p: spec_fn(T) -> bool, k: int) -> (i: int)
    requires 0 <= k < s.filter(p).len()
    ensures 0 <= i < s.len() && s.filter(p)[k] == s[i] && p(s[i])
    decreases s.len()
{
    reveal(Seq::filter);
    let s0 = s.drop_last();
    if k < s0.filter(p).len() { filter_has(s0, p, k) } else { s.len() - 1 }
}
/// A product passes the chosen options, the chosen tags and the first k filters.
pub open spec fn allowed<'a>(c: &CategoryHandler, t: &TagHandler, fs: Seq<FeatureFilter>, k: int, s: &FeatureSet) -> spec_fn(&'a Product<'a>) -> bool {
    |p: &'a Product<'a>| in_chosen(c, t, p) && forall|i: int| 0 <= i < k ==> (#[trigger] fs[i]).passes(s, p)
}
pub open spec fn in_chosen(c: &CategoryHandler, t: &TagHandler, p: &Product) -> bool { in_options(c, p) && in_tags(t, p) }
pub open spec fn in_options(c: &CategoryHandler, p: &Product) -> bool { forall|k: OptionKey| #[trigger] c.active@.contains_key(k) ==> in_option(&option_at(&*c.handle, k), p) }
pub open spec fn in_tags(t: &TagHandler, p: &Product) -> bool { forall|k: usize| #[trigger] t.active@.contains_key(k) ==> in_tag(&t.handle.tags.0@[k as int], p) }
pub open spec fn products_in<'a>(r: Seq<(&'a Product<'a>, f32)>) -> Seq<&'a Product<'a>> { r.map_values(|e: (&'a Product<'a>, f32)| e.0) }
pub open spec fn numbers_of(r: Seq<&Product>) -> Seq<usize> { r.map_values(|p: &Product| p.serialization_id) }
pub open spec fn described_by(o: JsObject, fs: Seq<FeatureFilter>) -> bool {
    fs.len() == js_entries(o).len() && forall|i: int| 0 <= i < fs.len() ==> described(js_entries(o)[i], #[trigger] fs[i])
}
pub open spec fn order_named(c: &ClassicIndexes, name: Seq<char>, o: Seq<usize>) -> bool { exists|k: String| k@ == name && #[trigger] c.order.orders@.contains_key(k) && c.order.orders@[k]@ == o }
pub open spec fn rank(o: Seq<usize>) -> spec_fn(usize) -> int { |i: usize| o[i as int] as int }
/// What the search endpoint hands out.
pub open spec fn handed_out(index: &Index, classic: Option<Arc<ClassicIndexes<'static>>>, query: Seq<char>, c: &CategoryHandler, t: &TagHandler, order: Option<String>, filters: JsObject, p: &ProductProducer) -> bool {
    p.container == index.product_container && p.index == 0
    && exists|r: Seq<(&'static Product<'static>, f32)>, fs: Seq<FeatureFilter>| #[trigger] index.found(lower(query), r) && #[trigger] described_by(filters, fs) && {
        let base = numbers_of(products_in(r).filter(allowed(c, t, fs, fs.len() as int, &index.product_container.extra_features)));
        match order {
            None => p.to_export@ == base,
            Some(name) => classic is Some && exists|o: Seq<usize>, q: Seq<int>| #[trigger] order_named(&*(classic->0), name@, o) && #[trigger] sorted_by(by_key(rank(o)), base, p.to_export@, q),
        }
    }
}
/*@fn lib.rs :: fn search
@opt ret = r
@opt attr = #[verifier::loop_isolation(false)]
@opt loops = 1
@bind ( $input : & str , $categories : & CategoryHandler , $tags : & TagHandler , $order : Option < String > , $filter : & JsObject , )
@bind let $filters = FeatureFilter :: parse
@bind let mut $fr : Box
@bind let $index = lock . as_ref
@bind let mut $results : Vec < usize >
@bind let $found = $index . search (
@sub ( $input : & str , ==> (shared: &Shared, $input: &str,
@sub? SHARED_INDEX ==> shared.index
@sub? SHARED_CLASSIC_INDEX ==> shared.classic
@sub? . chars ( ) . flat_map ( char :: to_lowercase ) ==> .lowered_it()
@sub Box < dyn Iterator < Item = & Product < '_ > > > ==> It<&Product<'_>>
@sub? Box :: new ( $$e ) ==> boxed($$e)
@sub? $r . into_iter ( ) ==> vec_it($r)
@sub? . map ( | ( $v , _ ) | $v ) ==> .map_first()
@sub? . filter ( | $p | $h . is_valid ( $$a ) ) ==> .filter(|$p: &&Product<'_>| -> (b: bool) requires $h.wf() ensures b == $h.lets($p) { $h.is_valid($$a) }, Ghost($h.letting()))
@bind for $filter1 in & $filters
@sub? in & $filters ==> in it_of($filters.as_slice())
@sub? . map ( | $p | $q . serialization_id ) . collect ( ) ==> .map(|$p: &Product<'_>| -> (i: usize) ensures i == $p.serialization_id { $q.serialization_id }).collect()
@sub? $r . sort_by_cached_key ( | $v | $$body ) ; ==> sort_by_key(&mut $r, |$v: &usize| -> (k: usize) requires *$v < the_order.len() ensures k == the_order[*$v as int] { $$body }, Ghost(rank(the_order)));
@spec
    requires shared.wf(), $categories.wf(), $tags.wf(),
    ensures match r {
            Some(p) => shared.the_index() is Some && handed_out(&*(shared.the_index()->0), shared.the_classic(), $input@, $categories, $tags, $order, *$filter, &p),
            None => shared.the_index() is None || (exists|i: int| 0 <= i < js_entries(*$filter).len() && !readable(#[trigger] js_entries(*$filter)[i]))
                || ($order is Some && (shared.the_classic() is None || forall|o: Seq<usize>| !#[trigger] order_named(&*(shared.the_classic()->0), ($order->0)@, o))),
        },
@bind let $ord = $cl . order . get_orders ( $$ga ) ? ;
@bind if let Some ( $oname ) = $order
@before let $ord = $cl . order . get_orders
    let ghost name = $oname@;
@after . get_orders ( $$args ) ? ;
    let ghost the_order = $ord@;
    proof { assert(order_named(&*(shared.the_classic()->0), name, the_order)); }
@before Some ( ProductProducer
    proof {
        assert($index.found(lower($input@), hits));
        assert(described_by(*$filter, fs));
    }
@before let mut $fr
    let ghost hits = $found@;
    let ghost fs = $filters@;
    let ghost base = products_in(hits);
    proof { found_within(&*$index, lower($input@), hits); }
@iter 1 it
@before for $filter1 in
    proof {
        filter_filter(base, $categories.letting(), $tags.letting(), allowed($categories, $tags, fs, 0, &$index.product_container.extra_features));
        filter_filter(base, $tags.letting(), $categories.letting(), allowed($categories, $tags, fs, 0, &$index.product_container.extra_features));
    }
@loop 1
    invariant it.seq() == refs(fs), rem(&$fr) == base.filter(allowed($categories, $tags, fs, it.index@, &$index.product_container.extra_features)),
@in 1
    let ghost k = it.index@;
    let ghost ps = rem(&$fr);
@endin 1
    proof { filter_filter(base, allowed($categories, $tags, fs, k, &$index.product_container.extra_features), fs[k].pred(&$index.product_container.extra_features), allowed($categories, $tags, fs, k + 1, &$index.product_container.extra_features)); }
@before let mut $results
    let ghost got = rem(&$fr);
@before if let Some ( $ord2 )
    let ghost ids = $results@;
    proof {
        assert(ids =~= numbers_of(got));
        assert forall|k: int| 0 <= k < ids.len() implies (#[trigger] ids[k]) < $index.product_container.products@.len() by {
            let i = filter_has(base, allowed($categories, $tags, fs, fs.len() as int, &$index.product_container.extra_features), k);
            assert(base[i] == hits[i].0);
        }
    }
@*/
/*@fn lib.rs :: fn get_categories
@opt ret = r
@sub fn get_categories ( ) ==> fn get_categories(shared: &Shared)
@sub? SHARED_CLASSIC_INDEX ==> shared.classic
@sub? . lock ( ) . unwrap ( ) ==> .lock_unwrap()
@spec
    requires !poisoned(&shared.classic),
    ensures match r {
            Some(h) => shared.the_classic() == Some(h.handle) && h.active@ == Map::<OptionKey, ()>::empty() && h.wf(),
            None => shared.the_classic() is None,
        },
@*/
/*@fn lib.rs :: fn get_tags
@opt ret = r
@sub fn get_tags ( ) ==> fn get_tags(shared: &Shared)
@sub? SHARED_CLASSIC_INDEX ==> shared.classic
@sub? . lock ( ) . unwrap ( ) ==> .lock_unwrap()
@spec
    requires !poisoned(&shared.classic),
    ensures match r {
            Some(h) => shared.the_classic() == Some(h.handle) && h.active@ == Map::<usize, ()>::empty(),
            None => shared.the_classic() is None,
        },
@*/
/*@fn lib.rs :: fn get_orders
@opt ret = r
@sub fn get_orders ( ) ==> fn get_orders(shared: &Shared)
@sub? SHARED_CLASSIC_INDEX ==> shared.classic
@sub? . map ( JsValue :: from ) ==> .to_js()
@spec
    ensures match r {
            Some(v) => shared.the_classic() is Some && listed_names(&*(shared.the_classic()->0), v@),
            None => shared.the_classic() is None,
        },
@*/
/// The names of the orders, each once.
pub open spec fn listed_names(c: &ClassicIndexes, v: Seq<JsValue>) -> bool {
    exists|ns: Seq<Seq<char>>| #[trigger] names_once(c.order.orders@, ns) && v == ns.map_values(|n: Seq<char>| js_str(n))
}
impl<'a> It<&'a str> {
    /// `map(JsValue::from)`
    #[verifier::external_body]
    pub fn to_js(self) -> (r: It<JsValue>)
        ensures rem(&r) == rem(&self).map_values(|s: &str| s@).map_values(|n: Seq<char>| js_str(n))
    { unimplemented!() }
}
impl<T> Mutex<T> {
    /// `lock().unwrap()`
    #[verifier::external_body]
    pub fn lock_unwrap(&self) -> (r: &T)
        requires !poisoned(self)
        ensures *r == inside(self)
    { unimplemented!() }
}

// ---- the suggested tag

/// Whole numbers are exact below 2^24.
pub axiom fn f_zero() ensures f_of(0) == 0.0f32, f_of(1) == 1.0f32;
pub axiom fn f_sum(a: int, b: int)
    requires 0 <= a, 0 <= b, a + b <= 0x100_0000
    ensures fadd(f_of(a), f_of(b)) == f_of(a + b);
/// Lengths and their quotients are numbers; a threshold above zero is not below zero.
pub axiom fn f_numbers(a: int, b: int)
    requires 0 <= a, 0 < b
    ensures !nan(fdiv(f_of(a), f_of(b))), !nan(0.0f32), !nan(0.8f32), !fgt(0.0f32, 0.8f32);
/// Quotients of short lengths compare with four fifths as the fractions do.
pub axiom fn f_four_fifths(a: int, b: int)
    requires 0 <= a <= b, 0 < b < 0x40_0000
    ensures fgt(fdiv(f_of(a), f_of(b)), 0.8f32) <==> 5 * a > 4 * b;
pub trait Letters { spec fn text(&self) -> Seq<char>; fn chars_it(&self) -> (r: It<char>) ensures rem(&r) == self.text(); 
    fn split_it(&self, c: char) -> (r: It<&str>) ensures texts_in(rem(&r)) == split_parts(self.text(), c); }
impl Letters for str {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn chars_it(&self) -> (r: It<char>) { unimplemented!() }
    #[verifier::external_body]
    fn split_it(&self, c: char) -> (r: It<&str>) { unimplemented!() }
}
pub open spec fn texts_in(s: Seq<&str>) -> Seq<Seq<char>> { s.map_values(|p: &str| p@) }
/// The parts of a text between separators.
pub open spec fn split_parts(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![Seq::empty()] } else {
        let p = split_parts(s.drop_last(), c);
        if s.last() == c { p.push(Seq::empty()) } else { p.drop_last().push(p.last().push(s.last())) }
    }
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn count(self) -> (r: usize)
        ensures rem(&self).len() <= usize::MAX, r == rem(&self).len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn zip<U>(self, o: It<U>) -> (r: It<(T, U)>)
        ensures rem(&r).len() == shorter(rem(&self).len(), rem(&o).len()),
            forall|i: int| #![trigger rem(&r)[i]] 0 <= i < rem(&r).len() ==> rem(&r)[i] == (rem(&self)[i], rem(&o)[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce<F: Fn(T, T) -> T>(self, f: F, Ghost(op): Ghost<spec_fn(T, T) -> T>) -> (r: Option<T>)
        requires forall|a: T, b: T| #[trigger] call_requires(f, (a, b)), forall|a: T, b: T, c: T| #[trigger] call_ensures(f, (a, b), c) ==> c == op(a, b)
        ensures r == reduced(rem(&self), op)
    { unimplemented!() }
}
pub open spec fn shorter(a: nat, b: nat) -> nat { if a < b { a } else { b } }
pub open spec fn reduced<T>(s: Seq<T>, op: spec_fn(T, T) -> T) -> Option<T> decreases s.len() {
    if s.len() == 0 { None } else { match reduced(s.drop_last(), op) { Some(a) => Some(op(a, s.last())), None => Some(s.last()) } }
}
pub open spec fn adding() -> spec_fn(f32, f32) -> f32 { |a: f32, b: f32| fadd(a, b) }
/// The positions (of the first n) at which two texts have the same character.
pub open spec fn equal_at(a: Seq<char>, b: Seq<char>, n: nat) -> nat decreases n {
    if n == 0 { 0 } else { equal_at(a, b, (n - 1) as nat) + if a[n - 1] == b[n - 1] { 1nat } else { 0nat } }
}
pub proof fn equal_at_most(a: Seq<char>, b: Seq<char>, n: nat)
    ensures equal_at(a, b, n) <= n
    decreases n
{ if n > 0 { equal_at_most(a, b, (n - 1) as nat); } }
pub proof fn counted_equal(s: Seq<f32>, a: Seq<char>, b: Seq<char>)
    requires s.len() <= 0x100_0000, forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (if a[i] == b[i] { 1.0f32 } else { 0.0f32 })
    ensures match reduced(s, adding()) { Some(x) => s.len() > 0 && x == f_of(equal_at(a, b, s.len()) as int), None => s.len() == 0 }
    decreases s.len()
{
    f_zero();
    if s.len() > 0 {
        let s0 = s.drop_last();
        assert forall|i: int| 0 <= i < s0.len() implies #[trigger] s0[i] == (if a[i] == b[i] { 1.0f32 } else { 0.0f32 }) by { assert(s0[i] == s[i]); }
        counted_equal(s0, a, b);
        equal_at_most(a, b, s0.len());
        let last = if a[s.len() - 1] == b[s.len() - 1] { 1int } else { 0int };
        assert(s.last() == f_of(last)) by { assert(s[s.len() - 1] == s.last()); }
        f_sum(equal_at(a, b, s0.len()) as int, last);
        if s0.len() == 0 { assert(equal_at(a, b, 0) == 0); }
    }
}
/// The fraction of equal characters at equal positions over the shorter length; zero for texts shorter than `least`.
pub open spec fn overlapping(a: Seq<char>, b: Seq<char>, least: nat) -> f32 {
    let n = shorter(a.len(), b.len());
    if n < least { 0.0f32 } else { fdiv(f_of(equal_at(a, b, n) as int), f_of(n as int)) }
}
impl It<f32> {
    pub fn reduce_counted<F: Fn(f32, f32) -> f32>(self, Ghost(a): Ghost<Seq<char>>, Ghost(b): Ghost<Seq<char>>, f: F) -> (r: Option<f32>)
        requires
            forall|x: f32, y: f32| #[trigger] call_requires(f, (x, y)), forall|x: f32, y: f32, z: f32| #[trigger] call_ensures(f, (x, y), z) ==> z == fadd(x, y),
            rem(&self).len() <= 0x100_0000,
            forall|i: int| 0 <= i < rem(&self).len() ==> #[trigger] rem(&self)[i] == (if a[i] == b[i] { 1.0f32 } else { 0.0f32 }),
        ensures match r { Some(x) => rem(&self).len() > 0 && x == f_of(equal_at(a, b, rem(&self).len()) as int), None => rem(&self).len() == 0 },
    {
        proof { counted_equal(rem(&self), a, b); }
        self.reduce(f, Ghost(adding()))
    }
}
/*@fn lib.rs :: fn tag_suggestion :: fn overlap
@opt ret = r
@bind ( $a : & str , $b : & str , $least : usize )
@sub? . chars ( ) ==> .chars_it()
@sub? as f32 ==> .as_f32()
@sub? $u / $v ==> f32_div($u, $v)
@sub? | $u , $v | $u + $v ==> | $u , $v | f32_add($u, $v)
@sub? . map ( | ( $x , $y ) | $$body ) . reduce ( | $p , $q | $$sum ) . unwrap_or ( $z ) ==> .map(|e: (char, char)| -> (v: f32) ensures v == (if e.0 == e.1 { 1.0f32 } else { 0.0f32 }) { let $x = e.0; let $y = e.1; $$body }).reduce_counted(Ghost($a@), Ghost($b@), |$p: f32, $q: f32| -> (s: f32) ensures s == fadd($p, $q) { $$sum }).unwrap_or($z)
@spec
    requires $least > 0, shorter($a@.len(), $b@.len()) <= 0x100_0000,
    ensures r == overlapping($a@, $b@, $least as nat),
@*/
mod js_interactable { pub use super::JSTag; }
/*@item lib.rs :: struct TagSuggestionResult @*/
/// `JSTag::clone` is derived
pub fn same_js_tag(t: &JSTag) -> (r: JSTag)
    ensures r == *t
{ JSTag { handle: t.handle.clone(), index: t.index } }
impl TagSuggestionResult {
/*@fn lib.rs :: impl TagSuggestionResult :: fn get_input
@opt ret = r
@spec
    ensures r@ == self.input@,
@*/
/*@fn lib.rs :: impl TagSuggestionResult :: fn get_tag
@opt ret = r
@sub? self . $f . clone ( ) ==> same_js_tag(&self.$f)
@spec
    ensures r == self.tag,
@*/
}
impl<'a> TagIndex<'a> {
/*@fn classic_indexes/tag.rs :: impl<'a> TagIndex<'a> :: fn iter
@opt ret = r
@sub impl Iterator < Item = & 'a Tag < 'a >> ==> It<&'a Tag<'a>>
@sub? self . 0 . iter ( ) ==> it_of(self.0.as_slice())
@spec
    ensures rem(&r) == refs(self.0@),
@*/
}
/// The overlap of a word and a tag.
pub open spec fn match_of(words: Seq<Seq<char>>, tags: Seq<Tag>, a: int, b: int) -> f32 { overlapping(tags[b].name@, words[a], 3) }
pub open spec fn earlier(i: int, j: int, n: nat, a: int, b: int) -> bool { 0 <= a && 0 <= b < n && (a < i || a == i && b < j) }
/// The best match above four fifths among the pairs looked at so far.
pub open spec fn best_pair(words: Seq<Seq<char>>, tags: Seq<Tag>, i: int, j: int, best: Option<(f32, usize, &str)>) -> bool {
    match best {
        None => forall|a: int, b: int| earlier(i, j, tags.len(), a, b) ==> !fgt(#[trigger] match_of(words, tags, a, b), 0.8f32),
        Some((v, id, w)) => fgt(v, 0.8f32) && (exists|a: int, b: int| earlier(i, j, tags.len(), a, b) && v == #[trigger] match_of(words, tags, a, b) && id == tags[b].id && w@ == words[a])
            && forall|a: int, b: int| earlier(i, j, tags.len(), a, b) ==> !fgt(#[trigger] match_of(words, tags, a, b), v),
    }
}
pub proof fn match_is_number(words: Seq<Seq<char>>, tags: Seq<Tag>, a: int, b: int)
    ensures !nan(match_of(words, tags, a, b)), !nan(0.8f32), !fgt(0.0f32, 0.8f32),
{
    let n = shorter(tags[b].name@.len(), words[a].len());
    f_numbers(0, 1);
    if n >= 3 { f_numbers(equal_at(tags[b].name@, words[a], n) as int, n as int); }
}
pub proof fn best_step(words: Seq<Seq<char>>, tags: Seq<Tag>, i: int, j: int, old_best: Option<(f32, usize, &str)>, new_best: Option<(f32, usize, &str)>)
    requires
        best_pair(words, tags, i, j, old_best), 0 <= i < words.len(), 0 <= j < tags.len(),
        new_best is Some && new_best != old_best ==> (new_best->0).0 == match_of(words, tags, i, j) && (new_best->0).1 == tags[j].id && (new_best->0).2@ == words[i],
        ({
            let x = match_of(words, tags, i, j);
            if fgt(x, 0.8f32) && (old_best is None || fgt(x, (old_best->0).0)) { new_best is Some && (new_best->0).0 == x && (new_best->0).1 == tags[j].id && (new_best->0).2@ == words[i] } else { new_best == old_best }
        }),
    ensures best_pair(words, tags, i, j + 1, new_best),
{
    broadcast use fgt_trans;
    broadcast use fgt_asym;
    let x = match_of(words, tags, i, j);
    match_is_number(words, tags, i, j);
    if old_best is Some {
        let (v, id, w) = old_best->0;
        let (a, b) = choose|a: int, b: int| earlier(i, j, tags.len(), a, b) && v == #[trigger] match_of(words, tags, a, b) && id == tags[b].id && w@ == words[a];
        match_is_number(words, tags, a, b);
        assert(earlier(i, j + 1, tags.len(), a, b) && v == match_of(words, tags, a, b));
    }
    assert(earlier(i, j + 1, tags.len(), i, j));
    assert forall|a: int, b: int| earlier(i, j + 1, tags.len(), a, b) implies !fgt(#[trigger] match_of(words, tags, a, b), match new_best { None => 0.8f32, Some(z) => z.0 }) by {
        match_is_number(words, tags, a, b);
        if a != i || b != j {
            assert(earlier(i, j, tags.len(), a, b));
            let y = match_of(words, tags, a, b);
            if old_best is Some {
                let v = (old_best->0).0;
                assert(!fgt(y, v));
                if new_best != old_best { assert(!fgt(v, x)); }
            } else if new_best is Some {
                assert(!fgt(y, 0.8f32));
                assert(!fgt(0.8f32, x));
            }
        } else {
            if fgt(x, x) { assert(!fgt(x, x)); }
            if new_best is Some && new_best == old_best {
                let v = (new_best->0).0;
                if !fgt(x, 0.8f32) { assert(!fgt(0.8f32, v)); }
            }
        }
    }
}
/// The words and tags as the suggestion looks at them.
pub open spec fn suggested(c: &Arc<ClassicIndexes<'static>>, query: Seq<char>, r: Option<TagSuggestionResult>) -> bool {
    let words = split_parts(query, ' ');
    let tags = c.tags.0@;
    match r {
        None => forall|a: int, b: int| 0 <= a < words.len() && 0 <= b < tags.len() ==> !fgt(#[trigger] match_of(words, tags, a, b), 0.8f32),
        Some(s) => exists|a: int, b: int| 0 <= a < words.len() && 0 <= b < tags.len() && fgt(#[trigger] match_of(words, tags, a, b), 0.8f32)
            && s.input@ == words[a] && s.tag.handle == *c && s.tag.index == tags[b].id
            && forall|a2: int, b2: int| 0 <= a2 < words.len() && 0 <= b2 < tags.len() ==> !fgt(#[trigger] match_of(words, tags, a2, b2), match_of(words, tags, a, b)),
    }
}
/*@fn lib.rs :: fn tag_suggestion
@opt ret = r
@opt attr = #[verifier::loop_isolation(false)]
@opt loops = 2
@bind fn tag_suggestion ( $query : & str )
@bind let $cl = $lk . as_ref
@bind let mut $best : Option
@sub fn tag_suggestion ( $qx : & str ) ==> fn tag_suggestion(shared: &Shared, $qx: &str)
@sub? fn overlap ( $$fa ) -> f32 { $$fb } ==>
@sub? SHARED_CLASSIC_INDEX ==> shared.classic
@sub? . lock ( ) . unwrap ( ) ==> .lock_unwrap()
@sub? $q . split ( $$c ) ==> $q.split_it($$c)
@sub? > 0.8 ==> .more_than(0.8)
@sub? if $u > $v ==> if $u.more_than($v)
@sub? => $u > $v , ==> => $u.more_than($v),
@sub? $m . map ( | ( _ , $id , $w ) | $$res ) ==> (match $m { Some((_, $id, $w)) => Some($$res), None => None })
@spec
    requires !poisoned(&shared.classic),
        shared.the_classic() is Some ==> forall|b: int| 0 <= b < (shared.the_classic()->0).tags.0@.len() ==> (#[trigger] (shared.the_classic()->0).tags.0@[b]).name@.len() <= 0x100_0000,
    ensures match shared.the_classic() { Some(c) => suggested(&c, $query@, r), None => r is None },
@before let mut $best
    let ghost words = split_parts($query@, ' ');
    let ghost tags = $cl.tags.0@;
@iter 1 it
@iter 2 jt
@loop 1
    invariant texts_in(it.seq()) == words, best_pair(words, tags, it.index@, 0, $best),
@loop 2
    invariant jt.seq() == refs(tags), best_pair(words, tags, it.index@, jt.index@, $best),
@in 2
    let ghost before = $best;
    assert(it.seq()[it.index@]@ == texts_in(it.seq())[it.index@]);
@endin 2
    proof { best_step(words, tags, it.index@, jt.index@, before, $best); }
@endin 1
    proof {
        assert forall|a: int, b: int| earlier(it.index@ + 1, 0, tags.len(), a, b) implies earlier(it.index@, tags.len() as int, tags.len(), a, b) by {}
    }
@*/
pub trait MoreThan { spec fn f(&self) -> f32; fn more_than(&self, o: f32) -> (r: bool) ensures r == fgt(self.f(), o); }
impl MoreThan for f32 {
    open spec fn f(&self) -> f32 { *self }
    fn more_than(&self, o: f32) -> (r: bool) { f32_gt(*self, o) }
}
/// Above four fifths, in whole numbers.
pub proof fn above_four_fifths(words: Seq<Seq<char>>, tags: Seq<Tag>, a: int, b: int)
    requires shorter(tags[b].name@.len(), words[a].len()) < 0x40_0000
    ensures ({
        let n = shorter(tags[b].name@.len(), words[a].len());
        fgt(match_of(words, tags, a, b), 0.8f32) <==> (tags[b].name@.len() >= 3 && words[a].len() >= 3 && 5 * equal_at(tags[b].name@, words[a], n) > 4 * n)
    })
{
    let n = shorter(tags[b].name@.len(), words[a].len());
    f_numbers(0, 1);
    equal_at_most(tags[b].name@, words[a], n);
    if n >= 3 { f_four_fifths(equal_at(tags[b].name@, words[a], n) as int, n as int); }
}
