// ---- from a raw catalogue to products, features and classic indexes ---------------------------
/*@item data/raw_parser.rs :: struct CurrencyAmount @*/
/*@item data/raw_parser.rs :: struct ProductPrice @*/
/*@item data/raw_parser.rs :: struct MediaItem @*/
/*@item data/raw_parser.rs :: struct RawProduct @*/
/*@item data/raw_parser.rs :: struct IntermediateRawProduct @*/

/// `str::parse::<f32>`
pub uninterp spec fn as_float(s: Seq<char>) -> Option<f32>;
pub trait ParseFloat {
    spec fn text(&self) -> Seq<char>;
    fn parse_float(&self) -> (r: Option<f32>)
        ensures r == as_float(self.text());
}
impl ParseFloat for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn parse_float(&self) -> (r: Option<f32>) { unimplemented!() }
}

/// The address of the first image, empty without media.
pub open spec fn image_of<'x>(m: Seq<MediaItem<'x>>) -> Seq<char> { if m.len() == 0 { Seq::empty() } else { m[0].url@ } }
/// The parts of a raw product.
pub open spec fn parts<'x>(raw: RawProduct<'x>, r: IntermediateRawProduct<'x>) -> bool {
    &&& r.title@ == raw.title@ && r.description@ == raw.description@ && r.vendor@ == raw.vendor@ && r.id@ == raw.id@
    &&& r.tags == raw.tags && r.options == raw.options
    &&& one_text(r.other_string@, "image_url"@, image_of(raw.media@))
    &&& one_number(r.other_numeric@, "price"@, as_float(raw.price.min.amount@)->0)
}
pub open spec fn one_text<'x>(m: Map<&'x str, &'x str>, name: Seq<char>, v: Seq<char>) -> bool {
    exists|k: &'x str| #[trigger] m.contains_key(k) && k@ == name && m[k]@ == v && m.dom() == Set::<&'x str>::empty().insert(k)
}
pub open spec fn one_number<'x>(m: Map<&'x str, f32>, name: Seq<char>, v: f32) -> bool {
    exists|k: &'x str| #[trigger] m.contains_key(k) && k@ == name && m[k] == v && m.dom() == Set::<&'x str>::empty().insert(k)
}

/*@fn data/raw_parser.rs :: fn to_intermediate
@opt ret = r
@bind ( $input : Vec < RawProduct < '_ > > )
@sub to_intermediate ( ==> to_intermediate<'x>(
@sub RawProduct < '_ > ==> RawProduct<'x>
@sub impl Iterator < Item = IntermediateRawProduct < '_ > > ==> It<IntermediateRawProduct<'x>>
@sub $input . into_iter ( ) . map ( | $raw | { $$body } ) ==> vec_it($input).map(|$raw: RawProduct<'x>| -> (r: IntermediateRawProduct<'x>) requires as_float($raw.price.min.amount@) is Some ensures parts($raw, r) { let ghost whole = $raw; $$body })
@sub? . parse ( ) ==> .parse_float()
@bind $s1 . insert ( "image_url"
@bind $n1 . insert ( "price"
@spec
    requires forall|i: int| 0 <= i < $input@.len() ==> as_float((#[trigger] $input@[i]).price.min.amount@) is Some,
    ensures rem(&r).len() == $input@.len(), forall|i: int| 0 <= i < $input@.len() ==> parts($input@[i], #[trigger] rem(&r)[i]),
@before IntermediateRawProduct { title
    proof {
        assert($s1@.contains_key("image_url") && $s1@.dom() =~= Set::<&'x str>::empty().insert("image_url"));
        assert($n1@.contains_key("price") && $n1@.dom() =~= Set::<&'x str>::empty().insert("price"));
        assert(""@ =~= Seq::<char>::empty()) by { reveal_strlit(""); }
    }
@*/

impl<'a> ProductContainer<'a> {
/*@fn data/container.rs :: impl<'a> ProductContainer<'a> :: fn new
@opt ret = r
@bind ( $ps : Vec < Product < 'a > > , $vs : Arc < VendorManager < 'a > > , $fs : FeatureSet , )
@spec
    ensures r.products == $ps, r.vendors == $vs, r.extra_features == $fs,
@*/
}
impl<'a> ClassicIndexes<'a> {
/*@fn classic_indexes/mod.rs :: impl<'a> ClassicIndexes<'a> :: fn new
@opt ret = r
@bind ( $cs : CategoryIndex < 'a > , $ts : TagIndex < 'a > , $o : OrderIndex , )
@spec
    ensures r.categories == $cs, r.tags == $ts, r.order == $o,
@*/
}

/// The product of a raw product, at its position, with the vendor of its name.
pub open spec fn product_of<'x>(raw: RawProduct<'x>, p: Product<'static>, i: int, vs: &VendorManager<'static>) -> bool {
    &&& p.title@ == raw.title@ && p.description@ == raw.description@ && p.id@ == raw.id@ && p.serialization_id == i
    &&& p.vendor.name@ == raw.vendor@ && p.vendor.id < vs.by_id@.len() && vs.by_id@[p.vendor.id as int] == p.vendor
}
/// The vendor names, each once, in order of appearance.
pub open spec fn vendor_names<'x>(raw: Seq<RawProduct<'x>>) -> Seq<Seq<char>> { firsts(raw.map_values(|r: RawProduct<'x>| r.vendor@)) }
pub open spec fn images<'x>(raw: Seq<RawProduct<'x>>) -> Seq<Val> { raw.map_values(|r: RawProduct<'x>| Val::Text(image_of(r.media@))) }
pub open spec fn prices<'x>(raw: Seq<RawProduct<'x>>) -> Seq<Val> { raw.map_values(|r: RawProduct<'x>| Val::Float(as_float(r.price.min.amount@)->0)) }
pub open spec fn priced<'x>(raw: Seq<RawProduct<'x>>) -> bool { forall|i: int| 0 <= i < raw.len() ==> as_float((#[trigger] raw[i]).price.min.amount@) is Some }
pub open spec fn options_in<'x>(raw: Seq<RawProduct<'x>>) -> Seq<Vec<RawProductOption<'x>>> { raw.map_values(|r: RawProduct<'x>| r.options) }
pub open spec fn tags_in<'x>(raw: Seq<RawProduct<'x>>) -> Seq<Vec<&'x str>> { raw.map_values(|r: RawProduct<'x>| r.tags) }
/// Price and image of every product, and nothing else.
pub open spec fn features_of<'x>(raw: Seq<RawProduct<'x>>, s: &FeatureSet) -> bool { columns(s, images(raw), prices(raw)) }
pub open spec fn columns(s: &FeatureSet, texts: Seq<Val>, numbers: Seq<Val>) -> bool {
    &&& column(s, "image_url"@) == texts && column(s, "price"@) == numbers
    &&& forall|f: Feature| #[trigger] named(s, "image_url"@, f) ==> f is String
    &&& forall|f: Feature| #[trigger] named(s, "price"@, f) ==> f is Float
    &&& forall|n: Seq<char>, f: Feature| #[trigger] named(s, n, f) ==> n == "image_url"@ || n == "price"@
}
/// Everything a catalogue becomes.
pub open spec fn made_from<'x>(raw: Seq<RawProduct<'x>>, c: &ProductContainer<'static>) -> bool {
    &&& c.products@.len() == raw.len() && forall|i: int| 0 <= i < raw.len() ==> product_of(raw[i], #[trigger] c.products@[i], i, &c.vendors)
    &&& c.vendors.wf() && c.vendors.names() == vendor_names(raw)
    &&& features_of(raw, &c.extra_features)
}
pub open spec fn titles(c: &ProductContainer<'static>) -> Seq<&'static String> { c.products@.map_values(|p: Product<'static>| &p.title) }
pub open spec fn price_keys<'x>(raw: Seq<RawProduct<'x>>) -> Seq<f32> { raw.map_values(|r: RawProduct<'x>| as_float(r.price.min.amount@)->0) }
pub open spec fn down() -> spec_fn(f32, f32) -> bool { |a: f32, b: f32| fcmp(b, a) != Ordering::Greater }
pub open spec fn sorted_as<T>(order: Seq<usize>, keys: Seq<T>, le: spec_fn(T, T) -> bool) -> bool { exists|p: Seq<int>| #[trigger] positions(order, keys, le, p) }
/// Three orders: by title, by price, by falling price.
pub open spec fn three_orders<'x>(raw: Seq<RawProduct<'x>>, c: &ProductContainer<'static>, o: Map<String, Vec<usize>>) -> bool {
    &&& o.dom().len() == 3
    &&& exists|k: String| k@ == "Alphabetical"@ && #[trigger] o.contains_key(k) && sorted_as(o[k]@, titles(c), up::<&'static String>())
    &&& exists|k: String| k@ == "Price low to high"@ && #[trigger] o.contains_key(k) && sorted_as(o[k]@, price_keys(raw), up::<f32>())
    &&& exists|k: String| k@ == "Price high to low"@ && #[trigger] o.contains_key(k) && sorted_as(o[k]@, price_keys(raw), down())
}
pub open spec fn classified<'x>(raw: Seq<RawProduct<'x>>, c: &ProductContainer<'static>, x: ClassicIndexes<'static>) -> bool {
    &&& x.tags.tagged(tags_in(raw), c)
    &&& grouped(x.categories.0@, said_by(options_in(raw)), c.products@) && CategoryIndex::numbered_through(x.categories.0@)
    &&& three_orders(raw, c, x.order.orders@)
}
pub proof fn differ()
    ensures "image_url"@ != "price"@, "Alphabetical"@ != "Price low to high"@, "Alphabetical"@ != "Price high to low"@, "Price low to high"@ != "Price high to low"@
{
    reveal_strlit("image_url"); reveal_strlit("price"); reveal_strlit("Alphabetical"); reveal_strlit("Price low to high"); reveal_strlit("Price high to low");
    assert("image_url"@.len() == 9 && "price"@.len() == 5 && "Alphabetical"@.len() == 12 && "Price low to high"@.len() == 17 && "Price high to low"@.len() == 17);
    assert("Price low to high"@[6] == 'l' && "Price high to low"@[6] == 'h');
}
pub proof fn one_entry<K, V>(m: Map<K, V>, k: K)
    requires m.dom() == Set::<K>::empty().insert(k)
    ensures forall|es: Seq<(&K, &V)>| #[trigger] entries(es, m) ==> es.len() == 1 && *es[0].0 == k && *es[0].1 == m[k]
{
    assert forall|es: Seq<(&K, &V)>| #[trigger] entries(es, m) implies es.len() == 1 && *es[0].0 == k && *es[0].1 == m[k] by {
        assert(m.contains_key(k));
        let i = choose|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == k;
        assert forall|j: int| 0 <= j < es.len() implies *(#[trigger] es[j]).0 == k by { assert(m.dom().contains(*es[j].0)); }
        if es.len() > 1 { assert(*es[0].0 != *es[1].0); }
    }
}
pub proof fn text_added(a: &FeatureSet, b: &FeatureSet, v: Val, texts: Seq<Val>, numbers: Seq<Val>)
    requires columns(a, texts, numbers), appended(a, b, "image_url"@, v), forall|f: Feature| #[trigger] named(b, "image_url"@, f) ==> f is String
    ensures columns(b, texts.push(v), numbers)
{ differ(); }
pub proof fn number_added(a: &FeatureSet, b: &FeatureSet, v: Val, texts: Seq<Val>, numbers: Seq<Val>)
    requires columns(a, texts, numbers), appended(a, b, "price"@, v), forall|f: Feature| #[trigger] named(b, "price"@, f) ==> f is Float
    ensures columns(b, texts, numbers.push(v))
{ differ(); }
/// The columns after k products.
pub proof fn columns_step<'x>(raw: Seq<RawProduct<'x>>, k: int)
    requires 0 <= k < raw.len()
    ensures images(raw.take(k + 1)) == images(raw.take(k)).push(Val::Text(image_of(raw[k].media@))),
        prices(raw.take(k + 1)) == prices(raw.take(k)).push(Val::Float(as_float(raw[k].price.min.amount@)->0)),
{
    assert(images(raw.take(k + 1)) =~= images(raw.take(k)).push(Val::Text(image_of(raw[k].media@))));
    assert(prices(raw.take(k + 1)) =~= prices(raw.take(k)).push(Val::Float(as_float(raw[k].price.min.amount@)->0)));
}
pub open spec fn products_of<'x>(raw: Seq<RawProduct<'x>>, ps: Seq<Product<'static>>, vs: &VendorManager<'static>) -> bool {
    ps.len() <= raw.len() && forall|i: int| 0 <= i < ps.len() ==> product_of(raw[i], #[trigger] ps[i], i, vs)
}
pub proof fn vendor_step<'x>(raw: Seq<RawProduct<'x>>, k: int)
    requires 0 <= k < raw.len()
    ensures vendor_names(raw.take(k + 1)) == with_name(vendor_names(raw.take(k)), raw[k].vendor@)
{
    let f = |r: RawProduct<'x>| r.vendor@;
    assert(raw.take(k + 1).map_values(f) =~= raw.take(k).map_values(f).push(raw[k].vendor@));
    firsts_push(raw.take(k).map_values(f), raw[k].vendor@);
}
pub proof fn vendor_known<'x>(raw: Seq<RawProduct<'x>>, k: int)
    requires 0 <= k < raw.len()
    ensures vendor_names(raw).contains(raw[k].vendor@)
{
    let ns = raw.map_values(|r: RawProduct<'x>| r.vendor@);
    firsts_has(ns);
    assert(ns[k] == raw[k].vendor@);
    assert(ns.contains(ns[k]));
}

/// One more order.
pub open spec fn order_added<T>(before: Map<String, Vec<usize>>, after: Map<String, Vec<usize>>, key: String, keys: Seq<T>, le: spec_fn(T, T) -> bool) -> bool {
    exists|order: Vec<usize>| after == #[trigger] before.insert(key, order) && sorted_as(order@, keys, le)
}
pub proof fn sorted_keys<'a, T, M: Fn(&'a Product<'a>, &'a FeatureSet) -> T>(maker: M, c: &'a ProductContainer<'a>, keys: Seq<T>, le: spec_fn(T, T) -> bool, before: Map<String, Vec<usize>>, after: Map<String, Vec<usize>>, key: String)
    requires
        exists|order: Vec<usize>| after == #[trigger] before.insert(key, order) && ordered_by(maker, c, le, order@),
        keys.len() == c.products@.len(),
        forall|i: int, v: T| 0 <= i < keys.len() && #[trigger] call_ensures(maker, (&c.products@[i], &c.extra_features), v) ==> v == keys[i],
    ensures order_added(before, after, key, keys, le)
{
    let order = choose|order: Vec<usize>| after == #[trigger] before.insert(key, order) && ordered_by(maker, c, le, order@);
    let (ks, p) = choose|ks: Seq<T>, p: Seq<int>| #[trigger] keys_of(maker, c, ks) && #[trigger] positions(order@, ks, le, p);
    assert(ks =~= keys);
    assert(after == before.insert(key, order) && sorted_as(order@, keys, le));
}
pub proof fn falling_is<C: Fn(&f32, &f32) -> Ordering>(falling: C)
    requires forall|a: &f32, b: &f32| #[trigger] call_requires(falling, (a, b)), forall|a: &f32, b: &f32, o: Ordering| #[trigger] call_ensures(falling, (a, b), o) ==> o == turned(fcmp(*a, *b))
    ensures cmp_is(falling, down())
{ broadcast use fgt_asym; }
/// A feature reads as its column.
pub proof fn price_read<'x>(raw: Seq<RawProduct<'x>>, s: &FeatureSet, i: int)
    requires features_of(raw, s), 0 <= i < raw.len()
    ensures lookup(s, "price"@, i) == Val::Float(price_keys(raw)[i])
{
    let c = prices(raw);
    assert(c[i] == Val::Float(price_keys(raw)[i]));
    if exists|f: Feature| #[trigger] named(s, "price"@, f) {
        let f = choose|f: Feature| #[trigger] named(s, "price"@, f);
        assert(values(f) == c);
        assert(values(f)[i] == feature_at(f, i));
    }
}
/*@fn data/raw_parser.rs :: fn optimize
@opt ret = r
@opt attr = #[verifier::loop_isolation(false)]
@bind ( $input : Vec < RawProduct < '_ > > , $super : & 'static SuperAlloc , )
@sub optimize ( ==> optimize<'x>(
@sub RawProduct < '_ > ==> RawProduct<'x>
@bind let mut $vendors = VendorManager :: new (
@bind let mut $products : Vec < Product < 'static > >
@bind let $out = $super . alloc_mut (
@bind let mut $options = Vec
@bind . push ( $tags ) ;
@bind let mut $order = OrderIndex :: new (
@bind let mut $tagsfor = Vec :: new ( ) ; for
@sub? for $pr in & $input { ==> for $pr in it_of($input.as_slice()) {
@sub? let $v = $super . alloc ( $w . to_string ( ) ) ; ==> let $v = $super.alloc_text($w);
@sub? for ( $kx , $vx ) in $m { ==> for ($kx, $vx) in map_it($m) {
@sub? . to_owned ( ) ==> .to_string()
@sub? $a . partial_cmp ( $b ) . unwrap_or ( std :: cmp :: Ordering :: Equal ) ==> $a.cmp_or_equal($b)
@sub? $o . add ( $c , & | $p , _ | $$body , $$k . to_string ( ) $$z ) ; ==> let by_title = |$p: &'static Product<'static>, _e: &'static FeatureSet| -> (r: &'static String) ensures r == &$p.title { $$body }; let key = $$k.to_string(); let ghost key_title = key; let ghost before_title = $o.orders@; $o.add($c, &by_title, key); let ghost after_title = $o.orders@; proof { sorted_keys(by_title, $c, titles($c), up::<&'static String>(), before_title, after_title, key_title); }
@sub? $o . add ( $c , & | $p , $e | match $$m { $$arms } , $$k . to_string ( ) $$z ) ; ==> let by_price = |$p: &'static Product<'static>, $e: &'static FeatureSet| -> (r: f32) requires lookup($e, "price"@, $p.serialization_id as int) is Float ensures lookup($e, "price"@, $p.serialization_id as int) == Val::Float(r) { match $$m { $$arms } }; proof { assert forall|i: int| 0 <= i < $c.products@.len() implies #[trigger] call_requires(by_price, (&$c.products@[i], &$c.extra_features)) by { price_read(raw, &$c.extra_features, i); } assert forall|i: int, v: f32| 0 <= i < $c.products@.len() && #[trigger] call_ensures(by_price, (&$c.products@[i], &$c.extra_features), v) implies v == price_keys(raw)[i] by { price_read(raw, &$c.extra_features, i); } } let key = $$k.to_string(); let ghost key_price = key; let ghost before_price = $o.orders@; $o.add($c, &by_price, key); let ghost after_price = $o.orders@; proof { sorted_keys(by_price, $c, price_keys(raw), up::<f32>(), before_price, after_price, key_price); }
@sub? $o . add_custom_cmp ( $c , & | $p , $e | match $$m { $$arms } , & | $a , $b | { $$body } , $$k . to_string ( ) $$z ) ; ==> let by_price = |$p: &'static Product<'static>, $e: &'static FeatureSet| -> (r: f32) requires lookup($e, "price"@, $p.serialization_id as int) is Float ensures lookup($e, "price"@, $p.serialization_id as int) == Val::Float(r) { match $$m { $$arms } }; let falling = |$a: &f32, $b: &f32| -> (o: Ordering) ensures o == turned(fcmp(*$a, *$b)) { $$body }; proof { falling_is(falling); } proof { assert forall|i: int| 0 <= i < $c.products@.len() implies #[trigger] call_requires(by_price, (&$c.products@[i], &$c.extra_features)) by { price_read(raw, &$c.extra_features, i); } assert forall|i: int, v: f32| 0 <= i < $c.products@.len() && #[trigger] call_ensures(by_price, (&$c.products@[i], &$c.extra_features), v) implies v == price_keys(raw)[i] by { price_read(raw, &$c.extra_features, i); } } let key = $$k.to_string(); let ghost key_falling = key; let ghost before_falling = $o.orders@; $o.add_custom_cmp($c, &by_price, &falling, key, Ghost(down())); let ghost after_falling = $o.orders@; proof { sorted_keys(by_price, $c, price_keys(raw), down(), before_falling, after_falling, key_falling); }
@desugar 2 feed
@desugar 3 texts
@desugar 4 numbers
@spec
    requires priced($input@), said_by(options_in($input@)).len() <= usize::MAX,
    ensures made_from($input@, r.0), classified($input@, r.0, r.1),
@start
    let ghost raw = $input@;
    proof { differ(); assert(raw.take(0) =~= Seq::empty()); assert(vendor_names(raw.take(0)) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == refs(raw), $vendors.wf(), $vendors.names() == vendor_names(raw.take(it.index@)),
@endin 1
    proof { vendor_step(raw, it.index@); }
@before loop {
    let ghost steps = rem(&feed);
    let ghost vs = $out.vendors;
    let ghost no_products = $out.products;
    let ghost mut k: int = 0;
    proof {
        assert(raw.take(raw.len() as int) =~= raw);
        assert(steps.skip(0) =~= steps);
        assert(images(raw.take(0)) =~= Seq::empty() && prices(raw.take(0)) =~= Seq::empty());
        assert(column(&$out.extra_features, "image_url"@) =~= Seq::empty() && column(&$out.extra_features, "price"@) =~= Seq::empty());
    }
@loop 2
    invariant
        0 <= k <= raw.len(), rem(&feed) == steps.skip(k), $out.vendors == vs,
        $products@.len() == k, products_of(raw, $products@, &vs),
        $options@.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] $options@[j] == raw[j].options,
        $tagsfor@.len() == k, forall|j: int| 0 <= j < k ==> #[trigger] $tagsfor@[j] == raw[j].tags,
        columns(&$out.extra_features, images(raw.take(k)), prices(raw.take(k))),
    decreases raw.len() - k,
@in 2
    proof { assert(steps.skip(k).skip(1) =~= steps.skip(k + 1)); assert(steps[k].0 == k); assert(parts(raw[k], steps[k].1)); vendor_known(raw, k); columns_step(raw, k); }
@endin 2
    proof { k = k + 1; }
@after let mut texts = map_it ( $m3 ) ;
    let ghost img = Val::Text(image_of(raw[k].media@));
    let ghost t0 = images(raw.take(k));
    let ghost n0 = prices(raw.take(k));
    proof {
        let key = choose|key: &'x str| #[trigger] $m3@.contains_key(key) && key@ == "image_url"@ && $m3@[key]@ == image_of(raw[k].media@) && $m3@.dom() == Set::<&'x str>::empty().insert(key);
        one_entry($m3@, key);
    }
@loop 3
    invariant
        columns(&$out.extra_features, if rem(&texts).len() == 0 { t0.push(img) } else { t0 }, n0), $out.vendors == vs, $out.products == no_products,
        rem(&texts).len() <= 1, rem(&texts).len() == 1 ==> rem(&texts)[0].0@ == "image_url"@ && Val::Text(rem(&texts)[0].1@) == img,
    decreases rem(&texts).len(),
@in 3
    let ghost s3 = $out.extra_features;
@endin 3
    proof { text_added(&s3, &$out.extra_features, img, t0, n0); }
@after let mut numbers = map_it ( $m4 ) ;
    let ghost price = Val::Float(as_float(raw[k].price.min.amount@)->0);
    proof {
        let key = choose|key: &'x str| #[trigger] $m4@.contains_key(key) && key@ == "price"@ && $m4@[key] == as_float(raw[k].price.min.amount@)->0 && $m4@.dom() == Set::<&'x str>::empty().insert(key);
        one_entry($m4@, key);
    }
@loop 4
    invariant
        columns(&$out.extra_features, t0.push(img), if rem(&numbers).len() == 0 { n0.push(price) } else { n0 }), $out.vendors == vs, $out.products == no_products,
        rem(&numbers).len() <= 1, rem(&numbers).len() == 1 ==> rem(&numbers)[0].0@ == "price"@ && Val::Float(rem(&numbers)[0].1) == price,
    decreases rem(&numbers).len(),
@in 4
    let ghost s4 = $out.extra_features;
@endin 4
    proof { number_added(&s4, &$out.extra_features, price, t0.push(img), n0); }
@before $out . products = $products ;
    proof { assert(k == raw.len()); }
@before let $ti = TagIndex :: index (
    proof {
        assert($tagsfor@ =~= tags_in(raw)); assert($options@ =~= options_in(raw)); assert(raw.take(k) =~= raw);
        assert(numbered($out));
    }
@before ( $out , ClassicIndexes :: new (
    proof {
        assert(sorted_as($order.orders@[key_title]@, titles($out), up::<&'static String>()));
        assert(sorted_as($order.orders@[key_price]@, price_keys(raw), up::<f32>()));
        assert(sorted_as($order.orders@[key_falling]@, price_keys(raw), down()));
        assert($order.orders@.dom() =~= Set::empty().insert(key_title).insert(key_price).insert(key_falling));
        assert(key_title@ == "Alphabetical"@ && key_price@ == "Price low to high"@ && key_falling@ == "Price high to low"@);
        assert($order.orders@.contains_key(key_title) && $order.orders@.contains_key(key_price) && $order.orders@.contains_key(key_falling));
        assert($order.orders@.dom().len() == 3);
        assert(three_orders(raw, $out, $order.orders@));
    }
@*/
