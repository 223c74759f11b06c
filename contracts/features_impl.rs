// ---- features of products, filters on them, results handed out -----------------------------
/*@item js_interactable/product_producer.rs :: struct ProductProducer @*/
/*@item js_interactable/product_producer.rs :: struct JsProduct @*/
/*@item js_interactable/feature_filter.rs :: struct FeatureFilter @*/
/*@item js_interactable/feature_filter.rs :: enum FilterData @*/

pub open spec fn f64_of_f32(x: f32) -> f64 { x as f64 }
#[verifier::external_body]
pub fn f64_from_f32(x: f32) -> (r: f64)
    ensures r == wide(x)
{ unimplemented!() }
#[verifier::external_body]
pub fn f64_from_u32(x: u32) -> (r: f64)
    ensures r == whole(x)
{ unimplemented!() }
pub uninterp spec fn wide(x: f32) -> f64;
pub uninterp spec fn whole(x: u32) -> f64;

/// The value of a feature at a position.
pub enum Val { Text(Seq<char>), Float(f32), Int(u32), Nothing }
pub open spec fn feature_len(f: Feature) -> nat {
    match f { Feature::String(l) => l@.len(), Feature::Float(l) => l@.len(), Feature::Integer(l) => l@.len() }
}
pub open spec fn feature_at(f: Feature, i: int) -> Val {
    if 0 <= i < feature_len(f) {
        match f { Feature::String(l) => Val::Text(l@[i]@), Feature::Float(l) => Val::Float(l@[i]), Feature::Integer(l) => Val::Int(l@[i]) }
    } else { Val::Nothing }
}
pub open spec fn named(s: &FeatureSet, name: Seq<char>, f: Feature) -> bool {
    exists|k: String| k@ == name && #[trigger] s.0@.contains_key(k) && s.0@[k] == f
}
/// What a feature set holds under a name, for a position.
pub open spec fn lookup(s: &FeatureSet, name: Seq<char>, i: int) -> Val {
    if exists|f: Feature| #[trigger] named(s, name, f) { feature_at(choose|f: Feature| #[trigger] named(s, name, f), i) } else { Val::Nothing }
}
pub proof fn found(s: &FeatureSet, name: Seq<char>)
    ensures
        forall|k: String, i: int| #![trigger s.0@.contains_key(k), lookup(s, name, i)] s.0@.contains_key(k) && k@ == name ==> lookup(s, name, i) == feature_at(s.0@[k], i),
        forall|k: String| #[trigger] s.0@.contains_key(k) && k@ == name ==> named(s, name, s.0@[k]),
        (forall|k: String| #[trigger] s.0@.contains_key(k) ==> k@ != name) ==> forall|i: int| #[trigger] lookup(s, name, i) == Val::Nothing,
{
    broadcast use string_ext;
    assert forall|k: String, i: int| #![trigger s.0@.contains_key(k), lookup(s, name, i)] s.0@.contains_key(k) && k@ == name implies lookup(s, name, i) == feature_at(s.0@[k], i) by {
        assert(named(s, name, s.0@[k]));
    }
}
pub open spec fn shown(v: FeatureValue) -> Val {
    match v { FeatureValue::String(s) => Val::Text(s@), FeatureValue::Float(x) => Val::Float(x), FeatureValue::Integer(x) => Val::Int(x) }
}
pub open spec fn shown_opt(v: Option<FeatureValue>) -> Val { match v { Some(v) => shown(v), None => Val::Nothing } }
pub open spec fn js_of(v: Val) -> Option<JsValue> {
    match v { Val::Text(s) => Some(js_str(s)), Val::Float(x) => Some(js_f32(x)), Val::Int(x) => Some(js_f64(whole(x))), Val::Nothing => None }
}

impl Feature {
/*@fn data/features.rs :: impl Feature :: fn get
@opt ret = r
@bind & self , $i : usize
@sub? FeatureValue :: String ( $item ) ==> FeatureValue::String($item.as_str())
@spec
    ensures shown_opt(r) == feature_at(*self, $i as int),
@*/
}
impl FeatureSet {
/*@fn data/features.rs :: impl FeatureSet :: fn get
@opt ret = r
@bind & 'a self , $p : & Product < '_ > , $key : & str
@sub? FeatureValue :: String ( $$e ) , ==> FeatureValue::String(($$e).as_str()),
@spec
    ensures shown_opt(r) == lookup(self, $key@, $p.serialization_id as int),
@start
    proof { found(self, $key@); }
@*/
/*@fn data/features.rs :: impl FeatureSet :: fn get_js
@opt ret = r
@bind & self , $p : & Product < '_ > , $key : & str
@sub? list . get ( id ) ? . as_str ( ) . into ( ) ==> js_from_str(list.get(id)?.as_str())
@sub? n . into ( ) ==> js_from_f32(n)
@sub? f64 :: from ( $$n ) ==> f64_from_u32($$n)
@spec
    ensures r == js_of(lookup(self, $key@, $p.serialization_id as int)),
@start
    proof { found(self, $key@); }
@*/
/*@fn data/features.rs :: impl FeatureSet :: fn get_feature
@opt ret = r
@bind & self , $key : & str
@spec
    ensures match r { Some(f) => named(self, $key@, *f), None => forall|f: Feature| !#[trigger] named(self, $key@, f) },
@*/
/*@fn data/features.rs :: impl FeatureSet :: fn new_empty
@opt ret = r
@spec
    ensures forall|n: Seq<char>| #[trigger] column(&r, n).len() == 0, forall|n: Seq<char>, f: Feature| !#[trigger] named(&r, n, f),
@*/
/*@fn data/features.rs :: impl FeatureSet :: fn add_int
@bind & mut self , $key : & str , $v :
@spec
    requires forall|f: Feature| #[trigger] named(old(self), $key@, f) ==> f is Integer,
    ensures appended(old(self), final(self), $key@, Val::Int($v)), forall|f: Feature| #[trigger] named(final(self), $key@, f) ==> f is Integer,
@start
    let ghost s0 = *self;
    broadcast use string_ext;
    proof { assert forall|k: String| #[trigger] self.0@.contains_key(k) && k@ == $key@ implies named(self, $key@, self.0@[k]) by { } }
@end
    proof {
        if has_name(&s0, $key@) {
            let k = choose|k: String| #[trigger] s0.0@.contains_key(k) && k@ == $key@;
            assert(exists|f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f));
            let f = choose|f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f);
            assert(self.0@[k] == f);
            assert(pushed(old_value(&s0, k), f, Val::Int($v)));
        } else {
            assert(exists|k: String, f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f) && k@ == $key@);
            let (k, f) = choose|k: String, f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f) && k@ == $key@;
            assert(self.0@[k] == f);
            assert(f->Integer_0@ == seq![$v]);
            assert(pushed(None, f, Val::Int($v)));
        }
        added(&s0, self, $key@, Val::Int($v));
    }
@*/
/*@fn data/features.rs :: impl FeatureSet :: fn add_float
@bind & mut self , $key : & str , $v :
@spec
    requires forall|f: Feature| #[trigger] named(old(self), $key@, f) ==> f is Float,
    ensures appended(old(self), final(self), $key@, Val::Float($v)), forall|f: Feature| #[trigger] named(final(self), $key@, f) ==> f is Float,
@start
    let ghost s0 = *self;
    broadcast use string_ext;
    proof { assert forall|k: String| #[trigger] self.0@.contains_key(k) && k@ == $key@ implies named(self, $key@, self.0@[k]) by { } }
@end
    proof {
        if has_name(&s0, $key@) {
            let k = choose|k: String| #[trigger] s0.0@.contains_key(k) && k@ == $key@;
            assert(exists|f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f));
            let f = choose|f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f);
            assert(self.0@[k] == f);
            assert(pushed(old_value(&s0, k), f, Val::Float($v)));
        } else {
            assert(exists|k: String, f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f) && k@ == $key@);
            let (k, f) = choose|k: String, f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f) && k@ == $key@;
            assert(self.0@[k] == f);
            assert(f->Float_0@ == seq![$v]);
            assert(pushed(None, f, Val::Float($v)));
        }
        added(&s0, self, $key@, Val::Float($v));
    }
@*/
/*@fn data/features.rs :: impl FeatureSet :: fn add_string
@bind & mut self , $key : & str , $v :
@spec
    requires forall|f: Feature| #[trigger] named(old(self), $key@, f) ==> f is String,
    ensures appended(old(self), final(self), $key@, Val::Text($v@)), forall|f: Feature| #[trigger] named(final(self), $key@, f) ==> f is String,
@start
    let ghost s0 = *self;
    broadcast use string_ext;
    proof { assert forall|k: String| #[trigger] self.0@.contains_key(k) && k@ == $key@ implies named(self, $key@, self.0@[k]) by { } }
@end
    proof {
        if has_name(&s0, $key@) {
            let k = choose|k: String| #[trigger] s0.0@.contains_key(k) && k@ == $key@;
            assert(exists|f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f));
            let f = choose|f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f);
            assert(self.0@[k] == f);
            assert(f->String_0@.drop_last() =~= s0.0@[k]->String_0@);
            assert(pushed(old_value(&s0, k), f, Val::Text($v@)));
        } else {
            assert(exists|k: String, f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f) && k@ == $key@);
            let (k, f) = choose|k: String, f: Feature| self.0@ == #[trigger] s0.0@.insert(k, f) && k@ == $key@;
            assert(self.0@[k] == f);
            
            assert(pushed(None, f, Val::Text($v@)));
        }
        added(&s0, self, $key@, Val::Text($v@));
    }
@*/
}

pub open spec fn values(f: Feature) -> Seq<Val> { Seq::new(feature_len(f), |i: int| feature_at(f, i)) }
/// All values of a feature, in product order.
pub open spec fn column(s: &FeatureSet, name: Seq<char>) -> Seq<Val> { 
    if exists|f: Feature| #[trigger] named(s, name, f) { values(choose|f: Feature| #[trigger] named(s, name, f)) } else { Seq::empty() }
}
/// `f` is `g` (or nothing yet) with one more value.
pub open spec fn pushed(g: Option<Feature>, f: Feature, v: Val) -> bool {
    match (f, v) {
        (Feature::Integer(l), Val::Int(x)) => match g {
            Some(Feature::Integer(l0)) => l@ == l0@.push(x),
            None => l@ == seq![x],
            _ => false,
        },
        (Feature::Float(l), Val::Float(x)) => match g {
            Some(Feature::Float(l0)) => l@ == l0@.push(x),
            None => l@ == seq![x],
            _ => false,
        },
        (Feature::String(l), Val::Text(x)) => l@.len() > 0 && l@.last()@ == x && match g {
            Some(Feature::String(l0)) => l@.drop_last() == l0@,
            None => l@.len() == 1,
            _ => false,
        },
        _ => false,
    }
}
pub open spec fn has_name(s: &FeatureSet, name: Seq<char>) -> bool { exists|k: String| #[trigger] s.0@.contains_key(k) && k@ == name }
pub open spec fn old_value(s: &FeatureSet, k: String) -> Option<Feature> { if s.0@.contains_key(k) { Some(s.0@[k]) } else { None } }
pub proof fn pushed_values(g: Option<Feature>, f: Feature, v: Val)
    requires pushed(g, f, v)
    ensures values(f) =~= (match g { Some(g) => values(g), None => Seq::empty() }).push(v)
{
    let w = (match g { Some(g) => values(g), None => Seq::empty() }).push(v);
    assert forall|i: int| 0 <= i < values(f).len() implies #[trigger] values(f)[i] == w[i] by {
        if let Feature::String(l) = f {
            if i < l@.len() - 1 { assert(l@.drop_last()[i] == l@[i]); }
        }
    }
}
pub proof fn column_is(s: &FeatureSet, name: Seq<char>, k: String)
    requires s.0@.contains_key(k), k@ == name
    ensures column(s, name) == values(s.0@[k]), forall|f: Feature| #[trigger] named(s, name, f) <==> f == s.0@[k]
{
    broadcast use string_ext;
    assert(named(s, name, s.0@[k]));
}
pub proof fn added(a: &FeatureSet, b: &FeatureSet, name: Seq<char>, v: Val)
    requires exists|k: String, f: Feature| b.0@ == #[trigger] a.0@.insert(k, f) && k@ == name && pushed(old_value(a, k), f, v) && (has_name(a, name) ==> a.0@.contains_key(k))
    ensures appended(a, b, name, v), forall|f: Feature| #[trigger] named(b, name, f) ==> pushed_kind(f, v)
{
    broadcast use string_ext;
    let (k, f) = choose|k: String, f: Feature| b.0@ == #[trigger] a.0@.insert(k, f) && k@ == name && pushed(old_value(a, k), f, v) && (has_name(a, name) ==> a.0@.contains_key(k));
    pushed_values(old_value(a, k), f, v);
    column_is(b, name, k);
    if a.0@.contains_key(k) { column_is(a, name, k); } else { assert(column(a, name) =~= Seq::empty()); }
    assert forall|n: Seq<char>, g: Feature| n != name implies (#[trigger] named(b, n, g) <==> named(a, n, g)) by {
        if named(b, n, g) { let k2 = choose|k2: String| k2@ == n && #[trigger] b.0@.contains_key(k2) && b.0@[k2] == g; assert(a.0@.contains_key(k2)); }
        if named(a, n, g) { let k2 = choose|k2: String| k2@ == n && #[trigger] a.0@.contains_key(k2) && a.0@[k2] == g; assert(b.0@.contains_key(k2)); }
    }
    assert forall|n: Seq<char>| n != name implies #[trigger] column(b, n) == column(a, n) by {
        if exists|g: Feature| #[trigger] named(b, n, g) {
            let g = choose|g: Feature| #[trigger] named(b, n, g);
            assert(named(a, n, g));
            let h = choose|g: Feature| #[trigger] named(a, n, g);
            same_feature(a, n, g, h);
        } else if exists|g: Feature| #[trigger] named(a, n, g) {
            let g = choose|g: Feature| #[trigger] named(a, n, g);
            assert(named(b, n, g));
        }
    }
}
pub proof fn same_feature(s: &FeatureSet, n: Seq<char>, g: Feature, h: Feature)
    requires named(s, n, g), named(s, n, h)
    ensures g == h
{ broadcast use string_ext; }
pub open spec fn pushed_kind(f: Feature, v: Val) -> bool {
    match v { Val::Int(x) => f is Integer, Val::Float(x) => f is Float, Val::Text(x) => f is String, Val::Nothing => false }
}
/// One value added to one feature.
pub open spec fn appended(a: &FeatureSet, b: &FeatureSet, name: Seq<char>, v: Val) -> bool {
    &&& column(b, name) == column(a, name).push(v)
    &&& forall|n: Seq<char>, f: Feature| n != name ==> (#[trigger] named(b, n, f) <==> named(a, n, f))
    &&& forall|n: Seq<char>| n != name ==> #[trigger] column(b, n) == column(a, n)
}

pub proof fn filter_none<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures (forall|x: T| #[trigger] p(x)) ==> s.filter(p) == s
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        filter_none(s.drop_last(), p);
        assert(s.drop_last().push(s.last()) =~= s);
    } else { assert(s =~= Seq::empty()); }
}

/*@fn js_interactable/feature_filter.rs :: impl FeatureFilter :: fn parse :: fn get_value
@opt ret = r
@bind ( $object : & JsValue , $key : & str )
@sub & $k . to_string ( ) . into ( ) ==> &js_from_str($k)
@spec
    ensures r == js_prop(*$object, $key@),
@start
    broadcast use js_str_text;
@*/
/// A filter as described by one entry of the description.
pub open spec fn readable(e: JsValue) -> bool {
    js_array(e) matches Some(a) && js_text(js_item(a, 0)) is Some && js_prop(js_item(a, 1), "exact"@) is Some
}
pub open spec fn described(e: JsValue, f: FeatureFilter) -> bool {
    js_array(e) matches Some(a) && js_text(js_item(a, 0)) == Some(f.feature@) && {
        let v = js_item(a, 1);
        js_prop(v, "exact"@) matches Some(exact) && match (js_prop(v, "from"@), js_prop(v, "to"@)) {
            (Some(from), Some(to)) =>
                if from != js_undefined() || to != js_undefined() { f.data == (FilterData::Range { from, to }) }
                else if exact != js_undefined() { f.data == FilterData::Exact(exact) }
                else { true },
            _ => true,
        }
    }
}

impl FeatureFilter {
/*@fn js_interactable/feature_filter.rs :: impl FeatureFilter :: fn parse
@opt ret = r
@opt loops = 1
@bind fn parse ( $input : & JsObject
@bind let mut $out = Vec :: new ( ) ;
@spec
    ensures match r {
            Some(fs) => fs@.len() == js_entries(*$input).len() && forall|i: int| 0 <= i < fs@.len() ==> described(js_entries(*$input)[i], #[trigger] fs@[i]),
            None => exists|i: int| 0 <= i < js_entries(*$input).len() && !readable(#[trigger] js_entries(*$input)[i]),
        },
@desugar 1 it
@loop 1
    invariant $out@.len() + rem(&it).len() == js_entries(*$input).len(), rem(&it) == js_entries(*$input).skip($out@.len() as int),
        forall|i: int| 0 <= i < $out@.len() ==> described(js_entries(*$input)[i], #[trigger] $out@[i]),
    ensures rem(&it).len() == 0,
    decreases rem(&it).len(),
@in 1
    proof { assert(js_entries(*$input).skip($out@.len() as int)[0] == js_entries(*$input)[$out@.len() as int]); }
@*/
/*@fn js_interactable/feature_filter.rs :: impl FeatureFilter :: fn new_range
@opt ret = r
@bind fn new_range ( $from : JsValue , $to : JsValue , $feature : String
@spec
    ensures r.data == (FilterData::Range { from: $from, to: $to }), r.feature == $feature,
@*/
/*@fn js_interactable/feature_filter.rs :: impl FeatureFilter :: fn new_exactly
@opt ret = r
@bind fn new_exactly ( $v : JsValue , $feature : String
@spec
    ensures r.data == FilterData::Exact($v), r.feature == $feature,
@*/
/*@fn js_interactable/feature_filter.rs :: impl FeatureFilter :: fn filter
@opt ret = r
@bind & 'a self , $iter : $$ty , $features : & 'a FeatureSet
@sub Box < dyn Iterator < Item = & 'a Product < 'a > > + 'a > ==> It<&'a Product<'a>>
@sub Box < dyn Iterator < Item = & 'a Product > + 'a > ==> It<&'a Product<'a>>
@sub? $fs . get_js ( $$g ) . and_then ( | $j | $j . as_f64 ( ) ) ==> opt_as_f64($fs.get_js($$g))
@sub? & $data == exact ==> js_eq(&$data, exact)
@sub? $a <= $b ==> f64_le($a, $b)
@sub? $a >= $b ==> f64_le($b, $a)
@sub $iter . filter ( move | $p | { $$body } ) ==> $iter.filter(move |$p: & &'a Product<'a>| -> (b: bool) ensures b == self.passes($features, *$p), { $$body }, Ghost(self.pred($features)))
@sub Box :: new ( $$e ) ==> ($$e)
@spec
    ensures rem(&r) == rem(&$iter).filter(self.pred($features)),
@start
    proof { filter_none(rem(&$iter), self.pred($features)); }
@*/
    pub open spec fn pred(&self, s: &FeatureSet) -> spec_fn(&Product) -> bool { |p: &Product| self.passes(s, p) }
    /// A product passes the filter.
    pub open spec fn passes(&self, s: &FeatureSet, p: &Product) -> bool {
        let v = js_of(lookup(s, self.feature@, p.serialization_id as int));
        match self.data {
            FilterData::Range { from, to } => {
                let (from, to) = (js_number(from), js_number(to));
                (from is None && to is None) || match opt_number(v) {
                    Some(x) => (from matches Some(f) ==> at_most(f, x)) && (to matches Some(t) ==> at_most(x, t)),
                    None => false,
                }
            },
            FilterData::Exact(e) => match v { Some(v) => js_equal(v, e), None => false },
        }
    }
}

impl ProductProducer {
/*@fn js_interactable/product_producer.rs :: impl ProductProducer :: fn new
@opt ret = r
@bind fn new ( $c : & 'static ProductContainer < 'static > , $list : Vec < usize >
@spec
    ensures r.container == $c, r.to_export == $list, r.index == 0,
@*/
/*@fn js_interactable/product_producer.rs :: impl ProductProducer :: fn next_product
@opt ret = r
@spec
    ensures final(self).container == old(self).container, final(self).to_export == old(self).to_export,
        match r {
            Some(p) => old(self).index < old(self).to_export@.len() && p.serialization_id == old(self).to_export@[old(self).index as int]
                && p.container == old(self).container && p.serialization_id < p.container.products@.len() && final(self).index == old(self).index + 1,
            None => final(self).index == old(self).index
                && (old(self).index >= old(self).to_export@.len() || old(self).to_export@[old(self).index as int] >= old(self).container.products@.len()),
        },
@start
    proof { assert(self.to_export.len() <= usize::MAX); }
@*/
}
impl JsProduct {
    pub open spec fn wf(&self) -> bool { self.serialization_id < self.container.products@.len() && numbered(self.container) }
    pub open spec fn p(&self) -> Product<'static> { self.container.products@[self.serialization_id as int] }
/*@fn js_interactable/product_producer.rs :: impl JsProduct :: fn product
@opt ret = r
@spec
    requires self.wf(),
    ensures *r == self.p(),
@*/
/*@fn js_interactable/product_producer.rs :: impl JsProduct :: fn numeric_feature
@opt ret = r
@bind & self , $key : & str
@sub? FeatureValue :: Float ( $f ) => Some ( f64 :: from ( $f ) ) ==> FeatureValue::Float($f) => Some(f64_from_f32($f))
@sub? FeatureValue :: Integer ( $f ) => Some ( f64 :: from ( $f ) ) ==> FeatureValue::Integer($f) => Some(f64_from_u32($f))
@spec
    requires self.wf(),
    ensures r == (match lookup(&self.container.extra_features, $key@, self.serialization_id as int) {
            Val::Float(x) => Some(wide(x)),
            Val::Int(x) => Some(whole(x)),
            _ => None,
        }),
@*/
/*@fn js_interactable/product_producer.rs :: impl JsProduct :: fn string_feature
@opt ret = r
@bind & self , $key : & str
@spec
    requires self.wf(),
    ensures match lookup(&self.container.extra_features, $key@, self.serialization_id as int) {
            Val::Text(x) => r matches Some(t) && t@ == x,
            _ => r is None,
        },
@*/
/*@fn js_interactable/product_producer.rs :: impl JsProduct :: fn get_title
@opt ret = r
@spec
    requires self.wf(),
    ensures r@ == self.p().title@,
@*/
/*@fn js_interactable/product_producer.rs :: impl JsProduct :: fn get_description
@opt ret = r
@spec
    requires self.wf(),
    ensures r@ == self.p().description@,
@*/
/*@fn js_interactable/product_producer.rs :: impl JsProduct :: fn get_id
@opt ret = r
@spec
    requires self.wf(),
    ensures r@ == self.p().id@,
@*/
}
