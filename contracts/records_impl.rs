// ---- records: vendors, features, products, the container ---------------------------------------


/// `usize::cmp`
pub trait Cmp { spec fn nat(&self) -> nat; fn order(&self, o: &Self) -> (r: Ordering) ensures r == nat_cmp(self.nat(), o.nat()); }
pub open spec fn nat_cmp(a: nat, b: nat) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
impl Cmp for usize {
    open spec fn nat(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn order(&self, o: &usize) -> (r: Ordering) { self.cmp(o) }
}

// ---- vendors
impl Enc for Vendor {
    type M = Seq<char>;
    open spec fn m(&self) -> Seq<char> { self.name@ }
    open spec fn enc(m: Seq<char>, b: Seq<u8>) -> bool { enc_text(m, b) }
}
impl DecSpec for Vendor {
    open spec fn dec(i: Seq<u8>) -> Dec<Seq<char>> { dec_text(i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) { String::law(m, b, t); }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) { String::law_short(m, b, k); }
    proof fn law_bound(i: Seq<u8>) { String::law_bound(i); }
}
/*@head data/vendor.rs :: impl Serializable for Vendor @*/ {
/*@fn data/vendor.rs :: impl Serializable for Vendor :: fn serialize
@*/
}
pub open spec fn by_number<'a>() -> spec_fn(&'a &'a Vendor, &'a &'a Vendor) -> bool { |a: &'a &'a Vendor, b: &'a &'a Vendor| a.id <= b.id }
/// n ascending numbers below n without repetition are 0, 1, 2, ...
pub proof fn counting_up(s: Seq<nat>, n: nat, i: int)
    requires s.len() == n, 0 <= i < n, forall|a: int| 0 <= a < n ==> #[trigger] s[a] < n, forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] s[a] < #[trigger] s[b]
    ensures s[i] == i
{
    counting_low(s, n, i);
    counting_high(s, n, i);
}
pub proof fn counting_low(s: Seq<nat>, n: nat, i: int)
    requires s.len() == n, 0 <= i < n, forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] s[a] < #[trigger] s[b]
    ensures s[i] >= i
    decreases i
{ if i > 0 { counting_low(s, n, i - 1); assert(s[i - 1] < s[i]); } }
pub proof fn counting_high(s: Seq<nat>, n: nat, i: int)
    requires s.len() == n, 0 <= i < n, forall|a: int| 0 <= a < n ==> #[trigger] s[a] < n, forall|a: int, b: int| 0 <= a < b < n ==> #[trigger] s[a] < #[trigger] s[b]
    ensures s[i] <= i
    decreases n - i
{ if i < n - 1 { counting_high(s, n, i + 1); assert(s[i] < s[i + 1]); } }
/// The vendors of a manager, sorted by number, are the vendors by number.
pub proof fn sorted_vendors<'a>(tags: Map<&'a str, &'a Vendor>, by_id: Seq<&'a Vendor>, vals: Seq<&'a &'a Vendor>, sorted: Seq<&'a &'a Vendor>)
    requires
        vendors_ok(tags, by_id),
        exists|ks: Seq<&&'a str>| #[trigger] each_once(ks, tags.dom()) && ks.len() == tags.dom().len() && vals.len() == ks.len()
            && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vals[i]) == tags[*ks[i]],
        exists|p: Seq<int>| #[trigger] reordered(vals, sorted, p) && (total_on(by_number(), vals) ==> sorted_by(by_number(), vals, sorted, p)),
    ensures sorted.len() == by_id.len(), forall|i: int| 0 <= i < sorted.len() ==> *(#[trigger] sorted[i]) == by_id[i],
{
    broadcast use str_ext;
    let ks = choose|ks: Seq<&&'a str>| #[trigger] each_once(ks, tags.dom()) && ks.len() == tags.dom().len() && vals.len() == ks.len()
            && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vals[i]) == tags[*ks[i]];
    let p = choose|p: Seq<int>| #[trigger] reordered(vals, sorted, p) && (total_on(by_number(), vals) ==> sorted_by(by_number(), vals, sorted, p));
    assert(total_on(by_number(), vals));
    assert forall|i: int| 0 <= i < vals.len() implies (#[trigger] vals[i]).id < by_id.len() && by_id[vals[i].id as int] == *vals[i] && (*ks[i])@ == vals[i].name@ by {
        assert(tags.contains_key(*ks[i]));
    }
    assert forall|i: int, j: int| 0 <= i < vals.len() && 0 <= j < vals.len() && i != j implies (#[trigger] vals[i]).id != (#[trigger] vals[j]).id by {
        if vals[i].id == vals[j].id { assert(*ks[i] == *ks[j]); if i < j { assert(*ks[i] != *ks[j]); } else { assert(*ks[j] != *ks[i]); } }
    }
    let nums = Seq::new(sorted.len(), |i: int| sorted[i].id as nat);
    assert forall|i: int| 0 <= i < nums.len() implies #[trigger] nums[i] < by_id.len() by { assert(sorted[i] == vals[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < nums.len() implies #[trigger] nums[i] < #[trigger] nums[j] by {
        assert(sorted[i] == vals[p[i]] && sorted[j] == vals[p[j]] && p[i] != p[j]);
        assert(by_number()(sorted[i], sorted[j]));
    }
    assert forall|i: int| 0 <= i < sorted.len() implies *(#[trigger] sorted[i]) == by_id[i] by {
        counting_up(nums, by_id.len(), i);
        assert(sorted[i] == vals[p[i]]);
    }
}
/*@head data/vendor.rs :: impl<'a> Serializable for VendorManager<'a>
  @sub Serializable for ==>
@*/ {
/*@fn data/vendor.rs :: impl<'a> Serializable for VendorManager<'a> :: fn serialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind let mut $all : Vec
@sub $all . sort_by ( | $a , $b | $$body ) ; ==> sort_by(&mut $all, |$a: &&&Vendor, $b: &&&Vendor| -> (o: Ordering) ensures o == nat_cmp($a.id as nat, $b.id as nat) { $$body }, Ghost(by_number()));
@sub? . cmp ( ==> .order(
@spec
    requires self.wf(),
    ensures emitted::<Vec<Vendor>>(self.names(), old($outparam).out(), final($outparam).out()),
@start
    let ghost o0 = $outparam.out();
    let ghost ms = self.names();
@before sort_by ( & mut $all
    let ghost vals = $all@;
@before $all . len ( ) . serialize
    let ghost sorted = $all@;
    proof { sorted_vendors(self.tags@, self.by_id@, vals, sorted); }
@after $all . len ( ) . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
    proof { wrote_none::<Vendor>(o1); assert(ms.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == refs(sorted), wrote::<Vendor>(ms.take(it.index@), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
@endin 1
    proof {
        assert(ms[it.index@] == sorted[it.index@].name@);
        wrote_step::<Vendor>(ms.take(it.index@), o1, o2, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof { assert(ms.take(ms.len() as int) =~= ms); wrote_done::<Vendor>(ms, o0, o1, $outparam.out()); }
@*/
}
/*@head data/vendor.rs :: impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'arena>
  @sub ArenaDeserializableCollection < 'arena , Vendor > for ==>
@*/ {
/*@fn data/vendor.rs :: impl<'arena> ArenaDeserializableCollection<'arena, Vendor> for VendorManager<'arena> :: fn deserialize_arena
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind ( $arg : & 'input [ u8 ] , $arena : & 'arena Arena < Vendor > ,
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $tags = AHashMap
@bind let mut $by_id = Vec
@bind for $id in
@sub where 'arena : 'input , ==>
@sub? AHashMap :: with_capacity ( $$cap ) ==> amap_capped($$cap, Ghost(i0.len()))
@sub? Vec :: with_capacity ( $$cap ) ==> vec_capped($$cap, Ghost(i0.len()))
@spec
    ensures decoded(<Vec<Vendor>>::dec($arg@), $arg@, match r { Some((rest, v)) => Some((rest@, v.names())), None => None }),
        r matches Some((rest, v)) ==> dense(v.by_id@) && (v.names().no_duplicates() ==> v.wf()),
@start
    let ghost i0 = $arg@;
    let ghost mut seen: Seq<Seq<char>> = Seq::empty();
@before for
    proof { len_loop_init::<Vendor>(i0, $len as nat, $input@); assert(names($by_id@) =~= seen); assert(seen.no_duplicates()); assert(vendors_ok($tags@, $by_id@)); }
@iter 1 it
@loop 1
    invariant len_loop::<Vendor>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        names($by_id@) == seen, dense($by_id@), seen.no_duplicates() ==> vendors_ok($tags@, $by_id@),
@in 1
    proof { len_loop_step::<Vendor>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat); }
    let ghost tags1 = $tags@;
    let ghost by_id1 = $by_id@;
@endin 1
    proof {
        let v = $by_id@.last();
        assert($by_id@ == by_id1.push(v));
        assert(names($by_id@) =~= seen.push(v.name@));
        assert(exists|k: &'arena str| k@ == v.name@ && $tags@ == #[trigger] tags1.insert(k, v));
        let k = choose|k: &'arena str| k@ == v.name@ && $tags@ == #[trigger] tags1.insert(k, v);
        let seen2 = seen.push(v.name@);
        if seen2.no_duplicates() {
            assert forall|i: int, j: int| 0 <= i < seen.len() && 0 <= j < seen.len() && i != j implies seen[i] != seen[j] by { assert(seen2[i] != seen2[j]); }
            if seen.contains(v.name@) { let i = seen.index_of(v.name@); assert(seen2[i] == seen2[seen.len() as int]); }
            vendors_ok_push(tags1, by_id1, k, v);
        }
        seen = seen2;
    }
@afterloop 1
    proof { len_loop_done::<Vendor>(i0, $len as nat, seen, $input@); }
@*/
}

// ---- features
pub enum FeatureData { Texts(Seq<Seq<char>>), Floats(Seq<f32>), Whole(Seq<nat>) }
pub open spec fn texts(d: Dec<(u8, Seq<Seq<char>>)>) -> Dec<FeatureData> { match d { Dec::Ok(p, n) => Dec::Ok(FeatureData::Texts(p.1), n), Dec::Short => Dec::Short, Dec::Free => Dec::Free } }
pub open spec fn floats(d: Dec<(u8, Seq<f32>)>) -> Dec<FeatureData> { match d { Dec::Ok(p, n) => Dec::Ok(FeatureData::Floats(p.1), n), Dec::Short => Dec::Short, Dec::Free => Dec::Free } }
pub open spec fn whole_row(d: Dec<(u8, Seq<nat>)>) -> Dec<FeatureData> { match d { Dec::Ok(p, n) => Dec::Ok(FeatureData::Whole(p.1), n), Dec::Short => Dec::Short, Dec::Free => Dec::Free } }
impl Enc for Feature {
    type M = FeatureData;
    open spec fn m(&self) -> FeatureData {
        match self { Feature::String(l) => FeatureData::Texts(l.m()), Feature::Float(l) => FeatureData::Floats(l.m()), Feature::Integer(l) => FeatureData::Whole(l.m()) }
    }
    open spec fn enc(m: FeatureData, b: Seq<u8>) -> bool {
        match m {
            FeatureData::Texts(l) => <(u8, Vec<String>)>::enc((0, l), b),
            FeatureData::Floats(l) => <(u8, Vec<f32>)>::enc((1, l), b),
            FeatureData::Whole(l) => <(u8, Vec<u32>)>::enc((2, l), b),
        }
    }
}
impl DecSpec for Feature {
    open spec fn dec(i: Seq<u8>) -> Dec<FeatureData> {
        if i.len() == 0 { Dec::Short }
        else if i[0] == 0 { texts(<(u8, Vec<String>)>::dec(i)) }
        else if i[0] == 1 { floats(<(u8, Vec<f32>)>::dec(i)) }
        else if i[0] == 2 { whole_row(<(u8, Vec<u32>)>::dec(i)) }
        else { Dec::Free }
    }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) {
        match m {
            FeatureData::Texts(l) => { <(u8, Vec<String>)>::law((0, l), b, t); first_byte::<Vec<String>>(0, l, b); }
            FeatureData::Floats(l) => { <(u8, Vec<f32>)>::law((1, l), b, t); first_byte::<Vec<f32>>(1, l, b); }
            FeatureData::Whole(l) => { <(u8, Vec<u32>)>::law((2, l), b, t); first_byte::<Vec<u32>>(2, l, b); }
        }
    }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) {
        match m {
            FeatureData::Texts(l) => { <(u8, Vec<String>)>::law_short((0, l), b, k); first_byte::<Vec<String>>(0, l, b); }
            FeatureData::Floats(l) => { <(u8, Vec<f32>)>::law_short((1, l), b, k); first_byte::<Vec<f32>>(1, l, b); }
            FeatureData::Whole(l) => { <(u8, Vec<u32>)>::law_short((2, l), b, k); first_byte::<Vec<u32>>(2, l, b); }
        }
    }
    proof fn law_bound(i: Seq<u8>) {
        <(u8, Vec<String>)>::law_bound(i);
        <(u8, Vec<f32>)>::law_bound(i);
        <(u8, Vec<u32>)>::law_bound(i);
    }
}
pub proof fn first_byte<B: Enc>(k: u8, l: B::M, b: Seq<u8>)
    requires <(u8, B)>::enc((k, l), b)
    ensures b.len() > 0, b[0] == k
{ }
/*@head data/features.rs :: impl Serializable for Feature @*/ {
/*@fn data/features.rs :: impl Serializable for Feature :: fn serialize
@start
    let ghost o0 = $outparam.out();
@end
    proof {
        match self {
            Feature::String(l) => { let o1 = o0.push(0u8); assert(o1 =~= o0 + seq![0u8]); emitted_pair::<u8, Vec<String>>(0u8, l.m(), o0, o1, $outparam.out()); }
            Feature::Float(l) => { let o1 = o0.push(1u8); assert(o1 =~= o0 + seq![1u8]); emitted_pair::<u8, Vec<f32>>(1u8, l.m(), o0, o1, $outparam.out()); }
            Feature::Integer(l) => { let o1 = o0.push(2u8); assert(o1 =~= o0 + seq![2u8]); emitted_pair::<u8, Vec<u32>>(2u8, l.m(), o0, o1, $outparam.out()); }
        }
    }
@*/
}
/*@head data/features.rs :: impl Deserializable for Feature @*/ {
/*@fn data/features.rs :: impl Deserializable for Feature :: fn deserialize
@bind fn deserialize ( $arg : & [ u8 ] )
@start
    proof { pair_step::<u8, Vec<String>>($arg@); pair_step::<u8, Vec<f32>>($arg@); pair_step::<u8, Vec<u32>>($arg@); }
@*/
}
impl Enc for FeatureSet {
    type M = Map<Seq<char>, FeatureData>;
    open spec fn m(&self) -> Map<Seq<char>, FeatureData> { self.0.m() }
    open spec fn enc(m: Map<Seq<char>, FeatureData>, b: Seq<u8>) -> bool { <AHashMap<String, Feature>>::enc(m, b) }
}
impl DecSpec for FeatureSet {
    open spec fn dec(i: Seq<u8>) -> Dec<Map<Seq<char>, FeatureData>> { <AHashMap<String, Feature>>::dec(i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) { <AHashMap<String, Feature>>::law(m, b, t); }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) { <AHashMap<String, Feature>>::law_short(m, b, k); }
    proof fn law_bound(i: Seq<u8>) { <AHashMap<String, Feature>>::law_bound(i); }
}
/*@head data/features.rs :: impl Serializable for FeatureSet @*/ {
/*@fn data/features.rs :: impl Serializable for FeatureSet :: fn serialize
@*/
}
/*@head data/features.rs :: impl Deserializable for FeatureSet @*/ {
/*@fn data/features.rs :: impl Deserializable for FeatureSet :: fn deserialize
@*/
}

// ---- products
/// A product as stored: trimmed description, title, id, number of its vendor.
pub type Stored = (Seq<char>, (Seq<char>, (Seq<char>, nat)));
pub type Row = (String, (String, (String, usize)));
/// The description as it is stored.
pub open spec fn shortened(s: Seq<char>) -> Seq<char> { choose|r: Seq<char>| limited(s, 100, r) }
pub proof fn limited_once(s: Seq<char>, max: nat, a: Seq<char>, b: Seq<char>)
    requires limited(s, max, a), limited(s, max, b)
    ensures a == b
{
    if encode_utf8(s).len() > max {
        let c = choose|c: int| #[trigger] first_over(s, max, c) && { ||| exists|j: int| #[trigger] last_space(s, c, j) && a == s.take(j) ||| no_space(s, c) && a == s.take(c) };
        let d = choose|c: int| #[trigger] first_over(s, max, c) && { ||| exists|j: int| #[trigger] last_space(s, c, j) && b == s.take(j) ||| no_space(s, c) && b == s.take(c) };
        if c < d { off_mono(s, c + 1, d); }
        if d < c { off_mono(s, d + 1, c); }
        assert(c == d);
        if exists|j: int| #[trigger] last_space(s, c, j) && a == s.take(j) {
            let j = choose|j: int| #[trigger] last_space(s, c, j) && a == s.take(j);
            assert(s[j] == ' ');
            if exists|j: int| #[trigger] last_space(s, c, j) && b == s.take(j) {
                let k = choose|j: int| #[trigger] last_space(s, c, j) && b == s.take(j);
                assert(s[k] == ' ');
            }
        } else {
            if exists|j: int| #[trigger] last_space(s, c, j) && b == s.take(j) {
                let k = choose|j: int| #[trigger] last_space(s, c, j) && b == s.take(j);
                assert(s[k] == ' ');
            }
        }
    }
}
pub proof fn shortened_is(s: Seq<char>, r: Seq<char>)
    requires limited(s, 100, r)
    ensures shortened(s) == r
{ limited_once(s, 100, shortened(s), r); }
/// Every text is shortened to something.
pub proof fn shortened_of(s: Seq<char>)
    ensures limited(s, 100, shortened(s))
{
    if encode_utf8(s).len() <= 100 { assert(limited(s, 100, s)); } else {
        let c = over_from(s, 0);
        let j = space_from(s, c, c);
        if j > 0 { assert(last_space(s, c, j)); assert(limited(s, 100, s.take(j))); } else { assert(limited(s, 100, s.take(c))); }
    }
}
pub proof fn over_from(s: Seq<char>, k: int) -> (c: int)
    requires encode_utf8(s).len() > 100, 0 <= k <= s.len(), off(s, k) <= 100 || k == 0
    ensures first_over(s, 100, c)
    decreases s.len() - k
{
    off_zero(s);
    assert(s.take(s.len() as int) =~= s);
    if k < s.len() {
        if off(s, k + 1) > 100 { k } else { over_from(s, k + 1) }
    } else { 0 }
}
pub proof fn space_from(s: Seq<char>, c: int, k: int) -> (j: int)
    requires 0 <= k <= c < s.len(), forall|i: int| k < i <= c ==> s[i] != ' '
    ensures 0 <= j <= c, j > 0 ==> last_space(s, c, j), j == 0 ==> no_space(s, c)
    decreases k
{
    if k == 0 { 0 } else if s[k] == ' ' { k } else { space_from(s, c, k - 1) }
}
/// A stored description is stored unchanged the next time.
pub proof fn shortened_twice(s: Seq<char>, r: Seq<char>)
    requires limited(s, 100, r)
    ensures shortened(r) == r, encode_utf8(r).len() <= 100
{
    if encode_utf8(s).len() > 100 {
        let c = choose|c: int| #[trigger] first_over(s, 100, c) && { ||| exists|j: int| #[trigger] last_space(s, c, j) && r == s.take(j) ||| no_space(s, c) && r == s.take(c) };
        if exists|j: int| #[trigger] last_space(s, c, j) && r == s.take(j) {
            let j = choose|j: int| #[trigger] last_space(s, c, j) && r == s.take(j);
            off_mono(s, j, c);
        }
    }
    assert(limited(r, 100, r));
    shortened_is(r, r);
}
/// pair_step at every input.
pub proof fn pair_steps<A: DecSpec, B: DecSpec>()
    ensures
        forall|i: Seq<u8>| #[trigger] decoded(A::dec(i), i, None) ==> decoded(<(A, B)>::dec(i), i, None),
        forall|i: Seq<u8>, rest: Seq<u8>, a: A::M| #[trigger] decoded(A::dec(i), i, Some((rest, a))) ==> {
            &&& decoded(B::dec(rest), rest, None) ==> decoded(<(A, B)>::dec(i), i, None)
            &&& forall|rest2: Seq<u8>, b: B::M| #[trigger] decoded(B::dec(rest), rest, Some((rest2, b))) ==>
                    decoded(<(A, B)>::dec(i), i, Some((rest2, (a, b))))
        },
{
    assert forall|i: Seq<u8>| #[trigger] decoded(A::dec(i), i, None) implies decoded(<(A, B)>::dec(i), i, None) by { pair_step::<A, B>(i); }
    assert forall|i: Seq<u8>, rest: Seq<u8>, a: A::M| #[trigger] decoded(A::dec(i), i, Some((rest, a))) implies {
            &&& decoded(B::dec(rest), rest, None) ==> decoded(<(A, B)>::dec(i), i, None)
            &&& forall|rest2: Seq<u8>, b: B::M| #[trigger] decoded(B::dec(rest), rest, Some((rest2, b))) ==>
                    decoded(<(A, B)>::dec(i), i, Some((rest2, (a, b))))
        } by { pair_step::<A, B>(i); }
}
impl<'a> Enc for Product<'a> {
    type M = Stored;
    open spec fn m(&self) -> Stored { (shortened(self.description@), (self.title@, (self.id@, self.vendor.id as nat))) }
    open spec fn enc(m: Stored, b: Seq<u8>) -> bool { Row::enc(m, b) }
}
impl<'a> DecSpec for Product<'a> {
    open spec fn dec(i: Seq<u8>) -> Dec<Stored> { Row::dec(i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) { Row::law(m, b, t); }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) { Row::law_short(m, b, k); }
    proof fn law_bound(i: Seq<u8>) { Row::law_bound(i); }
}
/*@head data/product.rs :: impl Serializable for Product<'_> @*/ {
/*@fn data/product.rs :: impl Serializable for Product<'_> :: fn serialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind for $f in [ $t , $i ]
@sub? crate :: serialize :: serialize_string_with_limit ==> serialize_string_with_limit
@sub in [ $t , $i ] ==> in array_it([$t, $i])
@start
    let ghost o0 = $outparam.out();
    let ghost mut o2 = o0;
    let ghost mut o3 = o0;
@after serialize_string_with_limit ( $$sa ) ;
    let ghost o1 = $outparam.out();
    let ghost d = choose|r: Seq<char>| limited(self.description@, 100, r) && #[trigger] emitted::<&str>(r, o0, o1);
    proof { shortened_is(self.description@, d); }
@iter 1 it
@loop 1
    invariant it.seq() == seq![$t, $i], it.index@ == 0 ==> $outparam.out() == o1, it.index@ == 1 ==> $outparam.out() == o2, it.index@ == 2 ==> $outparam.out() == o3,
        it.index@ >= 1 ==> emitted::<String>(self.title@, o1, o2), it.index@ == 2 ==> emitted::<String>(self.id@, o2, o3),
@endin 1
    proof { if it.index@ == 0 { o2 = $outparam.out(); } else { o3 = $outparam.out(); } }
@end
    proof {
        emitted_pair::<String, usize>(self.id@, self.vendor.id as nat, o2, o3, $outparam.out());
        emitted_pair::<String, (String, usize)>(self.title@, (self.id@, self.vendor.id as nat), o1, o2, $outparam.out());
        assert(emitted::<String>(d, o0, o1)) by {
            let b = choose|b: Seq<u8>| <&str>::enc(d, b) && o1 == #[trigger] (o0 + b);
            assert(String::enc(d, b));
        }
        emitted_pair::<String, (String, (String, usize))>(d, (self.title@, (self.id@, self.vendor.id as nat)), o0, o1, $outparam.out());
        let m = self.m();
        assert(emitted::<Row>(m, o0, $outparam.out()));
        let b = choose|b: Seq<u8>| Row::enc(m, b) && $outparam.out() == #[trigger] (o0 + b);
        assert(<Product<'_>>::enc(m, b));
    }
@*/
}
pub open spec fn row_of(p: &Product) -> Stored { (p.description@, (p.title@, (p.id@, p.vendor.id as nat))) }
/// The vendor of a product is the one of its number.
pub open spec fn sold_by<'a>(p: &Product<'a>, vendors: Seq<&'a Vendor>) -> bool { p.vendor.id < vendors.len() && p.vendor == vendors[p.vendor.id as int] }
impl<'a> Product<'a> {
/*@fn data/product.rs :: impl<'a> Product<'a> :: fn deserialize
@opt ret = r
@bind ( $arg : & 'i [ u8 ] , $number : usize , $vendors : & Arc < VendorManager < 'a >> ,
@spec
    requires dense($vendors.by_id@),
    ensures
        r matches Some((rest, p)) ==> decoded(Row::dec($arg@), $arg@, Some((rest@, row_of(&p)))) && p.serialization_id == $number && sold_by(&p, $vendors.by_id@),
        r is None ==> match Row::dec($arg@) { Dec::Ok(m, n) => m.1.1.1 >= $vendors.by_id@.len(), _ => true },
@start
    proof {
        pair_steps::<String, usize>();
        pair_steps::<String, (String, usize)>();
        pair_steps::<String, (String, (String, usize))>();
    }
@*/
/*@fn data/product.rs :: impl<'a> Product<'a> :: fn serialize_to_sequential_array
@bind ( $list : & [ & Product < '_ > ] ,
@sub? sequential_array :: serialize ==> serialize_ids
@sub? $i . iter ( ) . map ( | $v | $$body ) ==> it_of($i).map(|$v: &&Product<'_>| -> (n: usize) ensures n == $v.serialization_id { $$body })
@spec
    ensures emitted_ids(ids_of($list@), old($outparam).out(), final($outparam).out()),
@start
    let ghost o0 = $outparam.out();
@end
    proof {
        assert forall|s: Seq<usize>| s.len() == $list@.len() && (forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == $list@[i].serialization_id) && #[trigger] emitted_ids(s, o0, $outparam.out())
            implies emitted_ids(ids_of($list@), o0, $outparam.out()) by { assert(s =~= ids_of($list@)); }
    }
@*/
/*@fn data/product.rs :: impl<'a> Product<'a> :: fn deserialize_from_sequential_ids
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind ( $arg : & 'i [ u8 ] , $all : & 'a [ Product < 'a > ] ,
@bind let ( $input , $ids ) =
@bind let mut $products = Vec
@bind for $id in & $ids
@sub? sequential_array :: deserialize ==> deserialize_ids
@sub? in & $ids ==> in it_of($ids.as_slice())
@spec
    ensures
        r matches Some((rest, ps, ids)) ==> decoded(Ids::dec($arg@), $arg@, Some((rest@, nats(ids@)))) && picked($all@, ids@, ps@),
        r is None ==> match Ids::dec($arg@) { Dec::Ok(m, n) => exists|i: int| 0 <= i < m.len() && #[trigger] m[i] >= $all@.len(), _ => true },
@iter 1 it
@loop 1
    invariant it.seq() == refs($ids@), picked($all@, $ids@.take(it.index@), $products@),
@in 1
    assert(nats($ids@)[it.index@] == $ids@[it.index@]);
    let ghost products1 = $products@;
@endin 1
    proof {
        assert($products@ =~= products1.push(&$all@[*$id as int]));
        assert($ids@.take(it.index@ + 1) =~= $ids@.take(it.index@).push(*$id));
    }
@afterloop 1
    assert($ids@.take($ids@.len() as int) =~= $ids@);
@*/
}
/// The products of the given numbers.
pub open spec fn picked<'a>(all: Seq<Product<'a>>, ids: Seq<usize>, ps: Seq<&'a Product<'a>>) -> bool {
    ps.len() == ids.len() && forall|i: int| 0 <= i < ids.len() ==> #[trigger] ids[i] < all.len() && ps[i] == &all[ids[i] as int]
}

// ---- the container
/// The vendors, the products and the features, one after the other.
pub type ContainerParts = (Vec<Vendor>, (Vec<Row>, FeatureSet));
pub type ContainerData = (Seq<Seq<char>>, (Seq<Stored>, Map<Seq<char>, FeatureData>));
pub open spec fn rows_of(s: Seq<Product>) -> Seq<Stored> { s.map_values(|p: Product| row_of(&p)) }
pub open spec fn rows_within(rows: Seq<Stored>, vendors: nat) -> bool { forall|k: int| 0 <= k < rows.len() ==> (#[trigger] rows[k]).1.1.1 < vendors }
impl<'a> ProductContainer<'a> {
    /// Products are numbered by position and refer to vendors of the container.
    pub open spec fn wf(&self) -> bool {
        &&& self.vendors.wf()
        &&& self.products_ok()
    }
    pub open spec fn products_ok(&self) -> bool {
        forall|k: int| 0 <= k < self.products@.len() ==> (#[trigger] self.products@[k]).serialization_id == k && sold_by(&self.products@[k], self.vendors.by_id@)
    }
    /// What is written.
    pub open spec fn data(&self) -> ContainerData { (self.vendors.names(), (models(self.products@), self.extra_features.m())) }
    /// What it says, descriptions in full.
    pub open spec fn full(&self) -> ContainerData { (self.vendors.names(), (rows_of(self.products@), self.extra_features.m())) }
}
pub proof fn rows_encoded<'a>(ms: Seq<Stored>, o1: Seq<u8>, o2: Seq<u8>)
    requires emitted::<Vec<Product<'a>>>(ms, o1, o2)
    ensures emitted::<Vec<Row>>(ms, o1, o2)
{
    let b = choose|b: Seq<u8>| <Vec<Product<'a>>>::enc(ms, b) && o2 == #[trigger] (o1 + b);
    let body = choose|body: Seq<u8>| enc_n::<Product<'a>>(ms, body) && ms.len() <= usize::MAX && b == #[trigger] (varint(ms.len()) + body);
    let ps = choose|ps: Seq<Seq<u8>>| pieces::<Product<'a>>(ms, ps) && body == #[trigger] cat(ps);
    assert forall|i: int| 0 <= i < ms.len() implies #[trigger] Row::enc(ms[i], ps[i]) by { assert(<Product<'a>>::enc(ms[i], ps[i])); }
    assert(pieces::<Row>(ms, ps));
    assert(enc_n::<Row>(ms, body));
    assert(enc_len::<Row>(ms, b));
}
/*@head data/container.rs :: impl<'a> Serializable for ProductContainer<'a>
  @sub Serializable for ==>
@*/ {
/*@fn data/container.rs :: impl<'a> Serializable for ProductContainer<'a> :: fn serialize
@bind $v . serialize ( $outparam ) ; $ps . serialize ( $outparam ) ;
@spec
    requires self.vendors.wf(),
    ensures emitted::<ContainerParts>(self.data(), old($outparam).out(), final($outparam).out()),
@start
    let ghost o0 = $outparam.out();
@after $v . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
@after $ps . serialize ( $outparam ) ;
    let ghost o2 = $outparam.out();
    proof { rows_encoded(models(self.products@), o1, o2); }
@end
    proof {
        emitted_pair::<Vec<Row>, FeatureSet>(models(self.products@), self.extra_features.m(), o1, o2, $outparam.out());
        emitted_pair::<Vec<Vendor>, (Vec<Row>, FeatureSet)>(self.vendors.names(), (models(self.products@), self.extra_features.m()), o0, o1, $outparam.out());
    }
@*/
}
/// A stored product refers to a vendor that is not there.
pub proof fn row_refused(i0: Seq<u8>, n: nat, seen: Seq<Stored>, input: Seq<u8>, left: nat, vendors: nat)
    requires len_loop::<Row>(i0, n, seen, input, left), left > 0, Row::dec(input) matches Dec::Ok(m, k) ==> m.1.1.1 >= vendors
    ensures dec_len::<Row>(i0) matches Dec::Ok(all, k) ==> !rows_within(all, vendors)
{
    if let Dec::Ok(all, k) = dec_len::<Row>(i0) {
        if let Dec::Ok(m, j) = Row::dec(input) {
            if let Dec::Ok(ms, k2) = dec_n::<Row>((left - 1) as nat, input.skip(j as int)) {
                let rest = seq![m] + ms;
                assert(Seq::<Stored>::empty() + (seen + rest) =~= seen + rest);
                assert(all == seen + rest);
                assert(all[seen.len() as int] == m);
            }
        }
    }
}
impl<'a> ProductContainer<'a> {
/*@fn data/container.rs :: impl<'a> ProductContainer<'a> :: fn deserialize
@opt attr = #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind ( $arg : & 'input [ u8 ] , $alloc :
@bind let $vendors = Arc :: new
@bind let ( mut $input , $count ) = usize :: deserialize ( $src )
@bind let mut $products = Vec
@sub where 'outerarena : 'a , 'a : 'input , ==>
@sub $super . alloc ( Arena :: new ( ) ) ==> $super.alloc_arena()
@spec
    ensures
        loads(ContainerParts::dec($arg@), $arg@, match r { Some((rest, c)) => Some((rest@, c)), None => None }),
@start
    let ghost mut seen: Seq<Stored> = Seq::empty();
    proof {
        pair_steps::<Vec<Row>, FeatureSet>();
        pair_steps::<Vec<Vendor>, (Vec<Row>, FeatureSet)>();
    }
@before let ( mut $inputx , $countx ) = usize :: deserialize
    let ghost i0 = $src@;
    let ghost vs = $vendors.by_id@;
@before for
    proof { len_loop_init::<Row>(i0, $count as nat, $input@); assert(rows_of($products@) =~= seen); }
@iter 1 it
@loop 1
    invariant len_loop::<Row>(i0, $count as nat, seen, $input@, ($count - it.index@) as nat), seen.len() == it.index@,
        rows_of($products@) == seen,
        forall|k: int| 0 <= k < $products@.len() ==> (#[trigger] $products@[k]).serialization_id == k && sold_by(&$products@[k], vs),
@in 1
    let ghost products1 = $products@;
    proof {
        len_loop_step::<Row>(i0, $count as nat, seen, $input@, ($count - it.index@) as nat);
        if Row::dec($input@) matches Dec::Ok(m, k) ==> m.1.1.1 >= vs.len() { row_refused(i0, $count as nat, seen, $input@, ($count - it.index@) as nat, vs.len()); }
    }
@endin 1
    proof {
        assert($products@ == products1.push($products@.last()));
        assert(rows_of($products@) =~= seen.push(row_of(&$products@.last())));
        seen = rows_of($products@);
    }
@afterloop 1
    proof { len_loop_done::<Row>(i0, $count as nat, seen, $input@); }
@*/
}
/// What loading returns, given what was written (the contract of deserialize).
pub open spec fn loads<'b>(d: Dec<ContainerData>, i: Seq<u8>, r: Option<(Seq<u8>, ProductContainer<'b>)>) -> bool {
    &&& r matches Some((rest, c)) ==> decoded(d, i, Some((rest, c.full()))) && c.products_ok() && dense(c.vendors.by_id@)
            && (c.vendors.names().no_duplicates() ==> c.wf())
    &&& r is None ==> match d { Dec::Ok(x, n) => !rows_within(x.1.0, x.0.len()), _ => true }
}
pub open spec fn same_products(a: Seq<Product>, b: Seq<Product>) -> bool {
    a.len() == b.len() && forall|k: int| #![trigger b[k]] 0 <= k < a.len() ==> same_product(&a[k], &b[k])
}
pub proof fn same_rows<'a, 'b>(c: ProductContainer<'a>, d: ProductContainer<'b>)
    requires c.products_ok(), d.products_ok(), d.full() == c.data()
    ensures same_products(c.products@, d.products@), rows_within(models(c.products@), c.vendors.names().len())
{
    let rows = models(c.products@);
    assert(rows_of(d.products@).len() == d.products@.len());
    assert forall|k: int| #![trigger d.products@[k]] 0 <= k < c.products@.len() implies same_product(&c.products@[k], &d.products@[k]) by {
        assert(rows_of(d.products@)[k] == rows[k]);
        assert(sold_by(&c.products@[k], c.vendors.by_id@));
        assert(sold_by(&d.products@[k], d.vendors.by_id@));
        let v = d.products@[k].vendor.id;
        assert(c.vendors.names()[v as int] == d.vendors.names()[v as int]);
        shortened_of(c.products@[k].description@);
    }
    rows_refer(c);
}
pub proof fn rows_refer<'a>(c: ProductContainer<'a>)
    requires c.products_ok()
    ensures rows_within(models(c.products@), c.vendors.names().len())
{
    assert forall|k: int| 0 <= k < models(c.products@).len() implies (#[trigger] models(c.products@)[k]).1.1.1 < c.vendors.names().len() by { assert(sold_by(&c.products@[k], c.vendors.by_id@)); }
}
pub proof fn container_read<'a, 'b>(c: ProductContainer<'a>, x: Dec<ContainerData>, i: Seq<u8>, n: nat, r: Option<(Seq<u8>, ProductContainer<'b>)>)
    requires c.wf(), n <= i.len(), x == Dec::<ContainerData>::Ok(c.data(), n), loads(x, i, r)
    ensures r matches Some((rest, d)) && rest == i.skip(n as int) && survived(c, d)
{
    rows_refer(c);
    assert(r is Some);
    same_rows(c, (r->0).1);
}
pub open spec fn survived(c: ProductContainer, d: ProductContainer) -> bool {
    d.wf() && d.vendors.names() == c.vendors.names() && d.extra_features.m() == c.extra_features.m() && same_products(c.products@, d.products@)
}
/// P07: a saved container is read back: the same products in the same order, trimmed
/// descriptions, the same vendors under the same numbers, the same values of every feature.
#[verifier::rlimit(60)]
#[verifier::spinoff_prover]
pub proof fn container_survives<'a, 'b>(c: ProductContainer<'a>, b: Seq<u8>, t: Seq<u8>, r: Option<(Seq<u8>, ProductContainer<'b>)>)
    requires c.wf(), ContainerParts::enc(c.data(), b), loads(ContainerParts::dec(b + t), b + t, r)
    ensures r matches Some((rest, d)) && rest == t && survived(c, d)
{
    let i = b + t;
    container_law(c.data(), b, t);
    container_read(c, ContainerParts::dec(i), i, b.len(), r);
    assert(i.skip(b.len() as int) =~= t);
}
pub proof fn container_law(d: ContainerData, b: Seq<u8>, t: Seq<u8>)
    requires ContainerParts::enc(d, b)
    ensures ContainerParts::dec(b + t) == Dec::<ContainerData>::Ok(d, b.len()), b.len() <= (b + t).len()
{ ContainerParts::law(d, b, t); }
/// q is p as loaded.
pub open spec fn same_product(p: &Product, q: &Product) -> bool {
    q.title@ == p.title@ && q.id@ == p.id@ && q.serialization_id == p.serialization_id && limited(p.description@, 100, q.description@)
        && q.vendor.id == p.vendor.id && q.vendor.name@ == p.vendor.name@
}
pub open spec fn is_limited(d: Seq<char>) -> bool { exists|s: Seq<char>| #[trigger] limited(s, 100, d) }
/// P08: saving what was loaded writes the same data, so loading it again changes nothing further.
pub proof fn container_settles<'a>(c: ProductContainer<'a>)
    requires forall|k: int| 0 <= k < c.products@.len() ==> is_limited((#[trigger] c.products@[k]).description@)
    ensures c.data() == c.full()
{
    assert forall|k: int| 0 <= k < c.products@.len() implies #[trigger] models(c.products@)[k] == row_of(&c.products@[k]) by {
        let s = choose|s: Seq<char>| limited(s, 100, c.products@[k].description@);
        shortened_twice(s, c.products@[k].description@);
    }
    assert(models(c.products@) =~= rows_of(c.products@));
}
/// P05: a truncated container is refused.
pub proof fn container_truncated<'b>(d: ContainerData, b: Seq<u8>, k: int, r: Option<(Seq<u8>, ProductContainer<'b>)>)
    requires ContainerParts::enc(d, b), 0 <= k < b.len(), loads(ContainerParts::dec(b.take(k)), b.take(k), r)
    ensures r is None
{ ContainerParts::law_short(d, b, k); }
/// Feature data is the list of values.
pub proof fn feature_values(a: Feature, b: Feature, k: int)
    requires a.m() == b.m()
    ensures match (a, b) {
            (Feature::String(x), Feature::String(y)) => x@.len() == y@.len() && (0 <= k < x@.len() ==> x@[k]@ == y@[k]@),
            (Feature::Float(x), Feature::Float(y)) => x@.len() == y@.len() && (0 <= k < x@.len() ==> x@[k] == y@[k]),
            (Feature::Integer(x), Feature::Integer(y)) => x@.len() == y@.len() && (0 <= k < x@.len() ==> x@[k] == y@[k]),
            _ => false,
        }
{
    match (a, b) {
        (Feature::String(x), Feature::String(y)) => { assert(models(x@).len() == models(y@).len()); if 0 <= k < x@.len() { assert(models(x@)[k] == models(y@)[k]); } }
        (Feature::Float(x), Feature::Float(y)) => { assert(models(x@).len() == models(y@).len()); if 0 <= k < x@.len() { assert(models(x@)[k] == models(y@)[k]); } }
        (Feature::Integer(x), Feature::Integer(y)) => { assert(models(x@).len() == models(y@).len()); if 0 <= k < x@.len() { assert(models(x@)[k] == models(y@)[k]); } }
        _ => { }
    }
}
