// ---- categories ----------------------------------------------------------------------------

/// The elements of a list, each once, in the order they appear first.
pub open spec fn firsts<T>(s: Seq<T>) -> Seq<T> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else {
        let f = firsts(s.drop_last());
        if f.contains(s.last()) { f } else { f.push(s.last()) }
    }
}
pub proof fn firsts_has<T>(s: Seq<T>)
    ensures forall|x: T| #[trigger] firsts(s).contains(x) <==> s.contains(x),
        forall|i: int, j: int| 0 <= i < j < firsts(s).len() ==> #[trigger] firsts(s)[i] != #[trigger] firsts(s)[j],
        firsts(s).len() <= s.len(),
    decreases s.len()
{
    if s.len() > 0 {
        let s0 = s.drop_last();
        let f0 = firsts(s0);
        let x1 = s.last();
        firsts_has(s0);
        assert(s =~= s0.push(x1));
        assert forall|x: T| #[trigger] firsts(s).contains(x) <==> s.contains(x) by {
            pushed_has(s0, x1, x);
            pushed_has(f0, x1, x);
        }
        assert forall|i: int, j: int| 0 <= i < j < firsts(s).len() implies #[trigger] firsts(s)[i] != #[trigger] firsts(s)[j] by {
            if !f0.contains(x1) && j == f0.len() { assert(f0[i] == firsts(s)[i]); assert(f0.contains(f0[i])); }
        }
    }
}
pub proof fn pushed_has<T>(s: Seq<T>, y: T, x: T)
    ensures s.push(y).contains(x) <==> s.contains(x) || x == y
{
    let t = s.push(y);
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
    if x == y { assert(t[s.len() as int] == x); }
    if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < s.len() { assert(s[i] == x); } }
}
pub proof fn firsts_push<T>(s: Seq<T>, x: T)
    ensures firsts(s.push(x)) == (if firsts(s).contains(x) { firsts(s) } else { firsts(s).push(x) })
{
    assert(s.push(x).drop_last() =~= s);
}

/// What a catalogue says, one after the other: an option name, or a value under a name and
/// the position of the product that has it.
pub type Said = (Seq<char>, Option<(Seq<char>, int)>);
pub open spec fn value_of(n: Seq<char>, v: Seq<char>, i: int) -> Said { (n, Some((v, i))) }
pub open spec fn values_of(n: Seq<char>, vs: Seq<&str>, i: int) -> Seq<Said> { vs.map_values(|v: &str| value_of(n, v@, i)) }
pub open spec fn option_of(o: RawProductOption, i: int) -> Seq<Said> { seq![(o.name@, None::<(Seq<char>, int)>)] + values_of(o.name@, o.values@, i) }
pub open spec fn options_of(os: Seq<RawProductOption>, i: int) -> Seq<Said> decreases os.len() {
    if os.len() == 0 { Seq::empty() } else { options_of(os.drop_last(), i) + option_of(os.last(), i) }
}
pub open spec fn said_by(list: Seq<Vec<RawProductOption>>) -> Seq<Said> decreases list.len() {
    if list.len() == 0 { Seq::empty() } else { said_by(list.drop_last()) + options_of(list.last()@, list.len() - 1) }
}
pub open spec fn names_of(ev: Seq<Said>) -> Seq<Seq<char>> { ev.map_values(|e: Said| e.0) }
/// The values given under a name.
pub open spec fn under(ev: Seq<Said>, n: Seq<char>) -> Seq<Seq<char>> decreases ev.len() {
    if ev.len() == 0 { Seq::empty() } else {
        let u = under(ev.drop_last(), n);
        let e = ev.last();
        if e.0 == n && e.1 is Some { u.push((e.1->0).0) } else { u }
    }
}
/// The products with a value under a name.
pub open spec fn holders(ev: Seq<Said>, n: Seq<char>, v: Seq<char>) -> Seq<int> decreases ev.len() {
    if ev.len() == 0 { Seq::empty() } else {
        let u = holders(ev.drop_last(), n, v);
        let e = ev.last();
        if e.0 == n && e.1 is Some && (e.1->0).0 == v { u.push((e.1->0).1) } else { u }
    }
}
pub proof fn holders_are(ev: Seq<Said>, n: Seq<char>, v: Seq<char>)
    ensures forall|i: int| #[trigger] holders(ev, n, v).contains(i) <==> ev.contains(value_of(n, v, i))
    decreases ev.len()
{
    if ev.len() > 0 {
        let e0 = ev.drop_last();
        holders_are(e0, n, v);
        assert(ev =~= e0.push(ev.last()));
        assert forall|i: int| #[trigger] holders(ev, n, v).contains(i) <==> ev.contains(value_of(n, v, i)) by {
            pushed_has(e0, ev.last(), value_of(n, v, i));
            if ev.last().0 == n && ev.last().1 is Some && (ev.last().1->0).0 == v {
                pushed_has(holders(e0, n, v), (ev.last().1->0).1, i);
                assert(ev.last() == value_of(n, v, (ev.last().1->0).1));
            }
            assert(holders(e0, n, v).contains(i) <==> e0.contains(value_of(n, v, i)));
        }
    }
}
pub proof fn under_are(ev: Seq<Said>, n: Seq<char>)
    ensures forall|v: Seq<char>| #[trigger] under(ev, n).contains(v) <==> exists|i: int| ev.contains(#[trigger] value_of(n, v, i))
    decreases ev.len()
{
    if ev.len() > 0 {
        let e0 = ev.drop_last();
        let e = ev.last();
        under_are(e0, n);
        assert(ev =~= e0.push(e));
        assert forall|v: Seq<char>| #[trigger] under(ev, n).contains(v) <==> exists|i: int| ev.contains(#[trigger] value_of(n, v, i)) by {
            if e.0 == n && e.1 is Some { pushed_has(under(e0, n), (e.1->0).0, v); }
            if under(ev, n).contains(v) {
                if under(e0, n).contains(v) {
                    let i = choose|i: int| e0.contains(#[trigger] value_of(n, v, i));
                    pushed_has(e0, e, value_of(n, v, i));
                } else {
                    let i = (e.1->0).1;
                    assert(e == value_of(n, v, i));
                    pushed_has(e0, e, value_of(n, v, i));
                }
            }
            if exists|i: int| ev.contains(#[trigger] value_of(n, v, i)) {
                let i = choose|i: int| ev.contains(#[trigger] value_of(n, v, i));
                pushed_has(e0, e, value_of(n, v, i));
                if e0.contains(value_of(n, v, i)) { assert(under(e0, n).contains(v)); }
            }
        }
    }
}
/// Nothing is under a name that was not said, and nothing holds a value that was not.
pub proof fn unsaid(ev: Seq<Said>, n: Seq<char>, v: Seq<char>)
    ensures !names_of(ev).contains(n) ==> under(ev, n).len() == 0,
        !under(ev, n).contains(v) ==> holders(ev, n, v).len() == 0,
{
    if !names_of(ev).contains(n) {
        under_are(ev, n);
        if under(ev, n).len() > 0 {
            let w = under(ev, n)[0];
            assert(under(ev, n).contains(w));
            let i = choose|i: int| ev.contains(#[trigger] value_of(n, w, i));
            let k = choose|k: int| 0 <= k < ev.len() && ev[k] == value_of(n, w, i);
            assert(names_of(ev)[k] == n);
        }
    }
    if !under(ev, n).contains(v) {
        under_are(ev, n);
        holders_are(ev, n, v);
        if holders(ev, n, v).len() > 0 {
            let i = holders(ev, n, v)[0];
            assert(holders(ev, n, v).contains(i));
            assert(ev.contains(value_of(n, v, i)));
        }
    }
}
/// What is said about one name changes nothing about another.
pub proof fn elsewhere(ev: Seq<Said>, more: Seq<Said>, n: Seq<char>, m: Seq<char>)
    requires n != m, forall|k: int| 0 <= k < more.len() ==> (#[trigger] more[k]).0 == n
    ensures under(ev + more, m) == under(ev, m), forall|v: Seq<char>| #[trigger] holders(ev + more, m, v) == holders(ev, m, v)
    decreases more.len()
{
    if more.len() == 0 { assert(ev + more =~= ev); } else {
        elsewhere(ev, more.drop_last(), n, m);
        assert((ev + more).drop_last() =~= ev + more.drop_last());
        assert((ev + more).last() == more.last());
        assert forall|v: Seq<char>| #[trigger] holders(ev + more, m, v) == holders(ev, m, v) by { assert(holders(ev + more.drop_last(), m, v) == holders(ev, m, v)); }
    }
}
/// Talking about one name more than once adds it once.
pub proof fn name_known(ev: Seq<Said>, more: Seq<Said>, n: Seq<char>)
    requires more.len() > 0, forall|k: int| 0 <= k < more.len() ==> (#[trigger] more[k]).0 == n
    ensures firsts(names_of(ev + more)) == (if firsts(names_of(ev)).contains(n) { firsts(names_of(ev)) } else { firsts(names_of(ev)).push(n) })
    decreases more.len()
{
    let m0 = more.drop_last();
    assert(names_of(ev + more) =~= names_of(ev + m0).push(n));
    firsts_push(names_of(ev + m0), n);
    if m0.len() == 0 { assert(ev + m0 =~= ev); } else {
        name_known(ev, m0, n);
        pushed_has(firsts(names_of(ev)), n, n);
    }
}

pub open spec fn opt_names(os: Seq<CategoryOption>) -> Seq<Seq<char>> { os.map_values(|o: CategoryOption| o.name@) }
pub open spec fn cat_names(cs: Seq<Category>) -> Seq<Seq<char>> { cs.map_values(|c: Category| c.name@) }
impl<'a> CategoryOption<'a> {
    /// The option holds the products at these positions.
    pub open spec fn at(&self, ids: Seq<int>, all: Seq<Product<'a>>) -> bool {
        &&& are_at(self.content@, ids, all)
        &&& forall|x: usize| #[trigger] self.products_by_serialization_id@.contains(x) <==> ids.contains(x as int)
    }
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryOption<'a> :: fn new
@opt ret = r
@bind ( $name : String , $id : usize
@spec
    ensures r.name@ == $name@, r.serialization_id == $id, r.content@.len() == 0, r.products_by_serialization_id@ == Set::<usize>::empty(),
@*/
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryOption<'a> :: fn add
@bind ( & mut self , $product : & 'a Product
@sub & 'a Product ) ==> &'a Product<'a>)
@spec
    ensures final(self).name == old(self).name, final(self).serialization_id == old(self).serialization_id,
        final(self).products_by_serialization_id@ == old(self).products_by_serialization_id@.insert($product.serialization_id),
        final(self).content@ == (if old(self).products_by_serialization_id@.contains($product.serialization_id) { old(self).content@ } else { old(self).content@.push($product) }),
@*/
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryOption<'a> :: fn contains
@opt ret = r
@bind ( & self , $product : & Product
@spec
    ensures r == self.products_by_serialization_id@.contains($product.serialization_id),
@*/
}
impl<'a> Category<'a> {
/*@fn classic_indexes/categorical.rs :: impl<'a> Category<'a> :: fn new
@opt ret = r
@bind ( $name : String
@spec
    ensures r.name@ == $name@, r.options@.len() == 0, r.exclusive == false,
@*/
    /// The options are the values said under the name, each with its holders.
    pub open spec fn says(&self, ev: Seq<Said>, all: Seq<Product<'a>>) -> bool {
        &&& opt_names(self.options@) == firsts(under(ev, self.name@))
        &&& forall|j: int| 0 <= j < self.options@.len() ==> (#[trigger] self.options@[j]).at(firsts(holders(ev, self.name@, self.options@[j].name@)), all)
    }
}
pub open spec fn grouped<'a>(cs: Seq<Category<'a>>, ev: Seq<Said>, all: Seq<Product<'a>>) -> bool {
    &&& cat_names(cs) == firsts(names_of(ev))
    &&& forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).says(ev, all)
    &&& forall|k: int| 0 <= k < cs.len() ==> !(#[trigger] cs[k]).exclusive
}
/// The number of options in the first categories.
pub open spec fn total(cs: Seq<Category>, k: int) -> nat decreases k {
    if k <= 0 || k > cs.len() { 0 } else { total(cs, k - 1) + cs[k - 1].options@.len() }
}
pub proof fn total_same(a: Seq<Category>, b: Seq<Category>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> (#[trigger] a[i]).options@.len() == b[i].options@.len()
    ensures total(a, k) == total(b, k)
    decreases k
{ if k > 0 { total_same(a, b, k - 1); assert(a[k - 1].options@.len() == b[k - 1].options@.len()); } }
pub proof fn total_update(a: Seq<Category>, k: int, c: Category, n: int)
    requires 0 <= k < n <= a.len()
    ensures total(a.update(k, c), n) == total(a, n) - a[k].options@.len() + c.options@.len()
    decreases n
{
    if n - 1 == k { total_same(a.update(k, c), a, k); } else { total_update(a, k, c, n - 1); }
}
pub proof fn total_push(a: Seq<Category>, c: Category)
    ensures total(a.push(c), a.len() as int + 1) == total(a, a.len() as int) + c.options@.len()
{ total_same(a.push(c), a, a.len() as int); }
pub proof fn total_grows(a: Seq<Category>, k: int)
    requires 0 <= k <= a.len()
    ensures total(a, k) <= total(a, a.len() as int)
    decreases a.len() - k
{ if k < a.len() { total_grows(a, k + 1); } }

/// One category was extended by what was said about its name.
pub proof fn regroup<'a>(cs: Seq<Category<'a>>, ev: Seq<Said>, more: Seq<Said>, n: Seq<char>, k: int, c: Category<'a>, all: Seq<Product<'a>>)
    requires
        grouped(cs, ev, all), more.len() > 0, forall|q: int| 0 <= q < more.len() ==> (#[trigger] more[q]).0 == n,
        c.name@ == n, c.says(ev + more, all), !c.exclusive,
        (0 <= k < cs.len() && cs[k].name@ == n) || (k == cs.len() && !cat_names(cs).contains(n)),
    ensures k < cs.len() ==> grouped(cs.update(k, c), ev + more, all), k == cs.len() ==> grouped(cs.push(c), ev + more, all),
{
    let ev1 = ev + more;
    let cs1 = if k < cs.len() { cs.update(k, c) } else { cs.push(c) };
    name_known(ev, more, n);
    firsts_has(names_of(ev));
    if k < cs.len() { assert(cat_names(cs)[k] == n); assert(cat_names(cs1) =~= cat_names(cs)); } else { assert(cat_names(cs1) =~= cat_names(cs).push(n)); }
    assert(cat_names(cs1) =~= firsts(names_of(ev1)));
    assert forall|q: int| 0 <= q < cs1.len() implies (#[trigger] cs1[q]).says(ev1, all) by {
        if q != k {
            assert(cs1[q] == cs[q]);
            assert(cat_names(cs)[q] == cs[q].name@);
            if k < cs.len() { assert(cat_names(cs)[k] != cat_names(cs)[q]); } else { assert(cat_names(cs).contains(cat_names(cs)[q])); }
            elsewhere(ev, more, n, cs[q].name@);
            assert forall|j: int| 0 <= j < cs1[q].options@.len() implies (#[trigger] cs1[q].options@[j]).at(firsts(holders(ev1, cs1[q].name@, cs1[q].options@[j].name@)), all) by {
                assert(cs[q].options@[j].at(firsts(holders(ev, cs[q].name@, cs[q].options@[j].name@)), all));
            }
        }
    }
    assert forall|q: int| 0 <= q < cs1.len() implies !(#[trigger] cs1[q]).exclusive by { if q != k { assert(cs1[q] == cs[q]); } }
}
/// One option was extended by a product that has its value.
pub proof fn reoption<'a>(c: Category<'a>, ev: Seq<Said>, v: Seq<char>, i: int, k: int, o: CategoryOption<'a>, was: CategoryOption<'a>, c1: Category<'a>, all: Seq<Product<'a>>)
    requires
        c.says(ev, all), 0 <= i < all.len(), all[i].serialization_id == i, c1.name == c.name,
        (0 <= k < c.options@.len() && c.options@[k] == was && was.name@ == v && c1.options@ == c.options@.update(k, o))
            || (k == c.options@.len() && !opt_names(c.options@).contains(v) && was.content@.len() == 0 && was.products_by_serialization_id@ == Set::<usize>::empty() && c1.options@ == c.options@.push(o)),
        was.name@ == v, o.name@ == v,
        o.products_by_serialization_id@ == was.products_by_serialization_id@.insert(i as usize),
        o.content@ == (if was.products_by_serialization_id@.contains(i as usize) { was.content@ } else { was.content@.push(&all[i]) }),
    ensures c1.says(ev.push(value_of(c.name@, v, i)), all),
{
    let n = c.name@;
    let ev1 = ev.push(value_of(n, v, i));
    assert(ev1.drop_last() =~= ev);
    firsts_push(under(ev, n), v);
    firsts_push(holders(ev, n, v), i);
    firsts_has(under(ev, n));
    unsaid(ev, n, v);
    let os = c.options@;
    let os1 = c1.options@;
    let ids = firsts(holders(ev, n, v));
    let ids1 = firsts(holders(ev1, n, v));
    if k < os.len() { assert(opt_names(os)[k] == v); assert(opt_names(os1) =~= opt_names(os)); } else { assert(opt_names(os1) =~= opt_names(os).push(v)); }
    assert(opt_names(os1) =~= firsts(under(ev1, n)));
    assert(was.at(ids, all)) by {
        if k < os.len() { assert(os[k].at(ids, all)); } else { assert(ids.len() == 0); }
    }
    assert(o.at(ids1, all)) by {
        assert(was.products_by_serialization_id@.contains(i as usize) <==> ids.contains(i));
        if !ids.contains(i) { one_more(was.content@, ids, &all[i], i, all); }
        assert forall|x: usize| #[trigger] o.products_by_serialization_id@.contains(x) <==> ids1.contains(x as int) by {
            assert(was.products_by_serialization_id@.contains(x) <==> ids.contains(x as int));
            pushed_has(ids, i, x as int);
        }
    }
    assert forall|j: int| 0 <= j < os1.len() implies (#[trigger] os1[j]).at(firsts(holders(ev1, n, os1[j].name@)), all) by {
        if j != k {
            assert(os1[j] == os[j]);
            assert(os[j].at(firsts(holders(ev, n, os[j].name@)), all));
            assert(opt_names(os)[j] == os[j].name@);
            if k < os.len() { assert(opt_names(os)[k] != opt_names(os)[j]); } else { assert(opt_names(os).contains(opt_names(os)[j])); }
        } else { assert(os1[j] == o); }
    }
}
impl<'a> CategoryIndex<'a> {
    /// Options are numbered through all categories.
    pub open spec fn numbered_through(cs: Seq<Category<'a>>) -> bool {
        forall|k: int, j: int| 0 <= k < cs.len() && 0 <= j < cs[k].options@.len() ==> (#[trigger] cs[k].options@[j]).serialization_id == total(cs, k) + j
    }
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryIndex<'a> :: fn index
@opt ret = r
@opt attr = #[verifier::loop_isolation(false)] #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@opt loops = 5
@bind ( $list : Vec < Vec < RawProductOption > > , $container : & 'a ProductContainer < 'a > , )
@bind let mut $cats : Vec < Category > = Vec :: new ( ) ; let mut $next = 0 ;
@bind for ( $i , $options ) in
@bind for $ro in $options {
@bind for $rv in $ro . values {
@bind let $category = match $cats . iter_mut
@bind $option . add (
@bind for $category1 in & mut $cats
@bind for $option1 in & mut $category1 . options
@sub? $options_list . into_iter ( ) . enumerate ( ) ==> vec_it($options_list).enumerate()
@sub? for $ro in $options { ==> for $ro in vec_it($options) {
@sub? for $rv in $ro . values { ==> for $rv in vec_it($ro.values) {
@sub? let $category = match $cats . iter_mut ( ) . find ( | $c | $c . name == $x . name ) { ==> let $category = match $cats.find_mut(|$c: &Category<'a>| -> (b: bool) ensures b == ($c.name@ == $x.name@) { same_text(&$c.name, $x.name) }, Ghost(|c: Category<'a>| c.name@ == $x.name@)) {
@sub? let $option = match $category . options . iter_mut ( ) . find ( | $o | $o . name == $y ) { ==> let $option = match $category.options.find_mut(|$o: &CategoryOption<'a>| -> (b: bool) ensures b == ($o.name@ == $y@) { same_text(&$o.name, $y) }, Ghost(|o: CategoryOption<'a>| o.name@ == $y@)) {
@sub? . get_mut ( $just ) . unwrap ( ) ==> .nth_mut($just).unwrap()
@sub? for $category1 in & mut $cats { $$body } ==> let mut q1: usize = 0; while q1 < $cats.len() { let $category1 = $cats.nth_mut(q1).unwrap(); $$body q1 = q1 + 1; }
@sub? for $option1 in & mut $category1 . options { $$body } ==> let mut q2: usize = 0; while q2 < $category1.options.len() { let $option1 = $category1.options.nth_mut(q2).unwrap(); $$body q2 = q2 + 1; }
@desugar 1 feed
@spec
    requires numbered($container), $list@.len() <= $container.products@.len(), said_by($list@).len() <= usize::MAX,
    ensures grouped(r.0@, said_by($list@), $container.products@), Self::numbered_through(r.0@),
@start
    let ghost list0 = $list@;
    let ghost all = $container.products@;
    let ghost mut k: int = 0;
    proof { assert(list0.take(0) =~= Seq::empty()); }
@before loop {
    let ghost steps = rem(&feed);
    proof { assert(steps.skip(0) =~= steps); assert(cat_names($cats@) =~= firsts(names_of(said_by(list0.take(0))))); }
@loop 1
    invariant
        0 <= k <= list0.len(), rem(&feed) == steps.skip(k),
        grouped($cats@, said_by(list0.take(k)), all),
        total($cats@, $cats@.len() as int) <= $next <= said_by(list0.take(k)).len(),
    decreases list0.len() - k,
@in 1
    let ghost ev = said_by(list0.take(k));
    let ghost here = list0[k]@;
    proof {
        assert(steps.skip(k).skip(1) =~= steps.skip(k + 1)); assert(steps[k] == (k as usize, list0[k]));
        assert(list0.take(k + 1).drop_last() =~= list0.take(k));
        assert(said_by(list0.take(k + 1)) == ev + options_of(here, k));
        said_grows(list0, k + 1);
        assert(here.take(0) =~= Seq::empty());
        assert(ev + options_of(here.take(0), k) =~= ev);
    }
@endin 1
    proof { assert(here.take(here.len() as int) =~= here); k = k + 1; }
@iter 2 it
@loop 2
    invariant
        it.seq() == here,
        grouped($cats@, ev + options_of(here.take(it.index@), k), all),
        total($cats@, $cats@.len() as int) <= $next <= (ev + options_of(here.take(it.index@), k)).len(),
@in 2
    let ghost cs = $cats@;
    let ghost ev2 = ev + options_of(here.take(it.index@), k);
    let ghost name = $ro.name@;
    let ghost vals = $ro.values@;
    let ghost head: Said = (name, None);
    let ghost next0 = $next;
    proof {
        assert(here.take(it.index@ + 1).drop_last() =~= here.take(it.index@));
        assert(ev + options_of(here.take(it.index@ + 1), k) =~= ev2 + option_of(here[it.index@], k));
        options_grow(here, it.index@ + 1, k);
        assert(ev2.push(head).drop_last() =~= ev2);
        assert(ev2 + (seq![head] + values_of(name, vals.take(0), k)) =~= ev2.push(head));
        unsaid(ev2, name, name);
        firsts_has(names_of(ev2));
    }
@before for $rv in
    let ghost c0 = *$category;
    let ghost f0 = *final($category);
    let ghost got = cs.len() as int;
    proof {
        assert(opt_names(c0.options@) =~= firsts(under(ev2.push(head), name))) by {
            if !cat_names(cs).contains(name) { assert(opt_names(c0.options@) =~= Seq::empty()); assert(firsts(under(ev2, name)) =~= Seq::empty()); }
        }
        assert(c0.says(ev2 + (seq![head] + values_of(name, vals.take(0), k)), all));
    }
@iter 3 it3
@loop 3
    invariant
        it3.seq() == vals, $category.name@ == name, !$category.exclusive, *final($category) == f0,
        $category.says(ev2 + (seq![head] + values_of(name, vals.take(it3.index@), k)), all),
        $category.options@.len() - c0.options@.len() <= $next - next0, next0 <= $next,
        $next <= (ev2 + (seq![head] + values_of(name, vals.take(it3.index@), k))).len(),
@in 3
    let ghost evn = ev2 + (seq![head] + values_of(name, vals.take(it3.index@), k));
    let ghost c1 = *$category;
    let ghost v = $rv@;
    proof {
        assert(ev2 + (seq![head] + values_of(name, vals.take(it3.index@ + 1), k)) =~= evn.push(value_of(name, v, k)));
    }
@before $option . add
    let ghost was = *$option;
@endin 3
    let ghost o1 = *$option;
    let ghost c2 = *$category;
    proof {
        let os = c1.options@;
        let os2 = c2.options@;
        if opt_names(os).contains(v) {
            let z = choose|z: int| 0 <= z < opt_names(os).len() && opt_names(os)[z] == v;
            assert(os[z].name@ == v);
            let kk = choose|kk: int| 0 <= kk < os.len() && (#[trigger] os[kk]).name@ == v && os[kk] == was && os2 == os.update(kk, o1);
            reoption(c1, evn, v, k, kk, o1, was, c2, all);
        } else {
            assert forall|z: int| 0 <= z < os.len() implies (#[trigger] os[z]).name@ != v by { assert(opt_names(os)[z] == os[z].name@); assert(opt_names(os).contains(opt_names(os)[z])); }
            assert(os2 =~= os.push(o1));
            reoption(c1, evn, v, k, os.len() as int, o1, was, c2, all);
        }
    }
@endin 2
    let ghost c9 = *$category;
    proof {
        assert(vals.take(vals.len() as int) =~= vals);
        let more = option_of(here[it.index@], k);
        let cs2 = $cats@;
        if cat_names(cs).contains(name) {
            let z = choose|z: int| 0 <= z < cat_names(cs).len() && cat_names(cs)[z] == name;
            assert(cs[z].name@ == name);
            let kk = choose|kk: int| 0 <= kk < cs.len() && (#[trigger] cs[kk]).name@ == name && c0 == cs[kk] && cs2 == cs.update(kk, c9);
            regroup(cs, ev2, more, name, kk, c9, all);
            total_update(cs, kk, c9, cs.len() as int);
        } else {
            assert forall|z: int| 0 <= z < cs.len() implies (#[trigger] cs[z]).name@ != name by { assert(cat_names(cs)[z] == cs[z].name@); assert(cat_names(cs).contains(cat_names(cs)[z])); }
            assert(cs2 =~= cs.push(c9));
            regroup(cs, ev2, more, name, cs.len() as int, c9, all);
            total_push(cs, c9);
        }
    }
@afterloop 1
    let ghost evs = said_by(list0);
    let ghost done = $cats@;
    proof { assert(list0.take(k) =~= list0); }
@bind . serialization_id = $stored ;
@loop 4
    invariant
        q1 <= $cats@.len(), $cats@.len() == done.len(), grouped($cats@, evs, all),
        forall|z: int| 0 <= z < done.len() ==> (#[trigger] $cats@[z]).options@.len() == done[z].options@.len(),
        forall|z: int, j: int| 0 <= z < q1 && 0 <= j < $cats@[z].options@.len() ==> (#[trigger] $cats@[z].options@[j]).serialization_id == total(done, z) + j,
        $stored == total(done, q1 as int), total(done, done.len() as int) <= usize::MAX,
    decreases $cats@.len() - q1,
@in 4
    let ghost cs = $cats@;
    let ghost z = q1 as int;
    proof { total_grows(done, z + 1); }
@before let mut q2
    let ghost c0 = *$category1;
    let ghost f0 = *final($category1);
@loop 5
    invariant
        q2 <= $category1.options@.len(), renumbered(c0, *$category1), *final($category1) == f0,
        forall|j: int| 0 <= j < q2 ==> (#[trigger] $category1.options@[j]).serialization_id == total(done, z) + j,
        $stored == total(done, z) + q2,
    decreases $category1.options@.len() - q2,
@in 5
    let ghost c1 = *$category1;
@endin 5
    let ghost c2 = *$category1;
    proof {
        assert forall|j: int| 0 <= j < c2.options@.len() implies (#[trigger] c2.options@[j]).name == c0.options@[j].name && c2.options@[j].content == c0.options@[j].content && c2.options@[j].products_by_serialization_id == c0.options@[j].products_by_serialization_id by { assert(c1.options@[j].name == c0.options@[j].name); }
        assert forall|j: int| 0 <= j < q2 implies (#[trigger] c2.options@[j]).serialization_id == total(done, z) + j by { if j < q2 - 1 { assert(c1.options@[j].serialization_id == total(done, z) + j); } }
    }
@endin 4
    let ghost c9 = *$category1;
    proof {
        renumber(cs, evs, z, c9, all);
        assert forall|y: int, j: int| 0 <= y < q1 && 0 <= j < $cats@[y].options@.len() implies (#[trigger] $cats@[y].options@[j]).serialization_id == total(done, y) + j by { if y < z { assert(cs[y].options@[j].serialization_id == total(done, y) + j); } else { assert(c9.options@[j].serialization_id == total(done, z) + j); } }
    }
@before CategoryIndex (
    proof {
        assert forall|y: int, j: int| 0 <= y < $cats@.len() && 0 <= j < $cats@[y].options@.len() implies (#[trigger] $cats@[y].options@[j]).serialization_id == total($cats@, y) + j by { total_same($cats@, done, y); }
    }
@*/
}
impl<'a> CategoryIndex<'a> {
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryIndex<'a> :: fn get
@opt ret = r
@bind ( & 'a self , $i : usize
@spec
    ensures r == (if $i < self.0@.len() { Some(&self.0@[$i as int]) } else { None }),
@*/
}
pub open spec fn renumbered(a: Category, b: Category) -> bool {
    a.name == b.name && a.exclusive == b.exclusive && a.options@.len() == b.options@.len()
        && forall|j: int| 0 <= j < b.options@.len() ==> (#[trigger] b.options@[j]).name == a.options@[j].name && b.options@[j].content == a.options@[j].content && b.options@[j].products_by_serialization_id == a.options@[j].products_by_serialization_id
}
/// Numbering the options of a category changes nothing else.
pub proof fn renumber<'a>(cs: Seq<Category<'a>>, ev: Seq<Said>, k: int, c: Category<'a>, all: Seq<Product<'a>>)
    requires grouped(cs, ev, all), 0 <= k < cs.len(), renumbered(cs[k], c)
    ensures grouped(cs.update(k, c), ev, all)
{
    let cs1 = cs.update(k, c);
    assert(cat_names(cs1) =~= cat_names(cs));
    assert(cs[k].says(ev, all));
    assert(opt_names(c.options@) =~= opt_names(cs[k].options@));
    assert forall|j: int| 0 <= j < c.options@.len() implies (#[trigger] c.options@[j]).at(firsts(holders(ev, c.name@, c.options@[j].name@)), all) by {
        assert(cs[k].options@[j].at(firsts(holders(ev, cs[k].name@, cs[k].options@[j].name@)), all));
    }
    assert forall|q: int| 0 <= q < cs1.len() implies (#[trigger] cs1[q]).says(ev, all) && !cs1[q].exclusive by { if q != k { assert(cs1[q] == cs[q]); } else { assert(!cs[k].exclusive); } }
}
pub proof fn said_grows(list: Seq<Vec<RawProductOption>>, k: int)
    requires 0 <= k <= list.len()
    ensures said_by(list.take(k)).len() <= said_by(list).len()
    decreases list.len() - k
{
    if k == list.len() { assert(list.take(k) =~= list); } else {
        said_grows(list, k + 1);
        assert(list.take(k + 1).drop_last() =~= list.take(k));
    }
}
pub proof fn options_grow(os: Seq<RawProductOption>, k: int, i: int)
    requires 0 <= k <= os.len()
    ensures options_of(os.take(k), i).len() <= options_of(os, i).len()
    decreases os.len() - k
{
    if k == os.len() { assert(os.take(k) =~= os); } else {
        options_grow(os, k + 1, i);
        assert(os.take(k + 1).drop_last() =~= os.take(k));
    }
}
/// `a == b` of two texts
#[verifier::external_body]
pub fn same_text(a: &String, b: &str) -> (r: bool)
    ensures r == (a@ == b@)
{ unimplemented!() }
pub trait VecMut<T>: Sized {
    spec fn seq(&self) -> Seq<T>;
    /// `iter_mut().find(f)`
    fn find_mut<F: Fn(&T) -> bool>(&mut self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<&mut T>)
        requires forall|t: &T| #[trigger] call_requires(f, (t,)), forall|t: &T, b: bool| #[trigger] call_ensures(f, (t,), b) ==> b == p@(*t)
        ensures match r {
            Some(x) => exists|k: int| 0 <= k < old(self).seq().len() && p@(#[trigger] old(self).seq()[k]) && *x == old(self).seq()[k] && final(self).seq() == old(self).seq().update(k, *final(x)),
            None => final(self).seq() == old(self).seq() && forall|k: int| 0 <= k < old(self).seq().len() ==> !p@(#[trigger] old(self).seq()[k]),
        };
    /// `get_mut`
    fn nth_mut(&mut self, i: usize) -> (r: Option<&mut T>)
        ensures match r {
            Some(x) => i < old(self).seq().len() && *x == old(self).seq()[i as int] && final(self).seq() == old(self).seq().update(i as int, *final(x)),
            None => i >= old(self).seq().len() && final(self).seq() == old(self).seq(),
        };
}
impl<T> VecMut<T> for Vec<T> {
    open spec fn seq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn find_mut<F: Fn(&T) -> bool>(&mut self, f: F, p: Ghost<spec_fn(T) -> bool>) -> (r: Option<&mut T>) { unimplemented!() }
    #[verifier::external_body]
    fn nth_mut(&mut self, i: usize) -> (r: Option<&mut T>) { unimplemented!() }
}

/// Reading the grouping: who is in an option.
pub proof fn members<'a>(cs: Seq<Category<'a>>, list: Seq<Vec<RawProductOption>>, all: Seq<Product<'a>>, k: int, j: int, x: usize)
    requires grouped(cs, said_by(list), all), 0 <= k < cs.len(), 0 <= j < cs[k].options@.len()
    ensures cs[k].options@[j].products_by_serialization_id@.contains(x) <==> has_value(list, cs[k].name@, cs[k].options@[j].name@, x as int)
{
    let ev = said_by(list);
    let n = cs[k].name@;
    let o = cs[k].options@[j];
    assert(cs[k].says(ev, all));
    assert(o.at(firsts(holders(ev, n, o.name@)), all));
    firsts_has(holders(ev, n, o.name@));
    holders_are(ev, n, o.name@);
    said_is(list, n, o.name@, x as int);
    let ids = firsts(holders(ev, n, o.name@));
    assert(o.products_by_serialization_id@.contains(x) <==> ids.contains(x as int));
    assert(ids.contains(x as int) <==> holders(ev, n, o.name@).contains(x as int));
}
pub open spec fn has_value(list: Seq<Vec<RawProductOption>>, n: Seq<char>, v: Seq<char>, i: int) -> bool { 0 <= i < list.len() && gives(list[i]@, n, v) }
pub open spec fn gives(os: Seq<RawProductOption>, n: Seq<char>, v: Seq<char>) -> bool {
    exists|a: int, b: int| 0 <= a < os.len() && 0 <= b < os[a].values@.len() && os[a].name@ == n && (#[trigger] os[a].values@[b])@ == v
}
pub proof fn option_is(o: RawProductOption, at: int, n: Seq<char>, v: Seq<char>, i: int)
    ensures option_of(o, at).contains(value_of(n, v, i)) <==> i == at && o.name@ == n && exists|b: int| 0 <= b < o.values@.len() && (#[trigger] o.values@[b])@ == v
{
    let s = option_of(o, at);
    if s.contains(value_of(n, v, i)) {
        let q = choose|q: int| 0 <= q < s.len() && s[q] == value_of(n, v, i);
        assert(q > 0);
        assert(s[q] == value_of(o.name@, o.values@[q - 1]@, at));
    }
    if i == at && o.name@ == n && exists|b: int| 0 <= b < o.values@.len() && (#[trigger] o.values@[b])@ == v {
        let b = choose|b: int| 0 <= b < o.values@.len() && (#[trigger] o.values@[b])@ == v;
        assert(s[b + 1] == value_of(n, v, i));
    }
}
pub proof fn sum_has<T>(a: Seq<T>, b: Seq<T>, x: T)
    ensures (a + b).contains(x) <==> a.contains(x) || b.contains(x)
{
    let s = a + b;
    if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i] == x); }
    if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(s[a.len() + i] == x); }
    if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
}
pub proof fn options_is(os: Seq<RawProductOption>, at: int, n: Seq<char>, v: Seq<char>, i: int)
    ensures options_of(os, at).contains(value_of(n, v, i)) <==> i == at && gives(os, n, v)
    decreases os.len()
{
    if os.len() > 0 {
        let o0 = os.drop_last();
        options_is(o0, at, n, v, i);
        option_is(os.last(), at, n, v, i);
        sum_has(options_of(o0, at), option_of(os.last(), at), value_of(n, v, i));
        if gives(os, n, v) {
            let (a, b) = choose|a: int, b: int| 0 <= a < os.len() && 0 <= b < os[a].values@.len() && os[a].name@ == n && (#[trigger] os[a].values@[b])@ == v;
            if a < o0.len() { assert(o0[a].values@[b]@ == v); } else { assert(os.last().values@[b]@ == v); }
        }
        if gives(o0, n, v) {
            let (a, b) = choose|a: int, b: int| 0 <= a < o0.len() && 0 <= b < o0[a].values@.len() && o0[a].name@ == n && (#[trigger] o0[a].values@[b])@ == v;
            assert(os[a].values@[b]@ == v);
        }
        if os.last().name@ == n && exists|b: int| 0 <= b < os.last().values@.len() && (#[trigger] os.last().values@[b])@ == v {
            let b = choose|b: int| 0 <= b < os.last().values@.len() && (#[trigger] os.last().values@[b])@ == v;
            assert(os[os.len() - 1].values@[b]@ == v);
        }
    }
}
pub proof fn said_is(list: Seq<Vec<RawProductOption>>, n: Seq<char>, v: Seq<char>, i: int)
    ensures said_by(list).contains(value_of(n, v, i)) <==> has_value(list, n, v, i)
    decreases list.len()
{
    if list.len() > 0 {
        said_is(list.drop_last(), n, v, i);
        options_is(list.last()@, list.len() - 1, n, v, i);
        sum_has(said_by(list.drop_last()), options_of(list.last()@, list.len() - 1), value_of(n, v, i));
        if 0 <= i < list.len() - 1 { assert(list.drop_last()[i] == list[i]); }
    }
}
