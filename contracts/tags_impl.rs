// ---- tags ------------------------------------------------------------------------------------

/// The tags of the catalogue, one after the other, with the position of the product.
pub type Carried<'a> = Seq<(&'a str, int)>;
pub open spec fn carried_by<'a>(tags: Seq<&'a str>, i: int) -> Carried<'a> { tags.map_values(|t: &'a str| (t, i)) }
pub open spec fn carried<'a>(tags: Seq<Vec<&'a str>>) -> Carried<'a> decreases tags.len() {
    if tags.len() == 0 { Seq::empty() } else { carried(tags.drop_last()) + carried_by(tags.last()@, tags.len() - 1) }
}
/// For every tag the positions of the products that carry it.
pub open spec fn piles<'a>(c: Carried<'a>) -> Map<&'a str, Seq<int>> decreases c.len() {
    if c.len() == 0 { Map::empty() } else {
        let m = piles(c.drop_last());
        let (t, i) = c.last();
        m.insert(t, (if m.contains_key(t) { m[t] } else { Seq::empty() }).push(i))
    }
}
pub proof fn piled<'a>(c: Carried<'a>)
    ensures
        forall|t: &'a str| #[trigger] piles(c).contains_key(t) <==> exists|i: int| c.contains((t, i)),
        forall|t: &'a str, i: int| #![trigger c.contains((t, i))] c.contains((t, i)) <==> piles(c).contains_key(t) && piles(c)[t].contains(i),
    decreases c.len()
{
    if c.len() > 0 {
        let c0 = c.drop_last();
        let m0 = piles(c0);
        let m = piles(c);
        let (t1, i1) = c.last();
        piled(c0);
        assert(c =~= c0.push((t1, i1)));
        assert forall|t: &'a str, i: int| #![trigger c.contains((t, i))] c.contains((t, i)) <==> m.contains_key(t) && m[t].contains(i) by {
            assert(c.contains((t, i)) <==> c0.contains((t, i)) || (t, i) == (t1, i1)) by {
                if c0.contains((t, i)) { let k = choose|k: int| 0 <= k < c0.len() && c0[k] == (t, i); assert(c[k] == (t, i)); }
                if (t, i) == (t1, i1) { assert(c[c.len() - 1] == (t, i)); }
                if c.contains((t, i)) { let k = choose|k: int| 0 <= k < c.len() && c[k] == (t, i); if k < c0.len() { assert(c0[k] == (t, i)); } }
            }
            let old = if m0.contains_key(t1) { m0[t1] } else { Seq::empty() };
            assert(old.push(i1).contains(i) <==> old.contains(i) || i == i1) by {
                if old.contains(i) { let k = choose|k: int| 0 <= k < old.len() && old[k] == i; assert(old.push(i1)[k] == i); }
                if i == i1 { assert(old.push(i1)[old.len() as int] == i); }
                if old.push(i1).contains(i) { let k = choose|k: int| 0 <= k < old.push(i1).len() && old.push(i1)[k] == i; if k < old.len() { assert(old[k] == i); } }
            }
        }
        assert forall|t: &'a str| #[trigger] m.contains_key(t) implies exists|i: int| c.contains((t, i)) by {
            if t == t1 { assert(c[c.len() - 1] == (t1, i1)); assert(c.contains((t, i1))); }
            else { assert(m0.contains_key(t)); let i = choose|i: int| c0.contains((t, i)); assert(c0.contains((t, i)) && m0[t].contains(i)); assert(m[t].contains(i)); assert(c.contains((t, i))); }
        }
        assert forall|t: &'a str| (exists|i: int| c.contains((t, i))) implies #[trigger] m.contains_key(t) by { let i = choose|i: int| c.contains((t, i)); assert(c.contains((t, i))); }
    } else {
        assert forall|t: &'a str, i: int| #![trigger c.contains((t, i))] !c.contains((t, i)) by { }
    }
}
pub proof fn carried_is<'a>(tags: Seq<Vec<&'a str>>)
    ensures forall|t: &'a str, i: int| #![trigger carried(tags).contains((t, i))] carried(tags).contains((t, i)) <==> 0 <= i < tags.len() && tags[i]@.contains(t)
    decreases tags.len()
{
    if tags.len() > 0 {
        let t0 = tags.drop_last();
        let n = tags.len() - 1;
        carried_is(t0);
        let a = carried(t0); let b = carried_by(tags.last()@, n);
        assert forall|t: &'a str, i: int| #![trigger carried(tags).contains((t, i))] carried(tags).contains((t, i)) <==> 0 <= i < tags.len() && tags[i]@.contains(t) by {
            if (a + b).contains((t, i)) {
                let k = choose|k: int| 0 <= k < (a + b).len() && (a + b)[k] == (t, i);
                if k < a.len() { assert(a[k] == (t, i)); assert(a.contains((t, i))); assert(t0[i] == tags[i]); }
                else { assert(b[k - a.len()] == (t, i)); assert(tags.last()@[k - a.len()] == t); }
            }
            if 0 <= i < tags.len() && tags[i]@.contains(t) {
                if i < n {
                    assert(t0[i] == tags[i]);
                    assert(a.contains((t, i)));
                    let k = choose|k: int| 0 <= k < a.len() && a[k] == (t, i);
                    assert((a + b)[k] == (t, i));
                } else {
                    let k = choose|k: int| 0 <= k < tags[i]@.len() && tags[i]@[k] == t;
                    assert(b[k] == (t, i));
                    assert((a + b)[a.len() + k] == (t, i));
                }
            }
        }
    } else {
        assert forall|t: &'a str, i: int| #![trigger carried(tags).contains((t, i))] !carried(tags).contains((t, i)) by { }
    }
}
/// A list of products is the products at these positions.
pub open spec fn are_at<'a>(ps: Seq<&'a Product<'a>>, at: Seq<int>, all: Seq<Product<'a>>) -> bool {
    ps.len() == at.len() && forall|k: int| 0 <= k < at.len() ==> 0 <= at[k] < all.len() && *(#[trigger] ps[k]) == all[at[k]]
}
pub proof fn one_more<'a>(ps: Seq<&'a Product<'a>>, at: Seq<int>, p: &'a Product<'a>, i: int, all: Seq<Product<'a>>)
    requires are_at(ps, at, all), 0 <= i < all.len(), *p == all[i]
    ensures are_at(ps.push(p), at.push(i), all)
{
    let a = ps.push(p);
    let b = at.push(i);
    assert forall|k: int| 0 <= k < b.len() implies 0 <= #[trigger] b[k] < all.len() by { if k < at.len() { assert(*ps[k] == all[at[k]]); } }
    assert forall|k: int| 0 <= k < b.len() implies *(#[trigger] a[k]) == all[b[k]] by { if k < at.len() { assert(*ps[k] == all[at[k]]); } }
    assert forall|k: int| 0 <= k < b.len() implies 0 <= b[k] < all.len() && *(#[trigger] a[k]) == all[b[k]] by { }
}
pub open spec fn lists<'x, 'a>(m: Map<&'x str, Vec<&'a Product<'a>>>, w: Map<&'x str, Seq<int>>, all: Seq<Product<'a>>) -> bool {
    m.dom() == w.dom() && forall|t: &'x str| #[trigger] w.contains_key(t) ==> are_at(m[t]@, w[t], all)
}

impl<'a> Tag<'a> {
    /// The products of the tag, and the test for them, agree.
    pub open spec fn wf(&self) -> bool { forall|x: usize| #[trigger] self.products_by_serialization_id@.contains(x) <==> ids_of(self.products@).contains(x) }
/*@fn classic_indexes/tag.rs :: impl<'a> Tag<'a> :: fn new
@opt ret = r
@bind ( $name : & str , $products : Vec < & 'a Product < 'a > > , $id : usize )
@sub? $products . iter ( ) . map ( | $p | $p . serialization_id ) . collect ( ) ==> { let m = it_of($products.as_slice()).map(|$p: &&'a Product<'a>| -> (x: usize) ensures x == $p.serialization_id { $p.serialization_id }); proof { assert(rem(&m) =~= ids_of($products@)); } set_of(m) }
@spec
    ensures r.name@ == $name@, r.products == $products, r.id == $id, r.wf(),
@end
@*/
/*@fn classic_indexes/tag.rs :: impl<'a> Tag<'a> :: fn get_id
@opt ret = r
@spec
    ensures r == self.id,
@*/
/*@fn classic_indexes/tag.rs :: impl<'a> Tag<'a> :: fn contains
@opt ret = r
@bind ( & self , $product : & Product
@spec
    ensures r == self.products_by_serialization_id@.contains($product.serialization_id),
@*/
}
impl<'a> TagIndex<'a> {
/*@fn classic_indexes/tag.rs :: impl<'a> TagIndex<'a> :: fn index
@opt ret = r
@opt attr = #[verifier::loop_isolation(false)]
@opt loops = 2
@bind < 'out > ( $tags : Vec < Vec < & str > > , $container : & 'out ProductContainer < 'out > , )
@sub < 'out > ( $tags : Vec < Vec < & str > > ==> <'x, 'out>($tags: Vec<Vec<&'x str>>
@bind let mut $map : AHashMap
@sub? $tags . into_iter ( ) . enumerate ( ) ==> vec_it($tags).enumerate()
@sub? $map . into_iter ( ) . enumerate ( ) . map ( | ( $id , ( $name , $list ) ) | $$body ) . collect ( ) ==> map_it($map).enumerate().map(|e: (usize, (&'x str, Vec<&'out Product<'out>>))| -> (r: Tag<'out>) ensures r.name@ == (e.1).0@, r.products@ == (e.1).1@, r.id == e.0, r.wf() { let $id = e.0; let $name = (e.1).0; let $list = (e.1).1; $$body }).collect()
@sub? . entry ( $tag ) . and_modify ( | $v | $v . push ( $p ) ) . or_insert_with ( || vec ! [ $q ] ) ; ==> .add_to_tag($tag, $p, $q);
@sub? for $t1 in $ts1 { $map . add_to_tag ==> for $t1 in vec_it($ts1) { $map.add_to_tag
@desugar 1 feed
@spec
    requires numbered($container), $tags@.len() <= $container.products@.len(),
    ensures r.tagged($tags@, $container),
@start
    let ghost tags0 = $tags@;
    let ghost all = $container.products@;
    let ghost mut k: int = 0;
@before loop {
    let ghost steps = rem(&feed);
    proof { assert(steps.skip(0) =~= steps); assert(tags0.take(0) =~= Seq::empty()); assert($map@.dom() =~= piles(carried(tags0.take(0))).dom()); }
@loop 1
    invariant
        0 <= k <= tags0.len(), rem(&feed) == steps.skip(k),
        lists($map@, piles(carried(tags0.take(k))), all),
    decreases tags0.len() - k,
@in 1
    let ghost before = carried(tags0.take(k));
    let ghost here = tags0[k]@;
    proof {
        assert(steps.skip(k).skip(1) =~= steps.skip(k + 1)); assert(steps[k] == (k as usize, tags0[k]));
        assert(before + carried_by(here.take(0), k) =~= before);
    }
@iter 2 it
@loop 2
    invariant
        it.seq() == here,
        lists($map@, piles(before + carried_by(here.take(it.index@), k)), all),
@in 2
    let ghost m1 = $map@;
    let ghost c1 = before + carried_by(here.take(it.index@), k);
@endin 2
    proof {
        let t = here[it.index@];
        let c2 = before + carried_by(here.take(it.index@ + 1), k);
        assert(c2 =~= c1.push((t, k)));
        assert(c2.drop_last() =~= c1);
        assert($map@.dom() =~= piles(c2).dom());
        assert forall|x: &'x str| #[trigger] piles(c2).contains_key(x) implies are_at($map@[x]@, piles(c2)[x], all) by {
            if x != t { assert(piles(c1).contains_key(x)); assert(m1.contains_key(x)); assert(are_at(m1[x]@, piles(c1)[x], all)); assert($map@[x] == m1[x]); }
            else {
                let was = if m1.contains_key(t) { m1[t]@ } else { Seq::empty() };
                let at = if piles(c1).contains_key(t) { piles(c1)[t] } else { Seq::empty() };
                assert(are_at(was, at, all));
                assert($map@[t]@ == was.push(&all[k]));
                assert(piles(c2)[t] == at.push(k));
                one_more(was, at, &all[k], k, all);
            }
        }
    }
@endin 1
    proof {
        assert(here.take(here.len() as int) =~= here);
        assert(tags0.take(k + 1).drop_last() =~= tags0.take(k));
        k = k + 1;
    }
@before TagIndex (
    proof {
        assert(tags0.take(k) =~= tags0);
        index_done($map@, tags0, $container);
    }
@*/
/*@fn classic_indexes/tag.rs :: impl<'a> TagIndex<'a> :: fn get
@opt ret = r
@bind ( & 'a self , $i : usize
@sub? self . 0 . iter ( ) ; ==>
@spec
    ensures r == (if $i < self.0@.len() { Some(&self.0@[$i as int]) } else { None }),
@*/
    /// One tag per distinct tag, numbered by position, holding exactly the products that carry it.
    pub open spec fn tagged<'x>(&self, tags: Seq<Vec<&'x str>>, c: &ProductContainer<'a>) -> bool {
        self.numbers() && self.differ() && self.has_all(tags) && self.holds(tags)
    }
    pub open spec fn numbers(&self) -> bool { forall|k: int| 0 <= k < self.0@.len() ==> (#[trigger] self.0@[k]).id == k && self.0@[k].wf() }
    pub open spec fn differ(&self) -> bool { forall|k: int, l: int| 0 <= k < l < self.0@.len() ==> (#[trigger] self.0@[k]).name@ != (#[trigger] self.0@[l]).name@ }
    pub open spec fn has_all<'x>(&self, tags: Seq<Vec<&'x str>>) -> bool {
        forall|i: int, j: int| 0 <= i < tags.len() && 0 <= j < tags[i]@.len() ==> self.has_name((#[trigger] tags[i]@[j])@)
    }
    pub open spec fn has_name(&self, n: Seq<char>) -> bool { exists|k: int| 0 <= k < self.0@.len() && (#[trigger] self.0@[k]).name@ == n }
    pub open spec fn holds<'x>(&self, tags: Seq<Vec<&'x str>>) -> bool {
        forall|k: int, x: usize| 0 <= k < self.0@.len() ==> (#[trigger] self.0@[k].products_by_serialization_id@.contains(x) <==> carries(tags, x as int, self.0@[k].name@))
    }
}
/// What a finished collection says about tags made from it in any order.
pub proof fn index_done<'x, 'a>(m: Map<&'x str, Vec<&'a Product<'a>>>, tags: Seq<Vec<&'x str>>, c: &ProductContainer<'a>)
    requires numbered(c), tags.len() <= c.products@.len(), lists(m, piles(carried(tags)), c.products@)
    ensures forall|t: TagIndex<'a>, es: Seq<(&&'x str, &Vec<&'a Product<'a>>)>| #![trigger t.0@, entries(es, m)]
        entries(es, m) && es.len() == t.0@.len() && (forall|k: int| 0 <= k < es.len() ==> (#[trigger] t.0@[k]).id == k && t.0@[k].wf() && t.0@[k].name@ == (*es[k].0)@ && t.0@[k].products@ == (*es[k].1)@) ==> t.tagged(tags, c)
{
    broadcast use str_ext;
    piled(carried(tags));
    carried_is(tags);
    let w = piles(carried(tags));
    assert forall|t: TagIndex<'a>, es: Seq<(&&'x str, &Vec<&'a Product<'a>>)>| #![trigger t.0@, entries(es, m)]
        entries(es, m) && es.len() == t.0@.len() && (forall|k: int| 0 <= k < es.len() ==> (#[trigger] t.0@[k]).id == k && t.0@[k].wf() && t.0@[k].name@ == (*es[k].0)@ && t.0@[k].products@ == (*es[k].1)@) implies t.tagged(tags, c) by {
        assert forall|k: int, l: int| 0 <= k < l < t.0@.len() implies (#[trigger] t.0@[k]).name@ != (#[trigger] t.0@[l]).name@ by { assert(*es[k].0 != *es[l].0); }
        assert forall|i: int, j: int| 0 <= i < tags.len() && 0 <= j < tags[i]@.len() implies t.has_name((#[trigger] tags[i]@[j])@) by {
            assert(tags[i]@.contains(tags[i]@[j]));
            assert(carried(tags).contains((tags[i]@[j], i)));
            assert(m.contains_key(tags[i]@[j]));
            let k = choose|k: int| 0 <= k < es.len() && *(#[trigger] es[k]).0 == tags[i]@[j];
            assert(t.0@[k].name@ == tags[i]@[j]@);
        }
        assert forall|k: int, x: usize| 0 <= k < t.0@.len() implies (#[trigger] t.0@[k].products_by_serialization_id@.contains(x) <==> carries(tags, x as int, t.0@[k].name@)) by {
            let tag = t.0@[k];
            let name = *es[k].0;
            assert(m.contains_key(name));
            let ps = tag.products@;
            assert(are_at(ps, w[name], c.products@));
            if tag.products_by_serialization_id@.contains(x) {
                assert(ids_of(ps).contains(x));
                let q = choose|q: int| 0 <= q < ids_of(ps).len() && ids_of(ps)[q] == x;
                assert(*ps[q] == c.products@[w[name][q]]);
                assert(w[name][q] == x);
                assert(w[name].contains(x as int));
                assert(carried(tags).contains((name, x as int)));
                let j = choose|j: int| 0 <= j < tags[x as int]@.len() && tags[x as int]@[j] == name;
                assert(tags[x as int]@[j]@ == tag.name@);
            }
            if carries(tags, x as int, tag.name@) {
                let j = choose|j: int| 0 <= j < tags[x as int]@.len() && (#[trigger] tags[x as int]@[j])@ == tag.name@;
                assert(tags[x as int]@[j] == name);
                assert(tags[x as int]@.contains(name));
                assert(carried(tags).contains((name, x as int)));
                let q = choose|q: int| 0 <= q < w[name].len() && w[name][q] == x;
                assert(*ps[q] == c.products@[w[name][q]]);
                assert(ids_of(ps)[q] == x);
            }
        }
        assert forall|k: int| 0 <= k < t.0@.len() implies (#[trigger] t.0@[k]).id == k && t.0@[k].wf() by { }
        assert(t.numbers());
        assert(t.differ());
        assert(t.has_all(tags));
        assert(t.holds(tags));
    }
}
pub open spec fn carries<'x>(tags: Seq<Vec<&'x str>>, i: int, name: Seq<char>) -> bool {
    0 <= i < tags.len() && exists|j: int| 0 <= j < tags[i]@.len() && (#[trigger] tags[i]@[j])@ == name
}
impl<'x, 'out> AHashMap<&'x str, Vec<&'out Product<'out>>> {
    pub fn add_to_tag(&mut self, k: &'x str, p: &'out Product<'out>, q: &'out Product<'out>)
        requires p == q
        ensures final(self)@.dom() == old(self)@.dom().insert(k),
            final(self)@[k]@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { Seq::empty() }).push(p),
            forall|x: &'x str| x != k && old(self)@.contains_key(x) ==> #[trigger] final(self)@[x] == old(self)@[x],
    {
        match self.entry(k) {
            Entry::Occupied(mut slot) => { let v = slot.get_mut(); v.push(p); }
            Entry::Vacant(slot) => { let mut v = Vec::new(); v.push(q); slot.insert(v); }
        }
    }
}
