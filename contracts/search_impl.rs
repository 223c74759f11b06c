// ---- matching grams and ranking products --------------------------------------------------

pub trait HashExtractable { 
    type Inner;
    spec fn key(&self) -> Self::Inner;
    fn extract(&self) -> (r: &Self::Inner)
        ensures *r == self.key();
}
#[verifier::reject_recursive_types(H)]
/*@item ngram/result_ranker.rs :: struct ResultRanker @*/

impl HashExtractable for Product<'_> {
    type Inner = String;
    open spec fn key(&self) -> String { self.id }
/*@fn ngram/result_ranker.rs :: impl HashExtractable for Product<'_> :: fn extract
@opt ret = r
@spec
@*/
}

// ---- ranking

/// What has been collected: per key the first item with it and the sum of its confidences.
pub open spec fn tally<'a, H, Data: HashExtractable<Inner = H>>(hits: Seq<(&'a Data, f32)>) -> Map<&'a H, (&'a Data, f32)>
    decreases hits.len()
{
    if hits.len() == 0 { Map::empty() } else {
        let (d, c) = hits.last();
        let m = tally::<H, Data>(hits.drop_last());
        let k = &d.key();
        if m.contains_key(k) { m.insert(k, (m[k].0, fadd(m[k].1, c))) } else { m.insert(k, (d, c)) }
    }
}
pub open spec fn ranked<'a, H, Data: HashExtractable<Inner = H>>(m: Map<&'a H, (&'a Data, f32)>, r: Seq<(&'a Data, f32)>) -> bool {
    exists|es: Seq<(&&'a H, &(&'a Data, f32))>| #[trigger] entries(es, m) && es.len() == r.len()
        && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == *es[i].1)
        && ((forall|k: &H| #[trigger] m.contains_key(k) ==> !nan(m[k].1)) ==> forall|i: int, j: int| 0 <= i < j < r.len() ==> !fgt((#[trigger] r[j]).1, (#[trigger] r[i]).1))
}

/// Exactly the items that were hit are tallied, each under its own key.
pub proof fn tallied<'a, H, Data: HashExtractable<Inner = H>>(hits: Seq<(&'a Data, f32)>)
    ensures
        forall|k: &'a H| #[trigger] tally::<H, Data>(hits).contains_key(k) <==> exists|i: int| 0 <= i < hits.len() && &(#[trigger] hits[i]).0.key() == k,
        forall|k: &'a H| #[trigger] tally::<H, Data>(hits).contains_key(k) ==> &tally::<H, Data>(hits)[k].0.key() == k
            && exists|i: int| 0 <= i < hits.len() && (#[trigger] hits[i]).0 == tally::<H, Data>(hits)[k].0,
    decreases hits.len()
{
    let t = tally::<H, Data>(hits);
    if hits.len() > 0 {
        let h0 = hits.drop_last();
        let t0 = tally::<H, Data>(h0);
        tallied::<H, Data>(h0);
        let last = hits.last();
        assert forall|k: &'a H| #[trigger] t.contains_key(k) <==> exists|i: int| 0 <= i < hits.len() && &(#[trigger] hits[i]).0.key() == k by {
            if t.contains_key(k) {
                if k == &last.0.key() { assert(hits[hits.len() - 1] == last); }
                else {
                    assert(t0.contains_key(k));
                    let i = choose|i: int| 0 <= i < h0.len() && &(#[trigger] h0[i]).0.key() == k;
                    assert(hits[i] == h0[i]);
                }
            }
            if exists|i: int| 0 <= i < hits.len() && &(#[trigger] hits[i]).0.key() == k {
                let i = choose|i: int| 0 <= i < hits.len() && &(#[trigger] hits[i]).0.key() == k;
                if i < h0.len() { assert(h0[i] == hits[i]); assert(t0.contains_key(k)); }
            }
        }
        assert forall|k: &'a H| #[trigger] t.contains_key(k) implies &t[k].0.key() == k && exists|i: int| 0 <= i < hits.len() && (#[trigger] hits[i]).0 == t[k].0 by {
            if t0.contains_key(k) {
                let i = choose|i: int| 0 <= i < h0.len() && (#[trigger] h0[i]).0 == t0[k].0;
                assert(hits[i] == h0[i]);
            } else { assert(hits[hits.len() - 1] == last); }
        }
    }
}
/// Of the results of a search: every item once per key, and exactly the items that were hit.
pub proof fn each_product_once<'a, H, Data: HashExtractable<Inner = H>>(hits: Seq<(&'a Data, f32)>, r: Seq<(&'a Data, f32)>)
    requires ranked::<H, Data>(tally::<H, Data>(hits), r)
    ensures
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.key() != (#[trigger] r[j]).0.key(),
        forall|i: int| 0 <= i < r.len() ==> exists|h: int| 0 <= h < hits.len() && (#[trigger] hits[h]).0 == (#[trigger] r[i]).0,
        forall|h: int| 0 <= h < hits.len() ==> exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.key() == (#[trigger] hits[h]).0.key(),
{
    tallied::<H, Data>(hits);
    let m = tally::<H, Data>(hits);
    let es = choose|es: Seq<(&&'a H, &(&'a Data, f32))>| #[trigger] entries(es, m) && es.len() == r.len()
        && (forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == *es[i].1);
    assert forall|i: int| 0 <= i < r.len() implies m.contains_key(*es[i].0) && m[*es[i].0] == #[trigger] r[i] by { }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies (#[trigger] r[i]).0.key() != (#[trigger] r[j]).0.key() by {
        assert(m.contains_key(*es[i].0) && m.contains_key(*es[j].0));
        assert(*es[i].0 != *es[j].0);
    }
    assert forall|i: int| 0 <= i < r.len() implies exists|h: int| 0 <= h < hits.len() && (#[trigger] hits[h]).0 == (#[trigger] r[i]).0 by { assert(m.contains_key(*es[i].0)); }
    assert forall|h: int| 0 <= h < hits.len() implies exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.key() == (#[trigger] hits[h]).0.key() by {
        let k = &hits[h].0.key();
        assert(m.contains_key(k));
        let i = choose|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == k;
        assert(r[i] == *es[i].1);
    }
}

impl<'a, H, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Data> {
/*@fn ngram/result_ranker.rs :: impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Data> :: fn new
@opt ret = r
@spec
    ensures r.confidence_for_data@ == tally::<H, Data>(Seq::empty()),
@*/
/*@fn ngram/result_ranker.rs :: impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Data> :: fn add
@bind & 'b mut self , $data : & 'a Data , $confidence : f32
@sub? self . confidence_for_data . entry ( $h ) . and_modify ( | ( _ , $cur ) | * $cur += $c ) . or_insert ( $$v ) ; ==> match self.confidence_for_data.entry($h) { Entry::Occupied(mut slot) => { let pair = slot.get_mut(); pair.1 = f32_add(pair.1, $c); } Entry::Vacant(slot) => { slot.insert($$v); } }
@spec
    ensures forall|hits: Seq<(&'a Data, f32)>| old(self).confidence_for_data@ == tally::<H, Data>(hits) ==> final(self).confidence_for_data@ == #[trigger] tally::<H, Data>(hits.push(($data, $confidence))),
@start
    let ghost m0 = self.confidence_for_data@;
    proof {
        assert forall|hits: Seq<(&'a Data, f32)>| #[trigger] hits.push(($data, $confidence)).len() > 0 implies
            hits.push(($data, $confidence)).drop_last() == hits && hits.push(($data, $confidence)).last() == ($data, $confidence) by {
            assert(hits.push(($data, $confidence)).drop_last() =~= hits);
        }
    }
@*/
/*@fn ngram/result_ranker.rs :: impl<'a, H: Hash + Eq, Data: HashExtractable<Inner = H>> ResultRanker<'a, H, Data> :: fn export_data_by_confidence
@opt ret = r
@sub ( mut self ) ==> (self)
@bind $all . sort_by ( | ( _ , $a ) , ( _ , $b ) |
@sub? self . confidence_for_data . drain ( ) . map ( | ( _ , $v ) | $v ) ==> me.confidence_for_data.drain().map(|e: (&'a H, (&'a Data, f32))| -> (v: (&'a Data, f32)) ensures v == e.1 { e.1 })
@sub? $a . partial_cmp ( $b ) . unwrap_or ( std :: cmp :: Ordering :: Equal ) ==> f32_cmp_or_equal($a, $b)
@sub $all . sort_by ( | ( _ , $a ) , ( _ , $b ) | { $$body } ) ; ==> sort_by(&mut $all, |x: &(&'a Data, f32), y: &(&'a Data, f32)| -> (o: core::cmp::Ordering) ensures o == fcmp(y.1, x.1) { let $a = &x.1; let $b = &y.1; $$body }, Ghost(best_first::<Data>()));
@spec
    ensures ranked(self.confidence_for_data@, r@),
@start
    let mut me = self;
    let ghost m0 = self.confidence_for_data@;
    broadcast use fgt_asym;
@before sort_by
    let ghost before = $all@;
@after sort_by ( $$args ) ;
    proof {
        let es = choose|es: Seq<(&&'a H, &(&'a Data, f32))>| #[trigger] entries(es, m0) && es.len() == before.len()
            && forall|i: int| 0 <= i < es.len() ==> #[trigger] before[i] == *es[i].1;
        let p = choose|p: Seq<int>| #[trigger] reordered(before, $all@, p) && (total_on(best_first::<Data>(), before) ==> sorted_by(best_first::<Data>(), before, $all@, p));
        entries_reordered(es, m0, p);
        let es2 = shuffled(es, p);
        assert forall|i: int| 0 <= i < $all@.len() implies #[trigger] $all@[i] == *es2[i].1 by { }
        if forall|k: &H| #[trigger] m0.contains_key(k) ==> !nan(m0[k].1) {
            assert forall|i: int| 0 <= i < before.len() implies !nan((#[trigger] before[i]).1) by { assert(m0.contains_key(*es[i].0)); }
            numbers_are_ordered::<Data>(before);
            assert forall|i: int, j: int| 0 <= i < j < $all@.len() implies !fgt((#[trigger] $all@[j]).1, (#[trigger] $all@[i]).1) by {
                assert(best_first::<Data>()($all@[i], $all@[j]));
            }
        }
    }
@*/
}
pub open spec fn shuffled<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(s.len(), |i: int| s[p[i]]) }
pub proof fn entries_reordered<K, V>(es: Seq<(&K, &V)>, m: Map<K, V>, p: Seq<int>)
    requires entries(es, m), perm(p, es.len())
    ensures entries(shuffled(es, p), m)
{
    let e2 = shuffled(es, p);
    assert forall|i: int, j: int| 0 <= i < j < e2.len() implies *(#[trigger] e2[i]).0 != *(#[trigger] e2[j]).0 by {
        if p[i] < p[j] { assert(*es[p[i]].0 != *es[p[j]].0); } else { assert(*es[p[j]].0 != *es[p[i]].0); }
    }
    assert forall|k: K| #[trigger] m.contains_key(k) implies exists|i: int| 0 <= i < e2.len() && *(#[trigger] e2[i]).0 == k by {
        let i = choose|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == k;
        perm_onto(p, es.len(), i);
        let j = choose|j: int| 0 <= j < p.len() && #[trigger] p[j] == i;
        assert(*e2[j].0 == k);
    }
}
pub proof fn numbers_are_ordered<'a, Data>(s: Seq<(&'a Data, f32)>)
    requires forall|i: int| 0 <= i < s.len() ==> !nan((#[trigger] s[i]).1)
    ensures total_on(best_first::<Data>(), s)
{
    broadcast use fgt_asym;
    broadcast use fgt_trans;
}
pub open spec fn best_first<'a, Data>() -> spec_fn((&'a Data, f32), (&'a Data, f32)) -> bool { |x: (&'a Data, f32), y: (&'a Data, f32)| !fgt(y.1, x.1) }

// ---- reading a gram from a query -----------------------------------------------------------

pub open spec fn rest<G>(s: Seq<G>) -> Seq<G> { if s.len() == 0 { s } else { s.skip(1) } }
pub open spec fn child<'a, G: GramAtom>(node: &GramNode<'a, G>, g: G) -> Option<&'a GramNode<'a, G>> {
    if node.items@.contains_key(g) { Some(node.items@[g]) } else { None }
}
/// The child for the next character of the query.
pub open spec fn typed<'a, G: GramAtom>(node: &GramNode<'a, G>, input: Seq<G>) -> Option<&'a GramNode<'a, G>> {
    if input.len() > 0 { child(node, input[0]) } else { None }
}
pub open spec fn item_of<'a, G: GramAtom>(c: Option<&'a GramNode<'a, G>>) -> Option<G> { match c { Some(c) => Some(c.item), None => None } }
/// A child that is not the one typed.
pub open spec fn other<'a, G: GramAtom>(node: &GramNode<'a, G>, input: Seq<G>, c: &'a GramNode<'a, G>) -> bool {
    node.by_occurances@.contains(c) && Some(c.item) != item_of(typed(node, input))
}
/// Where a reading stands: the node reached, the one before it (with the weight up to there;
/// none after a dropped character), what is left of the query, the corrections made,
/// the weight so far and the gram so far.
#[verifier::reject_recursive_types(G)]
pub struct At<'a, G: GramAtom> {
    pub node: &'a GramNode<'a, G>,
    pub before: Option<(&'a GramNode<'a, G>, f32)>,
    pub input: Seq<G>,
    pub changes: nat,
    pub weight: f32,
    pub out: Seq<G>,
    pub index: nat,
}
/// As typed, replaced or added: on to a child.
pub open spec fn onto<'a, G: GramAtom>(a: At<'a, G>, c: &'a GramNode<'a, G>, input: Seq<G>, cost: nat) -> At<'a, G> {
    At { node: c, before: Some((a.node, a.weight)), input, changes: a.changes + cost, weight: fmul(a.weight, c.weight),
         out: a.out.update(a.index as int, c.item), index: a.index + 1 }
}
/// The character read last dropped in favour of the next.
pub open spec fn instead<'a, G: GramAtom>(a: At<'a, G>) -> Option<At<'a, G>> {
    match a.before {
        Some((node, weight)) => match typed(node, a.input) {
            Some(c) => Some(At { node: c, before: None, input: rest(a.input), changes: a.changes + 1, weight: fmul(weight, c.weight),
                                 out: a.out.update(a.index - 1, c.item), index: a.index }),
            None => None,
        },
        None => None,
    }
}
/// A way to read on until the gram has n characters.
pub open spec fn reading<'a, G: GramAtom>(a: At<'a, G>, n: nat, limit: nat, r: (Seq<G>, f32)) -> bool
    decreases n - a.index, a.input.len(), 1int
{
    if a.index >= n { r == (a.out, a.weight) } else {
        ||| typed(a.node, a.input) matches Some(c) && reading(onto(a, c, rest(a.input), 0), n, limit, r)
        ||| a.changes < limit && reading_changed(a, n, limit, r)
    }
}
pub open spec fn reading_changed<'a, G: GramAtom>(a: At<'a, G>, n: nat, limit: nat, r: (Seq<G>, f32)) -> bool
    decreases n - a.index, a.input.len(), 0int
{
    ||| exists|c: &'a GramNode<'a, G>| #[trigger] other(a.node, a.input, c) && a.index < n && (reading(onto(a, c, rest(a.input), 1), n, limit, r) || reading(onto(a, c, a.input, 2), n, limit, r))
    ||| a.input.len() > 0 && (instead(a) matches Some(b) && rest(a.input).len() < a.input.len() && reading(b, n, limit, r))
}

pub type Gram<G> = (Seq<G>, f32);
/// r is one of these with no other above it, or there are none.
pub open spec fn best_of<G, const N: usize>(p: spec_fn(Gram<G>) -> bool, r: Option<([G; N], f32)>) -> bool {
    match r {
        Some((g, c)) => p((g@, c)) && ((forall|q: Gram<G>| #[trigger] p(q) ==> !nan(q.1)) ==> forall|q: Gram<G>| #[trigger] p(q) ==> !fgt(q.1, c)),
        None => forall|q: Gram<G>| !#[trigger] p(q),
    }
}
pub open spec fn readings<'a, G: GramAtom>(a: At<'a, G>, n: nat, limit: nat) -> spec_fn(Gram<G>) -> bool { |q: Gram<G>| reading(a, n, limit, q) }
pub open spec fn either<G>(p: spec_fn(Gram<G>) -> bool, q: spec_fn(Gram<G>) -> bool) -> spec_fn(Gram<G>) -> bool { |x: Gram<G>| p(x) || q(x) }
pub open spec fn nowhere<G>() -> spec_fn(Gram<G>) -> bool { |x: Gram<G>| false }
pub open spec fn better<G, const N: usize>(a: Option<([G; N], f32)>, b: Option<([G; N], f32)>, r: Option<([G; N], f32)>) -> bool {
    match (a, b) {
        (None, _) => r == b,
        (_, None) => r == a,
        (Some(x), Some(y)) => (r == a && !fgt(y.1, x.1)) || (r == b && !fgt(x.1, y.1)),
    }
}
pub proof fn best_either<G, const N: usize>(p: spec_fn(Gram<G>) -> bool, q: spec_fn(Gram<G>) -> bool, a: Option<([G; N], f32)>, b: Option<([G; N], f32)>, r: Option<([G; N], f32)>)
    requires best_of(p, a), best_of(q, b), better(a, b, r)
    ensures best_of(either(p, q), r)
{
    let e = either(p, q);
    assert forall|x: Gram<G>| #[trigger] p(x) || #[trigger] q(x) implies e(x) by { }
    if forall|x: Gram<G>| #[trigger] e(x) ==> !nan(x.1) {
        assert forall|x: Gram<G>| #[trigger] p(x) implies !nan(x.1) by { assert(e(x)); }
        assert forall|x: Gram<G>| #[trigger] q(x) implies !nan(x.1) by { assert(e(x)); }
        if let Some((g, c)) = r {
            assert forall|x: Gram<G>| #[trigger] e(x) implies !fgt(x.1, c) by {
                if let (Some(x1), Some(x2)) = (a, b) {
                    assert(p((x1.0@, x1.1)) && q((x2.0@, x2.1)));
                    broadcast use fgt_trans;
                    if p(x) { assert(!fgt(x.1, x1.1)); } else { assert(!fgt(x.1, x2.1)); }
                }
            }
        }
    }
}
pub proof fn best_same<G, const N: usize>(p: spec_fn(Gram<G>) -> bool, q: spec_fn(Gram<G>) -> bool, r: Option<([G; N], f32)>)
    requires best_of(p, r), forall|x: Gram<G>| #![trigger p(x)] #![trigger q(x)] p(x) <==> q(x)
    ensures best_of(q, r)
{
    assert forall|x: Gram<G>| #[trigger] p(x) implies q(x) by { }
    assert forall|x: Gram<G>| #[trigger] q(x) implies p(x) by { }
}

/// `&input[1..]` of a slice that is not empty
#[verifier::external_body]
pub fn slice_from<T>(s: &[T], n: usize) -> (r: &[T])
    requires n <= s@.len()
    ensures r@ == s@.skip(n as int)
{ unimplemented!() }
/// `&[]`
#[verifier::external_body]
pub fn no_slice<'a, T>() -> (r: &'a [T])
    ensures r@ == Seq::<T>::empty()
{ unimplemented!() }
/// `==` of grams is equality
#[verifier::external_body]
pub fn opt_ne<G: GramAtom>(a: Option<G>, b: Option<G>) -> (r: bool)
    ensures r == (a != b)
{ unimplemented!() }
/// `Iterator::copied`
#[verifier::external_body]
pub fn copied_it<'a, T>(i: It<&'a T>) -> (r: It<T>)
    ensures rem(&r) == derefs(rem(&i))
{ unimplemented!() }
/// The children taken so far.
pub open spec fn through<'a, G: GramAtom>(a: At<'a, G>, cs: Seq<&'a GramNode<'a, G>>, n: nat, limit: nat) -> spec_fn(Gram<G>) -> bool {
    |q: Gram<G>| exists|i: int| 0 <= i < cs.len() && (reading(onto(a, #[trigger] cs[i], rest(a.input), 1), n, limit, q) || reading(onto(a, cs[i], a.input, 2), n, limit, q))
}
pub open spec fn as_typed<'a, G: GramAtom>(a: At<'a, G>, n: nat, limit: nat) -> spec_fn(Gram<G>) -> bool {
    |q: Gram<G>| typed(a.node, a.input) matches Some(c) && reading(onto(a, c, rest(a.input), 0), n, limit, q)
}
pub open spec fn as_dropped<'a, G: GramAtom>(a: At<'a, G>, n: nat, limit: nat) -> spec_fn(Gram<G>) -> bool {
    |q: Gram<G>| a.input.len() > 0 && (instead(a) matches Some(b) && reading(b, n, limit, q))
}

pub proof fn filtered_refs<'a, T>(s: Seq<&'a T>, p: spec_fn(&&'a T) -> bool, x: &'a T)
    ensures derefs(refs(s).filter(p)).contains(x) <==> s.contains(x) && p(&x)
{
    broadcast use vstd::seq_lib::group_filter_ensures;
    let f = refs(s).filter(p);
    let d = derefs(f);
    if d.contains(x) {
        let i = choose|i: int| 0 <= i < d.len() && d[i] == x;
        refs(s).lemma_filter_contains_rev(p, f[i]);
        assert(f.contains(f[i]));
        let j = choose|j: int| 0 <= j < refs(s).len() && refs(s)[j] == f[i];
        assert(s[j] == x);
    }
    if s.contains(x) && p(&x) {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == x;
        assert(refs(s)[j] == &x);
        refs(s).lemma_filter_contains(p, j);
        let i = choose|i: int| 0 <= i < f.len() && f[i] == &x;
        assert(d[i] == x);
    }
}
pub proof fn through_one_more<'a, G: GramAtom>(a: At<'a, G>, cs: Seq<&'a GramNode<'a, G>>, k: int, n: nat, limit: nat, q: Gram<G>)
    requires 0 <= k < cs.len()
    ensures through(a, cs.take(k + 1), n, limit)(q) <==> through(a, cs.take(k), n, limit)(q)
        || reading(onto(a, cs[k], rest(a.input), 1), n, limit, q) || reading(onto(a, cs[k], a.input, 2), n, limit, q)
{
    let s = cs.take(k); let t = cs.take(k + 1);
    assert forall|i: int| 0 <= i < k implies #[trigger] s[i] == t[i] by { }
    assert(t[k] == cs[k]);
    if through(a, s, n, limit)(q) {
        let i = choose|i: int| 0 <= i < s.len() && (reading(onto(a, #[trigger] s[i], rest(a.input), 1), n, limit, q) || reading(onto(a, s[i], a.input, 2), n, limit, q));
        assert(t[i] == s[i]);
    }
    if through(a, t, n, limit)(q) {
        let i = choose|i: int| 0 <= i < t.len() && (reading(onto(a, #[trigger] t[i], rest(a.input), 1), n, limit, q) || reading(onto(a, t[i], a.input, 2), n, limit, q));
        if i < k { assert(t[i] == s[i]); }
    }
}

impl<'a, G: GramAtom, Data: Ord + HashExtractable, const N: usize> GramIndex<'a, G, Data, N> {
/*@fn ngram/index.rs :: impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize> GramIndex<'a, G, Data, N> :: fn recursive_search
@opt ret = r
@bind ( $input : & [ G ] , $node : & GramNode < '_ , G > , $before : Option < ( & GramNode < '_ , G > , f32 ) > , $changes : u8 , $limit : u8 , $weight : f32 , $out : [ G ; N ] , $index : usize ,
@sub let $best = | $a : $$ta , $b : $$tb | { $$body } ; ==> let $best = |$a: $$ta, $b: $$tb| -> (r: Option<([G; N], f32)>) ensures better($a, $b, r) { $$body };
@sub? $a . 1 > $b . 1 ==> f32_gt($a.1, $b.1)
@sub? $input . get ( 0 ) . and_then ( | $g | $node . items . get ( $g ) ) ==> match $input.get(0) { Some($g) => $node.items.get($g), None => None }
@sub? user_entered . map ( | $v | $v . item ) ==> match user_entered { Some($v) => Some($v.item), None => None }
@sub? { & [ ] } ==> { no_slice() }
@sub? & $input [ 1 .. ] ==> slice_from($input, 1)
@sub? $node . by_occurances . iter ( ) . filter ( | $p | Some ( $p . item ) != $typed ) . copied ( ) ==> copied_it(it_of($node.by_occurances.as_slice()).filter(|$p: &&&GramNode<'_, G>| -> (b: bool) ensures b == (Some($p.item) != $typed) { opt_ne(Some($p.item), $typed) }, Ghost(|c: &&GramNode<'_, G>| Some(c.item) != $typed)))
@sub? $w * $n . weight ==> f32_mul($w, $n.weight)
@sub? $before . map ( | ( $n2 , $w2 ) | ( $n2 . items . get ( $g2 ) , $w2 ) ) ==> match $before { Some(($n2, $w2)) => Some(($n2.items.get($g2), $w2)), None => None }
@spec
    requires 1 <= $index <= N, $changes <= $limit + 1, $limit < 255,
    ensures best_of(readings(At { node: $node, before: $before, input: $input@, changes: $changes as nat, weight: $weight, out: $out@, index: $index as nat }, N as nat, $limit as nat), r),
    decreases N - $index, $input@.len(),
@opt attr = #[verifier::loop_isolation(false)]
@opt loops = 1
@start
    let ghost n = N as nat;
    let ghost lim = $limit as nat;
    let ghost at: At<'_, G> = At { node: $node, before: $before, input: $input@, changes: $changes as nat, weight: $weight, out: $out@, index: $index as nat };
    let ghost at_before = $before;
    let ghost in0 = $input@;
    let ghost mut children = nowhere::<G>();
    let ghost mut taken: Seq<&GramNode<'_, G>> = Seq::empty();
    let ghost mut before_drop: Option<([G; N], f32)> = None;
    broadcast use fgt_asym;
@bind let mut $so_far = None ;
@bind let $user = match $input . get ( 0 )
@bind let $typed = match $user
@bind let $next = if
@before if $limit > $changes
    assert($next@ =~= rest(in0));
    proof {
        match typed(at.node, at.input) {
            Some(c) => { best_same(readings(onto(at, c, rest(at.input), 0), n, lim), as_typed(at, n, lim), $so_far); }
            None => { assert forall|q: Gram<G>| !#[trigger] as_typed(at, n, lim)(q) by { } }
        }
        if at.changes >= lim { best_same(as_typed(at, n, lim), readings(at, n, lim), $so_far); }
    }
@bind let $popular = copied_it
@bind let $found = Self :: recursive_search ( $$aa ) ; $so_far = $best ( $found , $so_far ) ; }
@bind for $child in $popular
@bind let $found2 = Self :: recursive_search ( $$bb ) ; let $again = Self :: recursive_search
@iter 1 it
@before for $child in
    let ghost cs = rem(&$popular);
    proof {
        assert(cs.take(0) =~= Seq::empty());
        assert forall|q: Gram<G>| !#[trigger] through(at, cs.take(0), n, lim)(q) by { }
        best_same(as_typed(at, n, lim), either(as_typed(at, n, lim), through(at, cs.take(0), n, lim)), $so_far);
    }
@loop 1
    invariant
        it.seq() == cs,
        best_of(either(as_typed(at, n, lim), through(at, cs.take(it.index@), n, lim)), $so_far),
@in 1
    let ghost prev = $so_far;
    let ghost k = it.index@;
@endin 1
    proof {
        let c = cs[k];
        assert($child == c);
        let p1 = readings(onto(at, c, rest(at.input), 1), n, lim);
        let p2 = readings(onto(at, c, at.input, 2), n, lim);
        let mid = choose|mid: Option<([G; N], f32)>| #[trigger] better($found2, $again, mid) && better(mid, prev, $so_far);
        best_either(p1, p2, $found2, $again, mid);
        let before = either(as_typed(at, n, lim), through(at, cs.take(k), n, lim));
        best_either(either(p1, p2), before, mid, prev, $so_far);
        let now = either(as_typed(at, n, lim), through(at, cs.take(k + 1), n, lim));
        assert forall|q: Gram<G>| #![trigger now(q)] now(q) <==> either(either(p1, p2), before)(q) by { through_one_more(at, cs, k, n, lim, q); }
        best_same(either(either(p1, p2), before), now, $so_far);
    }
@afterloop 1
    assert(cs.take(cs.len() as int) =~= cs);
    proof {
        children = either(as_typed(at, n, lim), through(at, cs, n, lim));
        before_drop = $so_far;
        taken = cs;
        assert forall|c: &GramNode<'_, G>| #[trigger] cs.contains(c) <==> other(at.node, at.input, c) by {
            filtered_refs(at.node.by_occurances@, |c: &&GramNode<'_, G>| Some(c.item) != $typed, c);
        }
    }
@bind let mut $out3 = $out ; $out3 [ $index - 1 ] = $last . item ; let $found3 = Self :: recursive_search
@after $index , ) ; $so_far = $best ( $found3 , $so_far ) ;
    proof {
        assert(in0 == at.input);
        best_same(readings(instead(at).unwrap(), n, lim), as_dropped(at, n, lim), $found3);
        best_either(as_dropped(at, n, lim), children, $found3, before_drop, $so_far);
    }
@after $index , ) ; $so_far = $best ( $found3 , $so_far ) ; } } }
    proof {
        if at.changes < lim {
            if in0.len() == 0 || instead(at) is None {
                assert forall|q: Gram<G>| !#[trigger] as_dropped(at, n, lim)(q) by { }
                best_same(children, either(as_dropped(at, n, lim), children), $so_far);
            }
            assert forall|q: Gram<G>| #![trigger readings(at, n, lim)(q)] readings(at, n, lim)(q) <==> either(as_dropped(at, n, lim), children)(q) by {
                reveal_with_fuel(reading, 2);
                reveal_with_fuel(reading_changed, 2);
                if reading(at, n, lim, q) {
                    if exists|c: &GramNode<'_, G>| #[trigger] other(at.node, at.input, c) && at.index < n && (reading(onto(at, c, rest(at.input), 1), n, lim, q) || reading(onto(at, c, at.input, 2), n, lim, q)) {
                        let c = choose|c: &GramNode<'_, G>| #[trigger] other(at.node, at.input, c) && at.index < n && (reading(onto(at, c, rest(at.input), 1), n, lim, q) || reading(onto(at, c, at.input, 2), n, lim, q));
                        assert(taken.contains(c));
                        let i = choose|i: int| 0 <= i < taken.len() && taken[i] == c;
                        assert(through(at, taken, n, lim)(q));
                    }
                }
                if through(at, taken, n, lim)(q) {
                    let i = choose|i: int| 0 <= i < taken.len() && (reading(onto(at, #[trigger] taken[i], rest(at.input), 1), n, lim, q) || reading(onto(at, taken[i], at.input, 2), n, lim, q));
                    assert(taken.contains(taken[i]));
                    assert(other(at.node, at.input, taken[i]));
                }
            }
            best_same(either(as_dropped(at, n, lim), children), readings(at, n, lim), $so_far);
        }
    }
@*/

/*@fn ngram/index.rs :: impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize> GramIndex<'a, G, Data, N> :: fn search_gram
@opt ret = r
@bind & self , $query : [ G ; N ]
@sub? $query . get ( 0 ) ? ==> $query.as_slice().get(0)?
@sub? [ G :: default ( ) ; N ] ==> no_grams::<G, N>()
@sub? & $query [ 1 .. ] ==> slice_from($query.as_slice(), 1)
@sub? u8 :: try_from ( $$n ) . unwrap ( ) ==> u8_of($$n)
@spec
    requires N < 765,
    ensures matched(self, $query@, r),
@*/
}
/// `u8::try_from(n).unwrap()`
#[verifier::external_body]
pub fn u8_of(n: usize) -> (r: u8)
    requires n < 256
    ensures r == n
{ unimplemented!() }

// ---- searching

/// The products listed under a matched gram, each with the confidence of the match.
pub open spec fn listed<'a, G: GramAtom, Data: Ord, const N: usize>(index: &GramIndex<'a, G, Data, N>, a: Option<([G; N], f32)>) -> Seq<(&'a Data, f32)> {
    match a {
        Some((g, c)) => if index.data@.contains_key(g) { with(index.data@[g]@, c) } else { Seq::empty() },
        None => Seq::empty(),
    }
}
pub open spec fn with<'a, Data>(ds: Seq<&'a Data>, c: f32) -> Seq<(&'a Data, f32)> { ds.map_values(|d: &'a Data| (d, c)) }
pub open spec fn hits<'a, G: GramAtom, Data: Ord, const N: usize>(index: &GramIndex<'a, G, Data, N>, answers: Seq<Option<([G; N], f32)>>) -> Seq<(&'a Data, f32)>
    decreases answers.len()
{
    if answers.len() == 0 { Seq::empty() } else { hits(index, answers.drop_last()) + listed(index, answers.last()) }
}
pub proof fn one_more_answer<'a, G: GramAtom, Data: Ord, const N: usize>(index: &GramIndex<'a, G, Data, N>, answers: Seq<Option<([G; N], f32)>>, a: Option<([G; N], f32)>)
    ensures hits(index, answers.push(a)) == hits(index, answers) + listed(index, a), listed(index, a).len() == 0 ==> hits(index, answers.push(a)) == hits(index, answers)
{
    assert(answers.push(a).drop_last() =~= answers);
    if listed(index, a).len() == 0 { assert(hits(index, answers) + listed(index, a) =~= hits(index, answers)); }
}
pub open spec fn answered<'a, G: GramAtom, Data: Ord, const N: usize>(index: &GramIndex<'a, G, Data, N>, input: Seq<G>, answers: Seq<Option<([G; N], f32)>>) -> bool {
    forall|i: int| 0 <= i < answers.len() ==> matched(index, window(input, i + 1, N as nat), #[trigger] answers[i])
}
impl<'a, G: GramAtom, Data: Ord + HashExtractable, const N: usize> GramIndex<'a, G, Data, N> {
    /// The result of a search: what the grams of the query are matched with, tallied and ranked.
    pub open spec fn found(&self, input: Seq<G>, r: Seq<(&'a Data, f32)>) -> bool {
        exists|answers: Seq<Option<([G; N], f32)>>| answers.len() == input.len() && #[trigger] answered(self, input, answers)
            && ranked::<<Data as HashExtractable>::Inner, Data>(tally::<<Data as HashExtractable>::Inner, Data>(hits(self, answers)), r)
    }
/*@fn ngram/index.rs :: impl<'a, G: GramAtom, Data: Ord + HashExtractable + Debug, const N: usize> GramIndex<'a, G, Data, N> :: fn search
@opt ret = r
@opt attr = #[verifier::loop_isolation(false)]
@opt loops = 3
@sub < I : Iterator < Item = G > > ( & self , $input : I ) ==> (&self, $input: It<G>)
@sub? [ G :: default ( ) ; N ] ==> no_grams::<G, N>()
@bind for $x in $input
@bind let mut $window = no_grams
@bind let mut $results = ResultRanker
@sub self . search_gram ( $w ) ==> { assert($w@ =~= window(input0, k + 1, N as nat)); let a = self.search_gram($w); proof { found_gram = a; one_more_answer(self, answers, a); answers = answers.push(a); } a }
@sub? for $d in $list { $results . add ( * $d , ==> for $d in it_of($list.as_slice()) { $results.add(*$d,
@sub? for $d in $list { $results . add ( $d , ==> for $d in it_of($list.as_slice()) { $results.add($d,
@desugar 1 feed
@spec
    requires 0 < N < 765,
    ensures self.found(rem(&$input), r@),
@start
    let ghost input0 = rem(&$input);
    let ghost mut answers: Seq<Option<([G; N], f32)>> = Seq::empty();
@before loop {
    proof { assert($window@ =~= window(input0, 0, N as nat)); assert(rem(&feed) =~= input0.skip(0)); }
@loop 1
    invariant
        0 < N < 765,
        answers.len() <= input0.len(),
        rem(&feed) == input0.skip(answers.len() as int),
        $window@ == window(input0, answers.len() as int, N as nat),
        answered(self, input0, answers),
        $results.confidence_for_data@ == tally::<<Data as HashExtractable>::Inner, Data>(hits(self, answers)),
    decreases rem(&feed).len(),
@in 1
    let ghost k = answers.len() as int;
    let ghost w0 = $window@;
    let ghost hits0 = hits(self, answers);
    let ghost mut found_gram: Option<([G; N], f32)> = None;
    proof { window_slides(input0, k, N as nat); assert(input0.skip(k).skip(1) =~= input0.skip(k + 1)); }
@iter 2 sh
@loop 2
    invariant
        $window@.len() == N,
        forall|j: int| 0 <= j < sh.index@ ==> #[trigger] $window@[j] == w0[j + 1],
        forall|j: int| sh.index@ <= j < N ==> #[trigger] $window@[j] == w0[j],
@iter 3 it
@bind let $list = match self . data . get
@before for $d in it_of
    let ghost new = listed(self, found_gram);
    let ghost ds = $list@;
    proof {
        assert(new.len() == $list@.len());
        assert(hits0 + new.take(0) =~= hits0);
    }
@loop 3
    invariant
        it.seq() == refs(ds),
        new.len() == ds.len(),
        new == with(ds, (found_gram->0).1),
        $results.confidence_for_data@ == tally::<<Data as HashExtractable>::Inner, Data>(hits0 + new.take(it.index@)),
@endin 3
    proof { assert((hits0 + new.take(it.index@)).push(new[it.index@]) =~= hits0 + new.take(it.index@ + 1)); }
@afterloop 3
    proof { assert(new.take(new.len() as int) =~= new); }
@*/
}
/// What a gram of the query is matched with.
pub open spec fn matched<'a, G: GramAtom, Data: Ord, const N: usize>(index: &GramIndex<'a, G, Data, N>, query: Seq<G>, r: Option<([G; N], f32)>) -> bool {
    if query.len() > 0 && index.roots@.contains_key(query[0]) {
        let start = At { node: index.roots@[query[0]], before: None, input: query.skip(1), changes: 0, weight: 1.0f32, out: Seq::new(N as nat, |i: int| no_gram::<G>()).update(0, query[0]), index: 1 };
        best_of(readings(start, N as nat, N as nat / 3), r)
    } else { r is None }
}

// ---- what a reading is: a path of the tree, and the product of the weights along it -------

/// A set of nodes in which children are found under their own character.
pub open spec fn tree<'a, G: GramAtom>(t: spec_fn(&'a GramNode<'a, G>) -> bool) -> bool {
    forall|n: &'a GramNode<'a, G>| #[trigger] t(n) ==> {
        &&& forall|g: G| #[trigger] n.items@.contains_key(g) ==> n.items@[g].item == g && t(n.items@[g])
        &&& forall|c: &'a GramNode<'a, G>| #[trigger] n.by_occurances@.contains(c) ==> child(n, c.item) == Some(c)
    }
}
/// The node at the end of a path below a root.
pub open spec fn walk<'a, G: GramAtom>(root: &'a GramNode<'a, G>, s: Seq<G>) -> Option<&'a GramNode<'a, G>>
    decreases s.len()
{
    if s.len() == 0 { Some(root) } else { match walk(root, s.drop_last()) { Some(n) => child(n, s.last()), None => None } }
}
pub open spec fn weight_along<'a, G: GramAtom>(root: &'a GramNode<'a, G>, s: Seq<G>) -> f32
    decreases s.len()
{
    if s.len() == 0 { 1.0f32 } else { fmul(weight_along(root, s.drop_last()), walk(root, s)->0.weight) }
}
/// The gram so far leads to the node reached, with the weight so far.
pub open spec fn on_path<'a, G: GramAtom>(t: spec_fn(&'a GramNode<'a, G>) -> bool, root: &'a GramNode<'a, G>, a: At<'a, G>, n: nat) -> bool {
    &&& 1 <= a.index <= n && a.out.len() == n && t(a.node)
    &&& a.out[0] == root.item
    &&& walk(root, a.out.subrange(1, a.index as int)) == Some(a.node)
    &&& weight_along(root, a.out.subrange(1, a.index as int)) == a.weight
    &&& a.before matches Some((b, w)) ==> a.index >= 2 && t(b) && walk(root, a.out.subrange(1, a.index - 1)) == Some(b) && weight_along(root, a.out.subrange(1, a.index - 1)) == w
}
pub proof fn onto_on_path<'a, G: GramAtom>(t: spec_fn(&'a GramNode<'a, G>) -> bool, root: &'a GramNode<'a, G>, a: At<'a, G>, n: nat, c: &'a GramNode<'a, G>, input: Seq<G>, cost: nat)
    requires tree(t), on_path(t, root, a, n), a.index < n, child(a.node, c.item) == Some(c)
    ensures on_path(t, root, onto(a, c, input, cost), n)
{
    let b = onto(a, c, input, cost);
    let s = b.out.subrange(1, b.index as int);
    assert(s.drop_last() =~= a.out.subrange(1, a.index as int));
    assert(b.out.subrange(1, b.index - 1) =~= a.out.subrange(1, a.index as int));
    assert(s.last() == c.item);
}
pub proof fn instead_on_path<'a, G: GramAtom>(t: spec_fn(&'a GramNode<'a, G>) -> bool, root: &'a GramNode<'a, G>, a: At<'a, G>, n: nat)
    requires tree(t), on_path(t, root, a, n), instead(a) is Some
    ensures on_path(t, root, instead(a)->0, n)
{
    let b = instead(a)->0;
    let s = b.out.subrange(1, b.index as int);
    assert(s.drop_last() =~= a.out.subrange(1, a.index - 1));
    assert(s.last() == b.node.item);
}
/// Every reading is a path of the tree from the root, and its confidence the product of the weights along it.
pub proof fn reading_is_path<'a, G: GramAtom>(t: spec_fn(&'a GramNode<'a, G>) -> bool, root: &'a GramNode<'a, G>, a: At<'a, G>, n: nat, limit: nat, r: Gram<G>)
    requires tree(t), on_path(t, root, a, n), reading(a, n, limit, r)
    ensures r.0.len() == n, r.0[0] == root.item, walk(root, r.0.skip(1)) is Some, weight_along(root, r.0.skip(1)) == r.1
    decreases n - a.index, a.input.len()
{
    if a.index >= n {
        assert(a.out.subrange(1, n as int) =~= a.out.skip(1));
    } else {
        let straight = typed(a.node, a.input) matches Some(c) && reading(onto(a, c, rest(a.input), 0), n, limit, r);
        if straight {
            let c = typed(a.node, a.input)->0;
            onto_on_path(t, root, a, n, c, rest(a.input), 0);
            reading_is_path(t, root, onto(a, c, rest(a.input), 0), n, limit, r);
        } else if exists|c: &'a GramNode<'a, G>| #[trigger] other(a.node, a.input, c) && (reading(onto(a, c, rest(a.input), 1), n, limit, r) || reading(onto(a, c, a.input, 2), n, limit, r)) {
            let c = choose|c: &'a GramNode<'a, G>| #[trigger] other(a.node, a.input, c) && (reading(onto(a, c, rest(a.input), 1), n, limit, r) || reading(onto(a, c, a.input, 2), n, limit, r));
            if reading(onto(a, c, rest(a.input), 1), n, limit, r) {
                onto_on_path(t, root, a, n, c, rest(a.input), 1);
                reading_is_path(t, root, onto(a, c, rest(a.input), 1), n, limit, r);
            } else {
                onto_on_path(t, root, a, n, c, a.input, 2);
                reading_is_path(t, root, onto(a, c, a.input, 2), n, limit, r);
            }
        } else {
            reveal_with_fuel(reading, 2);
            reveal_with_fuel(reading_changed, 2);
            instead_on_path(t, root, a, n);
            reading_is_path(t, root, instead(a)->0, n, limit, r);
        }
    }
}
/// The rest of the query is there as typed.
pub open spec fn straight<'a, G: GramAtom>(node: &'a GramNode<'a, G>, s: Seq<G>) -> bool
    decreases s.len()
{
    s.len() == 0 || (child(node, s[0]) matches Some(c) && straight(c, s.skip(1)))
}
/// A gram that is itself a path has a reading: itself.
pub proof fn path_is_reading<'a, G: GramAtom>(t: spec_fn(&'a GramNode<'a, G>) -> bool, a: At<'a, G>, n: nat, limit: nat) -> (w: f32)
    requires tree(t), t(a.node), a.index <= n, a.out.len() == n, a.input.len() == n - a.index, straight(a.node, a.input)
    ensures reading(a, n, limit, (a.out.take(a.index as int) + a.input, w))
    decreases n - a.index
{
    if a.index >= n {
        assert(a.out.take(a.index as int) + a.input =~= a.out);
        a.weight
    } else {
        let c = child(a.node, a.input[0])->0;
        let b = onto(a, c, rest(a.input), 0);
        let w = path_is_reading(t, b, n, limit);
        assert(b.out.take(b.index as int) + b.input =~= a.out.take(a.index as int) + a.input);
        w
    }
}
/// What a gram is matched with, told without the search: a path from the same first character
/// whose confidence is the product of the weights along it; a path itself is always matched.
pub proof fn match_is_path<'a, G: GramAtom, Data: Ord, const N: usize>(t: spec_fn(&'a GramNode<'a, G>) -> bool, index: &GramIndex<'a, G, Data, N>, query: Seq<G>, r: Option<([G; N], f32)>)
    requires tree(t), matched(index, query, r), query.len() == N, N > 0,
        forall|g: G| #[trigger] index.roots@.contains_key(g) ==> index.roots@[g].item == g && t(index.roots@[g]),
    ensures
        r matches Some((g, c)) ==> g@[0] == query[0] && index.roots@.contains_key(query[0]) && walk(index.roots@[query[0]], g@.skip(1)) is Some && weight_along(index.roots@[query[0]], g@.skip(1)) == c,
        index.roots@.contains_key(query[0]) && straight(index.roots@[query[0]], query.skip(1)) ==> r is Some,
{
    if index.roots@.contains_key(query[0]) {
        let root = index.roots@[query[0]];
        let start = At { node: root, before: None, input: query.skip(1), changes: 0, weight: 1.0f32, out: Seq::new(N as nat, |i: int| no_gram::<G>()).update(0, query[0]), index: 1 };
        assert(start.out.subrange(1, 1) =~= Seq::empty());
        if let Some((g, c)) = r {
            assert(readings(start, N as nat, N as nat / 3)((g@, c)));
            reading_is_path(t, root, start, N as nat, N as nat / 3, (g@, c));
        }
        if straight(root, query.skip(1)) {
            let w = path_is_reading(t, start, N as nat, N as nat / 3);
            let q = (start.out.take(1) + start.input, w);
            assert(readings(start, N as nat, N as nat / 3)(q));
        }
    }
}
