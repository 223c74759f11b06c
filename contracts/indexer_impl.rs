// ---- building the gram index ---------------------------------------------------------------

/// One product's text: `grams: GI` stands for any iterator.
pub struct IndexFeed<'a, G, Data> { pub grams: It<G>, pub data: &'a Data }
pub open spec fn rank_order(a: int, b: int) -> Ordering { if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater } }
/// What is indexed: equality and order of it.
pub trait Item: Sized {
    spec fn same(&self, o: &Self) -> bool;
    spec fn rank(&self) -> int;
    fn is_same(&self, o: &Self) -> (r: bool)
        ensures r == self.same(o);
    /// `cmp`, which `sort` uses
    fn compare(&self, o: &Self) -> (r: Ordering)
        ensures r == rank_order(self.rank(), o.rank());
}

// ---- shared nodes: `Rc<RefCell<..>>` is a place in a heap, and the heap is written down ------

pub struct Rc<T> { pub p: T }
impl<T> Rc<T> {
    pub fn new(p: T) -> (r: Self)
        ensures r.p == p
    { Rc { p } }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RefCell<T> { v: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Heap<T> { v: core::marker::PhantomData<T> }
pub uninterp spec fn cells<T>(h: &Heap<T>) -> Map<int, T>;
impl<T> View for Heap<T> {
    type V = Map<int, T>;
    open spec fn view(&self) -> Map<int, T> { cells(self) }
}
impl<T> RefCell<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(t: T, h: &mut Heap<T>) -> (r: Self)
        ensures !old(h)@.contains_key(r.id()), final(h)@ == old(h)@.insert(r.id(), t)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow<'a>(&self, h: &'a Heap<T>) -> (r: &'a T)
        requires h@.contains_key(self.id())
        ensures *r == h@[self.id()]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn borrow_mut<'a>(&self, h: &'a mut Heap<T>) -> (r: &'a mut T)
        requires old(h)@.contains_key(self.id())
        ensures *r == old(h)@[self.id()], final(h)@ == old(h)@.insert(self.id(), *final(r))
    { unimplemented!() }
}
#[verifier::external_body]
pub fn no_cells<T>() -> (r: Heap<T>)
    ensures r@ == Map::<int, T>::empty()
{ unimplemented!() }

#[verifier::reject_recursive_types(G)]
/*@item ngram/indexer.rs :: struct InnerMutableGramNode @*/
#[verifier::reject_recursive_types(G)]
/*@item ngram/indexer.rs :: struct MutableGramNode @*/
pub type Inner<G> = InnerMutableGramNode<G>;
pub open spec fn cid<G: GramAtom>(h: MutableGramNode<G>) -> int { h.0.p.id() }
impl<G: GramAtom> MutableGramNode<G> {
    /// `clone()`: another reference to the same node
    #[verifier::external_body]
    pub fn dup(&self) -> (r: Self)
        ensures r == *self
    { unimplemented!() }
/*@fn ngram/indexer.rs :: impl<G: GramAtom> MutableGramNode<G> :: fn new
@opt ret = r
@bind ( $item : G , $count : u32 )
@sub ( $item : G , $count : u32 ) ==> ($item: G, $count: u32, heap: &mut Heap<Inner<G>>)
@sub RefCell :: new ( $$x ) ==> RefCell::new($$x, heap)
@spec
    ensures !old(heap)@.contains_key(cid(r)),
        final(heap)@ == old(heap)@.insert(cid(r), final(heap)@[cid(r)]),
        final(heap)@[cid(r)].item == $item, final(heap)@[cid(r)].occurances == $count, final(heap)@[cid(r)].items@ == Map::<G, MutableGramNode<G>>::empty(),
@*/
}
/// The child for a character, another reference to it.
pub fn child_of<G: GramAtom>(q: &MutableGramNode<G>, g: G, heap: &Heap<Inner<G>>) -> (r: Option<MutableGramNode<G>>)
    requires heap@.contains_key(cid(*q))
    ensures match r { Some(c) => heap@[cid(*q)].items@.contains_key(g) && c == heap@[cid(*q)].items@[g], None => !heap@[cid(*q)].items@.contains_key(g) }
{
    match q.0.p.borrow(heap).items.get(&g) { Some(x) => Some(x.dup()), None => None }
}
pub fn root_of<G: GramAtom>(root: &AHashMap<G, MutableGramNode<G>>, g: G) -> (r: Option<MutableGramNode<G>>)
    ensures match r { Some(c) => root@.contains_key(g) && c == root@[g], None => !root@.contains_key(g) }
{
    match root.get(&g) { Some(x) => Some(x.dup()), None => None }
}

// ---- counting substrings -----------------------------------------------------------------------

pub open spec fn last<G>(t: Seq<G>, k: int) -> Seq<G> { t.skip(t.len() - k) }
pub open spec fn ends<G>(t: Seq<G>, p: Seq<G>) -> bool { p.len() <= t.len() && last(t, p.len() as int) == p }
/// How often p occurs in t.
pub open spec fn occ<G>(t: Seq<G>, p: Seq<G>) -> nat decreases t.len() {
    if t.len() == 0 { 0 } else { occ(t.drop_last(), p) + if ends(t, p) { 1nat } else { 0 } }
}
pub open spec fn total_occ<G>(ts: Seq<Seq<G>>, p: Seq<G>) -> nat decreases ts.len() {
    if ts.len() == 0 { 0 } else { total_occ(ts.drop_last(), p) + occ(ts.last(), p) }
}
pub open spec fn letters<G>(ts: Seq<Seq<G>>) -> nat decreases ts.len() {
    if ts.len() == 0 { 0 } else { letters(ts.drop_last()) + ts.last().len() }
}
pub type Count<G> = spec_fn(Seq<G>) -> nat;
/// Occurrences of the paths of up to n characters in ts and then t.
pub open spec fn count_in<G>(ts: Seq<Seq<G>>, t: Seq<G>, n: nat) -> Count<G> { |p: Seq<G>| if 1 <= p.len() <= n { total_occ(ts, p) + occ(t, p) } else { 0 } }
/// One more for the last 1..=k characters of t.
pub open spec fn plus<G>(c: Count<G>, t: Seq<G>, k: int) -> Count<G> { |p: Seq<G>| c(p) + if 1 <= p.len() <= k && ends(t, p) { 1nat } else { 0 } }
pub open spec fn once_more<G>(c: Count<G>, d: Count<G>, p: Seq<G>) -> bool { forall|q: Seq<G>| #![trigger d(q)] d(q) == c(q) + if q == p { 1nat } else { 0 } }

pub proof fn occ_few<G>(t: Seq<G>, p: Seq<G>)
    ensures occ(t, p) <= t.len()
    decreases t.len()
{ if t.len() > 0 { occ_few(t.drop_last(), p); } }
pub proof fn total_few<G>(ts: Seq<Seq<G>>, p: Seq<G>)
    ensures total_occ(ts, p) <= letters(ts)
    decreases ts.len()
{ if ts.len() > 0 { total_few(ts.drop_last(), p); occ_few(ts.last(), p); } }
pub proof fn letters_grow<G>(ts: Seq<Seq<G>>, k: int)
    requires 0 <= k <= ts.len()
    ensures letters(ts.take(k)) <= letters(ts), k < ts.len() ==> letters(ts.take(k)) + ts[k].len() <= letters(ts)
    decreases ts.len() - k
{
    if k < ts.len() {
        letters_grow(ts, k + 1);
        assert(ts.take(k + 1).drop_last() =~= ts.take(k));
    } else { assert(ts.take(k) =~= ts); }
}
pub proof fn plus_step<G>(c: Count<G>, t: Seq<G>, k: int)
    requires 0 <= k < t.len()
    ensures once_more(plus(c, t, k), plus(c, t, k + 1), last(t, k + 1))
{
    assert forall|q: Seq<G>| #![trigger plus(c, t, k + 1)(q)] plus(c, t, k + 1)(q) == plus(c, t, k)(q) + if q == last(t, k + 1) { 1nat } else { 0 } by { }
}
pub proof fn plus_none<G>(c: Count<G>, t: Seq<G>)
    ensures plus(c, t, 0) == c
{ assert(plus(c, t, 0) =~= c); }
pub proof fn plus_all<G>(ts: Seq<Seq<G>>, t: Seq<G>, g: G, n: nat, k: int)
    requires k == if t.len() + 1 <= n { t.len() + 1 } else { n }
    ensures plus(count_in(ts, t, n), t.push(g), k) == count_in(ts, t.push(g), n)
{
    let a = plus(count_in(ts, t, n), t.push(g), k);
    let b = count_in(ts, t.push(g), n);
    assert(t.push(g).drop_last() =~= t);
    assert forall|p: Seq<G>| #[trigger] a(p) == b(p) by { }
    assert(a =~= b);
}
pub proof fn counted_next<G>(ts: Seq<Seq<G>>, t: Seq<G>, n: nat)
    ensures count_in(ts.push(t), Seq::empty(), n) == count_in(ts, t, n)
{
    assert(ts.push(t).drop_last() =~= ts);
    assert(count_in(ts.push(t), Seq::empty(), n) =~= count_in(ts, t, n));
}
pub proof fn last_grows<G>(t: Seq<G>, g: G, k: int)
    requires 0 <= k <= t.len()
    ensures last(t.push(g), k + 1) == last(t, k).push(g), last(t, k).len() == k
{ assert(last(t.push(g), k + 1) =~= last(t, k).push(g)); }
/// The last characters of a text have occurred.
pub proof fn last_counts<G>(ts: Seq<Seq<G>>, t: Seq<G>, n: nat, k: int)
    requires 1 <= k <= t.len(), k <= n
    ensures count_in(ts, t, n)(last(t, k)) > 0
{ }

// ---- the tree while it is built ------------------------------------------------------------------

/// The node of path p.
pub open spec fn holds<G: GramAtom>(heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, p: Seq<G>, c: nat) -> bool {
    let x = heap[at[p]];
    &&& heap.contains_key(at[p])
    &&& x.item == p.last() && x.occurances == c
    &&& forall|g: G| #[trigger] x.items@.contains_key(g) <==> at.contains_key(p.push(g))
    &&& forall|g: G| #[trigger] x.items@.contains_key(g) ==> cid(x.items@[g]) == at[p.push(g)]
}
pub open spec fn rooted<G: GramAtom>(root: Map<G, MutableGramNode<G>>, at: Map<Seq<G>, int>) -> bool {
    &&& forall|g: G| #[trigger] root.contains_key(g) <==> at.contains_key(seq![g])
    &&& forall|g: G| #[trigger] root.contains_key(g) ==> cid(root[g]) == at[seq![g]]
}
/// The nodes are those of the paths that have occurred, each counting its path.
pub open spec fn planted<G: GramAtom>(root: Map<G, MutableGramNode<G>>, heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, c: Count<G>, n: nat) -> bool {
    &&& forall|p: Seq<G>| #![trigger at.contains_key(p)] #![trigger c(p)] at.contains_key(p) <==> c(p) > 0
    &&& forall|p: Seq<G>| #[trigger] at.contains_key(p) ==> 1 <= p.len() <= n && holds(heap, at, p, c(p))
    &&& forall|p: Seq<G>, q: Seq<G>| #[trigger] at.contains_key(p) && #[trigger] at.contains_key(q) && at[p] == at[q] ==> p == q
    &&& forall|p: Seq<G>, g: G| p.len() >= 1 && #[trigger] at.contains_key(p.push(g)) ==> at.contains_key(p)
    &&& rooted(root, at)
}
pub proof fn push_last<G>(p: Seq<G>, g: G, q: Seq<G>, h: G)
    ensures p.push(g) == q.push(h) ==> p == q && g == h, p.push(g).last() == g, seq![g] == Seq::<G>::empty().push(g), p.push(g).len() == p.len() + 1
{
    assert(p.push(g).drop_last() =~= p);
    assert(q.push(h).drop_last() =~= q);
    assert(p.push(g).last() == g && q.push(h).last() == h);
    assert(seq![g] =~= Seq::<G>::empty().push(g));
}
pub proof fn counted_again<G: GramAtom>(root: Map<G, MutableGramNode<G>>, heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, c: Count<G>, n: nat, p: Seq<G>, x: Inner<G>, d: Count<G>)
    requires planted(root, heap, at, c, n), at.contains_key(p), once_more(c, d, p),
        x.item == heap[at[p]].item, x.items == heap[at[p]].items, x.occurances == heap[at[p]].occurances + 1
    ensures planted(root, heap.insert(at[p], x), at, d, n)
{
    let heap2 = heap.insert(at[p], x);
    assert forall|q: Seq<G>| #[trigger] at.contains_key(q) implies 1 <= q.len() <= n && holds(heap2, at, q, d(q)) by {
        assert(holds(heap, at, q, c(q)));
        assert(d(q) == c(q) + if q == p { 1nat } else { 0 });
        if q != p { assert(at[q] != at[p]); assert(heap2[at[q]] == heap[at[q]]); }
    }
    assert forall|q: Seq<G>| #![trigger at.contains_key(q)] #![trigger d(q)] at.contains_key(q) <==> d(q) > 0 by { assert(d(q) == c(q) + if q == p { 1nat } else { 0 }); assert(at.contains_key(q) <==> c(q) > 0); }
}
pub proof fn new_root<G: GramAtom>(root: Map<G, MutableGramNode<G>>, heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, c: Count<G>, n: nat, g: G, h: MutableGramNode<G>, x: Inner<G>, d: Count<G>)
    requires planted(root, heap, at, c, n), !at.contains_key(seq![g]), once_more(c, d, seq![g]), n >= 1, !heap.contains_key(cid(h)),
        x.item == g, x.items@ == Map::<G, MutableGramNode<G>>::empty(), x.occurances == 1
    ensures planted(root.insert(g, h), heap.insert(cid(h), x), at.insert(seq![g], cid(h)), d, n)
{
    let p = seq![g];
    let heap2 = heap.insert(cid(h), x);
    let at2 = at.insert(p, cid(h));
    let root2 = root.insert(g, h);
    assert forall|q: Seq<G>| #![trigger at2.contains_key(q)] #![trigger d(q)] at2.contains_key(q) <==> d(q) > 0 by { assert(d(q) == c(q) + if q == p { 1nat } else { 0 }); assert(at.contains_key(q) <==> c(q) > 0); }
    assert forall|q: Seq<G>| #[trigger] at2.contains_key(q) implies 1 <= q.len() <= n && holds(heap2, at2, q, d(q)) by {
        assert(d(q) == c(q) + if q == p { 1nat } else { 0 });
        assert(at.contains_key(p) <==> c(p) > 0);
        if q != p {
            assert(at.contains_key(q));
            assert(holds(heap, at, q, c(q)));
            assert(heap2[at2[q]] == heap[at[q]]);
            assert forall|e: G| #[trigger] heap2[at2[q]].items@.contains_key(e) <==> at2.contains_key(q.push(e)) by { assert(q.push(e).len() >= 2); assert(q.push(e) != p); }
            assert forall|e: G| #[trigger] heap2[at2[q]].items@.contains_key(e) implies cid(heap2[at2[q]].items@[e]) == at2[q.push(e)] by { assert(q.push(e).len() >= 2); assert(q.push(e) != p); }
        } else {
            assert(p.last() == g);
            assert forall|e: G| !#[trigger] at2.contains_key(q.push(e)) by { assert(q.push(e).len() == 2); assert(q.push(e) != p); if at.contains_key(q.push(e)) { assert(at.contains_key(q)); } }
            assert forall|e: G| #[trigger] heap2[at2[q]].items@.contains_key(e) <==> at2.contains_key(q.push(e)) by { }
        }
    }
    assert forall|q: Seq<G>, r: Seq<G>| #[trigger] at2.contains_key(q) && #[trigger] at2.contains_key(r) && at2[q] == at2[r] implies q == r by {
        if q != p { assert(holds(heap, at, q, c(q))); }
        if r != p { assert(holds(heap, at, r, c(r))); }
    }
    assert forall|q: Seq<G>, e: G| q.len() >= 1 && #[trigger] at2.contains_key(q.push(e)) implies at2.contains_key(q) by {
        assert(q.push(e).len() >= 2); assert(q.push(e) != p); assert(at.contains_key(q.push(e)));
    }
    assert forall|e: G| #[trigger] root2.contains_key(e) <==> at2.contains_key(seq![e]) by {
        if seq![e] == p { assert(seq![e][0] == seq![g][0]); }
        assert(root.contains_key(e) <==> at.contains_key(seq![e]));
    }
    assert forall|e: G| #[trigger] root2.contains_key(e) implies cid(root2[e]) == at2[seq![e]] by {
        if e != g { assert(seq![e][0] != seq![g][0]); assert(root.contains_key(e)); }
    }
}
pub proof fn new_child<G: GramAtom>(root: Map<G, MutableGramNode<G>>, heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, c: Count<G>, n: nat, p: Seq<G>, g: G, h: MutableGramNode<G>, x: Inner<G>, y: Inner<G>, d: Count<G>)
    requires planted(root, heap, at, c, n), at.contains_key(p), !at.contains_key(p.push(g)), once_more(c, d, p.push(g)), p.len() < n, !heap.contains_key(cid(h)),
        x.item == g, x.items@ == Map::<G, MutableGramNode<G>>::empty(), x.occurances == 1,
        y.item == heap[at[p]].item, y.occurances == heap[at[p]].occurances, y.items@ == heap[at[p]].items@.insert(g, h),
    ensures planted(root, heap.insert(cid(h), x).insert(at[p], y), at.insert(p.push(g), cid(h)), d, n)
{
    let k = p.push(g);
    let heap2 = heap.insert(cid(h), x).insert(at[p], y);
    let at2 = at.insert(k, cid(h));
    assert(holds(heap, at, p, c(p)));
    assert(k.last() == g);
    assert forall|q: Seq<G>| #![trigger at2.contains_key(q)] #![trigger d(q)] at2.contains_key(q) <==> d(q) > 0 by { assert(d(q) == c(q) + if q == k { 1nat } else { 0 }); assert(at.contains_key(q) <==> c(q) > 0); }
    assert forall|q: Seq<G>| #[trigger] at2.contains_key(q) implies 1 <= q.len() <= n && holds(heap2, at2, q, d(q)) by {
        assert(d(q) == c(q) + if q == k { 1nat } else { 0 });
        assert(at.contains_key(k) <==> c(k) > 0);
        if q != k {
            assert(at.contains_key(q));
            assert(holds(heap, at, q, c(q)));
            if q != p { assert(at[q] != at[p]); assert(heap2[at2[q]] == heap[at[q]]); }
            assert forall|e: G| #[trigger] heap2[at2[q]].items@.contains_key(e) <==> at2.contains_key(q.push(e)) by { push_last(q, e, p, g); assert(heap[at[q]].items@.contains_key(e) <==> at.contains_key(q.push(e))); }
            assert forall|e: G| #[trigger] heap2[at2[q]].items@.contains_key(e) implies cid(heap2[at2[q]].items@[e]) == at2[q.push(e)] by { push_last(q, e, p, g); assert(heap[at[q]].items@.contains_key(e) <==> at.contains_key(q.push(e))); }
        } else {
            assert forall|e: G| !#[trigger] at2.contains_key(q.push(e)) by { push_last(q, e, p, g); assert(q.push(e).len() == q.len() + 1); if at.contains_key(q.push(e)) { assert(at.contains_key(q)); } }
            assert forall|e: G| #[trigger] heap2[at2[q]].items@.contains_key(e) <==> at2.contains_key(q.push(e)) by { }
        }
    }
    assert forall|q: Seq<G>, r: Seq<G>| #[trigger] at2.contains_key(q) && #[trigger] at2.contains_key(r) && at2[q] == at2[r] implies q == r by {
        if q != k { assert(holds(heap, at, q, c(q))); }
        if r != k { assert(holds(heap, at, r, c(r))); }
    }
    assert forall|q: Seq<G>, e: G| q.len() >= 1 && #[trigger] at2.contains_key(q.push(e)) implies at2.contains_key(q) by {
        push_last(q, e, p, g);
        if q.push(e) != k { assert(at.contains_key(q.push(e))); }
    }
    assert forall|e: G| #[trigger] root.contains_key(e) <==> at2.contains_key(seq![e]) by { assert(seq![e].len() == 1); assert(k.len() >= 2); }
    assert forall|e: G| #[trigger] root.contains_key(e) implies cid(root[e]) == at2[seq![e]] by { assert(seq![e].len() == 1); assert(k.len() >= 2); }
}
/// All the places in the queue are those of the last characters.
pub open spec fn queued<G: GramAtom>(q: Seq<MutableGramNode<G>>, t: Seq<G>, at: Map<Seq<G>, int>, n: nat) -> bool {
    &&& q.len() == if t.len() < n { t.len() } else { (n - 1) as nat }
    &&& forall|j: int| 0 <= j < q.len() ==> cid(#[trigger] q[j]) == at[last(t, j + 1)] && at.contains_key(last(t, j + 1))
}
pub proof fn queue_moves<G: GramAtom>(q: Seq<MutableGramNode<G>>, first: MutableGramNode<G>, q2: Seq<MutableGramNode<G>>, t: Seq<G>, at: Map<Seq<G>, int>, n: nat)
    requires
        n >= 1, t.len() >= 1, q.len() == if t.len() <= n { t.len() - 1 } else { n - 1 },
        forall|j: int| 0 <= j < q.len() ==> cid(#[trigger] q[j]) == at[last(t, j + 2)] && at.contains_key(last(t, j + 2)),
        cid(first) == at[last(t, 1)], at.contains_key(last(t, 1)),
        q2 == if q.len() + 1 == n { (seq![first] + q).drop_last() } else { seq![first] + q },
    ensures queued(q2, t, at, n)
{
    assert forall|j: int| 0 <= j < q2.len() implies cid(#[trigger] q2[j]) == at[last(t, j + 1)] && at.contains_key(last(t, j + 1)) by {
        if j > 0 { assert(q2[j] == q[j - 1]); } else { assert(q2[0] == first); }
    }
}

// ---- the finished tree ---------------------------------------------------------------------------

/// `x as usize`
pub uninterp spec fn f_trunc(a: f32) -> int;
#[verifier::external_body]
pub fn f32_trunc(a: f32) -> (r: usize)
    ensures r == f_trunc(a)
{ unimplemented!() }
/// A share of a whole is a number.
pub axiom fn f_share(a: int, b: int)
    requires 0 <= a, 0 < b
    ensures !nan(fdiv(f_of(a), f_of(b)));
/// Four fifths of a short length, rounded down (the harness tries them all).
pub axiom fn f_four_fifths_of(n: int)
    requires 0 <= n < 0x40_0000
    ensures f_trunc(fmul(f_of(n), 0.8f32)) == 4 * n / 5;
pub open spec fn share(total_occ: nat, this: nat) -> f32 { fdiv(f_of(this as int), f_of(total_occ as int)) }
/*@fn ngram/indexer.rs :: fn occurances_to_weight
@opt ret = r
@bind ( $total_occ : u32 , $this : u32 )
@sub? $a as f32 ==> $a.as_f32()
@sub? ( $a . as_f32 ( ) ) / ( $b . as_f32 ( ) ) ==> f32_div($a.as_f32(), $b.as_f32())
@sub? $a / $b ==> f32_div($a, $b)
@spec
    ensures r == share($total_occ as nat, $this as nat),
@*/
/// Children from most to least frequent, each once, and found by their character.
pub open spec fn orderly<'a, G: GramAtom>(node: &GramNode<'a, G>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < node.by_occurances@.len() ==> (#[trigger] node.by_occurances@[i]).item != (#[trigger] node.by_occurances@[j]).item
    &&& forall|i: int, j: int| 0 <= i < j < node.by_occurances@.len() ==> !fgt((#[trigger] node.by_occurances@[j]).weight, (#[trigger] node.by_occurances@[i]).weight)
    &&& forall|c: &'a GramNode<'a, G>| #[trigger] node.by_occurances@.contains(c) ==> node.items@.contains_key(c.item) && node.items@[c.item] == c
    &&& forall|g: G| #[trigger] node.items@.contains_key(g) ==> node.items@[g].item == g && node.by_occurances@.contains(node.items@[g])
}
/// The node of path p and all below it, with these counts.
pub open spec fn node_grown<'a, G: GramAtom>(node: &GramNode<'a, G>, p: Seq<G>, above: nat, c: Count<G>, n: nat) -> bool
    decreases n - p.len()
{
    &&& node.item == p.last()
    &&& node.weight == share(above, c(p))
    &&& orderly(node)
    &&& forall|g: G| #[trigger] node.items@.contains_key(g) <==> c(p.push(g)) > 0
    &&& p.len() < n ==> forall|x: &'a GramNode<'a, G>| #[trigger] node.by_occurances@.contains(x) ==> node_grown(x, p.push(x.item), c(p), c, n)
}
impl<'a, G: GramAtom> GramNode<'a, G> {
/*@fn ngram/index.rs :: impl<G: GramAtom> Ord for GramNode<'_, G> :: fn cmp
@opt ret = r
@opt vis = pub
@bind ( & self , $other : & Self )
@sub? self . weight . partial_cmp ( & $o . weight ) . unwrap_or ( std :: cmp :: Ordering :: Equal ) ==> f32_cmp_or_equal(&self.weight, &$o.weight)
@sub? std :: cmp :: Ordering ==> core::cmp::Ordering
@spec
    ensures r == fcmp(self.weight, $other.weight),
@*/
}
pub open spec fn heavier<'a, G: GramAtom>() -> spec_fn(&'a GramNode<'a, G>, &'a GramNode<'a, G>) -> bool { |a: &'a GramNode<'a, G>, b: &'a GramNode<'a, G>| !fgt(b.weight, a.weight) }
impl<G: GramAtom> MutableGramNode<G> {
/*@fn ngram/indexer.rs :: impl<G: GramAtom> MutableGramNode<G> :: fn immutalize
@opt ret = r
@opt loops = 2
@opt attr = #[verifier::loop_isolation(false)] #[verifier::rlimit(40)] #[verifier::spinoff_prover]
@bind < 'arena > ( & self , $above : u32 , $arena : & 'arena Arena < GramNode < 'arena , G > > , )
@sub ( & self , $above : u32 , $arena : & 'arena Arena < GramNode < 'arena , G > > , ) ==> (&self, $above: u32, $arena: &'arena Arena<GramNode<'arena, G>>, heap: &Heap<Inner<G>>, Ghost(gh): Ghost<Sprout<G>>, Ghost(path): Ghost<Seq<G>>)
@sub? . 0 . borrow ( ) ==> .0.p.borrow(heap)
@bind let $me = self
@bind let mut $list : Vec
@sub? $me . items . iter ( ) . map ( | ( _ , $v ) | $v . immutalize ( $$a , $b ) ) . collect ( ) ==> { let mut out = Vec::new(); let each = $me.items.iter(); proof { es = rem(&each); } for e in each { let $v = e.1; out.push($v.immutalize($$a, $b, heap, Ghost(gh), Ghost(path.push(*e.0)))); } out }
@sub? $list . sort_by ( | $a , $b | $a . cmp ( $b ) . reverse ( ) ) ==> sort_by(&mut $list, |$a: &&'arena GramNode<'arena, G>, $b: &&'arena GramNode<'arena, G>| -> (o: core::cmp::Ordering) ensures o == turned(fcmp($a.weight, $b.weight)) { GramNode::cmp(*$a, *$b).reverse() }, Ghost(heavier()))
@sub? $list . iter ( ) . fold ( $$init , | mut $m , $x | { $$body } ) ==> { let mut acc = $$init; for $x in it_of($list.as_slice()) { let mut $m = acc; acc = { $$body }; } acc }
@bind let mut acc = $$init ; for $child in
@bind let $items = { let mut acc
@spec
    requires planted(gh.root, heap@, gh.at, gh.count, gh.n), gh.at.contains_key(path), gh.at[path] == cid(*self), $above > 0,
    ensures node_grown(r, path, $above as nat, gh.count, gh.n),
    decreases gh.n - path.len(),
@start
    broadcast use fgt_asym;
    let ghost mut es: Seq<(&G, &MutableGramNode<G>)> = Seq::empty();
    let ghost own = (gh.count)(path);
    proof { assert(holds(heap@, gh.at, path, (gh.count)(path))); }
@iter 1 it
@loop 1
    invariant
        it.seq() == es, entries(es, $me.items@),
        out@.len() == it.index@,
        forall|i: int| 0 <= i < it.index@ ==> node_grown(#[trigger] out@[i], path.push(*es[i].0), own, gh.count, gh.n),
@before sort_by (
    let ghost before = $list@;
    proof {
        assert forall|i: int| 0 <= i < before.len() implies !nan((#[trigger] before[i]).weight) by {
            assert(node_grown(before[i], path.push(*es[i].0), own, gh.count, gh.n));
            f_share((gh.count)(path.push(*es[i].0)) as int, own as int);
        }
        weights_are_ordered(before);
    }
@iter 2 it
@loop 2
    invariant
        it.seq() == refs($list@),
        forall|g: G| #[trigger] acc@.contains_key(g) <==> exists|i: int| 0 <= i < it.index@ && (#[trigger] $list@[i]).item == g,
        forall|i: int, j: int| 0 <= i < j < $list@.len() ==> (#[trigger] $list@[i]).item != (#[trigger] $list@[j]).item,
        forall|i: int| 0 <= i < it.index@ ==> acc@[(#[trigger] $list@[i]).item] == $list@[i],
@before let $items =
    proof { children_sorted(before, $list@, es, $me.items@, path, own, gh.count, gh.n); }
@before $arena . alloc
    proof {
        assert forall|g: G| #[trigger] $items@.contains_key(g) <==> (gh.count)(path.push(g)) > 0 by {
            assert($me.items@.contains_key(g) <==> gh.at.contains_key(path.push(g)));
        }
        assert forall|x: &'arena GramNode<'arena, G>| #[trigger] $list@.contains(x) implies $items@.contains_key(x.item) && $items@[x.item] == x by {
            let i = choose|i: int| 0 <= i < $list@.len() && $list@[i] == x;
            assert($list@[i].item == x.item);
        }
        assert forall|g: G| #[trigger] $items@.contains_key(g) implies $items@[g].item == g && $list@.contains($items@[g]) by {
            let i = choose|i: int| 0 <= i < $list@.len() && (#[trigger] $list@[i]).item == g;
            assert($list@.contains($list@[i]));
        }
    }
@*/
}
pub proof fn weights_are_ordered<'a, G: GramAtom>(s: Seq<&'a GramNode<'a, G>>)
    requires forall|i: int| 0 <= i < s.len() ==> !nan((#[trigger] s[i]).weight)
    ensures total_on(heavier(), s)
{
    broadcast use fgt_asym;
    broadcast use fgt_trans;
}
/// The children of a node, sorted.
pub proof fn children_sorted<'a, G: GramAtom>(before: Seq<&'a GramNode<'a, G>>, list: Seq<&'a GramNode<'a, G>>, es: Seq<(&G, &MutableGramNode<G>)>, items: Map<G, MutableGramNode<G>>, path: Seq<G>, own: nat, c: Count<G>, n: nat)
    requires
        entries(es, items), before.len() == es.len(), total_on(heavier(), before),
        forall|i: int| 0 <= i < before.len() ==> node_grown(#[trigger] before[i], path.push(*es[i].0), own, c, n),
        exists|p: Seq<int>| #[trigger] reordered(before, list, p) && (total_on(heavier(), before) ==> sorted_by(heavier(), before, list, p)),
    ensures
        forall|i: int, j: int| 0 <= i < j < list.len() ==> (#[trigger] list[i]).item != (#[trigger] list[j]).item,
        forall|i: int, j: int| 0 <= i < j < list.len() ==> !fgt((#[trigger] list[j]).weight, (#[trigger] list[i]).weight),
        forall|i: int| 0 <= i < list.len() ==> node_grown(#[trigger] list[i], path.push(list[i].item), own, c, n),
        forall|g: G| #[trigger] items.contains_key(g) <==> exists|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g,
{
    let p = choose|p: Seq<int>| #[trigger] reordered(before, list, p) && (total_on(heavier(), before) ==> sorted_by(heavier(), before, list, p));
    assert forall|i: int| 0 <= i < before.len() implies (#[trigger] before[i]).item == *es[i].0 by { assert(node_grown(before[i], path.push(*es[i].0), own, c, n)); assert(path.push(*es[i].0).last() == *es[i].0); }
    assert forall|i: int, j: int| 0 <= i < j < list.len() implies (#[trigger] list[i]).item != (#[trigger] list[j]).item by {
        assert(list[i] == before[p[i]] && list[j] == before[p[j]]);
        if p[i] < p[j] { assert(*es[p[i]].0 != *es[p[j]].0); } else { assert(*es[p[j]].0 != *es[p[i]].0); }
    }
    assert forall|i: int, j: int| 0 <= i < j < list.len() implies !fgt((#[trigger] list[j]).weight, (#[trigger] list[i]).weight) by {
        assert(heavier::<G>()(list[i], list[j]));
    }
    assert forall|i: int| 0 <= i < list.len() implies node_grown(#[trigger] list[i], path.push(list[i].item), own, c, n) by {
        assert(list[i] == before[p[i]]);
        assert(node_grown(before[p[i]], path.push(*es[p[i]].0), own, c, n));
    }
    assert forall|g: G| #[trigger] items.contains_key(g) <==> exists|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g by {
        if items.contains_key(g) {
            let e = choose|e: int| 0 <= e < es.len() && *(#[trigger] es[e]).0 == g;
            perm_onto(p, es.len(), e);
            let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == e;
            assert(list[i] == before[e]);
            assert(before[e].item == g);
        }
        if exists|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g {
            let i = choose|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g;
            assert(list[i] == before[p[i]]);
            assert(before[p[i]].item == *es[p[i]].0);
            assert(items.contains_key(*es[p[i]].0));
        }
    }
}
/// What is known of the tree that is being built.
#[verifier::reject_recursive_types(G)]
pub ghost struct Sprout<G: GramAtom> { pub root: Map<G, MutableGramNode<G>>, pub at: Map<Seq<G>, int>, pub count: Count<G>, pub n: nat }

// ---- the gram lists ------------------------------------------------------------------------------

/// The grams grams_shown by a text, with the number of the text.
pub open spec fn shown_in<G>(t: Seq<G>, j: int, k: int, n: nat) -> Seq<(Seq<G>, int)> { Seq::new(j as nat, |i: int| (window(t, i + 1, n), k)) }
pub open spec fn grams_shown<G>(ts: Seq<Seq<G>>, n: nat) -> Seq<(Seq<G>, int)> decreases ts.len() {
    if ts.len() == 0 { Seq::empty() } else { grams_shown(ts.drop_last(), n) + shown_in(ts.last(), ts.last().len() as int, ts.len() - 1, n) }
}
/// Where a gram is grams_shown: the number of the text, once per position.
pub open spec fn places<G>(h: Seq<(Seq<G>, int)>, w: Seq<G>) -> Seq<int> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else { let p = places(h.drop_last(), w); if h.last().0 == w { p.push(h.last().1) } else { p } }
}
pub open spec fn rising(s: Seq<int>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] <= #[trigger] s[j] }
pub open spec fn upto<G>(h: Seq<(Seq<G>, int)>, k: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < h.len() ==> (#[trigger] h[i]).1 <= (#[trigger] h[j]).1
    &&& forall|i: int| 0 <= i < h.len() ==> 0 <= (#[trigger] h[i]).1 < k
}
pub proof fn places_push<G>(h: Seq<(Seq<G>, int)>, w: Seq<G>, k: int, v: Seq<G>)
    ensures places(h.push((w, k)), v) == if v == w { places(h, v).push(k) } else { places(h, v) }
{ assert(h.push((w, k)).drop_last() =~= h); }
pub proof fn shown_in_more<G>(t: Seq<G>, j: int, k: int, n: nat)
    requires 0 <= j
    ensures shown_in(t, j + 1, k, n) == shown_in(t, j, k, n).push((window(t, j + 1, n), k))
{ assert(shown_in(t, j + 1, k, n) =~= shown_in(t, j, k, n).push((window(t, j + 1, n), k))); }
pub proof fn shown_rises<G>(ts: Seq<Seq<G>>, n: nat)
    ensures upto(grams_shown(ts, n), ts.len() as int)
    decreases ts.len()
{ if ts.len() > 0 { shown_rises(ts.drop_last(), n); } }
pub proof fn places_rise<G>(h: Seq<(Seq<G>, int)>, w: Seq<G>, k: int)
    requires upto(h, k)
    ensures rising(places(h, w)), forall|i: int| 0 <= i < places(h, w).len() ==> 0 <= #[trigger] places(h, w)[i] < k, 
        h.len() > 0 ==> forall|i: int| 0 <= i < places(h, w).len() ==> #[trigger] places(h, w)[i] <= h.last().1,
    decreases h.len()
{
    if h.len() > 0 { places_rise(h.drop_last(), w, k); }
}
pub open spec fn picked_from<'a, D>(ds: Seq<&'a D>, ks: Seq<int>) -> Seq<&'a D> { ks.map_values(|k: int| ds[k]) }
/// How often the item changes from one place of a list to the next, and one for the first.
pub open spec fn runs<'a, D: Item>(s: Seq<&'a D>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s.len() == 1 { 1 } else { runs(s.drop_last()) + if s[s.len() - 2].same(s[s.len() - 1]) { 0nat } else { 1 } }
}
/// No two of the items are taken for the same one.
pub open spec fn apart<'a, D: Item>(ds: Seq<&'a D>) -> bool {
    forall|i: int, j: int| 0 <= i < ds.len() && 0 <= j < ds.len() ==> (#[trigger] ds[i].same(#[trigger] ds[j]) <==> i == j)
}
pub proof fn runs_are_items<'a, D: Item>(ds: Seq<&'a D>, ks: Seq<int>)
    requires apart(ds), rising(ks), forall|i: int| 0 <= i < ks.len() ==> 0 <= #[trigger] ks[i] < ds.len()
    ensures runs(picked_from(ds, ks)) == ks.to_set().len()
    decreases ks.len()
{
    let s = picked_from(ds, ks);
    if ks.len() == 0 {
        assert(ks.to_set() =~= Set::empty());
    } else {
        let k1 = ks.drop_last();
        let k = ks.last();
        runs_are_items(ds, k1);
        assert(s.drop_last() =~= picked_from(ds, k1));
        assert(k1.push(k) =~= ks);
        assert(ks.to_set() =~= k1.to_set().insert(k)) by {
            assert forall|x: int| #[trigger] ks.to_set().contains(x) <==> k1.to_set().insert(k).contains(x) by {
                if ks.contains(x) { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == x; if i < k1.len() { assert(k1[i] == x); } }
                if k1.contains(x) { let i = choose|i: int| 0 <= i < k1.len() && k1[i] == x; assert(ks[i] == x); }
                assert(ks[ks.len() - 1] == k);
            }
        }
        if ks.len() == 1 {
            assert(k1.to_set() =~= Set::empty());
        } else {
            let b = k1.last();
            assert(s[s.len() - 2] == ds[b] && s[s.len() - 1] == ds[k]);
            assert(b <= k);
            if b == k { assert(k1.contains(k)) by { assert(k1[k1.len() - 1] == k); } }
            else { assert(!k1.contains(k)) by { if k1.contains(k) { let i = choose|i: int| 0 <= i < k1.len() && k1[i] == k; assert(ks[i] <= ks[ks.len() - 2]); } } }
        }
    }
}
/*@fn ngram/indexer.rs :: fn count_products
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind < Data : Ord > ( $data : & [ & Data ] )
@sub < Data : Ord > ==> <Data: Item>
@bind let mut $n = 0 ;
@sub? let mut $n = 0 ; ==> let mut $n: usize = 0;
@sub? $data . iter ( ) . enumerate ( ) ==> it_of($data).enumerate()
@sub? $data [ $i - 1 ] != * $p ==> !$data[$i - 1].is_same(*$p)
@desugar 1 steps
@spec
    ensures r == runs($data@),
@start
    let ghost mut k: int = 0;
@before loop {
    let ghost all = rem(&steps);
    proof { assert(all.skip(0) =~= all); assert($data@.take(0) =~= Seq::empty()); assert(all.len() == $data@.len()); }
@loop 1
    invariant
        0 <= k <= all.len(), all.len() == $data@.len() <= usize::MAX, rem(&steps) == all.skip(k),
        $n <= k, $n == runs($data@.take(k)),
    decreases all.len() - k,
@in 1
    proof {
        assert(all[k] == (k as usize, refs($data@)[k]));
        assert(all.skip(k).skip(1) =~= all.skip(k + 1));
        assert($data@.take(k + 1).drop_last() =~= $data@.take(k));
    }
@endin 1
    proof { k = k + 1; }
@afterloop 1
    proof { assert(all.skip(k).len() == all.len() - k); assert($data@.take(k) =~= $data@); }
@*/

// ---- standing in for std -------------------------------------------------------------------------

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VecDeque<T> { v: Vec<T> }
pub uninterp spec fn deque<T>(d: &VecDeque<T>) -> Seq<T>;
impl<T> View for VecDeque<T> {
    type V = Seq<T>;
    open spec fn view(&self) -> Seq<T> { deque(self) }
}
impl<T> VecDeque<T> {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self)
        ensures r@ == Seq::<T>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new() -> (r: Self)
        ensures r@ == Seq::<T>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize)
        ensures r == self@.len()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, t: T)
        ensures final(self)@ == seq![t] + old(self)@
    { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(),
            None => old(self)@.len() == 0 && final(self)@ == old(self)@,
        }
    { unimplemented!() }
    /// `for x in &mut queue`
    #[verifier::external_body]
    pub fn each_mut<'a>(&'a mut self) -> (r: It<&'a mut T>)
        ensures
            rem(&r).len() == old(self)@.len(), final(self)@.len() == old(self)@.len(),
            forall|i: int| #![trigger rem(&r)[i]] 0 <= i < rem(&r).len() ==> *rem(&r)[i] == old(self)@[i] && final(self)@[i] == *final(rem(&r)[i]),
    { unimplemented!() }
}
pub open spec fn sum_of(s: Seq<u32>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { sum_of(s.drop_last()) + s.last() as nat } }
/// `reduce(|a, b| a + b)`
#[verifier::external_body]
pub fn reduce_sum(i: It<u32>) -> (r: Option<u32>)
    requires sum_of(rem(&i)) <= u32::MAX
    ensures match r { Some(x) => rem(&i).len() > 0 && x == sum_of(rem(&i)), None => rem(&i).len() == 0 }
{ unimplemented!() }
/// `collect()` of pairs with different keys into a map
#[verifier::external_body]
pub fn collect_map<K, V>(i: It<(K, V)>) -> (r: AHashMap<K, V>)
    requires forall|a: int, b: int| 0 <= a < b < rem(&i).len() ==> (#[trigger] rem(&i)[a]).0 != (#[trigger] rem(&i)[b]).0
    ensures
        forall|k: K| #[trigger] r@.contains_key(k) <==> exists|a: int| 0 <= a < rem(&i).len() && (#[trigger] rem(&i)[a]).0 == k,
        forall|a: int| 0 <= a < rem(&i).len() ==> r@[(#[trigger] rem(&i)[a]).0] == rem(&i)[a].1,
{ unimplemented!() }
/// `iter_mut()`
#[verifier::external_body]
pub fn each_entry<'a, K, V>(m: &'a mut AHashMap<K, V>) -> (r: It<(&'a K, &'a mut V)>)
    ensures
        final(m)@.dom() == old(m)@.dom(),
        forall|i: int, j: int| 0 <= i < j < rem(&r).len() ==> *(#[trigger] rem(&r)[i]).0 != *(#[trigger] rem(&r)[j]).0,
        forall|i: int| #![trigger rem(&r)[i]] 0 <= i < rem(&r).len() ==> old(m)@.contains_key(*rem(&r)[i].0) && *rem(&r)[i].1 == old(m)@[*rem(&r)[i].0]
            && final(m)@[*rem(&r)[i].0] == *final(rem(&r)[i].1),
        forall|k: K| #[trigger] old(m)@.contains_key(k) ==> exists|i: int| 0 <= i < rem(&r).len() && *(#[trigger] rem(&r)[i]).0 == k,
{ unimplemented!() }
impl<K, V> AHashMap<K, Vec<V>> {
    /// `entry(k).and_modify(|v| v.push(p)).or_insert_with(|| vec![q])`
    pub fn add_to_list(&mut self, k: K, p: V, q: V)
        requires p == q
        ensures final(self)@.dom() == old(self)@.dom().insert(k),
            final(self)@[k]@ == (if old(self)@.contains_key(k) { old(self)@[k]@ } else { Seq::empty() }).push(p),
            forall|x: K| x != k && old(self)@.contains_key(x) ==> #[trigger] final(self)@[x] == old(self)@[x],
    {
        match self.entry(k) {
            Entry::Occupied(mut slot) => { let v = slot.get_mut(); v.push(p); }
            Entry::Vacant(slot) => { let mut v = Vec::new(); v.push(q); slot.insert(v); }
        }
    }
    #[verifier::external_body]
    pub fn retain<F: Fn(&K, &Vec<V>) -> bool>(&mut self, f: F, Ghost(p): Ghost<spec_fn(Vec<V>) -> bool>)
        requires forall|k: &K, v: &Vec<V>| call_requires(f, (k, v)), forall|k: &K, v: &Vec<V>, b: bool| #[trigger] call_ensures(f, (k, v), b) ==> b == p(*v)
        ensures
            forall|k: K| #[trigger] final(self)@.contains_key(k) <==> old(self)@.contains_key(k) && p(old(self)@[k]),
            forall|k: K| #[trigger] final(self)@.contains_key(k) ==> final(self)@[k] == old(self)@[k],
    { unimplemented!() }
}
pub open spec fn ranked_up<'a, D: Item>(s: Seq<&'a D>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).rank() <= (#[trigger] s[j]).rank() }
/// `sort()`
#[verifier::external_body]
pub fn sort_items<'a, D: Item>(v: &mut Vec<&'a D>)
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), ranked_up(final(v)@)
{ unimplemented!() }

// ---- the index --------------------------------------------------------------------------------------

pub open spec fn feed_texts<'a, G, D>(fs: Seq<IndexFeed<'a, G, D>>) -> Seq<Seq<G>> { fs.map_values(|f: IndexFeed<'a, G, D>| rem(&f.grams)) }
pub open spec fn items_of<'a, G, D>(fs: Seq<IndexFeed<'a, G, D>>) -> Seq<&'a D> { fs.map_values(|f: IndexFeed<'a, G, D>| f.data) }
/// Every gram lists the items that show it, once per place.
pub open spec fn listing<'a, G, D, const N: usize>(m: Map<[G; N], Vec<&'a D>>, ds: Seq<&'a D>, h: Seq<(Seq<G>, int)>) -> bool {
    forall|g: [G; N]| {
        &&& #[trigger] m.contains_key(g) <==> places(h, g@).len() > 0
        &&& m.contains_key(g) ==> m[g]@ == picked_from(ds, places(h, g@))
    }
}
pub broadcast axiom fn array_ext<G, const N: usize>(a: [G; N], b: [G; N])
    requires #[trigger] a@ == #[trigger] b@
    ensures a == b;
pub proof fn listing_push<'a, G, D, const N: usize>(m: Map<[G; N], Vec<&'a D>>, ds: Seq<&'a D>, h: Seq<(Seq<G>, int)>, g: [G; N], k: int, m2: Map<[G; N], Vec<&'a D>>)
    requires listing(m, ds, h), 0 <= k < ds.len(), m2.dom() == m.dom().insert(g),
        m2[g]@ == (if m.contains_key(g) { m[g]@ } else { Seq::empty() }).push(ds[k]),
        forall|x: [G; N]| x != g && m.contains_key(x) ==> #[trigger] m2[x] == m[x],
    ensures listing(m2, ds, h.push((g@, k)))
{
    let h2 = h.push((g@, k));
    assert forall|x: [G; N]| {
        &&& #[trigger] m2.contains_key(x) <==> places(h2, x@).len() > 0
        &&& m2.contains_key(x) ==> m2[x]@ == picked_from(ds, places(h2, x@))
    } by {
        places_push(h, g@, k, x@);
        assert(m.contains_key(x) <==> places(h, x@).len() > 0);
        if x == g {
            assert(m2[x]@ =~= picked_from(ds, places(h2, x@)));
        } else {
            if x@ == g@ { array_ext(x, g); }
            assert(m2.contains_key(x) <==> m.contains_key(x));
        }
    }
}
pub open spec fn first_path<G>(g: G) -> Seq<G> { seq![g] }
/*@item ngram/indexer.rs :: const DATA_CUTOFF_PERCENTAGE @*/
pub proof fn few<G>(ts: Seq<Seq<G>>, t: Seq<G>, n: nat, p: Seq<G>)
    ensures count_in(ts, t, n)(p) <= letters(ts) + t.len()
{ total_few(ts, p); occ_few(t, p); }
/// The node of a first character.
pub proof fn root_at<G: GramAtom>(root: Map<G, MutableGramNode<G>>, heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, ts: Seq<Seq<G>>, n: nat, g: G)
    requires planted(root, heap, at, count_in(ts, Seq::empty(), n), n), root.contains_key(g)
    ensures at.contains_key(seq![g]), at[seq![g]] == cid(root[g]), letters(ts) > 0
{
    assert(at.contains_key(seq![g]));
    few(ts, Seq::empty(), n, seq![g]);
}
pub open spec fn firsts_sum<G>(ks: Seq<G>, c: Count<G>) -> nat decreases ks.len() {
    if ks.len() == 0 { 0 } else { firsts_sum(ks.drop_last(), c) + c(seq![ks.last()]) }
}
pub proof fn firsts_one_more<G>(ks: Seq<G>, c: Count<G>, d: Count<G>, g: G)
    requires ks.no_duplicates(), forall|h: G| #![trigger d(seq![h])] d(seq![h]) == c(seq![h]) + if h == g { 1nat } else { 0 }
    ensures firsts_sum(ks, d) == firsts_sum(ks, c) + if ks.contains(g) { 1nat } else { 0 }
    decreases ks.len()
{
    if ks.len() > 0 {
        let k1 = ks.drop_last();
        firsts_one_more(k1, c, d, g);
        assert(d(seq![ks.last()]) == c(seq![ks.last()]) + if ks.last() == g { 1nat } else { 0 });
        if ks.contains(g) && ks.last() != g { let i = choose|i: int| 0 <= i < ks.len() && ks[i] == g; assert(k1[i] == g); }
        if k1.contains(g) { let i = choose|i: int| 0 <= i < k1.len() && k1[i] == g; assert(ks[i] == g); }
        assert(ks[ks.len() - 1] == ks.last());
    }
}
pub proof fn firsts_none<G>(ks: Seq<G>, c: Count<G>)
    requires forall|h: G| #[trigger] c(seq![h]) == 0
    ensures firsts_sum(ks, c) == 0
    decreases ks.len()
{ if ks.len() > 0 { firsts_none(ks.drop_last(), c); } }
pub proof fn firsts_are_letters<G>(ks: Seq<G>, ts: Seq<Seq<G>>, t: Seq<G>, n: nat)
    requires ks.no_duplicates(), n >= 1, forall|h: G| #[trigger] count_in(ts, t, n)(seq![h]) > 0 ==> ks.contains(h)
    ensures firsts_sum(ks, count_in(ts, t, n)) == letters(ts) + t.len()
    decreases ts.len(), t.len()
{
    let d = count_in(ts, t, n);
    if t.len() > 0 {
        let c = count_in(ts, t.drop_last(), n);
        assert forall|h: G| #![trigger d(seq![h])] d(seq![h]) == c(seq![h]) + if h == t.last() { 1nat } else { 0 } by {
            assert(seq![h].len() == 1);
            assert(last(t, 1) =~= seq![t.last()]);
            if h != t.last() { assert(seq![h][0] != seq![t.last()][0]); }
        }
        assert forall|h: G| #[trigger] c(seq![h]) > 0 implies ks.contains(h) by { assert(d(seq![h]) > 0); }
        firsts_are_letters(ks, ts, t.drop_last(), n);
        firsts_one_more(ks, c, d, t.last());
        assert(d(seq![t.last()]) > 0);
    } else if ts.len() > 0 {
        assert(t =~= Seq::empty());
        assert(ts.drop_last().push(ts.last()) =~= ts);
        counted_next(ts.drop_last(), ts.last(), n);
        firsts_are_letters(ks, ts.drop_last(), ts.last(), n);
    } else {
        firsts_none(ks, d);
    }
}
pub proof fn sum_is<G>(ks: Seq<G>, c: Count<G>, s: Seq<u32>)
    requires ks.len() == s.len(), forall|i: int| 0 <= i < ks.len() ==> #[trigger] s[i] == c(seq![ks[i]])
    ensures sum_of(s) == firsts_sum(ks, c)
    decreases ks.len()
{
    if ks.len() > 0 {
        assert forall|i: int| 0 <= i < ks.drop_last().len() implies #[trigger] s.drop_last()[i] == c(seq![ks.drop_last()[i]]) by { assert(s[i] == c(seq![ks[i]])); }
        sum_is(ks.drop_last(), c, s.drop_last());
        assert(s[s.len() - 1] == c(seq![ks[ks.len() - 1]]));
    }
}
/// All counts of first characters make up the number of characters.
pub proof fn whole_sum<G: GramAtom>(root: Map<G, MutableGramNode<G>>, heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, ts: Seq<Seq<G>>, n: nat, vs: Seq<&MutableGramNode<G>>, s: Seq<u32>)
    requires n >= 1, planted(root, heap, at, count_in(ts, Seq::empty(), n), n),
        exists|ks: Seq<&G>| #[trigger] each_once(ks, root.dom()) && ks.len() == root.dom().len() && vs.len() == ks.len()
            && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs[i]) == root[*ks[i]],
        s.len() == vs.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == heap[cid(*vs[i])].occurances,
    ensures sum_of(s) == letters(ts)
{
    let c = count_in(ts, Seq::empty(), n);
    let ks = choose|ks: Seq<&G>| #[trigger] each_once(ks, root.dom()) && ks.len() == root.dom().len() && vs.len() == ks.len()
            && forall|i: int| 0 <= i < ks.len() ==> *(#[trigger] vs[i]) == root[*ks[i]];
    let gs = derefs(ks);
    assert(gs.no_duplicates()) by {
        assert forall|i: int, j: int| 0 <= i < gs.len() && 0 <= j < gs.len() && i != j implies gs[i] != gs[j] by { if i < j { assert(*ks[i] != *ks[j]); } else { assert(*ks[j] != *ks[i]); } }
    }
    assert forall|h: G| #[trigger] c(seq![h]) > 0 implies gs.contains(h) by {
        assert(at.contains_key(seq![h]));
        assert(root.contains_key(h));
        assert(root.dom().contains(h));
        let i = choose|i: int| 0 <= i < ks.len() && *(#[trigger] ks[i]) == h;
        assert(gs[i] == h);
    }
    assert forall|i: int| 0 <= i < gs.len() implies #[trigger] s[i] == c(seq![gs[i]]) by {
        assert(*vs[i] == root[*ks[i]]);
        assert(root.dom().contains(*ks[i]));
        root_at(root, heap, at, ts, n, gs[i]);
        assert(holds(heap, at, seq![gs[i]], c(seq![gs[i]])));
    }
    sum_is(gs, c, s);
    firsts_are_letters(gs, ts, Seq::empty(), n);
}
/// The trees of the first characters.
pub open spec fn trees<'a, G: GramAtom>(m: Map<G, &'a GramNode<'a, G>>, ts: Seq<Seq<G>>, n: nat) -> bool {
    let c = count_in(ts, Seq::empty(), n);
    &&& forall|g: G| #[trigger] m.contains_key(g) <==> c(seq![g]) > 0
    &&& forall|g: G| #[trigger] m.contains_key(g) ==> node_grown(m[g], seq![g], letters(ts), c, n)
}
pub proof fn all_roots<'a, G: GramAtom>(root: Map<G, MutableGramNode<G>>, heap: Map<int, Inner<G>>, at: Map<Seq<G>, int>, ts: Seq<Seq<G>>, n: nat, rs: Seq<(G, MutableGramNode<G>)>, xs: Seq<(G, &'a GramNode<'a, G>)>, m: Map<G, &'a GramNode<'a, G>>)
    requires planted(root, heap, at, count_in(ts, Seq::empty(), n), n),
        exists|es: Seq<(&G, &MutableGramNode<G>)>| #[trigger] entries(es, root) && es.len() == rs.len() && forall|i: int| 0 <= i < es.len() ==> #[trigger] rs[i] == (*es[i].0, *es[i].1),
        xs.len() == rs.len(),
        forall|i: int| 0 <= i < xs.len() ==> (#[trigger] xs[i]).0 == rs[i].0 && node_grown(xs[i].1, seq![rs[i].0], letters(ts), count_in(ts, Seq::empty(), n), n),
        forall|k: G| #[trigger] m.contains_key(k) <==> exists|a: int| 0 <= a < xs.len() && (#[trigger] xs[a]).0 == k,
        forall|a: int| 0 <= a < xs.len() ==> m[(#[trigger] xs[a]).0] == xs[a].1,
    ensures trees(m, ts, n)
{
    let c = count_in(ts, Seq::empty(), n);
    let es = choose|es: Seq<(&G, &MutableGramNode<G>)>| #[trigger] entries(es, root) && es.len() == rs.len() && forall|i: int| 0 <= i < es.len() ==> #[trigger] rs[i] == (*es[i].0, *es[i].1);
    assert forall|g: G| #[trigger] m.contains_key(g) <==> c(seq![g]) > 0 by {
        assert(root.contains_key(g) <==> at.contains_key(seq![g]));
        if root.contains_key(g) {
            let i = choose|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == g;
            assert(rs[i].0 == g);
            assert(xs[i].0 == g);
        }
        if m.contains_key(g) {
            let a = choose|a: int| 0 <= a < xs.len() && (#[trigger] xs[a]).0 == g;
            assert(rs[a].0 == *es[a].0);
        }
    }
    assert forall|g: G| #[trigger] m.contains_key(g) implies node_grown(m[g], seq![g], letters(ts), c, n) by {
        let a = choose|a: int| 0 <= a < xs.len() && (#[trigger] xs[a]).0 == g;
        assert(rs[a].0 == g);
    }
}
/// The lists, those that are not too long, sorted.
pub proof fn listed_grams<'a, G, D: Item, const N: usize>(m1: Map<[G; N], Vec<&'a D>>, m2: Map<[G; N], Vec<&'a D>>, m3: Map<[G; N], Vec<&'a D>>, ts: Seq<Seq<G>>, ds: Seq<&'a D>, most: int)
    requires
        listing(m1, ds, grams_shown(ts, N as nat)), apart(ds), ts.len() == ds.len(),
        forall|k: [G; N]| #[trigger] m2.contains_key(k) <==> m1.contains_key(k) && runs(m1[k]@) <= most,
        forall|k: [G; N]| #[trigger] m2.contains_key(k) ==> m2[k] == m1[k],
        m3.dom() == m2.dom(),
        forall|k: [G; N]| #[trigger] m3.contains_key(k) ==> m3[k]@.to_multiset() == m2[k]@.to_multiset() && ranked_up(m3[k]@),
    ensures gram_lists(m3, ts, ds, most)
{
    let h = grams_shown(ts, N as nat);
    shown_rises(ts, N as nat);
    assert forall|g: [G; N]| {
        let ks = places(h, g@);
        &&& #[trigger] m3.contains_key(g) <==> ks.len() > 0 && ks.to_set().len() <= most
        &&& m3.contains_key(g) ==> m3[g]@.to_multiset() == picked_from(ds, ks).to_multiset() && ranked_up(m3[g]@)
    } by {
        let ks = places(h, g@);
        places_rise(h, g@, ts.len() as int);
        runs_are_items(ds, ks);
        assert(m3.contains_key(g) <==> m3.dom().contains(g));
        assert(m2.contains_key(g) <==> m2.dom().contains(g));
        assert(m1.contains_key(g) <==> ks.len() > 0);
    }
}
/// The lists of the grams.
pub open spec fn gram_lists<'a, G, D: Item, const N: usize>(m: Map<[G; N], Vec<&'a D>>, ts: Seq<Seq<G>>, ds: Seq<&'a D>, most: int) -> bool {
    forall|g: [G; N]| {
        let ks = places(grams_shown(ts, N as nat), g@);
        &&& #[trigger] m.contains_key(g) <==> ks.len() > 0 && ks.to_set().len() <= most
        &&& m.contains_key(g) ==> m[g]@.to_multiset() == picked_from(ds, ks).to_multiset() && ranked_up(m[g]@)
    }
}
impl<'a, G: GramAtom, Data: Ord + Item, const N: usize> GramIndex<'a, G, Data, N> {
/*@fn ngram/indexer.rs :: impl<'a, G: GramAtom, Data: Ord, const N: usize> GramIndex<'a, G, Data, N> :: fn index_from
@opt ret = r
@opt loops = 5
@opt attr = #[verifier::loop_isolation(false)] #[verifier::rlimit(100)] #[verifier::spinoff_prover]
@bind < 'arena , I , S > ( $source : S , $nodes : & 'arena Arena < GramNode < 'arena , G > > , $products : & 'arena ProductContainer < 'arena > , )
@sub < 'arena , I , S > ( $source : S , ==> <'arena>($source: It<IndexFeed<'arena, G, Data>>,
@sub where I : Iterator < Item = G > + Clone , S : Iterator < Item = IndexFeed < 'arena , G , I , Data > > , { ==> {
@bind let mut $root : AHashMap < G ,
@bind let mut $map : AHashMap < [ G ; N ] ,
@bind for IndexFeed { grams , data } in $source2
@bind let mut $queue : VecDeque
@bind let mut $window = [ G :: default ( ) ; N ]
@bind for $gram in grams
@sub? [ G :: default ( ) ; N ] ==> no_grams::<G, N>()
@sub? MutableGramNode :: new ( $a , $b ) ==> MutableGramNode::new($a, $b, &mut heap)
@sub? $n . 0 . borrow_mut ( ) . occurances += $k ; ==> { let cell = $n.0.p.borrow_mut(&mut heap); cell.occurances += $k; }
@sub? let $rn = $root . entry ( $g ) . and_modify ( | $n | { $$body } ) . or_insert_with ( || $$new ) . clone ( ) ; ==> let $rn = match root_of(&$root, $g) { Some($n) => { $$body; proof { counted_again(root0, heap0, at, c0, n, path, heap@[at[path]], c1); assert(heap@ =~= heap0.insert(at[path], heap@[at[path]])); } $n } None => { let fresh = $$new; $root.insert($g, fresh.dup()); proof { new_root(root0, heap0, at, c0, n, $g, fresh, heap@[cid(fresh)], c1); at = at.insert(path, cid(fresh)); } fresh } };
@sub? let $cn = $qn . 0 . borrow_mut ( ) . items . entry ( $g2 ) . and_modify ( | $n2 | { $$body2 } ) . or_insert_with ( || $$new2 ) . clone ( ) ; ==> let $cn = match child_of($qn, $g2, &heap) { Some($n2) => { assert(cid($n2) != cid(*$qn)); $$body2; proof { counted_again(root0, heap0, at, c0, n, path, heap@[at[path]], c1); assert(heap@ =~= heap0.insert(at[path], heap@[at[path]])); } $n2 } None => { let fresh = $$new2; let ghost x = heap@[cid(fresh)]; { let cell = $qn.0.p.borrow_mut(&mut heap); cell.items.insert($g2, fresh.dup()); } proof { new_child(root0, heap0, at, c0, n, up, $g2, fresh, x, heap@[at[up]], c1); assert(heap@ =~= heap0.insert(cid(fresh), x).insert(at[up], heap@[at[up]])); at = at.insert(path, cid(fresh)); } fresh } };
@sub? for $q3 in & mut $queue { ==> let each = $queue.each_mut(); proof { qs = rem(&each); } for $q3 in each {
@sub? . entry ( $l ) . and_modify ( | $v | $v . push ( $p ) ) . or_insert_with ( || vec ! [ $q ] ) ; ==> .add_to_list($l, $p, $q);
@sub? let $tot = $root . values ( ) . map ( | $v4 | $v4 . 0 . borrow ( ) . occurances ) . reduce ( | $a4 , $b4 | $a4 + $b4 ) . unwrap_or ( 0 ) ; ==> let vals = $root.values(); let ghost vs = rem(&vals); let counts = vals.map(|$v4: &MutableGramNode<G>| -> (o: u32) requires heap@.contains_key(cid(*$v4)) ensures o == heap@[cid(*$v4)].occurances { $v4.0.p.borrow(&heap).occurances }); proof { whole_sum($root@, heap@, at, all, n, vs, rem(&counts)); } let $tot = reduce_sum(counts).unwrap_or(0);
@sub? $root . into_iter ( ) . map ( | ( $k5 , $v5 ) | ( $k6 , $v6 . immutalize ( $t6 , $a6 ) ) ) . collect ( ) ; ==> { let each = map_it($root); let ghost rs = rem(&each); let made = each.map(|e: (G, MutableGramNode<G>)| -> (x: (G, &'arena GramNode<'arena, G>)) requires root0.contains_key(e.0) && root0[e.0] == e.1 ensures x.0 == e.0, node_grown(x.1, seq![e.0], $t6 as nat, c0, n) { let $k5 = e.0; let $v5 = e.1; proof { root_at(root0, heap@, at0, all, n, e.0); } ($k6, $v6.immutalize($t6, $a6, &heap, Ghost(Sprout { root: root0, at: at0, count: c0, n }), Ghost(first_path(e.0)))) }); let ghost xs = rem(&made); let m = collect_map(made); proof { all_roots(root0, heap@, at0, all, n, rs, xs, m@); } m };
@sub? ( $a7 as f32 ) * DATA_CUTOFF_PERCENTAGE ==> f32_mul($a7.as_f32(), DATA_CUTOFF_PERCENTAGE)
@sub? $m8 as usize ; ==> f32_trunc($m8);
@bind let $most = f32_trunc
@sub? $map . retain ( | _ , $d9 | $$keep ) ; ==> $map.retain(|_k: &[G; N], $d9: &Vec<&'arena Data>| -> (b: bool) ensures b == (runs($d9@) <= $most) { $$keep }, Ghost(|v: Vec<&'arena Data>| runs(v@) <= $most));
@sub? count_products ( $d9 ) ==> count_products($d9.as_slice())
@sub? $map . iter_mut ( ) ==> each_entry(&mut $map)
@sub? $da . sort ( ) ; ==> sort_items($da);
@desugar 1 feeds
@desugar 5 lists
@spec
    requires 1 <= N < usize::MAX, letters(feed_texts(rem(&$source))) <= u32::MAX, apart(items_of(rem(&$source))), $products.products@.len() < 0x40_0000,
    ensures
        gram_lists(r.data@, feed_texts(rem(&$source)), items_of(rem(&$source)), (4 * $products.products@.len() / 5) as int),
        trees(r.roots@, feed_texts(rem(&$source)), N as nat),
        r.product_container == $products,
@start
    let mut heap: Heap<Inner<G>> = no_cells();
    let ghost n = N as nat;
    let ghost fs = rem(&$source);
    let ghost all = feed_texts(fs);
    let ghost ds = items_of(fs);
    let ghost mut at: Map<Seq<G>, int> = Map::empty();
    let ghost mut kt: int = 0;
@before loop {
    proof {
        assert(fs.skip(0) =~= fs);
        assert(all.take(0) =~= Seq::empty());
        assert(planted($root@, heap@, at, count_in(all.take(0), Seq::empty(), n), n));
        assert(listing($map@, ds, grams_shown(all.take(0), n)));
    }
@loop 1
    invariant
        0 <= kt <= fs.len(), rem(&feeds) == fs.skip(kt), all.len() == fs.len(),
        planted($root@, heap@, at, count_in(all.take(kt), Seq::empty(), n), n),
        listing($map@, ds, grams_shown(all.take(kt), n)),
    decreases fs.len() - kt,
@in 1
    let ghost done = all.take(kt);
    let ghost text = all[kt];
    proof {
        assert(fs.skip(kt).skip(1) =~= fs.skip(kt + 1));
        letters_grow(all, kt);
    }
@before for $gram in
    proof {
        assert(text.take(0) =~= Seq::empty());
        assert($window@ =~= window(text, 0, n));
        assert(grams_shown(done, n) + shown_in(text, 0, kt, n) =~= grams_shown(done, n));
    }
@bind let $rootnode = match root_of
@iter 2 it
@loop 2
    invariant
        it.seq() == text, data == ds[kt],
        planted($root@, heap@, at, count_in(done, text.take(it.index@), n), n),
        queued($queue@, text.take(it.index@), at, n),
        $window@ == window(text, it.index@, n),
        listing($map@, ds, grams_shown(done, n) + shown_in(text, it.index@, kt, n)),
@in 2
    let ghost i0 = it.index@;
    let ghost t = text.take(i0);
    let ghost tc = text.take(i0 + 1);
    let ghost cnt = count_in(done, t, n);
    let ghost mut qs: Seq<&mut MutableGramNode<G>> = Seq::empty();
    let ghost mut c0 = cnt;
    let ghost mut c1 = plus(cnt, tc, 1);
    let ghost mut path = seq![$gram];
    let ghost mut root0 = $root@;
    let ghost mut heap0 = heap@;
    let ghost w0 = $window@;
    let ghost m0 = $map@;
    let ghost shown0 = grams_shown(done, n) + shown_in(text, i0, kt, n);
    proof {
        assert(tc =~= t.push($gram));
        plus_none(cnt, tc);
        plus_step(cnt, tc, 0);
        assert(last(tc, 1) =~= path);
        few(done, t, n, path);
        if at.contains_key(path) { assert(holds(heap0, at, path, c0(path))); }
        window_slides(text, i0, n);
    }
@endin 2
    proof {
        assert($window@ =~= window(text, i0 + 1, n));
        shown_in_more(text, i0, kt, n);
        listing_push(m0, ds, shown0, $window, kt, $map@);
        assert(shown0.push(($window@, kt)) =~= grams_shown(done, n) + shown_in(text, i0 + 1, kt, n));
        queue_moves(q3, $rootnode, $queue@, tc, at, n);
    }
@iter 4 sh
@loop 4
    invariant
        $window@.len() == N,
        forall|j: int| 0 <= j < sh.index@ ==> #[trigger] $window@[j] == w0[j + 1],
        forall|j: int| sh.index@ <= j < N ==> #[trigger] $window@[j] == w0[j],
@iter 3 qi
@loop 3
    invariant
        qi.seq() == qs, qs.len() == if t.len() < n { t.len() } else { (n - 1) as nat },
        planted($root@, heap@, at, plus(cnt, tc, qi.index@ + 1), n),
        forall|j: int| 0 <= j < qs.len() ==> cid(*#[trigger] qs[j]) == at[last(t, j + 1)] && at.contains_key(last(t, j + 1)),
        forall|j: int| 0 <= j < qi.index@ ==> cid(*final(#[trigger] qs[j])) == at[last(tc, j + 2)] && at.contains_key(last(tc, j + 2)),
        at.contains_key(seq![$gram]), at[seq![$gram]] == cid($rootnode),
@in 3
    let ghost j0 = qi.index@;
    let ghost up = last(t, j0 + 1);
    let ghost at1 = at;
    proof {
        c0 = plus(cnt, tc, j0 + 1);
        c1 = plus(cnt, tc, j0 + 2);
        path = last(tc, j0 + 2);
        root0 = $root@;
        heap0 = heap@;
        plus_step(cnt, tc, j0 + 1);
        last_grows(t, $gram, j0 + 1);
        few(done, t, n, path);
        assert(holds(heap0, at, up, c0(up)));
        if at.contains_key(path) { assert(holds(heap0, at, path, c0(path))); }
    }
@endin 3
    proof {
        assert(forall|q: Seq<G>| #[trigger] at1.contains_key(q) ==> at.contains_key(q) && at[q] == at1[q]);
    }
@afterloop 3
    proof {
        plus_all(done, t, $gram, n, qs.len() as int + 1);
        assert(last(tc, 1) =~= seq![$gram]);
    }
    let ghost q3 = $queue@;
    proof {
        assert forall|j: int| 0 <= j < q3.len() implies cid(#[trigger] q3[j]) == at[last(tc, j + 2)] && at.contains_key(last(tc, j + 2)) by { assert(q3[j] == *final(qs[j])); }
    }
@endin 1
    proof {
        assert(text.take(text.len() as int) =~= text);
        counted_next(done, text, n);
        assert(all.take(kt + 1) =~= done.push(text));
        assert(all.take(kt + 1).drop_last() =~= done);
        kt = kt + 1;
    }
@afterloop 1
    let ghost root0 = $root@;
    let ghost at0 = at;
    let ghost c0 = count_in(all, Seq::empty(), n);
    proof {
        assert(fs.skip(kt).len() == 0);
        assert(all.take(kt) =~= all);
    }
@bind let $roots : AHashMap < G , & 'arena GramNode
@before let $most = f32_trunc
    proof { f_four_fifths_of($products.products@.len() as int); }
    let ghost m1 = $map@;
@before let mut lists =
    let ghost m2 = $map@;
@before loop { let ( _ , $da )
    let ghost ps = rem(&lists);
    let ghost mut j: int = 0;
    proof { assert(ps.skip(0) =~= ps); }
@loop 5
    invariant
        0 <= j <= ps.len(), rem(&lists) == ps.skip(j),
        forall|i: int| 0 <= i < j ==> (*final((#[trigger] ps[i]).1))@.to_multiset() == m2[*ps[i].0]@.to_multiset() && ranked_up((*final(ps[i].1))@),
    decreases ps.len() - j,
@in 5
    proof { assert(ps.skip(j).skip(1) =~= ps.skip(j + 1)); }
@endin 5
    proof { j = j + 1; }
@afterloop 5
    proof {
        assert(ps.skip(j).len() == 0);
        assert forall|g: [G; N]| #[trigger] $map@.contains_key(g) implies $map@[g]@.to_multiset() == m2[g]@.to_multiset() && ranked_up($map@[g]@) by {
            assert(m2.dom().contains(g));
            assert(m2.contains_key(g));
            let i = choose|i: int| 0 <= i < ps.len() && *(#[trigger] ps[i]).0 == g;
            assert($map@[*ps[i].0] == *final(ps[i].1));
        }
        listed_grams(m1, m2, $map@, all, ds, (4 * $products.products@.len() / 5) as int);
    }
@*/
}
