// ---- the gram tree -----------------------------------------------------------------------------
pub type NodeRow<G> = (G, (f32, usize));
pub type NodeData<A> = (A, (f32, nat));
/// A tree, written node by node: each node, then its children in order.
pub open spec fn flat<'a, G: GramAtom>(node: GramNode<'a, G>) -> Seq<NodeData<G::M>>
    decreases node, 0nat
{ seq![(node.item.m(), (node.weight, node.by_occurances@.len()))] + flats(node.by_occurances, node.by_occurances@.len()) }
/// The first k of these trees.
pub open spec fn flats<'a, G: GramAtom>(list: Vec<&'a GramNode<'a, G>>, k: nat) -> Seq<NodeData<G::M>>
    decreases list, k
{ if k == 0 || k > list@.len() { Seq::empty() } else { flats(list, (k - 1) as nat) + flat(*list@[k - 1]) } }
/// p whole trees, and nothing else.
pub open spec fn balanced<A>(rows: Seq<NodeData<A>>, p: nat) -> bool
    decreases rows.len()
{ if p == 0 { rows.len() == 0 } else { rows.len() > 0 && balanced(rows.skip(1), (p - 1 + rows[0].1.1) as nat) } }
pub proof fn flat_balanced<'a, G: GramAtom>(node: GramNode<'a, G>, x: Seq<NodeData<G::M>>, p: nat)
    requires balanced(x, p)
    ensures balanced(flat(node) + x, p + 1)
    decreases node, 0nat
{
    let n = node.by_occurances@.len();
    let all = flat(node) + x;
    flats_balanced(node.by_occurances, n, x, p);
    assert(all.skip(1) =~= flats(node.by_occurances, n) + x);
    assert(all[0].1.1 == n);
}
pub proof fn flats_balanced<'a, G: GramAtom>(list: Vec<&'a GramNode<'a, G>>, k: nat, x: Seq<NodeData<G::M>>, p: nat)
    requires balanced(x, p), k <= list@.len()
    ensures balanced(flats(list, k) + x, p + k)
    decreases list, k
{
    if k > 0 {
        let last = *list@[k - 1];
        flat_balanced(last, x, p);
        flats_balanced(list, (k - 1) as nat, flat(last) + x, p + 1);
        assert(flats(list, k) + x =~= flats(list, (k - 1) as nat) + (flat(last) + x));
    } else { assert(flats(list, 0) + x =~= x); }
}
/// Reading p trees.
pub open spec fn forest<G: GramAtom>(p: nat, i: Seq<u8>) -> Dec<Seq<NodeData<G::M>>>
    decreases i.len()
{
    if p == 0 { Dec::Ok(Seq::empty(), 0) } else {
        match <NodeRow<G>>::dec(i) {
            Dec::Ok(r, k) => if 1 <= k <= i.len() { prepend(seq![r], k, forest::<G>((p - 1 + r.1.1) as nat, i.skip(k as int))) } else { Dec::Free },
            Dec::Short => Dec::Short,
            Dec::Free => Dec::Free,
        }
    }
}
pub proof fn forest_law<G: GramAtom>(rows: Seq<NodeData<G::M>>, ps: Seq<Seq<u8>>, p: nat, t: Seq<u8>)
    requires balanced(rows, p), pieces::<NodeRow<G>>(rows, ps)
    ensures forest::<G>(p, cat(ps) + t) == Dec::<Seq<NodeData<G::M>>>::Ok(rows, cat(ps).len()), p > 0 ==> cat(ps).len() >= 1
    decreases rows.len()
{
    if p == 0 { assert(rows =~= Seq::empty()); assert(cat(ps) == Seq::<u8>::empty()); }
    else {
        let rows1 = rows.skip(1);
        let ps1 = ps.skip(1);
        assert(<NodeRow<G>>::enc(rows[0], ps[0]));
        assert forall|i: int| 0 <= i < rows1.len() implies #[trigger] <NodeRow<G>>::enc(rows1[i], ps1[i]) by { assert(<NodeRow<G>>::enc(rows[i + 1], ps[i + 1])); }
        forest_law::<G>(rows1, ps1, (p - 1 + rows[0].1.1) as nat, t);
        let rest = cat(ps1) + t;
        let i = cat(ps) + t;
        assert(i =~= ps[0] + rest);
        <NodeRow<G>>::law(rows[0], ps[0], rest);
        assert(i.skip(ps[0].len() as int) =~= rest);
        assert(seq![rows[0]] + rows1 =~= rows);
    }
}
pub proof fn forest_short<G: GramAtom>(rows: Seq<NodeData<G::M>>, ps: Seq<Seq<u8>>, p: nat, k: int)
    requires balanced(rows, p), pieces::<NodeRow<G>>(rows, ps), 0 <= k < cat(ps).len()
    ensures forest::<G>(p, cat(ps).take(k)) == Dec::<Seq<NodeData<G::M>>>::Short
    decreases rows.len()
{
    if p == 0 { assert(cat(ps) == Seq::<u8>::empty()); }
    else {
        let rows1 = rows.skip(1);
        let ps1 = ps.skip(1);
        let i = cat(ps).take(k);
        assert(<NodeRow<G>>::enc(rows[0], ps[0]));
        if k < ps[0].len() {
            assert(i =~= ps[0].take(k));
            <NodeRow<G>>::law_short(rows[0], ps[0], k);
        } else {
            assert forall|i: int| 0 <= i < rows1.len() implies #[trigger] <NodeRow<G>>::enc(rows1[i], ps1[i]) by { assert(<NodeRow<G>>::enc(rows[i + 1], ps[i + 1])); }
            let k1 = k - ps[0].len();
            forest_short::<G>(rows1, ps1, (p - 1 + rows[0].1.1) as nat, k1);
            let rest = cat(ps1).take(k1);
            assert(i =~= ps[0] + rest);
            <NodeRow<G>>::law(rows[0], ps[0], rest);
            assert(i.skip(ps[0].len() as int) =~= rest);
        }
    }
}
pub proof fn forest_bound<G: GramAtom>(p: nat, i: Seq<u8>)
    ensures forest::<G>(p, i) matches Dec::Ok(ms, k) ==> ms.len() <= k <= i.len() && (p > 0 ==> 1 <= k) && balanced(ms, p)
    decreases i.len()
{
    if p > 0 {
        if let Dec::Ok(r, k) = <NodeRow<G>>::dec(i) {
            if 1 <= k <= i.len() {
                let q = (p - 1 + r.1.1) as nat;
                forest_bound::<G>(q, i.skip(k as int));
                if let Dec::Ok(ms, j) = forest::<G>(q, i.skip(k as int)) { assert((seq![r] + ms).skip(1) =~= ms); }
            }
        }
    }
}
pub open spec fn forest_then<G: GramAtom>(d: Dec<Seq<NodeData<G::M>>>, b: nat, i: Seq<u8>) -> Dec<Seq<NodeData<G::M>>> {
    match d { Dec::Ok(ms, k) => prepend(ms, k, forest::<G>(b, i.skip(k as int))), Dec::Short => Dec::Short, Dec::Free => Dec::Free }
}
/// Trees are read one after the other.
#[verifier::spinoff_prover]
#[verifier::rlimit(40)]
pub proof fn forest_split<G: GramAtom>(a: nat, b: nat, i: Seq<u8>)
    ensures forest::<G>(a + b, i) == forest_then::<G>(forest::<G>(a, i), b, i)
    decreases i.len()
{
    if a == 0 {
        assert(i.skip(0) =~= i);
        if let Dec::Ok(ms, k) = forest::<G>(b, i) { assert(Seq::<NodeData<G::M>>::empty() + ms =~= ms); }
    } else {
        if let Dec::Ok(r, k) = <NodeRow<G>>::dec(i) {
            if 1 <= k <= i.len() {
                let q = (a - 1 + r.1.1) as nat;
                let i1 = i.skip(k as int);
                forest_split::<G>(q, b, i1);
                assert((a + b - 1 + r.1.1) as nat == q + b);
                forest_bound::<G>(q, i1);
                if let Dec::Ok(ms, j) = forest::<G>(q, i1) {
                    assert(i1.skip(j as int) =~= i.skip((k + j) as int));
                    if let Dec::Ok(ms2, j2) = forest::<G>(b, i1.skip(j as int)) { assert(seq![r] + (ms + ms2) =~= (seq![r] + ms) + ms2); }
                }
            }
        }
    }
}
impl<'a, G: GramAtom> Enc for GramNode<'a, G> {
    type M = Seq<NodeData<G::M>>;
    open spec fn m(&self) -> Seq<NodeData<G::M>> { flat(*self) }
    open spec fn enc(m: Seq<NodeData<G::M>>, b: Seq<u8>) -> bool { balanced(m, 1) && enc_n::<NodeRow<G>>(m, b) }
}
impl<'a, G: GramAtom> DecSpec for GramNode<'a, G> {
    open spec fn dec(i: Seq<u8>) -> Dec<Seq<NodeData<G::M>>> { forest::<G>(1, i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) {
        let ps = choose|ps: Seq<Seq<u8>>| pieces::<NodeRow<G>>(m, ps) && b == #[trigger] cat(ps);
        forest_law::<G>(m, ps, 1, t);
    }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) {
        let ps = choose|ps: Seq<Seq<u8>>| pieces::<NodeRow<G>>(m, ps) && b == #[trigger] cat(ps);
        forest_short::<G>(m, ps, 1, k);
    }
    proof fn law_bound(i: Seq<u8>) { forest_bound::<G>(1, i); }
}

// ---- writing
pub proof fn cat_both(ps: Seq<Seq<u8>>, qs: Seq<Seq<u8>>)
    ensures cat(ps + qs) == cat(ps) + cat(qs)
    decreases qs.len()
{
    if qs.len() == 0 { assert(ps + qs =~= ps); assert(cat(ps) + cat(qs) =~= cat(ps)); }
    else {
        let q0 = qs.drop_last();
        cat_both(ps, q0);
        cat_push(ps + q0, qs.last());
        cat_push(q0, qs.last());
        assert((ps + q0).push(qs.last()) =~= ps + qs);
        assert(q0.push(qs.last()) =~= qs);
        assert(cat(ps) + (cat(q0) + qs.last()) =~= (cat(ps) + cat(q0)) + qs.last());
    }
}
pub proof fn wrote_both<T: Enc>(a: Seq<T::M>, b: Seq<T::M>, o1: Seq<u8>, o2: Seq<u8>, o3: Seq<u8>)
    requires wrote::<T>(a, o1, o2), wrote::<T>(b, o2, o3)
    ensures wrote::<T>(a + b, o1, o3)
{
    let x = choose|x: Seq<u8>| enc_n::<T>(a, x) && o2 == #[trigger] (o1 + x);
    let y = choose|y: Seq<u8>| enc_n::<T>(b, y) && o3 == #[trigger] (o2 + y);
    let ps = choose|ps: Seq<Seq<u8>>| pieces::<T>(a, ps) && x == #[trigger] cat(ps);
    let qs = choose|qs: Seq<Seq<u8>>| pieces::<T>(b, qs) && y == #[trigger] cat(qs);
    cat_both(ps, qs);
    assert forall|i: int| 0 <= i < (a + b).len() implies #[trigger] T::enc((a + b)[i], (ps + qs)[i]) by {
        if i < a.len() { assert(T::enc(a[i], ps[i])); } else { assert(T::enc(b[i - a.len()], qs[i - a.len()])); }
    }
    assert(pieces::<T>(a + b, ps + qs));
    assert(enc_n::<T>(a + b, x + y));
    assert(o1 + (x + y) =~= o3);
}
pub proof fn wrote_one<T: Enc>(m: T::M, o1: Seq<u8>, o2: Seq<u8>)
    requires emitted::<T>(m, o1, o2)
    ensures wrote::<T>(seq![m], o1, o2)
{
    wrote_none::<T>(o1);
    wrote_step::<T>(Seq::empty(), o1, o1, m, o2);
    assert(Seq::<T::M>::empty().push(m) =~= seq![m]);
}
/// How many, and then the trees.
pub open spec fn wrote_nodes<'a, G: GramAtom>(list: Vec<&'a GramNode<'a, G>>, o0: Seq<u8>, o2: Seq<u8>) -> bool {
    exists|o1: Seq<u8>| #[trigger] emitted::<usize>(list@.len(), o0, o1) && wrote::<NodeRow<G>>(flats(list, list@.len()), o1, o2)
}
pub open spec fn wrote_node<'a, G: GramAtom>(node: GramNode<'a, G>, o0: Seq<u8>, o2: Seq<u8>) -> bool { wrote::<NodeRow<G>>(flat(node), o0, o2) }
pub proof fn node_put<'a, G: GramAtom>(node: GramNode<'a, G>, o0: Seq<u8>, o1: Seq<u8>, o2: Seq<u8>, o4: Seq<u8>)
    requires emitted::<G>(node.item.m(), o0, o1), emitted::<f32>(node.weight, o1, o2), wrote_nodes(node.by_occurances, o2, o4)
    ensures wrote_node(node, o0, o4)
{
    let n = node.by_occurances@.len();
    let o3 = choose|o3: Seq<u8>| #[trigger] emitted::<usize>(n, o2, o3) && wrote::<NodeRow<G>>(flats(node.by_occurances, n), o3, o4);
    emitted_pair::<f32, usize>(node.weight, n, o1, o2, o3);
    emitted_pair::<G, (f32, usize)>(node.item.m(), (node.weight, n), o0, o1, o3);
    wrote_one::<NodeRow<G>>((node.item.m(), (node.weight, n)), o0, o3);
    wrote_both::<NodeRow<G>>(seq![(node.item.m(), (node.weight, n))], flats(node.by_occurances, n), o0, o3, o4);
}
pub proof fn node_whole<'a, G: GramAtom>(node: GramNode<'a, G>, o0: Seq<u8>, o2: Seq<u8>)
    requires wrote_node(node, o0, o2)
    ensures emitted::<GramNode<'a, G>>(flat(node), o0, o2)
{
    let x = choose|x: Seq<u8>| enc_n::<NodeRow<G>>(flat(node), x) && o2 == #[trigger] (o0 + x);
    flat_balanced(node, Seq::empty(), 0);
    assert(flat(node) + Seq::<NodeData<G::M>>::empty() =~= flat(node));
    assert(<GramNode<'a, G>>::enc(flat(node), x));
}
/*@fn serialize/collections.rs :: impl<T: Serializable> Serializable for Vec<&T> :: fn serialize
@opt name = serialize_nodes
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@sub < Out : ByteSink > ( & self , ==> <'x, G: GramAtom, Out: ByteSink>(list: &Vec<&'x GramNode<'x, G>>,
@sub? self . len ==> list.len
@sub? self . iter ==> list.iter
@bind for $item in
@sub? $item . serialize ( $outparam ) ==> GramNode::serialize(*$item, $outparam)
@spec
    ensures wrote_nodes(*list, old($outparam).out(), final($outparam).out()),
    decreases *list, 0nat,
@start
    let ghost o0 = $outparam.out();
    let ghost s = list@;
@after list.len ( ) . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
    proof { wrote_none::<NodeRow<G>>(o1); }
@iter 1 it
@loop 1
    invariant it.seq() == refs(s), wrote::<NodeRow<G>>(flats(*list, it.index@ as nat), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
    proof { assert(decreases_to!(*list => *list@[it.index@])); }
@endin 1
    proof { wrote_both::<NodeRow<G>>(flats(*list, it.index@ as nat), flat(*s[it.index@]), o1, o2, $outparam.out()); }
@*/
/*@fn serialize/nodes.rs :: fn serialize_node
@bind ( $node : & GramNode < '_ , G > ,
@sub? $node . by_occurances . serialize ( $outparam ) ==> serialize_nodes(&$node.by_occurances, $outparam)
@spec
    ensures wrote_node(*$node, old($outparam).out(), final($outparam).out()),
    decreases *$node, 0nat,
@start
    let ghost o0 = $outparam.out();
@after $node . item . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
@after $node . weight . serialize ( $outparam ) ;
    let ghost o2 = $outparam.out();
@end
    proof { node_put(*$node, o0, o1, o2, $outparam.out()); }
@*/
/*@head serialize/nodes.rs :: impl<G: GramAtom> Serializable for GramNode<'_, G>
  @sub Serializable for ==>
@*/ {
/*@fn serialize/nodes.rs :: impl<G: GramAtom> Serializable for GramNode<'_, G> :: fn serialize
@spec
    ensures wrote_node(*self, old($outparam).out(), final($outparam).out()),
    decreases *self, 1nat,
@*/
}
/*@head serialize/nodes.rs :: impl<G: GramAtom> Serializable for &GramNode<'_, G> @*/ {
/*@fn serialize/nodes.rs :: impl<G: GramAtom> Serializable for &GramNode<'_, G> :: fn serialize
@start
    let ghost o0 = $outparam.out();
@end
    proof { node_whole(**self, o0, $outparam.out()); }
@*/
}

// ---- reading
pub open spec fn dec_nodes<G: GramAtom>(i: Seq<u8>) -> Dec<Seq<NodeData<G::M>>> {
    match usize::dec(i) {
        Dec::Ok(n, k) => prepend(Seq::empty(), k, forest::<G>(n, i.skip(k as int))),
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    }
}
/// The first k of these children can be found by their item; of children with the same item, the last one.
pub open spec fn table<'a, G: GramAtom>(list: Seq<&'a GramNode<'a, G>>) -> Map<G, &'a GramNode<'a, G>> decreases list.len() {
    if list.len() == 0 { Map::empty() } else { table(list.drop_last()).insert(list.last().item, list.last()) }
}
/// In the whole tree, children can be found by their item.
pub open spec fn linked<'a, G: GramAtom>(node: GramNode<'a, G>) -> bool
    decreases node, 0nat
{ node.items@ == table(node.by_occurances@) && linkeds(node.by_occurances, node.by_occurances@.len()) }
pub open spec fn linkeds<'a, G: GramAtom>(list: Vec<&'a GramNode<'a, G>>, k: nat) -> bool
    decreases list, k
{ if k == 0 || k > list@.len() { true } else { linkeds(list, (k - 1) as nat) && linked(*list@[k - 1]) } }
pub proof fn lists_agree<'a, G: GramAtom>(a: Vec<&'a GramNode<'a, G>>, b: Vec<&'a GramNode<'a, G>>, k: nat)
    requires k <= a@.len(), k <= b@.len(), forall|i: int| 0 <= i < k ==> a@[i] == b@[i]
    ensures flats(a, k) == flats(b, k), linkeds(a, k) == linkeds(b, k)
    decreases k
{ if k > 0 { lists_agree(a, b, (k - 1) as nat); } }
/// The state of the loop that reads a list of trees.
pub open spec fn nodes_loop<G: GramAtom>(i0: Seq<u8>, n: nat, seen: Seq<NodeData<G::M>>, input: Seq<u8>, left: nat) -> bool {
    &&& suffix(input, i0)
    &&& input.len() < i0.len()
    &&& match usize::dec(i0) {
        Dec::Ok(n2, k) => {
            let i1 = i0.skip(k as int);
            n2 == n && k <= i0.len() && input.len() <= i1.len() && (forest::<G>(n, i1) is Free
                || forest::<G>(n, i1) == prepend(seen, (i1.len() - input.len()) as nat, forest::<G>(left, input)))
        },
        Dec::Short => false,
        Dec::Free => true,
    }
}
pub proof fn nodes_init<G: GramAtom>(i0: Seq<u8>, n: nat, i1: Seq<u8>)
    requires decoded(usize::dec(i0), i0, Some((i1, n)))
    ensures nodes_loop::<G>(i0, n, Seq::empty(), i1, n)
{
    usize::law_bound(i0);
    if let Dec::Ok(ms, k) = forest::<G>(n, i1) { assert(Seq::<NodeData<G::M>>::empty() + ms =~= ms); }
}
pub proof fn nodes_step<G: GramAtom>(i0: Seq<u8>, n: nat, seen: Seq<NodeData<G::M>>, input: Seq<u8>, left: nat)
    requires nodes_loop::<G>(i0, n, seen, input, left), left > 0
    ensures
        decoded(forest::<G>(1, input), input, None) ==> !(dec_nodes::<G>(i0) is Ok),
        forall|rest: Seq<u8>, m: Seq<NodeData<G::M>>| #[trigger] decoded(forest::<G>(1, input), input, Some((rest, m))) ==>
            nodes_loop::<G>(i0, n, seen + m, rest, (left - 1) as nat)
{
    forest_split::<G>(1, (left - 1) as nat, input);
    assert forall|rest: Seq<u8>, m: Seq<NodeData<G::M>>| #[trigger] decoded(forest::<G>(1, input), input, Some((rest, m))) implies
            nodes_loop::<G>(i0, n, seen + m, rest, (left - 1) as nat) by {
        assert(rest =~= i0.skip(i0.len() - rest.len()));
        match forest::<G>(1, input) {
            Dec::Ok(m2, k) => {
                match forest::<G>((left - 1) as nat, input.skip(k as int)) {
                    Dec::Ok(ms, k2) => { assert(seen + (m + ms) =~= (seen + m) + ms); },
                    _ => {},
                }
            },
            _ => {},
        }
    }
}
pub proof fn nodes_done<G: GramAtom>(i0: Seq<u8>, n: nat, seen: Seq<NodeData<G::M>>, input: Seq<u8>)
    requires nodes_loop::<G>(i0, n, seen, input, 0)
    ensures decoded(dec_nodes::<G>(i0), i0, Some((input, seen)))
{
    assert(seen + Seq::<NodeData<G::M>>::empty() =~= seen);
    assert(Seq::<NodeData<G::M>>::empty() + seen =~= seen);
}
/// What is read one after the other is a node.
pub proof fn node_steps<G: GramAtom>(i: Seq<u8>)
    ensures
        decoded(G::dec(i), i, None) ==> !(forest::<G>(1, i) is Ok),
        forall|i1: Seq<u8>, g: G::M| #[trigger] decoded(G::dec(i), i, Some((i1, g))) ==> {
            &&& decoded(f32::dec(i1), i1, None) ==> !(forest::<G>(1, i) is Ok)
            &&& forall|i2: Seq<u8>, w: f32| #[trigger] decoded(f32::dec(i1), i1, Some((i2, w))) ==> {
                &&& decoded(dec_nodes::<G>(i2), i2, None) ==> !(forest::<G>(1, i) is Ok)
                &&& forall|i3: Seq<u8>, n: nat, ms: Seq<NodeData<G::M>>| #[trigger] node_rest::<G>(i2, i3, n, ms) ==> decoded(forest::<G>(1, i), i, Some((i3, seq![(g, (w, n))] + ms)))
            }
        }
{
    pair_step::<G, (f32, usize)>(i);
    assert forall|i1: Seq<u8>, g: G::M| #[trigger] decoded(G::dec(i), i, Some((i1, g))) implies {
            &&& decoded(f32::dec(i1), i1, None) ==> !(forest::<G>(1, i) is Ok)
            &&& forall|i2: Seq<u8>, w: f32| #[trigger] decoded(f32::dec(i1), i1, Some((i2, w))) ==> {
                &&& decoded(dec_nodes::<G>(i2), i2, None) ==> !(forest::<G>(1, i) is Ok)
                &&& forall|i3: Seq<u8>, n: nat, ms: Seq<NodeData<G::M>>| #[trigger] node_rest::<G>(i2, i3, n, ms) ==> decoded(forest::<G>(1, i), i, Some((i3, seq![(g, (w, n))] + ms)))
            }
        } by {
        pair_step::<f32, usize>(i1);
        assert forall|i2: Seq<u8>, w: f32| #[trigger] decoded(f32::dec(i1), i1, Some((i2, w))) implies {
                &&& decoded(dec_nodes::<G>(i2), i2, None) ==> !(forest::<G>(1, i) is Ok)
                &&& forall|i3: Seq<u8>, n: nat, ms: Seq<NodeData<G::M>>| #[trigger] node_rest::<G>(i2, i3, n, ms) ==> decoded(forest::<G>(1, i), i, Some((i3, seq![(g, (w, n))] + ms)))
            } by {
            node_end::<G>(i, i1, i2, g, w);
        }
    }
}
pub proof fn node_end<G: GramAtom>(i: Seq<u8>, i1: Seq<u8>, i2: Seq<u8>, g: G::M, w: f32)
    requires decoded(G::dec(i), i, Some((i1, g))), decoded(f32::dec(i1), i1, Some((i2, w)))
    ensures
        decoded(dec_nodes::<G>(i2), i2, None) ==> !(forest::<G>(1, i) is Ok),
        forall|i3: Seq<u8>, n: nat, ms: Seq<NodeData<G::M>>| #[trigger] node_rest::<G>(i2, i3, n, ms) ==> decoded(forest::<G>(1, i), i, Some((i3, seq![(g, (w, n))] + ms)))
{
    let d = <NodeRow<G>>::dec(i);
    assert(d == dec_then(G::dec(i), dec_then(f32::dec(i1), usize::dec(i2))));
    if let Dec::Ok(g0, k1) = G::dec(i) { if let Dec::Ok(w0, k2) = f32::dec(i1) { if let Dec::Ok(n, k3) = usize::dec(i2) {
        usize::law_bound(i2);
        assert(i2.skip(k3 as int) =~= i.skip((k1 + k2 + k3) as int));
        assert(d == Dec::<NodeData<G::M>>::Ok((g, (w, n)), k1 + k2 + k3));
        assert((1 - 1 + n) as nat == n);
        if let Dec::Ok(ms, j) = forest::<G>(n, i2.skip(k3 as int)) {
            forest_bound::<G>(n, i2.skip(k3 as int));
            assert(Seq::<NodeData<G::M>>::empty() + ms =~= ms);
            assert(i2.skip((k3 + j) as int) =~= i.skip((k1 + k2 + k3 + j) as int));
        }
    } } }
    assert forall|i3: Seq<u8>, n: nat, ms: Seq<NodeData<G::M>>| #[trigger] node_rest::<G>(i2, i3, n, ms) implies decoded(forest::<G>(1, i), i, Some((i3, seq![(g, (w, n))] + ms))) by {
        assert(i3 =~= i.skip(i.len() - i3.len()));
    }
}
/// A number of trees was read, and these are they.
pub open spec fn node_rest<G: GramAtom>(i2: Seq<u8>, i3: Seq<u8>, n: nat, ms: Seq<NodeData<G::M>>) -> bool {
    decoded(dec_nodes::<G>(i2), i2, Some((i3, ms))) && (usize::dec(i2) matches Dec::Ok(n2, k) ==> n2 == n)
}
/// These trees are what the bytes say.
pub open spec fn nodes_read<'a, G: GramAtom>(i: Seq<u8>, rest: Seq<u8>, list: Vec<&'a GramNode<'a, G>>) -> bool {
    node_rest::<G>(i, rest, list@.len(), flats(list, list@.len())) && linkeds(list, list@.len())
}
pub open spec fn node_read<'a, G: GramAtom>(i: Seq<u8>, rest: Seq<u8>, node: GramNode<'a, G>) -> bool {
    decoded(forest::<G>(1, i), i, Some((rest, flat(node)))) && linked(node)
}
/*@fn serialize/collections.rs :: impl<'arena, T: ArenaDeserializable<'arena, T>> ArenaDeserializableCollection<'arena, T> for Vec<&'arena T> :: fn deserialize_arena
@opt name = deserialize_nodes
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@sub < 'input > ==> <'input, 'arena, G: GramAtom>
@sub Arena < T > ==> Arena<GramNode<'arena, G>>
@sub , Self ) > where 'arena : 'input , ==> , Vec<&'arena GramNode<'arena, G>>)>
@bind ( $arg : & 'input [ u8 ] , $arena : & 'arena
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $out =
@sub Vec :: with_capacity ( $$cap ) ==> vec_capped($$cap, Ghost(i0.len()))
@sub T :: deserialize_arena ==> GramNode::deserialize_arena
@spec
    ensures
        r matches Some((rest, list)) ==> nodes_read($arg@, rest@, list),
        r is None ==> decoded(dec_nodes::<G>($arg@), $arg@, None),
    decreases $arg@.len(), 0nat,
@start
    let ghost i0 = $arg@;
@before for
    proof { usize::law_bound(i0); nodes_init::<G>(i0, $len as nat, $input@); }
@iter 1 it
@loop 1
    invariant nodes_loop::<G>(i0, $len as nat, flats($out, it.index@ as nat), $input@, ($len - it.index@) as nat), $out@.len() == it.index@, linkeds($out, it.index@ as nat),
@in 1
    let ghost seen = $out;
    proof { nodes_step::<G>(i0, $len as nat, flats($out, it.index@ as nat), $input@, ($len - it.index@) as nat); }
@endin 1
    proof { lists_agree(seen, $out, seen@.len()); }
@afterloop 1
    proof { nodes_done::<G>(i0, $len as nat, flats($out, $len as nat), $input@); }
@*/
/*@head serialize/nodes.rs :: impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena, G>
  @sub ArenaDeserializable < 'arena , Self > for ==>
@*/ {
/*@fn serialize/nodes.rs :: impl<'arena, G: GramAtom> ArenaDeserializable<'arena, Self> for GramNode<'arena, G> :: fn deserialize_arena
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@sub where 'arena : 'input , ==>
@bind ( $arg : & 'input [ u8 ] , $arena : & 'arena
@bind let ( $in1 , $item ) = < G
@bind let ( $in2 , $weight ) = f32
@bind let ( $in3 , $list ) = Vec
@sub Vec :: deserialize_arena ==> deserialize_nodes
@sub? $list . iter ( ) . fold ( $$init , | mut $m , $x | { $$body } ) ==> { let mut acc = $$init; for $x in it_of($list.as_slice()) { let mut $m = acc; acc = { $$body }; } acc }
@bind let $items = {
@spec
    ensures
        r matches Some((rest, node)) ==> node_read($arg@, rest@, *node),
        r is None ==> decoded(forest::<G>(1, $arg@), $arg@, None),
    decreases $arg@.len(), 1nat,
@start
    let ghost a0 = $arg@;
    proof { G::law_bound(a0); node_steps::<G>(a0); }
@iter 1 it
@loop 1
    invariant it.seq() == refs($list@), acc@ == table($list@.take(it.index@)),
@in 1
    proof { assert($list@.take(it.index@ + 1).drop_last() =~= $list@.take(it.index@)); }
@afterloop 1
    proof { assert($list@.take($list@.len() as int) =~= $list@); }
@*/
}
