
// ---- trees that are written alike are alike -----------------------------------------------------

/// The same item, weight and children, in the same order.
pub open spec fn same_tree<'a, 'b, G: GramAtom>(a: GramNode<'a, G>, b: GramNode<'b, G>) -> bool
    decreases a, 0nat
{
    a.item == b.item && a.weight == b.weight && a.by_occurances@.len() == b.by_occurances@.len()
        && same_trees(a.by_occurances, b.by_occurances, a.by_occurances@.len())
}
pub open spec fn same_trees<'a, 'b, G: GramAtom>(a: Vec<&'a GramNode<'a, G>>, b: Vec<&'b GramNode<'b, G>>, k: nat) -> bool
    decreases a, k
{ if k == 0 || k > a@.len() { true } else { same_trees(a, b, (k - 1) as nat) && same_tree(*a@[k - 1], *b@[k - 1]) } }
pub proof fn flat_alike<'a, 'b, G: GramAtom>(a: GramNode<'a, G>, b: GramNode<'b, G>, x: Seq<NodeData<G::M>>, y: Seq<NodeData<G::M>>)
    requires flat(a) + x == flat(b) + y
    ensures same_tree(a, b), x == y
    decreases a, 0nat
{
    let p = flat(a) + x;
    let q = flat(b) + y;
    assert(p[0] == q[0]);
    G::m_inj(a.item, b.item);
    let n = a.by_occurances@.len();
    assert(p.skip(1) =~= flats(a.by_occurances, n) + x);
    assert(q.skip(1) =~= flats(b.by_occurances, n) + y);
    flats_alike(a.by_occurances, b.by_occurances, n, x, y);
}
pub proof fn flats_alike<'a, 'b, G: GramAtom>(a: Vec<&'a GramNode<'a, G>>, b: Vec<&'b GramNode<'b, G>>, k: nat, x: Seq<NodeData<G::M>>, y: Seq<NodeData<G::M>>)
    requires k <= a@.len(), k <= b@.len(), flats(a, k) + x == flats(b, k) + y
    ensures same_trees(a, b, k), x == y
    decreases a, k
{
    if k > 0 {
        let la = *a@[k - 1];
        let lb = *b@[k - 1];
        assert(flats(a, k) + x =~= flats(a, (k - 1) as nat) + (flat(la) + x));
        assert(flats(b, k) + y =~= flats(b, (k - 1) as nat) + (flat(lb) + y));
        flats_alike(a, b, (k - 1) as nat, flat(la) + x, flat(lb) + y);
        flat_alike(la, lb, x, y);
    } else {
        assert(flats(a, 0) + x =~= x);
        assert(flats(b, 0) + y =~= y);
    }
}
/// Trees with the same data are the same trees.
pub proof fn same_data_same_tree<'a, 'b, G: GramAtom>(a: GramNode<'a, G>, b: GramNode<'b, G>)
    requires flat(a) == flat(b)
    ensures same_tree(a, b)
{ flat_alike(a, b, Seq::empty(), Seq::empty()); }
pub proof fn same_tree_child<'a, 'b, G: GramAtom>(a: Vec<&'a GramNode<'a, G>>, b: Vec<&'b GramNode<'b, G>>, k: nat, i: int)
    requires same_trees(a, b, k), k <= a@.len(), 0 <= i < k
    ensures same_tree(*a@[i], *b@[i])
    decreases k
{ if i < k - 1 { same_tree_child(a, b, (k - 1) as nat, i); } }
/// Same children, same look-up: by item, the same child.
pub proof fn same_look_up<'a, 'b, G: GramAtom>(a: Seq<&'a GramNode<'a, G>>, b: Seq<&'b GramNode<'b, G>>, g: G)
    requires a.len() == b.len(), forall|i: int| 0 <= i < a.len() ==> same_tree(*#[trigger] a[i], *b[i])
    ensures table(a).contains_key(g) <==> table(b).contains_key(g), table(a).contains_key(g) ==> same_tree(*table(a)[g], *table(b)[g])
    decreases a.len()
{
    if a.len() > 0 {
        assert forall|i: int| 0 <= i < a.len() - 1 implies same_tree(*#[trigger] a.drop_last()[i], *b.drop_last()[i]) by { assert(same_tree(*a[i], *b[i])); }
        same_look_up(a.drop_last(), b.drop_last(), g);
        assert(same_tree(*a[a.len() - 1], *b[b.len() - 1]));
    }
}
pub proof fn found_alike<'a, 'b, G: GramAtom>(a: GramNode<'a, G>, b: GramNode<'b, G>, g: G)
    requires same_tree(a, b), linked(a), linked(b)
    ensures a.items@.contains_key(g) <==> b.items@.contains_key(g), a.items@.contains_key(g) ==> same_tree(*a.items@[g], *b.items@[g])
{
    assert forall|i: int| 0 <= i < a.by_occurances@.len() implies same_tree(*#[trigger] a.by_occurances@[i], *b.by_occurances@[i]) by {
        same_tree_child(a.by_occurances, b.by_occurances, a.by_occurances@.len(), i);
    }
    same_look_up(a.by_occurances@, b.by_occurances@, g);
}

// ---- the roots
impl<'a, T: DecSpec> DecSpec for &'a T {
    open spec fn dec(i: Seq<u8>) -> Dec<T::M> { T::dec(i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) { T::law(m, b, t); }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) { T::law_short(m, b, k); }
    proof fn law_bound(i: Seq<u8>) { T::law_bound(i); }
}
pub open spec fn all_linked<'a, G: GramAtom>(roots: Map<G, &'a GramNode<'a, G>>) -> bool { forall|g: G| #[trigger] roots.contains_key(g) ==> linked(*roots[g]) }
/*@fn serialize/collections.rs :: impl<'arena, K, V> ArenaDeserializableCollection<'arena, V> for AHashMap<K, &'arena V> where K: Deserializable + Eq + Hash, V: ArenaDeserializable<'arena, V>, :: fn deserialize_arena
@opt name = deserialize_roots
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@sub < 'input > ==> <'input, 'arena, K: GramAtom>
@sub Arena < V > ==> Arena<GramNode<'arena, K>>
@sub , Self ) > where 'arena : 'input , ==> , AHashMap<K, &'arena GramNode<'arena, K>>)>
@bind ( $arg : & 'input [ u8 ] , $arena : & 'arena
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $out =
@bind let ( $new1 , $key ) = K :: deserialize
@bind let ( $new2 , $value ) = V :: deserialize_arena
@sub AHashMap :: with_capacity ( $$cap ) ==> amap_capped($$cap, Ghost(i0.len()))
@sub V :: deserialize_arena ==> GramNode::deserialize_arena
@spec
    ensures
        r matches Some((rest, roots)) ==> decoded(<AHashMap<K, &'arena GramNode<'arena, K>>>::dec($arg@), $arg@, Some((rest@, roots.m()))) && all_linked(roots@),
        r is None ==> decoded(<AHashMap<K, &'arena GramNode<'arena, K>>>::dec($arg@), $arg@, None),
@start
    let ghost i0 = $arg@;
    let ghost mut seen: Seq<(K::M, Seq<NodeData<K::M>>)> = Seq::empty();
@before for
    proof { len_loop_init::<(K, &'arena GramNode<'arena, K>)>(i0, $len as nat, $input@); map_model_empty::<K, &'arena GramNode<'arena, K>>(); }
@iter 1 it
@loop 1
    invariant len_loop::<(K, &'arena GramNode<'arena, K>)>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        map_model::<K, &'arena GramNode<'arena, K>>($out@) == map_of(seen), all_linked($out@),
@in 1
    let ghost in1 = $input@;
    let ghost seen1 = seen;
    proof { len_loop_step::<(K, &'arena GramNode<'arena, K>)>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat); pair_step::<K, &'arena GramNode<'arena, K>>($input@); }
@before let ( $new2x , $valuex ) = GramNode :: deserialize_arena
    let ghost in2 = $new1@;
    proof {
        assert(<&'arena GramNode<'arena, K>>::dec(in2) == forest::<K>(1, in2));
        assert(decoded(forest::<K>(1, in2), in2, None) ==> decoded(<&'arena GramNode<'arena, K>>::dec(in2), in2, None));
    }
@before $out . insert ( $key , $value ) ;
    proof {
        map_model_insert::<K, &'arena GramNode<'arena, K>>($out@, $key, $value);
        assert(seen.push(($key.m(), $value.m())).drop_last() =~= seen);
        seen = seen.push(($key.m(), $value.m()));
        assert(decoded(<&'arena GramNode<'arena, K>>::dec(in2), in2, Some(($new2@, $value.m()))));
        assert(decoded(<(K, &'arena GramNode<'arena, K>)>::dec(in1), in1, Some(($new2@, ($key.m(), $value.m())))));
        assert(len_loop::<(K, &'arena GramNode<'arena, K>)>(i0, $len as nat, seen, $new2@, ($len - it.index@ - 1) as nat));
    }
@afterloop 1
    proof { len_loop_done::<(K, &'arena GramNode<'arena, K>)>(i0, $len as nat, seen, $input@); }
@*/

// ---- the search index
impl<T: KeyModel, const N: usize> KeyModel for [T; N] {
    proof fn m_inj(a: [T; N], b: [T; N]) {
        assert forall|i: int| 0 <= i < N implies a@[i] == b@[i] by {
            assert(models(a@)[i] == models(b@)[i]);
            T::m_inj(a@[i], b@[i]);
        }
        assert(a@ =~= b@);
        assert(a =~= b);
    }
}
pub type Roots<'a, G> = AHashMap<G, &'a GramNode<'a, G>>;
pub type Lists<G, const N: usize> = AHashMap<[G; N], Ids>;
pub type GramRows<'a, G, const N: usize> = (ContainerParts, (Roots<'a, G>, Lists<G, N>));
pub type GramData<A> = (ContainerData, (Map<A, Seq<NodeData<A>>>, Map<Seq<A>, Seq<nat>>));
/// The products of each gram, as they are stored.
pub open spec fn stored_lists<'a, G: GramAtom, const N: usize>(data: Map<[G; N], Vec<&'a Product<'a>>>) -> Map<[G; N], Ids> {
    data.map_values(|v: Vec<&'a Product<'a>>| Ids { ids: Ghost(in_order(ids_of(v@))) })
}
pub open spec fn list_rows<'a, G: GramAtom, const N: usize>(data: Map<[G; N], Vec<&'a Product<'a>>>) -> Map<Seq<G::M>, Seq<nat>> { map_model::<[G; N], Ids>(stored_lists(data)) }
/// Each gram has the products at its positions.
pub open spec fn lists_are<'a, G: GramAtom, const N: usize>(data: Map<[G; N], Vec<&'a Product<'a>>>, all: Seq<Product<'a>>, rows: Map<Seq<G::M>, Seq<nat>>) -> bool {
    forall|k: [G; N]| #![trigger data.contains_key(k)] #![trigger rows.contains_key(k.m())] (data.contains_key(k) <==> rows.contains_key(k.m())) && (data.contains_key(k) ==> taken(all, rows[k.m()], data[k]@))
}
pub open spec fn lists_within<A>(rows: Map<Seq<A>, Seq<nat>>, n: nat) -> bool { forall|k: Seq<A>| #[trigger] rows.contains_key(k) ==> within(rows[k], n) }
impl<'a, G: GramAtom, const N: usize> GramIndex<'a, G, Product<'a>, N> {
    /// What is written.
    pub open spec fn rows(&self) -> GramData<G::M> { (self.product_container.data(), (self.roots.m(), list_rows(self.data@))) }
}
/// g is what these bytes say.
pub open spec fn gram_is<'a, G: GramAtom, const N: usize>(g: GramIndex<'a, G, Product<'a>, N>, x: GramData<G::M>) -> bool {
    let c = *g.product_container;
    &&& c.full() == x.0 && c.products_ok() && dense(c.vendors.by_id@) && (c.vendors.names().no_duplicates() ==> c.wf())
    &&& g.roots.m() == x.1.0 && all_linked(g.roots@)
    &&& lists_are(g.data@, c.products@, x.1.1)
}
pub open spec fn gram_within<A>(x: GramData<A>) -> bool { rows_within(x.0.1.0, x.0.0.len()) && lists_within(x.1.1, x.0.1.0.len()) }
pub open spec fn gram_read<'a, G: GramAtom, const N: usize>(i: Seq<u8>, rest: Seq<u8>, g: GramIndex<'a, G, Product<'a>, N>) -> bool {
    exists|x: GramData<G::M>| decoded(<GramRows<'a, G, N>>::dec(i), i, Some((rest, x))) && #[trigger] gram_is(g, x)
}
pub open spec fn gram_refused<'a, G: GramAtom, const N: usize>(i: Seq<u8>) -> bool { match <GramRows<'a, G, N>>::dec(i) { Dec::Ok(x, k) => !gram_within(x), _ => true } }
pub open spec fn list_entries<'x, 'a, G: GramAtom, const N: usize>(es: Seq<(&'x [G; N], &'x Vec<&'a Product<'a>>)>) -> Seq<(Seq<G::M>, Seq<nat>)> {
    es.map_values(|e: (&'x [G; N], &'x Vec<&'a Product<'a>>)| ((*e.0).m(), in_order(ids_of((*e.1)@))))
}
pub proof fn list_entries_are<'x, 'a, G: GramAtom, const N: usize>(es: Seq<(&'x [G; N], &'x Vec<&'a Product<'a>>)>, data: Map<[G; N], Vec<&'a Product<'a>>>)
    requires entries(es, data)
    ensures distinct_keys(list_entries(es)), map_of(list_entries(es)) == list_rows(data)
{
    let es2 = es.map_values(|e: (&'x [G; N], &'x Vec<&'a Product<'a>>)| (e.0, &Ids { ids: Ghost(in_order(ids_of((*e.1)@))) }));
    let m2 = stored_lists(data);
    assert(entries(es2, m2)) by {
        assert forall|i: int, j: int| 0 <= i < j < es2.len() implies *(#[trigger] es2[i]).0 != *(#[trigger] es2[j]).0 by { assert(*es[i].0 != *es[j].0); }
        assert forall|i: int| 0 <= i < es2.len() implies m2.contains_key(*(#[trigger] es2[i]).0) && m2[*es2[i].0] == *es2[i].1 by { assert(data.contains_key(*es[i].0)); }
        assert forall|k: [G; N]| #[trigger] m2.contains_key(k) implies exists|i: int| 0 <= i < es2.len() && *(#[trigger] es2[i]).0 == k by {
            assert(data.contains_key(k));
            let i = choose|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == k;
            assert(*es2[i].0 == k);
        }
    }
    entries_model::<[G; N], Ids>(es2, m2);
    assert(entry_models::<[G; N], Ids>(es2) =~= list_entries(es));
}
pub proof fn index_put<'a, G: GramAtom, const N: usize>(g: GramIndex<'a, G, Product<'a>, N>, es: Seq<(Seq<G::M>, Seq<nat>)>, o0: Seq<u8>, o1: Seq<u8>, o2: Seq<u8>, o3: Seq<u8>, o4: Seq<u8>)
    requires
        emitted::<ContainerParts>(g.product_container.data(), o0, o1), emitted::<Roots<'a, G>>(g.roots.m(), o1, o2),
        emitted::<usize>(es.len(), o2, o3), wrote::<([G; N], Ids)>(es, o3, o4), distinct_keys(es), map_of(es) == list_rows(g.data@),
    ensures emitted::<GramRows<'a, G, N>>(g.rows(), o0, o4)
{
    wrote_done::<([G; N], Ids)>(es, o2, o3, o4);
    let b = choose|b: Seq<u8>| enc_len::<([G; N], Ids)>(es, b) && o4 == #[trigger] (o2 + b);
    assert(<Lists<G, N>>::enc(list_rows(g.data@), b));
    assert(emitted::<Lists<G, N>>(list_rows(g.data@), o2, o4));
    emitted_pair::<Roots<'a, G>, Lists<G, N>>(g.roots.m(), list_rows(g.data@), o1, o2, o4);
    emitted_pair::<ContainerParts, (Roots<'a, G>, Lists<G, N>)>(g.product_container.data(), (g.roots.m(), list_rows(g.data@)), o0, o1, o4);
}
/*@head serialize/nodes.rs :: impl<G: GramAtom, const N: usize> Serializable for GramIndex<'_, G, Product<'_>, N>
  @sub Serializable for ==>
  @sub < G : GramAtom ==> <'a, G: GramAtom
  @sub GramIndex < '_ , G , Product < '_ > , N > ==> GramIndex<'a, G, Product<'a>, N>
@*/ {
/*@fn serialize/nodes.rs :: impl<G: GramAtom, const N: usize> Serializable for GramIndex<'_, G, Product<'_>, N> :: fn serialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind self . data . len ( ) . serialize ( $outparam ) ; for ( $key , $products ) in
@sub in self . data . iter ( ) ==> in __iter
@spec
    requires self.product_container.vendors.wf(),
    ensures emitted::<GramRows<'a, G, N>>(self.rows(), old($outparam).out(), final($outparam).out()),
@start
    let ghost o0 = $outparam.out();
@after self . product_container . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
@after self . roots . serialize ( $outparam ) ;
    let ghost o2 = $outparam.out();
@after self . data . len ( ) . serialize ( $outparam ) ;
    let ghost o3 = $outparam.out();
    let __iter = self.data.iter();
    let ghost s = rem(&__iter);
    let ghost ms = list_entries(s);
    proof { wrote_none::<([G; N], Ids)>(o3); assert(ms.take(0) =~= Seq::empty()); list_entries_are(s, self.data@); }
@iter 1 it
@loop 1
    invariant it.seq() == s, wrote::<([G; N], Ids)>(ms.take(it.index@), o3, $outparam.out()),
@in 1
    let ghost o4 = $outparam.out();
@after $key . serialize ( $outparam ) ;
    let ghost o5 = $outparam.out();
@endin 1
    proof {
        ids_put(ids_of($products@), o5, $outparam.out());
        emitted_pair::<[G; N], Ids>(ms[it.index@].0, ms[it.index@].1, o4, o5, $outparam.out());
        wrote_step::<([G; N], Ids)>(ms.take(it.index@), o3, o4, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof {
        assert(ms.take(ms.len() as int) =~= ms);
        index_put(*self, ms, o0, o1, o2, o3, $outparam.out());
    }
@*/
}
/// One list more.
pub proof fn one_list_more<'a, G: GramAtom, const N: usize>(data: Map<[G; N], Vec<&'a Product<'a>>>, all: Seq<Product<'a>>, seen: Seq<(Seq<G::M>, Seq<nat>)>, k: [G; N], v: Vec<&'a Product<'a>>, at: Seq<nat>)
    requires lists_are(data, all, map_of(seen)), taken(all, at, v@)
    ensures lists_are(data.insert(k, v), all, map_of(seen.push((k.m(), at))))
{
    let d2 = data.insert(k, v);
    let seen2 = seen.push((k.m(), at));
    assert(seen2.drop_last() =~= seen);
    let rows2 = map_of(seen2);
    assert(rows2 == map_of(seen).insert(k.m(), at));
    assert forall|q: [G; N]| #![trigger d2.contains_key(q)] #![trigger rows2.contains_key(q.m())] (d2.contains_key(q) <==> rows2.contains_key(q.m())) && (d2.contains_key(q) ==> taken(all, rows2[q.m()], d2[q]@)) by {
        if q.m() == k.m() { <[G; N]>::m_inj(q, k); }
        assert(data.contains_key(q) <==> map_of(seen).contains_key(q.m()));
    }
}
pub proof fn lists_begin<'a, G: GramAtom, const N: usize>(all: Seq<Product<'a>>)
    ensures lists_are(Map::<[G; N], Vec<&'a Product<'a>>>::empty(), all, map_of(Seq::<(Seq<G::M>, Seq<nat>)>::empty()))
{ }
pub open spec fn lists_read<'a, G: GramAtom, const N: usize>(i: Seq<u8>, rest: Seq<u8>, data: Map<[G; N], Vec<&'a Product<'a>>>, all: Seq<Product<'a>>) -> bool {
    exists|rows: Map<Seq<G::M>, Seq<nat>>| decoded(<Lists<G, N>>::dec(i), i, Some((rest, rows))) && #[trigger] lists_are(data, all, rows)
}
pub open spec fn lists_refused<G: GramAtom, const N: usize>(i: Seq<u8>, n: nat) -> bool { match <Lists<G, N>>::dec(i) { Dec::Ok(x, k) => !lists_within(x, n), _ => true } }
pub proof fn list_refused<G: GramAtom, const N: usize>(i0: Seq<u8>, c: nat, seen: Seq<(Seq<G::M>, Seq<nat>)>, input: Seq<u8>, left: nat, n: nat)
    requires len_loop::<([G; N], Ids)>(i0, c, seen, input, left), left > 0, <([G; N], Ids)>::dec(input) matches Dec::Ok(m, k) ==> !within(m.1, n)
    ensures lists_refused::<G, N>(i0, n)
{
    item_refused::<([G; N], Ids)>(i0, c, seen, input, left);
    if let Dec::Ok(all, k) = dec_len::<([G; N], Ids)>(i0) {
        if distinct_keys(all) {
            let at = seen.len() as int;
            map_of_at(all, at);
            assert(!within(all[at].1, n));
        }
    }
}
pub proof fn lists_done<'a, G: GramAtom, const N: usize>(i0: Seq<u8>, c: nat, seen: Seq<(Seq<G::M>, Seq<nat>)>, input: Seq<u8>, data: Map<[G; N], Vec<&'a Product<'a>>>, all: Seq<Product<'a>>)
    requires len_loop::<([G; N], Ids)>(i0, c, seen, input, 0), seen.len() == c, lists_are(data, all, map_of(seen))
    ensures lists_read(i0, input, data, all)
{
    len_loop_done::<([G; N], Ids)>(i0, c, seen, input);
    assert(decoded(<Lists<G, N>>::dec(i0), i0, Some((input, map_of(seen)))));
}
/// One list is read.
pub proof fn list_step<G: GramAtom, const N: usize>(i0: Seq<u8>, c: nat, seen: Seq<(Seq<G::M>, Seq<nat>)>, input: Seq<u8>, left: nat, n: nat)
    requires len_loop::<([G; N], Ids)>(i0, c, seen, input, left), left > 0
    ensures
        decoded(<[G; N]>::dec(input), input, None) ==> lists_refused::<G, N>(i0, n),
        forall|r1: Seq<u8>, g: Seq<G::M>| #[trigger] decoded(<[G; N]>::dec(input), input, Some((r1, g))) ==> {
            &&& (Ids::dec(r1) matches Dec::Ok(m, k) ==> !within(m, n)) ==> lists_refused::<G, N>(i0, n)
            &&& forall|r2: Seq<u8>, m: Seq<nat>| #[trigger] decoded(Ids::dec(r1), r1, Some((r2, m))) ==>
                    len_loop::<([G; N], Ids)>(i0, c, seen.push((g, m)), r2, (left - 1) as nat)
        },
{
    len_loop_step::<([G; N], Ids)>(i0, c, seen, input, left);
    pair_step::<[G; N], Ids>(input);
    let d = <([G; N], Ids)>::dec(input);
    if decoded(<[G; N]>::dec(input), input, None) { list_refused::<G, N>(i0, c, seen, input, left, n); }
    assert forall|r1: Seq<u8>, g: Seq<G::M>| #[trigger] decoded(<[G; N]>::dec(input), input, Some((r1, g))) implies {
            &&& (Ids::dec(r1) matches Dec::Ok(m, k) ==> !within(m, n)) ==> lists_refused::<G, N>(i0, n)
            &&& forall|r2: Seq<u8>, m: Seq<nat>| #[trigger] decoded(Ids::dec(r1), r1, Some((r2, m))) ==>
                    len_loop::<([G; N], Ids)>(i0, c, seen.push((g, m)), r2, (left - 1) as nat)
        } by {
        if Ids::dec(r1) matches Dec::Ok(m, k) ==> !within(m, n) { list_refused::<G, N>(i0, c, seen, input, left, n); }
        assert forall|r2: Seq<u8>, m: Seq<nat>| #[trigger] decoded(Ids::dec(r1), r1, Some((r2, m))) implies
                    len_loop::<([G; N], Ids)>(i0, c, seen.push((g, m)), r2, (left - 1) as nat) by {
            assert(decoded(d, input, Some((r2, (g, m)))));
        }
    }
}
/// The parts of an index, read one after the other.
pub proof fn gram_done<'a, G: GramAtom, const N: usize>(i: Seq<u8>, i1: Seq<u8>, i2: Seq<u8>, rest: Seq<u8>, c: ProductContainer<'a>, g: GramIndex<'a, G, Product<'a>, N>)
    requires
        loads(ContainerParts::dec(i), i, Some((i1, c))), *g.product_container == c,
        decoded(<Roots<'a, G>>::dec(i1), i1, Some((i2, g.roots.m()))), all_linked(g.roots@),
        lists_read(i2, rest, g.data@, c.products@),
    ensures gram_read(i, rest, g)
{
    pair_steps::<ContainerParts, (Roots<'a, G>, Lists<G, N>)>();
    pair_steps::<Roots<'a, G>, Lists<G, N>>();
    let rows = choose|rows: Map<Seq<G::M>, Seq<nat>>| decoded(<Lists<G, N>>::dec(i2), i2, Some((rest, rows))) && #[trigger] lists_are(g.data@, c.products@, rows);
    let x = (c.full(), (g.roots.m(), rows));
    assert(decoded(<(Roots<'a, G>, Lists<G, N>)>::dec(i1), i1, Some((rest, x.1))));
    assert(decoded(<GramRows<'a, G, N>>::dec(i), i, Some((rest, x))));
    assert(gram_is(g, x));
}
pub proof fn gram_stops<'a, 'c, G: GramAtom, const N: usize>(i: Seq<u8>)
    ensures
        loads(ContainerParts::dec(i), i, None) ==> gram_refused::<G, N>(i),
        forall|i1: Seq<u8>, c: ProductContainer<'c>| #[trigger] loads(ContainerParts::dec(i), i, Some((i1, c))) ==> {
            &&& decoded(<Roots<'a, G>>::dec(i1), i1, None) ==> gram_refused::<G, N>(i)
            &&& forall|i2: Seq<u8>, r: Map<G::M, Seq<NodeData<G::M>>>| #[trigger] decoded(<Roots<'a, G>>::dec(i1), i1, Some((i2, r))) && lists_refused::<G, N>(i2, c.products@.len()) ==> gram_refused::<G, N>(i)
        },
{
    assert forall|i1: Seq<u8>, c: ProductContainer<'c>| #[trigger] loads(ContainerParts::dec(i), i, Some((i1, c))) implies {
            &&& decoded(<Roots<'a, G>>::dec(i1), i1, None) ==> gram_refused::<G, N>(i)
            &&& forall|i2: Seq<u8>, r: Map<G::M, Seq<NodeData<G::M>>>| #[trigger] decoded(<Roots<'a, G>>::dec(i1), i1, Some((i2, r))) && lists_refused::<G, N>(i2, c.products@.len()) ==> gram_refused::<G, N>(i)
        } by {
        assert forall|i2: Seq<u8>, r: Map<G::M, Seq<NodeData<G::M>>>| #[trigger] decoded(<Roots<'a, G>>::dec(i1), i1, Some((i2, r))) && lists_refused::<G, N>(i2, c.products@.len()) implies gram_refused::<G, N>(i) by {
            if let Dec::Ok(x, k) = <GramRows<'a, G, N>>::dec(i) {
                assert(x.0 == c.full());
                assert(rows_of(c.products@).len() == c.products@.len());
            }
        }
    }
}
impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>, N> {
/*@fn serialize/nodes.rs :: impl<'arena, G: GramAtom, const N: usize> GramIndex<'arena, G, Product<'arena>, N> :: fn deserialize
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)] #[verifier::spinoff_prover] #[verifier::rlimit(30)]
@sub where 'super_arena : 'arena , 'arena : 'input , ==>
@bind ( $arg : & 'input [ u8 ] , $arena : & 'arena
@bind let ( $in1 , $cont ) = ProductContainer :: deserialize
@bind let $container = $alloc . alloc
@bind let ( $in2 , $roots ) = AHashMap :: deserialize_arena
@bind let ( mut $input , $len ) = usize :: deserialize ( $src )
@bind let mut $data =
@bind let ( $nexta , $gram ) = < [ G ; N ] > :: deserialize
@bind let ( $next , $products , _ ) = Product ::
@sub ( $next , $products , _ ) = Product ==> ($next, $products, __ids) = Product
@sub AHashMap :: deserialize_arena ==> deserialize_roots
@sub AHashMap :: with_capacity ( $$cap ) ==> amap_capped($$cap, Ghost(i3.len()))
@spec
    ensures
        r matches Some((rest, g)) ==> gram_read($arg@, rest@, g),
        r is None ==> gram_refused::<G, N>($arg@),
@start
    let ghost a0 = $arg@;
    proof { gram_stops::<G, N>(a0); }
@before let $containerx = $alloc . alloc
    let ghost c = $cont;
    let ghost i1 = $in1@;
@before let ( mut $inputx , $lenx ) = usize :: deserialize
    let ghost i3 = $src@;
    let ghost all = $container.products@;
    proof { assert(loads(ContainerParts::dec(a0), a0, Some((i1, c)))); assert(decoded(<Roots<'arena, G>>::dec(i1), i1, Some((i3, $roots.m())))); }
    let ghost mut seen: Seq<(Seq<G::M>, Seq<nat>)> = Seq::empty();
@before for
    proof { len_loop_init::<([G; N], Ids)>(i3, $len as nat, $input@); lists_begin::<G, N>(all); }
@iter 1 it
@loop 1
    invariant len_loop::<([G; N], Ids)>(i3, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        lists_are($data@, all, map_of(seen)),
@in 1
    let ghost in1 = $input@;
    let ghost data1 = $data@;
    let ghost seen1 = seen;
    let ghost left = ($len - it.index@) as nat;
    proof { list_step::<G, N>(i3, $len as nat, seen, in1, left, all.len()); }
@before let ( $nextx , $productsx , __ids ) = Product ::
    let ghost in2 = $nexta@;
@before $input = $next
    let ghost at = nats(__ids@);
    proof {
        taken_set(all, __ids@, $products@);
        assert(decoded(Ids::dec(in2), in2, Some(($next@, at))));
        seen = seen1.push(($gram.m(), at));
        one_list_more(data1, all, seen1, $gram, $products, at);
    }
@afterloop 1
    proof {
        lists_done(i3, $len as nat, seen, $input@, $data@, all);
        assert forall|g: GramIndex<'arena, G, Product<'arena>, N>| g.product_container == $container && g.roots == $roots && g.data == $data implies #[trigger] gram_read(a0, $input@, g) by { gram_done(a0, i1, i3, $input@, c, g); }
    }
@*/
}
