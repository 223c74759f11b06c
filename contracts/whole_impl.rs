
// ---- the whole file ----------------------------------------------------------------------------

/// There is an order to store ids in.
pub proof fn in_order_good(s: Seq<usize>)
    ensures sorted_ids(s, in_order(s))
{
    let leq = |x: nat, y: nat| x <= y;
    let m = nats(s).sort_by(leq);
    nats(s).lemma_sort_by_ensures(leq);
    assert(ascending(m)) by { assert forall|i: int, j: int| 0 <= i < j < m.len() implies m[i] <= m[j] by { assert(leq(m[i], m[j])); } }
    assert(sorted_ids(s, m));
}
/// Products that are where their number says.
pub open spec fn at_their_place(all: Seq<Product>) -> bool { forall|k: int| 0 <= k < all.len() ==> (#[trigger] all[k]).serialization_id == k }
/// Products taken from their places have the numbers of these places.
pub proof fn taken_ids<'a>(all: Seq<Product<'a>>, at: Seq<nat>, ps: Seq<&'a Product<'a>>)
    requires at_their_place(all), taken(all, at, ps)
    ensures nats(ids_of(ps)) == at
{
    assert forall|i: int| 0 <= i < at.len() implies #[trigger] nats(ids_of(ps))[i] == at[i] by { assert(at[i] < all.len()); }
    assert(nats(ids_of(ps)) =~= at);
}
/// Storing them again stores the same.
pub proof fn taken_again<'b>(all: Seq<Product<'b>>, s: Seq<usize>, ps: Seq<&'b Product<'b>>)
    requires at_their_place(all), taken(all, in_order(s), ps)
    ensures in_order(ids_of(ps)) == in_order(s)
{
    in_order_good(s);
    taken_ids(all, in_order(s), ps);
    in_order_twice(ids_of(ps));
}
pub open spec fn ids_within(s: Seq<usize>, n: nat) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) < n }
pub proof fn in_order_within(s: Seq<usize>, n: nat)
    requires ids_within(s, n)
    ensures within(in_order(s), n)
{
    in_order_good(s);
    let m = in_order(s);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert forall|i: int| 0 <= i < m.len() implies (#[trigger] m[i]) < n by {
        assert(m.to_multiset().count(m[i]) > 0);
        assert(nats(s).to_multiset().count(m[i]) > 0);
        assert(nats(s).contains(m[i]));
        let j = choose|j: int| 0 <= j < nats(s).len() && nats(s)[j] == m[i];
        assert(s[j] < n);
    }
}

// ---- what an indexed catalogue looks like
impl<'a> CategoryOption<'a> {
    pub open spec fn ok(&self, n: nat, number: int) -> bool {
        self.serialization_id == number && ids_within(ids_of(self.content@), n) && (forall|x: usize| #[trigger] self.products_by_serialization_id@.contains(x) <==> ids_of(self.content@).contains(x))
    }
}
impl<'a> Tag<'a> {
    pub open spec fn ok(&self, n: nat, number: int) -> bool {
        self.id == number && ids_within(ids_of(self.products@), n) && (forall|x: usize| #[trigger] self.products_by_serialization_id@.contains(x) <==> ids_of(self.products@).contains(x))
    }
}
impl<'a> Category<'a> {
    pub open spec fn ok(&self, n: nat, from: int) -> bool { forall|k: int| 0 <= k < self.options@.len() ==> (#[trigger] self.options@[k]).ok(n, from + k) }
}
impl<'a> ClassicIndexes<'a> {
    /// Options and tags are numbered in order and hold products of the catalogue.
    pub open spec fn ok(&self, n: nat) -> bool {
        &&& forall|k: int| 0 <= k < self.categories.0@.len() ==> (#[trigger] self.categories.0@[k]).ok(n, counted(self.categories.rows().take(k)) as int)
        &&& forall|k: int| 0 <= k < self.tags.0@.len() ==> (#[trigger] self.tags.0@[k]).ok(n, k)
    }
}
impl<'a, G: GramAtom, const N: usize> GramIndex<'a, G, Product<'a>, N> {
    /// Lists hold products of the container; children can be found by their item.
    pub open spec fn ok(&self) -> bool {
        &&& self.product_container.wf()
        &&& forall|k: [G; N]| #[trigger] self.data@.contains_key(k) ==> ids_within(ids_of(self.data@[k]@), self.product_container.products@.len())
        &&& all_linked(self.roots@)
    }
}

// ---- what stays the same
/// These products, in order.
pub open spec fn same_list<'a, 'b>(all: Seq<Product<'b>>, a: Seq<&'a Product<'a>>, b: Seq<&'b Product<'b>>) -> bool { taken(all, in_order(ids_of(a)), b) }
pub open spec fn same_option<'a, 'b>(all: Seq<Product<'b>>, a: CategoryOption<'a>, b: CategoryOption<'b>) -> bool {
    b.name@ == a.name@ && b.serialization_id == a.serialization_id && same_list(all, a.content@, b.content@) && b.products_by_serialization_id@ == a.products_by_serialization_id@
}
pub open spec fn same_category<'a, 'b>(all: Seq<Product<'b>>, a: Category<'a>, b: Category<'b>) -> bool {
    b.exclusive == a.exclusive && b.name@ == a.name@ && b.options@.len() == a.options@.len()
        && forall|k: int| 0 <= k < b.options@.len() ==> same_option(all, a.options@[k], #[trigger] b.options@[k])
}
pub open spec fn same_tag<'a, 'b>(all: Seq<Product<'b>>, a: Tag<'a>, b: Tag<'b>) -> bool {
    b.name@ == a.name@ && b.id == a.id && same_list(all, a.products@, b.products@) && b.products_by_serialization_id@ == a.products_by_serialization_id@
}
pub open spec fn same_classic<'a, 'b>(all: Seq<Product<'b>>, a: ClassicIndexes<'a>, b: ClassicIndexes<'b>) -> bool {
    &&& b.categories.0@.len() == a.categories.0@.len() && forall|k: int| 0 <= k < b.categories.0@.len() ==> same_category(all, a.categories.0@[k], #[trigger] b.categories.0@[k])
    &&& b.tags.0@.len() == a.tags.0@.len() && forall|k: int| 0 <= k < b.tags.0@.len() ==> same_tag(all, a.tags.0@[k], #[trigger] b.tags.0@[k])
    &&& b.order.m() == a.order.m()
}
pub open spec fn same_gram<'a, 'b, G: GramAtom, const N: usize>(a: GramIndex<'a, G, Product<'a>, N>, b: GramIndex<'b, G, Product<'b>, N>) -> bool {
    &&& survived(*a.product_container, *b.product_container)
    &&& forall|g: G| (#[trigger] b.roots@.contains_key(g) <==> a.roots@.contains_key(g)) && (b.roots@.contains_key(g) ==> same_tree(*a.roots@[g], *b.roots@[g])) && all_linked(b.roots@)
    &&& forall|k: [G; N]| (#[trigger] b.data@.contains_key(k) <==> a.data@.contains_key(k)) && (b.data@.contains_key(k) ==> same_list(b.product_container.products@, a.data@[k]@, b.data@[k]@))
}

// ---- the lemmas
pub proof fn set_same(a: Set<usize>, b: Set<usize>, s: Seq<usize>)
    requires forall|x: usize| #[trigger] a.contains(x) <==> s.contains(x), set_is(b, in_order(s))
    ensures b == a
{
    in_order_good(s);
    in_order_has(s, in_order(s));
    assert(b =~= a);
}
pub proof fn option_same<'a, 'b>(all: Seq<Product<'b>>, a: CategoryOption<'a>, b: CategoryOption<'b>, n: nat, number: int)
    requires a.ok(n, number), b.read(all, a.row(), number), at_their_place(all)
    ensures same_option(all, a, b), b.row() == a.row(), within(a.row().1, n)
{
    set_same(a.products_by_serialization_id@, b.products_by_serialization_id@, ids_of(a.content@));
    taken_again(all, ids_of(a.content@), b.content@);
    in_order_within(ids_of(a.content@), n);
}
pub proof fn tag_same<'a, 'b>(all: Seq<Product<'b>>, a: Tag<'a>, b: Tag<'b>, n: nat, number: int)
    requires a.ok(n, number), b.read(all, a.row(), number), at_their_place(all)
    ensures same_tag(all, a, b), b.row() == a.row()
{
    set_same(a.products_by_serialization_id@, b.products_by_serialization_id@, ids_of(a.products@));
    taken_again(all, ids_of(a.products@), b.products@);
}
pub proof fn category_same<'a, 'b>(all: Seq<Product<'b>>, a: Category<'a>, b: Category<'b>, n: nat, from: int)
    requires a.ok(n, from), b.read(all, a.m(), from), at_their_place(all)
    ensures same_category(all, a, b), b.m() == a.m()
{
    assert forall|k: int| 0 <= k < b.options@.len() implies same_option(all, a.options@[k], #[trigger] b.options@[k]) && b.options_row()[k] == a.options_row()[k] by {
        assert(a.options@[k].ok(n, from + k));
        assert(a.options_row()[k] == a.options@[k].row());
        option_same(all, a.options@[k], b.options@[k], n, from + k);
    }
    assert(b.options_row() =~= a.options_row());
}
pub proof fn classic_rows_within<'a>(a: ClassicIndexes<'a>, n: nat)
    requires a.ok(n)
    ensures classic_within(a.rows(), n)
{
    let rows = a.categories.rows();
    assert forall|k: int| 0 <= k < rows.len() implies options_within((#[trigger] rows[k]).1.1, n) by {
        let c = a.categories.0@[k];
        assert(c.ok(n, counted(rows.take(k)) as int));
        assert forall|j: int| 0 <= j < rows[k].1.1.len() implies within((#[trigger] rows[k].1.1[j]).1, n) by {
            assert(c.options@[j].ok(n, counted(rows.take(k)) + j));
            in_order_within(ids_of(c.options@[j].content@), n);
        }
    }
    let tags = a.tags.rows();
    assert forall|k: int| 0 <= k < tags.len() implies within((#[trigger] tags[k]).1, n) by {
        assert(a.tags.0@[k].ok(n, k));
        in_order_within(ids_of(a.tags.0@[k].products@), n);
    }
}
pub proof fn classic_same<'a, 'b>(all: Seq<Product<'b>>, a: ClassicIndexes<'a>, b: ClassicIndexes<'b>, n: nat)
    requires a.ok(n), b.read(all, a.rows()), at_their_place(all)
    ensures same_classic(all, a, b), b.rows() == a.rows()
{
    let rows = a.categories.rows();
    assert forall|k: int| 0 <= k < b.categories.0@.len() implies same_category(all, a.categories.0@[k], #[trigger] b.categories.0@[k]) && b.categories.rows()[k] == rows[k] by {
        assert(a.categories.0@[k].ok(n, counted(rows.take(k)) as int));
        assert(rows[k] == a.categories.0@[k].m());
        category_same(all, a.categories.0@[k], b.categories.0@[k], n, counted(rows.take(k)) as int);
    }
    assert(b.categories.rows() =~= rows);
    let tags = a.tags.rows();
    assert forall|k: int| 0 <= k < b.tags.0@.len() implies same_tag(all, a.tags.0@[k], #[trigger] b.tags.0@[k]) && b.tags.rows()[k] == tags[k] by {
        assert(a.tags.0@[k].ok(n, k));
        assert(tags[k] == a.tags.0@[k].m());
        tag_same(all, a.tags.0@[k], b.tags.0@[k], n, k);
    }
    assert(b.tags.rows() =~= tags);
}
pub proof fn roots_same<'a, 'b, G: GramAtom>(a: Map<G, &'a GramNode<'a, G>>, b: Map<G, &'b GramNode<'b, G>>, g: G)
    requires map_model::<G, &'a GramNode<'a, G>>(a) == map_model::<G, &'b GramNode<'b, G>>(b)
    ensures b.contains_key(g) <==> a.contains_key(g), b.contains_key(g) ==> same_tree(*a[g], *b[g])
{
    let x = map_model::<G, &'a GramNode<'a, G>>(a);
    let y = map_model::<G, &'b GramNode<'b, G>>(b);
    if a.contains_key(g) {
        map_model_at::<G, &'a GramNode<'a, G>>(a, g);
        let h = choose|h: G| #[trigger] b.contains_key(h) && h.m() == g.m();
        assert(y.contains_key(g.m()));
        G::m_inj(g, h);
    }
    if b.contains_key(g) {
        map_model_at::<G, &'b GramNode<'b, G>>(b, g);
        let h = choose|h: G| #[trigger] a.contains_key(h) && h.m() == g.m();
        assert(x.contains_key(g.m()));
        G::m_inj(g, h);
        map_model_at::<G, &'a GramNode<'a, G>>(a, g);
        same_data_same_tree(*a[g], *b[g]);
    }
}
pub proof fn list_row<'a, G: GramAtom, const N: usize>(a: Map<[G; N], Vec<&'a Product<'a>>>, k: [G; N])
    ensures list_rows(a).contains_key(k.m()) <==> a.contains_key(k), a.contains_key(k) ==> list_rows(a)[k.m()] == in_order(ids_of(a[k]@))
{
    let s = stored_lists(a);
    if a.contains_key(k) { assert(s.contains_key(k)); map_model_at::<[G; N], Ids>(s, k); }
    if list_rows(a).contains_key(k.m()) {
        let h = choose|h: [G; N]| #[trigger] s.contains_key(h) && h.m() == k.m();
        <[G; N]>::m_inj(k, h);
    }
}
pub proof fn lists_same<'a, 'b, G: GramAtom, const N: usize>(all: Seq<Product<'b>>, a: Map<[G; N], Vec<&'a Product<'a>>>, b: Map<[G; N], Vec<&'b Product<'b>>>)
    requires lists_are(b, all, list_rows(a)), at_their_place(all)
    ensures
        forall|k: [G; N]| (#[trigger] b.contains_key(k) <==> a.contains_key(k)) && (b.contains_key(k) ==> same_list(all, a[k]@, b[k]@)),
        list_rows(b) == list_rows(a),
{
    let x = list_rows(a);
    let y = list_rows(b);
    assert forall|k: [G; N]| (#[trigger] b.contains_key(k) <==> a.contains_key(k)) && (b.contains_key(k) ==> same_list(all, a[k]@, b[k]@)) by { list_row(a, k); }
    assert forall|km: Seq<G::M>| #[trigger] x.contains_key(km) == y.contains_key(km) && (x.contains_key(km) ==> x[km] == y[km]) by {
        if x.contains_key(km) {
            let h = choose|h: [G; N]| #[trigger] stored_lists(a).contains_key(h) && h.m() == km;
            assert(b.contains_key(h) <==> a.contains_key(h));
            list_row(a, h);
            list_row(b, h);
            taken_again(all, ids_of(a[h]@), b[h]@);
        }
        if y.contains_key(km) {
            let h = choose|h: [G; N]| #[trigger] stored_lists(b).contains_key(h) && h.m() == km;
            assert(b.contains_key(h) <==> a.contains_key(h));
            list_row(a, h);
        }
    }
    assert(y =~= x);
}
pub proof fn gram_rows_within<'a, G: GramAtom, const N: usize>(a: GramIndex<'a, G, Product<'a>, N>)
    requires a.ok()
    ensures gram_within(a.rows())
{
    let c = *a.product_container;
    rows_refer(c);
    let x = list_rows(a.data@);
    assert forall|km: Seq<G::M>| #[trigger] x.contains_key(km) implies within(x[km], c.products@.len()) by {
        let h = choose|h: [G; N]| #[trigger] stored_lists(a.data@).contains_key(h) && h.m() == km;
        assert(a.data@.contains_key(h));
        list_row(a.data@, h);
        in_order_within(ids_of(a.data@[h]@), c.products@.len());
    }
    assert(models(c.products@).len() == c.products@.len());
}
pub proof fn gram_same<'a, 'b, G: GramAtom, const N: usize>(a: GramIndex<'a, G, Product<'a>, N>, b: GramIndex<'b, G, Product<'b>, N>)
    requires a.ok(), gram_is(b, a.rows())
    ensures same_gram(a, b), b.rows() == a.rows(), b.ok(), at_their_place(b.product_container.products@), b.product_container.products@.len() == a.product_container.products@.len()
{
    let c = *a.product_container;
    let d = *b.product_container;
    same_rows(c, d);
    lists_same(d.products@, a.data@, b.data@);
    assert forall|g: G| (#[trigger] b.roots@.contains_key(g) <==> a.roots@.contains_key(g)) && (b.roots@.contains_key(g) ==> same_tree(*a.roots@[g], *b.roots@[g])) by { roots_same(a.roots@, b.roots@, g); }
    assert forall|k: int| 0 <= k < d.products@.len() implies is_limited((#[trigger] d.products@[k]).description@) by { assert(same_product(&c.products@[k], &d.products@[k])); }
    container_settles(d);
    assert forall|k: [G; N]| #[trigger] b.data@.contains_key(k) implies ids_within(ids_of(b.data@[k]@), d.products@.len()) by {
        let at = list_rows(a.data@)[k.m()];
        assert(taken(d.products@, at, b.data@[k]@));
        taken_ids(d.products@, at, b.data@[k]@);
        assert forall|i: int| 0 <= i < ids_of(b.data@[k]@).len() implies (#[trigger] ids_of(b.data@[k]@)[i]) < d.products@.len() by { assert(nats(ids_of(b.data@[k]@))[i] == at[i]); }
    }
}

// ---- saving and loading the whole
pub type WholeRows<'a, G, const N: usize> = (GramRows<'a, G, N>, ClassicRows);
pub type WholeData<A> = (GramData<A>, ClassicData);
/// The closure that collects the bytes, as the list it pushes to.
impl ByteSink for Vec<u8> {
    open spec fn out(&self) -> Seq<u8> { self@ }
    fn put(&mut self, b: u8) { self.push(b) }
}
/*@fn serialize/all_indexes.rs :: fn serialize_all
@opt ret = r
@sub < G : GramAtom , const N ==> <'a, G: GramAtom, const N
@bind ( $ngram : & GramIndex < '_ , G , Product < '_ > , N > , $classic : & ClassicIndexes < '_ >
@sub & GramIndex < '_ , G , Product < '_ > , N > ==> &GramIndex<'a, G, Product<'a>, N>
@bind let mut $out = Vec
@bind let mut $save = | $byte : u8 | $out . push
@sub let mut $save = | $byte : u8 | $out . push ( $byte ) ; ==>
@sub & mut $save ==> &mut $out
@sub Vec :: new ( ) ==> Vec::<u8>::new()
@spec
    requires $ngram.product_container.vendors.wf(),
    ensures <WholeRows<'a, G, N>>::enc(($ngram.rows(), $classic.rows()), r@),
@after $ngram . serialize ( & mut $out ) ;
    let ghost o1 = $out@;
    let ghost o0 = Seq::<u8>::empty();
@after $classic . serialize ( & mut $out ) ;
    proof {
        emitted_pair::<GramRows<'a, G, N>, ClassicRows>($ngram.rows(), $classic.rows(), o0, o1, $out@);
        let b = choose|b: Seq<u8>| <WholeRows<'a, G, N>>::enc(($ngram.rows(), $classic.rows()), b) && $out@ == #[trigger] (o0 + b);
        assert(b =~= $out@);
    }
@*/
/// What loading returns (the contract of deserialize_all).
pub open spec fn all_read<'a, G: GramAtom, const N: usize>(i: Seq<u8>, g: GramIndex<'a, G, Product<'a>, N>, c: ClassicIndexes<'a>) -> bool {
    exists|i1: Seq<u8>, rest: Seq<u8>| gram_read(i, i1, g) && #[trigger] classic_read(i1, rest, c, g.product_container.products@)
}
pub open spec fn all_refused<'a, G: GramAtom, const N: usize>(i: Seq<u8>) -> bool {
    gram_refused::<G, N>(i) || exists|i1: Seq<u8>, g: GramIndex<'a, G, Product<'a>, N>| #[trigger] gram_read(i, i1, g) && classic_refused(i1, g.product_container.products@.len())
}
/*@fn serialize/all_indexes.rs :: fn deserialize_all
@opt ret = r
@bind ( $arg : & [ u8 ] ,
@spec
    ensures
        r matches Some((g, c)) ==> all_read($arg@, g, c),
        r is None ==> all_refused::<G, N>($arg@),
@*/
/// What loading these bytes gives, as deserialize_all promises.
pub open spec fn all_loaded<'b, G: GramAtom, const N: usize>(i: Seq<u8>, r: Option<(GramIndex<'b, G, Product<'b>, N>, ClassicIndexes<'b>)>) -> bool {
    match r { Some((g, c)) => all_read(i, g, c), None => all_refused::<G, N>(i) }
}
pub proof fn both_parts<A: DecSpec, B: DecSpec>(x: (A::M, B::M), b: Seq<u8>, t: Seq<u8>)
    requires <(A, B)>::enc(x, b)
    ensures
        A::dec(b + t) matches Dec::Ok(y, n) && y == x.0 && n <= (b + t).len(),
        B::dec(after(A::dec(b + t), b + t)) matches Dec::Ok(z, m) && z == x.1,
{
    let (u, v) = choose|u: Seq<u8>, v: Seq<u8>| A::enc(x.0, u) && B::enc(x.1, v) && b == #[trigger] (u + v);
    assert(b + t =~= u + (v + t));
    A::law(x.0, u, v + t);
    assert((u + (v + t)).skip(u.len() as int) =~= v + t);
    B::law(x.1, v, t);
}
/// P08: a saved index loads, as the same index; saving it again writes the same data.
pub proof fn whole_survives<'a, 'b, G: GramAtom, const N: usize>(a: GramIndex<'a, G, Product<'a>, N>, c: ClassicIndexes<'a>, b: Seq<u8>, t: Seq<u8>, r: Option<(GramIndex<'b, G, Product<'b>, N>, ClassicIndexes<'b>)>)
    requires a.ok(), c.ok(a.product_container.products@.len()), <WholeRows<'a, G, N>>::enc((a.rows(), c.rows()), b), all_loaded(b + t, r)
    ensures r matches Some((a2, c2)) && same_gram(a, a2) && same_classic(a2.product_container.products@, c, c2) && a2.rows() == a.rows() && c2.rows() == c.rows()
{
    let i = b + t;
    let n = a.product_container.products@.len();
    let i1 = after(<GramRows<'a, G, N>>::dec(i), i);
    both_parts::<GramRows<'a, G, N>, ClassicRows>((a.rows(), c.rows()), b, t);
    gram_rows_within(a);
    classic_rows_within(c, n);
    match r {
        Some((a2, c2)) => {
            let (j1, rest) = choose|j1: Seq<u8>, rest: Seq<u8>| gram_read(i, j1, a2) && #[trigger] classic_read(j1, rest, c2, a2.product_container.products@);
            let x = choose|x: GramData<G::M>| decoded(<GramRows<'a, G, N>>::dec(i), i, Some((j1, x))) && #[trigger] gram_is(a2, x);
            assert(j1 == i1 && x == a.rows());
            gram_same(a, a2);
            let all = a2.product_container.products@;
            let y = choose|y: ClassicData| decoded(ClassicRows::dec(j1), j1, Some((rest, y))) && #[trigger] c2.read(all, y);
            assert(y == c.rows());
            classic_same(all, c, c2, n);
        }
        None => {
            assert(!gram_refused::<G, N>(i));
            let (j1, g) = choose|j1: Seq<u8>, g: GramIndex<'b, G, Product<'b>, N>| #[trigger] gram_read(i, j1, g) && classic_refused(j1, g.product_container.products@.len());
            let x = choose|x: GramData<G::M>| decoded(<GramRows<'a, G, N>>::dec(i), i, Some((j1, x))) && #[trigger] gram_is(g, x);
            assert(j1 == i1 && x == a.rows());
            gram_same(a, g);
        }
    }
}
/// P05: a truncated file is refused.
pub proof fn whole_truncated<'b, G: GramAtom, const N: usize>(x: WholeData<G::M>, b: Seq<u8>, k: int, r: Option<(GramIndex<'b, G, Product<'b>, N>, ClassicIndexes<'b>)>)
    requires <WholeRows<'b, G, N>>::enc(x, b), 0 <= k < b.len(), all_loaded(b.take(k), r)
    ensures r is None
{
    let i = b.take(k);
    <WholeRows<'b, G, N>>::law_short(x, b, k);
    if let Some((a2, c2)) = r {
        let (j1, rest) = choose|j1: Seq<u8>, rest: Seq<u8>| gram_read(i, j1, a2) && #[trigger] classic_read(j1, rest, c2, a2.product_container.products@);
        let y = choose|y: GramData<G::M>| decoded(<GramRows<'b, G, N>>::dec(i), i, Some((j1, y))) && #[trigger] gram_is(a2, y);
        let z = choose|z: ClassicData| decoded(ClassicRows::dec(j1), j1, Some((rest, z))) && #[trigger] c2.read(a2.product_container.products@, z);
        assert(<WholeRows<'b, G, N>>::dec(i) == dec_then(<GramRows<'b, G, N>>::dec(i), ClassicRows::dec(after(<GramRows<'b, G, N>>::dec(i), i))));
    }
}
