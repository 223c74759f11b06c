// ---- from a saved file to searching it ----------------------------------------------------------

impl<X> Mutex<Option<X>> {
    /// `lock().unwrap().replace(v)`
    #[verifier::external_body]
    pub fn lock_replace(&mut self, v: X)
        requires !poisoned(old(self))
        ensures !poisoned(final(self)), inside(final(self)) == Some(v)
    { unimplemented!() }
}
/// The statics `NODE_ARENA` and `SUPER_ARENA`.
#[verifier::external_body]
pub fn node_arena() -> (r: &'static Arena<GramNode<'static, char>>) { unimplemented!() }
#[verifier::external_body]
pub fn super_arena() -> (r: &'static SuperAlloc) { unimplemented!() }

/// What is shared is what these bytes hold.
pub open spec fn shares(s: &Shared, b: Seq<u8>) -> bool {
    s.the_index() matches Some(i) && s.the_classic() matches Some(c) && all_read(b, *i, *c)
}
/*@fn lib.rs :: fn initialize
@opt ret = r
@bind fn initialize ( $input : & [ u8 ] )
@sub fn initialize ( $in : & [ u8 ] ) ==> fn initialize(shared: &mut Shared, $in: &[u8])
@sub? init_panic_hook ( ) ; ==>
@sub? & NODE_ARENA ==> node_arena()
@sub? & SUPER_ARENA ==> super_arena()
@sub? SHARED_INDEX . lock ( ) . unwrap ( ) . replace ( $$e ) ==> shared.index.lock_replace($$e)
@sub? SHARED_CLASSIC_INDEX . lock ( ) . unwrap ( ) . replace ( $$e ) ==> shared.classic.lock_replace($$e)
@spec
    requires
        !poisoned(&old(shared).index), !poisoned(&old(shared).classic),
        !all_refused::<char, NGRAM_INDEX_SIZE>($input@),
    ensures r, shares(final(shared), $input@),
@*/

// ---- what indexing saves is what the endpoints rely on
/// Each order ranks every product.
pub proof fn order_lengths<'x>(raw: Seq<RawProduct<'x>>, c: &ProductContainer<'static>, o: Map<String, Vec<usize>>)
    requires three_orders(raw, c, o), c.products@.len() == raw.len()
    ensures forall|k: String| #[trigger] o.contains_key(k) ==> o[k]@.len() == raw.len()
{
    differ();
    let a = choose|k: String| k@ == "Alphabetical"@ && #[trigger] o.contains_key(k) && sorted_as(o[k]@, titles(c), up::<&'static String>());
    let l = choose|k: String| k@ == "Price low to high"@ && #[trigger] o.contains_key(k) && sorted_as(o[k]@, price_keys(raw), up::<f32>());
    let h = choose|k: String| k@ == "Price high to low"@ && #[trigger] o.contains_key(k) && sorted_as(o[k]@, price_keys(raw), down());
    assert(titles(c).len() == raw.len() && price_keys(raw).len() == raw.len());
    assert forall|k: String| #[trigger] o.contains_key(k) implies o[k]@.len() == raw.len() by {
        if k != a && k != l && k != h {
            let four = Set::<String>::empty().insert(a).insert(l).insert(h).insert(k);
            assert(four.subset_of(o.dom()));
            vstd::set_lib::lemma_len_subset(four, o.dom());
            assert(four.len() == 4);
        }
    }
}
pub proof fn orders_same(a: OrderIndex, b: OrderIndex)
    requires a.m() == b.m()
    ensures forall|k: String| (#[trigger] b.orders@.contains_key(k) <==> a.orders@.contains_key(k)) && (b.orders@.contains_key(k) ==> b.orders@[k]@ == a.orders@[k]@)
{
    let x = map_model::<String, Vec<usize>>(a.orders@);
    let y = map_model::<String, Vec<usize>>(b.orders@);
    assert(x == y);
    assert forall|k: String| (#[trigger] b.orders@.contains_key(k) <==> a.orders@.contains_key(k)) && (b.orders@.contains_key(k) ==> b.orders@[k]@ == a.orders@[k]@) by {
        if b.orders@.contains_key(k) {
            map_model_at::<String, Vec<usize>>(b.orders@, k);
            assert(x.contains_key(k.m()));
            let h = choose|h: String| #[trigger] a.orders@.contains_key(h) && h.m() == k.m();
            <String as KeyModel>::m_inj(h, k);
            map_model_at::<String, Vec<usize>>(a.orders@, k);
            let u = a.orders@[k]@;
            let v = b.orders@[k]@;
            assert(models(u) == models(v));
            assert(models(u).len() == u.len() && models(v).len() == v.len());
            assert forall|i: int| 0 <= i < u.len() implies u[i] == v[i] by { assert(models(u)[i] == models(v)[i]); }
            assert(u =~= v);
        }
        if a.orders@.contains_key(k) {
            map_model_at::<String, Vec<usize>>(a.orders@, k);
            assert(y.contains_key(k.m()));
            let h = choose|h: String| #[trigger] b.orders@.contains_key(h) && h.m() == k.m();
            <String as KeyModel>::m_inj(h, k);
        }
    }
}
/// After initializing with what indexing this catalogue saved, the shared index is one of the catalogue,
/// and everything the endpoints require holds.
pub proof fn shared_is_ready<'x>(raw: Seq<RawProduct<'x>>, b: Seq<u8>, s: &Shared)
    requires saves::<5>(raw, b), shares(s, b)
    ensures s.wf(), ready(raw, *(s.the_index()->0))
{
    let g2 = *(s.the_index()->0);
    let c2 = *(s.the_classic()->0);
    let t = Seq::<u8>::empty();
    assert(b + t =~= b);
    saved_is_ready(raw, b, t, Some((g2, c2)));
    catalogue_survives(raw, b, t, Some((g2, c2)));
    let (g, c) = choose|g: Index, c: ClassicIndexes<'static>| #[trigger] made(raw, g, c)
        && same_gram(g, g2) && same_classic(g2.product_container.products@, c, c2) && g2.rows() == g.rows() && c2.rows() == c.rows();
    let all = g2.product_container.products@;
    let ts = raw_texts(raw);
    assert(hold_within(&g2)) by {
        shown_rises(ts, 5);
        assert forall|w: [char; 5], k: int| #![trigger g2.data@[w]@[k]] g2.data@.contains_key(w) && 0 <= k < g2.data@[w]@.len() implies g2.data@[w]@[k].serialization_id < all.len() by {
            let ks = places(grams_shown(ts, 5), w@);
            places_rise(grams_shown(ts, 5), w@, ts.len() as int);
            assert(g2.data@[w]@ == picked_from(refs(all), ks));
            assert(g2.data@[w]@[k] == refs(all)[ks[k]]);
        }
    }
    classic_ok(raw, g, c);
    assert forall|i: int| 0 <= i < c2.tags.0@.len() implies (#[trigger] c2.tags.0@[i]).id == i by { assert(c.tags.0@[i].ok(raw.len(), i)); }
    order_lengths(raw, g.product_container, c.order.orders@);
    orders_same(c.order, c2.order);
}

// ---- what the search endpoint hands out, in terms of the catalogue
pub proof fn filter_from<T>(s: Seq<T>, p: spec_fn(T) -> bool, a: int, b: int) -> (r: (int, int))
    requires 0 <= a < b < s.filter(p).len()
    ensures 0 <= r.0 < r.1 < s.len(), s.filter(p)[a] == s[r.0], s.filter(p)[b] == s[r.1]
    decreases s.len()
{
    reveal(Seq::filter);
    let s0 = s.drop_last();
    if b < s0.filter(p).len() { filter_from(s0, p, a, b) } else { (filter_has(s0, p, a), s.len() - 1) }
}
pub proof fn filter_keeps<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int) -> (k: int)
    requires 0 <= i < s.len(), p(s[i])
    ensures 0 <= k < s.filter(p).len(), s.filter(p)[k] == s[i]
    decreases s.len()
{
    reveal(Seq::filter);
    let s0 = s.drop_last();
    if i < s0.len() { filter_keeps(s0, p, i) } else { s0.filter(p).len() as int }
}
/// The product with this number was found through its text and passes the chosen options, tags and filters.
pub open spec fn handed<'x>(raw: Seq<RawProduct<'x>>, index: &Index, query: Seq<char>, c: &CategoryHandler, t: &TagHandler, fs: Seq<FeatureFilter>, n: usize) -> bool {
    &&& n < raw.len()
    &&& held(raw, *index, lower(query), &index.product_container.products@[n as int])
    &&& in_chosen(c, t, &index.product_container.products@[n as int])
    &&& forall|i: int| 0 <= i < fs.len() ==> (#[trigger] fs[i]).passes(&index.product_container.extra_features, &index.product_container.products@[n as int])
}
/// Products of a list numbered by their place, each found once, keep different numbers.
pub proof fn filtered_numbers<'x>(raw: Seq<RawProduct<'x>>, index: &Index, query: Seq<char>, c: &CategoryHandler, t: &TagHandler, fs: Seq<FeatureFilter>, r: Seq<(&'static Product<'static>, f32)>, base: Seq<usize>)
    requires
        ready(raw, *index), index.found(lower(query), r),
        base == numbers_of(products_in(r).filter(allowed(c, t, fs, fs.len() as int, &index.product_container.extra_features))),
    ensures
        forall|k: int| 0 <= k < base.len() ==> handed(raw, index, query, c, t, fs, #[trigger] base[k]),
        base.no_duplicates(),
{
    let q = lower(query);
    let all = index.product_container.products@;
    let ps = products_in(r);
    let p = allowed::<'static>(c, t, fs, fs.len() as int, &index.product_container.extra_features);
    let kept = ps.filter(p);
    found_in_catalogue(raw, *index, q, r);
    assert forall|i: int| 0 <= i < r.len() implies (#[trigger] r[i]).0.serialization_id < raw.len() && *r[i].0 == all[r[i].0.serialization_id as int] by {
        assert(held(raw, *index, q, r[i].0));
        held_in_place(raw, *index, q, r[i].0);
    }
    assert forall|k: int| 0 <= k < base.len() implies handed(raw, index, query, c, t, fs, #[trigger] base[k]) by {
        let i = filter_has(ps, p, k);
        assert(kept[k] == r[i].0);
        assert(base[k] == r[i].0.serialization_id);
        assert(p(ps[i]));
        assert(held(raw, *index, q, r[i].0));
    }
    assert forall|a: int, b: int| 0 <= a < b < base.len() implies base[a] != base[b] by {
        let (i, j) = filter_from(ps, p, a, b);
        assert(r[i].0.key() != r[j].0.key());
        assert(base[a] == r[i].0.serialization_id && base[b] == r[j].0.serialization_id);
    }
}
pub proof fn held_in_place<'x>(raw: Seq<RawProduct<'x>>, index: Index, q: Seq<char>, p: &Product<'static>)
    requires ready(raw, index), held(raw, index, q, p)
    ensures p.serialization_id < raw.len(), *p == index.product_container.products@[p.serialization_id as int]
{
    let (qi, w, conf, k) = choose|qi: int, w: [char; 5], conf: f32, k: int| #[trigger] read_as(raw_texts(raw), q, qi, w, conf)
        && #[trigger] holder(raw, index.product_container.products@, p, k, w@) && shown_by(raw_texts(raw), w@, 5) <= 4 * raw.len() / 5;
    assert(index.product_container.products@[k].serialization_id == k);
}
/// P22 for every catalogue: each product handed out was found through its text and passes what is chosen,
/// none is handed out twice, and every product found that passes is handed out.
pub proof fn handed_out_is_right<'x>(raw: Seq<RawProduct<'x>>, index: &Index, classic: Option<Arc<ClassicIndexes<'static>>>, query: Seq<char>, c: &CategoryHandler, t: &TagHandler, order: Option<String>, filters: JsObject, p: &ProductProducer)
    requires ready(raw, *index), handed_out(index, classic, query, c, t, order, filters, p)
    ensures
        exists|r: Seq<(&'static Product<'static>, f32)>, fs: Seq<FeatureFilter>| #[trigger] index.found(lower(query), r) && #[trigger] described_by(filters, fs)
            && (forall|k: int| 0 <= k < p.to_export@.len() ==> handed(raw, index, query, c, t, fs, #[trigger] p.to_export@[k]))
            && (forall|i: int| 0 <= i < r.len() && allowed(c, t, fs, fs.len() as int, &index.product_container.extra_features)((#[trigger] r[i]).0) ==> p.to_export@.contains(r[i].0.serialization_id)),
        p.to_export@.no_duplicates(),
{
    let (r, fs) = choose|r: Seq<(&'static Product<'static>, f32)>, fs: Seq<FeatureFilter>| #[trigger] index.found(lower(query), r) && #[trigger] described_by(filters, fs) && {
        let base = numbers_of(products_in(r).filter(allowed(c, t, fs, fs.len() as int, &index.product_container.extra_features)));
        match order {
            None => p.to_export@ == base,
            Some(name) => classic is Some && exists|o: Seq<usize>, q: Seq<int>| #[trigger] order_named(&*(classic->0), name@, o) && #[trigger] sorted_by(by_key(rank(o)), base, p.to_export@, q),
        }
    };
    let f = allowed::<'static>(c, t, fs, fs.len() as int, &index.product_container.extra_features);
    let base = numbers_of(products_in(r).filter(f));
    filtered_numbers(raw, index, query, c, t, fs, r, base);
    let out = p.to_export@;
    let q: Seq<int> = match order {
        None => Seq::new(base.len(), |i: int| i),
        Some(name) => { let (o, q) = choose|o: Seq<usize>, q: Seq<int>| #[trigger] order_named(&*(classic->0), name@, o) && #[trigger] sorted_by(by_key(rank(o)), base, out, q); q }
    };
    assert(out.len() == base.len() && perm(q, base.len()));
    assert forall|k: int| 0 <= k < out.len() implies #[trigger] out[k] == base[q[k]] && 0 <= q[k] < base.len() by { }
    assert forall|k: int| 0 <= k < out.len() implies handed(raw, index, query, c, t, fs, #[trigger] out[k]) by { assert(handed(raw, index, query, c, t, fs, base[q[k]])); }
    assert forall|i: int| 0 <= i < r.len() && f((#[trigger] r[i]).0) implies out.contains(r[i].0.serialization_id) by {
        assert(products_in(r)[i] == r[i].0);
        let k = filter_keeps(products_in(r), f, i);
        assert(base[k] == r[i].0.serialization_id);
        perm_onto(q, base.len(), k);
        let j = choose|j: int| 0 <= j < q.len() && q[j] == k;
        assert(out[j] == base[k]);
    }
}
