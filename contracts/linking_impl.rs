// ---- searching a catalogue just indexed: trees in terms of the texts --------------------------------

pub open spec fn path_count<G>(ts: Seq<Seq<G>>, n: nat) -> Count<G> { count_in(ts, Seq::empty(), n) }
/// The nodes grown from these texts.
pub open spec fn grown_from<'a, G: GramAtom>(ts: Seq<Seq<G>>, n: nat) -> spec_fn(&'a GramNode<'a, G>) -> bool {
    |x: &'a GramNode<'a, G>| exists|p: Seq<G>, above: nat| 1 <= p.len() <= n && #[trigger] node_grown(x, p, above, path_count(ts, n), n)
}
pub proof fn below_grown<'a, G: GramAtom>(x: &'a GramNode<'a, G>, p: Seq<G>, above: nat, ts: Seq<Seq<G>>, n: nat, g: G)
    requires node_grown(x, p, above, path_count(ts, n), n), 1 <= p.len() <= n
    ensures child(x, g) is Some <==> path_count(ts, n)(p.push(g)) > 0,
        child(x, g) matches Some(y) ==> y.item == g && p.len() < n && node_grown(y, p.push(g), path_count(ts, n)(p), path_count(ts, n), n)
{
    if x.items@.contains_key(g) {
        assert(path_count(ts, n)(p.push(g)) > 0);
        assert(p.push(g).len() <= n);
        assert(x.by_occurances@.contains(x.items@[g]));
    }
}
/// In what was grown, children are found under their own character.
pub proof fn grown_tree<'a, G: GramAtom>(ts: Seq<Seq<G>>, n: nat)
    ensures tree::<G>(grown_from::<'a, G>(ts, n))
{
    let t = grown_from::<'a, G>(ts, n);
    assert forall|x: &'a GramNode<'a, G>| #[trigger] t(x) implies {
        &&& forall|g: G| #[trigger] x.items@.contains_key(g) ==> x.items@[g].item == g && t(x.items@[g])
        &&& forall|c: &'a GramNode<'a, G>| #[trigger] x.by_occurances@.contains(c) ==> child(x, c.item) == Some(c)
    } by {
        let (p, above) = choose|p: Seq<G>, above: nat| 1 <= p.len() <= n && #[trigger] node_grown(x, p, above, path_count(ts, n), n);
        assert forall|g: G| #[trigger] x.items@.contains_key(g) implies x.items@[g].item == g && t(x.items@[g]) by { below_grown(x, p, above, ts, n, g); assert(1 <= p.push(g).len() <= n); }
    }
}
/// What follows an occurrence of p is an occurrence of p too.
pub proof fn occ_shorter<G>(t: Seq<G>, p: Seq<G>, g: G)
    requires p.len() > 0
    ensures t.len() > 0 ==> occ(t.drop_last(), p) >= occ(t, p.push(g)), occ(t, p) >= occ(t, p.push(g))
    decreases t.len()
{
    if t.len() > 0 {
        let d = t.drop_last();
        occ_shorter(d, p, g);
        assert(occ(t, p) == occ(d, p) + if ends(t, p) { 1nat } else { 0 });
        assert(occ(t, p.push(g)) == occ(d, p.push(g)) + if ends(t, p.push(g)) { 1nat } else { 0 });
        if d.len() > 0 { assert(occ(d, p) == occ(d.drop_last(), p) + if ends(d, p) { 1nat } else { 0 }); }
        if ends(t, p.push(g)) {
            let q = p.push(g);
            assert(last(t, q.len() as int) == q);
            assert(last(d, p.len() as int) =~= p) by {
                assert forall|i: int| 0 <= i < p.len() implies #[trigger] last(d, p.len() as int)[i] == p[i] by { assert(last(t, q.len() as int)[i] == q[i]); }
            }
            assert(ends(d, p));
        }
        if d.len() == 0 { assert(occ(d, p.push(g)) == 0); }
    }
}
pub proof fn total_shorter<G>(ts: Seq<Seq<G>>, p: Seq<G>, g: G)
    requires p.len() > 0
    ensures total_occ(ts, p) >= total_occ(ts, p.push(g))
    decreases ts.len()
{ if ts.len() > 0 { total_shorter(ts.drop_last(), p, g); occ_shorter(ts.last(), p, g); } }
pub proof fn total_prefix<G>(ts: Seq<Seq<G>>, p: Seq<G>, s: Seq<G>)
    requires p.len() > 0
    ensures total_occ(ts, p) >= total_occ(ts, p + s)
    decreases s.len()
{
    if s.len() == 0 { assert(p + s =~= p); } else {
        total_prefix(ts, p, s.drop_last());
        total_shorter(ts, p + s.drop_last(), s.last());
        assert((p + s.drop_last()).push(s.last()) =~= p + s);
    }
}
/// The confidence of a path: each character's share of the occurrences of the path above it, multiplied.
pub open spec fn confidence<G>(ts: Seq<Seq<G>>, q: Seq<G>) -> f32
    decreases q.len()
{
    if q.len() <= 1 { 1.0f32 } else { fmul(confidence(ts, q.drop_last()), share(total_occ(ts, q.drop_last()), total_occ(ts, q))) }
}
/// How often what is above the end of a path occurs.
pub open spec fn above_of<G>(g: G, above: nat, s: Seq<G>, ts: Seq<Seq<G>>) -> nat { if s.len() == 0 { above } else { total_occ(ts, seq![g] + s.drop_last()) } }
/// Where a walk from a root ends, and with what weight.
pub proof fn walked<'a, G: GramAtom>(root: &'a GramNode<'a, G>, g: G, above: nat, s: Seq<G>, ts: Seq<Seq<G>>, n: nat)
    requires node_grown(root, seq![g], above, path_count(ts, n), n), s.len() < n
    ensures s.len() == 0 || (walk(root, s) is Some <==> total_occ(ts, seq![g] + s) > 0),
        walk(root, s) matches Some(x) ==> weight_along(root, s) == confidence(ts, seq![g] + s)
            && node_grown(x, seq![g] + s, above_of(g, above, s, ts), path_count(ts, n), n),
    decreases s.len()
{
    let q = seq![g] + s;
    if s.len() == 0 {
        assert(q =~= seq![g]);
        assert(node_grown(root, seq![g] + s, above, path_count(ts, n), n));
        assert(walk(root, s) == Some(root));
        assert(weight_along(root, s) == 1.0f32);
        assert(q.len() == 1);
        assert(confidence(ts, q) == 1.0f32);
        assert(walk(root, s) matches Some(x) ==> weight_along(root, s) == confidence(ts, seq![g] + s));
    } else {
        let s0 = s.drop_last();
        let q0 = seq![g] + s0;
        walked(root, g, above, s0, ts, n);
        assert(q0.push(s.last()) =~= q);
        assert(q.drop_last() =~= q0);
        total_shorter(ts, q0, s.last());
        if s0.len() == 0 { assert(walk(root, s0) == Some(root)); }
        if let Some(x) = walk(root, s0) {
            let a = above_of(g, above, s0, ts);
            below_grown(x, q0, a, ts, n, s.last());
            assert(path_count(ts, n)(q0) == total_occ(ts, q0));
            assert(path_count(ts, n)(q) == total_occ(ts, q));
            if let Some(y) = child(x, s.last()) {
                assert(node_grown(y, q, total_occ(ts, q0), path_count(ts, n), n));
                assert(walk(root, s) == Some(y));
                assert(y.weight == share(total_occ(ts, q0), total_occ(ts, q)));
                assert(weight_along(root, s) == fmul(weight_along(root, s0), y.weight));
                assert(confidence(ts, q) == fmul(confidence(ts, q0), share(total_occ(ts, q0), total_occ(ts, q))));
                assert(weight_along(root, s0) == confidence(ts, q0));
            } else { assert(walk(root, s) is None); }
        } else { assert(walk(root, s) is None); }
    }
}
pub proof fn straight_occurs<'a, G: GramAtom>(x: &'a GramNode<'a, G>, p: Seq<G>, above: nat, s: Seq<G>, ts: Seq<Seq<G>>, n: nat)
    requires node_grown(x, p, above, path_count(ts, n), n), 1 <= p.len(), p.len() + s.len() <= n
    ensures s.len() == 0 || (straight(x, s) <==> total_occ(ts, p + s) > 0)
    decreases s.len()
{
    if s.len() > 0 {
        below_grown(x, p, above, ts, n, s[0]);
        let p1 = p.push(s[0]);
        assert(p1 + s.skip(1) =~= p + s);
        assert(path_count(ts, n)(p1) == total_occ(ts, p1));
        total_prefix(ts, p1, s.skip(1));
        if let Some(y) = child(x, s[0]) {
            straight_occurs(y, p1, path_count(ts, n)(p), s.skip(1), ts, n);
            if s.len() == 1 { assert(p + s =~= p1); assert(s.skip(1).len() == 0); assert(straight(y, s.skip(1))); }
            assert(straight(x, s) == straight(y, s.skip(1)));
        } else { assert(!straight(x, s)); }
    }
}
/// What a gram of a query is matched with, in terms of the texts: a gram that occurs in them, with the same
/// first character and the confidence of its path; and a gram that occurs is always matched.
pub proof fn match_occurs<'a, G: GramAtom, Data: Ord, const N: usize>(ts: Seq<Seq<G>>, index: &GramIndex<'a, G, Data, N>, query: Seq<G>, r: Option<([G; N], f32)>)
    requires trees(index.roots@, ts, N as nat), matched(index, query, r), query.len() == N, N > 0
    ensures
        r matches Some((g, c)) ==> g@[0] == query[0] && total_occ(ts, g@) > 0 && c == confidence(ts, g@),
        total_occ(ts, query) > 0 ==> r is Some,
{
    let n = N as nat;
    let t = grown_from::<'a, G>(ts, n);
    grown_tree::<G>(ts, n);
    assert forall|g: G| #[trigger] index.roots@.contains_key(g) implies index.roots@[g].item == g && t(index.roots@[g]) by {
        assert(node_grown(index.roots@[g], seq![g], letters(ts), path_count(ts, n), n));
        assert(seq![g].len() == 1);
    }
    match_is_path(t, index, query, r);
    let g0 = query[0];
    let s = query.skip(1);
    assert(seq![g0] + s =~= query);
    total_prefix(ts, seq![g0], s);
    assert(path_count(ts, n)(seq![g0]) == total_occ(ts, seq![g0]));
    if index.roots@.contains_key(g0) {
        let root = index.roots@[g0];
        straight_occurs(root, seq![g0], letters(ts), s, ts, n);
        if let Some((g, c)) = r {
            walked(root, g0, letters(ts), g@.skip(1), ts, n);
            assert(seq![g0] + g@.skip(1) =~= g@);
            if n == 1 { assert(g@ =~= seq![g0]); }
        }
    }
}
/// The places of a gram are the texts that show it.
pub proof fn places_show<G>(ts: Seq<Seq<G>>, n: nat, w: Seq<G>, k: int)
    requires places(grams_shown(ts, n), w).contains(k)
    ensures 0 <= k < ts.len(), exists|j: int| 0 <= j < ts[k].len() && #[trigger] window(ts[k], j + 1, n) == w
    decreases ts.len()
{
    if ts.len() > 0 {
        let t = ts.last();
        let h0 = grams_shown(ts.drop_last(), n);
        shown_places(h0, t, t.len() as int, ts.len() - 1, n, w, k);
        if places(h0, w).contains(k) {
            places_show(ts.drop_last(), n, w, k);
            let j = choose|j: int| 0 <= j < ts.drop_last()[k].len() && #[trigger] window(ts.drop_last()[k], j + 1, n) == w;
            assert(window(ts[k], j + 1, n) == w);
        }
    }
}
pub proof fn shown_places<G>(h0: Seq<(Seq<G>, int)>, t: Seq<G>, j: int, at: int, n: nat, w: Seq<G>, k: int)
    requires 0 <= j <= t.len(), places(h0 + shown_in(t, j, at, n), w).contains(k)
    ensures places(h0, w).contains(k) || (k == at && exists|i: int| 0 <= i < j && #[trigger] window(t, i + 1, n) == w)
    decreases j
{
    if j == 0 { assert(h0 + shown_in(t, 0, at, n) =~= h0); } else {
        shown_in_more(t, j - 1, at, n);
        let h = h0 + shown_in(t, j - 1, at, n);
        assert(h0 + shown_in(t, j, at, n) =~= h.push((window(t, j, n), at)));
        places_push(h, window(t, j, n), at, w);
        let ks = places(h, w);
        if ks.contains(k) {
            shown_places(h0, t, j - 1, at, n, w, k);
        } else {
            assert(window(t, j, n) == w && k == at) by {
                let i = choose|i: int| 0 <= i < places(h.push((window(t, j, n), at)), w).len() && places(h.push((window(t, j, n), at)), w)[i] == k;
                if i < ks.len() { assert(ks[i] == k); }
            }
            assert(window(t, (j - 1) + 1, n) == w);
        }
    }
}
/// Where the hits come from.
pub proof fn hits_from<'a, G: GramAtom, Data: Ord, const N: usize>(index: &GramIndex<'a, G, Data, N>, answers: Seq<Option<([G; N], f32)>>, h: int) -> (i: int)
    requires 0 <= h < hits(index, answers).len()
    ensures 0 <= i < answers.len(), answers[i] matches Some((g, c)) && index.data@.contains_key(g) && index.data@[g]@.contains(hits(index, answers)[h].0) && hits(index, answers)[h].1 == c
    decreases answers.len()
{
    let a0 = answers.drop_last();
    if h < hits(index, a0).len() { hits_from(index, a0, h) } else {
        let l = listed(index, answers.last());
        let k = h - hits(index, a0).len();
        assert(hits(index, answers)[h] == l[k]);
        let (g, c) = answers.last()->0;
        assert(index.data@[g]@[k] == l[k].0);
        answers.len() - 1
    }
}
/// A product of the catalogue that has a gram of its texts in its own.
pub open spec fn holder<'x, 'a>(raw: Seq<RawProduct<'x>>, all: Seq<Product<'a>>, p: &Product<'a>, k: int, g: Seq<char>) -> bool {
    &&& 0 <= k < raw.len() && *p == all[k]
    &&& exists|j: int| 0 <= j < raw_texts(raw)[k].len() && #[trigger] window(raw_texts(raw)[k], j + 1, g.len()) == g
}
// ---- the lists of grams, exactly
pub proof fn mapped_alike<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> B)
    requires a.to_multiset() == b.to_multiset()
    ensures a.map_values(f).to_multiset() == b.map_values(f).to_multiset()
    decreases a.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(a.to_multiset().len() == a.len() && b.to_multiset().len() == b.len());
    if a.len() > 0 {
        let x = a.last();
        let n = a.len() - 1;
        assert(a.contains(x));
        assert(b.to_multiset().count(x) > 0);
        let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        assert(a.remove(n).to_multiset() =~= b.remove(j).to_multiset());
        mapped_alike(a.remove(n), b.remove(j), f);
        assert(a.remove(n).map_values(f) =~= a.map_values(f).remove(n));
        assert(b.remove(j).map_values(f) =~= b.map_values(f).remove(j));
        let fa = a.map_values(f);
        let fb = b.map_values(f);
        assert(fa.to_multiset() =~= fa.remove(n).to_multiset().insert(fa[n])) by { assert(fa.contains(fa[n])); assert(fa.to_multiset().count(fa[n]) > 0); }
        assert(fb.to_multiset() =~= fb.remove(j).to_multiset().insert(fb[j])) by { assert(fb.contains(fb[j])); assert(fb.to_multiset().count(fb[j]) > 0); }
    } else {
        assert(b.len() == 0);
        assert(a.map_values(f) =~= b.map_values(f));
    }
}
pub open spec fn whole_numbers(ks: Seq<int>) -> Seq<nat> { ks.map_values(|k: int| k as nat) }
/// A list in order of number with these products has them at these places.
pub proof fn in_rising_order<'a>(all: Seq<Product<'a>>, ks: Seq<int>, l: Seq<&'a Product<'a>>)
    requires at_their_place(all), rising(ks), forall|i: int| 0 <= i < ks.len() ==> 0 <= #[trigger] ks[i] < all.len(),
        l.to_multiset() == picked_from(refs(all), ks).to_multiset(), ranked_up(l),
    ensures l == picked_from(refs(all), ks), nats(ids_of(l)) == whole_numbers(ks)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let s = picked_from(refs(all), ks);
    let f = |p: &'a Product<'a>| p.serialization_id as nat;
    mapped_alike(l, s, f);
    assert(l.map_values(f) =~= nats(ids_of(l)));
    assert forall|i: int| 0 <= i < ks.len() implies #[trigger] s[i] == &all[ks[i]] && all[ks[i]].serialization_id == ks[i] by { }
    assert(s.map_values(f) =~= whole_numbers(ks)) by { assert forall|i: int| 0 <= i < ks.len() implies #[trigger] s.map_values(f)[i] == whole_numbers(ks)[i] by { assert(s[i] == &all[ks[i]]); } }
    assert(ascending(nats(ids_of(l)))) by {
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies nats(ids_of(l))[i] <= nats(ids_of(l))[j] by { assert(l[i].rank() <= l[j].rank()); }
    }
    assert(ascending(whole_numbers(ks))) by { assert forall|i: int, j: int| 0 <= i < j < ks.len() implies whole_numbers(ks)[i] <= whole_numbers(ks)[j] by { assert(ks[i] <= ks[j]); } }
    one_order(nats(ids_of(l)), whole_numbers(ks));
    assert(l.to_multiset().len() == l.len() && s.to_multiset().len() == s.len());
    assert forall|i: int| 0 <= i < l.len() implies l[i] == s[i] by {
        assert(l.contains(l[i]) && l.to_multiset().count(l[i]) > 0);
        assert(s.contains(l[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == l[i];
        assert(s[j] == &all[ks[j]]);
        assert(nats(ids_of(l))[i] == whole_numbers(ks)[i]);
    }
    assert(l =~= s);
}
/// Each gram kept lists the products that show it, in order, once per place.
pub open spec fn lists_exact<'a, const N: usize>(m: Map<[char; N], Vec<&'a Product<'a>>>, ts: Seq<Seq<char>>, all: Seq<Product<'a>>) -> bool {
    forall|g: [char; N]| {
        let ks = places(grams_shown(ts, N as nat), g@);
        &&& #[trigger] m.contains_key(g) <==> ks.len() > 0 && ks.to_set().len() <= 4 * ts.len() / 5
        &&& m.contains_key(g) ==> m[g]@ == picked_from(refs(all), ks)
    }
}
/// An index of this catalogue, freshly made or loaded.
pub open spec fn ready<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'b, char, Product<'b>, N>) -> bool {
    &&& g.product_container.products@.len() == raw.len() && at_their_place(g.product_container.products@)
    &&& trees(g.roots@, raw_texts(raw), N as nat)
    &&& lists_exact(g.data@, raw_texts(raw), g.product_container.products@)
}
pub proof fn made_is_ready<'x, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>)
    requires made(raw, g, c), N > 0
    ensures ready(raw, g),
        forall|w: [char; N]| #[trigger] g.data@.contains_key(w) ==> nats(ids_of(g.data@[w]@)) == whole_numbers(places(grams_shown(raw_texts(raw), N as nat), w@)),
{
    let all = g.product_container.products@;
    let ts = raw_texts(raw);
    let h = grams_shown(ts, N as nat);
    index_ok(raw, g, c);
    shown_rises(ts, N as nat);
    assert(gram_lists(g.data@, ts, refs(all), (4 * raw.len() / 5) as int));
    assert forall|w: [char; N]| #[trigger] g.data@.contains_key(w) implies g.data@[w]@ == picked_from(refs(all), places(h, w@)) && nats(ids_of(g.data@[w]@)) == whole_numbers(places(h, w@)) by {
        places_rise(h, w@, ts.len() as int);
        in_rising_order(all, places(h, w@), g.data@[w]@);
    }
}
pub proof fn linked_child<'a, G: GramAtom>(list: Vec<&'a GramNode<'a, G>>, k: nat, i: int)
    requires linkeds(list, k), k <= list@.len(), 0 <= i < k
    ensures linked(*list@[i])
    decreases k
{ if i < k - 1 { linked_child(list, (k - 1) as nat, i); } }
/// A tree that is read back is as it was grown.
pub proof fn grown_again<'a, 'b, G: GramAtom>(a: &'a GramNode<'a, G>, b: &'b GramNode<'b, G>, p: Seq<G>, above: nat, ts: Seq<Seq<G>>, n: nat)
    requires node_grown(a, p, above, path_count(ts, n), n), same_tree(*a, *b), linked(*b), p.len() <= n
    ensures node_grown(b, p, above, path_count(ts, n), n)
    decreases n - p.len()
{
    let c = path_count(ts, n);
    let xs = a.by_occurances@;
    let ys = b.by_occurances@;
    grown_linked(a, p, above, ts, n);
    assert forall|i: int| 0 <= i < xs.len() implies same_tree(*xs[i], *ys[i]) && (#[trigger] xs[i]).item == ys[i].item && xs[i].weight == ys[i].weight by { same_tree_child(a.by_occurances, b.by_occurances, xs.len(), i); }
    assert forall|i: int, j: int| 0 <= i < j < ys.len() implies (#[trigger] ys[i]).item != (#[trigger] ys[j]).item && !fgt(ys[j].weight, ys[i].weight) by { assert(xs[i].item != xs[j].item); assert(!fgt(xs[j].weight, xs[i].weight)); }
    table_is(ys);
    assert(orderly(b)) by {
        assert forall|y: &'b GramNode<'b, G>| #[trigger] ys.contains(y) implies b.items@.contains_key(y.item) && b.items@[y.item] == y by { let i = choose|i: int| 0 <= i < ys.len() && ys[i] == y; assert(ys[i].item == y.item); }
        assert forall|g: G| #[trigger] b.items@.contains_key(g) implies b.items@[g].item == g && ys.contains(b.items@[g]) by { let i = choose|i: int| 0 <= i < ys.len() && (#[trigger] ys[i]).item == g; assert(table(ys)[ys[i].item] == ys[i]); }
    }
    assert forall|g: G| #[trigger] b.items@.contains_key(g) <==> c(p.push(g)) > 0 by { found_alike(*a, *b, g); }
    if p.len() < n {
        assert forall|y: &'b GramNode<'b, G>| #[trigger] ys.contains(y) implies node_grown(y, p.push(y.item), c(p), c, n) by {
            let i = choose|i: int| 0 <= i < ys.len() && ys[i] == y;
            assert(xs.contains(xs[i]));
            assert(xs[i].item == ys[i].item);
            linked_child(b.by_occurances, ys.len(), i);
            grown_again(xs[i], y, p.push(y.item), c(p), ts, n);
        }
    }
}
/// What is loaded from a saved index is an index of the same catalogue.
pub proof fn loaded_is_ready<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>, g2: GramIndex<'b, char, Product<'b>, N>)
    requires made(raw, g, c), N > 0, same_gram(g, g2), at_their_place(g2.product_container.products@)
    ensures ready(raw, g2)
{
    let all = g2.product_container.products@;
    let ts = raw_texts(raw);
    let n = N as nat;
    made_is_ready(raw, g, c);
    assert(all.len() == raw.len());
    assert forall|k: char| #[trigger] g2.roots@.contains_key(k) implies node_grown(g2.roots@[k], seq![k], letters(ts), path_count(ts, n), n) by {
        assert(g.roots@.contains_key(k));
        grown_again(g.roots@[k], g2.roots@[k], seq![k], letters(ts), ts, n);
    }
    shown_rises(ts, n);
    assert forall|w: [char; N]| #[trigger] g2.data@.contains_key(w) implies g2.data@[w]@ == picked_from(refs(all), places(grams_shown(ts, n), w@)) by {
        let ks = places(grams_shown(ts, n), w@);
        assert(g.data@.contains_key(w));
        let ids = ids_of(g.data@[w]@);
        assert(nats(ids) == whole_numbers(ks));
        places_rise(grams_shown(ts, n), w@, ts.len() as int);
        in_order_good(ids);
        assert(ascending(whole_numbers(ks))) by { assert forall|i: int, j: int| 0 <= i < j < ks.len() implies whole_numbers(ks)[i] <= whole_numbers(ks)[j] by { assert(ks[i] <= ks[j]); } }
        one_order(in_order(ids), whole_numbers(ks));
        assert(taken(all, whole_numbers(ks), g2.data@[w]@));
        assert forall|i: int| 0 <= i < ks.len() implies #[trigger] g2.data@[w]@[i] == picked_from(refs(all), ks)[i] by { assert(whole_numbers(ks)[i] == ks[i]); }
        assert(g2.data@[w]@ =~= picked_from(refs(all), ks));
    }
}
/// P08 and P11 for every catalogue: whatever is saved for it can be loaded and searched.
pub proof fn saved_is_ready<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, b: Seq<u8>, t: Seq<u8>, r: Option<(GramIndex<'b, char, Product<'b>, N>, ClassicIndexes<'b>)>)
    requires saves::<N>(raw, b), all_loaded(b + t, r), N > 0
    ensures r matches Some((g2, c2)) && ready(raw, g2)
{
    catalogue_survives(raw, b, t, r);
    let (g2, c2) = r->0;
    let (g, c) = choose|g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>| #[trigger] made(raw, g, c)
        && same_gram(g, g2) && same_classic(g2.product_container.products@, c, c2) && g2.rows() == g.rows() && c2.rows() == c.rows();
    let all = g.product_container.products@;
    let all2 = g2.product_container.products@;
    assert forall|k: int| 0 <= k < all2.len() implies (#[trigger] all2[k]).serialization_id == k by { assert(same_product(&all[k], &all2[k])); assert(product_of(raw[k], all[k], k, &g.product_container.vendors)); }
    loaded_is_ready(raw, g, c, g2);
}

// ---- what a search finds
/// A gram of the query is matched with a gram of the texts: the same first character, with the confidence of its path.
pub open spec fn read_as<const N: usize>(ts: Seq<Seq<char>>, query: Seq<char>, q: int, w: [char; N], conf: f32) -> bool {
    &&& 0 <= q < query.len() && w@[0] == window(query, q + 1, N as nat)[0]
    &&& total_occ(ts, w@) > 0 && conf == confidence(ts, w@)
}
/// This product shows a gram kept, that a gram of the query was matched with.
pub open spec fn held<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'b, char, Product<'b>, N>, query: Seq<char>, p: &Product<'b>) -> bool {
    exists|q: int, w: [char; N], conf: f32, k: int| #[trigger] read_as(raw_texts(raw), query, q, w, conf)
        && #[trigger] holder(raw, g.product_container.products@, p, k, w@) && shown_by(raw_texts(raw), w@, N as nat) <= 4 * raw.len() / 5
}
pub proof fn hit_held<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'b, char, Product<'b>, N>, query: Seq<char>, answers: Seq<Option<([char; N], f32)>>, h: int)
    requires ready(raw, g), answered(&g, query, answers), answers.len() == query.len(), 0 < N, 0 <= h < hits(&g, answers).len()
    ensures held(raw, g, query, hits(&g, answers)[h].0)
{
    let x = hits(&g, answers)[h].0;
    let all = g.product_container.products@;
    let ts = raw_texts(raw);
    let n = N as nat;
    let q = hits_from(&g, answers, h);
    let (w, conf) = answers[q]->0;
    let win = window(query, q + 1, n);
    assert(matched(&g, win, answers[q]));
    assert(win.len() == n);
    match_occurs(ts, &g, win, answers[q]);
    let ks = places(grams_shown(ts, n), w@);
    let l = g.data@[w]@;
    assert(l == picked_from(refs(all), ks));
    let i = choose|i: int| 0 <= i < l.len() && l[i] == x;
    assert(ks.contains(ks[i]));
    places_show(ts, n, w@, ks[i]);
    assert(w@.len() == n);
    assert(read_as(ts, query, q, w, conf));
    assert(holder(raw, all, x, ks[i], w@));
}
/// A search of a catalogue, freshly indexed or loaded: each product at most once, and each found through a gram of
/// the query: one with the same first character that occurs in the texts, in at most four fifths of the products
/// and in this one; and every product listed under a gram matched is found.
pub proof fn found_in_catalogue<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'b, char, Product<'b>, N>, query: Seq<char>, r: Seq<(&'b Product<'b>, f32)>)
    requires ready(raw, g), g.found(query, r), 0 < N
    ensures
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.key() != (#[trigger] r[j]).0.key(),
        forall|i: int| 0 <= i < r.len() ==> held(raw, g, query, (#[trigger] r[i]).0),
        exists|answers: Seq<Option<([char; N], f32)>>| answers.len() == query.len() && #[trigger] answered(&g, query, answers)
            && forall|q: int, k: int| 0 <= q < answers.len() && #[trigger] shows_kept(raw, answers[q], k) ==> is_there(r, g.product_container.products@[k].key()),
{
    let answers = found_through(&g, query, r);
    let hs = hits(&g, answers);
    let all = g.product_container.products@;
    all_held(raw, g, query, answers, r);
    assert forall|q: int, k: int| 0 <= q < answers.len() && #[trigger] shows_kept(raw, answers[q], k) implies is_there(r, all[k].key()) by {
        let h = shown_is_hit(raw, g, answers, q, k);
        assert(is_there(r, hs[h].0.key()));
    }
}
pub open spec fn was_hit<'b>(hs: Seq<(&'b Product<'b>, f32)>, p: &'b Product<'b>) -> bool { exists|h: int| 0 <= h < hs.len() && (#[trigger] hs[h]).0 == p }
pub open spec fn is_there<'b>(r: Seq<(&'b Product<'b>, f32)>, id: String) -> bool { exists|i: int| 0 <= i < r.len() && (#[trigger] r[i]).0.key() == id }
pub proof fn found_through<'b, const N: usize>(g: &GramIndex<'b, char, Product<'b>, N>, query: Seq<char>, r: Seq<(&'b Product<'b>, f32)>) -> (answers: Seq<Option<([char; N], f32)>>)
    requires g.found(query, r)
    ensures
        answers.len() == query.len(), answered(g, query, answers),
        forall|i: int, j: int| 0 <= i < j < r.len() ==> (#[trigger] r[i]).0.key() != (#[trigger] r[j]).0.key(),
        forall|i: int| 0 <= i < r.len() ==> was_hit(hits(g, answers), (#[trigger] r[i]).0),
        forall|h: int| 0 <= h < hits(g, answers).len() ==> is_there(r, (#[trigger] hits(g, answers)[h]).0.key()),
{
    let answers = choose|answers: Seq<Option<([char; N], f32)>>| answers.len() == query.len() && #[trigger] answered(g, query, answers)
            && ranked::<String, Product>(tally::<String, Product>(hits(g, answers)), r);
    each_product_once::<String, Product>(hits(g, answers), r);
    assert forall|i: int| 0 <= i < r.len() implies was_hit(hits(g, answers), (#[trigger] r[i]).0) by { }
    assert forall|h: int| 0 <= h < hits(g, answers).len() implies is_there(r, (#[trigger] hits(g, answers)[h]).0.key()) by { }
    answers
}
pub proof fn all_held<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'b, char, Product<'b>, N>, query: Seq<char>, answers: Seq<Option<([char; N], f32)>>, r: Seq<(&'b Product<'b>, f32)>)
    requires ready(raw, g), answered(&g, query, answers), answers.len() == query.len(), 0 < N,
        forall|i: int| 0 <= i < r.len() ==> was_hit(hits(&g, answers), (#[trigger] r[i]).0),
    ensures forall|i: int| 0 <= i < r.len() ==> held(raw, g, query, (#[trigger] r[i]).0)
{
    assert forall|i: int| 0 <= i < r.len() implies held(raw, g, query, (#[trigger] r[i]).0) by {
        let h = choose|h: int| 0 <= h < hits(&g, answers).len() && (#[trigger] hits(&g, answers)[h]).0 == r[i].0;
        hit_held(raw, g, query, answers, h);
    }
}
pub proof fn shown_is_hit<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'b, char, Product<'b>, N>, answers: Seq<Option<([char; N], f32)>>, q: int, k: int) -> (h: int)
    requires ready(raw, g), 0 <= q < answers.len(), shows_kept(raw, answers[q], k)
    ensures 0 <= h < hits(&g, answers).len(), hits(&g, answers)[h].0 == &g.product_container.products@[k]
{
    let all = g.product_container.products@;
    let (w, conf) = answers[q]->0;
    let ks = places(grams_shown(raw_texts(raw), N as nat), w@);
    let i = choose|i: int| 0 <= i < ks.len() && ks[i] == k;
    assert(g.data@.contains_key(w));
    assert(g.data@[w]@ == picked_from(refs(all), ks));
    assert(picked_from(refs(all), ks)[i] == refs(all)[k]);
    places_show(raw_texts(raw), N as nat, w@, k);
    hit_of(&g, answers, q, i)
}
/// The answer lists this product: it shows the gram matched, which is in at most four fifths of the products.
pub open spec fn shows_kept<'x, const N: usize>(raw: Seq<RawProduct<'x>>, a: Option<([char; N], f32)>, k: int) -> bool {
    a matches Some((w, conf)) && places(grams_shown(raw_texts(raw), N as nat), w@).contains(k) && shown_by(raw_texts(raw), w@, N as nat) <= 4 * raw.len() / 5
}
pub proof fn hit_of<'a, G: GramAtom, Data: Ord, const N: usize>(index: &GramIndex<'a, G, Data, N>, answers: Seq<Option<([G; N], f32)>>, q: int, i: int) -> (h: int)
    requires 0 <= q < answers.len(), answers[q] matches Some((w, c)) && index.data@.contains_key(w) && 0 <= i < index.data@[w]@.len()
    ensures 0 <= h < hits(index, answers).len(), hits(index, answers)[h].0 == index.data@[(answers[q]->0).0]@[i]
    decreases answers.len()
{
    let a0 = answers.drop_last();
    if q == answers.len() - 1 {
        let l = listed(index, answers.last());
        assert(l[i].0 == index.data@[(answers[q]->0).0]@[i]);
        hits(index, a0).len() + i
    } else { hit_of(index, a0, q, i) }
}
/// How many texts show a gram.
pub open spec fn shown_by<G>(ts: Seq<Seq<G>>, w: Seq<G>, n: nat) -> nat { places(grams_shown(ts, n), w).to_set().len() }
