// ---- from a raw catalogue to the saved index ------------------------------------------------------
/// `chars()`
pub trait Chars { spec fn cs(&self) -> Seq<char>; fn all_chars(&self) -> (r: It<char>) ensures rem(&r) == self.cs(); }
impl Chars for str { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn all_chars(&self) -> (r: It<char>) { unimplemented!() } }
impl Chars for String { open spec fn cs(&self) -> Seq<char> { self@ } #[verifier::external_body] fn all_chars(&self) -> (r: It<char>) { unimplemented!() } }
impl<T> It<T> {
    /// `flat_map`
    #[verifier::external_body]
    pub fn flat_map<U, F: Fn(T) -> It<U>>(self, f: F) -> (r: It<U>)
        requires forall|i: int| 0 <= i < rem(&self).len() ==> call_requires(f, (#[trigger] rem(&self)[i],))
        ensures exists|parts: Seq<It<U>>| #[trigger] flat_parts(rem(&self), parts, f) && rem(&r) == parts.map_values(|p: It<U>| rem(&p)).flatten()
    { unimplemented!() }
}
pub open spec fn flat_parts<T, U, F: Fn(T) -> It<U>>(xs: Seq<T>, parts: Seq<It<U>>, f: F) -> bool {
    parts.len() == xs.len() && forall|i: int| 0 <= i < xs.len() ==> call_ensures(f, (xs[i],), #[trigger] parts[i])
}
impl It<char> {
    /// `flat_map(char::to_lowercase)`
    #[verifier::external_body]
    pub fn lowered(self) -> (r: It<char>)
        ensures rem(&r) == lower(rem(&self))
    { unimplemented!() }
}
/// The text of a product: description, title and vendor, in lower case.
pub open spec fn text_of(p: &Product) -> Seq<char> { lower(p.description@ + p.title@ + p.vendor.name@) }
pub open spec fn texts_of(ps: Seq<Product>) -> Seq<Seq<char>> { ps.map_values(|p: Product| text_of(&p)) }
pub open spec fn raw_texts<'x>(raw: Seq<RawProduct<'x>>) -> Seq<Seq<char>> { raw.map_values(|r: RawProduct<'x>| lower(r.description@ + r.title@ + r.vendor@)) }
pub proof fn all_text<'a, F: Fn(&'a String) -> It<char>>(xs: Seq<&'a String>, r: Seq<char>, f: F)
    requires exists|parts: Seq<It<char>>| #[trigger] flat_parts(xs, parts, f) && r == parts.map_values(|p: It<char>| rem(&p)).flatten(),
        forall|x: &'a String, o: It<char>| #[trigger] call_ensures(f, (x,), o) ==> rem(&o) == x@
    ensures r == xs.map_values(|x: &'a String| x@).flatten()
{
    let parts = choose|parts: Seq<It<char>>| #[trigger] flat_parts(xs, parts, f) && r == parts.map_values(|p: It<char>| rem(&p)).flatten();
    assert(parts.map_values(|p: It<char>| rem(&p)) =~= xs.map_values(|x: &'a String| x@));
}
pub proof fn three_parts(a: Seq<char>, b: Seq<char>, c: Seq<char>, s: Seq<Seq<char>>)
    requires s =~= seq![a, b, c]
    ensures s.flatten() == a + b + c
{
    assert(s == seq![a, b, c]);
    reveal_with_fuel(Seq::flatten, 4);
    assert(s.drop_first() =~= seq![b, c]);
    assert(seq![b, c].drop_first() =~= seq![c]);
    assert(seq![c].drop_first() =~= Seq::<Seq<char>>::empty());
    assert(s.flatten() =~= a + b + c);
}
/// What a catalogue is indexed as.
pub open spec fn made<'x, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>) -> bool {
    &&& made_from(raw, g.product_container)
    &&& classified(raw, g.product_container, c)
    &&& gram_lists(g.data@, raw_texts(raw), refs(g.product_container.products@), (4 * raw.len() / 5) as int)
    &&& trees(g.roots@, raw_texts(raw), N as nat)
}
pub open spec fn saves<'x, const N: usize>(raw: Seq<RawProduct<'x>>, b: Seq<u8>) -> bool {
    exists|g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>| #[trigger] made(raw, g, c) && <WholeRows<'static, char, N>>::enc((g.rows(), c.rows()), b)
}
pub proof fn products_apart(ps: Seq<Product<'static>>)
    requires forall|i: int| 0 <= i < ps.len() ==> (#[trigger] ps[i]).serialization_id == i
    ensures apart(refs(ps))
{ }
/*@fn lib.rs :: fn index_and_serialize_with_n
@opt ret = r
@bind ( $input : Vec < RawProduct > , $super : & 'static SuperAlloc , )
@sub ( $input : Vec < RawProduct > , ==> ($input: Vec<RawProduct<'_>>,
@sub Result < Vec < u8 > , Box < dyn std :: error :: Error > > ==> Result<Vec<u8>, ()>
@sub? println ! ( $$x ) ; ==> 
@bind let ( $prods , $classic ) = optimize (
@bind let $iter = $prods2 . products . iter ( )
@bind let $index : GramIndex < char
@sub? . products . iter ( ) . map ( | $p | { $$body } ) ; ==> .products_it().map(|$p: &'static Product<'static>| -> (o: IndexFeed<'static, char, Product<'static>>) ensures o.data == $p, rem(&o.grams) == text_of($p) { $$body });
@sub? [ $$xs ] . into_iter ( ) . flat_map ( | $s | $$b ) ==> { let three = array_it([$$xs]); let ghost xs = rem(&three); let f = |$s: &String| -> (o: It<char>) ensures rem(&o) == $s@ { $$b }; let all = three.flat_map(f); proof { all_text(xs, rem(&all), f); if xs.len() == 3 { three_parts(xs[0]@, xs[1]@, xs[2]@, xs.map_values(|x: &String| x@)); } } all }
@sub? . flat_map ( char :: to_lowercase ) ==> .lowered()
@sub? . chars ( ) ==> .all_chars()
@spec
    requires 0 < N < 765, priced($input@), said_by(options_in($input@)).len() <= usize::MAX, $input@.len() < 0x40_0000, letters(raw_texts($input@)) <= u32::MAX,
    ensures r matches Ok(b) && saves::<N>($input@, b@),
@start
    let ghost raw = $input@;
@before let arena = Arena
    proof {
        let fs = rem(&$iter);
        assert(feed_texts(fs) =~= raw_texts(raw)) by {
            assert forall|i: int| 0 <= i < raw.len() implies feed_texts(fs)[i] == #[trigger] raw_texts(raw)[i] by { assert(product_of(raw[i], $prods.products@[i], i, &$prods.vendors)); assert(fs[i].data == &$prods.products@[i]); }
        }
        assert(items_of(fs) =~= refs($prods.products@));
        assert forall|i: int| 0 <= i < raw.len() implies (#[trigger] $prods.products@[i]).serialization_id == i by { }
        products_apart($prods.products@);
    }
@after let $out = serialize_all ( $$a ) ;
    proof { assert(made(raw, $index, $classic)); }
@*/
/*@fn lib.rs :: fn index_and_serialize
@opt ret = r
@bind ( $input : Vec < RawProduct > , $super : & 'static SuperAlloc , )
@sub ( $input : Vec < RawProduct > , ==> ($input: Vec<RawProduct<'_>>,
@sub Result < Vec < u8 > , Box < dyn std :: error :: Error > > ==> Result<Vec<u8>, ()>
@spec
    requires priced($input@), said_by(options_in($input@)).len() <= usize::MAX, $input@.len() < 0x40_0000, letters(raw_texts($input@)) <= u32::MAX,
    ensures r matches Ok(b) && saves::<5>($input@, b@),
@*/

// ---- an indexed catalogue is what saving, loading and searching rely on -----------------------------

pub proof fn table_is<'a, G: GramAtom>(list: Seq<&'a GramNode<'a, G>>)
    requires forall|i: int, j: int| 0 <= i < j < list.len() ==> (#[trigger] list[i]).item != (#[trigger] list[j]).item
    ensures
        forall|g: G| #[trigger] table(list).contains_key(g) <==> exists|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g,
        forall|i: int| 0 <= i < list.len() ==> table(list)[(#[trigger] list[i]).item] == list[i],
    decreases list.len()
{
    if list.len() > 0 {
        let l = list.drop_last();
        assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).item != (#[trigger] l[j]).item by { assert(list[i].item != list[j].item); }
        table_is(l);
        assert forall|g: G| #[trigger] table(list).contains_key(g) <==> exists|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g by {
            if table(l).contains_key(g) { let i = choose|i: int| 0 <= i < l.len() && (#[trigger] l[i]).item == g; assert(list[i].item == g); }
            if exists|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g { let i = choose|i: int| 0 <= i < list.len() && (#[trigger] list[i]).item == g; if i < l.len() { assert(l[i].item == g); } }
        }
        assert forall|i: int| 0 <= i < list.len() implies table(list)[(#[trigger] list[i]).item] == list[i] by {
            if i < l.len() { assert(l[i].item == list[i].item); assert(list[i].item != list[list.len() - 1].item); }
        }
    }
}
/// Children are found by their character in the whole tree.
pub proof fn grown_linked<'a, G: GramAtom>(node: &'a GramNode<'a, G>, p: Seq<G>, above: nat, ts: Seq<Seq<G>>, n: nat)
    requires node_grown(node, p, above, count_in(ts, Seq::empty(), n), n), p.len() <= n
    ensures linked(*node)
    decreases n - p.len(), 1nat
{
    let c = count_in(ts, Seq::empty(), n);
    let bs = node.by_occurances@;
    table_is(bs);
    assert forall|g: G| #[trigger] node.items@.contains_key(g) <==> table(bs).contains_key(g) by {
        if node.items@.contains_key(g) {
            let i = choose|i: int| 0 <= i < bs.len() && bs[i] == node.items@[g];
            assert(bs[i].item == g);
        }
        if table(bs).contains_key(g) { let i = choose|i: int| 0 <= i < bs.len() && (#[trigger] bs[i]).item == g; assert(bs.contains(bs[i])); }
    }
    assert forall|g: G| #[trigger] node.items@.contains_key(g) implies node.items@[g] == table(bs)[g] by {
        let i = choose|i: int| 0 <= i < bs.len() && bs[i] == node.items@[g];
        assert(bs[i].item == g);
    }
    assert(node.items@ =~= table(bs));
    if p.len() == n {
        if bs.len() > 0 { assert(bs.contains(bs[0])); assert(c(p.push(bs[0].item)) > 0); assert(p.push(bs[0].item).len() == n + 1); }
        assert(bs.len() == 0);
    } else {
        grown_linkeds(node, p, above, ts, n, bs.len());
    }
}
pub proof fn grown_linkeds<'a, G: GramAtom>(node: &'a GramNode<'a, G>, p: Seq<G>, above: nat, ts: Seq<Seq<G>>, n: nat, k: nat)
    requires node_grown(node, p, above, count_in(ts, Seq::empty(), n), n), p.len() < n, k <= node.by_occurances@.len()
    ensures linkeds(node.by_occurances, k)
    decreases n - p.len(), 0nat, k
{
    let c = count_in(ts, Seq::empty(), n);
    if k > 0 {
        grown_linkeds(node, p, above, ts, n, (k - 1) as nat);
        let x = node.by_occurances@[k - 1];
        assert(node.by_occurances@.contains(x));
        assert(p.push(x.item).len() == p.len() + 1);
        grown_linked(x, p.push(x.item), c(p), ts, n);
    }
}
pub proof fn listed_within<'a>(all: Seq<Product<'a>>, ks: Seq<int>, l: Seq<&'a Product<'a>>)
    requires l.to_multiset() == picked_from(refs(all), ks).to_multiset(), forall|i: int| 0 <= i < ks.len() ==> 0 <= #[trigger] ks[i] < all.len(),
        forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).serialization_id == i
    ensures ids_within(ids_of(l), all.len())
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let s = picked_from(refs(all), ks);
    assert forall|i: int| 0 <= i < l.len() implies (#[trigger] ids_of(l)[i]) < all.len() by {
        assert(l.to_multiset().count(l[i]) > 0);
        assert(s.contains(l[i]));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == l[i];
        assert(0 <= ks[j] < all.len());
        assert(all[ks[j]].serialization_id == ks[j]);
    }
}
pub proof fn index_ok<'x, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>)
    requires made(raw, g, c), N > 0
    ensures g.ok()
{
    let all = g.product_container.products@;
    let vs = g.product_container.vendors;
    let n = N as nat;
    assert forall|k: int| 0 <= k < all.len() implies (#[trigger] all[k]).serialization_id == k && sold_by(&all[k], vs.by_id@) by { assert(product_of(raw[k], all[k], k, &vs)); }
    let ts = raw_texts(raw);
    let h = grams_shown(ts, n);
    shown_rises(ts, n);
    assert forall|k: [char; N]| #[trigger] g.data@.contains_key(k) implies ids_within(ids_of(g.data@[k]@), all.len()) by {
        places_rise(h, k@, ts.len() as int);
        listed_within(all, places(h, k@), g.data@[k]@);
    }
    assert forall|k: char| #[trigger] g.roots@.contains_key(k) implies linked(*g.roots@[k]) by { grown_linked(g.roots@[k], seq![k], letters(ts), ts, n); }
}
pub proof fn totals_agree<'a>(cs: CategoryIndex<'a>, k: int)
    requires 0 <= k <= cs.0@.len()
    ensures counted(cs.rows().take(k)) == total(cs.0@, k)
    decreases k
{
    if k > 0 {
        totals_agree(cs, k - 1);
        assert(cs.rows().take(k).drop_last() =~= cs.rows().take(k - 1));
        assert(cs.rows().take(k).last() == cs.0@[k - 1].m());
    }
}
pub proof fn positions_within<'a>(ps: Seq<&'a Product<'a>>, at: Seq<int>, all: Seq<Product<'a>>)
    requires are_at(ps, at, all), forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).serialization_id == i
    ensures ids_within(ids_of(ps), all.len()), forall|x: usize| #[trigger] ids_of(ps).contains(x) <==> at.contains(x as int)
{
    assert forall|i: int| 0 <= i < ps.len() implies (#[trigger] ids_of(ps)[i]) == at[i] && at[i] < all.len() by { assert(*ps[i] == all[at[i]]); assert(all[at[i]].serialization_id == at[i]); }
    assert forall|x: usize| #[trigger] ids_of(ps).contains(x) <==> at.contains(x as int) by {
        if ids_of(ps).contains(x) { let i = choose|i: int| 0 <= i < ids_of(ps).len() && ids_of(ps)[i] == x; assert(at[i] == x); }
        if at.contains(x as int) { let i = choose|i: int| 0 <= i < at.len() && at[i] == x; assert(ids_of(ps)[i] == x); }
    }
}
pub proof fn classic_ok<'x, const N: usize>(raw: Seq<RawProduct<'x>>, g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>)
    requires made(raw, g, c)
    ensures c.ok(raw.len())
{
    let all = g.product_container.products@;
    let cs = c.categories.0@;
    let ev = said_by(options_in(raw));
    assert forall|i: int| 0 <= i < all.len() implies (#[trigger] all[i]).serialization_id == i by { assert(product_of(raw[i], all[i], i, &g.product_container.vendors)); }
    assert forall|k: int| 0 <= k < cs.len() implies (#[trigger] cs[k]).ok(raw.len(), counted(c.categories.rows().take(k)) as int) by {
        totals_agree(c.categories, k);
        assert(cs[k].says(ev, all));
        assert forall|j: int| 0 <= j < cs[k].options@.len() implies (#[trigger] cs[k].options@[j]).ok(raw.len(), total(cs, k) + j) by {
            let o = cs[k].options@[j];
            let at = firsts(holders(ev, cs[k].name@, o.name@));
            assert(o.at(at, all));
            positions_within(o.content@, at, all);
        }
    }
    assert forall|k: int| 0 <= k < c.tags.0@.len() implies (#[trigger] c.tags.0@[k]).ok(raw.len(), k) by {
        let t = c.tags.0@[k];
        let ids = ids_of(t.products@);
        assert forall|i: int| 0 <= i < ids.len() implies (#[trigger] ids[i]) < raw.len() by {
            assert(ids.contains(ids[i]));
            assert(t.products_by_serialization_id@.contains(ids[i]));
            assert(carries(tags_in(raw), ids[i] as int, t.name@));
        }
    }
}
/// P08 for every catalogue: what it was indexed as is what loading gives, and saving that writes the same data again.
pub proof fn catalogue_survives<'x, 'b, const N: usize>(raw: Seq<RawProduct<'x>>, b: Seq<u8>, t: Seq<u8>, r: Option<(GramIndex<'b, char, Product<'b>, N>, ClassicIndexes<'b>)>)
    requires saves::<N>(raw, b), all_loaded(b + t, r), N > 0
    ensures r matches Some((g2, c2)) && exists|g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>| #[trigger] made(raw, g, c)
        && same_gram(g, g2) && same_classic(g2.product_container.products@, c, c2) && g2.rows() == g.rows() && c2.rows() == c.rows()
{
    let (g, c) = choose|g: GramIndex<'static, char, Product<'static>, N>, c: ClassicIndexes<'static>| #[trigger] made(raw, g, c) && <WholeRows<'static, char, N>>::enc((g.rows(), c.rows()), b);
    index_ok(raw, g, c);
    classic_ok(raw, g, c);
    whole_survives(g, c, b, t, r);
}
