// ---- saved lists of products ----------------------------------------------------------------

/// The ids as they are stored.
pub open spec fn in_order(s: Seq<usize>) -> Seq<nat> { choose|m: Seq<nat>| sorted_ids(s, m) }
pub proof fn one_order(a: Seq<nat>, b: Seq<nat>)
    requires ascending(a), ascending(b), a.to_multiset() == b.to_multiset()
    ensures a == b
{
    let leq = |x: nat, y: nat| x <= y;
    vstd::seq_lib::lemma_sorted_unique(a, b, leq);
}
pub proof fn in_order_is(s: Seq<usize>, m: Seq<nat>)
    requires sorted_ids(s, m)
    ensures m == in_order(s)
{ one_order(m, in_order(s)); }
/// Ids already in order stay as they are.
pub proof fn in_order_twice(s: Seq<usize>)
    requires ascending(nats(s))
    ensures in_order(s) == nats(s)
{ in_order_is(s, nats(s)); }
pub proof fn ids_put(s: Seq<usize>, o1: Seq<u8>, o2: Seq<u8>)
    requires emitted_ids(s, o1, o2)
    ensures emitted::<Ids>(in_order(s), o1, o2)
{
    let m = choose|m: Seq<nat>| #[trigger] sorted_ids(s, m) && emitted::<Ids>(m, o1, o2);
    in_order_is(s, m);
}
/// The same ids, in whatever order.
pub proof fn in_order_has(s: Seq<usize>, m: Seq<nat>)
    requires sorted_ids(s, m)
    ensures m.len() == s.len(), forall|x: usize| #[trigger] m.contains(x as nat) <==> s.contains(x)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let n = nats(s);
    assert(m.to_multiset().len() == m.len() && n.to_multiset().len() == n.len());
    assert forall|x: usize| #[trigger] m.contains(x as nat) <==> s.contains(x) by {
        assert(m.contains(x as nat) <==> m.to_multiset().count(x as nat) > 0);
        assert(n.contains(x as nat) <==> n.to_multiset().count(x as nat) > 0);
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(n[i] == x as nat); }
        if n.contains(x as nat) { let i = choose|i: int| 0 <= i < n.len() && n[i] == x as nat; assert(s[i] == x); }
    }
}
/// The products at these positions.
pub open spec fn taken<'a>(all: Seq<Product<'a>>, at: Seq<nat>, ps: Seq<&'a Product<'a>>) -> bool {
    ps.len() == at.len() && forall|i: int| 0 <= i < at.len() ==> (#[trigger] at[i]) < all.len() && ps[i] == &all[at[i] as int]
}
pub open spec fn within(at: Seq<nat>, n: nat) -> bool { forall|i: int| 0 <= i < at.len() ==> (#[trigger] at[i]) < n }
pub open spec fn set_is(s: Set<usize>, at: Seq<nat>) -> bool { forall|x: usize| #[trigger] s.contains(x) <==> at.contains(x as nat) }
/// What loading a list of products makes of it.
pub proof fn taken_set<'a>(all: Seq<Product<'a>>, ids: Seq<usize>, ps: Seq<&'a Product<'a>>)
    requires picked(all, ids, ps)
    ensures taken(all, nats(ids), ps), set_is(ids.to_set(), nats(ids))
{
    assert forall|i: int| 0 <= i < nats(ids).len() implies (#[trigger] nats(ids)[i]) < all.len() && ps[i] == &all[nats(ids)[i] as int] by { assert(ids[i] < all.len()); }
    assert forall|x: usize| #[trigger] ids.to_set().contains(x) <==> nats(ids).contains(x as nat) by {
        if ids.contains(x) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == x; assert(nats(ids)[i] == x as nat); }
        if nats(ids).contains(x as nat) { let i = choose|i: int| 0 <= i < ids.len() && nats(ids)[i] == x as nat; assert(ids[i] == x); }
    }
}
/// The item a loop stopped at is in its place in any complete reading of the run.
pub proof fn item_refused<T: DecSpec>(i0: Seq<u8>, n: nat, seen: Seq<T::M>, input: Seq<u8>, left: nat)
    requires len_loop::<T>(i0, n, seen, input, left), left > 0
    ensures dec_len::<T>(i0) matches Dec::Ok(all, k) ==> (T::dec(input) matches Dec::Ok(m, j) && seen.len() < all.len() && all[seen.len() as int] == m)
{
    if let Dec::Ok(all, k) = dec_len::<T>(i0) {
        if let Dec::Ok(m, j) = T::dec(input) {
            if let Dec::Ok(ms, k2) = dec_n::<T>((left - 1) as nat, input.skip(j as int)) {
                let rest = seq![m] + ms;
                assert(Seq::<T::M>::empty() + (seen + rest) =~= seen + rest);
                assert(all == seen + rest);
                assert(all[seen.len() as int] == m);
            }
        }
    }
}

// ---- categories -------------------------------------------------------------------------------
pub type OptionRow = (String, Ids);
pub type CategoryRow = (bool, (String, Vec<OptionRow>));
pub type OptionData = (Seq<char>, Seq<nat>);
pub type CategoryData = (bool, (Seq<char>, Seq<OptionData>));
impl<'a> CategoryOption<'a> {
    pub open spec fn row(&self) -> OptionData { (self.name@, in_order(ids_of(self.content@))) }
    /// As read from this row.
    pub open spec fn read(&self, all: Seq<Product<'a>>, row: OptionData, number: int) -> bool {
        self.name@ == row.0 && taken(all, row.1, self.content@) && set_is(self.products_by_serialization_id@, row.1) && self.serialization_id == number
    }
}
impl<'a> Category<'a> {
    pub open spec fn options_row(&self) -> Seq<OptionData> { self.options@.map_values(|o: CategoryOption<'a>| o.row()) }
    pub open spec fn read(&self, all: Seq<Product<'a>>, row: CategoryData, from: int) -> bool {
        &&& self.exclusive == row.0 && self.name@ == row.1.0 && self.options@.len() == row.1.1.len()
        &&& forall|k: int| 0 <= k < self.options@.len() ==> (#[trigger] self.options@[k]).read(all, row.1.1[k], from + k)
    }
}
pub open spec fn options_within(os: Seq<OptionData>, n: nat) -> bool { forall|k: int| 0 <= k < os.len() ==> within((#[trigger] os[k]).1, n) }
impl<'a> Enc for Category<'a> {
    type M = CategoryData;
    open spec fn m(&self) -> CategoryData { (self.exclusive, (self.name@, self.options_row())) }
    open spec fn enc(m: CategoryData, b: Seq<u8>) -> bool { CategoryRow::enc(m, b) }
}
/*@head classic_indexes/categorical.rs :: impl<'a> Serializable for Category<'a> @*/ {
/*@fn classic_indexes/categorical.rs :: impl<'a> Serializable for Category<'a> :: fn serialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind $ex . serialize ( $outparam ) ; $nm . serialize ( $outparam ) ; $os . len ( ) . serialize ( $outparam ) ; for $o in
@bind $o . name . serialize ( $outparam ) ;
@start
    let ghost o0 = $outparam.out();
    let ghost ms = self.options_row();
@after $ex . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
@after $nm . serialize ( $outparam ) ;
    let ghost o2 = $outparam.out();
@after $os . len ( ) . serialize ( $outparam ) ;
    let ghost o3 = $outparam.out();
    proof { wrote_none::<OptionRow>(o3); assert(ms.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == refs(self.options@), wrote::<OptionRow>(ms.take(it.index@), o3, $outparam.out()),
@in 1
    let ghost o4 = $outparam.out();
@after $o . name . serialize ( $outparam ) ;
    let ghost o5 = $outparam.out();
@endin 1
    proof {
        assert(ms[it.index@] == $o.row());
        ids_put(ids_of($o.content@), o5, $outparam.out());
        emitted_pair::<String, Ids>($o.name@, in_order(ids_of($o.content@)), o4, o5, $outparam.out());
        wrote_step::<OptionRow>(ms.take(it.index@), o3, o4, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof {
        let o9 = $outparam.out();
        assert(ms.take(ms.len() as int) =~= ms);
        wrote_done::<OptionRow>(ms, o2, o3, o9);
        assert(emitted::<Vec<OptionRow>>(ms, o2, o9));
        emitted_pair::<String, Vec<OptionRow>>(self.name@, ms, o1, o2, o9);
        emitted_pair::<bool, (String, Vec<OptionRow>)>(self.exclusive, (self.name@, ms), o0, o1, o9);
    }
@*/
}
/// c is what these bytes say, with rest left over.
pub open spec fn category_read<'a>(i: Seq<u8>, rest: Seq<u8>, c: Category<'a>, all: Seq<Product<'a>>, from: int) -> bool {
    exists|row: CategoryData| decoded(CategoryRow::dec(i), i, Some((rest, row))) && #[trigger] c.read(all, row, from)
}
/// They name a product that is not there, or are no category.
pub open spec fn category_refused(i: Seq<u8>, n: nat) -> bool { match CategoryRow::dec(i) { Dec::Ok(x, k) => !options_within(x.1.1, n), _ => true } }
impl<'a> Category<'a> {
/*@fn classic_indexes/categorical.rs :: impl<'a> Category<'a> :: fn deserialize
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)] #[verifier::rlimit(40)] #[verifier::spinoff_prover]
@bind ( $arg : & 'i [ u8 ] , $all : & 'a [ Product < 'a > ] , $next : & mut usize , )
@bind let ( mut $input , $len ) = usize :: deserialize ( $src ) ?
@bind let ( $in1 , $ex ) = bool :: deserialize ( $argx ) ? ; let ( $in2x , $nm ) = String :: deserialize
@bind let mut $options = Vec
@bind let ( $na , $name ) = String :: deserialize ( $input ) ? ; let ( $new , $ps , $ids ) =
@sub? let mut $options = Vec :: with_capacity ( $$cap ) ==> let mut $options: Vec<CategoryOption<'a>> = vec_capped($$cap, Ghost(i0.len()))
@sub? $ids . into_iter ( ) . collect ( ) ==> set_of(vec_it($ids))
@spec
    requires *old($next) + $arg@.len() <= usize::MAX,
    ensures
        r matches Some((rest, c)) ==> category_read($arg@, rest@, c, $all@, *old($next) as int),
        r is None ==> category_refused($arg@, $all@.len()),
        r matches Some((rest, c)) ==> *final($next) == *old($next) + c.options@.len() && c.options@.len() + rest@.len() <= $arg@.len(),
@start
    let ghost from = *$next;
    let ghost a0 = $arg@;
    let ghost mut seen: Seq<OptionData> = Seq::empty();
    proof {
        pair_steps::<bool, (String, Vec<OptionRow>)>();
        pair_steps::<String, Vec<OptionRow>>();
        pair_steps::<String, Ids>();
    }
@before let ( $in2 , $nmx ) = String :: deserialize ( $in1 )
    let ghost i1 = $in1@;
@before let ( mut $inputx , $lenx ) = usize :: deserialize
    let ghost i0 = $src@;
@before for
    proof { len_loop_init::<OptionRow>(i0, $len as nat, $input@); }
@iter 1 it
@loop 1
    invariant
        len_loop::<OptionRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        $options@.len() == seen.len(), *$next == from + seen.len(), *$next + $input@.len() <= from + i0.len(),
        forall|k: int| 0 <= k < $options@.len() ==> (#[trigger] $options@[k]).read($all@, seen[k], from + k),
@in 1
    let ghost options1 = $options@;
    let ghost seen1 = seen;
    let ghost in1 = $input@;
    proof {
        len_loop_step::<OptionRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat);
        item_refused::<OptionRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat);
    }
@after $options . push ( $$o ) ;
    proof {
        let o = $options@.last();
        assert($options@ == options1.push(o));
        seen = seen1.push((o.name@, nats(ids1)));
        taken_set($all@, ids1, o.content@);
    }
@before let $numberx = * $next ;
    let ghost ids1 = $ids@;
@afterloop 1
    proof {
        len_loop_done::<OptionRow>(i0, $len as nat, seen, $input@);
        assert(decoded(<Vec<OptionRow>>::dec(i0), i0, Some(($input@, seen))));
        assert(decoded(<(String, Vec<OptionRow>)>::dec(i1), i1, Some(($input@, ($nm@, seen)))));
        assert(decoded(CategoryRow::dec(a0), a0, Some(($input@, ($ex, ($nm@, seen))))));
        let row = ($ex, ($nm@, seen));
        assert forall|c: Category<'a>| c.exclusive == $ex && c.name@ == $nm@ && c.options@ == $options@ implies #[trigger] category_read(a0, $input@, c, $all@, from as int) by { assert(c.read($all@, row, from as int)); }
    }
@*/
}
/// The number of options in these categories.
pub open spec fn counted(rows: Seq<CategoryData>) -> nat decreases rows.len() {
    if rows.len() == 0 { 0 } else { counted(rows.drop_last()) + rows.last().1.1.len() }
}
pub open spec fn categories_within(rows: Seq<CategoryData>, n: nat) -> bool { forall|k: int| 0 <= k < rows.len() ==> options_within((#[trigger] rows[k]).1.1, n) }
impl<'a> CategoryIndex<'a> {
    pub open spec fn rows(&self) -> Seq<CategoryData> { models(self.0@) }
    pub open spec fn read(&self, all: Seq<Product<'a>>, rows: Seq<CategoryData>) -> bool { read_all(self.0@, all, rows) }
}
/// Options are numbered in the order they are stored.
pub open spec fn read_all<'a>(cs: Seq<Category<'a>>, all: Seq<Product<'a>>, rows: Seq<CategoryData>) -> bool {
    cs.len() == rows.len() && forall|k: int| 0 <= k < cs.len() ==> (#[trigger] cs[k]).read(all, rows[k], counted(rows.take(k)) as int)
}
/// As a run of rows: what is written for categories is written for their rows.
pub proof fn category_rows<'a>(ms: Seq<CategoryData>, o1: Seq<u8>, o2: Seq<u8>)
    requires wrote_len::<Category<'a>>(ms, o1, o2)
    ensures wrote_len::<CategoryRow>(ms, o1, o2)
{
    let b = choose|b: Seq<u8>| enc_len::<Category<'a>>(ms, b) && o2 == #[trigger] (o1 + b);
    let body = choose|body: Seq<u8>| enc_n::<Category<'a>>(ms, body) && ms.len() <= usize::MAX && b == #[trigger] (varint(ms.len()) + body);
    let ps = choose|ps: Seq<Seq<u8>>| pieces::<Category<'a>>(ms, ps) && body == #[trigger] cat(ps);
    assert forall|i: int| 0 <= i < ms.len() implies #[trigger] CategoryRow::enc(ms[i], ps[i]) by { assert(<Category<'a>>::enc(ms[i], ps[i])); }
    assert(pieces::<CategoryRow>(ms, ps));
    assert(enc_n::<CategoryRow>(ms, body));
    assert(enc_len::<CategoryRow>(ms, b));
}
impl<'a> Enc for CategoryIndex<'a> {
    type M = Seq<CategoryData>;
    open spec fn m(&self) -> Seq<CategoryData> { self.rows() }
    open spec fn enc(m: Seq<CategoryData>, b: Seq<u8>) -> bool { <Vec<CategoryRow>>::enc(m, b) }
}
/*@head classic_indexes/categorical.rs :: impl Serializable for CategoryIndex<'_>
  @sub impl Serializable ==> impl<'a> Serializable
  @sub CategoryIndex < '_ > ==> CategoryIndex<'a>
@*/ {
/*@fn classic_indexes/categorical.rs :: impl Serializable for CategoryIndex<'_> :: fn serialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind self . 0 . len ( ) . serialize ( $outparam ) ; for $c in
@start
    let ghost o0 = $outparam.out();
    let ghost s = self.0@;
    let ghost ms = models(s);
@after self . 0 . len ( ) . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
    proof { wrote_none::<Category<'a>>(o1); assert(ms.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == refs(s), wrote::<Category<'a>>(ms.take(it.index@), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
@endin 1
    proof {
        wrote_step::<Category<'a>>(ms.take(it.index@), o1, o2, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof {
        assert(ms.take(ms.len() as int) =~= ms);
        wrote_done::<Category<'a>>(ms, o0, o1, $outparam.out());
        category_rows(ms, o0, $outparam.out());
    }
@*/
}
pub open spec fn categories_read<'a>(i: Seq<u8>, rest: Seq<u8>, c: CategoryIndex<'a>, all: Seq<Product<'a>>) -> bool {
    exists|rows: Seq<CategoryData>| decoded(<Vec<CategoryRow>>::dec(i), i, Some((rest, rows))) && #[trigger] c.read(all, rows)
}
pub open spec fn categories_refused(i: Seq<u8>, n: nat) -> bool { match <Vec<CategoryRow>>::dec(i) { Dec::Ok(x, k) => !categories_within(x, n), _ => true } }
impl<'a> CategoryIndex<'a> {
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryIndex<'a> :: fn deserialize_many
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)] #[verifier::rlimit(40)] #[verifier::spinoff_prover]
@bind ( $arg : & 'i [ u8 ] , $all : & 'a [ Product < 'a > ] , )
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $cats = Vec
@bind let mut $next = 0 ;
@sub? let mut $cats = Vec :: with_capacity ( $$cap ) ==> let mut $cats: Vec<Category<'a>> = vec_capped($$cap, Ghost(i0.len()))
@sub? let mut $next = 0 ==> let mut $next: usize = 0
@spec
    ensures
        r matches Some((rest, c)) ==> categories_read($arg@, rest@, c, $all@),
        r is None ==> categories_refused($arg@, $all@.len()),
@start
    assert(vstd::slice::spec_slice_len($arg) <= usize::MAX);
    let ghost i0 = $arg@;
    let ghost mut seen: Seq<CategoryData> = Seq::empty();
@before for
    proof { len_loop_init::<CategoryRow>(i0, $len as nat, $input@); }
@iter 1 it
@loop 1
    invariant
        len_loop::<CategoryRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        read_all($cats@, $all@, seen), $next == counted(seen), $next + $input@.len() <= i0.len(), i0.len() <= usize::MAX,
@in 1
    let ghost cats1 = $cats@;
    let ghost seen1 = seen;
    let ghost in1 = $input@;
    let ghost from = $next as int;
    proof {
        len_loop_step::<CategoryRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat);
        item_refused::<CategoryRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat);
    }
@endin 1
    proof {
        let c = $cats@.last();
        assert($cats@ == cats1.push(c));
        let row = choose|row: CategoryData| decoded(CategoryRow::dec(in1), in1, Some(($input@, row))) && #[trigger] c.read($all@, row, from);
        seen = seen1.push(row);
        assert(seen.drop_last() =~= seen1);
        assert forall|k: int| 0 <= k < $cats@.len() implies (#[trigger] $cats@[k]).read($all@, seen[k], counted(seen.take(k)) as int) by {
            if k < cats1.len() { assert(cats1[k].read($all@, seen1[k], counted(seen1.take(k)) as int)); assert(seen.take(k) =~= seen1.take(k)); }
            else { assert(seen.take(k) =~= seen1); }
        }
    }
@afterloop 1
    proof {
        len_loop_done::<CategoryRow>(i0, $len as nat, seen, $input@);
        assert forall|c: CategoryIndex<'a>| c.0@ == $cats@ implies #[trigger] categories_read(i0, $input@, c, $all@) by { assert(c.read($all@, seen)); }
    }
@*/
}

// ---- tags ----------------------------------------------------------------------------------------
pub type TagRow = (String, Ids);
pub open spec fn tags_within(rows: Seq<OptionData>, n: nat) -> bool { options_within(rows, n) }
impl<'a> Tag<'a> {
    pub open spec fn row(&self) -> OptionData { (self.name@, in_order(ids_of(self.products@))) }
    pub open spec fn read(&self, all: Seq<Product<'a>>, row: OptionData, number: int) -> bool {
        self.name@ == row.0 && taken(all, row.1, self.products@) && set_is(self.products_by_serialization_id@, row.1) && self.id == number
    }
}
impl<'a> Enc for Tag<'a> {
    type M = OptionData;
    open spec fn m(&self) -> OptionData { self.row() }
    open spec fn enc(m: OptionData, b: Seq<u8>) -> bool { TagRow::enc(m, b) }
}
/*@head classic_indexes/tag.rs :: impl<'a> Serializable for Tag<'a> @*/ {
/*@fn classic_indexes/tag.rs :: impl<'a> Serializable for Tag<'a> :: fn serialize
@bind $nm . serialize ( $outparam ) ; Product ::
@start
    let ghost o0 = $outparam.out();
@after $nm . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
@end
    proof {
        ids_put(ids_of(self.products@), o1, $outparam.out());
        emitted_pair::<String, Ids>(self.name@, in_order(ids_of(self.products@)), o0, o1, $outparam.out());
    }
@*/
}
pub proof fn tag_rows<'a>(ms: Seq<OptionData>, o1: Seq<u8>, o2: Seq<u8>)
    requires wrote_len::<Tag<'a>>(ms, o1, o2)
    ensures wrote_len::<TagRow>(ms, o1, o2)
{
    let b = choose|b: Seq<u8>| enc_len::<Tag<'a>>(ms, b) && o2 == #[trigger] (o1 + b);
    let body = choose|body: Seq<u8>| enc_n::<Tag<'a>>(ms, body) && ms.len() <= usize::MAX && b == #[trigger] (varint(ms.len()) + body);
    let ps = choose|ps: Seq<Seq<u8>>| pieces::<Tag<'a>>(ms, ps) && body == #[trigger] cat(ps);
    assert forall|i: int| 0 <= i < ms.len() implies #[trigger] TagRow::enc(ms[i], ps[i]) by { assert(<Tag<'a>>::enc(ms[i], ps[i])); }
    assert(pieces::<TagRow>(ms, ps));
    assert(enc_n::<TagRow>(ms, body));
    assert(enc_len::<TagRow>(ms, b));
}
pub open spec fn tags_read_all<'a>(ts: Seq<Tag<'a>>, all: Seq<Product<'a>>, rows: Seq<OptionData>) -> bool {
    ts.len() == rows.len() && forall|k: int| 0 <= k < ts.len() ==> (#[trigger] ts[k]).read(all, rows[k], k)
}
impl<'a> TagIndex<'a> {
    pub open spec fn rows(&self) -> Seq<OptionData> { models(self.0@) }
    pub open spec fn read(&self, all: Seq<Product<'a>>, rows: Seq<OptionData>) -> bool { tags_read_all(self.0@, all, rows) }
}
impl<'a> Enc for TagIndex<'a> {
    type M = Seq<OptionData>;
    open spec fn m(&self) -> Seq<OptionData> { self.rows() }
    open spec fn enc(m: Seq<OptionData>, b: Seq<u8>) -> bool { <Vec<TagRow>>::enc(m, b) }
}
/*@head classic_indexes/tag.rs :: impl<'a> Serializable for TagIndex<'a> @*/ {
/*@fn classic_indexes/tag.rs :: impl<'a> Serializable for TagIndex<'a> :: fn serialize
@start
    let ghost o0 = $outparam.out();
@end
    proof {
        assert(emitted::<Vec<Tag<'a>>>(models(self.0@), o0, $outparam.out()));
        tag_rows(models(self.0@), o0, $outparam.out());
    }
@*/
}
pub open spec fn tags_read<'a>(i: Seq<u8>, rest: Seq<u8>, t: TagIndex<'a>, all: Seq<Product<'a>>) -> bool {
    exists|rows: Seq<OptionData>| decoded(<Vec<TagRow>>::dec(i), i, Some((rest, rows))) && #[trigger] t.read(all, rows)
}
pub open spec fn tags_refused(i: Seq<u8>, n: nat) -> bool { match <Vec<TagRow>>::dec(i) { Dec::Ok(x, k) => !options_within(x, n), _ => true } }
impl<'a> TagIndex<'a> {
/*@fn classic_indexes/tag.rs :: impl<'a> TagIndex<'a> :: fn deserialize
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)] #[verifier::rlimit(40)] #[verifier::spinoff_prover]
@bind ( $arg : & 'i [ u8 ] , $all : & 'a [ Product < 'a > ] , )
@bind let ( $in0 , $len ) = usize :: deserialize
@bind let mut $input = $in0y ;
@bind let mut $tags = Vec
@bind let ( $na , $name ) = String :: deserialize ( $inputy ) ? ; let ( $new , $ps , $ids ) = $$call ? ;
@sub? let mut $tags = Vec :: with_capacity ( $$cap ) ==> let mut $tags: Vec<Tag<'a>> = vec_capped($$cap, Ghost(i0.len()))
@sub? $ids . into_iter ( ) . collect ( ) ==> set_of(vec_it($ids))
@spec
    ensures
        r matches Some((rest, t)) ==> tags_read($arg@, rest@, t, $all@),
        r is None ==> tags_refused($arg@, $all@.len()),
@start
    let ghost i0 = $arg@;
    let ghost mut seen: Seq<OptionData> = Seq::empty();
    proof { pair_steps::<String, Ids>(); }
@before for
    proof { len_loop_init::<TagRow>(i0, $len as nat, $input@); }
@iter 1 it
@loop 1
    invariant
        len_loop::<TagRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        tags_read_all($tags@, $all@, seen),
@in 1
    let ghost tags1 = $tags@;
    let ghost seen1 = seen;
    proof {
        len_loop_step::<TagRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat);
        item_refused::<TagRow>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat);
    }
@after let ( $newy , $psy , $idsy ) = $$cally ? ;
    let ghost ids1 = $ids@;
@after $tags . push ( $$t ) ;
    proof {
        let t = $tags@.last();
        assert($tags@ == tags1.push(t));
        seen = seen1.push((t.name@, nats(ids1)));
        taken_set($all@, ids1, t.products@);
        assert forall|k: int| 0 <= k < $tags@.len() implies (#[trigger] $tags@[k]).read($all@, seen[k], k) by {
            if k < tags1.len() { assert(tags1[k].read($all@, seen1[k], k)); }
        }
    }
@afterloop 1
    proof {
        len_loop_done::<TagRow>(i0, $len as nat, seen, $input@);
        assert forall|t: TagIndex<'a>| t.0@ == $tags@ implies #[trigger] tags_read(i0, $input@, t, $all@) by { assert(t.read($all@, seen)); }
    }
@*/
}

// ---- sort orders -----------------------------------------------------------------------------------
pub type Orders = AHashMap<String, Vec<usize>>;
pub type OrdersData = Map<Seq<char>, Seq<nat>>;
impl Enc for OrderIndex {
    type M = OrdersData;
    open spec fn m(&self) -> OrdersData { self.orders.m() }
    open spec fn enc(m: OrdersData, b: Seq<u8>) -> bool { Orders::enc(m, b) }
}
impl DecSpec for OrderIndex {
    open spec fn dec(i: Seq<u8>) -> Dec<OrdersData> { Orders::dec(i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) { Orders::law(m, b, t); }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) { Orders::law_short(m, b, k); }
    proof fn law_bound(i: Seq<u8>) { Orders::law_bound(i); }
}
/*@head classic_indexes/order.rs :: impl Serializable for OrderIndex @*/ {
/*@fn classic_indexes/order.rs :: impl Serializable for OrderIndex :: fn serialize
@*/
}
/*@head classic_indexes/order.rs :: impl Deserializable for OrderIndex @*/ {
/*@fn classic_indexes/order.rs :: impl Deserializable for OrderIndex :: fn deserialize
@sub? Deserializable :: deserialize ==> Orders::deserialize
@*/
}

// ---- the three together -------------------------------------------------------------------------------
pub type ClassicRows = (Vec<CategoryRow>, (Vec<TagRow>, Orders));
pub type ClassicData = (Seq<CategoryData>, (Seq<OptionData>, OrdersData));
impl<'a> ClassicIndexes<'a> {
    pub open spec fn rows(&self) -> ClassicData { (self.categories.rows(), (self.tags.rows(), self.order.m())) }
    pub open spec fn read(&self, all: Seq<Product<'a>>, rows: ClassicData) -> bool {
        self.categories.read(all, rows.0) && self.tags.read(all, rows.1.0) && self.order.m() == rows.1.1
    }
}
impl<'a> Enc for ClassicIndexes<'a> {
    type M = ClassicData;
    open spec fn m(&self) -> ClassicData { self.rows() }
    open spec fn enc(m: ClassicData, b: Seq<u8>) -> bool { ClassicRows::enc(m, b) }
}
/*@head classic_indexes/mod.rs :: impl<'a> Serializable for ClassicIndexes<'a> @*/ {
/*@fn classic_indexes/mod.rs :: impl<'a> Serializable for ClassicIndexes<'a> :: fn serialize
@bind self . $c . serialize ( $outparam ) ; self . $t . serialize ( $outparam ) ;
@start
    let ghost o0 = $outparam.out();
@after self . $c . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
@after self . $t . serialize ( $outparam ) ;
    let ghost o2 = $outparam.out();
@end
    proof {
        let o3 = $outparam.out();
        assert(emitted::<Vec<CategoryRow>>(self.categories.rows(), o0, o1));
        assert(emitted::<Vec<TagRow>>(self.tags.rows(), o1, o2));
        assert(emitted::<Orders>(self.order.m(), o2, o3));
        emitted_pair::<Vec<TagRow>, Orders>(self.tags.rows(), self.order.m(), o1, o2, o3);
        emitted_pair::<Vec<CategoryRow>, (Vec<TagRow>, Orders)>(self.categories.rows(), (self.tags.rows(), self.order.m()), o0, o1, o3);
    }
@*/
}
pub open spec fn classic_read<'a>(i: Seq<u8>, rest: Seq<u8>, c: ClassicIndexes<'a>, all: Seq<Product<'a>>) -> bool {
    exists|rows: ClassicData| decoded(ClassicRows::dec(i), i, Some((rest, rows))) && #[trigger] c.read(all, rows)
}
pub open spec fn classic_within(x: ClassicData, n: nat) -> bool { categories_within(x.0, n) && options_within(x.1.0, n) }
pub open spec fn classic_refused(i: Seq<u8>, n: nat) -> bool { match ClassicRows::dec(i) { Dec::Ok(x, k) => !classic_within(x, n), _ => true } }
pub proof fn classic_done<'a>(i: Seq<u8>, i1: Seq<u8>, i2: Seq<u8>, rest: Seq<u8>, c: ClassicIndexes<'a>, all: Seq<Product<'a>>)
    requires categories_read(i, i1, c.categories, all), tags_read(i1, i2, c.tags, all), decoded(Orders::dec(i2), i2, Some((rest, c.order.m())))
    ensures classic_read(i, rest, c, all)
{
    pair_steps::<Vec<CategoryRow>, (Vec<TagRow>, Orders)>();
    pair_steps::<Vec<TagRow>, Orders>();
    let a = choose|rows: Seq<CategoryData>| decoded(<Vec<CategoryRow>>::dec(i), i, Some((i1, rows))) && #[trigger] c.categories.read(all, rows);
    let b = choose|rows: Seq<OptionData>| decoded(<Vec<TagRow>>::dec(i1), i1, Some((i2, rows))) && #[trigger] c.tags.read(all, rows);
    let o = c.order.m();
    assert(decoded(<(Vec<TagRow>, Orders)>::dec(i1), i1, Some((rest, (b, o)))));
    assert(c.read(all, (a, (b, o))));
}
pub proof fn classic_stops<'a>(i: Seq<u8>, n: nat)
    ensures
        categories_refused(i, n) ==> classic_refused(i, n),
        forall|i1: Seq<u8>, c: CategoryIndex<'a>, all: Seq<Product<'a>>| #[trigger] categories_read(i, i1, c, all) ==> {
            &&& tags_refused(i1, n) ==> classic_refused(i, n)
            &&& forall|i2: Seq<u8>, t: TagIndex<'a>| #[trigger] tags_read(i1, i2, t, all) && decoded(Orders::dec(i2), i2, None) ==> classic_refused(i, n)
        },
{
    assert forall|i1: Seq<u8>, c: CategoryIndex<'a>, all: Seq<Product<'a>>| #[trigger] categories_read(i, i1, c, all) implies {
            &&& tags_refused(i1, n) ==> classic_refused(i, n)
            &&& forall|i2: Seq<u8>, t: TagIndex<'a>| #[trigger] tags_read(i1, i2, t, all) && decoded(Orders::dec(i2), i2, None) ==> classic_refused(i, n)
        } by {
        let a = choose|rows: Seq<CategoryData>| decoded(<Vec<CategoryRow>>::dec(i), i, Some((i1, rows))) && #[trigger] c.read(all, rows);
        assert forall|i2: Seq<u8>, t: TagIndex<'a>| #[trigger] tags_read(i1, i2, t, all) && decoded(Orders::dec(i2), i2, None) implies classic_refused(i, n) by {
            let b = choose|rows: Seq<OptionData>| decoded(<Vec<TagRow>>::dec(i1), i1, Some((i2, rows))) && #[trigger] t.read(all, rows);
        }
    }
}
impl<'a> ClassicIndexes<'a> {
/*@fn classic_indexes/mod.rs :: impl<'a> ClassicIndexes<'a> :: fn deserialize
@opt ret = r
@bind ( $arg : & 'i [ u8 ] , $data : & 'a ProductContainer < 'a > , )
@bind let ( $in1 , $cats ) = CategoryIndex :: deserialize_many
@bind let ( $in2 , $tags ) = TagIndex :: deserialize
@bind let ( $in3 , $order ) = OrderIndex :: deserialize
@spec
    ensures
        r matches Some((rest, c)) ==> classic_read($arg@, rest@, c, $data.products@),
        r is None ==> classic_refused($arg@, $data.products@.len()),
@start
    proof {
        classic_stops($arg@, $data.products@.len());
    }
    let ghost a0 = $arg@;
    let ghost all = $data.products@;
@before let ( $in2y , $tagsy ) = TagIndex :: deserialize
    let ghost i1 = $in1@;
@before let ( $in3y , $ordery ) = OrderIndex :: deserialize
    let ghost i2 = $in2@;
@before Some ( (
    proof {
        assert forall|c: ClassicIndexes<'a>| c.categories == $cats && c.tags == $tags && c.order == $order implies #[trigger] classic_read(a0, $in3@, c, all) by { classic_done(a0, i1, i2, $in3@, c, all); }
    }
@*/
}
