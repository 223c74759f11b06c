// ---- lists of ids: sorted, then stored as differences ------------------------------

pub open spec fn ascending(m: Seq<nat>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> m[i] <= m[j] }
pub open spec fn all_usize(m: Seq<nat>) -> bool { forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] <= usize::MAX }
pub open spec fn diffs(m: Seq<nat>) -> Seq<nat> {
    Seq::new(m.len(), |i: int| if i == 0 { m[0] } else { (m[i] - m[i - 1]) as nat })
}
pub open spec fn sum(d: Seq<nat>) -> nat decreases d.len() {
    if d.len() == 0 { 0 } else { sum(d.drop_last()) + d.last() }
}
/// What the differences add up to, step by step.
pub open spec fn sums(d: Seq<nat>) -> Seq<nat> { Seq::new(d.len(), |i: int| sum(d.take(i + 1))) }

pub proof fn sum_step(d: Seq<nat>, i: int)
    requires 0 <= i < d.len()
    ensures sum(d.take(i + 1)) == sum(d.take(i)) + d[i]
{
    assert(d.take(i + 1).drop_last() =~= d.take(i));
}
pub proof fn sums_diffs(m: Seq<nat>)
    requires ascending(m)
    ensures sums(diffs(m)) == m
{
    assert forall|i: int| 0 <= i < m.len() implies sum(diffs(m).take(i + 1)) == #[trigger] m[i] by { sums_diffs_at(m, i); }
    assert(sums(diffs(m)) =~= m);
}
pub proof fn sums_diffs_at(m: Seq<nat>, i: int)
    requires ascending(m), 0 <= i < m.len()
    ensures sum(diffs(m).take(i + 1)) == m[i]
    decreases i
{
    sum_step(diffs(m), i);
    if i > 0 { sums_diffs_at(m, i - 1); } else { assert(diffs(m).take(0) =~= Seq::<nat>::empty()); }
}
/// A longer run of differences reaches at least as far.
pub proof fn sum_mono(d: Seq<nat>, e: Seq<nat>)
    ensures sum(d + e) >= sum(d)
    decreases e.len()
{
    if e.len() > 0 {
        assert((d + e).drop_last() =~= d + e.drop_last());
        sum_mono(d, e.drop_last());
    } else { assert(d + e =~= d); }
}

/// The ids of a list, as the file knows them.
pub struct Ids { pub ids: Ghost<Seq<nat>> }
impl Enc for Ids {
    type M = Seq<nat>;
    open spec fn m(&self) -> Seq<nat> { self.ids@ }
    open spec fn enc(m: Seq<nat>, b: Seq<u8>) -> bool { ascending(m) && all_usize(m) && enc_len::<usize>(diffs(m), b) }
}
impl DecSpec for Ids {
    open spec fn dec(i: Seq<u8>) -> Dec<Seq<nat>> {
        match dec_len::<usize>(i) {
            Dec::Ok(ds, n) => if all_usize(sums(ds)) { Dec::Ok(sums(ds), n) } else { Dec::Free },
            Dec::Short => Dec::Short,
            Dec::Free => Dec::Free,
        }
    }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) {
        dec_len_law::<usize>(diffs(m), b, t);
        sums_diffs(m);
    }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) { dec_len_short::<usize>(diffs(m), b, k); }
    proof fn law_bound(i: Seq<u8>) { dec_len_bound::<usize>(i); }
}

pub open spec fn nats(s: Seq<usize>) -> Seq<nat> { s.map_values(|x: usize| x as nat) }
/// m holds exactly the ids of s, in ascending order.
pub open spec fn sorted_ids(s: Seq<usize>, m: Seq<nat>) -> bool { ascending(m) && m.to_multiset() == nats(s).to_multiset() }
/// The list of ids s was written between two states of a sink.
pub open spec fn emitted_ids(s: Seq<usize>, o1: Seq<u8>, o2: Seq<u8>) -> bool {
    exists|m: Seq<nat>| #[trigger] sorted_ids(s, m) && emitted::<Ids>(m, o1, o2)
}

/// `Iterator::collect` into a vector, `slice::sort`
#[verifier::external_body]
pub fn collect_it<T>(i: It<T>) -> (r: Vec<T>)
    ensures r@ == rem(&i)
{ unimplemented!() }
#[verifier::external_body]
pub fn sort_usize(v: &mut Vec<usize>)
    ensures sorted_ids(old(v)@, nats(final(v)@)), final(v)@.len() == old(v)@.len()
{ unimplemented!() }

pub proof fn models_nats(s: Seq<usize>)
    ensures models(s) == nats(s)
{ assert(models(s) =~= nats(s)); }

/*@fn serialize/sequential_array.rs :: fn serialize
@opt name = serialize_ids
@opt loops = 1
@bind fn serialize < T , I , Out : ByteSink > ( $input : I ,
@bind let mut $content : Vec < T > =
@bind let mut $previous = None ;
@sub < T , I , Out : ByteSink > ==> < Out : ByteSink >
@sub $input : I ==> $input : It<usize>
@sub where $$bounds { let mut ==> { let mut
@sub Vec < T > ==> Vec < usize >
@sub $input . collect ( ) ==> collect_it($input)
@sub $content . sort ( ) ==> sort_usize(&mut $content)
@spec
    ensures emitted_ids(rem(&$input), old($outparam).out(), final($outparam).out()),
@start
    let ghost o0 = $outparam.out();
    let ghost s0 = rem(&$input);
@after let mut $previous = None ;
    let ghost o1 = $outparam.out();
    let ghost s = $content@;
    let ghost m = nats(s);
    let ghost ds = diffs(m);
    proof { wrote_none::<usize>(o1); assert(ds.take(0) =~= Seq::empty()); }
@iter 1 it
@bind for $item in
@loop 1
    invariant it.seq() == s, m == nats(s), ds == diffs(m), ascending(m),
        wrote::<usize>(ds.take(it.index@), o1, $outparam.out()),
        $previous == (if it.index@ == 0 { None } else { Some(s[it.index@ - 1]) }),
@in 1
    let ghost o2 = $outparam.out();
    proof { assert(m[it.index@] == s[it.index@]); if it.index@ > 0 { assert(m[it.index@ - 1] <= m[it.index@]); } }
@endin 1
    proof {
        wrote_step::<usize>(ds.take(it.index@), o1, o2, ds[it.index@], $outparam.out());
        assert(ds.take(it.index@).push(ds[it.index@]) =~= ds.take(it.index@ + 1));
    }
@end
    proof {
        assert(ds.take(ds.len() as int) =~= ds);
        wrote_done::<usize>(ds, o0, o1, $outparam.out());
        let b = choose|b: Seq<u8>| enc_len::<usize>(ds, b) && $outparam.out() == #[trigger] (o0 + b);
        assert(Ids::enc(m, b));
        assert(sorted_ids(s0, m));
    }
@*/

/*@fn serialize/sequential_array.rs :: fn deserialize
@opt name = deserialize_ids
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind fn deserialize < T > ( $arg : & [ u8 ] )
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $out = Vec
@bind let ( $new_input , $parsed ) = T :: deserialize
@bind let mut $previous = None ;
@sub < T > ( ==> (
@sub Vec < T > ==> Vec < usize >
@sub where $$bounds { let ( mut ==> { let ( mut
@sub T :: deserialize ==> usize :: deserialize
@sub Vec :: with_capacity ( $$cap ) ==> vec_capped($$cap, Ghost(i0.len()))
@spec
    ensures decoded(Ids::dec($arg@), $arg@, match r { Some((rest, v)) => Some((rest@, nats(v@))), None => None }),
@start
    let ghost i0 = $arg@;
    let ghost mut ds: Seq<nat> = Seq::empty();
@before for
    proof { len_loop_init::<usize>(i0, $len as nat, $input@); assert(nats($out@) =~= sums(ds)); }
@iter 1 it
@loop 1
    invariant len_loop::<usize>(i0, $len as nat, ds, $input@, ($len - it.index@) as nat), ds.len() == it.index@,
        nats($out@) == sums(ds), $out@.len() == ds.len(),
        $previous == (if it.index@ == 0 { None } else { Some($out@[it.index@ - 1]) }),
@in 1
    let ghost out1 = $out@;
    proof {
        len_loop_step::<usize>(i0, $len as nat, ds, $input@, ($len - it.index@) as nat);
        if it.index@ > 0 { assert(nats($out@)[it.index@ - 1] == sum(ds.take(it.index@))); }
        assert(ds.take(it.index@) =~= ds);
        assert(ds.take(0) =~= Seq::<nat>::empty());
    }
@after $input = $new_input ;
    let ghost ds1 = ds;
    proof {
        ds = ds.push($parsed as nat);
        sum_step(ds, it.index@);
        assert(ds.take(it.index@ + 1) =~= ds);
        assert(ds.take(it.index@) =~= ds1);
        if it.index@ == 0 { assert(sum(ds1) == 0); } else { assert(sum(ds1) == $previous->Some_0); }
        if sum(ds) > usize::MAX { ids_overflow(i0, $len as nat, ds, $input@, ($len - it.index@ - 1) as nat); }
    }
@endin 1
    proof {
        assert forall|k: int| 0 <= k < ds.len() implies #[trigger] nats($out@)[k] == sums(ds)[k] by {
            if k < ds.len() - 1 {
                assert(ds1.take(k + 1) =~= ds.take(k + 1));
                assert(nats(out1)[k] == sums(ds1)[k]);
            }
        }
        assert(nats($out@) =~= sums(ds));
    }
@afterloop 1
    proof {
        len_loop_done::<usize>(i0, $len as nat, ds, $input@);
        assert(nats($out@) == sums(ds));
        assert forall|k: int| 0 <= k < ds.len() implies #[trigger] sums(ds)[k] <= usize::MAX by { assert(nats($out@)[k] <= usize::MAX); }
    }
@*/

/// Once the running sum is too large, no complete list starts here.
pub proof fn ids_overflow(i0: Seq<u8>, n: nat, ds: Seq<nat>, input: Seq<u8>, left: nat)
    requires len_loop::<usize>(i0, n, ds, input, left), ds.len() > 0, sum(ds) > usize::MAX
    ensures !(Ids::dec(i0) is Ok)
{
    if let Dec::Ok(all, k) = dec_len::<usize>(i0) {
        if let Dec::Ok(rest, k2) = dec_n::<usize>(left, input) {
            assert(Seq::<nat>::empty() + (ds + rest) =~= ds + rest);
            assert(all == ds + rest);
            assert((ds + rest).take(ds.len() as int) =~= ds);
            assert(sums(all)[ds.len() - 1] == sum(ds));
        }
    }
}
