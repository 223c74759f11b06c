// ---- a length, then that many items ---------------------------------------------

/// A length, then that many items.
pub open spec fn enc_len<T: Enc>(ms: Seq<T::M>, b: Seq<u8>) -> bool {
    exists|body: Seq<u8>| enc_n::<T>(ms, body) && ms.len() <= usize::MAX && b == #[trigger] (varint(ms.len()) + body)
}
pub open spec fn dec_len<T: DecSpec>(i: Seq<u8>) -> Dec<Seq<T::M>> {
    match usize::dec(i) {
        Dec::Ok(n, k) => prepend(Seq::empty(), k, dec_n::<T>(n, i.skip(k as int))),
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    }
}
pub proof fn dec_len_law<T: DecSpec>(ms: Seq<T::M>, b: Seq<u8>, t: Seq<u8>)
    requires enc_len::<T>(ms, b)
    ensures dec_len::<T>(b + t) == Dec::<Seq<T::M>>::Ok(ms, b.len()), b.len() >= 1
{
    let body = choose|body: Seq<u8>| enc_n::<T>(ms, body) && ms.len() <= usize::MAX && b == #[trigger] (varint(ms.len()) + body);
    assert(b + t =~= varint(ms.len()) + (body + t));
    usize::law(ms.len(), varint(ms.len()), body + t);
    assert((b + t).skip(varint(ms.len()).len() as int) =~= body + t);
    dec_n_law::<T>(ms, body, t);
    assert(Seq::<T::M>::empty() + ms =~= ms);
}
pub proof fn dec_len_short<T: DecSpec>(ms: Seq<T::M>, b: Seq<u8>, k: int)
    requires enc_len::<T>(ms, b), 0 <= k < b.len()
    ensures dec_len::<T>(b.take(k)) == Dec::<Seq<T::M>>::Short
{
    let body = choose|body: Seq<u8>| enc_n::<T>(ms, body) && ms.len() <= usize::MAX && b == #[trigger] (varint(ms.len()) + body);
    let v = varint(ms.len());
    if k < v.len() {
        assert(b.take(k) =~= v.take(k));
        usize::law_short(ms.len(), v, k);
    } else {
        let k1 = k - v.len();
        assert(b.take(k) =~= v + body.take(k1));
        usize::law(ms.len(), v, body.take(k1));
        assert(b.take(k).skip(v.len() as int) =~= body.take(k1));
        dec_n_short::<T>(ms, body, k1);
    }
}
pub proof fn dec_len_bound<T: DecSpec>(i: Seq<u8>)
    ensures dec_len::<T>(i) matches Dec::Ok(ms, n) ==> 1 <= n <= i.len() && ms.len() <= i.len()
{
    usize::law_bound(i);
    if let Dec::Ok(n, k) = usize::dec(i) { dec_n_bound::<T>(n, i.skip(k as int)); }
}
pub proof fn dec_len_count<T: DecSpec>(i: Seq<u8>)
    ensures dec_len::<T>(i) matches Dec::Ok(ms, n) ==> (usize::dec(i) matches Dec::Ok(c, k) && ms.len() == c)
{
    if let Dec::Ok(n, k) = usize::dec(i) { dec_n_bound::<T>(n, i.skip(k as int)); }
}
pub proof fn enc_len_of<T: Enc>(ms: Seq<T::M>, body: Seq<u8>)
    requires enc_n::<T>(ms, body), ms.len() <= usize::MAX
    ensures enc_len::<T>(ms, varint(ms.len()) + body)
{ }


/// The state of a loop that decodes such a run: `seen` so far, `input` and `left` items to go.
pub open spec fn len_loop<T: DecSpec>(i0: Seq<u8>, n: nat, seen: Seq<T::M>, input: Seq<u8>, left: nat) -> bool {
    &&& suffix(input, i0)
    &&& input.len() + seen.len() < i0.len()
    &&& match usize::dec(i0) {
        Dec::Ok(n2, k) => {
            let i1 = i0.skip(k as int);
            n2 == n && k <= i0.len() && input.len() <= i1.len() && (dec_n::<T>(n, i1) is Free
                || dec_n::<T>(n, i1) == prepend(seen, (i1.len() - input.len()) as nat, dec_n::<T>(left, input)))
        },
        Dec::Short => false,
        Dec::Free => true,
    }
}
pub proof fn len_loop_init<T: DecSpec>(i0: Seq<u8>, n: nat, i1: Seq<u8>)
    requires decoded(usize::dec(i0), i0, Some((i1, n)))
    ensures len_loop::<T>(i0, n, Seq::empty(), i1, n)
{
    if let Dec::Ok(ms, k) = dec_n::<T>(n, i1) { assert(Seq::<T::M>::empty() + ms =~= ms); }
}
/// One more item is decoded by code that keeps the decoder contract.
pub proof fn len_loop_step<T: DecSpec>(i0: Seq<u8>, n: nat, seen: Seq<T::M>, input: Seq<u8>, left: nat)
    requires len_loop::<T>(i0, n, seen, input, left), left > 0
    ensures
        decoded(T::dec(input), input, None) ==> !(dec_len::<T>(i0) is Ok),
        forall|rest: Seq<u8>, m: T::M| #[trigger] decoded(T::dec(input), input, Some((rest, m))) ==>
            len_loop::<T>(i0, n, seen.push(m), rest, (left - 1) as nat)
{
    assert forall|rest: Seq<u8>, m: T::M| #[trigger] decoded(T::dec(input), input, Some((rest, m))) implies
            len_loop::<T>(i0, n, seen.push(m), rest, (left - 1) as nat) by {
        assert(rest =~= i0.skip(i0.len() - rest.len()));
        match T::dec(input) {
            Dec::Ok(m2, k) => {
                match dec_n::<T>((left - 1) as nat, input.skip(k as int)) {
                    Dec::Ok(ms, k2) => { assert(seen + (seq![m] + ms) =~= seen.push(m) + ms); },
                    _ => {},
                }
            },
            _ => {},
        }
    }
}
pub proof fn len_loop_done<T: DecSpec>(i0: Seq<u8>, n: nat, seen: Seq<T::M>, input: Seq<u8>)
    requires len_loop::<T>(i0, n, seen, input, 0), seen.len() == n
    ensures decoded(dec_len::<T>(i0), i0, Some((input, seen)))
{
    assert(seen + Seq::<T::M>::empty() =~= seen);
    assert(Seq::<T::M>::empty() + seen =~= seen);
}

/// A run of items was written between two states of a sink.
pub open spec fn wrote<T: Enc>(ms: Seq<T::M>, o1: Seq<u8>, o2: Seq<u8>) -> bool {
    exists|b: Seq<u8>| enc_n::<T>(ms, b) && o2 == #[trigger] (o1 + b)
}
pub proof fn wrote_none<T: Enc>(o: Seq<u8>)
    ensures wrote::<T>(Seq::empty(), o, o)
{
    enc_n_empty::<T>();
    assert(o + Seq::<u8>::empty() =~= o);
}
pub proof fn wrote_step<T: Enc>(ms: Seq<T::M>, o1: Seq<u8>, o2: Seq<u8>, m: T::M, o3: Seq<u8>)
    requires wrote::<T>(ms, o1, o2), emitted::<T>(m, o2, o3)
    ensures wrote::<T>(ms.push(m), o1, o3)
{
    let b = choose|b: Seq<u8>| enc_n::<T>(ms, b) && o2 == #[trigger] (o1 + b);
    let c = choose|b: Seq<u8>| T::enc(m, b) && o3 == #[trigger] (o2 + b);
    enc_n_push::<T>(ms, b, m, c);
    assert(o1 + (b + c) =~= o3);
}
pub open spec fn wrote_len<T: Enc>(ms: Seq<T::M>, o1: Seq<u8>, o2: Seq<u8>) -> bool {
    exists|b: Seq<u8>| enc_len::<T>(ms, b) && o2 == #[trigger] (o1 + b)
}
pub proof fn wrote_done<T: Enc>(ms: Seq<T::M>, o0: Seq<u8>, o1: Seq<u8>, o2: Seq<u8>)
    requires emitted::<usize>(ms.len(), o0, o1), wrote::<T>(ms, o1, o2)
    ensures wrote_len::<T>(ms, o0, o2)
{
    let b = choose|b: Seq<u8>| enc_n::<T>(ms, b) && o2 == #[trigger] (o1 + b);
    let v = varint(ms.len());
    assert(o1 == o0 + v);
    enc_len_of::<T>(ms, b);
    assert(o0 + (v + b) =~= o2);
}

pub open spec fn models<T: Enc>(s: Seq<T>) -> Seq<T::M> { s.map_values(|x: T| x.m()) }
pub open spec fn models_ref<T: Enc>(s: Seq<&T>) -> Seq<T::M> { s.map_values(|x: &T| x.m()) }

impl<T: Enc> Enc for Vec<T> {
    type M = Seq<T::M>;
    open spec fn m(&self) -> Seq<T::M> { models(self@) }
    open spec fn enc(m: Seq<T::M>, b: Seq<u8>) -> bool { enc_len::<T>(m, b) }
}
impl<T: DecSpec> DecSpec for Vec<T> {
    open spec fn dec(i: Seq<u8>) -> Dec<Seq<T::M>> { dec_len::<T>(i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) { dec_len_law::<T>(m, b, t); }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) { dec_len_short::<T>(m, b, k); }
    proof fn law_bound(i: Seq<u8>) { dec_len_bound::<T>(i); }
}

/// Capacity in a decoder: never more than the input it was given could fill.
#[verifier::external_body]
pub fn vec_capped<T>(n: usize, Ghost(limit): Ghost<nat>) -> (r: Vec<T>)
    requires n <= limit
    ensures r@ == Seq::<T>::empty()
{ unimplemented!() }
