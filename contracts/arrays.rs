// ---- arrays ----------------------------------------------------------------------
impl<T: Enc, const N: usize> Enc for [T; N] {
    type M = Seq<T::M>;
    open spec fn m(&self) -> Seq<T::M> { models(self@) }
    open spec fn enc(m: Seq<T::M>, b: Seq<u8>) -> bool { m.len() == N && enc_len::<T>(m, b) }
}
impl<T: DecSpec, const N: usize> DecSpec for [T; N] {
    open spec fn dec(i: Seq<u8>) -> Dec<Seq<T::M>> {
        match dec_len::<T>(i) {
            Dec::Ok(ms, k) => if ms.len() == N { Dec::Ok(ms, k) } else { Dec::Free },
            Dec::Short => match usize::dec(i) { Dec::Ok(n, k) => if n == N { Dec::Short } else { Dec::Free }, _ => Dec::Short },
            Dec::Free => Dec::Free,
        }
    }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) { dec_len_law::<T>(m, b, t); }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) {
        dec_len_short::<T>(m, b, k);
        let body = choose|body: Seq<u8>| enc_n::<T>(m, body) && m.len() <= usize::MAX && b == #[trigger] (varint(m.len()) + body);
        let v = varint(m.len());
        if k < v.len() {
            assert(b.take(k) =~= v.take(k));
            usize::law_short(m.len(), v, k);
        } else {
            assert(b.take(k) =~= v + body.take(k - v.len()));
            usize::law(m.len(), v, body.take(k - v.len()));
        }
    }
    proof fn law_bound(i: Seq<u8>) { dec_len_bound::<T>(i); }
}
/// `[T::default(); N]`
#[verifier::external_body]
pub fn default_array<T: Default + Copy, const N: usize>() -> (r: [T; N])
{ unimplemented!() }

pub proof fn u64_as_usize(n: usize, o0: Seq<u8>, o1: Seq<u8>)
    requires emitted::<u64>(n as nat, o0, o1)
    ensures emitted::<usize>(n as nat, o0, o1)
{
    let b = choose|b: Seq<u8>| u64::enc(n as nat, b) && o1 == #[trigger] (o0 + b);
    assert(usize::enc(n as nat, b));
}
/// `a.iter_mut().take(n)` on an array
#[verifier::external_body]
pub fn take_mut<'a, T, const N: usize>(a: &'a mut [T; N], n: usize) -> (r: It<&'a mut T>)
    ensures
        rem(&r).len() == if n <= N { n as int } else { N as int },
        forall|i: int| #![trigger rem(&r)[i]] 0 <= i < rem(&r).len() ==> *rem(&r)[i] == old(a)@[i] && final(a)@[i] == *final(rem(&r)[i]),
        forall|i: int| rem(&r).len() <= i < N ==> #[trigger] final(a)@[i] == old(a)@[i],
{ unimplemented!() }
