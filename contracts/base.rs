// ---------------------------------------------------------------------------
// Shared vocabulary: byte sinks, encodings, decodings
// ---------------------------------------------------------------------------

/// Stands for `Out: FnMut(u8)`: the bytes handed to the closure, in order.
pub trait ByteSink {
    spec fn out(&self) -> Seq<u8>;
    fn put(&mut self, b: u8)
        ensures final(self).out() == old(self).out().push(b);
}

pub uninterp spec fn vac(k: int) -> bool;

/// What a decoder must do on an input:
/// `Ok(m, n)`  the input starts with a complete encoding of m, n bytes long;
/// `Short`     the input ends inside an encoding;
/// `Free`      the input starts with nothing an encoder ever wrote.
pub enum Dec<M> { Ok(M, nat), Short, Free }

/// Seen bytes and items put in front of the decoding of the rest.
pub open spec fn prepend<M>(ms: Seq<M>, k: nat, d: Dec<Seq<M>>) -> Dec<Seq<M>> {
    match d {
        Dec::Ok(ms2, k2) => Dec::Ok(ms + ms2, k + k2),
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    }
}

/// `enc(m, b)`: b is an encoding of the value m.
pub trait Enc {
    type M;
    spec fn m(&self) -> Self::M;
    spec fn enc(m: Self::M, b: Seq<u8>) -> bool;
}

pub trait DecSpec: Enc + Sized {
    spec fn dec(i: Seq<u8>) -> Dec<Self::M>;
    /// Round trip, with anything after the encoding.
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>)
        requires Self::enc(m, b)
        ensures Self::dec(b + t) == Dec::<Self::M>::Ok(m, b.len()), b.len() >= 1;
    /// A strict prefix of an encoding is a truncated one.
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int)
        requires Self::enc(m, b), 0 <= k < b.len()
        ensures Self::dec(b.take(k)) == Dec::<Self::M>::Short;
    proof fn law_bound(i: Seq<u8>)
        ensures Self::dec(i) matches Dec::Ok(m, n) ==> 1 <= n <= i.len();
}

/// The bytes put between two states of a sink are an encoding of m.
pub open spec fn emitted<T: Enc + ?Sized>(m: T::M, o1: Seq<u8>, o2: Seq<u8>) -> bool {
    exists|b: Seq<u8>| T::enc(m, b) && o2 == #[trigger] (o1 + b)
}

pub trait Serializable: Enc {
    fn serialize<Out: ByteSink>(&self, output: &mut Out)
        ensures emitted::<Self>(self.m(), old(output).out(), final(output).out());
}

pub open spec fn suffix(rest: Seq<u8>, i: Seq<u8>) -> bool {
    rest.len() <= i.len() && rest == i.skip(i.len() - rest.len())
}

/// The contract of every decoder.
pub open spec fn decoded<M>(d: Dec<M>, i: Seq<u8>, r: Option<(Seq<u8>, M)>) -> bool {
    &&& match d {
            Dec::Ok(m, n) => n <= i.len() && r == Some((i.skip(n as int), m)),
            Dec::Short => r is None,
            Dec::Free => true,
        }
    &&& r matches Some((rest, m)) ==> suffix(rest, i) && rest.len() < i.len()
}

pub open spec fn view_dec<T: Enc>(r: Option<(&[u8], T)>) -> Option<(Seq<u8>, T::M)> {
    match r { Some((rest, v)) => Some((rest@, v.m())), None => None }
}

pub trait Deserializable: DecSpec {
    fn deserialize(input: &[u8]) -> (r: Option<(&[u8], Self)>)
        ensures decoded(Self::dec(input@), input@, view_dec(r));
}

impl<T: Enc + ?Sized> Enc for &T {
    type M = T::M;
    open spec fn m(&self) -> T::M { (**self).m() }
    open spec fn enc(m: T::M, b: Seq<u8>) -> bool { T::enc(m, b) }
}

// ---- a run of items -------------------------------------------------------

pub open spec fn cat(ps: Seq<Seq<u8>>) -> Seq<u8> decreases ps.len() {
    if ps.len() == 0 { Seq::empty() } else { ps[0] + cat(ps.skip(1)) }
}

pub proof fn cat_push(ps: Seq<Seq<u8>>, x: Seq<u8>)
    ensures cat(ps.push(x)) == cat(ps) + x
    decreases ps.len()
{
    if ps.len() == 0 {
        assert(ps.push(x).skip(1) =~= Seq::<Seq<u8>>::empty());
        assert(cat(ps.push(x).skip(1)) =~= Seq::<u8>::empty());
        assert(cat(ps.push(x)) =~= x);
        assert(cat(ps) + x =~= x);
    } else {
        assert(ps.push(x).skip(1) =~= ps.skip(1).push(x));
        cat_push(ps.skip(1), x);
        assert(ps[0] + (cat(ps.skip(1)) + x) =~= (ps[0] + cat(ps.skip(1))) + x);
    }
}

pub open spec fn pieces<T: Enc>(ms: Seq<T::M>, ps: Seq<Seq<u8>>) -> bool {
    ps.len() == ms.len() && forall|i: int| 0 <= i < ms.len() ==> #[trigger] T::enc(ms[i], ps[i])
}

pub open spec fn enc_n<T: Enc>(ms: Seq<T::M>, b: Seq<u8>) -> bool {
    exists|ps: Seq<Seq<u8>>| pieces::<T>(ms, ps) && b == #[trigger] cat(ps)
}

pub proof fn enc_n_push<T: Enc>(ms: Seq<T::M>, b: Seq<u8>, m: T::M, c: Seq<u8>)
    requires enc_n::<T>(ms, b), T::enc(m, c)
    ensures enc_n::<T>(ms.push(m), b + c)
{
    let ps = choose|ps: Seq<Seq<u8>>| pieces::<T>(ms, ps) && b == #[trigger] cat(ps);
    cat_push(ps, c);
    let qs = ps.push(c);
    assert forall|i: int| 0 <= i < ms.push(m).len() implies #[trigger] T::enc(ms.push(m)[i], qs[i]) by {
        if i < ms.len() { assert(T::enc(ms[i], ps[i])); }
    }
    assert(pieces::<T>(ms.push(m), qs));
}

pub proof fn enc_n_empty<T: Enc>()
    ensures enc_n::<T>(Seq::empty(), Seq::empty())
{
    let ps = Seq::<Seq<u8>>::empty();
    assert(pieces::<T>(Seq::empty(), ps));
    assert(cat(ps) =~= Seq::<u8>::empty());
}

pub open spec fn dec_n<T: DecSpec>(n: nat, i: Seq<u8>) -> Dec<Seq<T::M>> decreases n {
    if n == 0 { Dec::Ok(Seq::empty(), 0) } else {
        match T::dec(i) {
            Dec::Ok(m, k) => prepend(seq![m], k, dec_n::<T>((n - 1) as nat, i.skip(k as int))),
            Dec::Short => Dec::Short,
            Dec::Free => Dec::Free,
        }
    }
}

pub proof fn dec_n_law<T: DecSpec>(ms: Seq<T::M>, b: Seq<u8>, t: Seq<u8>)
    requires enc_n::<T>(ms, b)
    ensures dec_n::<T>(ms.len(), b + t) == Dec::<Seq<T::M>>::Ok(ms, b.len())
{
    let ps = choose|ps: Seq<Seq<u8>>| pieces::<T>(ms, ps) && b == #[trigger] cat(ps);
    dec_n_law_p::<T>(ms, ps, t);
}

pub proof fn dec_n_law_p<T: DecSpec>(ms: Seq<T::M>, ps: Seq<Seq<u8>>, t: Seq<u8>)
    requires pieces::<T>(ms, ps)
    ensures dec_n::<T>(ms.len(), cat(ps) + t) == Dec::<Seq<T::M>>::Ok(ms, cat(ps).len())
    decreases ms.len()
{
    if ms.len() == 0 {
        assert(cat(ps) == Seq::<u8>::empty());
        assert(ms =~= Seq::empty());
    } else {
        let ms1 = ms.skip(1);
        let ps1 = ps.skip(1);
        assert(T::enc(ms[0], ps[0]));
        assert forall|i: int| 0 <= i < ms1.len() implies #[trigger] T::enc(ms1[i], ps1[i]) by { assert(T::enc(ms[i + 1], ps[i + 1])); }
        dec_n_law_p::<T>(ms1, ps1, t);
        let i = cat(ps) + t;
        let rest = cat(ps1) + t;
        assert(i =~= ps[0] + rest);
        T::law(ms[0], ps[0], rest);
        assert(i.skip(ps[0].len() as int) =~= rest);
        assert(seq![ms[0]] + ms1 =~= ms);
    }
}

pub proof fn dec_n_short<T: DecSpec>(ms: Seq<T::M>, b: Seq<u8>, k: int)
    requires enc_n::<T>(ms, b), 0 <= k < b.len()
    ensures dec_n::<T>(ms.len(), b.take(k)) == Dec::<Seq<T::M>>::Short
{
    let ps = choose|ps: Seq<Seq<u8>>| pieces::<T>(ms, ps) && b == #[trigger] cat(ps);
    dec_n_short_p::<T>(ms, ps, k);
}

pub proof fn dec_n_short_p<T: DecSpec>(ms: Seq<T::M>, ps: Seq<Seq<u8>>, k: int)
    requires pieces::<T>(ms, ps), 0 <= k < cat(ps).len()
    ensures dec_n::<T>(ms.len(), cat(ps).take(k)) == Dec::<Seq<T::M>>::Short
    decreases ms.len()
{
    if ms.len() == 0 {
        assert(cat(ps) == Seq::<u8>::empty());
    } else {
        let ms1 = ms.skip(1);
        let ps1 = ps.skip(1);
        let i = cat(ps).take(k);
        assert(T::enc(ms[0], ps[0]));
        if k < ps[0].len() {
            assert(i =~= ps[0].take(k));
            T::law_short(ms[0], ps[0], k);
        } else {
            assert forall|i: int| 0 <= i < ms1.len() implies #[trigger] T::enc(ms1[i], ps1[i]) by { assert(T::enc(ms[i + 1], ps[i + 1])); }
            let k1 = k - ps[0].len();
            dec_n_short_p::<T>(ms1, ps1, k1);
            let rest = cat(ps1).take(k1);
            assert(i =~= ps[0] + rest);
            T::law(ms[0], ps[0], rest);
            assert(i.skip(ps[0].len() as int) =~= rest);
        }
    }
}

pub proof fn dec_n_bound<T: DecSpec>(n: nat, i: Seq<u8>)
    ensures dec_n::<T>(n, i) matches Dec::Ok(ms, k) ==> ms.len() == n && n <= k <= i.len()
    decreases n
{
    if n > 0 {
        T::law_bound(i);
        if let Dec::Ok(m, k) = T::dec(i) {
            dec_n_bound::<T>((n - 1) as nat, i.skip(k as int));
        }
    }
}

// ---- two encodings, one after the other -------------------------------------

impl<A: Enc, B: Enc> Enc for (A, B) {
    type M = (A::M, B::M);
    open spec fn m(&self) -> (A::M, B::M) { (self.0.m(), self.1.m()) }
    open spec fn enc(m: (A::M, B::M), b: Seq<u8>) -> bool {
        exists|x: Seq<u8>, y: Seq<u8>| A::enc(m.0, x) && B::enc(m.1, y) && b == #[trigger] (x + y)
    }
}

pub open spec fn dec_then<M1, M2>(d1: Dec<M1>, d2: Dec<M2>) -> Dec<(M1, M2)> {
    match d1 {
        Dec::Ok(m1, k1) => match d2 {
            Dec::Ok(m2, k2) => Dec::Ok((m1, m2), k1 + k2),
            Dec::Short => Dec::Short,
            Dec::Free => Dec::Free,
        },
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    }
}

pub open spec fn after<M>(d: Dec<M>, i: Seq<u8>) -> Seq<u8> {
    match d { Dec::Ok(m, k) => i.skip(k as int), _ => i }
}

impl<A: DecSpec, B: DecSpec> DecSpec for (A, B) {
    open spec fn dec(i: Seq<u8>) -> Dec<(A::M, B::M)> {
        dec_then(A::dec(i), B::dec(after(A::dec(i), i)))
    }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) {
        let (x, y) = choose|x: Seq<u8>, y: Seq<u8>| A::enc(m.0, x) && B::enc(m.1, y) && b == #[trigger] (x + y);
        assert(b + t =~= x + (y + t));
        A::law(m.0, x, y + t);
        assert((b + t).skip(x.len() as int) =~= y + t);
        B::law(m.1, y, t);
    }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) {
        let (x, y) = choose|x: Seq<u8>, y: Seq<u8>| A::enc(m.0, x) && B::enc(m.1, y) && b == #[trigger] (x + y);
        if k < x.len() {
            assert(b.take(k) =~= x.take(k));
            A::law_short(m.0, x, k);
        } else {
            let k1 = k - x.len();
            assert(b.take(k) =~= x + y.take(k1));
            A::law(m.0, x, y.take(k1));
            assert(b.take(k).skip(x.len() as int) =~= y.take(k1));
            B::law_short(m.1, y, k1);
        }
    }
    proof fn law_bound(i: Seq<u8>) {
        A::law_bound(i);
        if let Dec::Ok(m, k) = A::dec(i) { B::law_bound(i.skip(k as int)); }
    }
}

/// What is left of an encoding of a pair after decoding its first half.
pub proof fn pair_step<A: DecSpec, B: DecSpec>(i: Seq<u8>)
    ensures
        decoded(A::dec(i), i, None) ==> decoded(<(A, B)>::dec(i), i, None),
        forall|rest: Seq<u8>, a: A::M| #[trigger] decoded(A::dec(i), i, Some((rest, a))) ==> {
            &&& decoded(B::dec(rest), rest, None) ==> decoded(<(A, B)>::dec(i), i, None)
            &&& forall|rest2: Seq<u8>, b: B::M| #[trigger] decoded(B::dec(rest), rest, Some((rest2, b))) ==>
                    decoded(<(A, B)>::dec(i), i, Some((rest2, (a, b))))
        },
{
    assert forall|rest: Seq<u8>, a: A::M| #[trigger] decoded(A::dec(i), i, Some((rest, a))) implies {
            &&& decoded(B::dec(rest), rest, None) ==> decoded(<(A, B)>::dec(i), i, None)
            &&& forall|rest2: Seq<u8>, b: B::M| #[trigger] decoded(B::dec(rest), rest, Some((rest2, b))) ==>
                    decoded(<(A, B)>::dec(i), i, Some((rest2, (a, b))))
        } by {
        assert forall|rest2: Seq<u8>, b: B::M| #[trigger] decoded(B::dec(rest), rest, Some((rest2, b))) implies
                    decoded(<(A, B)>::dec(i), i, Some((rest2, (a, b)))) by {
            assert(rest2 =~= i.skip(i.len() - rest2.len()));
        }
    }
}

pub proof fn emitted_pair<A: Enc, B: Enc>(a: A::M, b: B::M, o1: Seq<u8>, o2: Seq<u8>, o3: Seq<u8>)
    requires emitted::<A>(a, o1, o2), emitted::<B>(b, o2, o3)
    ensures emitted::<(A, B)>((a, b), o1, o3)
{
    let x = choose|x: Seq<u8>| A::enc(a, x) && o2 == #[trigger] (o1 + x);
    let y = choose|y: Seq<u8>| B::enc(b, y) && o3 == #[trigger] (o2 + y);
    assert(<(A, B)>::enc((a, b), x + y));
    assert(o1 + (x + y) =~= o3);
}
