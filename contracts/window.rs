// ---- the last characters of a text ------------------------------------------------------
pub uninterp spec fn no_gram<G>() -> G;
/// `[G::default(); N]`
#[verifier::external_body]
pub fn no_grams<G, const N: usize>() -> (r: [G; N])
    ensures r@ == Seq::new(N as nat, |i: int| no_gram::<G>())
{ unimplemented!() }
/// The last n characters of the first k (with the padding in front).
pub open spec fn window<G>(s: Seq<G>, k: int, n: nat) -> Seq<G> { (Seq::new(n, |i: int| no_gram::<G>()) + s.take(k)).skip(k) }
pub proof fn window_slides<G>(s: Seq<G>, k: int, n: nat)
    requires 0 <= k < s.len(), n > 0
    ensures window(s, k, n).len() == n, window(s, k + 1, n) =~= window(s, k, n).skip(1).push(s[k])
{ }
