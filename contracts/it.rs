/// An iterator whose remaining items are known; stands for std iterators that
/// the verifier has no specification for.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { v: core::marker::PhantomData<T> }
pub uninterp spec fn rem<T>(i: &It<T>) -> Seq<T>;
impl<T> vstd::std_specs::iter::IteratorSpecImpl for It<T> {
    open spec fn obeys_prophetic_iter_laws(&self) -> bool { true }
    open spec fn remaining(&self) -> Seq<T> { rem(self) }
    open spec fn will_return_none(&self) -> bool { true }
    open spec fn decrease(&self) -> Option<nat> { Some(rem(self).len()) }
    open spec fn peek(&self, index: int) -> Option<T> { None }
}
impl<T> Iterator for It<T> {
    type Item = T;
    #[verifier::external_body]
    fn next(&mut self) -> Option<T> { unimplemented!() }
}
/// `for x in [..; N]`
#[verifier::external_body]
pub fn array_it<T, const N: usize>(a: [T; N]) -> (r: It<T>)
    ensures rem(&r) == a@
{ unimplemented!() }
impl<T> It<T> {
    /// `Iterator::next`
    #[verifier::external_body]
    pub fn step(&mut self) -> (r: Option<T>)
        ensures match r {
            Some(x) => rem(old(self)).len() > 0 && x == rem(old(self))[0] && rem(final(self)) == rem(old(self)).skip(1),
            None => rem(old(self)).len() == 0 && rem(final(self)).len() == 0,
        }
    { unimplemented!() }
}
