// ---- float arithmetic (assumed) ----------------------------------------------------------
// Values are opaque: the results of + * and of comparisons are named, not computed.
pub uninterp spec fn fmul(a: f32, b: f32) -> f32;
pub uninterp spec fn fadd(a: f32, b: f32) -> f32;
pub uninterp spec fn fgt(a: f32, b: f32) -> bool;
pub uninterp spec fn nan(a: f32) -> bool;
/// Floats that are numbers are ordered.
pub broadcast axiom fn fgt_trans(a: f32, b: f32, c: f32)
    requires !nan(a), !nan(b), !nan(c), !#[trigger] fgt(a, b), !#[trigger] fgt(b, c)
    ensures !fgt(a, c);
pub broadcast axiom fn fgt_asym(a: f32, b: f32)
    requires #[trigger] fgt(a, b)
    ensures !fgt(b, a);
#[verifier::external_body]
pub fn f32_mul(a: f32, b: f32) -> (r: f32)
    ensures r == fmul(a, b)
{ unimplemented!() }
#[verifier::external_body]
pub fn f32_add(a: f32, b: f32) -> (r: f32)
    ensures r == fadd(a, b)
{ unimplemented!() }
#[verifier::external_body]
pub fn f32_gt(a: f32, b: f32) -> (r: bool)
    ensures r == fgt(a, b)
{ unimplemented!() }
/// `partial_cmp(..).unwrap_or(Equal)`
#[verifier::external_body]
pub fn f32_cmp_or_equal(a: &f32, b: &f32) -> (r: core::cmp::Ordering)
    ensures r == fcmp(*a, *b)
{ unimplemented!() }
pub open spec fn fcmp(a: f32, b: f32) -> core::cmp::Ordering {
    if fgt(a, b) { core::cmp::Ordering::Greater } else if fgt(b, a) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Equal }
}
pub open spec fn turned(o: core::cmp::Ordering) -> core::cmp::Ordering {
    match o { core::cmp::Ordering::Less => core::cmp::Ordering::Greater, core::cmp::Ordering::Greater => core::cmp::Ordering::Less, e => e }
}
pub assume_specification [core::cmp::Ordering::reverse] (o: core::cmp::Ordering) -> (r: core::cmp::Ordering)
    ensures r == turned(o);
/// `a / b`, `n as f32`
pub uninterp spec fn fdiv(a: f32, b: f32) -> f32;
pub uninterp spec fn f_of(n: int) -> f32;
#[verifier::external_body]
pub fn f32_div(a: f32, b: f32) -> (r: f32)
    ensures r == fdiv(a, b)
{ unimplemented!() }
pub trait AsF32 { spec fn int(&self) -> int; fn as_f32(self) -> (r: f32) where Self: Sized ensures r == f_of(self.int()); }
impl AsF32 for usize {
    open spec fn int(&self) -> int { *self as int }
    #[verifier::external_body]
    fn as_f32(self) -> (r: f32) { unimplemented!() }
}
impl AsF32 for u32 {
    open spec fn int(&self) -> int { *self as int }
    #[verifier::external_body]
    fn as_f32(self) -> (r: f32) { unimplemented!() }
}
