use vstd::prelude::*;
verus! {
//@include base.rs
//@include varint.rs
//@include std_base.rs

//@include scalar_impl.rs
} // verus!
fn main() {}
