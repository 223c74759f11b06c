use vstd::prelude::*;
verus! {
//@include base.rs
//@include varint.rs
//@include std_base.rs
//@include seqs.rs
//@include! scalar_impl.rs
//@include ids_impl.rs
} // verus!
fn main() {}
