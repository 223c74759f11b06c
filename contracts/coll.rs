use vstd::prelude::*;
verus! {
//@include base.rs
//@include varint.rs
//@include std_base.rs
//@include seqs.rs
//@include strs.rs
//@include amap.rs
//@include ahash.rs
//@include text.rs
//@include arrays.rs
//@include! scalar_impl.rs
//@include coll_impl.rs
} // verus!
fn main() {}
