use vstd::prelude::*;
verus! {
//@include base.rs
//@include varint.rs
//@include std_base.rs
//@include seqs.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include ahash.rs
//@include text.rs
//@include arrays.rs
//@include iters.rs
//@include types.rs
//@include vendor_wf.rs
//@include! scalar_impl.rs
//@include! coll_impl.rs
//@include! codec2_impl.rs
//@include! ids_impl.rs
//@include! vendors_impl.rs
//@include records_impl.rs
} // verus!
fn main() {}
