use vstd::prelude::*;
verus! {
//@include it.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include iters.rs
//@include types.rs
//@include vendor_wf.rs
//@include vendors_impl.rs
} // verus!
fn main() {}
