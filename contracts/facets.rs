use vstd::prelude::*;
verus! {
//@include it.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include iters.rs
//@include types.rs
//@include js.rs
//@include facets_impl.rs
//@include members_impl.rs
} // verus!
fn main() {}
