use vstd::prelude::*;
verus! {
//@include it.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include iters.rs
//@include floats.rs
//@include types.rs
//@include vendor_wf.rs
//@include js.rs
/*@item data/raw_parser.rs :: struct RawProductOption @*/
//@include! vendors_impl.rs
//@include! features_impl.rs
//@include! order_impl.rs
//@include! tags_impl.rs
//@include! cats_impl.rs
//@include catalogue_impl.rs
} // verus!
fn main() {}
