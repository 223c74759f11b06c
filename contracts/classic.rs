use vstd::prelude::*;
verus! {
//@include it.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include iters.rs
//@include floats.rs
//@include types.rs
//@include order_impl.rs
//@include tags_impl.rs
/*@item data/raw_parser.rs :: struct RawProductOption @*/
//@include cats_impl.rs
} // verus!
fn main() {}
