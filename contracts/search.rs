use vstd::prelude::*;
verus! {
//@include it.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include iters.rs
//@include floats.rs
//@include types.rs
//@include window.rs
pub trait GramAtom: Copy {}
//@include grams.rs
//@include search_impl.rs
} // verus!
fn main() {}
