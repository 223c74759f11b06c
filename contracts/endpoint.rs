use vstd::prelude::*;
verus! {
//@include it.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include iters.rs
//@include floats.rs
//@include types.rs
//@include js.rs
//@include! facets_impl.rs
//@include! members_impl.rs
//@include! features_impl.rs
//@include lower.rs
//@include window.rs
pub trait GramAtom: Copy {}
impl GramAtom for char {}
//@include grams.rs
//@include product_bounds.rs
/*@item lib.rs :: const NGRAM_INDEX_SIZE @*/
//@include! search_impl.rs
//@include orders_lookup.rs
//@include endpoint_impl.rs
} // verus!
fn main() {}
