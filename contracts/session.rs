use vstd::prelude::*;
verus! {
//@include base.rs
//@include varint.rs
//@include std_base.rs
//@include seqs.rs
//@include strs.rs
//@include amap.rs
//@include amap2.rs
//@include ahash.rs
//@include text.rs
//@include arrays.rs
//@include iters.rs
//@include floats.rs
//@include types.rs
//@include vendor_wf.rs
//@include js.rs
/*@item data/raw_parser.rs :: struct RawProductOption @*/
//@include! scalar_impl.rs
//@include! coll_impl.rs
//@include! codec2_impl.rs
//@include! ids_impl.rs
//@include! vendors_impl.rs
//@include! records_impl.rs
pub trait GramAtom: Default + Copy + KeyModel + Serializable + Deserializable {}
impl GramAtom for char {}
//@include grams.rs
//@include product_bounds.rs
/*@item lib.rs :: const NGRAM_INDEX_SIZE @*/
//@include! indexes_impl.rs
//@include! nodes_impl.rs
//@include! gindex_impl.rs
//@include! whole_impl.rs
//@include! features_impl.rs
//@include! order_impl.rs
//@include! tags_impl.rs
//@include! cats_impl.rs
//@include! catalogue_impl.rs
//@include lower.rs
//@include window.rs
//@include! indexer_impl.rs
//@include! search_impl.rs
//@include product_impl.rs
//@include! making_impl.rs
//@include! linking_impl.rs
//@include! facets_impl.rs
//@include! endpoint_impl.rs
//@include session_impl.rs
} // verus!
fn main() {}
