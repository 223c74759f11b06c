// ---- the data types, copied ------------------------------------------------------------
use std::sync::Arc;
/*@item data/vendor.rs :: struct Vendor @*/
/*@item data/vendor.rs :: struct VendorManager @*/
/*@item data/product.rs :: struct Product @*/
/*@item data/features.rs :: struct FeatureSet @*/
/*@item data/features.rs :: enum Feature @*/
/*@item data/features.rs :: enum FeatureValue @*/
/*@item data/container.rs :: struct ProductContainer @*/
/*@item classic_indexes/categorical.rs :: struct CategoryIndex @*/
/*@item classic_indexes/categorical.rs :: struct Category @*/
/*@item classic_indexes/categorical.rs :: struct CategoryOption @*/
/*@item classic_indexes/tag.rs :: struct Tag @*/
/*@item classic_indexes/tag.rs :: struct TagIndex @*/
/*@item classic_indexes/order.rs :: struct OrderIndex @*/
/*@item classic_indexes/mod.rs :: struct ClassicIndexes @*/
/// The number of a product is its position.
pub open spec fn numbered(c: &ProductContainer) -> bool { forall|i: int| 0 <= i < c.products@.len() ==> (#[trigger] c.products@[i]).serialization_id == i }
/// The numbers of products.
pub open spec fn ids_of(ps: Seq<&Product>) -> Seq<usize> { ps.map_values(|p: &Product| p.serialization_id) }
