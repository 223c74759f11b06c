#![allow(dead_code)]
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{optimize, Product, ProductContainer, RawProduct, SuperAlloc};
use indexer_lib::ngram::{GramIndex, GramNode, IndexFeed};
use serde_json::{json, Value};

pub fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

/// A product with defaults for everything that is not given.
pub fn product(id: &str, more: Value) -> Value {
    let mut v = json!({"description": "", "tags": [], "title": id, "vendor": "V", "id": id, "options": [],
        "price": {"min": {"amount": "1", "currencyCode": "DKK"}, "max": {"amount": "9", "currencyCode": "DKK"}},
        "media": [{"url": "u"}]});
    for (k, x) in more.as_object().unwrap() {
        if k == "price" {
            v["price"]["min"]["amount"] = x.clone();
        } else {
            v[k] = x.clone();
        }
    }
    v
}

pub fn parse(products: &[Value]) -> Vec<RawProduct<'static>> {
    products.iter().map(|p| serde_json::from_str(Box::leak(p.to_string().into_boxed_str())).unwrap()).collect()
}

pub type Index<const N: usize> = GramIndex<'static, char, Product<'static>, N>;

pub fn build<const N: usize>(products: &[Value]) -> (&'static ProductContainer<'static>, ClassicIndexes<'static>, Index<N>) {
    let (container, classic) = optimize(parse(products), leak(SuperAlloc::new()));
    let iter = container.products.iter().map(|p| IndexFeed {
        data: p,
        grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
    });
    let nodes: &'static Arena<GramNode<'static, char>> = leak(Arena::new());
    let index = GramIndex::<char, Product, N>::index_from(iter, nodes, container);
    (container, classic, index)
}

pub fn bytes_of<T: indexer_lib::serialize::Serializable>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    v.serialize(&mut |b| out.push(b));
    out
}

pub fn load<const N: usize>(bytes: &[u8]) -> Option<(Index<N>, ClassicIndexes<'static>)> {
    let nodes: &'static Arena<GramNode<'static, char>> = leak(Arena::new());
    indexer_lib::serialize::deserialize_all::<char, N>(bytes, nodes, leak(SuperAlloc::new()))
}
