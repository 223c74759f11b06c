//! Catalogues, and the indexes the real code builds from them.
use crate::rng::Rng;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{optimize, Product, ProductContainer, RawProduct, RawProductOption, SuperAlloc};
use indexer_lib::ngram::{GramIndex, GramNode, IndexFeed};

#[derive(Clone, Debug)]
pub struct Raw {
    pub description: String,
    pub title: String,
    pub vendor: String,
    pub id: String,
    pub tags: Vec<String>,
    pub options: Vec<(String, Vec<String>)>,
    pub price: String,
    pub media: Vec<String>,
}

const ALPHABETS: [&[char]; 7] = [
    &['a', 'b'],
    &['a', 'b', 'c', ' '],
    &['a', 'A', 'æ', 'Ø', ' ', '👽'],
    &['x', 'İ', 'ß', 'é', '\0', ' ', 'Q'],
    // letters whose case depends on where they stand, spaces that are no space
    &['Σ', 'ς', 'ǅ', 'ﬁ', '\u{301}', 'a', ' '],
    // more letters than fit a small table
    &[
        'a', 'b', 'c', 'd', 'e', 'f', 'g', 'h', 'i', 'j', 'k', 'l', 'm', 'n', 'o', 'p', 'q', 'r', 's', 't', 'u', 'v', 'w', 'x', 'y', 'z', '0', '1', '2', '3', '4', '5', '6',
        '7', '8', '9', 'α', 'β', 'γ', 'δ', 'ε', 'ζ', 'η', 'θ', 'Ж', 'И', 'Й', 'К', 'Л', '一', '二', '三', '四', '五', '六', '!', '?', '-', '_', '/', '(', ')', '"', ' ', ' ', ' ',
    ],
    &['\u{a0}', '\t', '\n', '\u{feff}', '\u{2003}', 'K', 'k', ' '],
];

pub fn alphabet(rng: &mut Rng) -> &'static [char] {
    ALPHABETS[rng.below(7)]
}

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Size {
    Small,
    Medium,
    Large,
    /// more than a thousand products with little text
    Many,
}

pub fn size(rng: &mut Rng) -> Size {
    match rng.below(400) {
        0 => Size::Many,
        1..=16 => Size::Large,
        17..=100 => Size::Medium,
        _ => Size::Small,
    }
}

pub fn catalogue(rng: &mut Rng, size: Size) -> Vec<Raw> {
    let n = match size {
        Size::Small => rng.below(9),
        Size::Medium => rng.range(9, 40),
        Size::Large if rng.chance(1, 4) => rng.range(300, 700),
        Size::Large => rng.range(128, 300),
        Size::Many => rng.range(1050, 2200),
    };
    let many = size == Size::Many;
    let large = many || size == Size::Large;
    let letters = alphabet(rng);
    // products that have many tags and options each
    let rich = !large && rng.chance(1, 8);
    // many names, or many products for each
    let names = *rng.pick(&[3, 40, 300]);
    let vendors = rng.range(1, if large { (2 * n).min(3 * names) } else { 4 });
    let tags: Vec<String> = (0..rng.below(if large { names } else if rich { 30 } else { 6 })).map(|i| format!("{}{}", rng.word(letters, 5), i)).collect();
    let cats: Vec<String> = (0..rng.below(4)).map(|_| rng.word(letters, 2)).collect();
    let values = rng.range(1, if large { 2 * names } else if rich { 20 } else { 4 });
    let long = !many && rng.chance(1, 4);
    let same_text = rng.chance(1, if many { 2 } else { 6 });
    let share = rng.range(3, 9);
    let shared = rng.word(letters, 12);
    // names that are nearly the same
    let near = rng.chance(1, 3);
    let mut tags = tags;
    let mut cats = cats;
    // now and then, texts of any field may be far longer than usual
    let huge = !large && rng.chance(1, 5);
    // titles that differ only after a while
    let prefix = if rng.chance(1, 8) { rng.word(letters, 50) } else { String::new() };
    // one product may have far more of something than any other
    let crowded = if n > 0 && !many && rng.chance(1, 12) { Some(rng.below(n)) } else { None };
    if huge {
        for list in [&mut tags, &mut cats] {
            for t in list.iter_mut() {
                if rng.chance(1, 4) {
                    *t = lengthen(rng, letters, t);
                }
            }
        }
    }
    if near {
        for list in [&mut tags, &mut cats] {
            if !list.is_empty() {
                let v = variant(rng, &list[0]);
                if !list.contains(&v) {
                    list.push(v);
                }
            }
        }
    }
    (0..n)
        .map(|i| {
            let mut description = if same_text && rng.chance(share, 10) {
                shared.clone()
            } else if long && rng.chance(1, 2) {
                rng.word(letters, 160)
            } else {
                rng.word(letters, if many { 6 } else { 14 })
            };
            let mut options = Vec::new();
            if !cats.is_empty() {
                for _ in 0..rng.below(if rich { 12 } else { 4 }) {
                    let vs = (0..rng.below(if rich { 8 } else { 4 }))
                        .map(|_| {
                            let v = format!("v{}", rng.below(values));
                            if near && rng.chance(1, 3) {
                                variant(rng, &v)
                            } else {
                                v
                            }
                        })
                        .collect();
                    options.push((rng.pick(&cats).clone(), vs));
                }
            }
            let mut my_tags = Vec::new();
            if !tags.is_empty() {
                for _ in 0..rng.below(if rich { 24 } else { 4 }) {
                    my_tags.push(rng.pick(&tags).clone());
                }
            }
            let mut pictures = rng.below(4);
            if crowded == Some(i) {
                let most = rng.range(20, 320);
                match rng.below(5) {
                    4 => {
                        let n = rng.range(500, 9000);
                        for _ in 0..n {
                            description.push(*rng.pick(letters));
                        }
                    }
                    0 => my_tags = (0..most).map(|k| format!("t{k}")).collect(),
                    1 => options.push((cats.first().cloned().unwrap_or_default(), (0..most).map(|k| format!("v{k}")).collect())),
                    2 => options.extend((0..most).map(|k| (format!("c{k}"), vec![format!("v{}", k % 3)]))),
                    _ => pictures = most,
                }
            }
            if huge {
                for (_, vs) in &mut options {
                    for v in vs {
                        let v: &mut String = v;
                        if rng.chance(1, 6) {
                            *v = lengthen(rng, letters, v);
                        }
                    }
                }
            }
            let price = match rng.below(5) {
                0 => format!("{}", rng.below(4)),
                1 => format!("{}.{:02}", rng.below(1000), rng.below(100)),
                2 => format!("-{}.5", rng.below(3)),
                3 => (*rng.pick(&["-0", "-0.0", "1e3", "+5", ".5", "5.", "1e39", "-1e39", "1e-46", "16777217", "0.1", "0.30000001", "1.000000059604644775390626", "16777217.0000000001"])).into(),
                _ => format!("{}", rng.below(100_000_000)),
            };
            Raw {
                description,
                title: {
                    let t = format!("{prefix}{}", rng.word(letters, if long { 30 } else if many { 3 } else { 8 }));
                    if huge && rng.chance(1, 3) {
                        lengthen(rng, letters, &t)
                    } else {
                        t
                    }
                },
                vendor: {
                    let v = format!("{}V{}", if rng.chance(1, 8) { "é" } else { "" }, rng.below(vendors));
                    if near && rng.chance(1, 2) {
                        variant(rng, &v)
                    } else if huge && rng.chance(1, 5) {
                        lengthen(rng, letters, &v)
                    } else {
                        v
                    }
                },
                id: if huge && rng.chance(1, 3) {
                    let t = format!("p{i}");
                    lengthen(rng, letters, &t)
                } else if rng.chance(1, 4) { format!("gid://shopify/Product/{}", 1000 + i) } else { format!("p{i}") },
                tags: my_tags,
                options,
                price,
                media: (0..pictures)
                    .map(|k| match rng.below(8) {
                        0 => format!("//cdn/{i}.{k}?v=1&w=2#x"),
                        1 => String::new(),
                        2 => format!(" /b i/{k} "),
                        3 => lengthen(rng, letters, "https://img/"),
                        _ => format!("http://img/{i}/{k}"),
                    })
                    .collect(),
            }
        })
        .collect()
}

/// A text of a few hundred (seldom a few thousand) letters that starts with `s`.
fn lengthen(rng: &mut Rng, letters: &[char], s: &str) -> String {
    let most = match rng.below(4) {
        0 => 140,
        1 | 2 => 600,
        _ => 1500,
    };
    let n = rng.range(most / 2, most);
    let mut out = String::from(s);
    for _ in 0..n {
        out.push(*rng.pick(letters));
    }
    out
}

fn variant(rng: &mut Rng, s: &str) -> String {
    match rng.below(5) {
        0 => format!("{s} "),
        1 => format!(" {s}"),
        2 => s.to_uppercase(),
        3 => s.to_lowercase(),
        _ => String::new(),
    }
}

pub fn raw_products(raws: &[Raw]) -> Vec<RawProduct<'_>> {
    use indexer_lib_raw::*;
    raws.iter()
        .map(|r| {
            let mut p = template();
            p.description = r.description.clone();
            p.title = &r.title;
            p.vendor = &r.vendor;
            p.id = &r.id;
            p.tags = r.tags.iter().map(|t| t.as_str()).collect();
            p.options = r.options.iter().map(|(n, vs)| RawProductOption { name: n, values: vs.iter().map(|v| v.as_str()).collect() }).collect();
            p.price.min.amount = r.price.clone();
            p.price.max.amount = format!("{}", 7 + 3 * r.title.len());
            set_media(&mut p, &r.media);
            p
        })
        .collect()
}

/// `MediaItem` and `ProductPrice` cannot be named outside the crate, so products
/// start from parsed JSON.
mod indexer_lib_raw {
    use indexer_lib::data::RawProduct;
    const JSON: &str = r#"{"description":"","tags":[],"title":"","vendor":"","id":"","options":[],
        "price":{"min":{"amount":"0","currencyCode":"DKK"},"max":{"amount":"0","currencyCode":"DKK"}},
        "media":[{"url":""}]}"#;
    pub fn template<'a>() -> RawProduct<'a> {
        serde_json::from_str(JSON).expect("a product parses")
    }
    pub fn set_media<'a>(p: &mut RawProduct<'a>, urls: &'a [String]) {
        let first = p.media[0].clone();
        p.media = urls
            .iter()
            .map(|u| {
                let mut m = first.clone();
                m.url = u;
                m
            })
            .collect();
    }
}

pub type Index<const N: usize> = GramIndex<'static, char, Product<'static>, N>;

pub struct Built<const N: usize> {
    pub raws: Vec<Raw>,
    pub container: &'static ProductContainer<'static>,
    pub classic: ClassicIndexes<'static>,
    pub index: Index<N>,
}

fn leak<T>(v: T) -> &'static T {
    Box::leak(Box::new(v))
}

pub fn build<const N: usize>(raws: Vec<Raw>) -> Built<N> {
    let alloc: &'static SuperAlloc = leak(SuperAlloc::new());
    let (container, classic) = optimize(raw_products(&raws), alloc);
    let nodes: &'static Arena<GramNode<'static, char>> = leak(Arena::new());
    let index = feed::<N>(container, nodes);
    Built { raws, container, classic, index }
}

pub fn feed<const N: usize>(container: &'static ProductContainer<'static>, nodes: &'static Arena<GramNode<'static, char>>) -> Index<N> {
    let iter = container.products.iter().map(|p| IndexFeed {
        data: p,
        grams: [&p.description, &p.title, &p.vendor.name].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase),
    });
    GramIndex::<char, Product, N>::index_from(iter, nodes, container)
}

pub fn text(r: &Raw) -> Vec<char> {
    [&r.description, &r.title, &r.vendor].into_iter().flat_map(|s| s.chars()).flat_map(char::to_lowercase).collect()
}

pub struct Loaded<const N: usize> {
    pub classic: ClassicIndexes<'static>,
    pub index: Index<N>,
}

pub fn load<const N: usize>(bytes: &[u8]) -> Option<Loaded<N>> {
    let alloc: &'static SuperAlloc = leak(SuperAlloc::new());
    let nodes: &'static Arena<GramNode<'static, char>> = leak(Arena::new());
    let (index, classic) = indexer_lib::serialize::deserialize_all::<char, N>(bytes, nodes, alloc)?;
    Some(Loaded { classic, index })
}

pub fn shipped<const N: usize>(raws: &[Raw]) -> Result<Vec<u8>, String> {
    let alloc: &'static SuperAlloc = leak(SuperAlloc::new());
    indexer_lib::index_and_serialize_with_n::<N>(raw_products(raws), alloc).map_err(|e| e.to_string())
}

pub fn save<const N: usize>(b: &Built<N>) -> Vec<u8> {
    indexer_lib::serialize::serialize_all(&b.index, &b.classic)
}

/// One of `n`, and often one whose number is the first or last of some width.
pub fn edge(rng: &mut Rng, n: usize) -> usize {
    let k = *rng.pick(&[0, 1, 127, 128, 255, 256, 511, 512, 1023, 1024, n - 1]);
    if k < n && rng.chance(1, 3) {
        k
    } else {
        rng.below(n)
    }
}
