//! P07, P08, P13..P16, P20, P21: what is kept about a catalogue, before and after
//! it has been saved and loaded.
use crate::codec::{enc, Case};
use crate::gen::{self, Built, Loaded, Raw};
use crate::rng::Rng;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{Feature, FeatureSet, FeatureValue, Product, ProductContainer, SuperAlloc};
use indexer_lib::serialize::Deserializable;
use std::collections::{BTreeMap, BTreeSet};

pub const LIMIT: usize = 100;

pub fn both(rng: &mut Rng, raws: Vec<Raw>) -> Result<(Built<5>, Loaded<5>), String> {
    let b = gen::build::<5>(raws);
    let bytes = gen::save(&b);
    let mut input = bytes.clone();
    if rng.chance(1, 3) {
        input.extend([0, 1, 2]);
    }
    match gen::load::<5>(&input) {
        Some(l) => Ok((b, l)),
        None => Err(format!("the saved index of {:?} does not load", b.raws)),
    }
}

/// The file that a build of the search page makes.
fn shipped(raws: &[Raw]) -> Result<Loaded<5>, String> {
    gen::load::<5>(&gen::shipped::<5>(raws)?).ok_or("the finished file does not load".to_string())
}

fn limited(s: &str) -> String {
    if s.len() <= LIMIT {
        return s.to_string();
    }
    let chars: Vec<char> = s.chars().collect();
    let mut end = 0;
    let mut over = chars.len();
    for (k, c) in chars.iter().enumerate() {
        end += c.len_utf8();
        if end > LIMIT {
            over = k;
            break;
        }
    }
    let cut = (1..=over).rev().find(|k| chars[*k] == ' ').unwrap_or(over);
    chars[..cut].iter().collect()
}

fn check_products(raws: &[Raw], ps: &[Product<'_>], saved: bool) -> Result<(), String> {
    if raws.len() != ps.len() {
        return Err(format!("{} products in, {} out", raws.len(), ps.len()));
    }
    for (i, (r, p)) in raws.iter().zip(ps).enumerate() {
        let d = if saved { limited(&r.description) } else { r.description.clone() };
        if p.description != d || p.title != r.title || p.id != r.id || p.vendor.name != r.vendor || p.serialization_id != i {
            return Err(format!("product {i} is {r:?} and is kept{} as {p:?}", if saved { " in the file" } else { "" }));
        }
    }
    Ok(())
}

fn price(r: &Raw) -> f32 {
    r.price.parse().unwrap()
}
fn image(r: &Raw) -> &str {
    r.media.first().map_or("", |s| s.as_str())
}

pub fn check_features(raws: &[Raw], c: &ProductContainer<'_>, rng: &mut Rng) -> Result<(), String> {
    let f = &c.extra_features;
    for (i, (r, p)) in raws.iter().zip(&c.products).enumerate() {
        match f.get(p, "price") {
            Some(FeatureValue::Float(v)) if v == price(r) => {}
            other => return Err(format!("price of product {i} ({}) reads as {}", r.price, show(other))),
        }
        match f.get(p, "image_url") {
            Some(FeatureValue::String(s)) if s == image(r) => {}
            other => return Err(format!("image of product {i} ({:?}) reads as {}", r.media, show(other))),
        }
        match f.get_feature("price").and_then(|x| x.get(i)) {
            Some(FeatureValue::Float(v)) if v == price(r) => {}
            other => return Err(format!("price feature {i} ({}) reads as {}", r.price, show(other))),
        }
        match f.get_feature("image_url").and_then(|x| x.get(i)) {
            Some(FeatureValue::String(v)) if v == image(r) => {}
            other => return Err(format!("image feature {i} ({:?}) reads as {}", r.media, show(other))),
        }
        if f.get_js(p, "price").and_then(|v| v.as_f64()) != Some(f64::from(price(r))) {
            return Err(format!("price of product {i} ({}) is {:?} in JavaScript", r.price, f.get_js(p, "price")));
        }
        if f.get_js(p, "image_url").and_then(|v| v.as_string()).as_deref() != Some(image(r)) {
            return Err(format!("image of product {i} ({:?}) is {:?} in JavaScript", r.media, f.get_js(p, "image_url")));
        }
        let missing = rng.text(5);
        if missing != "price" && missing != "image_url" && (f.get(p, &missing).is_some() || f.get_js(p, &missing).is_some()) {
            return Err(format!("feature {missing:?} exists"));
        }
    }
    if !raws.is_empty() {
        let most = [0, 1, 255, 65_535, 65_536, 1 << 31, 1 << 32, usize::MAX - raws.len(), 1 << rng.below(64)][rng.below(9)];
        for beyond in [raws.len(), raws.len().saturating_add(most)] {
            let p = Product { description: String::new(), title: String::new(), vendor: c.products[0].vendor, id: String::new(), serialization_id: beyond };
            for key in ["price", "image_url"] {
                if f.get_feature(key).and_then(|x| x.get(beyond)).is_some() || f.get(&p, key).is_some() || f.get_js(&p, key).is_some() {
                    return Err(format!("feature {key} has a value at {beyond} and there are {} products", raws.len()));
                }
            }
        }
    }
    Ok(())
}

fn show(v: Option<FeatureValue<'_>>) -> String {
    match v {
        None => "nothing".into(),
        Some(FeatureValue::Float(x)) => format!("the number {x}"),
        Some(FeatureValue::Integer(x)) => format!("the number {x}"),
        Some(FeatureValue::String(x)) => format!("the text {x:?}"),
    }
}

pub fn check_categories(raws: &[Raw], classic: &ClassicIndexes<'_>, ps: &[Product<'_>]) -> Result<(), String> {
    // names and options in order of first appearance
    let mut want: Vec<(String, Vec<(String, BTreeSet<usize>)>)> = Vec::new();
    for (i, r) in raws.iter().enumerate() {
        for (name, values) in &r.options {
            let at = match want.iter().position(|(n, _)| n == name) {
                Some(at) => at,
                None => {
                    want.push((name.clone(), Vec::new()));
                    want.len() - 1
                }
            };
            for v in values {
                let os = &mut want[at].1;
                match os.iter_mut().find(|(n, _)| n == v) {
                    Some((_, set)) => {
                        set.insert(i);
                    }
                    None => os.push((v.clone(), BTreeSet::from([i]))),
                }
            }
        }
    }
    let names: Vec<&str> = classic.categories.0.iter().map(|c| c.name.as_str()).collect();
    let want_names: Vec<&str> = want.iter().map(|(n, _)| n.as_str()).collect();
    if names != want_names {
        return Err(format!("categories {names:?}, expected {want_names:?}"));
    }
    let mut next_id = 0;
    for (k, (name, options)) in want.iter().enumerate() {
        let c = classic.categories.get(k).ok_or("category not found by index")?;
        let have: Vec<&str> = c.options.iter().map(|o| o.name.as_str()).collect();
        let want: Vec<&str> = options.iter().map(|(n, _)| n.as_str()).collect();
        if have != want {
            return Err(format!("options of {name:?} are {have:?}, expected {want:?}"));
        }
        for (o, (value, set)) in c.options.iter().zip(options) {
            if o.serialization_id != next_id {
                return Err(format!("option {value:?} of {name:?} has id {}, expected {next_id}", o.serialization_id));
            }
            next_id += 1;
            for (i, p) in ps.iter().enumerate() {
                if o.contains(p) != set.contains(&i) {
                    return Err(format!("product {i} {} option {value:?} of {name:?}, options {:?}", if o.contains(p) { "is under" } else { "is missing under" }, raws[i].options));
                }
            }
        }
    }
    if classic.categories.get(want.len()).is_some() {
        return Err("more categories than expected".into());
    }
    Ok(())
}

pub fn check_tags(raws: &[Raw], classic: &ClassicIndexes<'_>, ps: &[Product<'_>]) -> Result<(), String> {
    let mut want: BTreeMap<&str, BTreeSet<usize>> = BTreeMap::new();
    for (i, r) in raws.iter().enumerate() {
        for t in &r.tags {
            want.entry(t).or_default().insert(i);
        }
    }
    let mut seen = BTreeSet::new();
    for (k, t) in classic.tags.iter().enumerate() {
        if !seen.insert(t.name.clone()) {
            return Err(format!("tag {:?} is there twice", t.name));
        }
        let set = match want.get(t.name.as_str()) {
            Some(s) => s,
            None => return Err(format!("tag {:?} came from nowhere", t.name)),
        };
        if t.get_id() != k || classic.tags.get(k).map(|x| x.get_id()) != Some(k) {
            return Err(format!("tag {:?} is number {k} and has id {}", t.name, t.get_id()));
        }
        for (i, p) in ps.iter().enumerate() {
            if t.contains(p) != set.contains(&i) {
                return Err(format!("product {i} with tags {:?} {} tag {:?}", raws[i].tags, if t.contains(p) { "is under" } else { "is missing under" }, t.name));
            }
        }
    }
    if seen.len() != want.len() {
        return Err(format!("tags {seen:?}, expected {:?}", want.keys()));
    }
    if classic.tags.get(seen.len()).is_some() {
        return Err("more tags than expected".into());
    }
    Ok(())
}

pub fn check_orders(raws: &[Raw], classic: &ClassicIndexes<'_>) -> Result<(), String> {
    let mut names: Vec<&str> = classic.order.options().collect();
    names.sort_unstable();
    if names != ["Alphabetical", "Price high to low", "Price low to high"] {
        return Err(format!("sort orders {names:?}"));
    }
    let n = raws.len();
    let check = |name: &str, cmp: &dyn Fn(&Raw, &Raw) -> std::cmp::Ordering| -> Result<(), String> {
        let order = classic.order.get_orders(name).ok_or(format!("no order {name:?}"))?;
        let mut want: Vec<usize> = (0..n).collect();
        want.sort_by(|a, b| cmp(&raws[*a], &raws[*b]));
        let mut by_position = vec![0; n];
        for (at, id) in want.into_iter().enumerate() {
            by_position[id] = at;
        }
        if *order != by_position {
            let shown: Vec<_> = raws.iter().map(|r| (&r.title, &r.price)).collect();
            return Err(format!("order {name:?} of {shown:?} puts them at {order:?}, expected {by_position:?}"));
        }
        Ok(())
    };
    check("Alphabetical", &|a, b| a.title.cmp(&b.title))?;
    check("Price low to high", &|a, b| price(a).partial_cmp(&price(b)).unwrap())?;
    check("Price high to low", &|a, b| price(b).partial_cmp(&price(a)).unwrap())?;
    if classic.order.get_orders("Newest").is_some() {
        return Err("an order nobody made".into());
    }
    Ok(())
}

pub fn check_vendors(raws: &[Raw], c: &ProductContainer<'static>) -> Result<(), String> {
    let mut ids: BTreeMap<&str, usize> = BTreeMap::new();
    for (r, p) in raws.iter().zip(&c.products) {
        if p.vendor.name != r.vendor {
            return Err(format!("vendor {:?} is kept as {:?}", r.vendor, p.vendor.name));
        }
        if *ids.entry(&r.vendor).or_insert(p.vendor.id) != p.vendor.id {
            return Err(format!("vendor {:?} has ids {} and {}", r.vendor, ids[r.vendor.as_str()], p.vendor.id));
        }
        match c.vendors.by_id.get(p.vendor.id) {
            Some(v) if v.name == r.vendor && v.id == p.vendor.id => {}
            other => return Err(format!("vendor {:?} has id {} and that is {other:?}", r.vendor, p.vendor.id)),
        }
        match c.vendors.get(&r.vendor) {
            Some(v) if v.id == p.vendor.id && v.name == r.vendor => {}
            other => return Err(format!("vendor {:?} is looked up as {other:?}", r.vendor)),
        }
    }
    if c.vendors.by_id.len() != ids.len() {
        return Err(format!("{} vendors for {:?}", c.vendors.by_id.len(), ids));
    }
    for (k, v) in c.vendors.by_id.iter().enumerate() {
        if v.id != k {
            return Err(format!("vendor {v:?} is number {k}"));
        }
    }
    let mut all: Vec<usize> = ids.values().copied().collect();
    all.sort_unstable();
    if all != (0..ids.len()).collect::<Vec<_>>() {
        return Err(format!("vendor ids {all:?}"));
    }
    if c.vendors.get("no such vendor").is_some() {
        return Err("a vendor nobody added".into());
    }
    Ok(())
}

fn catalogue(rng: &mut Rng) -> Vec<Raw> {
    let s = gen::size(rng);
    gen::catalogue(rng, s)
}

fn about(raws: &[Raw]) -> String {
    format!("{} products, first {:?}", raws.len(), raws.first())
}

pub fn categories(rng: &mut Rng, index: u64) -> Case {
    let raws = catalogue(rng).clone();
    let (b, l) = both(rng, raws)?;
    check_categories(&b.raws, &b.classic, &b.container.products)?;
    check_categories(&b.raws, &l.classic, &l.index.product_container.products).map_err(|e| format!("after loading: {e}"))?;
    if index % 4 == 0 {
        let s = shipped(&b.raws)?;
        check_categories(&b.raws, &s.classic, &s.index.product_container.products).map_err(|e| format!("in the finished file: {e}"))?;
    }
    Ok(about(&b.raws))
}

pub fn tags(rng: &mut Rng, index: u64) -> Case {
    let raws = catalogue(rng);
    let (b, l) = both(rng, raws)?;
    check_tags(&b.raws, &b.classic, &b.container.products)?;
    check_tags(&b.raws, &l.classic, &l.index.product_container.products).map_err(|e| format!("after loading: {e}"))?;
    let a: Vec<&str> = b.classic.tags.iter().map(|t| t.name.as_str()).collect();
    let z: Vec<&str> = l.classic.tags.iter().map(|t| t.name.as_str()).collect();
    if a != z {
        return Err(format!("tags {a:?} load as {z:?}"));
    }
    if index % 4 == 0 {
        let s = shipped(&b.raws)?;
        check_tags(&b.raws, &s.classic, &s.index.product_container.products).map_err(|e| format!("in the finished file: {e}"))?;
    }
    Ok(about(&b.raws))
}

pub fn orders(rng: &mut Rng, index: u64) -> Case {
    let raws = catalogue(rng);
    let (b, l) = both(rng, raws)?;
    check_orders(&b.raws, &b.classic)?;
    check_orders(&b.raws, &l.classic).map_err(|e| format!("after loading: {e}"))?;
    if index % 4 == 0 {
        check_orders(&b.raws, &shipped(&b.raws)?.classic).map_err(|e| format!("in the finished file: {e}"))?;
    }
    Ok(about(&b.raws))
}

pub fn features(rng: &mut Rng, index: u64) -> Case {
    let raws = catalogue(rng);
    let (b, l) = both(rng, raws)?;
    check_features(&b.raws, b.container, rng)?;
    check_features(&b.raws, l.index.product_container, rng).map_err(|e| format!("after loading: {e}"))?;
    if index % 4 == 1 {
        check_features(&b.raws, shipped(&b.raws)?.index.product_container, rng).map_err(|e| format!("in the finished file: {e}"))?;
    }
    if index % 2 == 0 {
        added_features(rng, &b.container.products)?;
    }
    Ok(about(&b.raws))
}

/// Values added to features in the order of the products read back per product.
fn added_features(rng: &mut Rng, ps: &[Product<'_>]) -> Result<(), String> {
    let mut f = FeatureSet::new_empty();
    let n = rng.below(ps.len() + 1);
    let ints: Vec<u32> = (0..n).map(|_| rng.u64() as u32).collect();
    let floats: Vec<f32> = (0..n).map(|_| rng.below(1000) as f32 / 8.0).collect();
    let texts: Vec<String> = (0..n).map(|_| rng.text(5)).collect();
    for i in 0..n {
        f.add_int("stock", ints[i]);
        f.add_float("weight", floats[i]);
        f.add_string("sku", texts[i].clone());
    }
    let again = match FeatureSet::deserialize(&enc(&f)) {
        Some((rest, v)) if rest.is_empty() => v,
        _ => return Err(format!("features {ints:?} {floats:?} {texts:?} do not load")),
    };
    for set in [&f, &again] {
        for (i, p) in ps.iter().enumerate() {
            let a = matches!(set.get(p, "stock"), Some(FeatureValue::Integer(v)) if Some(&v) == ints.get(i)) || (i >= n && set.get(p, "stock").is_none());
            let b = matches!(set.get(p, "weight"), Some(FeatureValue::Float(v)) if Some(&v) == floats.get(i)) || (i >= n && set.get(p, "weight").is_none());
            let c = matches!(set.get(p, "sku"), Some(FeatureValue::String(v)) if Some(v) == texts.get(i).map(|s| s.as_str())) || (i >= n && set.get(p, "sku").is_none());
            let d = set.get_js(p, "stock").and_then(|v| v.as_f64()) == ints.get(i).map(|v| f64::from(*v));
            if !(a && b && c && d) {
                return Err(format!("features {ints:?} {floats:?} {texts:?} of product {i}: {} {} {}", show(set.get(p, "stock")), show(set.get(p, "weight")), show(set.get(p, "sku"))));
            }
        }
    }
    Ok(())
}

pub fn vendors(rng: &mut Rng, _: u64) -> Case {
    let raws = catalogue(rng);
    let (b, l) = both(rng, raws)?;
    check_vendors(&b.raws, b.container)?;
    check_vendors(&b.raws, l.index.product_container).map_err(|e| format!("after loading: {e}"))?;
    let ids = |c: &ProductContainer<'_>| c.vendors.by_id.iter().map(|v| v.name.clone()).collect::<Vec<_>>();
    if ids(b.container) != ids(l.index.product_container) {
        return Err(format!("vendors {:?} load as {:?}", ids(b.container), ids(l.index.product_container)));
    }
    Ok(about(&b.raws))
}

/// P07: one product container, saved on its own.
pub fn records(rng: &mut Rng, _: u64) -> Case {
    let raws = catalogue(rng);
    let b = gen::build::<5>(raws);
    check_products(&b.raws, &b.container.products, false)?;
    let mut bytes = enc(b.container);
    let written = bytes.len();
    bytes.extend([7, 8, 9]);
    let alloc: &'static indexer_lib::data::SuperAlloc = Box::leak(Box::default());
    let (rest, c) = ProductContainer::deserialize(&bytes, alloc).ok_or(format!("the products {:?} do not load", b.raws))?;
    if rest != [7, 8, 9] {
        return Err(format!("products {:?} take {written} bytes, {} are read", b.raws, bytes.len() - rest.len()));
    }
    check_products(&b.raws, &c.products, true)?;
    // one product on its own
    if !c.products.is_empty() {
        let p = rng.pick(&b.container.products);
        let bytes = enc(p);
        let id = rng.below(1000);
        match Product::deserialize(&bytes, id, &b.container.vendors) {
            Some((rest, q)) if rest.is_empty() && q.title == p.title && q.id == p.id && q.vendor.name == p.vendor.name && q.serialization_id == id && q.description == limited(&p.description) => {}
            other => return Err(format!("product {p:?} loads as {other:?}")),
        }
    }
    // a list of features of each kind
    let f = match rng.below(3) {
        0 => Feature::String((0..rng.below(5)).map(|_| rng.text(6)).collect()),
        1 => Feature::Float((0..rng.below(200)).map(|_| rng.below(100_000) as f32 / 16.0).collect()),
        _ => Feature::Integer((0..rng.below(200)).map(|_| rng.u64() as u32).collect()),
    };
    match Feature::deserialize(&enc(&f)) {
        Some((rest, g)) if rest.is_empty() && g == f => {}
        _ => return Err("a feature list does not come back".into()),
    }
    let _ = c;
    Ok(about(&b.raws))
}

pub fn same_index<const N: usize>(a: &gen::Index<N>, b: &gen::Index<N>) -> Result<(), String> {
    same_grams(a, b)?;
    for (c, n) in &a.roots {
        same_node(n, b.roots[c])?;
    }
    Ok(())
}

fn same_tree(a: &indexer_lib::ngram::GramNode<'_, char>, b: &indexer_lib::ngram::GramNode<'_, char>) -> Result<(), String> {
    if a.item != b.item || a.weight.to_bits() != b.weight.to_bits() || a.items.len() != b.items.len() {
        return Err(format!("node {:?} of weight {} becomes {:?} of weight {}", a.item, a.weight, b.item, b.weight));
    }
    for (c, x) in &a.items {
        same_tree(x, b.items.get(c).ok_or(format!("child {c:?} of {:?} is lost", a.item))?)?;
    }
    Ok(())
}

fn same_grams<const N: usize>(a: &gen::Index<N>, b: &gen::Index<N>) -> Result<(), String> {
    if a.data.len() != b.data.len() {
        return Err(format!("{} grams become {}", a.data.len(), b.data.len()));
    }
    for (g, ps) in &a.data {
        let x: Vec<usize> = ps.iter().map(|p| p.serialization_id).collect();
        let y: Option<Vec<usize>> = b.data.get(g).map(|ps| ps.iter().map(|p| p.serialization_id).collect());
        if Some(&x) != y.as_ref() {
            return Err(format!("gram {g:?} lists {x:?}, then {y:?}"));
        }
    }
    if a.roots.len() != b.roots.len() {
        return Err(format!("{} roots become {}", a.roots.len(), b.roots.len()));
    }
    for (c, n) in &a.roots {
        let m = b.roots.get(c).ok_or(format!("root {c:?} is lost"))?;
        same_tree(n, m)?;
    }
    Ok(())
}

fn same_node(a: &indexer_lib::ngram::GramNode<'_, char>, b: &indexer_lib::ngram::GramNode<'_, char>) -> Result<(), String> {
    if a.item != b.item || a.weight.to_bits() != b.weight.to_bits() {
        return Err(format!("node {:?} of weight {} becomes {:?} of weight {}", a.item, a.weight, b.item, b.weight));
    }
    if a.by_occurances.len() != b.by_occurances.len() || a.items.len() != b.items.len() {
        return Err(format!("node {:?} has {} children, then {} and {}", a.item, a.by_occurances.len(), b.by_occurances.len(), b.items.len()));
    }
    for (x, y) in a.by_occurances.iter().zip(&b.by_occurances) {
        same_node(x, y)?;
    }
    for (c, x) in &a.items {
        let y = b.items.get(c).ok_or(format!("child {c:?} of {:?} is lost", a.item))?;
        if y.item != x.item || y.weight.to_bits() != x.weight.to_bits() {
            return Err(format!("child {c:?} of {:?} becomes {:?}", a.item, y.item));
        }
    }
    Ok(())
}

fn whole_n<const N: usize>(rng: &mut Rng, raws: Vec<Raw>) -> Case {
    let mut b = gen::build::<N>(raws);
    if let Some(c) = b.classic.categories.0.iter().find(|c| c.exclusive) {
        return Err(format!("category {:?} became exclusive", c.name));
    }
    for c in &mut b.classic.categories.0 {
        c.exclusive = rng.chance(1, 2);
    }
    let bytes = gen::save(&b);
    let mut input = bytes.clone();
    if rng.chance(1, 3) {
        input.extend([0, 1, 2]);
    }
    let l = gen::load::<N>(&input).ok_or(format!("the saved index of {:?} does not load", b.raws))?;
    let c = l.index.product_container;
    check_products(&b.raws, &c.products, true)?;
    check_vendors(&b.raws, c)?;
    check_features(&b.raws, c, rng)?;
    check_categories(&b.raws, &l.classic, &c.products)?;
    check_tags(&b.raws, &l.classic, &c.products)?;
    check_orders(&b.raws, &l.classic)?;
    let exclusive = |c: &ClassicIndexes<'_>| c.categories.0.iter().map(|c| c.exclusive).collect::<Vec<_>>();
    if exclusive(&b.classic) != exclusive(&l.classic) {
        return Err(format!("exclusive categories {:?} load as {:?}", exclusive(&b.classic), exclusive(&l.classic)));
    }
    same_index(&b.index, &l.index)?;
    if !(b.index == l.index) || !(b.classic == l.classic) {
        return Err(format!("the index of {:?} differs from what loads", b.raws));
    }
    // Saving what was loaded keeps it the same once more
    let again = indexer_lib::serialize::serialize_all(&l.index, &l.classic);
    let m = gen::load::<N>(&again).ok_or(format!("the index of {:?}, saved twice, does not load", b.raws))?;
    if !(m.index == l.index) || !(m.classic == l.classic) {
        return Err(format!("the index of {:?} changes when saved again", b.raws));
    }
    same_index(&m.index, &l.index)?;
    check_products(&b.raws, &m.index.product_container.products, true)?;
    Ok(format!("N={N}: {}", about(&b.raws)))
}

pub fn whole(rng: &mut Rng, index: u64) -> Case {
    let raws = catalogue(rng);
    match index % 8 {
        0 => whole_n::<3>(rng, raws),
        1 => whole_n::<8>(rng, raws),
        2 => whole_n::<2>(rng, raws),
        3 => {
            // The endpoint that a build of the search page uses
            let alloc: &'static indexer_lib::data::SuperAlloc = Box::leak(Box::default());
            let bytes = indexer_lib::index_and_serialize(gen::raw_products(&raws), alloc).map_err(|e| e.to_string())?;
            let l = gen::load::<5>(&bytes).ok_or("the finished file does not load")?;
            check_products(&raws, &l.index.product_container.products, true)?;
            check_tags(&raws, &l.classic, &l.index.product_container.products)?;
            // another build may order children of the same weight differently
            same_grams(&gen::build::<5>(raws.clone()).index, &l.index)?;
            Ok(format!("endpoint: {}", about(&raws)))
        }
        _ => whole_n::<5>(rng, raws),
    }
}

/// P20
pub fn producer(rng: &mut Rng, _: u64) -> Case {
    use indexer_lib::js_interactable::ProductProducer;
    let raws = catalogue(rng);
    let (b, l) = both(rng, raws)?;
    let n = b.raws.len();
    // a container of its own, with more features for some of the products
    let mut own = match ProductContainer::deserialize(&enc(b.container), Box::leak(Box::new(SuperAlloc::new()))) {
        Some((_, c)) => c,
        None => return Err("the products do not load".to_string()),
    };
    let stock: Vec<u32> = (0..rng.below(n + 1)).map(|_| rng.u64() as u32).collect();
    let sku: Vec<String> = (0..rng.below(n + 1)).map(|_| rng.text(4)).collect();
    for v in &stock {
        own.extra_features.add_int("stock", *v);
    }
    for v in &sku {
        own.extra_features.add_string("sku", v.clone());
    }
    let which = rng.below(3);
    let c: &'static ProductContainer<'static> = match which {
        0 => b.container,
        1 => l.index.product_container,
        _ => Box::leak(Box::new(own)),
    };
    let saved = which > 0;
    let most = if rng.chance(1, 20) { 3000 } else { 12 };
    let bad = if rng.chance(1, 2) { 30 } else { 3000 };
    let ids: Vec<usize> = (0..rng.below(most)).map(|_| if n == 0 || rng.chance(1, bad) { n + rng.below(3) } else { rng.below(n) }).collect();
    let mut producer = ProductProducer::new(c, ids.clone());
    // everything up to the first id that is no product
    let good = ids.iter().position(|i| *i >= n).unwrap_or(ids.len());
    for (k, i) in ids[..good].iter().enumerate() {
        let p = producer.next_product().ok_or(format!("results {ids:?}: nothing at position {k}"))?;
        let r = &b.raws[*i];
        let d = if saved { limited(&r.description) } else { r.description.clone() };
        if p.get_id() != r.id || p.get_title() != r.title || p.get_description() != d {
            return Err(format!("results {ids:?}: position {k} is {:?}, expected {r:?}", (p.get_id(), p.get_title(), p.get_description())));
        }
        if p.numeric_feature("price") != Some(f64::from(price(r))) || p.string_feature("image_url").as_deref() != Some(image(r)) {
            return Err(format!("results {ids:?}: position {k} has price {:?} and image {:?}, expected {r:?}", p.numeric_feature("price"), p.string_feature("image_url")));
        }
        if p.numeric_feature("image_url").is_some() || p.string_feature("price").is_some() || p.string_feature("nothing").is_some() || p.numeric_feature("nothing").is_some() {
            return Err(format!("results {ids:?}: position {k} has a feature of the wrong kind"));
        }
        if which == 2 && (p.numeric_feature("stock") != stock.get(*i).map(|v| f64::from(*v)) || p.string_feature("sku").as_deref() != sku.get(*i).map(|s| s.as_str()) || p.string_feature("stock").is_some() || p.numeric_feature("sku").is_some()) {
            return Err(format!("results {ids:?}: position {k} has stock {:?} and sku {:?}, expected {:?} and {:?}", p.numeric_feature("stock"), p.string_feature("sku"), stock.get(*i), sku.get(*i)));
        }
    }
    for _ in 0..3 {
        if let Some(p) = producer.next_product() {
            return Err(format!("results {ids:?} of {n} products: {:?} after the end", p.get_id()));
        }
    }
    Ok(format!("{n} products, results {ids:?}"))
}
