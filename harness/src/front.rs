//! P17..P19, P22, P23: the search page's side.
use crate::codec::Case;
use crate::data;
use crate::gen::{self, Loaded, Raw, Size};
use crate::gram;
use crate::rng::Rng;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{FeatureSet, Product};
use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, FeatureFilter, JSTag, TagHandler};
use js_sys::{Function, Object, Reflect};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Arc;
use wasm_bindgen::JsValue;

fn catalogue(rng: &mut Rng) -> Vec<Raw> {
    let s = match gen::size(rng) {
        Size::Large if rng.chance(2, 3) => Size::Medium,
        s => s,
    };
    gen::catalogue(rng, s)
}

fn loaded(rng: &mut Rng) -> Result<(Vec<Raw>, Arc<ClassicIndexes<'static>>, Loaded<5>), String> {
    let raws = catalogue(rng);
    let (b, l) = data::both(rng, raws)?;
    let again = gen::load::<5>(&gen::save(&b)).ok_or("does not load")?;
    Ok((b.raws, Arc::new(l.classic), again))
}

struct Opt {
    key: (usize, usize),
    item: ExportCategoryOption,
}

fn all_options(h: &CategoryHandler, classic: &ClassicIndexes<'_>) -> Result<Vec<Opt>, String> {
    let mut out = Vec::new();
    let mut cats = h.iter();
    let mut k = 0;
    while let Some(mut options) = cats.next_item() {
        let c = classic.categories.get(k).ok_or(format!("category {k} is listed and does not exist"))?;
        if options.name() != c.name {
            return Err(format!("category {k} is called {:?}, listed as {:?}", c.name, options.name()));
        }
        let mut o = 0;
        while let Some(item) = options.next_item() {
            let want = c.options.get(o).ok_or(format!("option {o} of {:?} is listed and does not exist", c.name))?;
            if item.get_name() != want.name || item.keys() != (k, o) {
                return Err(format!("option {:?} is listed as {:?} with keys {:?}", want.name, item.get_name(), item.keys()));
            }
            out.push(Opt { key: (k, o), item });
            o += 1;
        }
        if o != c.options.len() {
            return Err(format!("{o} of {} options of {:?} are listed", c.options.len(), c.name));
        }
        k += 1;
    }
    if k != classic.categories.0.len() {
        return Err(format!("{k} of {} categories are listed", classic.categories.0.len()));
    }
    Ok(out)
}

fn all_tags(h: &TagHandler, classic: &ClassicIndexes<'_>) -> Result<Vec<JSTag>, String> {
    let mut out = Vec::new();
    let mut it = h.tags();
    while let Some(t) = it.next_tag() {
        let want = classic.tags.get(out.len()).ok_or("a tag is listed that does not exist")?;
        if t.get_name() != want.name || t.get_id() != out.len() {
            return Err(format!("tag {:?} is listed as {:?} with id {}", want.name, t.get_name(), t.get_id()));
        }
        out.push(t);
    }
    if classic.tags.get(out.len()).is_some() {
        return Err(format!("only {} tags are listed", out.len()));
    }
    Ok(out)
}

fn under(raw: &Raw, cat: &str, option: &str) -> bool {
    raw.options.iter().any(|(n, vs)| n == cat && vs.iter().any(|v| v == option))
}

pub fn facets(rng: &mut Rng, _: u64) -> Case {
    let (raws, classic, l) = loaded(rng)?;
    let ps = &l.index.product_container.products;
    let mut cats = CategoryHandler::new(classic.clone());
    let mut tags = TagHandler::new(classic.clone());
    let options = all_options(&cats, &classic)?;
    let all = all_tags(&tags, &classic)?;
    let mut on_o: BTreeSet<usize> = BTreeSet::new();
    let mut on_t: BTreeSet<usize> = BTreeSet::new();
    let mut steps = Vec::new();
    let most = if ps.len() < 60 && rng.chance(1, 8) { 60 } else { 10 };
    // now and then everything one product has
    let one = if most > 10 && !raws.is_empty() && rng.chance(2, 3) { Some(rng.pick(&raws)) } else { None };
    let mine_o: Vec<usize> = (0..options.len())
        .filter(|k| {
            let (c, o) = options[*k].key;
            one.is_some_and(|r| under(r, &classic.categories[c].name, &classic.categories[c].options[o].name))
        })
        .take(30)
        .collect();
    let mine_t: Vec<usize> = (0..all.len()).filter(|k| one.is_some_and(|r| r.tags.contains(&all[*k].get_name()))).take(30).collect();
    let directed = mine_o.len() + mine_t.len();
    for step in 0..directed + rng.below(most) {
        if step < mine_o.len() {
            let k = mine_o[step];
            cats.toggle(&options[k].item);
            steps.push(format!("option {:?}", options[k].key));
            on_o.insert(k);
        } else if step < directed {
            let k = mine_t[step - mine_o.len()];
            tags.toggle(&all[k]);
            steps.push(format!("tag {k}"));
            on_t.insert(k);
        } else if rng.chance(1, 2) && !options.is_empty() {
            let k = if rng.chance(1, 2) { gen::edge(rng, options.len()) } else { *on_o.iter().next().unwrap_or(&0) };
            cats.toggle(&options[k].item);
            steps.push(format!("option {:?}", options[k].key));
            if !on_o.remove(&k) {
                on_o.insert(k);
            }
        } else if !all.is_empty() {
            let k = if rng.chance(1, 2) { gen::edge(rng, all.len()) } else { *on_t.iter().next().unwrap_or(&0) };
            tags.toggle(&all[k]);
            steps.push(format!("tag {k}"));
            if !on_t.remove(&k) {
                on_t.insert(k);
            }
        }
        for (k, o) in options.iter().enumerate() {
            if cats.get_status(&o.item) != on_o.contains(&k) {
                return Err(format!("after toggling {steps:?} option {:?} is {}", o.key, cats.get_status(&o.item)));
            }
        }
        for (k, t) in all.iter().enumerate() {
            if tags.get_status(t) != on_t.contains(&k) {
                return Err(format!("after toggling {steps:?} tag {k} is {}", tags.get_status(t)));
            }
        }
        for (i, p) in ps.iter().enumerate() {
            let want_o = on_o.iter().all(|k| {
                let (c, o) = options[*k].key;
                let cat = &classic.categories[c];
                under(&raws[i], &cat.name, &cat.options[o].name)
            });
            let want_t = on_t.iter().all(|k| raws[i].tags.contains(&all[*k].get_name()));
            if cats.is_valid(p) != want_o {
                return Err(format!("after toggling {steps:?} product {i} with options {:?} is {}", raws[i].options, if want_o { "left out" } else { "let through" }));
            }
            if tags.is_valid(p) != want_t {
                return Err(format!("after toggling {steps:?} product {i} with tags {:?} is {}", raws[i].tags, if want_t { "left out" } else { "let through" }));
            }
        }
    }
    Ok(format!("{} products, {} options, {} tags, toggled {steps:?}", raws.len(), options.len(), all.len()))
}

type Log = Rc<RefCell<Vec<(usize, Option<bool>, usize)>>>;

fn listener(log: &Log, id: usize, fails: bool) -> Function {
    let log = log.clone();
    Function::from_rust(move |args| {
        log.borrow_mut().push((id, args.first().and_then(|a| a.as_bool()), args.len()));
        if fails {
            Err(JsValue::from_str("no"))
        } else {
            Ok(JsValue::UNDEFINED)
        }
    })
}

pub fn observers(rng: &mut Rng, _: u64) -> Case {
    let (_, classic, _) = loaded(rng)?;
    let mut cats = CategoryHandler::new(classic.clone());
    let mut tags = TagHandler::new(classic.clone());
    let options = all_options(&cats, &classic)?;
    let all = all_tags(&tags, &classic)?;
    let log: Log = Rc::new(RefCell::new(Vec::new()));
    // who listens to what: (listener, item), None = everything
    let mut on_o: Vec<(usize, Option<usize>, Function)> = Vec::new();
    let mut on_t: Vec<(usize, Option<usize>, Function)> = Vec::new();
    let mut state_o = BTreeSet::new();
    let mut state_t = BTreeSet::new();
    let mut steps = Vec::new();
    let mut next = 0;
    let most = if rng.chance(1, 8) { 200 } else { 24 };
    for _ in 0..rng.below(most) {
        let pick_o = rng.below(options.len().min(3));
        let pick_t = rng.below(all.len().min(3));
        // now and then a long row of listeners
        match rng.below(8) & if most > 24 && rng.chance(1, 2) { 3 } else { 7 } {
            0 | 1 if !options.is_empty() => {
                // sometimes one that listens already
                let (who, f) = match rng.below(on_o.len() + 2) {
                    k if k < on_o.len() => (on_o[k].0, on_o[k].2.clone()),
                    _ => {
                        next += 1;
                        (next, listener(&log, next, rng.chance(1, 5)))
                    }
                };
                if rng.chance(1, 4) {
                    cats.add_general_observer(f.clone());
                    on_o.push((who, None, f));
                    steps.push(format!("{who} listens to all options"));
                } else {
                    cats.add_option_lister(&options[pick_o].item, f.clone());
                    on_o.push((who, Some(pick_o), f));
                    steps.push(format!("{who} listens to option {pick_o}"));
                }
            }
            2 | 3 if !all.is_empty() => {
                let (who, f) = match rng.below(on_t.len() + 2) {
                    k if k < on_t.len() => (on_t[k].0, on_t[k].2.clone()),
                    _ => {
                        next += 1;
                        (next, listener(&log, next, rng.chance(1, 5)))
                    }
                };
                if rng.chance(1, 4) {
                    tags.add_general_observer(f.clone());
                    on_t.push((who, None, f));
                    steps.push(format!("{who} listens to all tags"));
                } else {
                    tags.add_tag_lister(&all[pick_t], f.clone());
                    on_t.push((who, Some(pick_t), f));
                    steps.push(format!("{who} listens to tag {pick_t}"));
                }
            }
            4 if !options.is_empty() => {
                let f = if on_o.is_empty() || rng.chance(1, 6) { listener(&log, 999, false) } else { on_o[rng.below(on_o.len())].2.clone() };
                cats.remove_option_listener(&options[pick_o].item, &f);
                if let Some(at) = on_o.iter().position(|(_, k, g)| *k == Some(pick_o) && *g == f) {
                    steps.push(format!("{} stops listening to option {pick_o}", on_o[at].0));
                    on_o.remove(at);
                }
            }
            5 if !all.is_empty() => {
                let f = if on_t.is_empty() || rng.chance(1, 6) { listener(&log, 999, false) } else { on_t[rng.below(on_t.len())].2.clone() };
                tags.remove_tag_listener(&all[pick_t], &f);
                if let Some(at) = on_t.iter().position(|(_, k, g)| *k == Some(pick_t) && *g == f) {
                    steps.push(format!("{} stops listening to tag {pick_t}", on_t[at].0));
                    on_t.remove(at);
                }
            }
            6 if !options.is_empty() => {
                log.borrow_mut().clear();
                cats.toggle(&options[pick_o].item);
                let now = if state_o.remove(&pick_o) { false } else { state_o.insert(pick_o) };
                steps.push(format!("option {pick_o} turns {now}"));
                check_log(&log, on_o.iter().filter(|(_, k, _)| k.is_none() || *k == Some(pick_o)).map(|x| x.0).collect(), now, &steps)?;
            }
            7 if !all.is_empty() => {
                log.borrow_mut().clear();
                tags.toggle(&all[pick_t]);
                let now = if state_t.remove(&pick_t) { false } else { state_t.insert(pick_t) };
                steps.push(format!("tag {pick_t} turns {now}"));
                check_log(&log, on_t.iter().filter(|(_, k, _)| k.is_none() || *k == Some(pick_t)).map(|x| x.0).collect(), now, &steps)?;
            }
            _ => {}
        }
    }
    Ok(format!("{steps:?}"))
}

fn check_log(log: &Log, mut want: Vec<usize>, now: bool, steps: &[String]) -> Result<(), String> {
    let log = log.borrow();
    let mut got: Vec<usize> = log.iter().map(|x| x.0).collect();
    got.sort_unstable();
    want.sort_unstable();
    if got != want {
        return Err(format!("{steps:?}: {got:?} are told, expected {want:?}"));
    }
    if let Some(x) = log.iter().find(|x| x.1 != Some(now)) {
        return Err(format!("{steps:?}: {} is told {:?}", x.0, x.1));
    }
    Ok(())
}

// ---- filters ------------------------------------------------------------------------

#[derive(Clone, Debug)]
pub struct Filter {
    feature: String,
    exact: Option<JsValue>,
    from: Option<JsValue>,
    to: Option<JsValue>,
}

fn number(rng: &mut Rng, raws: &[Raw]) -> JsValue {
    if raws.is_empty() || rng.chance(1, 4) {
        return JsValue::from_f64(rng.below(1000) as f64 / 4.0);
    }
    let v = f64::from(rng.pick(raws).price.parse::<f32>().unwrap());
    JsValue::from_f64(v + [0.0, 0.0, 0.0, 0.5, -0.5][rng.below(5)])
}

fn filter(rng: &mut Rng, raws: &[Raw]) -> Filter {
    let feature = match rng.below(6) {
        0 => "missing".to_string(),
        1 | 2 => "image_url".to_string(),
        _ => "price".to_string(),
    };
    let any = |rng: &mut Rng| match rng.below(6) {
        0 => JsValue::NULL,
        1 => JsValue::UNDEFINED,
        2 => JsValue::from_str("7"),
        _ => number(rng, raws),
    };
    let mut f = Filter { feature, exact: None, from: None, to: None };
    if rng.chance(1, 3) {
        f.exact = Some(if f.feature == "image_url" && !raws.is_empty() && rng.chance(3, 4) {
            JsValue::from(rng.pick(raws).media.first().cloned().unwrap_or_default())
        } else {
            number(rng, raws)
        });
        if rng.chance(1, 8) {
            f.exact = Some(any(rng));
        }
    } else {
        if rng.chance(2, 3) {
            f.from = Some(any(rng));
        }
        if rng.chance(2, 3) {
            f.to = Some(any(rng));
        }
    }
    if rng.chance(1, 6) {
        // a value and bounds together
        f.exact = Some(any(rng));
        f.from = if rng.chance(1, 2) { Some(any(rng)) } else { None };
        f.to = if rng.chance(1, 2) { Some(any(rng)) } else { None };
    }
    f
}

pub fn js_filters(fs: &[Filter]) -> Object {
    let out = Object::new();
    for f in fs {
        let o = Object::new();
        for (k, v) in [("exact", &f.exact), ("from", &f.from), ("to", &f.to)] {
            if let Some(v) = v {
                let _ = Reflect::set(&o, &JsValue::from_str(k), v);
            }
        }
        let _ = Reflect::set(&out, &JsValue::from_str(&f.feature), &o);
    }
    out
}

/// An exact value is compared; without one the bounds that are numbers count.
fn passes(f: &Filter, r: &Raw) -> bool {
    let value = match f.feature.as_str() {
        "price" => Some(JsValue::from_f64(f64::from(r.price.parse::<f32>().unwrap()))),
        "image_url" => Some(JsValue::from(r.media.first().cloned().unwrap_or_default())),
        _ => None,
    };
    let given = |v: &Option<JsValue>| v.as_ref().is_some_and(|v| !v.is_undefined());
    if given(&f.exact) && !given(&f.from) && !given(&f.to) {
        return value.is_some() && value == f.exact;
    }
    let from = f.from.as_ref().and_then(|v| v.as_f64());
    let to = f.to.as_ref().and_then(|v| v.as_f64());
    if from.is_none() && to.is_none() {
        return true;
    }
    match value.and_then(|v| v.as_f64()) {
        None => false,
        Some(v) => from.is_none_or(|a| a <= v) && to.is_none_or(|b| v <= b),
    }
}

fn dedup(fs: Vec<Filter>) -> Vec<Filter> {
    let mut out: Vec<Filter> = Vec::new();
    for f in fs {
        if !out.iter().any(|g| g.feature == f.feature) {
            out.push(f);
        }
    }
    out
}

pub fn filters(rng: &mut Rng, index: u64) -> Case {
    let raws = catalogue(rng);
    let (b, l) = data::both(rng, raws)?;
    let c = if rng.chance(1, 2) { b.container } else { l.index.product_container };
    let mut fs = dedup((0..rng.below(4)).map(|_| filter(rng, &b.raws)).collect());
    if rng.chance(1, 6) {
        // among many that set no limit
        for k in 0..rng.below(16) {
            let nothing = match rng.below(3) {
                0 => None,
                1 => Some(JsValue::UNDEFINED),
                _ => Some(JsValue::from_str("7")),
            };
            let at = rng.below(fs.len() + 1);
            fs.insert(at, Filter { feature: format!("f{k}"), exact: None, from: nothing.clone(), to: nothing });
        }
    }
    if index % 7 == 3 {
        // not an object of objects: refused
        let o = Object::new();
        let _ = Reflect::set(&o, &JsValue::from_str("price"), &[JsValue::from_f64(4.0), JsValue::from_str("x"), JsValue::NULL, JsValue::UNDEFINED][rng.below(4)]);
        if let Some(list) = FeatureFilter::parse(&o) {
            return Err(format!("filter {o:?} is accepted as {} filters", list.len()));
        }
    }
    let parsed = FeatureFilter::parse(&js_filters(&fs)).ok_or(format!("filters {fs:?} are refused"))?;
    if parsed.len() != fs.len() {
        return Err(format!("filters {fs:?} become {}", parsed.len()));
    }
    let got = apply(&parsed, &c.products, &c.extra_features);
    let want: Vec<usize> = (0..b.raws.len()).filter(|i| fs.iter().all(|f| passes(f, &b.raws[*i]))).collect();
    if got != want {
        let prices: Vec<_> = b.raws.iter().map(|r| (&r.price, r.media.first())).collect();
        return Err(format!("filters {fs:?} on {prices:?} keep {got:?}, expected {want:?}"));
    }
    // the two constructors
    if let Some(f) = fs.first() {
        let made = match &f.exact {
            Some(v) => FeatureFilter::new_exactly(v.clone(), f.feature.clone()),
            None => FeatureFilter::new_range(f.from.clone().unwrap_or_default(), f.to.clone().unwrap_or_default(), f.feature.clone()),
        };
        if f.exact.as_ref().is_none_or(|v| !v.is_undefined() && f.from.is_none() && f.to.is_none()) {
            let got = apply(std::slice::from_ref(&made), &c.products, &c.extra_features);
            let want: Vec<usize> = (0..b.raws.len()).filter(|i| passes(f, &b.raws[*i])).collect();
            if got != want {
                return Err(format!("filter {f:?} keeps {got:?}, expected {want:?}"));
            }
        }
    }
    Ok(format!("{} products, filters {fs:?}, {} kept", b.raws.len(), want.len()))
}

fn apply(fs: &[FeatureFilter], ps: &[Product<'_>], features: &FeatureSet) -> Vec<usize> {
    // The real signature asks for one lifetime for everything
    let ps: &'static [Product<'static>] = unsafe { std::mem::transmute(ps) };
    let features: &'static FeatureSet = unsafe { std::mem::transmute(features) };
    let fs: &'static [FeatureFilter] = unsafe { std::mem::transmute(fs) };
    let mut it: Box<dyn Iterator<Item = &'static Product<'static>>> = Box::new(ps.iter());
    for f in fs {
        it = f.filter(it, features);
    }
    it.map(|p| p.serialization_id).collect()
}

// ---- the endpoints --------------------------------------------------------------------

fn overlap(tag: &str, word: &str) -> Option<(usize, usize)> {
    let a: Vec<char> = tag.chars().collect();
    let b: Vec<char> = word.chars().collect();
    let short = a.len().min(b.len());
    if short < 3 {
        return None;
    }
    let same = a.iter().zip(&b).filter(|(x, y)| x == y).count();
    if same * 5 > short * 4 {
        Some((same, short))
    } else {
        None
    }
}

pub fn suggestion(rng: &mut Rng, _: u64) -> Case {
    let mut raws = catalogue(rng);
    let letters = [&['a', 'b'][..], &['æ', 'ø', '👽'], &['a', 'B', 'é']][rng.below(3)];
    let long = rng.chance(1, 12);
    let mut names: Vec<String> = (0..rng.below(6)).map(|_| rng.word(letters, if long { 400 } else { 14 })).collect();
    let crowd = !raws.is_empty() && rng.chance(1, 40);
    if crowd {
        names.extend((0..300).map(|k| format!("{}{k:03}", rng.word(letters, 6))));
    }
    for r in &mut raws {
        r.tags = (0..rng.below(3)).filter_map(|_| if names.is_empty() { None } else { Some(rng.pick(&names).clone()) }).collect();
    }
    if crowd {
        raws[0].tags = names.clone();
    }
    let b = gen::build::<5>(raws);
    indexer_lib::initialize(&gen::save(&b));
    let tags: BTreeSet<&String> = b.raws.iter().flat_map(|r| &r.tags).collect();
    let mut last = String::new();
    for _ in 0..8 {
        let most = if rng.chance(1, 8) { 16 } else { 3 };
        let words: Vec<String> = (0..rng.range(0, most))
            .map(|_| {
                if names.is_empty() || rng.chance(1, 4) {
                    return rng.word(letters, 8);
                }
                let mut w: Vec<char> = rng.pick(&names).chars().collect();
                for _ in 0..rng.below(3) {
                    if !w.is_empty() {
                        let i = rng.below(w.len());
                        w[i] = *rng.pick(letters);
                    }
                }
                if rng.chance(1, 3) {
                    w.extend(rng.word(letters, 4).chars());
                }
                if rng.chance(1, 12) {
                    let at = rng.below(w.len() + 1);
                    w.insert(at, *rng.pick(&['\t', '\u{a0}', '\n', ',', '.', '-', '#', '\u{301}']));
                }
                if rng.chance(1, 12) {
                    w = w.iter().flat_map(|c| c.to_uppercase()).collect();
                }
                w.into_iter().collect()
            })
            .collect();
        let q = words.join(if rng.chance(1, 5) { "  " } else { " " });
        let mut best: Option<(usize, usize)> = None;
        for w in q.split(' ') {
            for t in &tags {
                if let Some((s, n)) = overlap(t, w) {
                    if best.is_none_or(|(s2, n2)| s * n2 > s2 * n) {
                        best = Some((s, n));
                    }
                }
            }
        }
        match (indexer_lib::tag_suggestion(&q), best) {
            (None, None) => {}
            (Some(r), None) => return Err(format!("{q:?} suggests {:?} for {:?} among {tags:?}", r.get_tag().get_name(), r.get_input())),
            (None, Some(b)) => return Err(format!("{q:?} suggests nothing among {tags:?}; {b:?} letters agree")),
            (Some(r), Some((s, n))) => {
                let name = r.get_tag().get_name();
                let word = r.get_input();
                if !q.split(' ').any(|w| w == word) || !tags.contains(&name) {
                    return Err(format!("{q:?} suggests {name:?} for {word:?} among {tags:?}"));
                }
                match overlap(&name, &word) {
                    Some((s2, n2)) if s2 * n == s * n2 => {}
                    other => return Err(format!("{q:?} suggests {name:?} for {word:?} ({other:?} letters agree) among {tags:?}; the best is {:?}", (s, n))),
                }
            }
        }
        last = q;
    }
    Ok(format!("tags {tags:?}, last query {last:?}"))
}

pub fn endpoint(rng: &mut Rng, index: u64) -> Case {
    // once per run: far more results than a page shows
    let flood = index == 3;
    let mut raws = if flood { gen::catalogue(rng, Size::Many) } else { catalogue(rng) };
    if flood {
        for (i, r) in raws.iter_mut().enumerate() {
            if i % 20 != 3 && i % 16 != 2 && i % 19 != 8 && i % 11 != 9 {
                r.description = "shared words".into();
            }
        }
    }
    let b = gen::build::<5>(raws);
    let bytes = if rng.chance(1, 2) { gen::save(&b) } else { gen::shipped::<5>(&b.raws)? };
    let l = gen::load::<5>(&bytes).ok_or("does not load")?;
    indexer_lib::initialize(&bytes);
    let mut names: Vec<String> = indexer_lib::get_orders().ok_or("no orders")?.iter().filter_map(|v| v.as_string()).collect();
    names.sort();
    if names != ["Alphabetical", "Price high to low", "Price low to high"] {
        return Err(format!("orders {names:?}"));
    }
    let mut cats = indexer_lib::get_categories().ok_or("no categories")?;
    let mut tags = indexer_lib::get_tags().ok_or("no tags")?;
    let options = all_options(&cats, &l.classic)?;
    let all = all_tags(&tags, &l.classic)?;
    let mut on_o = BTreeSet::new();
    let mut on_t = BTreeSet::new();
    let mut about = String::new();
    for step in 0..6 {
        let flood = flood && step < 2;
        if !flood && rng.chance(1, 3) && !options.is_empty() {
            let k = rng.below(options.len());
            cats.toggle(&options[k].item);
            if !on_o.remove(&k) {
                on_o.insert(k);
            }
        }
        if !flood && rng.chance(1, 3) && !all.is_empty() {
            let k = rng.below(all.len());
            tags.toggle(&all[k]);
            if !on_t.remove(&k) {
                on_t.insert(k);
            }
        }
        let fs = if flood || rng.chance(1, 2) { Vec::new() } else { dedup((0..rng.below(3)).map(|_| filter(rng, &b.raws)).collect()) };
        let q = if flood { "Shared".to_string() } else { gram::query(rng, &b.raws) };
        let order: Option<&str> = match rng.below(5) {
            0 => Some("Alphabetical"),
            1 => Some("Price low to high"),
            2 => Some("Price high to low"),
            _ => None,
        };
        if rng.chance(1, 10) {
            let known = ["Alphabetical", "Price low to high", "Price high to low"][rng.below(3)];
            let name = match rng.below(8) {
                0 => "Newest".to_string(),
                1 => String::new(),
                2 => known.to_lowercase(),
                3 => format!(" {known}"),
                4 => format!("{known} "),
                5 => known[..rng.below(known.len())].to_string(),
                6 => format!("{known}{known}"),
                _ => rng.text(6),
            };
            if !names.contains(&name) && indexer_lib::search(&q, &cats, &tags, Some(name.clone()), &js_filters(&fs)).is_some() {
                return Err(format!("the order {name:?} does not exist and is accepted"));
            }
        }
        if rng.chance(1, 10) {
            let o = js_filters(&fs);
            let bad = [JsValue::from_f64(4.0), JsValue::from_str("x"), JsValue::NULL, JsValue::UNDEFINED][rng.below(4)].clone();
            let _ = Reflect::set(&o, &JsValue::from_str("weight"), &bad);
            if indexer_lib::search(&q, &cats, &tags, None, &o).is_some() {
                return Err(format!("the filters {o:?} cannot be read and are accepted"));
            }
        }
        let mut producer = indexer_lib::search(&q, &cats, &tags, order.map(str::to_string), &js_filters(&fs)).ok_or(format!("searching {q:?} by {order:?} with {fs:?} fails"))?;
        let mut got = Vec::new();
        while let Some(p) = producer.next_product() {
            let id = p.get_id();
            got.push(b.raws.iter().position(|r| r.id == id).ok_or(format!("product {id:?} came from nowhere"))?);
            if got.len() > b.raws.len() {
                return Err(format!("{q:?} gives more products than there are"));
            }
        }
        let chars: Vec<char> = q.chars().flat_map(char::to_lowercase).collect();
        let scores = gram::scores(&l.index, &chars);
        let want: BTreeSet<usize> = scores
            .keys()
            .copied()
            .filter(|i| {
                let r = &b.raws[*i];
                on_o.iter().all(|k| {
                    let (c, o): (usize, usize) = options[*k].key;
                    under(r, &l.classic.categories[c].name, &l.classic.categories[c].options[o].name)
                }) && on_t.iter().all(|k: &usize| r.tags.contains(&all[*k].get_name()))
                    && fs.iter().all(|f| passes(f, r))
            })
            .collect();
        about = format!("{q:?} by {order:?} with {fs:?}, {} options and {} tags on: {got:?}", on_o.len(), on_t.len());
        if got.iter().copied().collect::<BTreeSet<_>>() != want || got.len() != want.len() {
            return Err(format!("{about}, expected {want:?}"));
        }
        for pair in got.windows(2) {
            let (x, y) = (&b.raws[pair[0]], &b.raws[pair[1]]);
            let price = |r: &Raw| r.price.parse::<f32>().unwrap();
            let wrong = match order {
                None => scores[&pair[0]] < scores[&pair[1]] * (1.0 - 1e-4),
                Some("Alphabetical") => x.title > y.title,
                Some("Price low to high") => price(x) > price(y),
                _ => price(x) < price(y),
            };
            if wrong {
                return Err(format!("{about}: {pair:?} are the wrong way round"));
            }
        }
    }
    Ok(format!("{} products; {about}", b.raws.len()))
}
