//! P09..P12: the n-gram index and the search in it.
use crate::codec::Case;
use crate::gen::{self, Index, Raw, Size};
use crate::rng::Rng;
use indexer_lib::ngram::GramNode;
use std::collections::{BTreeMap, BTreeSet, HashMap};

fn catalogue(rng: &mut Rng) -> Vec<Raw> {
    let s = match gen::size(rng) {
        Size::Large if rng.chance(2, 3) => Size::Medium,
        s => s,
    };
    gen::catalogue(rng, s)
}

fn windows<const N: usize>(chars: &[char]) -> Vec<[char; N]> {
    (0..chars.len())
        .map(|end| {
            let mut w = ['\0'; N];
            for k in 0..N {
                let at = end as isize - (N - 1 - k) as isize;
                if at >= 0 {
                    w[k] = chars[at as usize];
                }
            }
            w
        })
        .collect()
}

fn check_postings<const N: usize>(raws: &[Raw], index: &Index<N>) -> Result<(), String> {
    let mut want: BTreeMap<[char; N], Vec<usize>> = BTreeMap::new();
    for (i, r) in raws.iter().enumerate() {
        for w in windows::<N>(&gen::text(r)) {
            want.entry(w).or_default().push(i);
        }
    }
    let most = raws.len() * 4 / 5;
    want.retain(|_, ps| ps.iter().collect::<BTreeSet<_>>().len() <= most);
    for (g, ps) in &want {
        let have: Option<Vec<usize>> = index.data.get(g).map(|v| v.iter().map(|p| p.serialization_id).collect());
        if have.as_ref() != Some(ps) {
            return Err(format!("gram {g:?} occurs in products {ps:?} of {} and lists {have:?}; texts {:?}", raws.len(), raws.iter().map(gen::text).map(|t| t.into_iter().collect::<String>()).take(12).collect::<Vec<_>>()));
        }
    }
    for g in index.data.keys() {
        if !want.contains_key(g) {
            return Err(format!("gram {g:?} lists {:?} and should not be listed ({} products)", index.data[g].iter().map(|p| p.serialization_id).collect::<Vec<_>>(), raws.len()));
        }
    }
    for ps in index.data.values() {
        for p in ps {
            if !std::ptr::eq(*p, &index.product_container.products[p.serialization_id]) && **p != index.product_container.products[p.serialization_id] {
                return Err(format!("a gram lists {p:?}, which is not product {}", p.serialization_id));
            }
        }
    }
    Ok(())
}

fn postings_n<const N: usize>(raws: Vec<Raw>, finished: bool) -> Case {
    let b = gen::build::<N>(raws);
    check_postings(&b.raws, &b.index)?;
    let l = gen::load::<N>(&gen::save(&b)).ok_or("the index does not load")?;
    check_postings(&b.raws, &l.index).map_err(|e| format!("after loading: {e}"))?;
    if finished {
        let s = gen::load::<N>(&gen::shipped::<N>(&b.raws)?).ok_or("the finished file does not load")?;
        check_postings(&b.raws, &s.index).map_err(|e| format!("in the finished file: {e}"))?;
    }
    Ok(format!("N={N}, {} products, {} grams", b.raws.len(), b.index.data.len()))
}

pub fn postings(rng: &mut Rng, index: u64) -> Case {
    if index == 1 {
        // the proof assumes this of f32
        if let Some(n) = (0..0x40_0000usize).find(|n| (*n as f32 * 0.8f32) as usize != 4 * n / 5) {
            return Err(format!("assumption: four fifths of {n}"));
        }
        return Ok("four fifths of every length below 2^22".into());
    }
    let mut raws = catalogue(rng);
    if index % 3 == 0 {
        // shares of the catalogue around the cutoff
        let n = raws.len();
        let some = if n == 0 { 0 } else { (n * 4 / 5 + rng.below(3)).saturating_sub(1).min(n) };
        for r in raws.iter_mut().take(some) {
            r.description = format!("zzzz{}", r.description);
            if rng.chance(1, 4) {
                r.title = format!("zzzzz{}", r.title);
            }
        }
    }
    match index % 4 {
        0 => postings_n::<3>(raws, index % 8 == 0),
        1 => postings_n::<2>(raws, index % 8 == 1),
        _ => postings_n::<5>(raws, index % 8 == 2),
    }
}

// ---- the tree -----------------------------------------------------------------------

type Counts = HashMap<Vec<char>, u32>;

fn paths(raws: &[Raw], n: usize) -> Counts {
    let mut out = Counts::new();
    for r in raws {
        let t = gen::text(r);
        for start in 0..t.len() {
            for end in start + 1..=(start + n).min(t.len()) {
                *out.entry(t[start..end].to_vec()).or_insert(0) += 1;
            }
        }
    }
    out
}

fn check_node(path: &mut Vec<char>, n: &GramNode<'_, char>, parent: u32, counts: &Counts, depth: usize, seen: &mut usize) -> Result<(), String> {
    path.push(n.item);
    *seen += 1;
    let mine = *counts.get(path).ok_or(format!("{path:?} is in the tree and in no product"))?;
    if path.len() > depth {
        return Err(format!("{path:?} is deeper than {depth}"));
    }
    let want = mine as f32 / parent as f32;
    if n.weight != want {
        return Err(format!("{path:?} occurs {mine} times under {parent}: weight {}", n.weight));
    }
    if n.by_occurances.len() != n.items.len() {
        return Err(format!("{path:?} has {} children by weight, {} by letter", n.by_occurances.len(), n.items.len()));
    }
    let mut last = f32::INFINITY;
    for c in &n.by_occurances {
        if c.weight > last {
            return Err(format!("children of {path:?} out of order: {last} before {}", c.weight));
        }
        last = c.weight;
        match n.items.get(&c.item) {
            Some(d) if d.item == c.item && d.weight == c.weight && std::ptr::eq(*d, *c) => {}
            Some(d) => return Err(format!("child {:?} of {path:?} is found as {:?} of weight {}", c.item, d.item, d.weight)),
            None => return Err(format!("child {:?} of {path:?} cannot be found", c.item)),
        }
        check_node(path, c, mine, counts, depth, seen)?;
    }
    path.pop();
    Ok(())
}

fn check_tree<const N: usize>(raws: &[Raw], index: &Index<N>) -> Result<usize, String> {
    let counts = paths(raws, N);
    let total: u32 = counts.iter().filter(|(p, _)| p.len() == 1).map(|(_, c)| *c).sum();
    let mut seen = 0;
    for (c, root) in &index.roots {
        if *c != root.item {
            return Err(format!("root {c:?} holds {:?}", root.item));
        }
        check_node(&mut Vec::new(), root, total, &counts, N, &mut seen)?;
    }
    if seen != counts.len() {
        let mut lost: Vec<_> = counts.keys().filter(|p| !has_path(index, p)).collect();
        lost.sort();
        return Err(format!("{} paths occur in the products, {seen} are in the tree; missing {:?}", counts.len(), lost.first()));
    }
    Ok(seen)
}

fn has_path<const N: usize>(index: &Index<N>, p: &[char]) -> bool {
    let mut node = match index.roots.get(&p[0]) {
        Some(n) => *n,
        None => return false,
    };
    for c in &p[1..] {
        node = match node.items.get(c) {
            Some(n) => *n,
            None => return false,
        };
    }
    true
}

fn tree_n<const N: usize>(raws: Vec<Raw>) -> Case {
    let b = gen::build::<N>(raws);
    let n = check_tree(&b.raws, &b.index)?;
    let l = gen::load::<N>(&gen::save(&b)).ok_or("the index does not load")?;
    check_tree(&b.raws, &l.index).map_err(|e| format!("after loading: {e}"))?;
    if b.raws.len() % 4 == 3 {
        let s = gen::load::<N>(&gen::shipped::<N>(&b.raws)?).ok_or("the finished file does not load")?;
        check_tree(&b.raws, &s.index).map_err(|e| format!("in the finished file: {e}"))?;
    }
    for (c, root) in &b.index.roots {
        // the chain of heaviest children
        let chain = b.index.most_popular_chain(*c);
        let mut want = vec![root.item];
        let mut node = *root;
        while let Some(next) = node.by_occurances.first() {
            want.push(next.item);
            node = *next;
        }
        if chain != want {
            return Err(format!("most popular chain of {c:?} is {chain:?}, expected {want:?}"));
        }
    }
    Ok(format!("N={N}, {} products, {n} nodes", b.raws.len()))
}

pub fn tree(rng: &mut Rng, index: u64) -> Case {
    let mut raws = catalogue(rng);
    if raws.len() < 50 && rng.chance(1, 60) {
        skew(rng, &mut raws);
    }
    match index % 4 {
        0 => tree_n::<3>(raws),
        1 => tree_n::<2>(raws),
        2 if raws.len() < 50 && index % 16 == 2 => tree_n::<12>(raws),
        2 if raws.len() < 50 && index % 16 == 6 => tree_n::<9>(raws),
        2 if raws.len() < 50 => tree_n::<8>(raws),
        _ => tree_n::<5>(raws),
    }
}

// ---- fuzzy matching -----------------------------------------------------------------

/// Everything the query can be read as: keep the next letter, replace it, assume a
/// letter was left out, or assume the previous one was too many.
struct Reading<'a> {
    out: Vec<(Vec<char>, f32)>,
    n: usize,
    limit: usize,
    steps: usize,
    _m: std::marker::PhantomData<&'a ()>,
}

impl Reading<'_> {
    fn go(&mut self, input: &[char], node: &GramNode<'_, char>, above: Option<(&GramNode<'_, char>, f32)>, changes: usize, weight: f32, path: &mut Vec<char>) {
        self.steps += 1;
        if path.len() == self.n {
            self.out.push((path.clone(), weight));
            return;
        }
        let rest = input.get(1..).unwrap_or(&[]);
        if let Some(next) = input.first().and_then(|c| node.items.get(c)) {
            path.push(next.item);
            self.go(rest, next, Some((node, weight)), changes, weight * next.weight, path);
            path.pop();
        }
        if changes >= self.limit {
            return;
        }
        for next in &node.by_occurances {
            if Some(&next.item) == input.first() {
                continue;
            }
            path.push(next.item);
            self.go(rest, next, Some((node, weight)), changes + 1, weight * next.weight, path);
            // a letter left out counts as two changes further down
            self.go(input, next, Some((node, weight)), changes + 2, weight * next.weight, path);
            path.pop();
        }
        if let (Some(c), Some((above, before))) = (input.first(), above) {
            if let Some(other) = above.items.get(c) {
                let old = path.pop();
                path.push(other.item);
                self.go(rest, other, None, changes + 1, before * other.weight, path);
                path.pop();
                path.extend(old);
            }
        }
    }
}

/// Fewest letters to change, add or leave out to get a beginning of `query` (or of
/// its continuation) from `path`.
fn edits(query: &[char], path: &[char]) -> usize {
    let (n, m) = (query.len(), path.len());
    let mut d = vec![vec![0usize; m + 1]; n + 1];
    for i in 0..=n {
        d[i][0] = i;
    }
    for j in 0..=m {
        d[0][j] = j;
    }
    for i in 1..=n {
        for j in 1..=m {
            let same = d[i - 1][j - 1] + usize::from(query[i - 1] != path[j - 1]);
            d[i][j] = same.min(d[i - 1][j] + 1).min(d[i][j - 1] + 1);
        }
    }
    (0..=n).map(|i| d[i][m]).min().unwrap()
}

fn check_gram<const N: usize>(index: &Index<N>, query: [char; N]) -> Result<bool, String> {
    let got = index.search_gram(query);
    if got.map(|x| x.1.to_bits()) != index.search_gram(query).map(|x| x.1.to_bits()) {
        return Err(format!("{query:?} is found differently the second time"));
    }
    let root = index.roots.get(&query[0]);
    let mut all = Vec::new();
    if let Some(root) = root {
        let mut r = Reading { out: Vec::new(), n: N, limit: N / 3, steps: 0, _m: std::marker::PhantomData };
        r.go(&query[1..], root, None, 0, 1.0, &mut vec![query[0]]);
        all = r.out;
    }
    let best = all.iter().map(|(_, w)| *w).fold(f32::NEG_INFINITY, f32::max);
    match got {
        None => {
            if has_path(index, &query) {
                return Err(format!("{query:?} is in the tree and is not found"));
            }
            if !all.is_empty() {
                return Err(format!("{query:?} is not found and can be read as {:?}", all[0]));
            }
            Ok(false)
        }
        Some((path, weight)) => {
            if path[0] != query[0] {
                return Err(format!("{query:?} is read as {path:?}"));
            }
            if !has_path(index, &path) {
                return Err(format!("{query:?} is read as {path:?}, which no product has"));
            }
            if edits(&query, &path) > N / 3 {
                return Err(format!("{query:?} is read as {path:?}, {} changes away", edits(&query, &path)));
            }
            if !all.iter().any(|(p, w)| p[..] == path[..] && close(*w, weight)) {
                return Err(format!("{query:?} is read as {path:?} with confidence {weight}; readings {:?}", &all[..all.len().min(8)]));
            }
            let mut along = 1.0;
            let mut node = index.roots.get(&path[0]).copied();
            for c in &path[1..] {
                node = node.and_then(|n| n.items.get(c).copied());
                along *= node.map_or(0.0, |n| n.weight);
            }
            if !close(along, weight) {
                return Err(format!("{query:?} is read as {path:?} with confidence {weight}, the weights along it give {along}"));
            }
            if !close(best, weight) {
                return Err(format!("{query:?} is read as {path:?} with confidence {weight}, though {best} is possible"));
            }
            if N < 3 && path != query {
                return Err(format!("{query:?} is read as {path:?}"));
            }
            Ok(true)
        }
    }
}

fn close(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-5 * a.abs().max(b.abs())
}

fn query_gram<const N: usize>(rng: &mut Rng, raws: &[Raw], letters: &[char]) -> [char; N] {
    let mut q = ['\0'; N];
    let texts: Vec<Vec<char>> = raws.iter().map(gen::text).filter(|t| t.len() >= N).collect();
    if texts.is_empty() || rng.chance(1, 8) {
        for c in &mut q {
            *c = rng.pick(letters).to_lowercase().next().unwrap();
        }
        return q;
    }
    let t = rng.pick(&texts);
    let at = rng.below(t.len() - N + 1);
    let mut word: Vec<char> = t[at..(at + 2 * N).min(t.len())].to_vec();
    for _ in 0..rng.below(4) {
        let i = rng.below(word.len().min(N));
        let c = rng.pick(letters).to_lowercase().next().unwrap();
        match rng.below(3) {
            0 => word[i] = c,
            1 => word.insert(i, c),
            _ => {
                if word.len() > 1 {
                    word.remove(i);
                }
            }
        }
    }
    word.resize(N.max(word.len()), '?');
    q.copy_from_slice(&word[..N]);
    q
}

/// A rare word among tens of thousands of other letters.
fn skew(rng: &mut Rng, raws: &mut Vec<Raw>) {
    if raws.len() < 2 {
        return;
    }
    let letters = gen::alphabet(rng);
    let common: Vec<char> = letters.iter().copied().take(2).collect();
    let rare = format!("{}{}", common[0], rng.word(letters, 9));
    let mut text = String::new();
    let n = rng.range(10_000, 25_000);
    for _ in 0..n {
        text.push(if rng.chance(1, 50) { common[1] } else { common[0] });
    }
    text.push_str(&rare);
    raws.truncate(2);
    raws[0].description = text;
    raws[1].title = rare.clone();
    raws[1].description = rare;
}

fn fuzzy_n<const N: usize>(rng: &mut Rng, raws: Vec<Raw>, queries: usize) -> Case {
    let b = gen::build::<N>(raws);
    let letters = gen::alphabet(rng);
    let mut found = 0;
    let mut last = ['\0'; N];
    for _ in 0..queries {
        let q = query_gram::<N>(rng, &b.raws, letters);
        last = q;
        found += usize::from(check_gram(&b.index, q).map_err(|e| format!("{e}; texts {:?}", b.raws.iter().map(gen::text).map(|t| t.into_iter().collect::<String>()).take(10).collect::<Vec<_>>()))?);
    }
    Ok(format!("N={N}, {} products, {queries} queries ({found} found), last {last:?}", b.raws.len()))
}

pub fn fuzzy(rng: &mut Rng, index: u64) -> Case {
    let size = if rng.chance(1, 5) { Size::Medium } else { Size::Small };
    let mut raws = gen::catalogue(rng, size);
    if rng.chance(1, 24) {
        skew(rng, &mut raws);
    }
    match index % 6 {
        0 => fuzzy_n::<2>(rng, raws, 12),
        1 => fuzzy_n::<3>(rng, raws, 12),
        2 => fuzzy_n::<6>(rng, raws.into_iter().take(8).collect(), 8),
        3 => fuzzy_n::<9>(rng, raws.into_iter().take(3).collect(), 2),
        _ => fuzzy_n::<5>(rng, raws, 24),
    }
}

// ---- ranking ------------------------------------------------------------------------

pub fn scores<const N: usize>(index: &Index<N>, query: &[char]) -> BTreeMap<usize, f32> {
    let mut want: BTreeMap<usize, f32> = BTreeMap::new();
    for w in windows::<N>(query) {
        if let Some((g, c)) = index.search_gram(w) {
            for p in index.data.get(&g).map_or(&[][..], |v| &v[..]) {
                *want.entry(p.serialization_id).or_insert(0.0) += c;
            }
        }
    }
    want
}

pub fn query(rng: &mut Rng, raws: &[Raw]) -> String {
    let letters = gen::alphabet(rng);
    if raws.is_empty() || rng.chance(1, 8) {
        return rng.word(letters, 14);
    }
    let r = rng.pick(raws);
    let t: Vec<char> = match rng.below(4) {
        0 => r.title.chars().collect(),
        1 => r.vendor.chars().collect(),
        2 => gen::text(r),
        _ => r.description.chars().collect(),
    };
    let at = rng.below(t.len() + 1);
    let mut q: Vec<char> = t[at..(at + if rng.chance(1, 10) { 300 } else { 12 }).min(t.len())].to_vec();
    if rng.chance(1, 3) && !q.is_empty() {
        let i = rng.below(q.len());
        q[i] = *rng.pick(letters);
    }
    if rng.chance(1, 4) {
        let other = rng.pick(raws);
        q.push(' ');
        q.extend(other.title.chars().take(8));
    }
    q.into_iter().collect()
}

fn check_search<const N: usize>(index: &Index<N>, q: &str) -> Result<usize, String> {
    let chars: Vec<char> = q.chars().flat_map(char::to_lowercase).collect();
    let got: Vec<(usize, f32)> = index.search(chars.iter().copied()).into_iter().map(|(p, c)| (p.serialization_id, c)).collect();
    let want = scores(index, &chars);
    let mut seen = BTreeSet::new();
    let mut last = f32::INFINITY;
    for (id, c) in &got {
        if !seen.insert(*id) {
            return Err(format!("{q:?} lists product {id} twice: {got:?}"));
        }
        match want.get(id) {
            None => return Err(format!("{q:?} lists product {id}, which no gram of it leads to")),
            Some(w) if !((w - c).abs() <= 1e-4 * w.abs().max(c.abs())) => return Err(format!("{q:?} gives product {id} {c}, its grams add up to {w}")),
            _ => {}
        }
        if *c > last {
            return Err(format!("{q:?} lists {got:?}, not by confidence"));
        }
        last = *c;
    }
    if let Some(id) = want.keys().find(|id| !seen.contains(id)) {
        return Err(format!("{q:?} leads to product {id}, which is not listed: {got:?}"));
    }
    Ok(got.len())
}

fn search_n<const N: usize>(rng: &mut Rng, raws: Vec<Raw>) -> Case {
    let b = gen::build::<N>(raws);
    let mut n = 0;
    let mut last = String::new();
    for _ in 0..6 {
        let q = query(rng, &b.raws);
        n += check_search(&b.index, &q)?;
        last = q;
    }
    // a text that is in a product and in few enough others leads to it
    for (i, r) in b.raws.iter().enumerate().take(6) {
        let mut t = gen::text(r);
        t.truncate(600);
        let found: BTreeSet<usize> = b.index.search(t.iter().copied()).into_iter().map(|(p, _)| p.serialization_id).collect();
        for w in windows::<N>(&t) {
            if b.index.data.get(&w).is_some_and(|v| v.iter().any(|p| p.serialization_id == i)) && matches!(b.index.search_gram(w), Some((g, _)) if g == w) && !found.contains(&i) {
                return Err(format!("product {i} is not found by its own text {:?}", t.iter().collect::<String>()));
            }
        }
    }
    Ok(format!("N={N}, {} products, last query {last:?}, {n} results", b.raws.len()))
}

pub fn search(rng: &mut Rng, index: u64) -> Case {
    let mut raws = catalogue(rng);
    if raws.len() < 50 && rng.chance(1, 60) {
        skew(rng, &mut raws);
    }
    match index % 5 {
        0 => search_n::<3>(rng, raws),
        1 => search_n::<2>(rng, raws),
        _ => search_n::<5>(rng, raws),
    }
}
