//! P01..P06: the codec.
use crate::alloc::biggest_request;
use crate::gen;
use crate::rng::Rng;
use ahash::AHashMap;
use indexer_lib::data::{Feature, FeatureSet};
use indexer_lib::serialize::{sequential_array, serialize_string_with_limit, Deserializable, Serializable};

pub type Case = Result<String, String>;

pub fn enc<T: Serializable>(v: &T) -> Vec<u8> {
    let mut out = Vec::new();
    v.serialize(&mut |b| out.push(b));
    out
}

fn show(b: &[u8]) -> String {
    if b.len() <= 40 {
        format!("{b:?}")
    } else {
        format!("{:?}.. ({} bytes)", &b[..40], b.len())
    }
}

fn tail(rng: &mut Rng) -> Vec<u8> {
    (0..*rng.pick(&[0, 0, 1, 3, 12])).map(|_| rng.next() as u8).collect()
}

/// v comes back, and what follows it is left over.
fn round<T, U>(v: &T, rng: &mut Rng, same: impl Fn(&T, &U) -> bool) -> Result<(), String>
where
    T: Serializable + std::fmt::Debug,
    U: Deserializable + std::fmt::Debug,
{
    let bytes = enc(v);
    let after = tail(rng);
    let mut input = bytes.clone();
    input.extend(&after);
    match U::deserialize(&input) {
        None => Err(format!("{v:?} is written as {} and does not load", show(&input))),
        Some((rest, got)) => {
            if !same(v, &got) {
                Err(format!("{v:?} is written as {} and loads as {got:?}", show(&input)))
            } else if rest != &after[..] {
                Err(format!("{v:?} is written as {}, then {} follows; loading leaves {}", show(&bytes), show(&after), show(rest)))
            } else {
                Ok(())
            }
        }
    }
}

fn eq<T: PartialEq>(a: &T, b: &T) -> bool {
    a == b
}

/// Values where a variable-length number changes its length, and their neighbours
pub fn edge_u64(i: u64) -> Option<u64> {
    let k = (i / 4) as u32;
    if k > 64 {
        return None;
    }
    let base: u128 = 1u128 << k;
    let v = base as i128 + (i % 4) as i128 - 2;
    if v < 0 || v > u64::MAX as i128 {
        return Some(0);
    }
    Some(v as u64)
}

pub fn scalars(rng: &mut Rng, index: u64) -> Case {
    let v = edge_u64(index).unwrap_or_else(|| rng.u64());
    round::<u64, u64>(&v, rng, eq)?;
    round::<usize, usize>(&(v as usize), rng, eq)?;
    round::<u32, u32>(&(v as u32), rng, eq)?;
    round::<u8, u8>(&(v as u8), rng, eq)?;
    round::<bool, bool>(&(v % 2 == 1), rng, eq)?;
    let c = rng.char();
    round::<char, char>(&c, rng, eq)?;
    let bits = match index % 16 {
        0 => 0u32,
        1 => 0x8000_0000,
        2 => f32::NAN.to_bits() | (rng.next() as u32 & 0x3f_ffff),
        3 => f32::INFINITY.to_bits(),
        4 => f32::NEG_INFINITY.to_bits(),
        5 => 1,
        6 => f32::MAX.to_bits(),
        _ => rng.next() as u32,
    };
    round::<f32, f32>(&f32::from_bits(bits), rng, |a, b| a.to_bits() == b.to_bits())?;
    Ok(format!("{v} {c:?} f32 bits {bits:#x}"))
}

fn len(rng: &mut Rng) -> usize {
    match rng.below(40) {
        0 => rng.range(127, 130),
        1 => rng.range(200, 400),
        _ => rng.below(6),
    }
}

fn array<const N: usize>(rng: &mut Rng) -> Result<(), String> {
    let mut a = [0u32; N];
    let mut c = ['\0'; N];
    for i in 0..N {
        a[i] = rng.u64() as u32;
        c[i] = rng.char();
    }
    round::<[u32; N], [u32; N]>(&a, rng, eq)?;
    round::<[char; N], [char; N]>(&c, rng, eq)?;
    let bytes = enc(&c);
    let got = <[char; N] as indexer_lib::serialize::DeserializableCollection>::deserialize(&bytes);
    if got != Some((&[][..], c)) {
        return Err(format!("{c:?} is written as {} and loads as {got:?}", show(&bytes)));
    }
    // Another length is another type
    if N > 0 && got.is_some() {
        let mut longer = enc(&(N as u64 + 1));
        for x in c {
            longer.extend(enc(&x));
        }
        longer.extend(enc(&'x'));
        if let Some((_, v)) = <[char; N] as Deserializable>::deserialize(&longer) {
            return Err(format!("an array of {} is read as an array of {N}: {v:?}", N + 1));
        }
    }
    Ok(())
}

pub fn collections(rng: &mut Rng, index: u64) -> Case {
    let n = if index == 7 { 70_000 } else { len(rng) };
    let s = if index == 5 { "x".repeat(70_000) } else { { let n = if rng.chance(1, 20) { 300 } else { 12 }; rng.text(n) } };
    round::<String, String>(&s, rng, eq)?;
    round::<&str, String>(&s.as_str(), rng, |a, b| *a == b)?;
    let ints: Vec<usize> = (0..n).map(|_| rng.u64() as usize).collect();
    round::<Vec<usize>, Vec<usize>>(&ints, rng, eq)?;
    let texts: Vec<String> = (0..len(rng)).map(|_| rng.text(8)).collect();
    round::<&Vec<String>, Vec<String>>(&&texts, rng, |a, b| *a == b)?;
    let refs: Vec<&String> = texts.iter().collect();
    round::<Vec<&String>, Vec<String>>(&refs, rng, |a, b| a.len() == b.len() && a.iter().zip(b).all(|(x, y)| *x == y))?;
    let floats: Vec<f32> = (0..len(rng)).map(|_| f32::from_bits(rng.next() as u32)).collect();
    round::<&Vec<f32>, Vec<f32>>(&&floats, rng, |a, b| {
        a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits())
    })?;
    let mut map: AHashMap<String, Vec<usize>> = AHashMap::new();
    for _ in 0..len(rng) {
        map.insert(rng.text(4), (0..rng.below(4)).map(|_| rng.u64() as usize).collect());
    }
    round::<AHashMap<String, Vec<usize>>, AHashMap<String, Vec<usize>>>(&map, rng, eq)?;
    let mut map2: AHashMap<usize, char> = AHashMap::new();
    for _ in 0..if index == 9 { 70_000 } else { len(rng) } {
        map2.insert(if index == 9 { map2.len() } else { rng.below(300) }, rng.char());
    }
    round::<AHashMap<usize, char>, AHashMap<usize, char>>(&map2, rng, eq)?;
    array::<0>(rng)?;
    array::<1>(rng)?;
    array::<5>(rng)?;
    array::<8>(rng)?;
    array::<130>(rng)?;
    Ok(format!("text of {} chars, {} numbers, {} map entries", s.chars().count(), n, map.len()))
}

pub fn ids(rng: &mut Rng, index: u64) -> Case {
    let n = match index {
        0 => 0,
        1 => 1,
        2 => 70_000,
        _ => len(rng) * rng.range(1, 2),
    };
    let width = rng.range(1, 64) as u32;
    let xs: Vec<usize> = (0..n)
        .map(|_| if rng.chance(1, 12) { usize::MAX - rng.below(2) } else { (rng.next() >> (64 - width)) as usize })
        .collect();
    let mut out = Vec::new();
    sequential_array::serialize(xs.iter().copied(), &mut |b| out.push(b));
    let written = out.len();
    let after = tail(rng);
    out.extend(&after);
    let mut want = xs.clone();
    want.sort_unstable();
    match sequential_array::deserialize::<usize>(&out) {
        None => Err(format!("ids {xs:?} do not load")),
        Some((rest, got)) => {
            if got != want {
                Err(format!("ids {xs:?} load as {got:?}"))
            } else if rest != &after[..] {
                Err(format!("ids {xs:?} take {written} bytes; {} left instead of {}", rest.len(), after.len()))
            } else {
                Ok(format!("{n} ids below 2^{width}"))
            }
        }
    }
}

pub fn trimming(rng: &mut Rng, index: u64) -> Case {
    let letters: &[char] = [&['a', ' '][..], &['a', 'æ', ' '], &['👽', ' ', 'b'], &['a', '\t', '\n', '\u{a0}', ' '], &['x', '€']][rng.below(5)];
    let max = if index % 5 == 0 { 100 } else { rng.below(24) };
    let max = if rng.chance(1, 500) { rng.below(9000) } else { max };
    let extra = if rng.chance(1, 500) { 9000 } else { 20 };
    let n = max + rng.below(extra);
    let s = if n > 200 { (0..n).map(|_| *rng.pick(letters)).collect() } else { rng.word(letters, n) };
    let mut out = Vec::new();
    serialize_string_with_limit(&s, max, &mut |b| out.push(b));
    let got = match String::deserialize(&out) {
        Some((rest, got)) if rest.is_empty() => got,
        other => return Err(format!("{s:?} limited to {max} is written as {} and loads as {other:?}", show(&out))),
    };
    // All of it, or up to the last space (not the first character) at or before the
    // first character that does not fit, or all the characters that fit.
    let want = if s.len() <= max {
        s.clone()
    } else {
        let chars: Vec<char> = s.chars().collect();
        let mut end = 0;
        let mut first_over = chars.len();
        for (k, c) in chars.iter().enumerate() {
            end += c.len_utf8();
            if end > max {
                first_over = k;
                break;
            }
        }
        let cut = (1..=first_over).rev().find(|k| chars[*k] == ' ').unwrap_or(first_over);
        chars[..cut].iter().collect()
    };
    if got == want {
        Ok(format!("{s:?} limited to {max}"))
    } else {
        Err(format!("{s:?} limited to {max} bytes is kept as {got:?}, not {want:?}"))
    }
}

// ---- bytes that nobody wrote --------------------------------------------------------

type Probe = (&'static str, fn(&[u8]) -> Option<usize>);

fn probe<T: Deserializable>(b: &[u8]) -> Option<usize> {
    T::deserialize(b).map(|(rest, _)| rest.len())
}
pub struct Order(pub indexer_lib::classic_indexes::OrderIndex);

fn probes() -> Vec<Probe> {
    fn arr<const N: usize>(b: &[u8]) -> Option<usize> {
        <[char; N] as Deserializable>::deserialize(b).map(|(r, _)| r.len())
    }
    fn arr2<const N: usize>(b: &[u8]) -> Option<usize> {
        <[char; N] as indexer_lib::serialize::DeserializableCollection>::deserialize(b).map(|(r, _)| r.len())
    }
    fn seq(b: &[u8]) -> Option<usize> {
        sequential_array::deserialize::<usize>(b).map(|(r, _)| r.len())
    }
    fn order(b: &[u8]) -> Option<usize> {
        indexer_lib::classic_indexes::OrderIndex::deserialize(b).map(|(r, _)| r.len())
    }
    fn all(b: &[u8]) -> Option<usize> {
        gen::load::<5>(b).map(|_| 0)
    }
    vec![
        ("u64", probe::<u64>),
        ("usize", probe::<usize>),
        ("u32", probe::<u32>),
        ("u8", probe::<u8>),
        ("bool", probe::<bool>),
        ("char", probe::<char>),
        ("f32", probe::<f32>),
        ("String", probe::<String>),
        ("Vec<String>", probe::<Vec<String>>),
        ("Vec<usize>", probe::<Vec<usize>>),
        ("Vec<[char;5]>", probe::<Vec<[char; 5]>>),
        ("AHashMap<String,Vec<usize>>", probe::<AHashMap<String, Vec<usize>>>),
        ("AHashMap<usize,char>", probe::<AHashMap<usize, char>>),
        ("[char;5]", arr::<5>),
        ("[char;8]", arr::<8>),
        ("[char;0]", arr::<0>),
        ("[char;5] collection", arr2::<5>),
        ("Feature", probe::<Feature>),
        ("FeatureSet", probe::<FeatureSet>),
        ("id list", seq),
        ("OrderIndex", order),
        ("whole index", all),
    ]
}

fn varint(mut v: u64, out: &mut Vec<u8>) {
    for _ in 0..9 {
        if v < 128 {
            out.push(v as u8);
            return;
        }
        out.push((v as u8) | 128);
        v >>= 7;
    }
    out.push(1);
}

fn hostile(rng: &mut Rng) -> Vec<u8> {
    let mut b = Vec::new();
    match rng.below(8) {
        0 => {
            for _ in 0..rng.below(24) {
                b.push(rng.next() as u8);
            }
        }
        1 => {
            // continuation bytes only
            for _ in 0..rng.range(0, 14) {
                b.push(rng.next() as u8 | 128);
            }
            for _ in 0..rng.below(4) {
                b.push(rng.next() as u8);
            }
        }
        2 | 3 => {
            // a length far beyond the input
            let n = *rng.pick(&[u64::MAX, u64::MAX / 2, 1 << 62, 1 << 59, 1 << 56, 1 << 48, 1 << 40, 1 << 33, 1 << 31, 100_000, 4, 5, 8]);
            let lead = rng.below(3);
            for _ in 0..lead {
                varint(rng.below(3) as u64, &mut b);
            }
            varint(n.wrapping_add(rng.below(3) as u64).wrapping_sub(1), &mut b);
            for _ in 0..rng.below(16) {
                b.push(rng.next() as u8 & 0x7f);
            }
        }
        4 => {
            for _ in 0..rng.below(12) {
                varint(rng.u64(), &mut b);
            }
        }
        5 => {
            // lengths that look right, text that is not
            let n = rng.below(12);
            varint(n as u64 + rng.below(3) as u64, &mut b);
            for _ in 0..n {
                b.push(*rng.pick(&[0x80, 0xc3, 0xe2, 0xf0, 0xff, b'a', 0xa6]));
            }
        }
        6 => {
            // id lists whose sum does not fit
            varint(rng.range(2, 4) as u64, &mut b);
            for _ in 0..4 {
                varint(u64::MAX - rng.below(3) as u64, &mut b);
            }
        }
        _ => {
            for _ in 0..rng.below(10) {
                varint(rng.below(7) as u64, &mut b);
            }
        }
    }
    b
}

fn damage(rng: &mut Rng, b: &mut Vec<u8>) {
    if b.is_empty() {
        return;
    }
    for _ in 0..rng.range(1, 3) {
        let i = rng.below(b.len());
        match rng.below(6) {
            0 => b[i] = rng.next() as u8,
            1 => b[i] ^= 1 << rng.below(8),
            2 => b[i] = *rng.pick(&[0, 1, 127, 128, 255, 5]),
            3 => {
                b.remove(i);
                if b.is_empty() {
                    return;
                }
            }
            4 => b.insert(i, rng.next() as u8),
            _ => {
                let mut v = Vec::new();
                varint(*rng.pick(&[u64::MAX, 1 << 60, 1 << 40, 1 << 32, 300]), &mut v);
                for (k, x) in v.into_iter().enumerate() {
                    b.insert(i + k, x);
                }
            }
        }
    }
}

/// Every decoder, on one input: no panic, no more memory than the input warrants,
/// and what is left over is shorter than the input.
fn try_all(b: &[u8]) -> Result<usize, String> {
    let limit = 4096 + 1024 * b.len();
    let mut loaded = 0;
    for (name, f) in probes() {
        let (r, big) = biggest_request(|| std::panic::catch_unwind(|| f(b)));
        match r {
            Err(_) => return Err(format!("reading a {name} from {} panics: {}", show(b), crate::last_panic())),
            Ok(Some(rest)) => {
                loaded += 1;
                if rest >= b.len() {
                    return Err(format!("reading a {name} from {} uses no byte", show(b)));
                }
            }
            Ok(None) => {}
        }
        // The whole index sets up arenas of fixed size
        if big > limit + 70_000 {
            return Err(format!("reading a {name} from {} ({} bytes) asks for {big} bytes of memory", show(b), b.len()));
        }
    }
    Ok(loaded)
}

pub fn malformed(rng: &mut Rng, index: u64) -> Case {
    let b = if index < 512 {
        // every input of one byte, and of two equal ones
        let x = (index / 2) as u8;
        if index % 2 == 0 {
            vec![x]
        } else {
            vec![x, x]
        }
    } else if rng.chance(1, 4) {
        let raws = gen::catalogue(rng, gen::Size::Small);
        let made = gen::build::<5>(raws);
        let mut b = gen::save(&made);
        // most of the file is the tree, so the other parts are aimed at
        let tail = b.len() - enc(&made.classic).len();
        let head = enc(made.container).len();
        let (from, to) = match rng.below(4) {
            0 => (0, b.len()),
            1 => (0, head),
            _ => (tail, b.len()),
        };
        let mut part = b[from..to].to_vec();
        damage(rng, &mut part);
        b.splice(from..to, part);
        b
    } else if rng.chance(1, 3) {
        let mut b = match rng.below(4) {
            0 => enc(&rng.text(10)),
            1 => enc(&&(0..rng.below(5)).map(|_| rng.text(6)).collect::<Vec<_>>()),
            2 => enc(&['a', 'b', 'c', 'd', 'e']),
            _ => {
                let mut out = Vec::new();
                sequential_array::serialize((0..rng.below(6)).map(|_| rng.u64() as usize).collect::<Vec<_>>().into_iter(), &mut |x| out.push(x));
                out
            }
        };
        damage(rng, &mut b);
        b
    } else {
        hostile(rng)
    };
    let n = try_all(&b)?;
    Ok(format!("{} ({n} decoders accept it)", show(&b)))
}

fn cut_short<T: Deserializable + std::fmt::Debug>(bytes: &[u8], what: &str) -> Result<(), String> {
    for k in 0..bytes.len() {
        if let Some((_, v)) = T::deserialize(&bytes[..k]) {
            return Err(format!("{what}, written as {} and cut to {k} bytes, loads as {v:?}", show(bytes)));
        }
    }
    Ok(())
}

pub fn truncated(rng: &mut Rng, index: u64) -> Case {
    let v = edge_u64(index).unwrap_or_else(|| rng.u64());
    cut_short::<u64>(&enc(&v), &format!("{v}"))?;
    cut_short::<usize>(&enc(&(v as usize)), &format!("{v}"))?;
    cut_short::<u32>(&enc(&(v as u32)), &format!("{}", v as u32))?;
    let c = rng.char();
    cut_short::<char>(&enc(&c), &format!("{c:?}"))?;
    cut_short::<f32>(&enc(&1.5f32), "1.5")?;
    cut_short::<bool>(&enc(&true), "true")?;
    cut_short::<u8>(&enc(&7u8), "7")?;
    let n = if rng.chance(1, 10) { 200 } else { 9 };
    let s = rng.text(n);
    cut_short::<String>(&enc(&s), &format!("{s:?}"))?;
    let texts: Vec<String> = (0..rng.below(5)).map(|_| rng.text(5)).collect();
    cut_short::<Vec<String>>(&enc(&&texts), &format!("{texts:?}"))?;
    let ints: Vec<usize> = (0..len(rng)).map(|_| rng.u64() as usize).collect();
    cut_short::<Vec<usize>>(&enc(&ints), &format!("{ints:?}"))?;
    let mut map: AHashMap<String, Vec<usize>> = AHashMap::new();
    for _ in 0..rng.below(4) {
        map.insert(rng.text(3), (0..rng.below(4)).map(|_| rng.u64() as usize).collect());
    }
    cut_short::<AHashMap<String, Vec<usize>>>(&enc(&map), &format!("{map:?}"))?;
    let mut a = ['a'; 5];
    for x in &mut a {
        *x = rng.char();
    }
    cut_short::<[char; 5]>(&enc(&a), &format!("{a:?}"))?;
    let mut out = Vec::new();
    sequential_array::serialize(ints.iter().copied(), &mut |b| out.push(b));
    for k in 0..out.len() {
        if let Some((_, v)) = sequential_array::deserialize::<usize>(&out[..k]) {
            return Err(format!("ids {ints:?}, cut to {k} of {} bytes, load as {v:?}", out.len()));
        }
    }
    let mut what = format!("{v} {s:?}");
    if index % 8 == 3 {
        let raws = gen::catalogue(rng, gen::Size::Small);
        what = format!("index of {} products", raws.len());
        let b = gen::save(&gen::build::<5>(raws.clone()));
        let cuts: Vec<usize> = if b.len() < 400 { (0..b.len()).collect() } else { (0..60).map(|_| rng.below(b.len())).chain(b.len() - 12..b.len()).collect() };
        for k in cuts {
            if gen::load::<5>(&b[..k]).is_some() {
                return Err(format!("the index of {raws:?}, cut to {k} of {} bytes, loads", b.len()));
            }
        }
    }
    Ok(what)
}

/// One node inside the other; returns whether it was accepted.
pub fn deep_tree(levels: usize) -> bool {
    use indexer_lib::ngram::GramNode;
    use indexer_lib::serialize::ArenaDeserializable;
    let mut bytes = Vec::new();
    for _ in 0..levels {
        bytes.extend(enc(&'a'));
        bytes.extend(enc(&1f32));
        bytes.extend(enc(&1usize));
    }
    bytes.extend(enc(&'a'));
    bytes.extend(enc(&1f32));
    bytes.extend(enc(&0usize));
    let arena: &'static colosseum::sync::Arena<GramNode<'static, char>> = Box::leak(Box::new(colosseum::sync::Arena::new()));
    let bytes: &'static [u8] = Box::leak(bytes.into_boxed_slice());
    GramNode::<char>::deserialize_arena(bytes, arena).is_some()
}
