// ---- keys of maps, as the file knows them --------------------------------------

/// A key type whose `Eq`/`Hash` agree with equality of the model value.
pub trait KeyModel: Enc {
    proof fn m_inj(a: Self, b: Self) where Self: Sized
        requires a.m() == b.m()
        ensures a == b;
}
impl KeyModel for usize { proof fn m_inj(a: usize, b: usize) { } }
impl KeyModel for char { proof fn m_inj(a: char, b: char) { } }

// ---- encoding of a map: its entries in some order --------------------------------

pub open spec fn distinct_keys<KM, VM>(es: Seq<(KM, VM)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0
}

pub open spec fn map_of<KM, VM>(es: Seq<(KM, VM)>) -> Map<KM, VM> decreases es.len() {
    if es.len() == 0 { Map::empty() } else { map_of(es.drop_last()).insert(es.last().0, es.last().1) }
}

pub proof fn map_of_dom<KM, VM>(es: Seq<(KM, VM)>, k: KM)
    ensures map_of(es).contains_key(k) <==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
    decreases es.len()
{
    if es.len() > 0 {
        map_of_dom(es.drop_last(), k);
        if es.last().0 == k { assert(es[es.len() - 1].0 == k); }
        if map_of(es.drop_last()).contains_key(k) {
            let i = choose|i: int| 0 <= i < es.drop_last().len() && (#[trigger] es.drop_last()[i]).0 == k;
            assert(es[i].0 == k);
        }
        if exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k {
            let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k;
            if i < es.len() - 1 { assert(es.drop_last()[i].0 == k); }
        }
    }
}

/// The model of a map: from model keys to model values.
pub open spec fn map_model<K: KeyModel, V: Enc>(m: Map<K, V>) -> Map<K::M, V::M> {
    Map::new(m.dom().map(|x: K| x.m()),
             |k: K::M| m[choose|x: K| #[trigger] m.contains_key(x) && x.m() == k].m())
}

pub proof fn map_model_at<K: KeyModel, V: Enc>(m: Map<K, V>, x: K)
    requires m.contains_key(x)
    ensures map_model::<K, V>(m).contains_key(x.m()), map_model::<K, V>(m)[x.m()] == m[x].m()
{
    let y = choose|y: K| #[trigger] m.contains_key(y) && y.m() == x.m();
    K::m_inj(x, y);
}

pub proof fn map_model_insert<K: KeyModel, V: Enc>(m: Map<K, V>, x: K, v: V)
    ensures map_model::<K, V>(m.insert(x, v)) == map_model::<K, V>(m).insert(x.m(), v.m())
{
    let a = map_model::<K, V>(m.insert(x, v));
    let b = map_model::<K, V>(m).insert(x.m(), v.m());
    assert forall|k: K::M| #[trigger] a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k]) by {
        if a.contains_key(k) {
            let y = choose|y: K| #[trigger] m.insert(x, v).contains_key(y) && y.m() == k;
            map_model_at::<K, V>(m.insert(x, v), y);
            if y != x {
                assert(m.contains_key(y));
                map_model_at::<K, V>(m, y);
                if k == x.m() { K::m_inj(x, y); }
            }
        }
        if b.contains_key(k) {
            if k == x.m() {
                assert(m.insert(x, v).contains_key(x));
            } else {
                let y = choose|y: K| #[trigger] m.contains_key(y) && y.m() == k;
                assert(m.insert(x, v).contains_key(y));
            }
        }
    }
    assert(a =~= b);
}

impl<K: KeyModel, V: Enc> Enc for AHashMap<K, V> {
    type M = Map<K::M, V::M>;
    open spec fn m(&self) -> Map<K::M, V::M> { map_model::<K, V>(self@) }
    open spec fn enc(m: Map<K::M, V::M>, b: Seq<u8>) -> bool {
        exists|es: Seq<(K::M, V::M)>| distinct_keys(es) && #[trigger] map_of(es) == m && enc_len::<(K, V)>(es, b)
    }
}
pub open spec fn dec_map<KM, VM>(d: Dec<Seq<(KM, VM)>>) -> Dec<Map<KM, VM>> {
    match d {
        Dec::Ok(es, k) => if distinct_keys(es) { Dec::Ok(map_of(es), k) } else { Dec::Free },
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    }
}
impl<K: KeyModel + DecSpec, V: DecSpec> DecSpec for AHashMap<K, V> {
    open spec fn dec(i: Seq<u8>) -> Dec<Map<K::M, V::M>> { dec_map(dec_len::<(K, V)>(i)) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) {
        let es = choose|es: Seq<(K::M, V::M)>| distinct_keys(es) && #[trigger] map_of(es) == m && enc_len::<(K, V)>(es, b);
        dec_len_law::<(K, V)>(es, b, t);
    }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) {
        let es = choose|es: Seq<(K::M, V::M)>| distinct_keys(es) && #[trigger] map_of(es) == m && enc_len::<(K, V)>(es, b);
        dec_len_short::<(K, V)>(es, b, k);
    }
    proof fn law_bound(i: Seq<u8>) { dec_len_bound::<(K, V)>(i); }
}

/// Encoding the entries one by one builds an encoding of the map.
pub open spec fn entry_models<K: Enc, V: Enc>(es: Seq<(&K, &V)>) -> Seq<(K::M, V::M)> {
    es.map_values(|e: (&K, &V)| ((*e.0).m(), (*e.1).m()))
}
pub proof fn entries_model<K: KeyModel, V: Enc>(es: Seq<(&K, &V)>, m: Map<K, V>)
    requires entries(es, m)
    ensures distinct_keys(entry_models::<K, V>(es)), map_of(entry_models::<K, V>(es)) == map_model::<K, V>(m)
{
    let ms = entry_models::<K, V>(es);
    assert forall|i: int, j: int| 0 <= i < j < ms.len() implies (#[trigger] ms[i]).0 != (#[trigger] ms[j]).0 by {
        if ms[i].0 == ms[j].0 { K::m_inj(*es[i].0, *es[j].0); }
    }
    let a = map_of(ms);
    let b = map_model::<K, V>(m);
    assert forall|k: K::M| #[trigger] a.contains_key(k) == b.contains_key(k) && (a.contains_key(k) ==> a[k] == b[k]) by {
        map_of_dom(ms, k);
        if a.contains_key(k) {
            let i = choose|i: int| 0 <= i < ms.len() && (#[trigger] ms[i]).0 == k;
            map_model_at::<K, V>(m, *es[i].0);
            map_of_at(ms, i);
        }
        if b.contains_key(k) {
            let x = choose|x: K| #[trigger] m.contains_key(x) && x.m() == k;
            let i = choose|i: int| 0 <= i < es.len() && *(#[trigger] es[i]).0 == x;
            assert(ms[i].0 == k);
        }
    }
    assert(a =~= b);
}
pub proof fn map_of_at<KM, VM>(es: Seq<(KM, VM)>, i: int)
    requires distinct_keys(es), 0 <= i < es.len()
    ensures map_of(es).contains_key(es[i].0), map_of(es)[es[i].0] == es[i].1
    decreases es.len()
{
    if i < es.len() - 1 {
        assert(es[i].0 != es[es.len() - 1].0);
        assert forall|a: int, b: int| 0 <= a < b < es.drop_last().len() implies (#[trigger] es.drop_last()[a]).0 != (#[trigger] es.drop_last()[b]).0 by {
            assert(es[a].0 != es[b].0);
        }
        map_of_at(es.drop_last(), i);
        assert(es.drop_last()[i] == es[i]);
    }
}

pub proof fn map_model_empty<K: KeyModel, V: Enc>()
    ensures map_model::<K, V>(Map::empty()) == Map::<K::M, V::M>::empty()
{ assert(map_model::<K, V>(Map::empty()) =~= Map::<K::M, V::M>::empty()); }

/// As vec_capped.
#[verifier::external_body]
pub fn amap_capped<K, V>(n: usize, Ghost(limit): Ghost<nat>) -> (r: AHashMap<K, V>)
    requires n <= limit
    ensures r@ == Map::<K, V>::empty()
{ unimplemented!() }
