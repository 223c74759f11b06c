// ---- vendors: one per name, numbered densely ---------------------------------------------
pub open spec fn names<'a>(s: Seq<&'a Vendor>) -> Seq<Seq<char>> { s.map_values(|v: &'a Vendor| v.name@) }
pub open spec fn dense(s: Seq<&Vendor>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).id == i }
/// One vendor per name, numbered densely, found by name.
pub open spec fn vendors_ok<'a>(tags: Map<&'a str, &'a Vendor>, by_id: Seq<&'a Vendor>) -> bool {
    &&& dense(by_id)
    &&& names(by_id).no_duplicates()
    &&& tags.dom().len() == by_id.len()
    &&& forall|i: int| 0 <= i < by_id.len() ==> exists|k: &'a str| #[trigger] tags.contains_key(k) && k@ == (#[trigger] by_id[i]).name@
    &&& forall|k: &'a str| #[trigger] tags.contains_key(k) ==> {
            let v = tags[k];
            k@ == v.name@ && v.id < by_id.len() && by_id[v.id as int] == v
        }
}
/// A key for every name, a name for every key.
pub proof fn vendor_keys<'a>(tags: Map<&'a str, &'a Vendor>, by_id: Seq<&'a Vendor>, n: Seq<char>)
    requires vendors_ok(tags, by_id)
    ensures (exists|k: &'a str| #[trigger] tags.contains_key(k) && k@ == n) <==> names(by_id).contains(n)
{
    if exists|k: &'a str| #[trigger] tags.contains_key(k) && k@ == n {
        let k = choose|k: &'a str| #[trigger] tags.contains_key(k) && k@ == n;
        assert(names(by_id)[tags[k].id as int] == n);
    }
    if names(by_id).contains(n) {
        let i = choose|i: int| 0 <= i < names(by_id).len() && names(by_id)[i] == n;
        assert(by_id[i].name@ == n);
    }
}
/// One more vendor.
pub proof fn vendors_ok_push<'a>(tags: Map<&'a str, &'a Vendor>, by_id: Seq<&'a Vendor>, k: &'a str, v: &'a Vendor)
    requires vendors_ok(tags, by_id), k@ == v.name@, v.id == by_id.len(), !names(by_id).contains(v.name@)
    ensures vendors_ok(tags.insert(k, v), by_id.push(v)), names(by_id.push(v)) == names(by_id).push(v.name@)
{
    broadcast use str_ext;
    let tags2 = tags.insert(k, v);
    let by_id2 = by_id.push(v);
    vendor_keys(tags, by_id, v.name@);
    assert(!tags.contains_key(k));
    assert(names(by_id2) =~= names(by_id).push(v.name@));
    assert(tags2.contains_key(k));
    assert forall|i: int| 0 <= i < by_id2.len() implies exists|q: &'a str| #[trigger] tags2.contains_key(q) && q@ == (#[trigger] by_id2[i]).name@ by {
        if i < by_id.len() {
            let q = choose|q: &'a str| #[trigger] tags.contains_key(q) && q@ == by_id[i].name@;
            assert(tags2.contains_key(q));
            assert(by_id2[i] == by_id[i]);
        }
    }
}
