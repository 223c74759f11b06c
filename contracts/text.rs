// ---- text --------------------------------------------------------------------
use vstd::utf8::{encode_utf8, decode_utf8, valid_utf8};

/// Text: its length in UTF-8 bytes, then those bytes.
pub open spec fn enc_text(m: Seq<char>, b: Seq<u8>) -> bool {
    encode_utf8(m).len() <= usize::MAX && b == varint(encode_utf8(m).len()) + encode_utf8(m)
}
pub open spec fn dec_text(i: Seq<u8>) -> Dec<Seq<char>> {
    match usize::dec(i) {
        Dec::Ok(n, k) => {
            let rest = i.skip(k as int);
            if rest.len() < n { Dec::Short }
            else if valid_utf8(rest.take(n as int)) { Dec::Ok(decode_utf8(rest.take(n as int)), k + n) }
            else { Dec::Free }
        },
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    }
}
impl Enc for str {
    type M = Seq<char>;
    open spec fn m(&self) -> Seq<char> { self@ }
    open spec fn enc(m: Seq<char>, b: Seq<u8>) -> bool { enc_text(m, b) }
}
impl Enc for String {
    type M = Seq<char>;
    open spec fn m(&self) -> Seq<char> { self@ }
    open spec fn enc(m: Seq<char>, b: Seq<u8>) -> bool { enc_text(m, b) }
}
impl DecSpec for String {
    open spec fn dec(i: Seq<u8>) -> Dec<Seq<char>> { dec_text(i) }
    proof fn law(m: Self::M, b: Seq<u8>, t: Seq<u8>) {
        broadcast use vstd::utf8::group_utf8_lib;
        let u = encode_utf8(m);
        let v = varint(u.len());
        assert(b + t =~= v + (u + t));
        usize::law(u.len(), v, u + t);
        assert((b + t).skip(v.len() as int) =~= u + t);
        assert((u + t).take(u.len() as int) =~= u);
    }
    proof fn law_short(m: Self::M, b: Seq<u8>, k: int) {
        let u = encode_utf8(m);
        let v = varint(u.len());
        if k < v.len() {
            assert(b.take(k) =~= v.take(k));
            usize::law_short(u.len(), v, k);
        } else {
            let k1 = k - v.len();
            assert(b.take(k) =~= v + u.take(k1));
            usize::law(u.len(), v, u.take(k1));
            assert(b.take(k).skip(v.len() as int) =~= u.take(k1));
        }
    }
    proof fn law_bound(i: Seq<u8>) { usize::law_bound(i); }
}
impl KeyModel for String { proof fn m_inj(a: String, b: String) { string_ext(a, b); } }

pub assume_specification<T: Clone> [ <[T]>::to_vec ](s: &[T]) -> (r: std::vec::Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

pub struct FromUtf8Error { }
/// `String::from_utf8`
#[verifier::external_body]
pub fn string_from_utf8(v: Vec<u8>) -> (r: Result<String, FromUtf8Error>)
    ensures valid_utf8(v@) ==> (r matches Ok(s) && s@ == decode_utf8(v@)), !valid_utf8(v@) ==> r is Err
{ unimplemented!() }

/// Byte offset of the k-th character.
pub open spec fn off(s: Seq<char>, k: int) -> nat { encode_utf8(s.take(k)).len() }
pub open spec fn indices(s: Seq<char>) -> Seq<(usize, char)> {
    Seq::new(s.len(), |i: int| (off(s, i) as usize, s[i]))
}
/// `str::bytes`, `str::char_indices`
#[verifier::external_body]
pub fn str_bytes(s: &str) -> (r: It<u8>)
    ensures rem(&r) == encode_utf8(s@), encode_utf8(s@).len() <= usize::MAX
{ unimplemented!() }
#[verifier::external_body]
pub fn str_char_indices(s: &str) -> (r: It<(usize, char)>)
    ensures rem(&r) == indices(s@), encode_utf8(s@).len() <= isize::MAX
{ unimplemented!() }

/// `str::len`: bytes
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize)
    ensures r == encode_utf8(s@).len()
{ unimplemented!() }
