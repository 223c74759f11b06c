// Variable-length numbers: seven bits a byte, lowest first, the top bit set on
// every byte but the last; a tenth byte can only hold the 64th bit.
pub open spec fn varint(n: nat) -> Seq<u8> decreases n {
    if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + varint(n / 128) }
}
pub open spec fn vdec(i: Seq<u8>, e: nat) -> Dec<nat> decreases i.len() {
    if i.len() == 0 { Dec::Short }
    else if e >= 9 { if i[0] == 1 { Dec::Ok(1, 1) } else { Dec::Free } }
    else if i[0] < 128 { if i[0] == 0 && e > 0 { Dec::Free } else { Dec::Ok(i[0] as nat, 1) } }
    else { match vdec(i.skip(1), e + 1) {
        Dec::Ok(v, n) => Dec::Ok((i[0] - 128) as nat + 128 * v, n + 1),
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    } }
}
pub open spec fn sc(x: nat, e: nat) -> nat {
    if e == 0 { x } else if e == 1 { x * 0x80 } else if e == 2 { x * 0x4000 } else if e == 3 { x * 0x20_0000 } else if e == 4 { x * 0x1000_0000 }
    else if e == 5 { x * 0x8_0000_0000 } else if e == 6 { x * 0x400_0000_0000 } else if e == 7 { x * 0x2_0000_0000_0000 }
    else if e == 8 { x * 0x100_0000_0000_0000 } else { x * 0x8000_0000_0000_0000 }
}
pub open spec fn vmax(e: nat) -> nat {
    if e == 0 { 0xffff_ffff_ffff_ffff } else if e == 1 { 0x1ff_ffff_ffff_ffff } else if e == 2 { 0x3_ffff_ffff_ffff } else if e == 3 { 0x7ff_ffff_ffff } else if e == 4 { 0xf_ffff_ffff }
    else if e == 5 { 0x1fff_ffff } else if e == 6 { 0x3f_ffff } else if e == 7 { 0x7fff }
    else if e == 8 { 0xff } else { 1 }
}
pub proof fn lemma_varint(m: nat, e: nat, t: Seq<u8>)
    requires m <= vmax(e), e <= 9, e > 0 ==> m > 0
    ensures vdec(varint(m) + t, e) == Dec::<nat>::Ok(m, varint(m).len()), varint(m).len() >= 1
    decreases m
{
    if m < 128 {
        assert((varint(m) + t)[0] == m as u8);
        if e == 9 {  assert(m <= 1);}
    } else {
        let v = varint(m) + t;
        assert(v.skip(1) =~= varint(m / 128) + t);
        assert(e < 9) by { if e == 9 { } }
        lemma_varint(m / 128, e + 1, t);
    }
}
pub proof fn lemma_varint_short(m: nat, e: nat, k: int)
    requires m <= vmax(e), e <= 9, e > 0 ==> m > 0, 0 <= k < varint(m).len()
    ensures vdec(varint(m).take(k), e) == Dec::<nat>::Short
    decreases m
{
    if k == 0 {} else if m < 128 {
    } else {
        let v = varint(m).take(k);
        assert(v.skip(1) =~= varint(m / 128).take(k - 1));
        assert(e < 9) by { if e == 9 { } }
        lemma_varint_short(m / 128, e + 1, k - 1);
    }
}
pub proof fn lemma_shr7(x: u64) ensures x >> 7 == x / 128, (x >= 1 ==> (x >> 7) < x), ((x as u8) & 0x7f) as u64 == x % 128, (((x as u8) & 0x7f) | 0x80) as u64 == x % 128 + 128 {
    assert(x >> 7 == x / 128) by (bit_vector);
    assert(x >= 1 ==> (x >> 7) < x) by (bit_vector);
    assert(((x as u8) & 0x7f) as u64 == x % 128) by (bit_vector);
    assert((((x as u8) & 0x7f) | 0x80) as u64 == x % 128 + 128) by (bit_vector);
}
pub open spec fn vacc(val: nat, e: nat, d: Dec<nat>) -> Dec<nat> { match d { Dec::Ok(v, n) => Dec::Ok(val + sc(v, e), e + n), Dec::Short => Dec::Short, Dec::Free => Dec::Free } }

#[verifier::spinoff_prover]
pub proof fn step_numbers(out: nat, val: nat, c: nat, e: nat)
    requires e < 9, sc(out, e) == val * 0x1_0000_0000_0000_0000, val < sc(1, e), c < 128
    ensures sc(out / 128 + c * 0x200_0000_0000_0000, e + 1) == (val + sc(c, e)) * 0x1_0000_0000_0000_0000, val + sc(c, e) < sc(1, e + 1)
{
    let o2 = out / 128 + c * 0x200_0000_0000_0000;
    if e == 0 { let p = 1nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 18446744073709551616nat); assert(out / 128 == val * 144115188075855872nat); assert(sc(o2, e + 1) == o2 * 128nat && sc(1, e + 1) == 128nat); }
    else if e == 1 { let p = 128nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 144115188075855872nat); assert(out / 128 == val * 1125899906842624nat); assert(sc(o2, e + 1) == o2 * 16384nat && sc(1, e + 1) == 16384nat); }
    else if e == 2 { let p = 16384nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 1125899906842624nat); assert(out / 128 == val * 8796093022208nat); assert(sc(o2, e + 1) == o2 * 2097152nat && sc(1, e + 1) == 2097152nat); }
    else if e == 3 { let p = 2097152nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 8796093022208nat); assert(out / 128 == val * 68719476736nat); assert(sc(o2, e + 1) == o2 * 268435456nat && sc(1, e + 1) == 268435456nat); }
    else if e == 4 { let p = 268435456nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 68719476736nat); assert(out / 128 == val * 536870912nat); assert(sc(o2, e + 1) == o2 * 34359738368nat && sc(1, e + 1) == 34359738368nat); }
    else if e == 5 { let p = 34359738368nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 536870912nat); assert(out / 128 == val * 4194304nat); assert(sc(o2, e + 1) == o2 * 4398046511104nat && sc(1, e + 1) == 4398046511104nat); }
    else if e == 6 { let p = 4398046511104nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 4194304nat); assert(out / 128 == val * 32768nat); assert(sc(o2, e + 1) == o2 * 562949953421312nat && sc(1, e + 1) == 562949953421312nat); }
    else if e == 7 { let p = 562949953421312nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 32768nat); assert(out / 128 == val * 256nat); assert(sc(o2, e + 1) == o2 * 72057594037927936nat && sc(1, e + 1) == 72057594037927936nat); }
    else if e == 8 { let p = 72057594037927936nat; assert(sc(out, e) == out * p && sc(1, e) == p && sc(c, e) == c * p); assert(out == val * 256nat); assert(out / 128 == val * 2nat); assert(sc(o2, e + 1) == o2 * 9223372036854775808nat && sc(1, e + 1) == 9223372036854775808nat); }
}
#[verifier::spinoff_prover]
pub proof fn lemma_step(out: u64, val: nat, e: nat, b: u8)
    requires e < 9, sc(out as nat, e) == val * 0x1_0000_0000_0000_0000, val < sc(1, e)
    ensures ({ let o2 = (out >> 7u64) | (((b << 1u8) as u64) << 56u64); let v2 = val + sc((b % 128) as nat, e);
       sc(o2 as nat, e + 1) == v2 * 0x1_0000_0000_0000_0000 && v2 < sc(1, e + 1) })
{
    let c = (b << 1u8) as u64;
    assert(out >> 7u64 == out / 128) by (bit_vector);
    assert(c == 2 * ((b % 128u8) as u64)) by (bit_vector) requires c == (b << 1u8) as u64;
    let h = c << 56u64;
    assert(h as nat == (b % 128) as nat * 0x200_0000_0000_0000) by {
        assert(c << 56u64 == c * 0x100_0000_0000_0000u64) by (bit_vector) requires c <= 254;
    }
    let l = out >> 7u64;
    assert(l | h == l + h) by (bit_vector) requires l == out >> 7u64, h == c << 56u64, c % 2 == 0;
    let o2 = (l | h) as nat;
    assert(o2 == out as nat / 128 + (b % 128) as nat * 0x200_0000_0000_0000);
    step_numbers(out as nat, val, (b % 128) as nat, e);
}
pub proof fn lemma_end(out: u64, val: nat, e: nat)
    requires 0 < e <= 9, sc(out as nat, e) == val * 0x1_0000_0000_0000_0000, val < sc(1, e)
    ensures ({ let k = (64 - e * 7) as u64; out >> k == val as u64 && val < 0x8000_0000_0000_0000 }), e == 9 ==> ((out >> 1u64) == val && ((out >> 1u64) | 0x8000_0000_0000_0000) == val + 0x8000_0000_0000_0000),
{
    let o1 = out >> 1u64;
    assert((o1 | 0x8000_0000_0000_0000u64) == o1 + 0x8000_0000_0000_0000u64) by (bit_vector) requires o1 == out >> 1u64;
    assert(out >> 57u64 == out / 0x200_0000_0000_0000u64) by (bit_vector);
    assert(out >> 50u64 == out / 0x4_0000_0000_0000u64) by (bit_vector);
    assert(out >> 43u64 == out / 0x800_0000_0000u64) by (bit_vector);
    assert(out >> 36u64 == out / 0x10_0000_0000u64) by (bit_vector);
    assert(out >> 29u64 == out / 0x2000_0000u64) by (bit_vector);
    assert(out >> 22u64 == out / 0x40_0000u64) by (bit_vector);
    assert(out >> 15u64 == out / 0x8000u64) by (bit_vector);
    assert(out >> 8u64 == out / 0x100u64) by (bit_vector);
    assert(out >> 1u64 == out / 2u64) by (bit_vector);
    if e == 1 {} else if e == 2 {} else if e == 3 {} else if e == 4 {} else if e == 5 {} else if e == 6 {} else if e == 7 {} else if e == 8 {}
}

impl Enc for u64 {
    type M = nat;
    open spec fn m(&self) -> nat { *self as nat }
    open spec fn enc(m: nat, b: Seq<u8>) -> bool { m <= u64::MAX && b == varint(m) }
}
pub proof fn vdec_bound(i: Seq<u8>, e: nat)
    ensures vdec(i, e) matches Dec::Ok(m, n) ==> 1 <= n <= i.len()
    decreases i.len()
{
    if i.len() > 0 && e < 9 && i[0] >= 128 { vdec_bound(i.skip(1), e + 1); }
}
impl DecSpec for u64 {
    open spec fn dec(i: Seq<u8>) -> Dec<nat> { vdec(i, 0) }
    proof fn law(m: nat, b: Seq<u8>, t: Seq<u8>) { lemma_varint(m, 0, t); }
    proof fn law_short(m: nat, b: Seq<u8>, k: int) { lemma_varint_short(m, 0, k); }
    proof fn law_bound(i: Seq<u8>) { vdec_bound(i, 0); }
}

/// Numbers that must not exceed `max`.
pub open spec fn dec_upto(i: Seq<u8>, max: nat) -> Dec<nat> {
    match vdec(i, 0) {
        Dec::Ok(v, n) => if v <= max { Dec::Ok(v, n) } else { Dec::Free },
        Dec::Short => Dec::Short,
        Dec::Free => Dec::Free,
    }
}
impl Enc for usize {
    type M = nat;
    open spec fn m(&self) -> nat { *self as nat }
    open spec fn enc(m: nat, b: Seq<u8>) -> bool { m <= usize::MAX && b == varint(m) }
}
impl DecSpec for usize {
    open spec fn dec(i: Seq<u8>) -> Dec<nat> { dec_upto(i, usize::MAX as nat) }
    proof fn law(m: nat, b: Seq<u8>, t: Seq<u8>) { lemma_varint(m, 0, t); }
    proof fn law_short(m: nat, b: Seq<u8>, k: int) { lemma_varint_short(m, 0, k); }
    proof fn law_bound(i: Seq<u8>) { vdec_bound(i, 0); }
}
impl Enc for u32 {
    type M = nat;
    open spec fn m(&self) -> nat { *self as nat }
    open spec fn enc(m: nat, b: Seq<u8>) -> bool { m <= u32::MAX && b == varint(m) }
}
impl DecSpec for u32 {
    open spec fn dec(i: Seq<u8>) -> Dec<nat> { dec_upto(i, u32::MAX as nat) }
    proof fn law(m: nat, b: Seq<u8>, t: Seq<u8>) { lemma_varint(m, 0, t); }
    proof fn law_short(m: nat, b: Seq<u8>, k: int) { lemma_varint_short(m, 0, k); }
    proof fn law_bound(i: Seq<u8>) { vdec_bound(i, 0); }
}
impl Enc for u8 {
    type M = u8;
    open spec fn m(&self) -> u8 { *self }
    open spec fn enc(m: u8, b: Seq<u8>) -> bool { b == seq![m] }
}
impl DecSpec for u8 {
    open spec fn dec(i: Seq<u8>) -> Dec<u8> { if i.len() == 0 { Dec::Short } else { Dec::Ok(i[0], 1) } }
    proof fn law(m: u8, b: Seq<u8>, t: Seq<u8>) { }
    proof fn law_short(m: u8, b: Seq<u8>, k: int) { }
    proof fn law_bound(i: Seq<u8>) { }
}
impl Enc for bool {
    type M = bool;
    open spec fn m(&self) -> bool { *self }
    open spec fn enc(m: bool, b: Seq<u8>) -> bool { b == seq![if m { 1u8 } else { 0u8 }] }
}
impl DecSpec for bool {
    open spec fn dec(i: Seq<u8>) -> Dec<bool> {
        if i.len() == 0 { Dec::Short } else if i[0] == 0 { Dec::Ok(false, 1) } else if i[0] == 1 { Dec::Ok(true, 1) } else { Dec::Free }
    }
    proof fn law(m: bool, b: Seq<u8>, t: Seq<u8>) { }
    proof fn law_short(m: bool, b: Seq<u8>, k: int) { }
    proof fn law_bound(i: Seq<u8>) { }
}
impl Enc for char {
    type M = char;
    open spec fn m(&self) -> char { *self }
    open spec fn enc(m: char, b: Seq<u8>) -> bool { b == varint((m as u32) as nat) }
}
pub open spec fn scalar(v: nat) -> bool { v <= 0xD7FF || 0xE000 <= v <= 0x10FFFF }
impl DecSpec for char {
    open spec fn dec(i: Seq<u8>) -> Dec<char> {
        match dec_upto(i, u32::MAX as nat) {
            Dec::Ok(v, n) => if scalar(v) { Dec::Ok((v as u32) as char, n) } else { Dec::Free },
            Dec::Short => Dec::Short,
            Dec::Free => Dec::Free,
        }
    }
    proof fn law(m: char, b: Seq<u8>, t: Seq<u8>) { lemma_varint((m as u32) as nat, 0, t); }
    proof fn law_short(m: char, b: Seq<u8>, k: int) { lemma_varint_short((m as u32) as nat, 0, k); }
    proof fn law_bound(i: Seq<u8>) { vdec_bound(i, 0); }
}

// The four bytes of a float, as the standard library defines them.
pub uninterp spec fn f32_be(x: f32) -> Seq<u8>;
pub uninterp spec fn f32_of(b: Seq<u8>) -> f32;
pub broadcast axiom fn f32_bytes(x: f32)
    ensures (#[trigger] f32_be(x)).len() == 4, f32_of(f32_be(x)) == x;
impl Enc for f32 {
    type M = f32;
    open spec fn m(&self) -> f32 { *self }
    open spec fn enc(m: f32, b: Seq<u8>) -> bool { b == f32_be(m) }
}
impl DecSpec for f32 {
    open spec fn dec(i: Seq<u8>) -> Dec<f32> { if i.len() < 4 { Dec::Short } else { Dec::Ok(f32_of(i.take(4)), 4) } }
    proof fn law(m: f32, b: Seq<u8>, t: Seq<u8>) { f32_bytes(m); assert((b + t).take(4) =~= b); }
    proof fn law_short(m: f32, b: Seq<u8>, k: int) { f32_bytes(m); }
    proof fn law_bound(i: Seq<u8>) { }
}
