// ---- the real scalar codec ----------------------------------------------------

/*@expect serialize/traits.rs :: trait Serializable
trait Serializable { fn serialize<Out: FnMut(u8)>(&self, output: &mut Out); }
@*/
/*@expect serialize/traits.rs :: trait Deserializable
trait Deserializable where Self: Sized, { fn deserialize(input: &[u8]) -> Option<(&[u8], Self)>; }
@*/

/*@head serialize/primitives.rs :: impl Serializable for char @*/ {
/*@fn serialize/primitives.rs :: impl Serializable for char :: fn serialize
@*/
}
/*@head serialize/primitives.rs :: impl Deserializable for char @*/ {
/*@fn serialize/primitives.rs :: impl Deserializable for char :: fn deserialize
@start
    proof { u32::law_bound(input@); }
@*/
}
/*@head serialize/primitives.rs :: impl Serializable for f32 @*/ {
/*@fn serialize/primitives.rs :: impl Serializable for f32 :: fn serialize
@sub in self . to_be_bytes ( ) ==> in array_it(self.to_be_bytes())
@start
    broadcast use f32_bytes;
    let ghost out0 = $outparam.out();
    proof { assert(out0 + f32_be(*self).take(0) =~= out0); }
@iter 1 it
@loop 1
    invariant it.seq() == f32_be(*self), $outparam.out() == out0 + f32_be(*self).take(it.index@),
@endin 1
    proof { assert(out0 + f32_be(*self).take(it.index@ + 1) =~= (out0 + f32_be(*self).take(it.index@)).push(f32_be(*self)[it.index@])); }
@end
    proof { assert(f32_be(*self).take(4) =~= f32_be(*self)); assert(Self::enc(self.m(), f32_be(*self))); }
@*/
}
/*@head serialize/primitives.rs :: impl Deserializable for f32 @*/ {
/*@fn serialize/primitives.rs :: impl Deserializable for f32 :: fn deserialize
@bind let $bytes = [
@before let $num = Self :: from_be_bytes
    proof { assert($bytes@ =~= input@.take(4)); }
@*/
}
/*@head serialize/primitives.rs :: impl Serializable for bool @*/ {
/*@fn serialize/primitives.rs :: impl Serializable for bool :: fn serialize
@sub? u8 :: from ( $$x ) ==> (if $$x { 1u8 } else { 0u8 })
@start
    proof { let b = seq![if *self { 1u8 } else { 0u8 }]; assert($outparam.out().push(b[0]) =~= $outparam.out() + b); assert(Self::enc(self.m(), b)); }
@*/
}
/*@head serialize/primitives.rs :: impl Deserializable for bool @*/ {
/*@fn serialize/primitives.rs :: impl Deserializable for bool :: fn deserialize
@*/
}
/*@head serialize/primitives.rs :: impl Serializable for u64 @*/ {
/*@fn serialize/primitives.rs :: impl Serializable for u64 :: fn serialize
@bind let mut $input = * self ;
@bind let $enc = ( $input as u8 )
@opt loops = 1
@opt kinds = loop
@loop 1
    invariant_except_break old($outparam).out() + varint(*self as nat) == $outparam.out() + varint($input as nat),
    ensures $outparam.out() == old($outparam).out() + varint(*self as nat),
    decreases $input,
@in 1
    let ghost pre = $input;
    let ghost out1 = $outparam.out();
    proof { lemma_shr7($input);
        let c = (($input as u8) & 0x7f) | 0x80;
        let d = ($input as u8) & 0x7f;
        if pre < 128 { assert(varint(pre as nat) == seq![d]); }
        else { assert(varint(pre as nat) == seq![c] + varint(pre as nat / 128)); }
        assert(out1 + seq![d] =~= out1.push(d));
        assert(out1 + (seq![c] + varint(pre as nat / 128)) =~= out1.push(c) + varint(pre as nat / 128));
    }
@end
    proof { assert(Self::enc(self.m(), varint(*self as nat))); }
@*/
}
/*@head serialize/primitives.rs :: impl Deserializable for u64 @*/ {
/*@fn serialize/primitives.rs :: impl Deserializable for u64 :: fn deserialize
@opt loops = 1
@opt kinds = while
@bind fn deserialize ( mut $input : & [ u8 ] )
@bind let mut $out = 0 ; let mut $eaten = 0 ; let mut $more = true ;
@bind let $byte = $input [ 0 ] ;
@start
    let ghost input0 = $input@;
    let ghost mut val: nat = 0;
    proof { assert(vdec(input0, 0) == vacc(0, 0, vdec(input0, 0))); assert($input@ == input0.skip(0)); }
@loop 1
    invariant_except_break $more,
        vdec(input0, 0) == vacc(val, $eaten as nat, vdec($input@, $eaten as nat)),
    invariant 0 <= $eaten <= 9, $eaten <= input0.len(), $input@ == input0.skip($eaten as int),
        sc($out as nat, $eaten as nat) == val * 0x1_0000_0000_0000_0000, val < sc(1, $eaten as nat),
    ensures
        $more ==> ($input@.len() == 0 || $eaten == 9) && vdec(input0, 0) == vacc(val, $eaten as nat, vdec($input@, $eaten as nat)),
        !$more ==> $eaten >= 1 && (vdec(input0, 0) == Dec::<nat>::Ok(val, $eaten as nat) || vdec(input0, 0) is Free),
    decreases 9 - $eaten
@after let $byte = $input [ 0 ] ;
    proof {
        lemma_step($out, val, $eaten as nat, $byte);
        assert(($byte & 0b1000_0000 == 0b1000_0000) == ($byte >= 128)) by (bit_vector);
        assert($input@.skip(1) == input0.skip($eaten + 1));
        val = val + sc(($byte % 128) as nat, $eaten as nat);
    }
@afterloop 1
    proof {
        if $eaten > 0 { lemma_end($out, val, $eaten as nat); }
        if input0.len() >= 10 { assert(input0.skip(9).skip(1) =~= input0.skip(10)); }
    }
@*/
}
/*@head serialize/primitives.rs :: impl Serializable for usize @*/ {
/*@fn serialize/primitives.rs :: impl Serializable for usize :: fn serialize
@*/
}
/*@head serialize/primitives.rs :: impl Deserializable for usize @*/ {
/*@fn serialize/primitives.rs :: impl Deserializable for usize :: fn deserialize
@start
    proof { vdec_bound(input@, 0); }
@*/
}
/*@head serialize/primitives.rs :: impl Serializable for u32 @*/ {
/*@fn serialize/primitives.rs :: impl Serializable for u32 :: fn serialize
@*/
}
/*@head serialize/primitives.rs :: impl Deserializable for u32 @*/ {
/*@fn serialize/primitives.rs :: impl Deserializable for u32 :: fn deserialize
@start
    proof { vdec_bound(input@, 0); }
@*/
}
/*@head serialize/primitives.rs :: impl Serializable for u8 @*/ {
/*@fn serialize/primitives.rs :: impl Serializable for u8 :: fn serialize
@start
    proof { let b = seq![*self]; assert($outparam.out().push(b[0]) =~= $outparam.out() + b); assert(Self::enc(self.m(), b)); }
@*/
}
/*@head serialize/primitives.rs :: impl Deserializable for u8 @*/ {
/*@fn serialize/primitives.rs :: impl Deserializable for u8 :: fn deserialize
@*/
}
