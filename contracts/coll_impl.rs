// ---- the real collection codec --------------------------------------------------

/*@head serialize/collections.rs :: impl<T: Serializable> Serializable for Vec<&T> @*/ {
/*@fn serialize/collections.rs :: impl<T: Serializable> Serializable for Vec<&T> :: fn serialize
@opt loops = 1
@start
    let ghost o0 = $outparam.out();
    let ghost s = self@;
    let ghost ms = models(s);
@bind self . len ( ) . serialize ( $outparam ) ;
@after self . len ( ) . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
    proof { wrote_none::<T>(o1); assert(ms.take(0) =~= Seq::empty()); }
@bind for $item in
@iter 1 it
@loop 1
    invariant it.seq() == s.map_values(|x: &T| &x), ms == models(s),
        wrote::<T>(ms.take(it.index@), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
@endin 1
    proof {
        wrote_step::<T>(ms.take(it.index@), o1, o2, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof { assert(ms.take(ms.len() as int) =~= ms); wrote_done::<T>(ms, o0, o1, $outparam.out()); }
@*/
}
/*@head serialize/collections.rs :: impl<T: Serializable> Serializable for &Vec<T> @*/ {
/*@fn serialize/collections.rs :: impl<T: Serializable> Serializable for &Vec<T> :: fn serialize
@opt loops = 1
@start
    let ghost o0 = $outparam.out();
    let ghost s = self@;
    let ghost ms = models(s);
@after self . len ( ) . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
    proof { wrote_none::<T>(o1); assert(ms.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == s.map_values(|x: T| &x), ms == models(s),
        wrote::<T>(ms.take(it.index@), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
@endin 1
    proof {
        wrote_step::<T>(ms.take(it.index@), o1, o2, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof { assert(ms.take(ms.len() as int) =~= ms); wrote_done::<T>(ms, o0, o1, $outparam.out()); }
@*/
}
/*@head serialize/collections.rs :: impl Serializable for Vec<usize> @*/ {
/*@fn serialize/collections.rs :: impl Serializable for Vec<usize> :: fn serialize
@opt loops = 1
@start
    let ghost o0 = $outparam.out();
    let ghost s = self@;
    let ghost ms = models(s);
@after self . len ( ) . serialize ( $outparam ) ;
    let ghost o1 = $outparam.out();
    proof { wrote_none::<usize>(o1); assert(ms.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == s.map_values(|x: usize| &x), ms == models(s),
        wrote::<usize>(ms.take(it.index@), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
@endin 1
    proof {
        wrote_step::<usize>(ms.take(it.index@), o1, o2, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof { assert(ms.take(ms.len() as int) =~= ms); wrote_done::<usize>(ms, o0, o1, $outparam.out()); }
@*/
}
/*@head serialize/collections.rs :: impl<T: Deserializable> Deserializable for Vec<T> @*/ {
/*@fn serialize/collections.rs :: impl<T: Deserializable> Deserializable for Vec<T> :: fn deserialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind fn deserialize ( $arg : & [ u8 ] )
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $out =
@sub Vec :: with_capacity ( $$cap ) ==> vec_capped($$cap, Ghost(i0.len()))
@start
    let ghost i0 = $arg@;
@before for
    proof { len_loop_init::<T>(i0, $len as nat, $input@); assert(models($out@) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant len_loop::<T>(i0, $len as nat, models($out@), $input@, ($len - it.index@) as nat), $out@.len() == it.index@,
@in 1
    let ghost seen = $out@;
    proof { len_loop_step::<T>(i0, $len as nat, models($out@), $input@, ($len - it.index@) as nat); }
@endin 1
    proof { assert(models($out@) =~= models(seen).push($out@.last().m())); }
@afterloop 1
    proof { len_loop_done::<T>(i0, $len as nat, models($out@), $input@); }
@*/
}
/*@head serialize/collections.rs :: impl Serializable for &'_ str @*/ {
/*@fn serialize/collections.rs :: impl Serializable for &'_ str :: fn serialize
@opt loops = 1
@sub self . bytes ( ) ==> str_bytes(self)
@sub? self . len ( ) ==> str_len(self)
@start
    let ghost o0 = $outparam.out();
    let ghost u = encode_utf8(self@);
@before for
    let ghost o1 = $outparam.out();
    proof { assert(o1 + u.take(0) =~= o1); }
@iter 1 it
@loop 1
    invariant it.seq() == u, $outparam.out() == o1 + u.take(it.index@),
@endin 1
    proof { assert(o1 + u.take(it.index@ + 1) =~= (o1 + u.take(it.index@)).push(u[it.index@])); }
@end
    proof {
        assert(u.take(u.len() as int) =~= u);
        let v = varint(u.len());
        assert(o1 == o0 + v);
        assert(o0 + (v + u) =~= $outparam.out());
        assert(enc_text(self@, v + u));
        assert(emitted::<Self>(self.m(), o0, $outparam.out()));
    }
@*/
}
/*@head serialize/collections.rs :: impl Serializable for String @*/ {
/*@fn serialize/collections.rs :: impl Serializable for String :: fn serialize
@*/
}
/*@head serialize/collections.rs :: impl Deserializable for String @*/ {
/*@fn serialize/collections.rs :: impl Deserializable for String :: fn deserialize
@sub String :: from_utf8 ==> string_from_utf8
@bind fn deserialize ( $arg : & [ u8 ] )
@bind let $bytes = $input . get ( .. $len ) ? ;
@start
    let ghost i0 = $arg@;
    proof { usize::law_bound(i0); }
@after let $bytes = $input . get ( .. $len ) ? ;
    proof {
        let n = $len as int;
        assert($bytes@ =~= $input@.take(n));
        assert forall|v: Vec<u8>| v@.len() == $bytes@.len() && (forall|i: int| 0 <= i < v@.len() ==> cloned($bytes@[i], #[trigger] v@[i])) implies #[trigger] v@ == $bytes@ by { assert(v@ =~= $bytes@); }
        assert($input@.skip(n) =~= i0.skip(i0.len() - ($input@.len() - n)));
        assert($input@.skip(n) =~= $input@.subrange(n, $input@.len() as int));
    }
@*/
}
/*@head serialize/collections.rs :: impl<K: Serializable, V: Serializable> Serializable for AHashMap<K, V>
  @sub K : Serializable ==> K: Serializable + KeyModel
@*/ {
/*@fn serialize/collections.rs :: impl<K: Serializable, V: Serializable> Serializable for AHashMap<K, V> :: fn serialize
@opt loops = 1
@bind for ( $key , $value ) in
@sub in self . iter ( ) ==> in __iter
@start
    let ghost o0 = $outparam.out();
@before for
    let ghost o1 = $outparam.out();
    let __iter = self.iter();
    let ghost s = rem(&__iter);
    let ghost ms = entry_models::<K, V>(s);
    proof { wrote_none::<(K, V)>(o1); assert(ms.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == s, ms == entry_models::<K, V>(s),
        wrote::<(K, V)>(ms.take(it.index@), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
@after $key . serialize ( $outparam ) ;
    let ghost o3 = $outparam.out();
@endin 1
    proof {
        emitted_pair::<K, V>(ms[it.index@].0, ms[it.index@].1, o2, o3, $outparam.out());
        wrote_step::<(K, V)>(ms.take(it.index@), o1, o2, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof {
        assert(ms.take(ms.len() as int) =~= ms); wrote_done::<(K, V)>(ms, o0, o1, $outparam.out());
        entries_model(s, self@);
    }
@*/
}
/*@head serialize/collections.rs :: impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V>
  @sub Deserializable + Eq + Hash ==> Deserializable + KeyModel
@*/ {
/*@fn serialize/collections.rs :: impl<K: Deserializable + Eq + Hash, V: Deserializable> Deserializable for AHashMap<K, V> :: fn deserialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind fn deserialize ( $arg : & [ u8 ] )
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $out =
@bind $out . insert ( $key , $value ) ;
@sub AHashMap :: with_capacity ( $$cap ) ==> amap_capped($$cap, Ghost(i0.len()))
@start
    let ghost i0 = $arg@;
    let ghost mut seen: Seq<(K::M, V::M)> = Seq::empty();
@before for
    proof { len_loop_init::<(K, V)>(i0, $len as nat, $input@); map_model_empty::<K, V>(); }
@iter 1 it
@loop 1
    invariant len_loop::<(K, V)>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        map_model::<K, V>($out@) == map_of(seen),
@in 1
    proof { len_loop_step::<(K, V)>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat); pair_step::<K, V>($input@); }
@before $out . insert ( $key , $value ) ;
    proof {
        map_model_insert::<K, V>($out@, $key, $value);
        assert(seen.push(($key.m(), $value.m())).drop_last() =~= seen);
        seen = seen.push(($key.m(), $value.m()));
    }
@afterloop 1
    proof { len_loop_done::<(K, V)>(i0, $len as nat, seen, $input@); }
@*/
}
/*@head serialize/collections.rs :: impl<T: Serializable, const N: usize> Serializable for [T; N] @*/ {
/*@fn serialize/collections.rs :: impl<T: Serializable, const N: usize> Serializable for [T; N] :: fn serialize
@opt loops = 1
@sub? self . iter ( ) ==> self.as_slice().iter()
@start
    let ghost o0 = $outparam.out();
    let ghost s = self@;
    let ghost ms = models(s);
@before for
    let ghost o1 = $outparam.out();
    proof { u64_as_usize(N, o0, o1); wrote_none::<T>(o1); assert(ms.take(0) =~= Seq::empty()); }
@iter 1 it
@loop 1
    invariant it.seq() == s.map_values(|x: T| &x), ms == models(s),
        wrote::<T>(ms.take(it.index@), o1, $outparam.out()),
@in 1
    let ghost o2 = $outparam.out();
@endin 1
    proof {
        wrote_step::<T>(ms.take(it.index@), o1, o2, ms[it.index@], $outparam.out());
        assert(ms.take(it.index@).push(ms[it.index@]) =~= ms.take(it.index@ + 1));
    }
@end
    proof { assert(ms.take(ms.len() as int) =~= ms); wrote_done::<T>(ms, o0, o1, $outparam.out()); }
@*/
}
/*@head serialize/collections.rs :: impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] @*/ {
/*@fn serialize/collections.rs :: impl<T: Default + Deserializable + Copy, const N: usize> Deserializable for [T; N] :: fn deserialize
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind fn deserialize ( $arg : & [ u8 ] )
@bind let ( mut $input , $len ) = usize :: deserialize
@bind let mut $out =
@bind let ( $new , $item ) = T :: deserialize
@sub [ T :: default ( ) ; N ] ==> default_array::<T, N>()
@sub $out . iter_mut ( ) . take ( $len ) ==> __iter
@start
    let ghost i0 = $arg@;
    let ghost mut seen: Seq<T::M> = Seq::empty();
    proof { dec_len_count::<T>(i0); }
@before for
    proof { len_loop_init::<T>(i0, $len as nat, $input@); }
    let __iter = take_mut(&mut $out, $len);
    let ghost its = rem(&__iter);
@iter 1 it
@loop 1
    invariant it.seq() == its, len_loop::<T>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat), seen.len() == it.index@,
        $len == N, it.seq().len() == N,
        forall|i: int| 0 <= i < it.index@ ==> (*final(#[trigger] its[i])).m() == seen[i],
@in 1
    proof { len_loop_step::<T>(i0, $len as nat, seen, $input@, ($len - it.index@) as nat); }
@endin 1
    proof { seen = seen.push($item.m()); }
@afterloop 1
    proof {
        assert forall|i: int| #![trigger models($out@)[i]] 0 <= i < N implies models($out@)[i] == seen[i] by { assert($out@[i] == *final(its[i])); }
        assert(models($out@) =~= seen); len_loop_done::<T>(i0, $len as nat, seen, $input@);
    }
@*/
}
