// ---- trimming a text to a byte limit ------------------------------------------------

/// `&s[0..n]`: panics unless n is the offset of a character (or the end).
#[verifier::external_body]
pub fn str_head(s: &str, n: usize) -> (r: &str)
    requires exists|k: int| 0 <= k <= s@.len() && n == #[trigger] off(s@, k)
    ensures forall|k: int| 0 <= k <= s@.len() && n == #[trigger] off(s@, k) ==> r@ == s@.take(k)
{ unimplemented!() }

pub proof fn one_char(c: char)
    ensures encode_utf8(seq![c]).len() == vstd::utf8::encode_scalar(c as u32).len(), encode_utf8(seq![c]).len() >= 1,
{
    reveal_with_fuel(encode_utf8, 2);
    assert(seq![c].drop_first() =~= Seq::<char>::empty());
}
pub proof fn off_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len()
    ensures off(s, k + 1) == off(s, k) + vstd::utf8::encode_scalar(s[k] as u32).len(), off(s, k) < off(s, k + 1)
{
    broadcast use vstd::utf8::group_utf8_lib;
    vstd::utf8::encode_utf8_concat(s.take(k), seq![s[k]]);
    assert(s.take(k + 1) =~= s.take(k) + seq![s[k]]);
    one_char(s[k]);
}
pub proof fn off_mono(s: Seq<char>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures off(s, i) <= off(s, j), i < j ==> off(s, i) < off(s, j)
    decreases j - i
{
    if i < j { off_step(s, j - 1); off_mono(s, i, j - 1); }
}
pub proof fn off_zero(s: Seq<char>)
    ensures off(s, 0) == 0
{
    broadcast use vstd::utf8::group_utf8_lib;
    assert(s.take(0) =~= Seq::<char>::empty());
    reveal_with_fuel(encode_utf8, 1);
}

/// c is the first character that does not fit in `max` bytes.
pub open spec fn first_over(s: Seq<char>, max: nat, c: int) -> bool {
    0 <= c < s.len() && off(s, c) <= max < off(s, c + 1)
}
/// j is the last space that may be cut at.
pub open spec fn last_space(s: Seq<char>, c: int, j: int) -> bool {
    1 <= j <= c && s[j] == ' ' && forall|i: int| j < i <= c ==> s[i] != ' '
}
pub open spec fn no_space(s: Seq<char>, c: int) -> bool { forall|i: int| 1 <= i <= c ==> s[i] != ' ' }
/// r is s, cut at a word boundary when it is longer than max bytes.
pub open spec fn limited(s: Seq<char>, max: nat, r: Seq<char>) -> bool {
    if encode_utf8(s).len() <= max { r == s } else {
        exists|c: int| #[trigger] first_over(s, max, c) && {
            ||| exists|j: int| #[trigger] last_space(s, c, j) && r == s.take(j)
            ||| no_space(s, c) && r == s.take(c)
        }
    }
}

/*@fn serialize/collections.rs :: fn limit_string_len
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind fn limit_string_len ( $arg : & str , $max : usize )
@bind let mut $last = None ;
@bind for ( $offset , $char ) in
@sub $arg . char_indices ( ) ==> str_char_indices($arg)
@sub & $arg [ 0 .. $to ] ==> str_head($arg, $to)
@spec
    ensures limited($arg@, $max as nat, r@),
@start
    let ghost s = $arg@;
    proof { assert(s.take(s.len() as int) =~= s); off_zero(s); }
    let ghost mut pos: int = 0;
@iter 1 it
@loop 1
    invariant it.seq() == indices(s), pos == it.index@, off(s, pos) <= $max,
        encode_utf8(s).len() <= isize::MAX,
        match $last {
            Some(v) => exists|j: int| #[trigger] last_space(s, pos - 1, j) && v == off(s, j),
            None => no_space(s, pos - 1),
        },
@in 1
    proof {
        assert(s.take(s.len() as int) =~= s);
        off_mono(s, pos, s.len() as int);
        off_mono(s, pos + 1, s.len() as int);
        off_step(s, pos);
        off_mono(s, 0, pos);
        off_zero(s);
        if 0 < pos { off_mono(s, 1, pos); off_mono(s, 0, 1); }
        if $last is Some {
            let j = choose|j: int| #[trigger] last_space(s, pos - 1, j) && $last->Some_0 == off(s, j);
            if s[pos] != ' ' { assert(last_space(s, pos, j)); }
        }
        if s[pos] == ' ' && pos > 0 { assert(last_space(s, pos, pos)); }
        assert(s[pos] == ' ' && pos == 0 ==> no_space(s, pos));
    }
@before if $offset + $char . len_utf8 ( ) >
    proof {
        match $last {
            Some(v) => { assert(exists|j: int| #[trigger] last_space(s, pos, j) && v == off(s, j)); }
            None => { assert(no_space(s, pos)); }
        }
        if off(s, pos + 1) > $max {
            assert(first_over(s, $max as nat, pos));
            assert forall|k: int, j: int| 0 <= k <= s.len() && 0 <= j <= s.len() && #[trigger] off(s, k) == #[trigger] off(s, j) implies k == j by {
                if k < j { off_mono(s, k, j); }
                if j < k { off_mono(s, j, k); }
            }
        }
    }
@endin 1
    proof {
        let p0 = pos;
        pos = pos + 1;
        assert(pos - 1 == p0);
        match $last {
            Some(v) => { let j = choose|j: int| #[trigger] last_space(s, p0, j) && v == off(s, j); assert(last_space(s, pos - 1, j)); }
            None => { }
        }
    }
@*/
/*@fn serialize/collections.rs :: fn serialize_string_with_limit
@bind fn $name < Out : ByteSink > ( $arg : & str , $max : usize ,
@spec
    ensures exists|r: Seq<char>| limited($arg@, $max as nat, r) && #[trigger] emitted::<&str>(r, old($outparam).out(), final($outparam).out()),
@*/
