// ---- which products are the same, and which comes first ------------------------------------------
pub open spec fn bytes(s: Seq<char>) -> nat { encode_utf8(s).len() }
/// One description is the beginning of the other, neither empty alone.
pub open spec fn alike(a: Seq<char>, b: Seq<char>) -> bool {
    if (bytes(a) == 0) != (bytes(b) == 0) { false } else if bytes(a) > bytes(b) { b.is_prefix_of(a) } else if bytes(a) < bytes(b) { a.is_prefix_of(b) } else { a == b }
}
pub open spec fn same_vendor(a: &Vendor, b: &Vendor) -> bool { a.name@ == b.name@ && a.id == b.id }
/// `==` of vendors is derived
#[verifier::external_body]
pub fn vendors_equal(a: &Vendor, b: &Vendor) -> (r: bool)
    ensures r == same_vendor(a, b)
{ unimplemented!() }
pub trait TextEq { spec fn text(&self) -> Seq<char>; fn text_eq(&self, o: &String) -> (r: bool) ensures r == (self.text() == o@); fn starts(&self, o: &String) -> (r: bool) ensures r == o@.is_prefix_of(self.text()); }
impl TextEq for String {
    open spec fn text(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn text_eq(&self, o: &String) -> (r: bool) { unimplemented!() }
    #[verifier::external_body]
    fn starts(&self, o: &String) -> (r: bool) { unimplemented!() }
}
/// `usize::cmp`
#[verifier::external_body]
pub fn compare_usize(a: &usize, b: &usize) -> (r: Ordering)
    ensures r == rank_order(*a as int, *b as int)
{ unimplemented!() }
impl Item for Product<'_> {
    open spec fn same(&self, other: &Self) -> bool {
        alike(self.description@, other.description@) && self.title@ == other.title@ && same_vendor(self.vendor, other.vendor) && self.id@ == other.id@ && self.serialization_id == other.serialization_id
    }
    open spec fn rank(&self) -> int { self.serialization_id as int }
/*@fn data/product.rs :: impl PartialEq for Product<'_> :: fn eq
@opt ret = r
@bind ( & self , $other : & Self )
@sub fn eq ( ==> fn is_same(
@sub? self . description . len ( ) ==> str_len(&self.description)
@sub? $o . description . len ( ) ==> str_len(&$o.description)
@sub? $a . description . starts_with ( & $b . description ) ==> $a.description.starts(&$b.description)
@sub? self . description != $o . description ==> !self.description.text_eq(&$o.description)
@sub? self . title == $o . title ==> self.title.text_eq(&$o.title)
@sub? self . id == $o . id ==> self.id.text_eq(&$o.id)
@sub? self . vendor == $o . vendor ==> vendors_equal(self.vendor, $o.vendor)
@spec
@*/
/*@fn data/product.rs :: impl Ord for Product<'_> :: fn cmp
@opt ret = r
@bind ( & self , $other : & Self )
@sub fn cmp ( ==> fn compare(
@sub? std :: cmp :: Ordering ==> Ordering
@sub? self . $f . cmp ( & $o . $g ) ==> compare_usize(&self.$f, &$o.$g)
@spec
@*/
}
