// ---- options and tags, looked up
impl<'a> CategoryOption<'a> {
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryOption<'a> :: fn contains
@opt ret = r
@bind & self , $product : & Product
@spec
    ensures r == in_option(self, $product),
@*/
}
impl<'a> Tag<'a> {
/*@fn classic_indexes/tag.rs :: impl<'a> Tag<'a> :: fn contains
@opt ret = r
@bind & self , $product : & Product
@spec
    ensures r == in_tag(self, $product),
@*/
/*@fn classic_indexes/tag.rs :: impl<'a> Tag<'a> :: fn get_id
@opt ret = r
@spec
    ensures r == self.id,
@*/
}
impl<'a> TagIndex<'a> {
/*@fn classic_indexes/tag.rs :: impl<'a> TagIndex<'a> :: fn get
@opt ret = r
@bind & 'a self , $id : usize
@sub? self . 0 . iter ( ) ; ==>
@spec
    ensures match r { Some(t) => $id < self.0@.len() && *t == self.0@[$id as int], None => $id >= self.0@.len() },
@*/
}
impl<'a> CategoryIndex<'a> {
/*@fn classic_indexes/categorical.rs :: impl<'a> CategoryIndex<'a> :: fn get
@opt ret = r
@bind & 'a self , $id : usize
@spec
    ensures match r { Some(t) => $id < self.0@.len() && *t == self.0@[$id as int], None => $id >= self.0@.len() },
@*/
/*@fn classic_indexes/categorical.rs :: impl<'a> std::ops::Index<usize> for CategoryIndex<'a> :: fn index
@opt ret = r
@opt name = at
@bind & self , $id : usize
@sub & Self :: Output ==> &Category<'a>
@spec
    requires $id < self.0@.len(),
    ensures *r == self.0@[$id as int],
@*/
}

