// ---- vendors: one per name, numbered densely ---------------------------------------------

/// The names, with one more unless it is there.
pub open spec fn with_name<T>(s: Seq<T>, n: T) -> Seq<T> { if s.contains(n) { s } else { s.push(n) } }

pub open spec fn grown<'a>(a: &VendorManager<'a>, b: &VendorManager<'a>) -> bool {
    b.by_id@.len() > 0 && {
        let v = b.by_id@.last();
        b.by_id@ == a.by_id@.push(v) && exists|k: &'a str| k@ == v.name@ && b.tags@ == #[trigger] a.tags@.insert(k, v)
    }
}
impl<'a> VendorManager<'a> {
    pub open spec fn wf(&self) -> bool { vendors_ok(self.tags@, self.by_id@) }
    pub open spec fn names(&self) -> Seq<Seq<char>> { names(self.by_id@) }
    pub proof fn keys_are_names(&self, n: Seq<char>)
        requires self.wf()
        ensures (exists|k: &'a str| #[trigger] self.tags@.contains_key(k) && k@ == n) <==> self.names().contains(n)
    { vendor_keys(self.tags@, self.by_id@, n); }
    /// One more vendor.
    pub proof fn wf_grown(&self, next: &Self)
        requires self.wf(), grown(self, next), ({ let v = next.by_id@.last(); v.id == self.by_id@.len() && !self.names().contains(v.name@) }),
        ensures next.wf(), next.names() == self.names().push(next.by_id@.last().name@)
    {
        let v = next.by_id@.last();
        let k = choose|k: &'a str| k@ == v.name@ && next.tags@ == #[trigger] self.tags@.insert(k, v);
        vendors_ok_push(self.tags@, self.by_id@, k, v);
    }

/*@fn data/vendor.rs :: impl<'a> VendorManager<'a> :: fn new
@opt ret = r
@spec
    ensures r.wf(), r.names() == Seq::<Seq<char>>::empty(),
@*/
/*@fn data/vendor.rs :: impl<'a> VendorManager<'a> :: fn get
@opt ret = r
@bind & 'a self , $name : & str
@sub? self . tags . get ( $k ) . copied ( ) ==> copied(self.tags.get($k))
@spec
    requires self.wf(),
    ensures match r {
            Some(v) => v.name@ == $name@ && v.id < self.by_id@.len() && self.by_id@[v.id as int] == v,
            None => !self.names().contains($name@),
        },
@start
    proof { self.keys_are_names($name@); }
@*/
/*@fn data/vendor.rs :: impl<'a> VendorManager<'a> :: fn insert
@bind & mut self , $name : & str
@sub? . insert ( & $t . name , ==> .insert($t.name.as_str(),
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).names() == with_name(old(self).names(), $name@),
        old(self).by_id@.is_prefix_of(final(self).by_id@),
@start
    let ghost s0 = *self;
    proof { self.keys_are_names($name@); }
@end
    proof { if self.by_id@.len() > s0.by_id@.len() {
        let v = self.by_id@.last();
        assert(v.name@ == $name@ && self.by_id@ == s0.by_id@.push(v));
        assert(exists|k: &'a str| k@ == v.name@ && self.tags@ == #[trigger] s0.tags@.insert(k, v));
        s0.wf_grown(self);
    } }
@*/
/*@fn data/vendor.rs :: impl<'a> VendorManager<'a> :: fn get_or_insert
@opt ret = r
@bind & 'a mut self , $name : & str
@sub? . insert ( & $t . name , ==> .insert($t.name.as_str(),
@spec
    requires old(self).wf(),
    ensures final(self).wf(), final(self).names() == with_name(old(self).names(), $name@),
        old(self).by_id@.is_prefix_of(final(self).by_id@),
        r.name@ == $name@, r.id < final(self).by_id@.len(), final(self).by_id@[r.id as int] == r,
@start
    let ghost s0 = *self;
    proof { self.keys_are_names($name@); }
@after . by_id . push ( $w ) ;
    proof {
        let v = self.by_id@.last();
        assert(v.name@ == $name@ && self.by_id@ == s0.by_id@.push(v));
        assert(exists|k: &'a str| k@ == v.name@ && self.tags@ == #[trigger] s0.tags@.insert(k, v));
        s0.wf_grown(self);
    }
@*/
}
