// ---- chosen facets -----------------------------------------------------------------
/*@item js_interactable/category_handler.rs :: struct CategoryHandler @*/
/*@item js_interactable/category_handler.rs :: struct CategoryIter @*/
/*@item js_interactable/category_handler.rs :: struct CategoryOptionIter @*/
/*@item js_interactable/category_handler.rs :: struct ExportCategoryOption @*/
/*@item js_interactable/tag_handler.rs :: struct TagHandler @*/
/*@item js_interactable/tag_handler.rs :: struct TagIter @*/
/*@item js_interactable/tag_handler.rs :: struct JSTag @*/

// ---- membership

pub open spec fn in_option(o: &CategoryOption, p: &Product) -> bool { o.products_by_serialization_id@.contains(p.serialization_id) }
pub open spec fn in_tag(t: &Tag, p: &Product) -> bool { t.products_by_serialization_id@.contains(p.serialization_id) }

impl<'a> TagIndex<'a> {
    /// The number of a tag is its position.
    pub open spec fn wf(&self) -> bool { forall|i: int| 0 <= i < self.0@.len() ==> (#[trigger] self.0@[i]).id == i }
}

pub type OptionKey = (usize, usize);
pub open spec fn has_option(c: &ClassicIndexes, k: OptionKey) -> bool {
    k.0 < c.categories.0@.len() && k.1 < c.categories.0@[k.0 as int].options@.len()
}
pub open spec fn option_at<'a>(c: &ClassicIndexes<'a>, k: OptionKey) -> CategoryOption<'a> { c.categories.0@[k.0 as int].options@[k.1 as int] }

pub open spec fn flipped<K>(m: Map<K, ()>, k: K) -> Map<K, ()> { if m.contains_key(k) { m.remove(k) } else { m.insert(k, ()) } }
/// The observers of one item.
pub open spec fn observers_of<K>(m: Map<K, Vec<Function>>, k: K) -> Seq<Function> { if m.contains_key(k) { m[k]@ } else { Seq::empty() } }
/// The same with `f` registered once more.
pub open spec fn registered<K>(a: Map<K, Vec<Function>>, b: Map<K, Vec<Function>>, k: K, f: Function) -> bool {
    &&& b.dom() == a.dom().insert(k)
    &&& observers_of(b, k).to_multiset() == observers_of(a, k).to_multiset().insert(f)
    &&& forall|x: K| x != k && a.contains_key(x) ==> #[trigger] b[x] == a[x]
}
/// The same with one registration of `f` undone (or as before when there is none).
pub open spec fn unregistered<K>(a: Map<K, Vec<Function>>, b: Map<K, Vec<Function>>, k: K, f: Function) -> bool {
    &&& b.dom() == a.dom()
    &&& forall|x: K| x != k && a.contains_key(x) ==> #[trigger] b[x] == a[x]
    &&& one_less(observers_of(a, k), observers_of(b, k), f)
}
pub open spec fn one_less(a: Seq<Function>, b: Seq<Function>, f: Function) -> bool {
    if exists|i: int| 0 <= i < a.len() && same_fn(f, #[trigger] a[i]) {
        exists|g: Function| #[trigger] same_fn(f, g) && a.to_multiset().count(g) > 0 && b.to_multiset() == a.to_multiset().remove(g)
    } else { a == b }
}
pub proof fn one_list_changed<K>(a: Map<K, Vec<Function>>, k: K, f: Function)
    ensures
        forall|v: Vec<Function>| a.contains_key(k) && one_less(a[k]@, v@, f) ==> #[trigger] unregistered(a, a.insert(k, v), k, f),
        !a.contains_key(k) ==> unregistered(a, a, k, f),
{
    assert forall|v: Vec<Function>| a.contains_key(k) && one_less(a[k]@, v@, f) implies #[trigger] unregistered(a, a.insert(k, v), k, f) by {
        assert(a.insert(k, v).dom() =~= a.dom());
    }
}
pub open spec fn told(fs: Seq<Function>, v: JsValue) -> Seq<(Function, JsValue)> { fs.map_values(|f: Function| (f, v)) }
/// Every one of the observers was called once per registration, with this value.
pub open spec fn all_told(a: Seq<(Function, JsValue)>, b: Seq<(Function, JsValue)>, fs: Seq<Function>, v: JsValue) -> bool {
    exists|gs: Seq<Function>| gs.to_multiset() == fs.to_multiset() && b == a + #[trigger] told(gs, v)
}

/// `opt.map_or(&[][..], |vec| &vec[..]).iter()`
pub fn list_or_none<'a, T>(l: Option<&'a Vec<T>>) -> (r: It<&'a T>)
    ensures rem(&r) == refs(match l { Some(v) => v@, None => Seq::empty() })
{ match l { Some(v) => it_of(v.as_slice()), None => it_none() } }

pub proof fn both_orders<T>(a: Seq<T>, b: Seq<T>)
    ensures (a + b).to_multiset() == (b + a).to_multiset()
{
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(b, a);
    assert(a.to_multiset().add(b.to_multiset()) =~= b.to_multiset().add(a.to_multiset()));
}
pub proof fn removed_one<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures s.update(i, s.last()).drop_last().to_multiset() == s.to_multiset().remove(s[i]), s.to_multiset().count(s[i]) > 0
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let l = s.last();
    let u = s.update(i, l);
    assert(u.drop_last().push(l) =~= u);
    vstd::seq_lib::to_multiset_update(s, i, l);
    assert(s.contains(s[i]));
    let d = u.drop_last().to_multiset();
    assert(d.insert(l) =~= s.to_multiset().insert(l).remove(s[i]));
    assert forall|v: T| #[trigger] d.count(v) == s.to_multiset().remove(s[i]).count(v) by {
        assert(d.insert(l).count(v) == s.to_multiset().insert(l).remove(s[i]).count(v));
    }
    assert(u.drop_last().to_multiset() =~= s.to_multiset().remove(s[i]));
}
pub proof fn one_function(f: Function)
    ensures seq![f].to_multiset() == Seq::<Function>::empty().to_multiset().insert(f)
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(Seq::<Function>::empty().push(f) =~= seq![f]);
}

impl ExportCategoryOption {
/*@fn js_interactable/category_handler.rs :: impl ExportCategoryOption :: fn keys
@opt ret = r
@spec
    ensures r == self.key(),
@*/
/*@fn js_interactable/category_handler.rs :: impl ExportCategoryOption :: fn get_name
@opt ret = r
@spec
    ensures r@ == self.name@,
@*/
    pub open spec fn key(&self) -> OptionKey { (self.cat_id, self.option_id) }
}

impl CategoryHandler {
    pub open spec fn wf(&self) -> bool { forall|k: OptionKey| #[trigger] self.active@.contains_key(k) ==> has_option(&*self.handle, k) }

/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn new
@opt ret = r
@bind fn new ( $handle :
@spec
    ensures r.handle == $handle, r.active@ == Map::<OptionKey, ()>::empty(), r.general_observers@.len() == 0,
        r.option_observers@ == Map::<OptionKey, Vec<Function>>::empty(), r.wf(),
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn toggle
@opt loops = 1
@bind & mut self , $item : & ExportCategoryOption
@sub $item : & ExportCategoryOption ==> $item: &ExportCategoryOption, calls: &mut Calls
@sub? self . $of . get ( $$k ) . map_or ( & [ ] [ .. ] , | vec | & vec [ .. ] ) . iter ( ) ==> list_or_none(self.$of.get($$k))
@sub? self . general_observers . iter ( ) ==> it_of(self.general_observers.as_slice())
@sub? JsValue :: from ( $$v ) ==> js_from_bool($$v)
@sub? & JsValue :: UNDEFINED ==> &js_undef()
@sub? println ! ( $$e ) ; ==>
@sub $obs . call1 ( $$a ) ==> call1($obs, $$a, calls)
@bind let $all = $first . chain
@bind let $jsstate = js_from_bool
@spec
    requires old(self).wf(), has_option(&*old(self).handle, $item.key()),
    ensures final(self).wf(),
        final(self).active@ == flipped(old(self).active@, $item.key()),
        final(self).handle == old(self).handle, final(self).general_observers == old(self).general_observers,
        final(self).option_observers == old(self).option_observers,
        all_told(old(calls)@, final(calls)@, observers_of(old(self).option_observers@, $item.key()) + old(self).general_observers@,
            js_bool(final(self).active@.contains_key($item.key()))),
@before for
    let ghost calls0 = calls@;
    let ghost fs = derefs(rem(&$all));
    proof {
        assert(told(fs.take(0), $jsstate) =~= Seq::empty());
        assert(calls@ =~= calls0 + told(fs.take(0), $jsstate));
        both_orders(observers_of(self.option_observers@, $item.key()), self.general_observers@);
        let oo = observers_of(self.option_observers@, $item.key());
        assert(fs =~= oo + self.general_observers@ || fs =~= self.general_observers@ + oo);
        assert(fs.to_multiset() == (observers_of(self.option_observers@, $item.key()) + self.general_observers@).to_multiset());
    }
@iter 1 it
@bind for $observer in
@loop 1
    invariant it.seq().len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] it.seq()[i]) == fs[i],
        calls@ == calls0 + told(fs.take(it.index@), $jsstate),
@endin 1
    proof {
        assert(calls0 + told(fs.take(it.index@ + 1), $jsstate) =~= (calls0 + told(fs.take(it.index@), $jsstate)).push((fs[it.index@], $jsstate)));
    }
@end
    proof {
        assert(fs.take(fs.len() as int) =~= fs);
        assert(calls@ == calls0 + told(fs, $jsstate));
    }
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn get_status
@opt ret = r
@bind & self , $item : & ExportCategoryOption
@spec
    ensures r == self.active@.contains_key($item.key()),
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn iter
@opt ret = r
@spec
    ensures r.handle == self.handle, r.index == 0,
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn add_general_observer
@bind & mut self , $f :
@spec
    ensures final(self).general_observers@.to_multiset() == old(self).general_observers@.to_multiset().insert($f),
        final(self).handle == old(self).handle, final(self).active == old(self).active, final(self).option_observers == old(self).option_observers,
@start
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn add_option_lister
@bind & mut self , $item : & ExportCategoryOption , $f :
@spec
    ensures registered(old(self).option_observers@, final(self).option_observers@, $item.key(), $f),
        final(self).handle == old(self).handle, final(self).active == old(self).active, final(self).general_observers == old(self).general_observers,
@start
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; one_function($f); }
@end
    proof {
        let k = $item.key();
        let a = old(self).option_observers@;
        let b = self.option_observers@;
        assert(b.dom() =~= a.dom().insert(k));
        assert(observers_of(b, k) =~= observers_of(a, k).push($f));
    }
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn remove_option_listener
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@start
    proof { one_list_changed(self.option_observers@, $item.key(), *$f); }
@bind & mut self , $item : & ExportCategoryOption , $f : & Function
@bind let $list = match
@sub? $list . iter ( ) ==> it_of($list.as_slice())
@sub? $f == $obs ==> fn_eq($f, $obs)
@spec
    ensures unregistered(old(self).option_observers@, final(self).option_observers@, $item.key(), *$f),
        final(self).handle == old(self).handle, final(self).active == old(self).active, final(self).general_observers == old(self).general_observers,
@before for
    let ghost k = $item.key();
    let ghost a = old(self).option_observers@;
    proof { assert(a.contains_key(k) && a[k] == *$list); }
@iter 1 it
@loop 1
    invariant it.seq().len() == observers_of(a, k).len(),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, &observers_of(a, k)[i]),
        *$list == a[k], a.contains_key(k), k == $item.key(), a == old(self).option_observers@,
        forall|i: int| 0 <= i < it.index@ ==> !same_fn(*$f, #[trigger] observers_of(a, k)[i]),
@after $list . swap_remove ( $$index ) ;
    proof {
        removed_one(observers_of(a, k), $$index as int);
        assert(same_fn(*$f, observers_of(a, k)[$$index as int]));
        assert(observers_of(a, k).contains(observers_of(a, k)[$$index as int]));
    }
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryHandler :: fn is_valid
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind & self , $product : & Product
@sub? handle . categories [ $$i ] ==> handle.categories.at($$i)
@bind let $category = & self . handle . categories . at
@spec
    requires self.wf(),
    ensures r == (forall|k: OptionKey| #[trigger] self.active@.contains_key(k) ==> in_option(&option_at(&*self.handle, k), $product)),
@iter 1 it
@loop 1
    invariant each_once(it.seq(), self.active@.dom()),
        forall|i: int| 0 <= i < it.index@ ==> in_option(&option_at(&*self.handle, *(#[trigger] it.seq()[i])), $product),
@in 1
    proof { assert(self.active@.contains_key(*it.seq()[it.index@])); }
@*/
}

impl JSTag {
    pub open spec fn wf(&self) -> bool { self.handle.tags.wf() && self.index < self.handle.tags.0@.len() }
    pub open spec fn number(&self) -> usize { self.index }
/*@fn js_interactable/tag_handler.rs :: impl JSTag :: fn get_id
@opt ret = r
@spec
    requires self.wf(),
    ensures r == self.number(),
@*/
/*@fn js_interactable/tag_handler.rs :: impl JSTag :: fn get_name
@opt ret = r
@spec
    requires self.wf(),
    ensures r@ == self.handle.tags.0@[self.index as int].name@,
@*/
/*@fn js_interactable/tag_handler.rs :: impl JSTag :: fn new
@opt ret = r
@bind fn new ( $handle : $$t , $index : usize
@spec
    ensures r.handle == $handle, r.index == $index,
@*/
}
impl TagIter {
/*@fn js_interactable/tag_handler.rs :: impl TagIter :: fn next_tag
@opt ret = r
@spec
    ensures final(self).handle == old(self).handle,
        match r {
            Some(t) => t.handle == old(self).handle && t.index == old(self).index && t.index < old(self).handle.tags.0@.len() && final(self).index == old(self).index + 1,
            None => old(self).index >= old(self).handle.tags.0@.len() && final(self).index == old(self).index,
        },
@start
    proof { assert(self.handle.tags.0.len() <= usize::MAX); }
@*/
}
impl CategoryIter {
/*@fn js_interactable/category_handler.rs :: impl CategoryIter :: fn next_item
@opt ret = r
@spec
    ensures final(self).handle == old(self).handle,
        match r {
            Some(c) => c.handle == old(self).handle && c.category_index == old(self).index && c.index == 0
                && c.category_index < old(self).handle.categories.0@.len() && final(self).index == old(self).index + 1,
            None => old(self).index >= old(self).handle.categories.0@.len() && final(self).index == old(self).index,
        },
@start
    proof { assert(self.handle.categories.0.len() <= usize::MAX); }
@*/
}
impl CategoryOptionIter {
    pub open spec fn wf(&self) -> bool { self.category_index < self.handle.categories.0@.len() }
    pub open spec fn options(&self) -> Seq<CategoryOption<'static>> { self.handle.categories.0@[self.category_index as int].options@ }
/*@fn js_interactable/category_handler.rs :: impl CategoryOptionIter :: fn next_item
@opt ret = r
@spec
    requires old(self).wf(),
    ensures final(self).handle == old(self).handle, final(self).category_index == old(self).category_index,
        match r {
            Some(o) => old(self).index < old(self).options().len() && o.key() == (old(self).category_index, old(self).index)
                && o.name@ == old(self).options()[old(self).index as int].name@ && final(self).index == old(self).index + 1,
            None => old(self).index >= old(self).options().len() && final(self).index == old(self).index,
        },
@start
    proof { assert(self.handle.categories.0@[self.category_index as int].options.len() <= usize::MAX); }
@*/
/*@fn js_interactable/category_handler.rs :: impl CategoryOptionIter :: fn name
@opt ret = r
@sub? handle . categories [ $$i ] ==> handle.categories.at($$i)
@spec
    requires self.wf(),
    ensures r@ == self.handle.categories.0@[self.category_index as int].name@,
@*/
}
impl TagHandler {
    pub open spec fn wf(&self) -> bool {
        self.handle.tags.wf() && forall|k: usize| #[trigger] self.active@.contains_key(k) ==> k < self.handle.tags.0@.len()
    }

/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn new
@opt ret = r
@bind fn new ( $handle :
@spec
    ensures r.handle == $handle, r.active@ == Map::<usize, ()>::empty(), r.general_observers@.len() == 0,
        r.tag_observers@ == Map::<usize, Vec<Function>>::empty(), $handle.tags.wf() ==> r.wf(),
@*/
/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn toggle
@opt loops = 1
@bind & mut self , $item : & JSTag
@sub $item : & JSTag ==> $item: &JSTag, calls: &mut Calls
@sub? self . $of . get ( $$k ) . map_or ( & [ ] [ .. ] , | vec | & vec [ .. ] ) . iter ( ) ==> list_or_none(self.$of.get($$k))
@sub? self . general_observers . iter ( ) ==> it_of(self.general_observers.as_slice())
@sub? JsValue :: from ( $$v ) ==> js_from_bool($$v)
@sub? & JsValue :: UNDEFINED ==> &js_undef()
@sub? println ! ( $$e ) ; ==>
@sub $obs . call1 ( $$a ) ==> call1($obs, $$a, calls)
@bind let $all = $first . chain
@bind let $jsstate = js_from_bool
@spec
    requires old(self).wf(), $item.wf(), $item.handle == old(self).handle,
    ensures final(self).wf(),
        final(self).active@ == flipped(old(self).active@, $item.number()),
        final(self).handle == old(self).handle, final(self).general_observers == old(self).general_observers,
        final(self).tag_observers == old(self).tag_observers,
        all_told(old(calls)@, final(calls)@, observers_of(old(self).tag_observers@, $item.number()) + old(self).general_observers@,
            js_bool(final(self).active@.contains_key($item.number()))),
@before for
    let ghost calls0 = calls@;
    let ghost fs = derefs(rem(&$all));
    proof {
        assert(told(fs.take(0), $jsstate) =~= Seq::empty());
        assert(calls@ =~= calls0 + told(fs.take(0), $jsstate));
        both_orders(observers_of(self.tag_observers@, $item.number()), self.general_observers@);
        let oo = observers_of(self.tag_observers@, $item.number());
        assert(fs =~= oo + self.general_observers@ || fs =~= self.general_observers@ + oo);
        assert(fs.to_multiset() == (observers_of(self.tag_observers@, $item.number()) + self.general_observers@).to_multiset());
    }
@iter 1 it
@bind for $observer in
@loop 1
    invariant it.seq().len() == fs.len(), forall|i: int| 0 <= i < fs.len() ==> *(#[trigger] it.seq()[i]) == fs[i],
        calls@ == calls0 + told(fs.take(it.index@), $jsstate),
@endin 1
    proof {
        assert(calls0 + told(fs.take(it.index@ + 1), $jsstate) =~= (calls0 + told(fs.take(it.index@), $jsstate)).push((fs[it.index@], $jsstate)));
    }
@end
    proof {
        assert(fs.take(fs.len() as int) =~= fs);
        assert(calls@ == calls0 + told(fs, $jsstate));
    }
@*/
/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn get_status
@opt ret = r
@bind & self , $item : & JSTag
@spec
    requires $item.wf(),
    ensures r == self.active@.contains_key($item.number()),
@*/
/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn tags
@opt ret = r
@spec
    ensures r.handle == self.handle, r.index == 0,
@*/
/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn add_general_observer
@bind & mut self , $f :
@spec
    ensures final(self).general_observers@.to_multiset() == old(self).general_observers@.to_multiset().insert($f),
        final(self).handle == old(self).handle, final(self).active == old(self).active, final(self).tag_observers == old(self).tag_observers,
@start
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; }
@*/
/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn add_tag_lister
@bind & mut self , $item : & JSTag , $f :
@spec
    requires $item.wf(),
    ensures registered(old(self).tag_observers@, final(self).tag_observers@, $item.number(), $f),
        final(self).handle == old(self).handle, final(self).active == old(self).active, final(self).general_observers == old(self).general_observers,
@start
    proof { broadcast use vstd::seq_lib::group_to_multiset_ensures; one_function($f); }
@end
    proof {
        let k = $item.number();
        let a = old(self).tag_observers@;
        let b = self.tag_observers@;
        assert(b.dom() =~= a.dom().insert(k));
        assert(observers_of(b, k) =~= observers_of(a, k).push($f));
    }
@*/
/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn remove_tag_listener
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@start
    proof { one_list_changed(self.tag_observers@, $item.number(), *$f); }
@bind & mut self , $item : & JSTag , $f : & Function
@bind let $list = match
@sub? $list . iter ( ) ==> it_of($list.as_slice())
@sub? $f == $obs ==> fn_eq($f, $obs)
@spec
    requires $item.wf(),
    ensures unregistered(old(self).tag_observers@, final(self).tag_observers@, $item.number(), *$f),
        final(self).handle == old(self).handle, final(self).active == old(self).active, final(self).general_observers == old(self).general_observers,
@before for
    let ghost k = $item.number();
    let ghost a = old(self).tag_observers@;
    proof { assert(a.contains_key(k) && a[k] == *$list); }
@iter 1 it
@loop 1
    invariant it.seq().len() == observers_of(a, k).len(),
        forall|i: int| 0 <= i < it.seq().len() ==> #[trigger] it.seq()[i] == (i as usize, &observers_of(a, k)[i]),
        *$list == a[k], a.contains_key(k), k == $item.number(), a == old(self).tag_observers@,
        forall|i: int| 0 <= i < it.index@ ==> !same_fn(*$f, #[trigger] observers_of(a, k)[i]),
@after $list . swap_remove ( $$index ) ;
    proof {
        removed_one(observers_of(a, k), $$index as int);
        assert(same_fn(*$f, observers_of(a, k)[$$index as int]));
        assert(observers_of(a, k).contains(observers_of(a, k)[$$index as int]));
    }
@*/
/*@fn js_interactable/tag_handler.rs :: impl TagHandler :: fn is_valid
@opt ret = r
@opt loops = 1
@opt attr = #[verifier::loop_isolation(false)]
@bind & self , $product : & Product
@spec
    requires self.wf(),
    ensures r == (forall|k: usize| #[trigger] self.active@.contains_key(k) ==> in_tag(&self.handle.tags.0@[k as int], $product)),
@iter 1 it
@loop 1
    invariant each_once(it.seq(), self.active@.dom()),
        forall|i: int| 0 <= i < it.index@ ==> in_tag(&self.handle.tags.0@[*(#[trigger] it.seq()[i]) as int], $product),
@in 1
    proof { assert(self.active@.contains_key(*it.seq()[it.index@])); }
@*/
}
