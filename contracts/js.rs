// ---- the JavaScript side (assumed) ------------------------------------------------------

/// A JavaScript value. What is known of it is what can be asked of it.
#[verifier::external_body]
pub struct JsValue { v: std::vec::Vec<u8> }
pub uninterp spec fn js_bool(b: bool) -> JsValue;
pub uninterp spec fn js_f64(x: f64) -> JsValue;
pub uninterp spec fn js_f32(x: f32) -> JsValue;
pub uninterp spec fn js_str(s: Seq<char>) -> JsValue;
pub uninterp spec fn js_number(v: JsValue) -> Option<f64>;
pub uninterp spec fn js_undefined() -> JsValue;
pub uninterp spec fn js_equal(a: JsValue, b: JsValue) -> bool;

/// `JsValue::from(bool)`, `f64::into`, `f32::into`, `str::into`, `JsValue::from_f64`
#[verifier::external_body]
pub fn js_from_bool(b: bool) -> (r: JsValue)
    ensures r == js_bool(b)
{ unimplemented!() }
#[verifier::external_body]
pub fn js_from_f32(x: f32) -> (r: JsValue)
    ensures r == js_f32(x)
{ unimplemented!() }
#[verifier::external_body]
pub fn js_from_str(x: &str) -> (r: JsValue)
    ensures r == js_str(x@)
{ unimplemented!() }
#[verifier::external_body]
pub fn js_undef() -> (r: JsValue)
    ensures r == js_undefined()
{ unimplemented!() }
impl JsValue {
    #[verifier::external_body]
    pub fn from_f64(x: f64) -> (r: JsValue)
        ensures r == js_f64(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn as_f64(&self) -> (r: Option<f64>)
        ensures r == js_number(*self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn is_undefined(&self) -> (r: bool)
        ensures r == (*self == js_undefined())
    { unimplemented!() }
}

/// A JavaScript function.
#[verifier::external_body]
pub struct Function { v: std::vec::Vec<u8> }
pub uninterp spec fn same_fn(a: Function, b: Function) -> bool;
/// `Function == Function`
#[verifier::external_body]
pub fn fn_eq(a: &Function, b: &Function) -> (r: bool)
    ensures r == same_fn(*a, *b)
{ unimplemented!() }

/// The calls made so far, with their argument.
#[verifier::external_body]
pub struct Calls { v: std::vec::Vec<u8> }
pub uninterp spec fn calls_made(c: &Calls) -> Seq<(Function, JsValue)>;
impl View for Calls {
    type V = Seq<(Function, JsValue)>;
    open spec fn view(&self) -> Seq<(Function, JsValue)> { calls_made(self) }
}
/// `Function::call1`: one call; it may report a failure.
#[verifier::external_body]
pub fn call1(f: &Function, this: &JsValue, arg: &JsValue, calls: &mut Calls) -> (r: Result<JsValue, JsValue>)
    ensures final(calls)@ == old(calls)@.push((*f, *arg))
{ unimplemented!() }
/// `JsValue == JsValue`
#[verifier::external_body]
pub fn js_eq(a: &JsValue, b: &JsValue) -> (r: bool)
    ensures r == js_equal(*a, *b)
{ unimplemented!() }
/// `opt.and_then(|j| j.as_f64())`
pub fn opt_as_f64(v: Option<JsValue>) -> (r: Option<f64>)
    ensures r == opt_number(v)
{ match v { Some(v) => v.as_f64(), None => None } }
pub open spec fn opt_number(v: Option<JsValue>) -> Option<f64> { match v { Some(v) => js_number(v), None => None } }
/// `f64 <= f64`
#[verifier::external_body]
pub fn f64_le(a: f64, b: f64) -> (r: bool)
    ensures r == at_most(a, b)
{ unimplemented!() }
pub uninterp spec fn at_most(a: f64, b: f64) -> bool;

#[verifier::external_body]
pub struct JsObject { v: std::vec::Vec<u8> }
#[verifier::external_body]
pub struct JsArray { v: std::vec::Vec<u8> }
pub struct JsReflect { }
pub uninterp spec fn js_entries(o: JsObject) -> Seq<JsValue>;
pub uninterp spec fn js_items(a: JsArray) -> Seq<JsValue>;
pub uninterp spec fn js_array(v: JsValue) -> Option<Seq<JsValue>>;
pub uninterp spec fn js_text(v: JsValue) -> Option<Seq<char>>;
/// A property; nothing when reading it throws.
pub uninterp spec fn js_prop(v: JsValue, key: Seq<char>) -> Option<JsValue>;
pub open spec fn js_item(a: Seq<JsValue>, i: int) -> JsValue { if 0 <= i < a.len() { a[i] } else { js_undefined() } }
pub uninterp spec fn text_of_js(v: JsValue) -> Seq<char>;
pub broadcast axiom fn js_str_text(s: Seq<char>)
    ensures text_of_js(#[trigger] js_str(s)) == s;
impl JsObject {
    #[verifier::external_body]
    pub fn entries(o: &JsObject) -> (r: JsArray)
        ensures js_items(r) == js_entries(*o)
    { unimplemented!() }
}
impl JsArray {
    #[verifier::external_body]
    pub fn iter(&self) -> (r: It<JsValue>)
        ensures rem(&r) == js_items(*self)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, i: u32) -> (r: JsValue)
        ensures r == js_item(js_items(*self), i as int)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn try_from(v: JsValue) -> (r: Result<JsArray, JsValue>)
        ensures match r { Ok(a) => js_array(v) == Some(js_items(a)), Err(e) => js_array(v) is None }
    { unimplemented!() }
}
impl JsReflect {
    #[verifier::external_body]
    pub fn get(v: &JsValue, key: &JsValue) -> (r: Result<JsValue, JsValue>)
        ensures match r { Ok(x) => js_prop(*v, text_of_js(*key)) == Some(x), Err(e) => js_prop(*v, text_of_js(*key)) is None }
    { unimplemented!() }
}
impl JsValue {
    #[verifier::external_body]
    pub fn as_string(&self) -> (r: Option<String>)
        ensures match r { Some(s) => js_text(*self) == Some(s@), None => js_text(*self) is None }
    { unimplemented!() }
}
