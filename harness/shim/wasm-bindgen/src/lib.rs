//! JavaScript values as plain Rust values.
use std::cell::RefCell;
use std::rc::Rc;

pub use wasm_bindgen_macro::wasm_bindgen;

pub mod prelude {
    pub use crate::{JsCast, JsError, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}

pub type Callback = Rc<RefCell<dyn FnMut(&[JsValue]) -> Result<JsValue, JsValue>>>;

#[derive(Clone)]
pub enum Repr {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Text(String),
    Array(Rc<RefCell<Vec<JsValue>>>),
    Object(Rc<RefCell<Vec<(String, JsValue)>>>),
    Function(Callback),
}

#[derive(Clone)]
pub struct JsValue(pub Repr);

impl JsValue {
    pub const UNDEFINED: JsValue = JsValue(Repr::Undefined);
    pub const NULL: JsValue = JsValue(Repr::Null);
    pub const TRUE: JsValue = JsValue(Repr::Bool(true));
    pub const FALSE: JsValue = JsValue(Repr::Bool(false));
    pub const fn undefined() -> JsValue {
        JsValue::UNDEFINED
    }
    pub const fn null() -> JsValue {
        JsValue::NULL
    }
    pub fn from_f64(n: f64) -> JsValue {
        JsValue(Repr::Number(n))
    }
    pub fn from_str(s: &str) -> JsValue {
        JsValue(Repr::Text(s.to_string()))
    }
    pub const fn from_bool(b: bool) -> JsValue {
        JsValue(Repr::Bool(b))
    }
    pub fn as_f64(&self) -> Option<f64> {
        match &self.0 {
            Repr::Number(n) => Some(*n),
            _ => None,
        }
    }
    pub fn as_string(&self) -> Option<String> {
        match &self.0 {
            Repr::Text(s) => Some(s.clone()),
            _ => None,
        }
    }
    pub fn as_bool(&self) -> Option<bool> {
        match &self.0 {
            Repr::Bool(b) => Some(*b),
            _ => None,
        }
    }
    pub fn is_undefined(&self) -> bool {
        matches!(self.0, Repr::Undefined)
    }
    pub fn is_null(&self) -> bool {
        matches!(self.0, Repr::Null)
    }
    pub fn is_null_or_undefined(&self) -> bool {
        self.is_null() || self.is_undefined()
    }
    pub fn is_string(&self) -> bool {
        matches!(self.0, Repr::Text(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.0, Repr::Object(_) | Repr::Array(_))
    }
    pub fn is_array(&self) -> bool {
        matches!(self.0, Repr::Array(_))
    }
    pub fn is_function(&self) -> bool {
        matches!(self.0, Repr::Function(_))
    }
    pub fn is_truthy(&self) -> bool {
        match &self.0 {
            Repr::Undefined | Repr::Null => false,
            Repr::Bool(b) => *b,
            Repr::Number(n) => *n != 0.0 && !n.is_nan(),
            Repr::Text(s) => !s.is_empty(),
            _ => true,
        }
    }
    pub fn is_falsy(&self) -> bool {
        !self.is_truthy()
    }
    /// `==` of JavaScript, for two values of one type
    pub fn loose_eq(&self, other: &JsValue) -> bool {
        self == other || (self.is_null_or_undefined() && other.is_null_or_undefined())
    }
}

/// `===` of JavaScript
impl PartialEq for JsValue {
    fn eq(&self, other: &JsValue) -> bool {
        match (&self.0, &other.0) {
            (Repr::Undefined, Repr::Undefined) | (Repr::Null, Repr::Null) => true,
            (Repr::Bool(a), Repr::Bool(b)) => a == b,
            (Repr::Number(a), Repr::Number(b)) => a == b,
            (Repr::Text(a), Repr::Text(b)) => a == b,
            (Repr::Array(a), Repr::Array(b)) => Rc::ptr_eq(a, b),
            (Repr::Object(a), Repr::Object(b)) => Rc::ptr_eq(a, b),
            (Repr::Function(a), Repr::Function(b)) => {
                std::ptr::eq(Rc::as_ptr(a) as *const u8, Rc::as_ptr(b) as *const u8)
            }
            _ => false,
        }
    }
}
impl PartialEq<bool> for JsValue {
    fn eq(&self, other: &bool) -> bool {
        self.as_bool() == Some(*other)
    }
}
impl PartialEq<str> for JsValue {
    fn eq(&self, other: &str) -> bool {
        self.as_string().as_deref() == Some(other)
    }
}
impl PartialEq<&str> for JsValue {
    fn eq(&self, other: &&str) -> bool {
        self.as_string().as_deref() == Some(*other)
    }
}
impl PartialEq<String> for JsValue {
    fn eq(&self, other: &String) -> bool {
        self.as_string().as_ref() == Some(other)
    }
}
impl PartialEq<f64> for JsValue {
    fn eq(&self, other: &f64) -> bool {
        self.as_f64() == Some(*other)
    }
}
impl std::fmt::Debug for JsValue {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.0 {
            Repr::Undefined => write!(f, "undefined"),
            Repr::Null => write!(f, "null"),
            Repr::Bool(b) => write!(f, "{b}"),
            Repr::Number(n) => write!(f, "{n}"),
            Repr::Text(s) => write!(f, "{s:?}"),
            Repr::Array(a) => write!(f, "{:?}", a.borrow()),
            Repr::Object(o) => f.debug_map().entries(o.borrow().iter().map(|(k, v)| (k, v))).finish(),
            Repr::Function(_) => write!(f, "function"),
        }
    }
}
impl Default for JsValue {
    fn default() -> JsValue {
        JsValue::UNDEFINED
    }
}
impl From<&str> for JsValue {
    fn from(s: &str) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<String> for JsValue {
    fn from(s: String) -> JsValue {
        JsValue(Repr::Text(s))
    }
}
impl From<&String> for JsValue {
    fn from(s: &String) -> JsValue {
        JsValue::from_str(s)
    }
}
impl From<bool> for JsValue {
    fn from(b: bool) -> JsValue {
        JsValue(Repr::Bool(b))
    }
}
macro_rules! numbers {
    ($($t:ty)*) => {$(
        impl From<$t> for JsValue {
            fn from(n: $t) -> JsValue {
                JsValue(Repr::Number(n as f64))
            }
        }
    )*};
}
numbers! { i8 u8 i16 u16 i32 u32 f32 f64 usize isize }
impl<T> From<Option<T>> for JsValue
where
    JsValue: From<T>,
{
    fn from(o: Option<T>) -> JsValue {
        match o {
            Some(v) => v.into(),
            None => JsValue::UNDEFINED,
        }
    }
}
impl From<&JsValue> for JsValue {
    fn from(v: &JsValue) -> JsValue {
        v.clone()
    }
}
impl AsRef<JsValue> for JsValue {
    fn as_ref(&self) -> &JsValue {
        self
    }
}
impl TryFrom<JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<f64, JsValue> {
        v.as_f64().ok_or(v)
    }
}
impl TryFrom<JsValue> for String {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<String, JsValue> {
        v.as_string().ok_or(v)
    }
}

#[derive(Debug, Clone)]
pub struct JsError(pub String);
impl JsError {
    pub fn new(s: &str) -> JsError {
        JsError(s.to_string())
    }
}
impl From<JsError> for JsValue {
    fn from(e: JsError) -> JsValue {
        JsValue::from(e.0)
    }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> + Sized {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn has_type<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn is_instance_of<T: JsCast>(&self) -> bool {
        T::instanceof(self.as_ref())
    }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> {
        if T::instanceof(self.as_ref()) {
            Ok(T::unchecked_from_js(self.into()))
        } else {
            Err(self)
        }
    }
    fn unchecked_into<T: JsCast>(self) -> T {
        T::unchecked_from_js(self.into())
    }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool {
        true
    }
    fn unchecked_from_js(val: JsValue) -> JsValue {
        val
    }
}

pub trait UnwrapThrowExt<T>: Sized {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T {
        self.unwrap()
    }
    fn expect_throw(self, m: &str) -> T {
        self.expect(m)
    }
}
