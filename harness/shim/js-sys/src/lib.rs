//! The parts of the JavaScript library the crate uses, on the values of the
//! wasm-bindgen stand-in.
use std::cell::RefCell;
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue, Repr};

macro_rules! object {
    ($name:ident, $p:pat) => {
        #[derive(Clone, Debug, PartialEq)]
        pub struct $name(JsValue);
        impl Deref for $name {
            type Target = JsValue;
            fn deref(&self) -> &JsValue {
                &self.0
            }
        }
        impl AsRef<JsValue> for $name {
            fn as_ref(&self) -> &JsValue {
                &self.0
            }
        }
        impl From<$name> for JsValue {
            fn from(v: $name) -> JsValue {
                v.0
            }
        }
        impl From<&$name> for JsValue {
            fn from(v: &$name) -> JsValue {
                v.0.clone()
            }
        }
        impl From<JsValue> for $name {
            fn from(v: JsValue) -> $name {
                $name(v)
            }
        }
        impl JsCast for $name {
            fn instanceof(v: &JsValue) -> bool {
                matches!(&v.0, $p)
            }
            fn unchecked_from_js(v: JsValue) -> $name {
                $name(v)
            }
        }
    };
}
object!(Object, Repr::Object(_) | Repr::Array(_) | Repr::Function(_));
object!(Function, Repr::Function(_));

/// Array conversions check the type, like the real ones
#[derive(Clone, Debug, PartialEq)]
pub struct Array(JsValue);
impl Deref for Array {
    type Target = JsValue;
    fn deref(&self) -> &JsValue {
        &self.0
    }
}
impl AsRef<JsValue> for Array {
    fn as_ref(&self) -> &JsValue {
        &self.0
    }
}
impl From<Array> for JsValue {
    fn from(v: Array) -> JsValue {
        v.0
    }
}
impl JsCast for Array {
    fn instanceof(v: &JsValue) -> bool {
        v.is_array()
    }
    fn unchecked_from_js(v: JsValue) -> Array {
        Array(v)
    }
}
impl TryFrom<JsValue> for Array {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<Array, JsValue> {
        if v.is_array() {
            Ok(Array(v))
        } else {
            Err(v)
        }
    }
}
impl From<&Array> for JsValue {
    fn from(v: &Array) -> JsValue {
        v.0.clone()
    }
}
impl From<Array> for Object {
    fn from(v: Array) -> Object {
        Object(v.0)
    }
}
impl std::iter::FromIterator<JsValue> for Array {
    fn from_iter<I: IntoIterator<Item = JsValue>>(i: I) -> Array {
        let a = Array::new();
        for v in i {
            a.push(&v);
        }
        a
    }
}
impl Array {
    pub fn of1(a: &JsValue) -> Array {
        std::iter::once(a.clone()).collect()
    }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array {
        [a.clone(), b.clone()].into_iter().collect()
    }
    /// `Array.from` of an array or of anything else that has no elements
    pub fn from(v: &JsValue) -> Array {
        Array(v.clone()).items().into_iter().collect()
    }
    pub fn for_each(&self, f: &mut dyn FnMut(JsValue, u32, Array)) {
        for (i, v) in self.items().into_iter().enumerate() {
            f(v, i as u32, self.clone());
        }
    }
    pub fn new() -> Array {
        Array(JsValue(Repr::Array(Rc::new(RefCell::new(Vec::new())))))
    }
    fn items(&self) -> Vec<JsValue> {
        match &self.0 .0 {
            Repr::Array(a) => a.borrow().clone(),
            _ => Vec::new(),
        }
    }
    pub fn push(&self, v: &JsValue) -> u32 {
        if let Repr::Array(a) = &self.0 .0 {
            a.borrow_mut().push(v.clone());
        }
        self.length()
    }
    pub fn get(&self, i: u32) -> JsValue {
        self.items().get(i as usize).cloned().unwrap_or(JsValue::UNDEFINED)
    }
    pub fn at(&self, i: i32) -> JsValue {
        let n = self.length() as i32;
        self.get(if i < 0 { i + n } else { i } as u32)
    }
    pub fn length(&self) -> u32 {
        self.items().len() as u32
    }
    pub fn iter(&self) -> std::vec::IntoIter<JsValue> {
        self.items().into_iter()
    }
    pub fn to_vec(&self) -> Vec<JsValue> {
        self.items()
    }
    pub fn is_array(v: &JsValue) -> bool {
        v.is_array()
    }
}
impl Default for Array {
    fn default() -> Array {
        Array::new()
    }
}
impl IntoIterator for Array {
    type Item = JsValue;
    type IntoIter = std::vec::IntoIter<JsValue>;
    fn into_iter(self) -> Self::IntoIter {
        self.items().into_iter()
    }
}

impl Object {
    pub fn new() -> Object {
        Object(JsValue(Repr::Object(Rc::new(RefCell::new(Vec::new())))))
    }
    fn fields(&self) -> Vec<(String, JsValue)> {
        match &self.0 .0 {
            Repr::Object(o) => o.borrow().clone(),
            _ => Vec::new(),
        }
    }
    pub fn entries(o: &Object) -> Array {
        let out = Array::new();
        for (k, v) in o.fields() {
            let pair = Array::new();
            pair.push(&JsValue::from(k));
            pair.push(&v);
            out.push(&pair);
        }
        out
    }
    pub fn keys(o: &Object) -> Array {
        let out = Array::new();
        for (k, _) in o.fields() {
            out.push(&JsValue::from(k));
        }
        out
    }
    pub fn values(o: &Object) -> Array {
        let out = Array::new();
        for (_, v) in o.fields() {
            out.push(&v);
        }
        out
    }
    pub fn try_from(v: &JsValue) -> Option<&Object> {
        // Only the reference kinds are objects
        if v.is_object() || v.is_function() {
            Some(Box::leak(Box::new(Object(v.clone()))))
        } else {
            None
        }
    }
}
impl Default for Object {
    fn default() -> Object {
        Object::new()
    }
}

#[allow(non_snake_case)]
pub mod Reflect {
    use super::*;
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        match &target.0 {
            Repr::Object(o) => {
                let k = key.as_string().unwrap_or_default();
                Ok(o.borrow().iter().find(|(n, _)| *n == k).map_or(JsValue::UNDEFINED, |(_, v)| v.clone()))
            }
            Repr::Array(_) | Repr::Function(_) => Ok(JsValue::UNDEFINED),
            _ => Err(JsValue::from_str("Reflect.get called on non-object")),
        }
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        match &target.0 {
            Repr::Object(o) => {
                let k = key.as_string().unwrap_or_default();
                Ok(o.borrow().iter().any(|(n, _)| *n == k))
            }
            Repr::Array(_) | Repr::Function(_) => Ok(false),
            _ => Err(JsValue::from_str("Reflect.has called on non-object")),
        }
    }
    pub fn set(target: &JsValue, key: &JsValue, v: &JsValue) -> Result<bool, JsValue> {
        match &target.0 {
            Repr::Object(o) => {
                let k = key.as_string().unwrap_or_default();
                let mut o = o.borrow_mut();
                match o.iter_mut().find(|(n, _)| *n == k) {
                    Some((_, old)) => *old = v.clone(),
                    None => o.push((k, v.clone())),
                }
                Ok(true)
            }
            _ => Err(JsValue::from_str("Reflect.set called on non-object")),
        }
    }
}

impl Function {
    pub fn from_rust(f: impl FnMut(&[JsValue]) -> Result<JsValue, JsValue> + 'static) -> Function {
        Function(JsValue(Repr::Function(Rc::new(RefCell::new(f)))))
    }
    fn call(&self, args: &[JsValue]) -> Result<JsValue, JsValue> {
        match &self.0 .0 {
            Repr::Function(f) => (f.borrow_mut())(args),
            _ => Err(JsValue::from_str("not a function")),
        }
    }
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> {
        self.call(&[])
    }
    pub fn call1(&self, _this: &JsValue, a: &JsValue) -> Result<JsValue, JsValue> {
        self.call(&[a.clone()])
    }
    pub fn apply(&self, _this: &JsValue, args: &Array) -> Result<JsValue, JsValue> {
        self.call(&args.items())
    }
    pub fn call3(&self, _this: &JsValue, a: &JsValue, b: &JsValue, c: &JsValue) -> Result<JsValue, JsValue> {
        self.call(&[a.clone(), b.clone(), c.clone()])
    }
    pub fn call2(&self, _this: &JsValue, a: &JsValue, b: &JsValue) -> Result<JsValue, JsValue> {
        self.call(&[a.clone(), b.clone()])
    }
}
