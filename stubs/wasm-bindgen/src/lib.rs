//! Stand-in for the JavaScript side: a `JsValue` is one of the JavaScript values
//! the library can be handed, with JavaScript's `===` as its equality.
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum JsValue {
    Undefined,
    Null,
    Bool(bool),
    Number(f64),
    Str(String),
    Object(Rc<Vec<(String, JsValue)>>),
    Array(Rc<Vec<JsValue>>),
    Function(u32),
}
impl JsValue {
    pub const UNDEFINED: JsValue = JsValue::Undefined;
    pub const NULL: JsValue = JsValue::Null;
    pub const TRUE: JsValue = JsValue::Bool(true);
    pub const FALSE: JsValue = JsValue::Bool(false);
    pub fn from_f64(n: f64) -> JsValue { JsValue::Number(n) }
    pub fn from_bool(b: bool) -> JsValue { JsValue::Bool(b) }
    pub fn from_str(s: &str) -> JsValue { JsValue::Str(s.to_string()) }
    pub fn undefined() -> JsValue { JsValue::Undefined }
    pub fn null() -> JsValue { JsValue::Null }
    pub fn as_f64(&self) -> Option<f64> {
        if let JsValue::Number(n) = self { Some(*n) } else { None }
    }
    pub fn as_bool(&self) -> Option<bool> {
        if let JsValue::Bool(n) = self { Some(*n) } else { None }
    }
    pub fn as_string(&self) -> Option<String> {
        if let JsValue::Str(s) = self { Some(s.clone()) } else { None }
    }
    pub fn is_undefined(&self) -> bool { matches!(self, JsValue::Undefined) }
    pub fn is_null(&self) -> bool { matches!(self, JsValue::Null) }
    pub fn is_null_or_undefined(&self) -> bool { self.is_null() || self.is_undefined() }
    pub fn is_string(&self) -> bool { matches!(self, JsValue::Str(_)) }
    pub fn is_object(&self) -> bool { matches!(self, JsValue::Object(_) | JsValue::Array(_)) }
    pub fn is_array(&self) -> bool { matches!(self, JsValue::Array(_)) }
    pub fn is_function(&self) -> bool { matches!(self, JsValue::Function(_)) }
    pub fn is_falsy(&self) -> bool {
        match self {
            JsValue::Undefined | JsValue::Null => true,
            JsValue::Bool(b) => !*b,
            JsValue::Number(n) => *n == 0.0 || n.is_nan(),
            JsValue::Str(s) => s.is_empty(),
            _ => false,
        }
    }
    pub fn is_truthy(&self) -> bool { !self.is_falsy() }
}
impl PartialEq for JsValue {
    fn eq(&self, o: &JsValue) -> bool {
        match (self, o) {
            (JsValue::Undefined, JsValue::Undefined) | (JsValue::Null, JsValue::Null) => true,
            (JsValue::Bool(a), JsValue::Bool(b)) => *a == *b,
            (JsValue::Number(a), JsValue::Number(b)) => *a == *b,
            (JsValue::Str(a), JsValue::Str(b)) => *a == *b,
            (JsValue::Object(a), JsValue::Object(b)) => Rc::ptr_eq(a, b),
            (JsValue::Array(a), JsValue::Array(b)) => Rc::ptr_eq(a, b),
            (JsValue::Function(a), JsValue::Function(b)) => *a == *b,
            _ => false,
        }
    }
}
impl PartialEq<bool> for JsValue { fn eq(&self, o: &bool) -> bool { self.as_bool() == Some(*o) } }
impl PartialEq<f64> for JsValue { fn eq(&self, o: &f64) -> bool { self.as_f64() == Some(*o) } }
impl PartialEq<str> for JsValue {
    fn eq(&self, o: &str) -> bool { if let JsValue::Str(s) = self { s.as_str() == o } else { false } }
}
impl PartialEq<String> for JsValue { fn eq(&self, o: &String) -> bool { *self == **o } }
impl From<bool> for JsValue { fn from(b: bool) -> Self { JsValue::Bool(b) } }
impl From<&str> for JsValue { fn from(b: &str) -> Self { JsValue::Str(b.to_string()) } }
impl From<String> for JsValue { fn from(b: String) -> Self { JsValue::Str(b) } }
impl From<&String> for JsValue { fn from(b: &String) -> Self { JsValue::Str(b.clone()) } }
macro_rules! num { ($($t:ty)*) => { $(impl From<$t> for JsValue { fn from(n: $t) -> Self { JsValue::Number(n as f64) } })* } }
num!(f64 f32 u8 i8 u16 i16 u32 i32);
impl<T: Into<JsValue>> From<Option<T>> for JsValue {
    fn from(o: Option<T>) -> Self { match o { Some(t) => t.into(), None => JsValue::Undefined } }
}
impl AsRef<JsValue> for JsValue { fn as_ref(&self) -> &JsValue { self } }

impl JsValue {
    pub fn is_symbol(&self) -> bool { false }
    pub fn is_bigint(&self) -> bool { false }
    /// `==`, for the kinds of values there are here (objects are not converted).
    pub fn loose_eq(&self, o: &JsValue) -> bool {
        fn number(v: &JsValue) -> Option<f64> {
            match v {
                JsValue::Number(n) => Some(*n),
                JsValue::Bool(b) => Some(if *b { 1.0 } else { 0.0 }),
                JsValue::Str(s) => Some(if s.trim().is_empty() { 0.0 } else { s.trim().parse().unwrap_or(f64::NAN) }),
                _ => None,
            }
        }
        if self.is_null_or_undefined() || o.is_null_or_undefined() {
            return self.is_null_or_undefined() && o.is_null_or_undefined();
        }
        match (self, o) {
            (JsValue::Str(a), JsValue::Str(b)) => *a == *b,
            _ => match (number(self), number(o)) {
                (Some(a), Some(b)) => a == b,
                _ => self == o,
            },
        }
    }
    pub fn js_typeof(&self) -> JsValue {
        JsValue::from_str(match self {
            JsValue::Undefined => "undefined",
            JsValue::Bool(_) => "boolean",
            JsValue::Number(_) => "number",
            JsValue::Str(_) => "string",
            JsValue::Function(_) => "function",
            _ => "object",
        })
    }
}
impl Default for JsValue { fn default() -> Self { JsValue::Undefined } }
impl PartialEq<&str> for JsValue { fn eq(&self, o: &&str) -> bool { *self == **o } }
impl TryFrom<JsValue> for f64 {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<f64, JsValue> { v.as_f64().ok_or(v) }
}
impl TryFrom<JsValue> for String {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<String, JsValue> { v.as_string().ok_or(v) }
}

pub trait JsCast: AsRef<JsValue> + Into<JsValue> {
    fn instanceof(val: &JsValue) -> bool;
    fn unchecked_from_js(val: JsValue) -> Self;
    fn unchecked_from_js_ref(val: &JsValue) -> &Self;
    fn is_type_of(val: &JsValue) -> bool { Self::instanceof(val) }
    fn has_type<T: JsCast>(&self) -> bool { T::is_type_of(self.as_ref()) }
    fn is_instance_of<T: JsCast>(&self) -> bool { T::instanceof(self.as_ref()) }
    fn dyn_into<T: JsCast>(self) -> Result<T, Self> where Self: Sized {
        if self.has_type::<T>() { Ok(self.unchecked_into()) } else { Err(self) }
    }
    fn dyn_ref<T: JsCast>(&self) -> Option<&T> {
        if self.has_type::<T>() { Some(self.unchecked_ref()) } else { None }
    }
    fn unchecked_into<T: JsCast>(self) -> T where Self: Sized { T::unchecked_from_js(self.into()) }
    fn unchecked_ref<T: JsCast>(&self) -> &T { T::unchecked_from_js_ref(self.as_ref()) }
}
impl JsCast for JsValue {
    fn instanceof(_: &JsValue) -> bool { true }
    fn unchecked_from_js(val: JsValue) -> Self { val }
    fn unchecked_from_js_ref(val: &JsValue) -> &Self { val }
}
pub trait UnwrapThrowExt<T> {
    fn unwrap_throw(self) -> T;
    fn expect_throw(self, message: &str) -> T;
}
impl<T> UnwrapThrowExt<T> for Option<T> {
    fn unwrap_throw(self) -> T { self.unwrap() }
    fn expect_throw(self, message: &str) -> T { self.expect(message) }
}
impl<T, E: std::fmt::Debug> UnwrapThrowExt<T> for Result<T, E> {
    fn unwrap_throw(self) -> T { self.unwrap() }
    fn expect_throw(self, message: &str) -> T { self.expect(message) }
}

pub mod prelude {
    pub use crate::{JsCast, JsValue, UnwrapThrowExt};
    pub use wasm_bindgen_macro::wasm_bindgen;
}
