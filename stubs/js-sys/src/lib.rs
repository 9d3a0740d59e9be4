//! Stand-in for the few JavaScript built-ins the library calls.
use std::ops::Deref;
use std::rc::Rc;
use wasm_bindgen::{JsCast, JsValue};

macro_rules! wrapper { ($N:ident, $p:pat) => {
    impl JsCast for $N {
        fn instanceof(val: &JsValue) -> bool { matches!(val, $p) }
        fn unchecked_from_js(val: JsValue) -> Self { $N(val) }
        // same layout: a transparent wrapper
        fn unchecked_from_js_ref(val: &JsValue) -> &Self { unsafe { &*(val as *const JsValue as *const $N) } }
    }
    #[derive(Clone, Debug, PartialEq)]
    #[repr(transparent)]
    pub struct $N(JsValue);
    impl Deref for $N { type Target = JsValue; fn deref(&self) -> &JsValue { &self.0 } }
    impl AsRef<JsValue> for $N { fn as_ref(&self) -> &JsValue { &self.0 } }
    impl From<$N> for JsValue { fn from(o: $N) -> JsValue { o.0 } }
} }
wrapper!(Object, JsValue::Object(_) | JsValue::Array(_) | JsValue::Function(_));
wrapper!(Array, JsValue::Array(_));
wrapper!(Function, JsValue::Function(_));
wrapper!(JsString, JsValue::Str(_));
wrapper!(Number, JsValue::Number(_));
wrapper!(Boolean, JsValue::Bool(_));
impl From<Array> for Object { fn from(a: Array) -> Object { Object(a.0) } }
impl From<Function> for Object { fn from(a: Function) -> Object { Object(a.0) } }
impl From<&str> for JsString { fn from(a: &str) -> JsString { JsString(JsValue::from_str(a)) } }
impl From<String> for JsString { fn from(a: String) -> JsString { JsString(JsValue::Str(a)) } }
impl From<JsString> for String { fn from(a: JsString) -> String { a.0.as_string().unwrap_or_default() } }
impl From<&JsString> for String { fn from(a: &JsString) -> String { a.0.as_string().unwrap_or_default() } }
impl PartialEq<str> for JsString { fn eq(&self, o: &str) -> bool { self.0 == *o } }
impl From<f64> for Number { fn from(n: f64) -> Number { Number(JsValue::Number(n)) } }
impl Number { pub fn value_of(&self) -> f64 { self.0.as_f64().unwrap_or(f64::NAN) } }
impl Boolean { pub fn value_of(&self) -> bool { self.0.as_bool().unwrap_or(false) } }
impl Default for Object { fn default() -> Object { Object::new() } }

impl Object {
    pub fn new() -> Object { Object(JsValue::Object(Rc::new(Vec::new()))) }
    /// Harness only: an object literal.
    pub fn literal(fields: Vec<(String, JsValue)>) -> Object { Object(JsValue::Object(Rc::new(fields))) }
    pub fn entries(o: &Object) -> Array {
        let mut out = Vec::new();
        if let JsValue::Object(f) = &o.0 {
            for (k, v) in f.iter() {
                out.push(JsValue::Array(Rc::new(vec![JsValue::Str(k.clone()), v.clone()])));
            }
        }
        Array(JsValue::Array(Rc::new(out)))
    }
    pub fn keys(o: &Object) -> Array { Object::entries(o).iter().map(|e| Array(e).get(0)).collect() }
    pub fn values(o: &Object) -> Array { Object::entries(o).iter().map(|e| Array(e).get(1)).collect() }
    pub fn has_own_property(&self, key: &JsValue) -> bool { Reflect::has(&self.0, key).unwrap_or(false) }
    pub fn is(a: &JsValue, b: &JsValue) -> bool {
        match (a, b) {
            (JsValue::Number(x), JsValue::Number(y)) => (x.is_nan() && y.is_nan()) || x.to_bits() == y.to_bits(),
            _ => a == b,
        }
    }
    pub fn try_from(v: &JsValue) -> Option<&Object> { v.dyn_ref() }
}
impl Array {
    pub fn new() -> Array { Array(JsValue::Array(Rc::new(Vec::new()))) }
    pub fn is_array(v: &JsValue) -> bool { v.is_array() }
    pub fn to_vec(&self) -> Vec<JsValue> { self.items().clone() }
    pub fn at(&self, i: i32) -> JsValue { self.get(if i < 0 { (self.length() as i32 + i) as u32 } else { i as u32 }) }
    pub fn of1(a: &JsValue) -> Array { [a.clone()].into_iter().collect() }
    pub fn of2(a: &JsValue, b: &JsValue) -> Array { [a.clone(), b.clone()].into_iter().collect() }
    fn items(&self) -> &Vec<JsValue> {
        match &self.0 { JsValue::Array(v) => v, _ => panic!("not an array") }
    }
    pub fn length(&self) -> u32 { self.items().len() as u32 }
    pub fn get(&self, i: u32) -> JsValue {
        match self.items().get(i as usize) { Some(v) => v.clone(), None => JsValue::Undefined }
    }
    pub fn iter(&self) -> std::iter::Cloned<std::slice::Iter<'_, JsValue>> { self.items().iter().cloned() }
}
impl<A: AsRef<JsValue>> std::iter::FromIterator<A> for Array {
    fn from_iter<I: IntoIterator<Item = A>>(i: I) -> Array { Array(JsValue::Array(Rc::new(i.into_iter().map(|x| x.as_ref().clone()).collect()))) }
}
impl TryFrom<JsValue> for Array {
    type Error = JsValue;
    fn try_from(v: JsValue) -> Result<Array, JsValue> {
        if let JsValue::Array(_) = v { Ok(Array(v)) } else { Err(v) }
    }
}

/// Harness only: what observers were called with, in order.
static mut CALLS: Vec<(u32, Option<bool>)> = Vec::new();
#[allow(static_mut_refs)]
pub fn calls() -> &'static Vec<(u32, Option<bool>)> { unsafe { &CALLS } }
#[allow(static_mut_refs)]
pub fn clear_calls() { unsafe { CALLS = Vec::new() } }
/// Harness only: a function from this identity on throws when it is called.
pub const THROWING: u32 = 100;

impl Function {
    /// Harness only: the function with this identity.
    pub fn with_id(id: u32) -> Function { Function(JsValue::Function(id)) }
    #[allow(static_mut_refs)]
    fn called(&self, arg: Option<bool>) -> Result<JsValue, JsValue> {
        if let JsValue::Function(id) = self.0 {
            unsafe { CALLS.push((id, arg)) }
            if id >= THROWING { return Err(JsValue::Null); }
        }
        Ok(JsValue::Undefined)
    }
    pub fn call0(&self, _this: &JsValue) -> Result<JsValue, JsValue> { self.called(None) }
    pub fn call1(&self, _this: &JsValue, arg: &JsValue) -> Result<JsValue, JsValue> { self.called(arg.as_bool()) }
    pub fn call2(&self, _this: &JsValue, arg: &JsValue, _: &JsValue) -> Result<JsValue, JsValue> { self.called(arg.as_bool()) }
    pub fn apply(&self, _this: &JsValue, args: &Array) -> Result<JsValue, JsValue> { self.called(args.get(0).as_bool()) }
}

pub struct Reflect;
impl Reflect {
    /// `Reflect.get`: `undefined` for a missing property, a `TypeError` when the
    /// target is not an object.
    pub fn get(target: &JsValue, key: &JsValue) -> Result<JsValue, JsValue> {
        match target {
            JsValue::Object(f) => {
                for (k, v) in f.iter() {
                    if let JsValue::Str(s) = key {
                        if s == k {
                            return Ok(v.clone());
                        }
                    }
                }
                Ok(JsValue::Undefined)
            }
            JsValue::Array(_) | JsValue::Function(_) => Ok(JsValue::Undefined),
            _ => Err(JsValue::Undefined),
        }
    }
    pub fn has(target: &JsValue, key: &JsValue) -> Result<bool, JsValue> {
        match target {
            JsValue::Object(f) => Ok(f.iter().any(|(k, _)| matches!(key, JsValue::Str(s) if s == k))),
            JsValue::Array(_) | JsValue::Function(_) => Ok(false),
            _ => Err(JsValue::Undefined),
        }
    }
}
