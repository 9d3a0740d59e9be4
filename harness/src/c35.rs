//! C35: features are kept by name and by product, each with the type it was given in.
//! bound: every history of 5 additions (thorough: 6) to three features of the three types, with arbitrary values, read back for 6 products (thorough: 7)
//! bound: three features with arbitrary names of up to 2 bytes; 20 unusual names; 300 values
//! outside: adding a value of another type, which stops the program
use super::nd::*;
use super::world::*;
use indexer_lib::data::{Feature, FeatureSet, FeatureValue};
use wasm_bindgen::JsValue;

#[derive(Clone)]
enum Value { S(String), F(f32), I(u32) }
impl Value {
    fn is(&self, v: Option<FeatureValue<'_>>) -> bool {
        match (self, v) {
            (Value::S(a), Some(FeatureValue::String(b))) => a == b,
            (Value::F(a), Some(FeatureValue::Float(b))) => a.to_bits() == b.to_bits(),
            (Value::I(a), Some(FeatureValue::Integer(b))) => *a == b,
            _ => false,
        }
    }
    fn is_js(&self, v: Option<JsValue>) -> bool {
        match (self, v) {
            (Value::S(a), Some(JsValue::Str(b))) => *a == b,
            (Value::F(a), Some(JsValue::Number(b))) => (*a as f64).to_bits() == b.to_bits() || a.is_nan() && b.is_nan(),
            (Value::I(a), Some(JsValue::Number(b))) => (*a as f64).to_bits() == b.to_bits(),
            _ => false,
        }
    }
}
fn add(f: &mut FeatureSet, key: &str, v: &Value) {
    match v {
        Value::S(s) => f.add_string(key, s.clone()),
        Value::F(x) => f.add_float(key, *x),
        Value::I(i) => f.add_int(key, *i),
    }
}
/// That the feature has exactly these values.
fn has(f: &FeatureSet, key: &str, values: &[Value], n: usize) {
    let p = &plain(n).products;
    for i in 0..n {
        match values.get(i) {
            Some(v) => {
                check(v.is(f.get(&p[i], key)), "a product has the value added in its turn");
                check(v.is_js(f.get_js(&p[i], key)), "JavaScript gets the same value");
                check(f.get_feature(key).map_or(false, |g| v.is(g.get(i))), "a feature lists the same values");
            }
            None => {
                check(f.get(&p[i], key).is_none() && f.get_js(&p[i], key).is_none(), "a product beyond the last value has none");
                check(f.get_feature(key).map_or(true, |g| g.get(i).is_none()), "a feature lists no more values");
            }
        }
    }
    match (f.get_feature(key), values.first()) {
        (None, None) => (),
        (Some(Feature::String(v)), Some(Value::S(_))) => check(v.len() == values.len(), "a feature has as many values as were added"),
        (Some(Feature::Float(v)), Some(Value::F(_))) => check(v.len() == values.len(), "a feature has as many values as were added"),
        (Some(Feature::Integer(v)), Some(Value::I(_))) => check(v.len() == values.len(), "a feature has as many values as were added"),
        _ => check(false, "a feature has the type of its values"),
    }
}
fn history(steps: usize) {
    let mut f = FeatureSet::new_empty();
    let mut model: [Vec<Value>; 3] = [vec![], vec![], vec![]];
    for _ in 0..steps {
        let k = pick(3);
        let v = match k { 0 => Value::S(ascii(range(0, 1))), 1 => Value::F(f32::from_bits(bits(32) as u32)), _ => Value::I(bits(32) as u32) };
        add(&mut f, ["s", "f", "i"][k], &v);
        model[k].push(v);
    }
    for k in 0..3 { has(&f, ["s", "f", "i"][k], &model[k], steps + 1); }
    has(&f, "other", &[], 2);
    if model.iter().all(|m| !m.is_empty()) { cover("every type"); }
}

entries! {
    fn c35_histories() { history(5); }
    fn c35_longer_histories_thorough() { history(6); }
    fn c35_names() {
        let names = [ascii(range(0, 2)), ascii(1), "m".to_string()];
        let mut f = FeatureSet::new_empty();
        let v: Vec<u32> = (0..3).map(|_| bits(32) as u32).collect();
        for i in 0..3 { f.add_int(&names[i], v[i]); }
        for n in &names {
            let of: Vec<Value> = (0..3).filter(|i| names[*i] == *n).map(|i| Value::I(v[i])).collect();
            if of.len() == 3 { cover("one name"); }
            has(&f, n, &of, 4);
        }
    }
    fn c35_unusual() {
        let (a, b) = (unusual(), unusual());
        let mut f = FeatureSet::new_empty();
        f.add_string(a, b.to_string());
        f.add_float("price", 1.5);
        has(&f, a, &[Value::S(b.to_string())], 2);
        has(&f, "price", &[Value::F(1.5)], 2);
        if a != b { has(&f, b, &[], 2); }
        cover("unusual names");
    }
    fn c35_hundreds() {
        let mut f = FeatureSet::new_empty();
        let x = bits(32) as u32;
        let at = of(&[0usize, 127, 128, 254, 255, 256, 299]);
        let v: Vec<Value> = (0..300).map(|i| Value::I(if i == at { x } else { i as u32 })).collect();
        let w: Vec<Value> = (0..at).map(|i| Value::S(i.to_string())).collect();
        for i in 0..300 { add(&mut f, "n", &v[i]); if i < at { add(&mut f, "s", &w[i]); } }
        has(&f, "n", &v, 302);
        has(&f, "s", &w, 302);
        cover("hundreds of values");
    }
}
