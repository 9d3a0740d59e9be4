//! C22: a feature filter lets through exactly the products in its range, or of its value, in their order.
//! bound: three products with arbitrary numbers as features and arbitrary bounds, NaN and infinity included; strings of 1 byte
//! bound: bounds that are missing, null, strings or booleans; products without the feature
//! bound: 300 products, ten of them without the feature, and nine bounds; 20 unusual names
//! outside: more products than three (each is judged alone)
use super::nd::*;
use super::world::*;
use indexer_lib::data::{FeatureSet, Product};
use indexer_lib::js_interactable::FeatureFilter;
use wasm_bindgen::JsValue;

fn passed(f: &FeatureFilter, set: &FeatureSet, products: &'static [Product<'static>]) -> Vec<usize> {
    // the filter wants everything to live as long as the products
    let (f, set): (&'static FeatureFilter, &'static FeatureSet) = unsafe { (std::mem::transmute(f), std::mem::transmute(set)) };
    f.filter(Box::new(products.iter()), set).map(|p| p.serialization_id).collect()
}
fn exactly(f: FeatureFilter, set: &FeatureSet, n: usize, wanted: &dyn Fn(usize) -> bool) {
    let products = &plain(n).products[..];
    let out = passed(&f, set, products);
    let mut at = 0;
    for i in 0..n {
        let w = wanted(i);
        let got = at < out.len() && out[at] == i;
        check(w == got, "exactly the products that fit pass, in their order");
        if got { at += 1; cover("a product passes"); } else { cover("a product is held back"); }
    }
    check(at == out.len(), "no product passes twice");
}
fn number() -> f64 { f64::from_bits(bits(64)) }
fn set(values: &[f32]) -> FeatureSet {
    let mut s = FeatureSet::new_empty();
    for v in values { s.add_float("price", *v); }
    s
}
fn other() -> JsValue {
    match pick(4) {
        0 => JsValue::Undefined,
        1 => JsValue::Null,
        2 => JsValue::Bool(flip()),
        _ => JsValue::Str("1".to_string()),
    }
}
fn name() -> String { "price".to_string() }

entries! {
    fn c22_hundreds() {
        // 300 products, the last ten without the feature
        let v: Vec<f32> = (0..290).map(|i| ((i * 7) % 290) as f32).collect();
        let b = of(&[0.0f64, 63.5, 127.0, 128.0, 254.5, 255.0, 256.0, 289.0, 300.0]);
        let n = JsValue::Number;
        let has = |i: usize| i < 290;
        match pick(4) {
            0 => exactly(FeatureFilter::new_range(n(b), JsValue::Undefined, name()), &set(&v), 300, &|i| has(i) && b <= v[i] as f64),
            1 => exactly(FeatureFilter::new_range(JsValue::Null, n(b), name()), &set(&v), 300, &|i| has(i) && v[i] as f64 <= b),
            2 => exactly(FeatureFilter::new_range(n(b), n(b + 1.0), name()), &set(&v), 300, &|i| has(i) && b <= v[i] as f64 && v[i] as f64 <= b + 1.0),
            _ => exactly(FeatureFilter::new_exactly(n(b), name()), &set(&v), 300, &|i| has(i) && v[i] as f64 == b),
        }
    }
    fn c22_unusual() {
        let (key, k) = (unusual(), pick(UNUSUAL.len()));
        let mut s = FeatureSet::new_empty();
        let v = [UNUSUAL[k], unusual()];
        for v in v { s.add_string(key, v.to_string()); }
        s.add_float("x", 1.0);
        exactly(FeatureFilter::new_exactly(JsValue::Str(UNUSUAL[k].to_string()), key.to_string()), &s, 2, &|i| v[i] == UNUSUAL[k]);
        cover("unusual names");
    }
    fn c22_names() {
        // the feature is the one of exactly that name
        let (a, b) = (ascii(1), ascii(range(0, 2)));
        let mut s = FeatureSet::new_empty();
        s.add_float(&a, 1.0);
        s.add_float("zzz", 2.0);
        exactly(FeatureFilter::new_exactly(JsValue::Number(1.0), b.clone()), &s, 1, &|_| a == b);
    }
    fn c22_range() {
        let v: Vec<f32> = (0..2).map(|_| f32::from_bits(bits(32) as u32)).collect();
        let (from, to) = (number(), number());
        exactly(FeatureFilter::new_range(JsValue::Number(from), JsValue::Number(to), name()), &set(&v), 2, &|i| from <= v[i] as f64 && v[i] as f64 <= to);
    }
    fn c22_half_ranges() {
        let v: Vec<f32> = (0..3).map(|_| f32::from_bits(bits(32) as u32)).collect();
        let b = number();
        if flip() {
            exactly(FeatureFilter::new_range(JsValue::Number(b), other(), name()), &set(&v), 3, &|i| b <= v[i] as f64);
        } else {
            exactly(FeatureFilter::new_range(other(), JsValue::Number(b), name()), &set(&v), 3, &|i| v[i] as f64 <= b);
        }
    }
    fn c22_no_bounds() {
        exactly(FeatureFilter::new_range(other(), other(), name()), &set(&[1.0, 2.0]), 3, &|_| true);
    }
    fn c22_exactly() {
        let v: Vec<f32> = (0..3).map(|_| f32::from_bits(bits(32) as u32)).collect();
        let e = number();
        exactly(FeatureFilter::new_exactly(JsValue::Number(e), name()), &set(&v), 3, &|i| v[i] as f64 == e);
    }
    fn c22_exactly_something_else() {
        let e = other();
        exactly(FeatureFilter::new_exactly(e, name()), &set(&[1.0, 0.0]), 2, &|_| false);
    }
    fn c22_integers() {
        let mut s = FeatureSet::new_empty();
        let v: Vec<u32> = (0..3).map(|_| bits(32) as u32).collect();
        for v in &v { s.add_int("price", *v); }
        let (from, to) = (number(), number());
        match pick(3) {
            0 => exactly(FeatureFilter::new_range(JsValue::Number(from), JsValue::Number(to), name()), &s, 3, &|i| from <= v[i] as f64 && v[i] as f64 <= to),
            1 => exactly(FeatureFilter::new_exactly(JsValue::Number(from), name()), &s, 3, &|i| v[i] as f64 == from),
            _ => exactly(FeatureFilter::new_range(JsValue::Undefined, JsValue::Number(to), name()), &s, 3, &|i| v[i] as f64 <= to),
        }
    }
    fn c22_strings() {
        let mut s = FeatureSet::new_empty();
        let v: Vec<String> = (0..3).map(|_| ascii(range(0, 1))).collect();
        for v in &v { s.add_string("price", v.clone()); }
        let e = ascii(range(0, 1));
        match pick(3) {
            0 => exactly(FeatureFilter::new_exactly(JsValue::Str(e.clone()), name()), &s, 3, &|i| v[i] == e),
            1 => exactly(FeatureFilter::new_range(JsValue::Number(number()), JsValue::Undefined, name()), &s, 3, &|_| false),
            _ => exactly(FeatureFilter::new_range(JsValue::Undefined, JsValue::Undefined, name()), &s, 3, &|_| true),
        }
    }
    fn c22_missing() {
        // two products have the feature, the third does not; or none has it
        let v = [f32::from_bits(bits(32) as u32), 3.0];
        let b = number();
        let unknown = flip();
        let key = if unknown { "colour".to_string() } else { name() };
        let has = |i: usize| !unknown && i < 2;
        match pick(4) {
            0 => exactly(FeatureFilter::new_range(JsValue::Number(b), JsValue::Number(f64::INFINITY), key), &set(&v), 3, &|i| has(i) && b <= v[i] as f64),
            1 => exactly(FeatureFilter::new_range(JsValue::Number(b), JsValue::Undefined, key), &set(&v), 3, &|i| has(i) && b <= v[i] as f64),
            2 => exactly(FeatureFilter::new_range(JsValue::Null, JsValue::Number(b), key), &set(&v), 3, &|i| has(i) && v[i] as f64 <= b),
            _ => exactly(FeatureFilter::new_exactly(JsValue::Number(b), key), &set(&v), 3, &|i| has(i) && v[i] as f64 == b),
        }
    }
    fn c22_missing_is_nothing() {
        // a product without the feature passes no bound, not even "undefined" or a string
        let unknown = flip();
        let key = if unknown { "colour".to_string() } else { name() };
        let mut s = FeatureSet::new_empty();
        let text = flip();
        if text { s.add_string("price", ascii(range(0, 1))); } else { s.add_float("price", f32::from_bits(bits(32) as u32)); }
        let p = &plain(3).products[..];
        let (f, open) = match pick(4) {
            0 => (FeatureFilter::new_exactly(other(), key), false),
            1 => (FeatureFilter::new_exactly(JsValue::Number(number()), key), false),
            2 => (FeatureFilter::new_range(other(), JsValue::Number(number()), key), false),
            _ => (FeatureFilter::new_range(other(), other(), key), true),
        };
        let out = passed(&f, &s, p);
        for i in 0..3 {
            if i == 0 && !unknown { continue; }
            check(out.contains(&i) == open, "a product without the feature passes only where there is no bound");
        }
        cover("no feature");
    }
}
