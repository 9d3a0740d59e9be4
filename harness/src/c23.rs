//! C23: feature filters are understood as they are written, or refused.
//! bound: every object of up to two entries, each a range (either bound missing, a number or a string), an exact value or something that is no object
//! bound: arbitrary numbers as bounds, judged on two products with arbitrary prices and strings
//! outside: objects with other keys; getters that throw
use super::nd::*;
use super::world::*;
use indexer_lib::data::{FeatureSet, Product};
use indexer_lib::js_interactable::FeatureFilter;
use wasm_bindgen::JsValue;

#[derive(Clone)]
enum Wanted {
    Range(Option<f64>, Option<f64>),
    Exact(JsValue),
    Refused,
}
fn number() -> f64 { f64::from_bits(bits(64)) }
fn bound() -> (Option<JsValue>, Option<f64>) {
    match pick(4) {
        0 => (None, None),
        1 => (Some(JsValue::Undefined), None),
        2 => (Some(JsValue::Str("7".to_string())), None),
        _ => { let n = number(); (Some(JsValue::Number(n)), Some(n)) }
    }
}
/// A filter for one feature, and what it means.
fn entry(key: &str) -> (JsValue, Wanted) {
    match pick(6) {
        0 => (JsValue::Number(3.0), Wanted::Refused),
        1 => (of_primitive(), Wanted::Refused),
        2 => {
            let e = if key == "price" { JsValue::Number(number()) } else { JsValue::Str(letters(1, 3)) };
            (object(vec![("exact", e.clone())]), Wanted::Exact(e))
        }
        3 => {
            cover("nothing is asked for");
            (object(vec![]), Wanted::Range(None, None))
        }
        _ => {
            let ((a, from), (b, to)) = (bound(), bound());
            let mut f = vec![];
            if let Some(a) = a { f.push(("from", a)); }
            if let Some(b) = b { f.push(("to", b)); }
            if flip() { f.reverse(); }
            (object(f), Wanted::Range(from, to))
        }
    }
}
fn of_primitive() -> JsValue {
    match pick(3) {
        0 => JsValue::Undefined,
        1 => JsValue::Null,
        _ => JsValue::Str("exact".to_string()),
    }
}
fn object(f: Vec<(&str, JsValue)>) -> JsValue {
    js_sys::Object::literal(f.into_iter().map(|(k, v)| (k.to_string(), v)).collect()).into()
}
fn fits(w: &Wanted, v: &JsValue) -> bool {
    match w {
        Wanted::Refused => false,
        Wanted::Exact(e) => v == e,
        Wanted::Range(None, None) => true,
        Wanted::Range(from, to) => match v.as_f64() {
            Some(n) => from.map_or(true, |f| f <= n) && to.map_or(true, |t| n <= t),
            None => false,
        },
    }
}
fn meaning(keys: &[&str], entries: Vec<(JsValue, Wanted)>) {
    let o = js_sys::Object::literal(keys.iter().zip(entries.iter()).map(|(k, e)| (k.to_string(), e.0.clone())).collect());
    let parsed = FeatureFilter::parse(&o);
    if entries.iter().any(|e| matches!(e.1, Wanted::Refused)) {
        check(parsed.is_none(), "a filter that says nothing is refused");
        cover("refused");
        return;
    }
    let parsed: &'static Vec<FeatureFilter> = match parsed {
        Some(p) => leak(p),
        None => { check(false, "a filter is understood"); return }
    };
    check(parsed.len() == entries.len(), "there is a filter for every entry");
    let products: &'static [Product<'static>] = &plain(2).products;
    let price = [f32::from_bits(bits(32) as u32), 7.5];
    let colour = ["a", "7"];
    let mut set = FeatureSet::new_empty();
    for i in 0..2 { set.add_float("price", price[i]); set.add_string("colour", colour[i].to_string()); }
    let set: &'static FeatureSet = leak(set);
    let mut it: Box<dyn Iterator<Item = &'static Product<'static>>> = Box::new(products.iter());
    for f in parsed { it = f.filter(it, set); }
    let out: Vec<usize> = it.map(|p| p.serialization_id).collect();
    for i in 0..2 {
        let all = keys.iter().zip(entries.iter()).all(|(k, e)| {
            let v = if *k == "price" { JsValue::Number(price[i] as f64) } else { JsValue::Str(colour[i].to_string()) };
            fits(&e.1, &v)
        });
        check(out.contains(&i) == all, "products pass that fit every entry");
        if all { cover("a product passes"); } else { cover("a product is held back"); }
    }
}

entries! {
    fn c23_unusual() {
        // the feature is the one of exactly that name
        let (key, other) = (unusual(), unusual());
        let n = number();
        let o = js_sys::Object::literal(vec![(key.to_string(), object(vec![("exact", JsValue::Number(n))]))]);
        let parsed: &'static Vec<FeatureFilter> = match FeatureFilter::parse(&o) {
            Some(p) => leak(p),
            None => { check(false, "a filter is understood"); return }
        };
        check(parsed.len() == 1, "there is a filter for every entry");
        let mut set = FeatureSet::new_empty();
        let v = f32::from_bits(bits(32) as u32);
        set.add_float(other, v);
        let products: &'static [Product<'static>] = &plain(1).products;
        let passes = parsed[0].filter(Box::new(products.iter()), leak(set)).count() == 1;
        check(passes == (key == other && v as f64 == n), "products pass that fit every entry");
        cover("unusual names");
    }
    fn c23_unusual_texts() {
        let (wanted, has) = (unusual(), unusual());
        let o = js_sys::Object::literal(vec![("colour".to_string(), object(vec![("exact", JsValue::Str(wanted.to_string()))]))]);
        let parsed: &'static Vec<FeatureFilter> = match FeatureFilter::parse(&o) {
            Some(p) => leak(p),
            None => { check(false, "a filter is understood"); return }
        };
        let mut set = FeatureSet::new_empty();
        set.add_string("colour", has.to_string());
        let products: &'static [Product<'static>] = &plain(1).products;
        let passes = parsed.len() == 1 && parsed[0].filter(Box::new(products.iter()), leak(set)).count() == 1;
        check(passes == (wanted == has), "products pass that fit every entry");
    }
    fn c23_no_filters() {
        let none = FeatureFilter::parse(&nothing());
        check(none.map(|f| f.len()) == Some(0), "no entries, no filters");
        meaning(&[], vec![]);
    }
    fn c23_one() {
        let key = of(&["price", "colour"]);
        meaning(&[key], vec![entry(key)]);
    }
    fn c23_two() {
        let e = vec![simple("colour"), simple("price")];
        meaning(&["colour", "price"], e);
    }
    fn c23_both_kinds() {
        // bounds win over an exact value next to them
        let n = number();
        let f = vec![("from", JsValue::Number(n)), ("exact", JsValue::Number(1.0))];
        meaning(&["price"], vec![(object(f), Wanted::Range(Some(n), None))]);
    }
}
/// As `entry`, with fewer kinds.
fn simple(key: &str) -> (JsValue, Wanted) {
    match pick(4) {
        0 => (JsValue::Null, Wanted::Refused),
        1 => {
            let e = if key == "price" { JsValue::Number(number()) } else { JsValue::Str(letters(1, 3)) };
            (object(vec![("exact", e.clone())]), Wanted::Exact(e))
        }
        2 => { let n = number(); (object(vec![("from", JsValue::Number(n))]), Wanted::Range(Some(n), None)) }
        _ => { let n = number(); (object(vec![("from", JsValue::Number(0.0)), ("to", JsValue::Number(n))]), Wanted::Range(Some(0.0), Some(n))) }
    }
}
