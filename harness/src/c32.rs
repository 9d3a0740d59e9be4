//! C32: reading an index and writing it again changes nothing.
//! bound: three trips of a shop of three products with arbitrary letters in every text, tags, options, prices and pictures out of a few, any map order
//! bound: descriptions of up to 201 bytes with spaces and wide characters at 8 places around the limit of 100; 130 products
//! outside: larger shops
use super::nd::*;
use super::same::*;
use super::world::*;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{FeatureValue, ProductContainer, SuperAlloc};
use indexer_lib::serialize::{deserialize_all, serialize_all};

fn read(b: Vec<u8>) -> (&'static Index<5>, &'static ClassicIndexes<'static>) {
    match deserialize_all::<char, 5>(leak(b), leak(Arena::new()), leak(SuperAlloc::new())) {
        Some((i, c)) => (leak(i), leak(c)),
        None => { check(false, "what was written can be read"); panic!() }
    }
}
fn catalogues(p: &'static ProductContainer<'static>, q: &'static ProductContainer<'static>, n: usize) {
    check(p.products.len() == n && q.products.len() == n, "no product is lost");
    for (x, y) in p.products.iter().zip(q.products.iter()) {
        check(x.id == y.id && x.title == y.title && x.vendor.name == y.vendor.name && x.vendor.id == y.vendor.id, "products stay the same");
        check(x.serialization_id == y.serialization_id, "products keep their place");
        for key in ["price", "image_url"] {
            check(match (p.extra_features.get(x, key), q.extra_features.get(y, key)) {
                (Some(FeatureValue::Float(a)), Some(FeatureValue::Float(b))) => a.to_bits() == b.to_bits(),
                (Some(FeatureValue::String(a)), Some(FeatureValue::String(b))) => a == b,
                _ => false,
            }, "features stay the same");
        }
    }
    check(p.vendors.by_id.len() == q.vendors.by_id.len(), "vendors stay the same");
}
fn trips(specs: &[Spec]) {
    // what was built, and what its first trip made of it
    let (built, _) = build(specs);
    let first = written(specs);
    let n = first.len();
    let (ix, cl) = read(first);
    catalogues(built, ix.product_container, specs.len());
    let (mut ix2, mut cl2) = (ix, cl);
    for _ in 0..2 {
        let b = serialize_all(ix2, cl2);
        check(b.len() == n, "what is written again is as long");
        let (i, c) = read(b);
        catalogues(ix.product_container, i.product_container, specs.len());
        for (x, y) in ix.product_container.products.iter().zip(i.product_container.products.iter()) { check(x.description == y.description, "descriptions that were cut stay as they are"); }
        grams::<5>(ix, i);
        classic(cl, c, &ix.product_container.products, &i.product_container.products);
        (ix2, cl2) = (i, c);
    }
    cover("three trips");
}

entries! {
    fn c32_letters() {
        map_order();
        let l: Vec<String> = (0..5).map(|_| ascii(1)).collect();
        let mut specs: Vec<Spec> = (0..3).map(|i| Spec::new(IDS[i])).collect();
        specs[0].description = l[0].clone();
        specs[0].title = leak_str("abcd".to_string() + &l[1]);
        specs[1].tags = vec![leak_str(l[2].clone()), "t"];
        specs[2].tags = vec!["t"];
        specs[1].options = vec![(leak_str(l[3].clone()), vec!["o", leak_str(l[4].clone())])];
        specs[2].options = vec![("c", vec!["o"])];
        trips(&specs);
    }
    fn c32_vendors_prices_and_images() {
        let v = of(&["w", "v", "", "vw"]);
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(leak_str("p".to_string() + &ascii(1)));
            if i == 1 { s.vendor = v; }
            s.price = of(&["1", "19.95"]);
            if flip() { s.media = vec![leak_str(ascii(1))]; }
            s
        }).collect();
        trips(&specs);
    }
    fn c32_descriptions() {
        // a space, a wide character, before and after the limit
        let places = [2usize, 97, 98, 99, 100, 101, 102, 199];
        let (n, space, wide) = (of(&[99usize, 100, 101, 102, 199, 200]), of(&places), of(&places));
        let d: String = (0..n).map(|i| if i == space { ' ' } else if i == wide { 'æ' } else { 'k' }).collect();
        let mut s = Spec::new("p0");
        s.description = d;
        trips(&[s, Spec::new("p1")]);
    }
    fn c32_hundreds() {
        let out = of(&[0usize, 127, 128]);
        let names = numbered("n", 130);
        let specs = hundreds(130, |i, s| {
            s.title = names[i];
            s.vendor = names[(i * 3) % 129];
            if i != out { s.tags = vec!["t"]; s.options = vec![("c", vec!["o"])]; }
            s.tags.push(names[i / 2]);
        });
        trips(&specs);
    }
}
