//! C18: every product has its own price and image, by its place in the catalogue.
//! bound: four products with prices out of eight and up to 2 pictures each of arbitrary urls of 1 byte; 12 products with one left out
//! bound: 300 products, one of eight without a picture and free; 20 unusual names
//! outside: prices that are not numbers (they are refused, see C30); other urls
use super::nd::*;
use super::world::*;
use indexer_lib::data::FeatureValue;

const PRICES: [(&str, f32); 8] = [("0", 0.0), ("1", 1.0), ("19.95", 19.95), ("-3.5", -3.5), ("1e2", 100.0), ("100000", 100000.0), ("0.1", 0.1), ("16777216", 16777216.0)];

fn own(c: &indexer_lib::data::ProductContainer<'static>, specs: &[Spec], price: &[f32]) {
    check(c.products.len() == specs.len(), "every product is in the catalogue");
    for (i, (p, s)) in c.products.iter().zip(specs.iter()).enumerate() {
        check(p.id == s.id && p.serialization_id == i, "products keep the order they came in");
        match c.extra_features.get(p, "price") {
            Some(FeatureValue::Float(f)) => check(f.to_bits() == price[i].to_bits(), "a product has its own price"),
            _ => check(false, "every product has a price"),
        }
        match c.extra_features.get(p, "image_url") {
            Some(FeatureValue::String(u)) => check(u == *s.media.first().unwrap_or(&""), "a product has its own image"),
            _ => check(false, "every product has an image entry"),
        }
        check(c.extra_features.get(p, "colour").is_none(), "there are no other features");
    }
}

entries! {
    fn c18_hundreds() {
        let out = of(&[0usize, 64, 127, 128, 254, 255, 256, 299]);
        let url = numbered("u", 300);
        let specs = hundreds(300, |i, s| { if i != out { s.media = vec![url[i], "z"]; } s.price = leak_str((if i == out { 0 } else { i * 3 }).to_string()); });
        let (c, _) = build(&specs);
        let wanted: Vec<f32> = (0..300).map(|i| if i == out { 0.0 } else { i as f32 * 3.0 }).collect();
        own(c, &specs, &wanted);
        cover("hundreds of products");
    }
    fn c18_unusual() {
        let specs: Vec<Spec> = (0..2).map(|i| { let mut s = Spec::new(if i == 0 { unusual() } else { "p1" }); s.media = vec![unusual(), "b"]; s }).collect();
        let (c, _) = build(&specs);
        own(c, &specs, &[1.0; 2]);
        cover("unusual names");
    }
    fn c18_images() {
        let mut without = 0;
        let specs: Vec<Spec> = (0..4).map(|i| {
            let mut s = Spec::new(IDS[i]);
            for _ in 0..pick(3) { s.media.push(leak_str(ascii(1))); }
            if s.media.is_empty() { without += 1; }
            s
        }).collect();
        if without == 4 { cover("no images at all"); }
        if without == 1 { cover("one product has no image"); }
        let (c, _) = build(&specs);
        own(c, &specs, &[1.0; 4]);
    }
    fn c18_prices() {
        let k: Vec<usize> = (0..3).map(|_| pick(8)).collect();
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.price = PRICES[k[i]].0; s.media = vec![IDS[i]]; s }).collect();
        let (c, _) = build(&specs);
        let wanted: Vec<f32> = k.iter().map(|k| PRICES[*k].1).collect();
        own(c, &specs, &wanted);
    }
    fn c18_price_digits() {
        // whole cents below 100
        let d = [below(10), below(10), below(10), below(10)];
        let text: Vec<u8> = vec![b'0' + d[0] as u8, b'0' + d[1] as u8, b'.', b'0' + d[2] as u8, b'0' + d[3] as u8];
        let mut s = Spec::new("p");
        s.price = leak_str(String::from_utf8(text).unwrap());
        let (c, _) = build(&[s]);
        let cents = d[0] * 1000 + d[1] * 100 + d[2] * 10 + d[3];
        match c.extra_features.get(&c.products[0], "price") {
            // the division rounds correctly, as reading a number has to
            Some(FeatureValue::Float(f)) => check(f == cents as f32 / 100.0, "a price is the number written"),
            _ => check(false, "every product has a price"),
        }
        cover("a price");
    }
    fn c18_many() {
        let out = pick(12);
        let specs: Vec<Spec> = (0..12).map(|i| { let mut s = Spec::new(IDS[i]); if i != out { s.media = vec![IDS[i], "z"]; } s.price = PRICES[(i + out) % 8].0; s }).collect();
        let (c, _) = build(&specs);
        let wanted: Vec<f32> = (0..12).map(|i| PRICES[(i + out) % 8].1).collect();
        own(c, &specs, &wanted);
    }
}
