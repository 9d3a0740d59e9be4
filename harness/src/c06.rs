//! C06: a catalogue reads back as it was written.
//! bound: two products with arbitrary titles, ids and descriptions of up to 2 bytes; three with vendors of up to 2 bytes, shorter before longer and longer before shorter
//! bound: 130 products of up to 130 vendors; texts of 127 and 128 bytes; features of every type with arbitrary values
//! bound: 300 products of 299 vendors
//! outside: descriptions beyond 100 bytes (C05); larger catalogues
use super::nd::*;
use super::world::*;
use indexer_lib::data::{FeatureSet, FeatureValue, ProductContainer, SuperAlloc};

fn reread(c: &'static ProductContainer<'static>) -> &'static ProductContainer<'static> {
    let mut b = bytes_of(c);
    b.push(3);
    match ProductContainer::deserialize(leak(b), leak(SuperAlloc::new())) {
        Some((rest, r)) => {
            check(rest.len() == 1, "reading eats exactly the catalogue");
            leak(r)
        }
        None => {
            check(false, "a written catalogue can be read");
            panic!()
        }
    }
}
fn same(a: &ProductContainer<'static>, b: &ProductContainer<'static>) {
    check(a.products.len() == b.products.len(), "no product is lost");
    for (i, (p, q)) in a.products.iter().zip(b.products.iter()).enumerate() {
        check(p.title == q.title, "titles are kept");
        check(p.id == q.id, "ids are kept");
        check(p.description == q.description, "short descriptions are kept");
        check(p.vendor.name == q.vendor.name, "vendors are kept");
        check(p.vendor.id == q.vendor.id, "vendors keep their number");
        check(p.serialization_id == i && q.serialization_id == i, "products keep their place");
        for key in ["price", "image_url", "none"] {
            let ok = match (a.extra_features.get(p, key), b.extra_features.get(q, key)) {
                (Some(FeatureValue::Float(x)), Some(FeatureValue::Float(y))) => x.to_bits() == y.to_bits(),
                (Some(FeatureValue::String(x)), Some(FeatureValue::String(y))) => x == y,
                (Some(FeatureValue::Integer(x)), Some(FeatureValue::Integer(y))) => x == y,
                (None, None) => true,
                _ => false,
            };
            check(ok, "features are kept");
        }
    }
    check(a.vendors.by_id.len() == b.vendors.by_id.len(), "no vendor is lost");
}

entries! {
    fn c06_texts() {
        let mut p = Spec::new(leak_str(ascii(range(0, 2))));
        p.title = leak_str(ascii(range(0, 1)));
        p.description = ascii(range(0, 2));
        p.media = vec![leak_str(ascii(1))];
        let mut q = Spec::new("q");
        q.title = leak_str(ascii(2));
        let (c, _) = build(&[p, q]);
        let r = reread(c);
        same(c, r);
        check(*c == *r, "the catalogue equals itself");
        cover("done");
    }
    fn c06_vendors() {
        map_order();
        let mut p = Spec::new("p");
        p.vendor = leak_str(ascii(range(0, 2)));
        let mut q = Spec::new("q");
        q.vendor = leak_str(ascii(range(0, 2)));
        let mut r = Spec::new("r");
        r.vendor = leak_str(ascii(1));
        let (c, _) = build(&[p, q, r]);
        match c.vendors.by_id.len() {
            1 => cover("one vendor"),
            3 => cover("three vendors"),
            _ => (),
        }
        same(c, reread(c));
    }
    fn c06_characters() {
        let mut p = Spec::new("p");
        let s: String = (0..2).map(|_| any_char()).collect();
        p.title = leak_str(s);
        let (c, _) = build(&[p]);
        same(c, reread(c));
    }
    fn c06_long_texts() {
        let n = of(&[127, 128]);
        let mut p = Spec::new(leak_str("i".repeat(n)));
        p.title = leak_str("t".repeat(n));
        p.vendor = leak_str("v".repeat(n));
        p.description = "d".repeat(of(&[99, 100]));
        p.media = vec![leak_str("u".repeat(n))];
        let (c, _) = build(&[p]);
        same(c, reread(c));
    }
    fn c06_many_products() {
        // short names first, or long ones
        let down = flip();
        let names: Vec<&'static str> = (0..130).map(|i| leak_str(format!("n{}", if down { 129 - i } else { i }))).collect();
        let mut many: Vec<Spec> = names.iter().map(|n| { let mut s = Spec::new(n); s.title = n; s.vendor = n; s }).collect();
        let at = of(&[0, 128]);
        many[at].vendor = names[of(&[0, 63, 127, 128, 129])];
        let (c, _) = build(&many);
        same(c, reread(c));
        check(c.products[at].vendor.name == many[at].vendor, "a product has its own vendor");
        cover("many vendors");
    }
    fn c06_feature_values() {
        let c = plain(2);
        let mut f = FeatureSet::new_empty();
        let (i, x, y) = ([bits(32) as u32, bits(32) as u32], f32::from_bits(bits(32) as u32), f32::from_bits(bits(32) as u32));
        for v in i { f.add_int("i", v); }
        f.add_float("f", x);
        f.add_float("f", y);
        f.add_string("s", ascii(1));
        let s2 = ascii(1);
        f.add_string("s", s2.clone());
        map_order();
        let g: FeatureSet = match from_bytes(&bytes_of(&f)) { Some(g) => g, None => { check(false, "features can be read"); return } };
        let p = &c.products;
        check(matches!(g.get(&p[0], "i"), Some(FeatureValue::Integer(v)) if v == i[0]), "integers are kept");
        check(matches!(g.get(&p[1], "i"), Some(FeatureValue::Integer(v)) if v == i[1]), "integers are kept");
        check(matches!(g.get(&p[0], "f"), Some(FeatureValue::Float(v)) if v.to_bits() == x.to_bits()), "floats are kept");
        check(matches!(g.get(&p[1], "f"), Some(FeatureValue::Float(v)) if v.to_bits() == y.to_bits()), "floats are kept");
        check(matches!(g.get(&p[1], "s"), Some(FeatureValue::String(v)) if v == s2), "strings are kept");
        check(g.get(&p[0], "x").is_none(), "no feature appears");
        cover("features");
    }
    fn c06_more_vendors_than_a_byte_counts() {
        let names: Vec<&'static str> = (0..300).map(|i| leak_str(format!("n{}", i))).collect();
        let mut many: Vec<Spec> = names.iter().map(|n| { let mut s = Spec::new(n); s.title = n; s.vendor = n; s }).collect();
        let at = of(&[0, 299]);
        many[at].vendor = names[of(&[5, 255, 256, 257, 298])];
        let (c, _) = build(&many);
        let r = reread(c);
        same(c, r);
        for i in 0..300 { check(c.products[i].vendor.name == many[i].vendor && r.products[i].vendor.name == many[i].vendor, "a product has its own vendor"); }
        cover("three hundred vendors");
    }
}
