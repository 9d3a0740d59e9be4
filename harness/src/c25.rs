//! C25: a result hands out its products one by one, with their own texts and features.
//! bound: every list of up to 4 of three products; arbitrary titles, descriptions, ids of 1 byte, features of every type with arbitrary values
//! bound: all of 300 products, up and down, in steps of 7, from five starts; 20 unusual names
//! outside: longer lists
use super::nd::*;
use super::world::*;
use indexer_lib::data::{FeatureSet, Product, ProductContainer};
use indexer_lib::js_interactable::ProductProducer;

fn catalogue(p: &[Spec], f: FeatureSet) -> &'static ProductContainer<'static> {
    let (c, _) = build(p);
    let products = c.products.iter().map(|p| Product {
        description: p.description.clone(), title: p.title.clone(), vendor: p.vendor, id: p.id.clone(), serialization_id: p.serialization_id,
    }).collect();
    leak(ProductContainer::new(products, c.vendors.clone(), f))
}

entries! {
    fn c25_hundreds() {
        let c = plain(300);
        let (step, from) = (of(&[1usize, 7, 299]), of(&[0usize, 100, 254, 255, 299]));
        let list: Vec<usize> = (0..300).map(|i| (from + i * step) % 300).collect();
        let mut p = ProductProducer::new(c, list.clone());
        for i in &list {
            match p.next_product() {
                Some(j) => check(j.get_id() == c.products[*i].id, "products come in the order of the list"),
                None => check(false, "every product of the list comes"),
            }
        }
        check(p.next_product().is_none(), "after the last product there is nothing");
        cover("hundreds of results");
    }
    fn c25_unusual() {
        let k = pick(UNUSUAL.len());
        let mut a = Spec::new(UNUSUAL[(k + 7) % UNUSUAL.len()]);
        a.title = UNUSUAL[k];
        a.description = UNUSUAL[UNUSUAL.len() - 1 - k].to_string();
        let key = unusual();
        let mut f = FeatureSet::new_empty();
        f.add_string(key, UNUSUAL[k].to_string());
        f.add_float("x", 1.5);
        let specs = [a];
        let c = catalogue(&specs, f);
        match ProductProducer::new(c, vec![0]).next_product() {
            Some(j) => {
                check(j.get_id() == specs[0].id, "a product has its id");
                check(j.get_title() == specs[0].title, "a product has its title");
                check(j.get_description() == specs[0].description, "a product has its description");
                check(j.string_feature(key).as_deref() == Some(UNUSUAL[k]), "strings are strings");
                check(j.numeric_feature("x") == Some(1.5), "floats are numbers");
                let other = unusual();
                check(j.string_feature(other).is_some() == (other == key), "there are no other features");
            }
            None => check(false, "every product comes"),
        }
        cover("unusual names");
    }
    fn c25_lists() {
        let (c, _) = build(&[Spec::new("p0"), Spec::new("p1"), Spec::new("p2")]);
        let list: Vec<usize> = (0..range(0, 4)).map(|_| pick(3)).collect();
        let mut p = ProductProducer::new(c, list.clone());
        for i in &list {
            match p.next_product() {
                Some(j) => check(j.get_id() == IDS[*i], "products come in the order of the list"),
                None => check(false, "every product of the list comes"),
            }
        }
        for _ in 0..2 { check(p.next_product().is_none(), "after the last product there is nothing"); }
        if list.is_empty() { cover("an empty list"); }
    }
    fn c25_unknown() {
        let (c, _) = build(&[Spec::new("p0")]);
        let far = bits(64) as usize;
        let mut p = ProductProducer::new(c, vec![0, far]);
        check(p.next_product().is_some(), "the first product comes");
        check(p.next_product().is_some() == (far == 0), "a product that does not exist ends the list");
    }
    fn c25_texts() {
        let (mut a, mut b) = (Spec::new(leak_str(ascii(1))), Spec::new("p1"));
        a.title = leak_str(ascii(range(0, 2)));
        a.description = ascii(range(0, 2));
        b.title = leak_str(ascii(1));
        b.description = ascii(1);
        let (c, _) = build(&[]);
        check(ProductProducer::new(c, vec![]).next_product().is_none(), "nothing comes from nothing");
        let specs = [a, b];
        let (c, _) = build(&specs);
        let first = pick(2);
        let mut p = ProductProducer::new(c, vec![first, 1 - first]);
        for i in [first, 1 - first] {
            let j = match p.next_product() { Some(j) => j, None => { check(false, "every product comes"); return } };
            check(j.get_id() == specs[i].id, "a product has its id");
            check(j.get_title() == specs[i].title, "a product has its title");
            check(j.get_description() == specs[i].description, "a product has its description");
        }
    }
    fn c25_numbers() {
        let (mut f, n) = (FeatureSet::new_empty(), [bits(32) as u32, bits(32) as u32]);
        for i in 0..2 { f.add_int("n", n[i]); }
        third(f, &["n", "x", "s"], &|numeric, string, i| {
            check(numeric("n") == Some(n[i] as f64), "integers are numbers");
            check(string("n").is_none(), "numbers are no strings");
        });
    }
    fn c25_floats() {
        let mut f = FeatureSet::new_empty();
        let x = [f32::from_bits(bits(32) as u32), f32::from_bits(bits(32) as u32)];
        for x in x { assume(!x.is_nan()); f.add_float("x", x); }
        third(f, &["n", "x", "s"], &|numeric, string, i| {
            check(numeric("x") == Some(x[i] as f64), "floats are numbers");
            check(string("x").is_none(), "numbers are no strings");
            check(numeric("y").is_none() && string("y").is_none(), "there are no other features");
        });
    }
    fn c25_strings() {
        let mut f = FeatureSet::new_empty();
        let s = [ascii(1), ascii(range(0, 1))];
        for s in &s { f.add_string("s", s.clone()); }
        f.add_float("x", 1.5);
        third(f, &["n", "x", "s"], &|numeric, string, i| {
            check(string("s").as_deref() == Some(s[i].as_str()), "strings are strings");
            check(numeric("s").is_none(), "strings are no numbers");
        });
    }
}
/// Judges the first two products; the last has no features.
fn third(f: FeatureSet, keys: &[&str], judge: &dyn Fn(&dyn Fn(&str) -> Option<f64>, &dyn Fn(&str) -> Option<String>, usize)) {
    let c = catalogue(&[Spec::new("p0"), Spec::new("p1"), Spec::new("p2")], f);
    let mut p = ProductProducer::new(c, vec![1, 0, 2]);
    for i in [1, 0] {
        match p.next_product() {
            Some(j) => judge(&|k| j.numeric_feature(k), &|k| j.string_feature(k), i),
            None => check(false, "every product comes"),
        }
    }
    match p.next_product() {
        Some(j) => for k in keys { check(j.numeric_feature(k).is_none() && j.string_feature(k).is_none(), "a product without features has none"); },
        None => check(false, "every product comes"),
    }
    cover("features");
}
