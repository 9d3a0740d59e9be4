//! C20: an option of a category holds exactly the products that have it.
//! bound: three products, each with up to two options out of two categories and three values, arbitrary names of 1 byte; repeated values
//! bound: products with many categories, and many options
//! bound: 300 products with 444 options of 60 categories; 20 unusual names
//! bound: 300 options of one category
//! outside: longer names; larger catalogues
use super::nd::*;
use super::world::*;
use indexer_lib::classic_indexes::{CategoryIndex, CategoryOption};

fn own(ix: &CategoryIndex<'static>, c: &indexer_lib::data::ProductContainer<'static>, specs: &[Spec]) {
    let has = |s: &Spec, cat: &str, o: &str| s.options.iter().any(|(n, v)| *n == cat && v.contains(&o));
    let mut number = 0;
    for (i, cat) in ix.0.iter().enumerate() {
        for other in &ix.0[..i] { check(other.name != cat.name, "a category exists once"); }
        check(specs.iter().any(|s| s.options.iter().any(|(n, _)| *n == cat.name)), "there are no other categories");
        for (j, o) in cat.options.iter().enumerate() {
            for other in &cat.options[..j] { check(other.name != o.name, "an option exists once in its category"); }
            check(specs.iter().any(|s| has(s, &cat.name, &o.name)), "there are no other options");
            check(o.serialization_id == number, "options are numbered category by category");
            number += 1;
            for (p, s) in c.products.iter().zip(specs.iter()) {
                check(o.contains(p) == has(s, &cat.name, &o.name), "an option has exactly its products");
            }
        }
    }
    for s in specs {
        for (n, v) in &s.options {
            match ix.0.iter().find(|c| c.name == *n) {
                Some(c) => for v in v { check(c.options.iter().any(|o| o.name == *v), "every option is there"); },
                None => check(false, "every category is there"),
            }
        }
    }
    observe(ix.0.len() as u64);
    observe(number as u64);
}
fn model(specs: Vec<Spec>) {
    let (c, cl) = build(&specs);
    let cl = leak(cl);
    own(&cl.categories, c, &specs);
}

entries! {
    fn c20_hundreds() {
        // 300 products, 270 options
        let out = of(&[0usize, 64, 127, 128, 254, 255, 256, 299]);
        let (values, cats) = (numbered("o", 90), numbered("c", 60));
        let has = |i: usize, c: usize, o: usize| if c == 0 { o == i % 90 } else { c == 1 + i % 59 && i != out && o % 2 == i % 2 && o < 6 };
        let specs = hundreds(300, |i, s| for c in 0..60 {
            let v: Vec<&'static str> = (0..90).filter(|o| has(i, c, *o)).map(|o| values[o]).collect();
            if !v.is_empty() { s.options.push((cats[c], v)); }
        });
        let (p, cl) = build(&specs);
        let mut number = 0;
        check(cl.categories.0.len() == 60, "there are as many categories as names");
        for cat in &cl.categories.0 {
            let c: usize = cat.name[1..].parse().unwrap();
            let wanted = (0..90).filter(|o| (0..300).any(|i| has(i, c, *o))).count();
            check(cat.options.len() == wanted, "there are as many options as values");
            for o in &cat.options {
                check(o.serialization_id == number, "options are numbered category by category");
                number += 1;
                let k: usize = o.name[1..].parse().unwrap();
                for i in 0..300 { check(o.contains(&p.products[i]) == has(i, c, k), "an option has exactly its products"); }
            }
        }
        cover("hundreds of options");
    }
    fn c20_hundreds_of_one_category() {
        // every product has a value of its own; one also has an earlier or later one
        let values = numbered("o", 300);
        let (at, too) = (of(&[0usize, 129, 299]), of(&[0usize, 1, 127, 128, 255, 256, 299]));
        let specs = hundreds(300, |i, s| s.options = vec![("c", if i == at { vec![values[i], values[too]] } else { vec![values[i]] })]);
        let (p, cl) = build(&specs);
        check(cl.categories.0.len() == 1, "there are as many categories as names");
        let o = &cl.categories.0[0].options;
        check(o.len() == 300, "there are as many options as values");
        let mut seen = vec![false; 300];
        for o in o {
            let k: usize = o.name[1..].parse().unwrap();
            check(!seen[k], "an option is listed once");
            seen[k] = true;
            for i in 0..300 { check(o.contains(&p.products[i]) == (i == k || i == at && k == too), "an option has exactly its products"); }
        }
        cover("hundreds of options of a category");
    }
    fn c20_unusual_options() {
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.options = vec![("c", vec!["a", unusual()]), ("d", vec!["b"])];
        b.options = vec![("c", vec![unusual(), "\u{e9}b"])];
        model(vec![a, b]);
        cover("unusual names");
    }
    fn c20_unusual_categories() {
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.options = vec![("a", vec!["o"]), (unusual(), vec!["o", "p"])];
        b.options = vec![(unusual(), vec!["p", "q"])];
        model(vec![a, b]);
        cover("unusual names");
    }
    fn c20_same_in_two_categories() {
        // a value names one option per category, and a name may be both
        let n = [unusual(), "b"];
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(IDS[i]);
            if flip() { s.options.push((n[0], vec![n[0]])); }
            if flip() { s.options.push((n[1], vec![n[0], n[1]])); }
            s
        }).collect();
        model(specs);
    }
    fn c20_memberships() {
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(IDS[i]);
            for _ in 0..pick([3, 3, 2][i]) { s.options.push((of(&["c", "d"]), vec![of(&["o", "p", "q"])])); }
            s
        }).collect();
        model(specs);
    }
    fn c20_values() {
        // several values of one option, the same twice
        let v: Vec<&'static str> = (0..3).map(|_| leak_str(letters(1, 3))).collect();
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.options = vec![("c", vec![v[0], v[1]]), ("c", vec![v[2]])];
        b.options = vec![("d", vec![v[0]]), ("c", vec!["a"])];
        model(vec![a, b]);
    }
    fn c20_names() {
        let n: Vec<&'static str> = (0..2).map(|_| leak_str(ascii(1))).collect();
        let o: Vec<&'static str> = (0..2).map(|_| leak_str(ascii(1))).collect();
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.options = vec![(n[0], vec![o[0]])];
        b.options = vec![(n[1], vec![o[1]]), ("c", vec![])];
        model(vec![Spec::new("p2"), a, b]);
    }
    fn c20_many_options() {
        let at = pick(20);
        let names: Vec<&'static str> = (0..20).map(|i| leak_str(format!("o{}", i))).collect();
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.options = vec![("c", (0..20).filter(|k| (*k == at) != (i == *k % 3)).map(|k| names[k]).collect()), (names[at], vec!["o"])]; s }).collect();
        model(specs);
    }
    fn c20_one_by_one() {
        let c = plain(3);
        let mut o = CategoryOption::new("o".to_string(), 4);
        let mut has = [false; 3];
        for _ in 0..4 { let k = pick(3); o.add(&c.products[k]); has[k] = true; }
        for k in 0..3 { check(o.contains(&c.products[k]) == has[k], "an option has the products added to it"); }
        cover("added");
    }
    fn c20_more_memberships_thorough() {
        map_order();
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(IDS[i]);
            for _ in 0..pick(3) { s.options.push((of(&["c", "d"]), vec![of(&["o", "p", "q"])])); }
            s
        }).collect();
        model(specs);
    }
}
