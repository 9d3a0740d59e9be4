//! C29: what a shop indexes is what its customers find, from products to search results.
//! bound: three products whose titles, descriptions and vendors have arbitrary letters; every query of 5 letters among those; either case
//! bound: products found by title, by description, by vendor and across them; longer queries of two words; prices, images, tags and options of results
//! bound: descriptions of up to 605 symbols
//! bound: 300 products, found by description and by vendor
//! outside: queries of other lengths (C12); catalogues beyond four products
use super::nd::*;
use super::world::*;
use wasm_bindgen::JsValue;

/// All the searchable text of a product.
fn text(s: &Spec) -> Vec<char> {
    (s.description.to_string() + s.title + s.vendor).chars().flat_map(char::to_lowercase).collect()
}
fn count(t: &[char], gram: &[char]) -> usize {
    t.windows(5).filter(|w| *w == gram).count()
}
fn close(gram: &[char], typed: &[char]) -> bool {
    gram[0] == typed[0] && ((0..5).filter(|i| gram[*i] != typed[*i]).count() <= 1
        || (1..5).any(|k| gram[..k] == typed[..k] && gram[k + 1..] == typed[k..4]))
}
/// The products a query of five letters may give: those of a likeliest n-gram.
fn five(specs: &[Spec], query: &str) {
    let texts: Vec<Vec<char>> = specs.iter().map(|s| text(s)).collect();
    let typed: Vec<char> = query.chars().flat_map(char::to_lowercase).collect();
    let mut best = 0;
    let mut sets: Vec<Vec<bool>> = vec![];
    for t in &texts {
        for w in t.windows(5) {
            if !close(w, &typed) { continue; }
            let n: usize = texts.iter().map(|t| count(t, w)).sum();
            if n < best { continue; }
            if n > best { best = n; sets.clear(); }
            let mut set: Vec<bool> = texts.iter().map(|t| count(t, w) > 0).collect();
            if set.iter().filter(|b| **b).count() * 5 > specs.len() * 4 { set = vec![false; specs.len()]; }
            if !sets.contains(&set) { sets.push(set); }
        }
    }
    if sets.is_empty() { sets.push(vec![false; specs.len()]); }
    let (c, t) = handlers();
    let found = match find(query, &c, &t, None, &nothing()) { Some(f) => f, None => { check(false, "a search gives results"); return } };
    let got: Vec<bool> = specs.iter().map(|s| found.iter().any(|f| f == s.id)).collect();
    check(sets.contains(&got) && found.len() == got.iter().filter(|g| **g).count(), "a search gives the products of the likeliest reading");
    if sets.len() == 1 { observe(found.len() as u64); }
    match found.len() { 0 => cover("nothing found"), 1 => cover("one found"), _ => cover("several found") }
}

entries! {
    fn c29_hundreds() {
        let w = numbered("word", 300);
        let at = of(&[0usize, 128, 255, 299]);
        let specs = hundreds(300, |i, s| { s.title = leak_str(w[i].chars().rev().collect()); s.description = (if i % 2 == 0 { "xyzzy" } else { "plugh" }).to_string(); s.price = leak_str(i.to_string()); s.media = vec![w[i]]; if i == at { s.vendor = "Quux8"; } });
        load(&specs);
        let (c, t) = handlers();
        let query = if flip() { "quux8" } else if at % 2 == 0 { "XYZZY" } else { "plugh" };
        let wanted: Vec<usize> = (0..300).filter(|i| match query { "quux8" => *i == at, "XYZZY" => i % 2 == 0, _ => i % 2 == 1 }).collect();
        let mut p = match indexer_lib::search(query, &c, &t, Some("Price low to high".to_string()), &nothing()) { Some(p) => p, None => { check(false, "a search gives results"); return } };
        for i in wanted {
            match p.next_product() {
                Some(j) => {
                    check(j.get_id() == specs[i].id && j.get_title() == specs[i].title && j.get_description() == specs[i].description, "a result has its own texts");
                    check(j.numeric_feature("price") == Some(i as f64), "a result has its own price");
                    check(j.string_feature("image_url").as_deref() == Some(w[i]), "a result has its own image");
                }
                None => check(false, "every product is found"),
            }
        }
        check(p.next_product().is_none(), "the others are not found");
        cover("hundreds of products");
    }
    fn c29_titles() {
        let mut specs: Vec<Spec> = (0..3).map(|i| Spec::new(IDS[i])).collect();
        specs[0].title = leak_str("ab".to_string() + &letters(3, 2));
        specs[1].title = leak_str("xab".to_string() + &letters(2, 2) + "a");
        specs[2].title = "qrstuvw";
        load(&specs);
        five(&specs, &("ab".to_string() + &letters(3, 3)));
    }
    fn c29_fields() {
        let mut specs: Vec<Spec> = (0..3).map(|i| Spec::new(IDS[i])).collect();
        specs[0].description = "Lorem".to_string() + &letters(1, 3);
        specs[0].title = "Ipsum";
        specs[0].vendor = leak_str("Dolor".to_string() + &letters(1, 2));
        specs[1].description = "Élan".to_string();
        specs[1].title = "Vital";
        specs[1].vendor = leak_str("Acme".to_string() + &letters(1, 2));
        specs[2].vendor = specs[1].vendor;
        load(&specs);
        let q = of(&["lorem", "IPSUM", "dolor", "oremb", "aipsu", "umdol", "élanv", "ÉLANV", "Acmea", "acmeb", "lacme", "lorea", "dlor", "oloor"]);
        let q = if q.chars().count() == 5 { q.to_string() } else { "d".to_string() + q };
        five(&specs, &q);
    }
    fn c29_results_speak_for_themselves() {
        let mut specs: Vec<Spec> = (0..3).map(|i| Spec::new(IDS[i])).collect();
        let l = letters(1, 26);
        specs[0].title = leak_str("abcde".to_string() + &l);
        specs[1].title = leak_str("abcdez".to_string());
        specs[1].description = letters(2, 26);
        specs[1].media = vec![leak_str("u".to_string() + &l), "second"];
        specs[1].price = of(&["3", "4.5"]);
        specs[0].price = "100";
        specs[0].tags = vec!["red"];
        specs[1].tags = vec!["red", "blue"];
        specs[1].options = vec![("size", vec!["m"])];
        load(&specs);
        let (mut c, mut t) = handlers();
        match pick(4) {
            0 => (),
            1 => { let g = tag(&t, "blue").unwrap(); t.toggle(&g); }
            2 => { let o = option(&c, "size", "m").unwrap(); c.toggle(&o); }
            _ => { let g = tag(&t, "red").unwrap(); t.toggle(&g); let o = option(&c, "size", "m").unwrap(); c.toggle(&o); }
        }
        let max = JsValue::from(js_sys::Object::literal(vec![("to".to_string(), JsValue::Number(50.0))]));
        let mut p = match indexer_lib::search("abcde", &c, &t, Some("Price low to high".to_string()), &js_sys::Object::literal(vec![("price".to_string(), max)])) {
            Some(p) => p,
            None => { check(false, "a search gives results"); return }
        };
        match p.next_product() {
            Some(j) => {
                check(j.get_id() == "p1" && j.get_title() == specs[1].title && j.get_description() == specs[1].description, "a result has its own texts");
                check(j.numeric_feature("price") == Some(if specs[1].price == "3" { 3.0 } else { 4.5 }), "a result has its own price");
                check(j.string_feature("image_url").as_deref() == Some(specs[1].media[0]), "a result has its own image");
            }
            None => check(false, "the product that fits is found"),
        }
        check(p.next_product().is_none(), "the others are not found");
    }
    fn c29_words() {
        // the product of both words comes before the product of one
        let w = [leak_str("kunst".to_string() + &letters(1, 4)), "lerisch"];
        let mut specs: Vec<Spec> = (0..4).map(|i| Spec::new(IDS[i])).collect();
        let both = pick(3);
        for i in 0..3 { specs[i].title = if i == both { leak_str(w[0].to_string() + " " + w[1]) } else { w[1] }; }
        specs[3].title = "zzzzzzzz";
        load(&specs);
        let (c, t) = handlers();
        match find(&(w[0].to_string() + " " + w[1]), &c, &t, None, &nothing()) {
            Some(f) => {
                check(f.len() == 3 && f[0] == IDS[both], "the best match comes first");
                for f in &f[1..] { check(f != IDS[both] && f != IDS[3], "every match is found once"); }
            }
            None => check(false, "a search gives results"),
        }
    }
    fn c29_empty() {
        load(&[]);
        let (c, t) = handlers();
        check(all_tags(&t).is_empty() && all_options(&c).is_empty(), "an empty shop has no tags and options");
        let q = letters(range(0, 6), 3);
        for order in [None, Some("Alphabetical")] {
            check(find(&q, &c, &t, order, &nothing()).map(|f| f.len()) == Some(0), "nothing is found in an empty shop");
        }
    }
    fn c29_long_texts() {
        // words anywhere in a long description, in capitals of any language
        let n = of(&[20usize, 95, 99, 100, 101, 200, 300]);
        let w = of(&["Kunst", "ÆRØKØ", "ñandú"]);
        let mut specs: Vec<Spec> = (0..3).map(|i| Spec::new(IDS[i])).collect();
        let i = pick(2);
        specs[i].description = of(&["-", "–"]).repeat(n) + w;
        if flip() { specs[i].description.push_str(&"=".repeat(n)); }
        specs[1 - i].title = "Anderes";
        load(&specs);
        let (c, t) = handlers();
        let q = if flip() { w.to_uppercase() } else { w.to_lowercase() };
        match find(&q, &c, &t, None, &nothing()) {
            Some(f) => check(f.len() == 1 && f[0] == IDS[i], "a word deep in a description is found"),
            None => check(false, "a search gives results"),
        }
    }
}
