//! C14: a search gives the matching products that pass every filter, by the order asked for.
//! bound: five products with arbitrary tags, options and prices out of a few; any one or two tags and options switched on; each order; a price range
//! bound: queries of arbitrary letters in either case
//! bound: titles of five letters of five alphabets, and queries for them in any mix of capitals
//! bound: 320 products, 240 matching, by each order, with and without a tag and a price limit
//! outside: larger catalogues; how results of equal confidence are ordered
use super::nd::*;
use super::world::*;
use wasm_bindgen::JsValue;

const TAGS: [&str; 2] = ["t", "u"];
const PRICES: [&str; 3] = ["5", "10.5", "100"];
const VALUE: [f64; 3] = [5.0, 10.5, 100.0];
const TITLES: [&str; 5] = ["abcdef b", "ABCDEF a", "abcdef c", "xyabcdef", "qrstuvw"];

struct Shop {
    specs: Vec<Spec>,
    price: Vec<usize>,
}
/// Four products with "abcdef" in their titles, and one without.
fn shop(prices: impl Fn(usize) -> usize, tags: impl Fn(usize, usize) -> bool, options: impl Fn(usize, usize) -> bool) -> Shop {
    let mut price = vec![];
    let specs: Vec<Spec> = (0..5).map(|i| {
        let mut s = Spec::new(IDS[i]);
        s.title = TITLES[i];
        price.push(prices(i));
        s.price = PRICES[price[i]];
        for k in 0..2 { if tags(i, k) { s.tags.push(TAGS[k]); } }
        let v: Vec<&'static str> = (0..2).filter(|k| options(i, *k)).map(|k| ["o", "p"][k]).collect();
        if !v.is_empty() { s.options.push(("c", v)); }
        s
    }).collect();
    load(&specs);
    Shop { specs, price }
}
fn same_set(found: &[String], wanted: &[usize]) {
    check(found.len() == wanted.len(), "as many results as there are matches");
    for i in wanted { check(found.iter().any(|f| f == IDS[*i]), "every match that passes is found"); }
    observe(found.len() as u64);
}

entries! {
    fn c14_hundreds() {
        // 320 products, 240 of which match; every price once, every title once
        let specs = hundreds(320, |i, s| {
            s.price = leak_str(((i * 37) % 320).to_string());
            s.title = leak_str((if i % 4 == 0 { "zyxwvu" } else { "abcdef" }).to_string() + &"0".repeat(3) + &((i * 77) % 320 + 100).to_string());
            if i % 3 > 0 { s.tags.push("t"); }
        });
        load(&specs);
        let (c, mut t) = handlers();
        let (filtered, which) = (flip(), pick(4));
        if filtered { let g = tag(&t, "t").unwrap(); t.toggle(&g); }
        let to = of(&[None, Some(255.0), Some(256.0)]);
        let filter = match to {
            None => nothing(),
            Some(to) => js_sys::Object::literal(vec![("price".to_string(), JsValue::from(js_sys::Object::literal(vec![("to".to_string(), JsValue::Number(to))])))]),
        };
        let order = [None, Some("Alphabetical"), Some("Price low to high"), Some("Price high to low")][which];
        let mut wanted: Vec<usize> = (0..320).filter(|i| i % 4 > 0 && (!filtered || i % 3 > 0) && to.map_or(true, |to| (i * 37 % 320) as f64 <= to)).collect();
        match which {
            1 => wanted.sort_by_key(|i| (i * 77) % 320),
            2 => wanted.sort_by_key(|i| (i * 37) % 320),
            3 => wanted.sort_by_key(|i| 320 - (i * 37) % 320),
            _ => (),
        }
        match find("abcdef", &c, &t, order, &filter) {
            Some(mut f) => {
                if which == 0 {
                    let mut at: Vec<usize> = f.iter().map(|f| f[1..].parse().unwrap()).collect();
                    at.sort();
                    f = at.into_iter().map(|i| specs[i].id.to_string()).collect();
                }
                check(f.len() == wanted.len(), "as many results as there are matches");
                check(f.iter().zip(wanted.iter()).all(|(f, w)| f == specs[*w].id), "every match that passes is found, in the order asked for");
                if filtered && to.is_some() { cover("hundreds of products, filtered"); }
            }
            None => check(false, "a search gives results"),
        }
    }
    fn c14_tags_and_categories() {
        let has: Vec<bool> = [0, 1, 2].iter().map(|_| flip()).collect();
        let (h, g) = (has.clone(), flip());
        let s = shop(|_| 0, |i, k| match (i, k) { (0, 0) => h[0], (1, 0) => h[1], (2, 1) => g, (4, _) => true, _ => i > 1 }, |i, k| match (i, k) { (0, 0) => h[2], (1, 1) => false, _ => i < 4 });
        let (mut c, mut t) = handlers();
        let on: Vec<usize> = match pick(4) { 0 => vec![], 1 => vec![0], 2 => vec![1], _ => vec![0, 1] };
        let opt: Vec<usize> = match pick(4) { 0 => vec![], 1 => vec![0], 2 => vec![1], _ => vec![0, 1] };
        let mut missing = false;
        for k in &on { match tag(&t, TAGS[*k]) { Some(g) => t.toggle(&g), None => missing = true } }
        for k in &opt { match option(&c, "c", ["o", "p"][*k]) { Some(o) => c.toggle(&o), None => missing = true } }
        if missing { check(false, "tags and options can be switched on"); }
        let wanted: Vec<usize> = (0..4).filter(|i| {
            let s = &s.specs[*i];
            on.iter().all(|k| s.tags.contains(&TAGS[*k])) && opt.iter().all(|k| s.options.iter().any(|(_, v)| v.contains(&["o", "p"][*k])))
        }).collect();
        match find("abcdef", &c, &t, None, &nothing()) {
            Some(f) => same_set(&f, &wanted),
            None => check(false, "a search gives results"),
        }
        if !on.is_empty() && !opt.is_empty() && !wanted.is_empty() { cover("a tag and an option"); }
    }
    fn c14_orders() {
        let p = [pick(3), pick(3), pick(3), pick(3)];
        let s = shop(|i| if i < 4 { p[i] } else { 1 }, |i, k| k == 0 && i != 2, |_, _| false);
        let (c, mut t) = handlers();
        let filtered = flip();
        if filtered { let g = tag(&t, "t").unwrap(); t.toggle(&g); }
        let which = pick(4);
        let order = ["Alphabetical", "Price low to high", "Price high to low", "no such order"][which];
        let found = find("abcdef", &c, &t, Some(order), &nothing());
        if which == 3 {
            check(found.is_none(), "an unknown order gives nothing");
            cover("an unknown order");
            return;
        }
        let mut wanted: Vec<usize> = (0..4).filter(|i| !filtered || *i != 2).collect();
        match which {
            0 => wanted.sort_by(|a, b| TITLES[*a].cmp(TITLES[*b])),
            1 => wanted.sort_by(|a, b| s.price[*a].cmp(&s.price[*b])),
            _ => wanted.sort_by(|a, b| s.price[*b].cmp(&s.price[*a])),
        }
        match found {
            Some(f) => {
                check(f.len() == wanted.len() && f.iter().zip(wanted.iter()).all(|(f, w)| f == IDS[*w]), "results come in the order asked for");
                for f in &f { observe_bytes(f.as_bytes()); }
            }
            None => check(false, "a search gives results"),
        }
    }
    fn c14_unknown_order_of_few() {
        // whatever there is to order
        shop(|_| 0, |_, _| false, |_, _| false);
        let (c, t) = handlers();
        let q = of(&["abcdef", "abcde", "xyabcdef", "qrstuvw", "zzzzzz", "qrs", ""]);
        let order = letters(range(0, 2), 26);
        check(find(q, &c, &t, Some(&order), &nothing()).is_none(), "an unknown order gives nothing");
        match find(q, &c, &t, Some("Price high to low"), &nothing()) {
            Some(f) => match f.len() { 0 => cover("nothing to order"), 1 => cover("one result to order"), _ => cover("several") },
            None => check(false, "a known order gives results"),
        }
    }
    fn c14_letters_of_other_languages() {
        // capitals and small letters are one, also outside ASCII
        const W: [&str; 5] = ["æøåéñ", "ЖЛДЮЯ", "ωψχφτ", "Ÿžčšđ", "ABcDE"];
        let specs: Vec<Spec> = (0..5).map(|i| { let mut s = Spec::new(IDS[i]); s.title = W[i]; s.vendor = ""; s }).collect();
        load(&specs);
        let (c, t) = handlers();
        let i = pick(5);
        let q: String = W[i].chars().map(|l| if flip() { l.to_uppercase().next().unwrap() } else { l.to_lowercase().next().unwrap() }).collect();
        match find(&q, &c, &t, None, &nothing()) {
            Some(f) => same_set(&f, &[i]),
            None => check(false, "a search gives results"),
        }
    }
    fn c14_price_range() {
        let p = [pick(3), pick(3), pick(2)];
        let s = shop(|i| if i < 3 { p[i] } else { 2 }, |_, _| false, |_, _| false);
        let (c, t) = handlers();
        let (from, to) = (f64::from_bits(bits(64)), f64::from_bits(bits(64)));
        let kind = pick(5);
        let range = |f: Vec<(String, JsValue)>| JsValue::from(js_sys::Object::literal(f));
        let filter = match kind {
            0 => range(vec![("from".to_string(), JsValue::Number(from)), ("to".to_string(), JsValue::Number(to))]),
            1 => range(vec![("from".to_string(), JsValue::Number(from))]),
            2 => range(vec![("to".to_string(), JsValue::Number(to))]),
            3 => range(vec![("exact".to_string(), JsValue::Number(from))]),
            _ => JsValue::Number(from),
        };
        let filter = js_sys::Object::literal(vec![("price".to_string(), filter)]);
        let found = find("abcdef", &c, &t, if flip() { None } else { Some("Alphabetical") }, &filter);
        if kind == 4 {
            check(found.is_none(), "a filter that cannot be understood gives nothing");
            cover("no filter at all");
            return;
        }
        let wanted: Vec<usize> = (0..4).filter(|i| {
            let v = VALUE[s.price[*i]];
            match kind { 0 => from <= v && v <= to, 1 => from <= v, 2 => v <= to, _ => v == from }
        }).collect();
        match found {
            Some(f) => same_set(&f, &wanted),
            None => check(false, "a search gives results"),
        }
        if !wanted.is_empty() && wanted.len() < 4 { cover("some are in the range"); }
    }
    fn c14_two_features() {
        let s = shop(|i| [0, 1, 1, 0, 2][i], |_, _| false, |_, _| false);
        let (c, t) = handlers();
        let from = f64::from_bits(bits(64));
        let url = letters(1, 4);
        let a = js_sys::Object::literal(vec![("from".to_string(), JsValue::Number(from))]);
        let b = js_sys::Object::literal(vec![("exact".to_string(), JsValue::Str(if flip() { url } else { cover("no url"); String::new() }))]);
        let mut f = vec![("price".to_string(), JsValue::from(a)), ("image_url".to_string(), JsValue::from(b.clone()))];
        if flip() { f.swap(0, 1); }
        let all = match find("abcdef", &c, &t, None, &js_sys::Object::literal(f)) { Some(f) => f, None => { check(false, "a search gives results"); return } };
        let empty = b.as_ref() as &JsValue;
        let is_empty = match js_sys::Reflect::get(empty, &"exact".into()) { Ok(JsValue::Str(s)) => s.is_empty(), _ => false };
        let wanted: Vec<usize> = (0..4).filter(|i| from <= VALUE[s.price[*i]] && is_empty).collect();
        same_set(&all, &wanted);
    }
    fn c14_case() {
        shop(|_| 0, |_, _| false, |_, _| false);
        let (c, t) = handlers();
        let q: String = "abcde".chars().map(|c| if flip() { c.to_ascii_uppercase() } else { c }).collect();
        match find(&q, &c, &t, None, &nothing()) {
            Some(f) => same_set(&f, &[0, 1, 2, 3]),
            None => check(false, "a search gives results"),
        }
    }
    fn c14_best_first() {
        // two products; the more of the query a title has, the earlier it comes
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.title = "abcdefgh";
        b.title = "abcdeklmn";
        if flip() { std::mem::swap(&mut a, &mut b); }
        let mut other = Spec::new("p2");
        other.title = leak_str(letters(1, 8));
        load(&[other, a, b]);
        let (c, t) = handlers();
        let q = of(&["abcdefgh", "abcdekl", "abcdefg"]);
        match find(q, &c, &t, None, &nothing()) {
            Some(f) => check(f.len() == 2 && f[0] == (if q == "abcdekl" { "p1" } else { "p0" }), "the best match comes first"),
            None => check(false, "a search gives results"),
        }
    }
}
