//! C31: whatever loading accepts can be used.
//! bound: an index of three products with any one byte replaced; three products that all match, with orders of another catalogue of 0 to 4 products
//! bound: three products with features of 0 to 4 products, of each type, options and tags of none, one or all, with and without orders
//! bound: 24 and 40 products, a third of which share an arbitrary 32 bit weight (NaN included); every root and branch weight arbitrary in a small tree
//! bound: after loading: all lists, a search by every order and none, with tags, options and a price range switched on, all results and suggestions
//! outside: larger indexes; more than one byte replaced at a time
use super::nd::*;
use super::world::*;
use ahash::AHashMap;
use indexer_lib::classic_indexes::{Category, CategoryIndex, CategoryOption, ClassicIndexes, OrderIndex, TagIndex};
use indexer_lib::data::{FeatureSet, Product};
use indexer_lib::ngram::{GramIndex, GramNode};
use indexer_lib::serialize::{serialize_all, Serializable};
use wasm_bindgen::JsValue;

/// Uses everything there is.
fn use_all(queries: &[&str]) {
    let (mut c, mut t) = handlers();
    let orders = match indexer_lib::get_orders() { Some(o) => o, None => { check(false, "a loaded index has orders"); return } };
    let mut names: Vec<Option<String>> = orders.into_iter().map(|o| o.as_string()).collect();
    names.push(None);
    let range = JsValue::from(js_sys::Object::literal(vec![("to".to_string(), JsValue::Number(1e9))]));
    let filter = js_sys::Object::literal(vec![("price".to_string(), range)]);
    let empty = nothing();
    let mut found = 0;
    for round in 0..2 {
        if round == 1 {
            for (_, o) in all_options(&c) { for o in o { c.toggle(&o); check(c.get_status(&o), "options can be switched on"); } }
            for g in all_tags(&t) {
                t.toggle(&g);
                check(t.get_status(&g), "tags can be switched on");
                check(std::str::from_utf8(g.get_name().as_bytes()).is_ok(), "names are texts");
            }
        }
        for q in queries {
            for order in &names {
                match indexer_lib::search(q, &c, &t, order.clone(), if round == 1 { &filter } else { &empty }) {
                    Some(mut p) => while let Some(j) = p.next_product() {
                        found += 1;
                        let _ = (j.numeric_feature("price"), j.string_feature("image_url"));
                        for text in [j.get_id(), j.get_title(), j.get_description()] { check(std::str::from_utf8(text.as_bytes()).is_ok(), "texts are texts"); }
                    },
                    None => check(false, "a known order gives results"),
                }
            }
            if let Some(s) = indexer_lib::tag_suggestion(q) { let _ = (s.get_input(), s.get_tag().get_name()); }
        }
    }
    if found > 0 { cover("something is found"); }
    observe(found as u64);
}

entries! {
    fn c31_one_byte_changed() {
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(IDS[i]);
            s.title = ["abcde", "abcde", "z"][i];
            s.vendor = "";
            if i == 0 { s.tags = vec!["abcd"]; s.options = vec![("c", vec!["o"])]; }
            s
        }).collect();
        let mut b = given_bytes(written(&specs));
        let at = pick(b.len());
        b[at] = byte();
        if indexer_lib::initialize(leak(b)) {
            cover("a changed index loads");
            use_all(&["abcde"]);
        } else { cover("a changed index is refused"); }
    }
    fn c31_orders_of_another_catalogue() {
        let n = pick(5);
        let few: Vec<Spec> = (0..n).map(|i| { let mut s = Spec::new(IDS[i]); s.price = ["3", "1", "2", "1"][i]; s }).collect();
        let many: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.title = ["b", "a", "c"][i]; s }).collect();
        let ((c, _), (_, other)) = (build(&many), build(&few));
        let texts: Vec<Vec<char>> = ["abcde", "abcdef", "xyz"].iter().map(|t| t.chars().collect()).collect();
        let ix = index::<char, 5>(c, &texts);
        if !indexer_lib::initialize(leak(serialize_all(&ix, &other))) { return; }
        if n < 3 { cover("an order leaves products out"); }
        use_all(&["abcde"]);
    }
    fn c31_parts_missing() {
        // features of fewer or more products than there are, or of another type;
        // options and tags of no product
        let mut f = FeatureSet::new_empty();
        let (prices, kind, images) = (pick(5), pick(3), of(&[0usize, 2, 3]));
        for i in 0..prices { match kind { 0 => f.add_float("price", i as f32), 1 => f.add_int("price", i as u32), _ => f.add_string("price", "x".to_string()) } }
        for _ in 0..images { f.add_string("image_url", "u".to_string()); }
        let c = plain_with(3, &f);
        let option = |k: usize, of: usize| {
            let mut o = CategoryOption::new(["o", "", "p", "q"][k].to_string(), k);
            for i in 0..3 { if of >> i & 1 == 1 { o.add(&c.products[i]); } }
            o
        };
        let of = [0, 7, 2];
        let mut categories: Vec<Category> = ["c", "", "e"].iter().map(|n| Category::new(n.to_string())).collect();
        categories[0].exclusive = flip();
        let (x, y) = (pick(3), pick(3));
        categories[0].options = vec![option(0, of[x]), option(1, of[y])];
        categories[2].options = vec![option(2, of[y])];
        let mut b = vec![];
        2usize.serialize(&mut |x| b.push(x));
        for (name, of) in [("", of[x]), ("abcd", of[y])] {
            name.to_string().serialize(&mut |x| b.push(x));
            let has: Vec<&Product> = (0..3).filter(|i| of >> i & 1 == 1).map(|i| &c.products[i]).collect();
            Product::serialize_to_sequential_array(&has, &mut |x| b.push(x));
        }
        let tags = match TagIndex::deserialize(leak(b), &c.products) { Some((_, t)) => t, None => { check(false, "tags can be read"); return } };
        let mut orders = OrderIndex::new();
        if flip() { orders.add(c, &|p: &Product, _: &FeatureSet| p.serialization_id, "o".to_string()); }
        let cl = ClassicIndexes::new(CategoryIndex(categories), tags, orders);
        let texts: Vec<Vec<char>> = ["abcde", "abcdx", "z"].iter().map(|t| t.chars().collect()).collect();
        let mut ix = index::<char, 5>(c, &texts);
        ix.data.insert(['a', 'b', 'c', 'd', 'x'], vec![]);
        if !indexer_lib::initialize(leak(serialize_all(&ix, &cl))) { return; }
        if prices < 3 { cover("prices of some products only"); }
        if x == 0 && y == 0 { cover("options of nothing"); }
        for p in &c.products { for key in ["price", "image_url", "none"] { check(c.extra_features.get(p, key).is_some() == c.extra_features.get_js(p, key).is_some(), "a feature is there or not"); } }
        use_all(&["abcde", "abcdx"]);
    }
    fn c31_any_weight() {
        // every product is found by a first symbol of its own
        let n = of(&[24usize, 40]);
        let w = f32::from_bits(bits(32) as u32);
        let third = pick(3);
        let (c, cl) = build(&hundreds(n, |_, _| ()));
        let mut ix: GramIndex<'static, char, Product<'static>, 5> = index::<char, 5>(c, &[]);
        let first = |i: usize| char::from_u32(0x4e00 + i as u32).unwrap();
        let node = |item: char, weight: f32, next: Option<&'static GramNode<'static, char>>| -> &'static GramNode<'static, char> {
            let mut items = AHashMap::new();
            if let Some(n) = next { items.insert(n.item, n); }
            leak(GramNode { item, weight, by_occurances: next.into_iter().collect(), items })
        };
        for i in 0..n {
            let weight = if i % 3 == third { w } else { ((i * 7) % 23) as f32 };
            let tail = node('x', 1.0, Some(node('x', 1.0, Some(node('x', 1.0, None)))));
            ix.roots.insert(first(i), node(first(i), 1.0, Some(node('x', weight, Some(tail)))));
            ix.data.insert([first(i), 'x', 'x', 'x', 'x'], vec![&c.products[i]]);
        }
        let query: String = (0..n).flat_map(|i| [first(i), 'x', 'x', 'x', 'x']).collect();
        if !indexer_lib::initialize(leak(serialize_all(&ix, &cl))) { return; }
        let (ch, th) = handlers();
        match find(&query, &ch, &th, None, &nothing()) {
            Some(f) => {
                check(f.len() == n, "every match is found");
                if w.is_nan() { cover("a weight that is no number"); }
            }
            None => check(false, "a search gives results"),
        }
    }
    fn c31_any_weights_of_a_tree() {
        let w: Vec<f32> = (0..3).map(|_| f32::from_bits(bits(32) as u32)).collect();
        let specs: Vec<Spec> = (0..3).map(|i| Spec::new(IDS[i])).collect();
        let (c, cl) = build(&specs);
        let mut ix = index::<char, 5>(c, &[]);
        let node = |item: char, weight: f32, next: Vec<&'static GramNode<'static, char>>| -> &'static GramNode<'static, char> {
            let items = next.iter().map(|n| (n.item, *n)).collect();
            leak(GramNode { item, weight, by_occurances: next, items })
        };
        let tail = |k: usize| node('c', w[k], vec![node('d', 1.0, vec![node('e', 0.5, vec![])])]);
        ix.roots.insert('a', node('a', w[2], vec![node('b', w[1], vec![tail(0)]), node('x', 0.5, vec![tail(2)])]));
        ix.data.insert(['a', 'b', 'c', 'd', 'e'], vec![&c.products[0], &c.products[1]]);
        ix.data.insert(['a', 'x', 'c', 'd', 'e'], vec![&c.products[2], &c.products[0]]);
        if !indexer_lib::initialize(leak(serialize_all(&ix, &cl))) { return; }
        use_all(&["abcde", "acdef", "aycde"]);
    }
}
