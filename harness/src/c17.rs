//! C17: every order ranks all products by its key, equal ones as they were listed.
//! bound: five products with arbitrary 32 bit keys; four with arbitrary numbers that are not NaN; own comparisons
//! bound: 20, 21, 24, 50 and 64 products, three of them with arbitrary keys; catalogues of four with arbitrary titles of up to 2 bytes and prices out of five
//! bound: 100, 255, 256, 257 and 300 products, one of them with an arbitrary key below 120
//! outside: prices that are not numbers; more products with arbitrary keys
use super::nd::*;
use super::world::*;
use indexer_lib::classic_indexes::OrderIndex;
use indexer_lib::data::{Product, ProductContainer};
use std::cmp::Ordering;

/// That `at[i]` is the place of product i when sorted by `cmp`.
fn sorted(at: Option<&Vec<usize>>, n: usize, cmp: &dyn Fn(usize, usize) -> Ordering) {
    let at = match at { Some(a) => a, None => { check(false, "an order that was added is found"); return } };
    check(at.len() == n, "every product has a place");
    for i in 0..n {
        check(at[i] < n, "places are within the catalogue");
        for j in 0..i {
            check(at[i] != at[j], "no two products share a place");
            match cmp(j, i) {
                Ordering::Less | Ordering::Equal => check(at[j] < at[i], "products come in order, equal ones as listed"),
                Ordering::Greater => check(at[i] < at[j], "products come in order"),
            }
        }
    }
    for a in at { observe(*a as u64); }
}
fn numbers<T: PartialOrd + Copy + 'static>(keys: &'static [T], reverse: bool) {
    let c: &'static ProductContainer<'static> = plain(keys.len());
    let mut o = OrderIndex::new();
    let maker: &'static dyn Fn(&'static Product, &'static indexer_lib::data::FeatureSet) -> T = leak(move |p: &'static Product, _: &'static indexer_lib::data::FeatureSet| keys[p.serialization_id]);
    if reverse {
        let cmp: &'static dyn Fn(&T, &T) -> Ordering = leak(|a: &T, b: &T| b.partial_cmp(a).unwrap_or(Ordering::Equal));
        o.add_custom_cmp(c, maker, cmp, "k".to_string());
        sorted(o.get_orders("k"), keys.len(), &|i, j| keys[j].partial_cmp(&keys[i]).unwrap());
    } else {
        o.add(c, maker, "k".to_string());
        sorted(o.get_orders("k"), keys.len(), &|i, j| keys[i].partial_cmp(&keys[j]).unwrap());
    }
    check(o.get_orders("other").is_none(), "no other order is found");
    check(o.options().count() == 1, "one order is listed");
}

entries! {
    fn c17_hundreds() {
        let n = of(&[100usize, 255, 256, 257, 300]);
        let mut keys: Vec<u32> = (0..n).map(|i| ((i * 7) % 101) as u32).collect();
        keys[of(&[0, n - 1])] = below(120) as u32;
        let keys: &'static Vec<u32> = leak(keys);
        let c: &'static ProductContainer<'static> = plain(n);
        let mut o: OrderIndex = OrderIndex::new();
        let maker: &'static dyn Fn(&'static Product, &'static indexer_lib::data::FeatureSet) -> u32 = leak(move |p: &'static Product, _: &'static indexer_lib::data::FeatureSet| keys[p.serialization_id]);
        o.add(c, maker, "k".to_string());
        let at = match o.get_orders("k") { Some(a) => a, None => { check(false, "an order that was added is found"); return } };
        check(at.len() == n, "every product has a place");
        let mut who = vec![n; n];
        for i in 0..n {
            check(at[i] < n && who[at[i]] == n, "every product has a place of its own");
            who[at[i]] = i;
        }
        for w in who.windows(2) { check(keys[w[0]] < keys[w[1]] || keys[w[0]] == keys[w[1]] && w[0] < w[1], "products come in order, equal ones as listed"); }
        cover("hundreds of products");
    }
    fn c17_integers() {
        let keys: Vec<u32> = (0..5).map(|_| bits(32) as u32).collect();
        numbers(leak(keys), false);
    }
    fn c17_integers_reversed() {
        let keys: Vec<u32> = (0..4).map(|_| bits(32) as u32).collect();
        numbers(leak(keys), true);
    }
    fn c17_floats() {
        let keys: Vec<f32> = (0..3).map(|_| f32::from_bits(bits(32) as u32)).collect();
        for k in &keys { assume(!k.is_nan()); }
        numbers(leak(keys), flip());
    }
    fn c17_many() {
        let n = of(&[20usize, 21, 24, 50, 64]);
        let mut keys: Vec<u32> = (0..n).map(|i| ((i * 7) % 11) as u32).collect();
        for at in [0, n / 2, n - 1] { keys[at] = below(12) as u32; }
        numbers(leak(keys), flip());
    }
    fn c17_catalogue() {
        const PRICES: [(&str, f32); 5] = [("9", 9.0), ("10", 10.0), ("10.25", 10.25), ("-1", -1.0), ("1e3", 1000.0)];
        let price: Vec<usize> = (0..3).map(|_| pick(5)).collect();
        let title: Vec<&'static str> = vec!["m", "B", "m"];
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.title = title[i]; s.price = PRICES[price[i]].0; s }).collect();
        let (_, cl) = build(&specs);
        sorted(cl.order.get_orders("Alphabetical"), 3, &|i, j| title[i].cmp(title[j]));
        let p = |i: usize| PRICES[price[i]].1;
        sorted(cl.order.get_orders("Price low to high"), 3, &|i, j| p(i).partial_cmp(&p(j)).unwrap());
        sorted(cl.order.get_orders("Price high to low"), 3, &|i, j| p(j).partial_cmp(&p(i)).unwrap());
        let mut names: Vec<&str> = cl.order.options().collect();
        names.sort();
        check(names == ["Alphabetical", "Price high to low", "Price low to high"], "there are three orders");
    }
    fn c17_titles() {
        let title: Vec<&'static str> = vec![leak_str(ascii(2)), leak_str(ascii(range(0, 2))), leak_str(ascii(1)), "m"];
        let specs: Vec<Spec> = (0..4).map(|i| { let mut s = Spec::new(IDS[i]); s.title = title[i]; s }).collect();
        let (_, cl) = build(&specs);
        sorted(cl.order.get_orders("Alphabetical"), 4, &|i, j| title[i].as_bytes().cmp(title[j].as_bytes()));
        cover("titles");
    }
    fn c17_listed_after_loading() {
        let price: Vec<usize> = (0..3).map(|_| pick(2)).collect();
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.title = ["b", "a", "c"][i]; s.price = ["2", "1"][price[i]]; s }).collect();
        load(&specs);
        let mut names: Vec<String> = match indexer_lib::get_orders() {
            Some(o) => o.into_iter().map(|j| j.as_string().unwrap_or_default()).collect(),
            None => { check(false, "a loaded index has orders"); return }
        };
        names.sort();
        check(names == ["Alphabetical", "Price high to low", "Price low to high"], "a loaded index lists its orders");
    }
}
