//! C33: a search gives what is asked for now, whatever was asked before.
//! bound: every history of 2 steps (thorough: 3) and a search: a search for one of two texts by one of three orders with or without a price limit, a tag or an option switched, another index loaded
//! bound: the results of every search are handed out when it is made, or after everything else
//! outside: longer histories
use super::nd::*;
use super::world::*;
use indexer_lib::js_interactable::{CategoryHandler, ProductProducer, TagHandler};
use wasm_bindgen::JsValue;

const TITLES: [[&str; 4]; 2] = [["abcdef b", "abcdef a", "klmnop", "abcdef klmnop"], ["klmnop z", "abcdef", "klmnop", "klmnop k"]];
const PRICE: [&str; 4] = ["3", "7", "5", "1"];
const COST: [f64; 4] = [3.0, 7.0, 5.0, 1.0];
const IDS2: [[&str; 4]; 2] = [["a0", "a1", "a2", "a3"], ["b0", "b1", "b2", "b3"]];

fn bytes(k: usize) -> &'static Vec<u8> {
    let specs: Vec<Spec> = (0..4).map(|i| {
        let mut s = Spec::new(IDS2[k][i]);
        s.title = TITLES[k][i];
        s.price = PRICE[i];
        if i != 1 { s.tags = vec!["t"]; }
        if i != 0 { s.options = vec![("c", vec!["o"])]; }
        s
    }).collect();
    leak(written(&specs))
}
fn limit(max: f64) -> js_sys::Object {
    let r = js_sys::Object::literal(vec![("to".to_string(), JsValue::Number(max))]);
    js_sys::Object::literal(vec![("price".to_string(), JsValue::from(r))])
}
struct Asked { wanted: Vec<&'static str>, ordered: bool, results: ProductProducer }
fn judge(mut a: Asked) {
    let mut got: Vec<String> = vec![];
    while let Some(j) = a.results.next_product() { got.push(j.get_id()); }
    if !a.ordered { got.sort(); a.wanted.sort(); }
    check(got.len() == a.wanted.len() && got.iter().zip(a.wanted.iter()).all(|(g, w)| g == w), "a search gives what is asked for");
    observe(got.len() as u64);
}
fn ask(now: usize, tag: bool, opt: bool, c: &CategoryHandler, t: &TagHandler) -> Asked {
    let (q, order, cheap) = (of(&["abcdef", "klmnop"]), of(&[None, Some("Alphabetical"), Some("Price high to low")]), flip());
    let mut w: Vec<usize> = (0..4).filter(|i| TITLES[now][*i].contains(q) && (!tag || *i != 1) && (!opt || *i != 0) && (!cheap || COST[*i] <= 5.0)).collect();
    match order {
        Some("Alphabetical") => w.sort_by(|a, b| TITLES[now][*a].cmp(TITLES[now][*b])),
        Some(_) => w.sort_by(|a, b| COST[*b].partial_cmp(&COST[*a]).unwrap()),
        None => (),
    }
    let filter = if cheap { limit(5.0) } else { nothing() };
    match indexer_lib::search(q, c, t, order.map(|o| o.to_string()), &filter) {
        Some(results) => Asked { wanted: w.into_iter().map(|i| IDS2[now][i]).collect(), ordered: order.is_some(), results },
        None => { check(false, "a search gives results"); panic!() }
    }
}
fn history(steps: usize) {
    let all = [bytes(0), bytes(1)];
    let mut now = 0;
    check(indexer_lib::initialize(all[now]), "a written index can be loaded");
    let (mut c, mut t) = handlers();
    let (mut tag_on, mut opt_on) = (false, false);
    let mut open: Vec<Asked> = vec![];
    for _ in 0..steps {
        match pick(4) {
            0 => { let a = ask(now, tag_on, opt_on, &c, &t); if flip() { judge(a); } else { open.push(a); } }
            1 => { let g = tag(&t, "t").unwrap(); t.toggle(&g); tag_on = !tag_on; }
            2 => { let o = option(&c, "c", "o").unwrap(); c.toggle(&o); opt_on = !opt_on; }
            _ => {
                now = 1 - now;
                check(indexer_lib::initialize(all[now]), "a written index can be loaded");
                (c, t) = handlers();
                (tag_on, opt_on) = (false, false);
                cover("another index");
            }
        }
    }
    judge(ask(now, tag_on, opt_on, &c, &t));
    if open.len() > 1 { cover("several results are open"); }
    for a in open { judge(a); }
}

entries! {
    fn c33_histories() { history(2); }
    fn c33_longer_histories_thorough() { history(3); }
    fn c33_typing() {
        // a query typed letter by letter, and wiped out again
        check(indexer_lib::initialize(bytes(0)), "a written index can be loaded");
        let (c, t) = handlers();
        let q = of(&["abcdef b", "klmnop"]);
        let other = letters(1, 26);
        for n in (0..=q.len()).chain((0..q.len()).rev()) {
            let typed = &q[..n];
            let _ = find(&(typed.to_string() + &other), &c, &t, None, &nothing());
            match find(typed, &c, &t, None, &nothing()) {
                Some(f) => {
                    let wanted = if n < 5 { 0 } else if q == "klmnop" { 2 } else { 3 };
                    check(f.len() == wanted, "a search gives what is asked for");
                    if n == 8 { check(f[0] == "a0", "the best match comes first"); cover("typed"); }
                }
                None => check(false, "a search gives results"),
            }
        }
    }
}
