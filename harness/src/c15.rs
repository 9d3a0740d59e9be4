//! C15: category options can be listed, switched on and off, observed, and filter products.
//! bound: every history of 4 (thorough: 5) operations on three options: switch, add or remove an observer of an option (2 functions, one of which throws), add a general one (every other one throws)
//! bound: every membership of three products in three options, and every set of active options
//! bound: 300 options of 150 categories, one or half of them switched on
//! bound: 305 options, 300 of them of one category, any two of a dozen switched
//! outside: longer histories; observers that call back into the handler
use super::nd::*;
use super::world::*;
use indexer_lib::js_interactable::CategoryHandler;
use js_sys::Function;
use std::sync::Arc;

fn world() -> (&'static indexer_lib::data::ProductContainer<'static>, CategoryHandler) {
    let mut a = Spec::new("p0");
    a.options = vec![("c", vec!["o", "p"]), ("d", vec!["o"])];
    let (c, cl) = build(&[a, Spec::new("p1")]);
    (c, CategoryHandler::new(Arc::new(cl)))
}
fn history(steps: usize) {
    let (_, mut h) = world();
    let options: Vec<_> = all_options(&h).into_iter().flat_map(|c| c.1).collect();
    check(options.len() == 3, "every option is listed");
    let mut on = [false; 3];
    let mut listeners: [Vec<u32>; 3] = [vec![], vec![], vec![]];
    let mut general: Vec<u32> = vec![];
    js_sys::clear_calls();
    let mut wanted: Vec<(u32, Option<bool>)> = vec![];
    for _ in 0..steps {
        match pick(4) {
            0 => {
                let k = pick(3);
                on[k] = !on[k];
                let before = js_sys::calls().len();
                h.toggle(&options[k]);
                // each observer is told once, those of the option before the general ones
                let calls = &js_sys::calls()[before..];
                check(calls.len() == listeners[k].len() + general.len(), "every observer is told, and no other");
                let n = listeners[k].len();
                for f in [1, js_sys::THROWING] {
                    check(calls[..n].iter().filter(|c| c.0 == f).count() == listeners[k].iter().filter(|l| **l == f).count(), "an option's observers are told first");
                }
                for (c, g) in calls[n..].iter().zip(general.iter()) { check(c.0 == *g, "general observers are told in turn"); }
                if calls.iter().any(|c| c.0 >= js_sys::THROWING) { cover("an observer throws"); }
                for c in calls { check(c.1 == Some(on[k]), "observers are told the new state"); wanted.push(*c); }
                if !calls.is_empty() { cover("an observer is told"); }
            }
            1 => {
                let (k, f) = (pick(3), of(&[1, js_sys::THROWING]));
                h.add_option_lister(&options[k], Function::with_id(f));
                listeners[k].push(f);
            }
            2 => {
                let (k, f) = (pick(3), of(&[1, js_sys::THROWING]));
                h.remove_option_listener(&options[k], &Function::with_id(f));
                if let Some(at) = listeners[k].iter().position(|l| *l == f) {
                    listeners[k].remove(at);
                    cover("an observer is removed");
                }
            }
            _ => {
                let f = general.len() as u32 + if general.len() % 2 == 0 { js_sys::THROWING + 1 } else { 3 };
                h.add_general_observer(Function::with_id(f));
                general.push(f);
            }
        }
        for k in 0..3 { check(h.get_status(&options[k]) == on[k], "an option is on after an odd number of switches"); }
    }
    check(js_sys::calls().len() == wanted.len(), "observers are told of switches only");
    observe(wanted.len() as u64);
}

entries! {
    fn c15_hundreds() {
        // 150 categories of two options, three products
        let names = numbered("c", 150);
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.options = names.iter().enumerate().map(|(k, n)| (*n, if i == k % 3 { vec!["x", *n] } else { vec!["x"] })).collect(); s }).collect();
        let (c, cl) = build(&specs);
        let mut h = CategoryHandler::new(Arc::new(cl));
        let all = all_options(&h);
        check(all.len() == 150 && all.iter().all(|c| c.1.len() == 2), "every category and option is listed");
        let flat: Vec<_> = all.into_iter().flat_map(|(n, o)| o.into_iter().map(move |o| (n.clone(), o))).collect();
        let at = of(&[0usize, 63, 64, 126, 127, 128, 129, 199, 254, 255, 256, 257, 298, 299]);
        let every = flip();
        h.add_option_lister(&flat[at].1, Function::with_id(1));
        if every { for (n, o) in &flat { if o.get_name() == "x" && *n != flat[at].0 { h.toggle(o); } } }
        check(js_sys::calls().is_empty(), "nobody else is told");
        h.toggle(&flat[at].1);
        check(*js_sys::calls() == [(1, Some(true))], "an option's observer is told");
        for (k, (n, o)) in flat.iter().enumerate() {
            let on = k == at || every && o.get_name() == "x" && *n != flat[at].0;
            check(h.get_status(o) == on, "an option is on after an odd number of switches");
        }
        let of_all = flat[at].1.get_name() == "x";
        let k: usize = flat[at].0[1..].parse().unwrap();
        for i in 0..3 { check(h.is_valid(&c.products[i]) == (of_all || i == k % 3), "products pass that have every active option"); }
        if every { cover("hundreds of options, half of them on"); }
    }
    fn c15_hundreds_of_one_category() {
        let names = numbered("o", 300);
        let mut s = Spec::new("p0");
        s.options = vec![("c", names.clone()), ("d", names[..5].to_vec())];
        let (_, cl) = build(&[s, Spec::new("p1")]);
        let mut h = CategoryHandler::new(Arc::new(cl));
        let all: Vec<_> = all_options(&h).into_iter().flat_map(|c| c.1).collect();
        check(all.len() == 305, "every option is listed");
        let which = [0usize, 1, 43, 127, 128, 129, 255, 256, 257, 299, 300, 301];
        let (a, b) = (of(&which), of(&which));
        h.add_option_lister(&all[a], Function::with_id(1));
        h.toggle(&all[a]);
        h.toggle(&all[b]);
        check(js_sys::calls().len() == if a == b { 2 } else { 1 }, "an option's observer is told");
        for (k, o) in all.iter().enumerate() { check(h.get_status(o) == ((k == a) != (k == b)), "an option is on after an odd number of switches"); }
        cover("hundreds of options of a category");
    }
    fn c15_histories() { history(4); }
    fn c15_longer_histories_thorough() { history(5); }
    fn c15_switches() {
        // many switches, no observers: which are on is what decides
        let (c, mut h) = world();
        let options: Vec<_> = all_options(&h).into_iter().flat_map(|c| c.1).collect();
        let mut on = [false; 3];
        for _ in 0..6 {
            let k = pick(3);
            h.toggle(&options[k]);
            on[k] = !on[k];
        }
        for k in 0..3 { check(h.get_status(&options[k]) == on[k], "an option is on after an odd number of switches"); }
        check(h.is_valid(&c.products[0]), "a product of every option always passes");
        check(h.is_valid(&c.products[1]) == !on.contains(&true), "a product of no option passes when none is on");
    }
    fn c15_filters() {
        map_order();
        const OF: [(&str, &str); 3] = [("c", "o"), ("c", "p"), ("d", "o")];
        let has: Vec<bool> = (0..9).map(|_| flip()).collect();
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(IDS[i]);
            for k in 0..3 { if has[i * 3 + k] { s.options.push((OF[k].0, vec![OF[k].1])); } }
            s
        }).collect();
        let (c, cl) = build(&specs);
        let mut h = CategoryHandler::new(Arc::new(cl));
        let mut on = [false; 3];
        for k in 0..3 {
            match option(&h, OF[k].0, OF[k].1) {
                Some(o) => {
                    check((0..3).any(|i| has[i * 3 + k]), "only options of products are listed");
                    if flip() { h.toggle(&o); on[k] = true; }
                }
                None => check((0..3).all(|i| !has[i * 3 + k]), "every option is listed"),
            }
        }
        for i in 0..3 {
            let wanted = (0..3).all(|k| !on[k] || has[i * 3 + k]);
            check(h.is_valid(&c.products[i]) == wanted, "products pass that have every active option");
        }
        if on == [true; 3] { cover("every option is active"); }
    }
    fn c15_listing() {
        // symbolic names: one category and option per distinct name
        let names: Vec<&'static str> = (0..4).map(|_| leak_str(ascii(1))).collect();
        let mut a = Spec::new("p0");
        a.options = vec![(names[0], vec![names[2]])];
        let mut b = Spec::new("p1");
        b.options = vec![(names[1], vec![names[3]])];
        let (_, cl) = build(&[a, b]);
        let h = CategoryHandler::new(Arc::new(cl));
        let all = all_options(&h);
        if names[0] == names[1] {
            check(all.len() == 1 && all[0].0 == names[0], "a category is listed once");
            check(all[0].1.len() == if names[2] == names[3] { 1 } else { 2 }, "an option is listed once");
            cover("one category");
        } else {
            check(all.len() == 2 && all.iter().all(|c| c.1.len() == 1), "every category is listed");
            check(option(&h, names[0], names[2]).is_some() && option(&h, names[1], names[3]).is_some(), "options are listed in their category");
            cover("two categories");
        }
    }
}
