//! C16: tags can be listed, switched on and off, observed, and filter products.
//! bound: every history of 4 (thorough: 5) operations on three tags: switch, add or remove an observer of a tag (2 functions, one of which throws), add a general one (every other one throws)
//! bound: every membership of three products in three tags, and every set of active tags
//! bound: 300 tags, one or half of them switched on; 20 unusual names
//! outside: longer histories; observers that call back into the handler
use super::nd::*;
use super::world::*;
use indexer_lib::js_interactable::TagHandler;
use js_sys::Function;
use std::sync::Arc;

fn world() -> (&'static indexer_lib::data::ProductContainer<'static>, TagHandler) {
    let mut a = Spec::new("p0");
    a.tags = vec!["t", "u", "tag"];
    let (c, cl) = build(&[a, Spec::new("p1")]);
    (c, TagHandler::new(Arc::new(cl)))
}
fn history(steps: usize) {
    let (_, mut h) = world();
    let tags = all_tags(&h);
    check(tags.len() == 3, "every tag is listed");
    let mut on = [false; 3];
    let mut listeners: [Vec<u32>; 3] = [vec![], vec![], vec![]];
    let mut general: Vec<u32> = vec![];
    js_sys::clear_calls();
    let mut wanted: Vec<(u32, Option<bool>)> = vec![];
    for _ in 0..steps {
        match pick(4) {
            0 => {
                let k = pick(3);
                on[k] = !on[k];
                let before = js_sys::calls().len();
                h.toggle(&tags[k]);
                // each observer is told once, those of the tag before the general ones
                let calls = &js_sys::calls()[before..];
                check(calls.len() == listeners[k].len() + general.len(), "every observer is told, and no other");
                let n = listeners[k].len();
                for f in [1, js_sys::THROWING] {
                    check(calls[..n].iter().filter(|c| c.0 == f).count() == listeners[k].iter().filter(|l| **l == f).count(), "a tag's observers are told first");
                }
                for (c, g) in calls[n..].iter().zip(general.iter()) { check(c.0 == *g, "general observers are told in turn"); }
                if calls.iter().any(|c| c.0 >= js_sys::THROWING) { cover("an observer throws"); }
                for c in calls { check(c.1 == Some(on[k]), "observers are told the new state"); wanted.push(*c); }
                if !calls.is_empty() { cover("an observer is told"); }
            }
            1 => {
                let (k, f) = (pick(3), of(&[1, js_sys::THROWING]));
                h.add_tag_lister(&tags[k], Function::with_id(f));
                listeners[k].push(f);
            }
            2 => {
                let (k, f) = (pick(3), of(&[1, js_sys::THROWING]));
                h.remove_tag_listener(&tags[k], &Function::with_id(f));
                if let Some(at) = listeners[k].iter().position(|l| *l == f) {
                    listeners[k].remove(at);
                    cover("an observer is removed");
                }
            }
            _ => {
                let f = general.len() as u32 + if general.len() % 2 == 0 { js_sys::THROWING + 1 } else { 3 };
                h.add_general_observer(Function::with_id(f));
                general.push(f);
            }
        }
        for k in 0..3 { check(h.get_status(&tags[k]) == on[k], "a tag is on after an odd number of switches"); }
    }
    check(js_sys::calls().len() == wanted.len(), "observers are told of switches only");
    observe(wanted.len() as u64);
}

entries! {
    fn c16_hundreds() {
        let names = numbered("t", 300);
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.tags = (0..300).filter(|k| i == k % 3 || k % 2 == 0).map(|k| names[k]).collect(); s }).collect();
        let (c, cl) = build(&specs);
        let mut h = TagHandler::new(Arc::new(cl));
        let all = all_tags(&h);
        check(all.len() == 300, "every tag is listed");
        let at = of(&[0usize, 63, 64, 126, 127, 128, 129, 199, 254, 255, 256, 257, 298, 299]);
        let number = |k: usize| all[k].get_name()[1..].parse::<usize>().unwrap();
        let every = flip();
        h.add_tag_lister(&all[at], Function::with_id(1));
        if every { for k in 0..300 { if number(k) % 2 == 0 && k != at { h.toggle(&all[k]); } } }
        check(js_sys::calls().is_empty(), "nobody else is told");
        h.toggle(&all[at]);
        check(*js_sys::calls() == [(1, Some(true))], "a tag's observer is told");
        for k in 0..300 { check(h.get_status(&all[k]) == (k == at || every && number(k) % 2 == 0), "a tag is on after an odd number of switches"); }
        let n = number(at);
        for i in 0..3 { check(h.is_valid(&c.products[i]) == (i == n % 3 || n % 2 == 0), "products pass that have every active tag"); }
        if every { cover("hundreds of tags, half of them on"); }
    }
    fn c16_unusual() {
        let n = unusual();
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.tags = vec![n, "b"];
        b.tags = vec!["b"];
        let (c, cl) = build(&[a, b]);
        let mut h = TagHandler::new(Arc::new(cl));
        check(all_tags(&h).len() == 2, "every tag is listed");
        match tag(&h, n) {
            Some(t) => {
                h.toggle(&t);
                check(h.get_status(&t), "a tag is on after an odd number of switches");
            }
            None => check(false, "every tag is listed"),
        }
        check(h.is_valid(&c.products[0]) && !h.is_valid(&c.products[1]), "products pass that have every active tag");
        cover("unusual names");
    }
    fn c16_histories() { history(4); }
    fn c16_longer_histories_thorough() { history(5); }
    fn c16_switches() {
        let (c, mut h) = world();
        let tags = all_tags(&h);
        let mut on = [false; 3];
        for _ in 0..6 {
            let k = pick(3);
            h.toggle(&tags[k]);
            on[k] = !on[k];
        }
        for k in 0..3 { check(h.get_status(&tags[k]) == on[k], "a tag is on after an odd number of switches"); }
        check(h.is_valid(&c.products[0]), "a product of every tag always passes");
        check(h.is_valid(&c.products[1]) == !on.contains(&true), "a product of no tag passes when none is on");
    }
    fn c16_filters() {
        map_order();
        const OF: [&str; 3] = ["t", "tt", "u"];
        let has: Vec<bool> = (0..9).map(|_| flip()).collect();
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(IDS[i]);
            for k in 0..3 { if has[i * 3 + k] { s.tags.push(OF[k]); } }
            s
        }).collect();
        let (c, cl) = build(&specs);
        let mut h = TagHandler::new(Arc::new(cl));
        let mut on = [false; 3];
        for k in 0..3 {
            match tag(&h, OF[k]) {
                Some(o) => {
                    check((0..3).any(|i| has[i * 3 + k]), "only tags of products are listed");
                    if flip() { h.toggle(&o); on[k] = true; }
                }
                None => check((0..3).all(|i| !has[i * 3 + k]), "every tag is listed"),
            }
        }
        for i in 0..3 {
            let wanted = (0..3).all(|k| !on[k] || has[i * 3 + k]);
            check(h.is_valid(&c.products[i]) == wanted, "products pass that have every active tag");
        }
        if on == [true; 3] { cover("every tag is active"); }
    }
    fn c16_listing() {
        // symbolic names: one tag per distinct name
        map_order();
        let names: Vec<&'static str> = (0..3).map(|_| leak_str(ascii(1))).collect();
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.tags = vec![names[0], names[1]];
        b.tags = vec![names[2]];
        let (_, cl) = build(&[a, b]);
        let h = TagHandler::new(Arc::new(cl));
        let all = all_tags(&h);
        let distinct = (0..3).filter(|i| (0..*i).all(|j| names[j] != names[*i])).count();
        check(all.len() == distinct, "a tag is listed once");
        for n in &names { check(all.iter().filter(|t| t.get_name() == *n).count() == 1, "every tag is listed once"); }
        for (i, t) in all.iter().enumerate() { check(t.get_id() == i, "tags are numbered in turn"); }
        if distinct == 1 { cover("one tag"); }
        if distinct == 3 { cover("three tags"); }
    }
}
