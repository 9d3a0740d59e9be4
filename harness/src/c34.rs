//! C34: handlers are independent of each other, and of the handlers of the other kind.
//! bound: every history of 3 (thorough: 4) operations on two handlers of each kind: switch either of two tags or options (of one category or of two), observe one, stop observing it
//! bound: the same with the second handlers fetched after the same index was loaded again
//! bound: tags and options fetched from one handler and given to the other
//! outside: longer histories; more handlers
use super::nd::*;
use super::world::*;
use js_sys::Function;

struct One { on: [bool; 2], heard: [usize; 2] }

fn shop() -> &'static Vec<u8> {
    let (mut a, mut b, mut z) = (Spec::new("p0"), Spec::new("p1"), Spec::new("p2"));
    a.title = "abcdef";
    a.tags = vec!["t"];
    a.options = vec![("c", vec!["o"])];
    b.title = "abcdef";
    b.tags = vec!["t", "u"];
    b.options = vec![("c", vec!["o", "p"]), ("d", vec!["p"])];
    z.title = "zzzzz";
    load(&[z, a, b])
}
fn history(steps: usize, reloaded: bool) {
    let index = shop();
    let (mut c0, mut t0) = handlers();
    let (mut c1, mut t1) = handlers();
    // whose tags and options these are does not matter
    let tags = [tag(&t0, "t").unwrap(), tag(&t1, "u").unwrap()];
    // two of one category, or the first of two categories
    let options = [option(&c1, "c", "o").unwrap(), option(&c0, of(&["c", "d"]), "p").unwrap()];
    if reloaded {
        // the same index again: tags and options of before are as good
        check(indexer_lib::initialize(index), "an index can be loaded again");
        (c1, t1) = handlers();
    }
    let mut model: [[One; 2]; 2] = std::array::from_fn(|_| std::array::from_fn(|_| One { on: [false; 2], heard: [0; 2] }));
    js_sys::clear_calls();
    for _ in 0..steps {
        let (kind, who, k) = (pick(2), pick(2), pick(2));
        // every observer has its own identity
        let id = 1 + (kind * 4 + who * 2 + k) as u32;
        let m = &mut model[kind][who];
        match pick(3) {
            0 => {
                let before = js_sys::calls().len();
                match (kind, who) {
                    (0, 0) => t0.toggle(&tags[k]),
                    (0, _) => t1.toggle(&tags[k]),
                    (_, 0) => c0.toggle(&options[k]),
                    _ => c1.toggle(&options[k]),
                }
                m.on[k] = !m.on[k];
                let calls = &js_sys::calls()[before..];
                check(calls.len() == m.heard[k], "the observers of this handler are told, and no others");
                for c in calls { check(*c == (id, Some(m.on[k])), "the observers of this handler are told its state"); cover("an observer is told"); }
            }
            1 => {
                let f = Function::with_id(id);
                match (kind, who) {
                    (0, 0) => t0.add_tag_lister(&tags[k], f),
                    (0, _) => t1.add_tag_lister(&tags[k], f),
                    (_, 0) => c0.add_option_lister(&options[k], f),
                    _ => c1.add_option_lister(&options[k], f),
                }
                m.heard[k] += 1;
            }
            _ => {
                let f = Function::with_id(id);
                match (kind, who) {
                    (0, 0) => t0.remove_tag_listener(&tags[k], &f),
                    (0, _) => t1.remove_tag_listener(&tags[k], &f),
                    (_, 0) => c0.remove_option_listener(&options[k], &f),
                    _ => c1.remove_option_listener(&options[k], &f),
                }
                m.heard[k] = m.heard[k].saturating_sub(1);
            }
        }
    }
    for k in 0..2 {
        check(t0.get_status(&tags[k]) == model[0][0].on[k] && t1.get_status(&tags[k]) == model[0][1].on[k], "each handler of tags has its own state");
        check(c0.get_status(&options[k]) == model[1][0].on[k] && c1.get_status(&options[k]) == model[1][1].on[k], "each handler of categories has its own state");
    }
    // every pair of handlers filters by its own state
    for a in 0..2 { for b in 0..2 {
        let strict = model[0][a].on[1] || model[1][b].on[1];
        match find("abcdef", [&c0, &c1][b], [&t0, &t1][a], Some("Alphabetical"), &nothing()) {
            Some(f) => check(if strict { f == ["p1"] } else { f == ["p0", "p1"] }, "a search is filtered by the handlers it is given"),
            None => check(false, "a search gives results"),
        }
    } }
    observe(js_sys::calls().len() as u64);
}

entries! {
    fn c34_histories() { history(3, false); }
    fn c34_histories_over_a_reload() { history(3, true); }
    fn c34_longer_histories_thorough() { history(4, false); }
    fn c34_fresh() {
        // handlers fetched later start from nothing
        shop();
        let (mut c, mut t) = handlers();
        let (tags, opt) = (tag(&t, "u").unwrap(), option(&c, "c", "p").unwrap());
        let (x, y) = (flip(), flip());
        if x { t.toggle(&tags); }
        if y { c.toggle(&opt); }
        if flip() { t.add_general_observer(Function::with_id(1)); c.add_general_observer(Function::with_id(2)); }
        if flip() { drop(t); drop(c); cover("the first are gone"); }
        js_sys::clear_calls();
        let (mut c2, mut t2) = handlers();
        check(!t2.get_status(&tags) && !c2.get_status(&opt), "a new handler starts with nothing switched on");
        let found = find("abcdef", &c2, &t2, None, &nothing());
        check(found.map(|f| f.len()) == Some(2), "a new handler filters nothing");
        t2.toggle(&tags);
        c2.toggle(&opt);
        check(js_sys::calls().is_empty(), "a new handler has no observers");
        check(t2.get_status(&tags) && c2.get_status(&opt), "switches work on tags fetched earlier");
    }
}
