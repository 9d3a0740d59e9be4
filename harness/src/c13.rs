//! C13: loading another index replaces the first for new queries, and leaves handlers in use alone.
//! bound: every history of 3 loads of either of two indexes, of an index cut off at six places, or of nothing, with arbitrary letters in names and titles
//! bound: handlers fetched after the first load and toggled before or after the others
//! outside: longer histories; loads racing with queries
use super::nd::*;
use super::world::*;

struct Catalogue {
    id: &'static str,
    tag: &'static str,
    category: &'static str,
    option: &'static str,
    title: &'static str,
}
impl Catalogue {
    fn new(k: usize) -> Catalogue {
        let letter = letters(1, 26);
        let title = ["abcde", "fghij"][k];
        Catalogue {
            id: ["a0", "b0"][k],
            tag: leak_str(["red", "blue"][k].to_string() + &letter),
            category: leak_str(["colour", "size"][k].to_string() + &letter),
            option: leak_str(letter),
            title,
        }
    }
    fn bytes(&self, k: usize) -> Vec<u8> {
        let mut s = Spec::new(self.id);
        s.title = self.title;
        s.tags = vec![self.tag];
        s.options = vec![(self.category, vec![self.option])];
        let mut other = Spec::new(["a1", "b1"][k]);
        other.title = "uvwxyz";
        written(&[s, other])
    }
}
/// That what is loaded is this catalogue.
fn current(all: &[Catalogue; 2], now: usize) {
    let (c, t) = handlers();
    let me = &all[now];
    check(tag(&t, me.tag).is_some() && all_tags(&t).len() == 1, "the tags are those of the loaded index");
    let options = all_options(&c);
    check(options.len() == 1 && options[0].0 == me.category && options[0].1[0].get_name() == me.option, "the categories are those of the loaded index");
    for k in 0..2 {
        let found = find(all[k].title, &c, &t, None, &nothing());
        match found {
            Some(ids) => check(ids.len() == (k == now) as usize && ids.iter().all(|i| i == me.id), "searches look in the loaded index"),
            None => check(false, "searches look in the loaded index"),
        }
    }
    match indexer_lib::tag_suggestion(me.tag) {
        Some(s) => check(s.get_tag().get_name() == me.tag, "suggestions come from the loaded index"),
        None => check(false, "suggestions come from the loaded index"),
    }
    check(indexer_lib::get_orders().map(|o| o.len()) == Some(3), "there are three orders");
}

entries! {
    fn c13_histories() {
        let all = [Catalogue::new(0), Catalogue::new(1)];
        let bytes = [all[0].bytes(0), all[1].bytes(1)];
        let mut now = pick(2);
        check(indexer_lib::initialize(&bytes[now]), "a written index can be loaded");
        current(&all, now);
        let first = now;
        let (mut old_c, mut old_t) = handlers();
        let early = flip();
        let o = option(&old_c, all[first].category, all[first].option).unwrap();
        let g = tag(&old_t, all[first].tag).unwrap();
        if early { old_c.toggle(&o); old_t.toggle(&g); }
        for _ in 0..2 {
            match pick(3) {
                2 => {
                    let k = pick(2);
                    let n = bytes[k].len();
                    let cut = of(&[0, 1, n / 4, n / 2, n - n / 4, n - 1]);
                    check(!indexer_lib::initialize(&bytes[k][..cut]), "an incomplete index is not loaded");
                    cover("an incomplete index");
                }
                k => {
                    check(indexer_lib::initialize(&bytes[k]), "a written index can be loaded");
                    if k != now { cover("another index"); }
                    now = k;
                }
            }
            current(&all, now);
        }
        // what was fetched from the first index still speaks about that
        if !early { old_c.toggle(&o); old_t.toggle(&g); }
        check(old_c.get_status(&o) && old_t.get_status(&g), "handlers keep their state");
        check(g.get_name() == all[first].tag, "tags keep their names");
        check(tag(&old_t, all[first].tag).is_some(), "handlers keep their tags");
        check(option(&old_c, all[first].category, all[first].option).is_some(), "handlers keep their categories");
        if now == first {
            match find(all[now].title, &old_c, &old_t, None, &nothing()) {
                Some(ids) => check(ids.len() == 1, "old handlers filter a new copy of their index"),
                None => check(false, "old handlers filter a new copy of their index"),
            }
        }
        observe(now as u64);
    }
    fn c13_before_any_load() {
        use indexer_lib::js_interactable::{CategoryHandler, TagHandler};
        if flip() {
            let b = Catalogue::new(0).bytes(0);
            let cut = range(0, 40);
            check(!indexer_lib::initialize(&b[..cut]), "an incomplete index is not loaded");
        }
        check(indexer_lib::get_categories().is_none() && indexer_lib::get_tags().is_none() && indexer_lib::get_orders().is_none(), "there is nothing before an index is loaded");
        check(indexer_lib::tag_suggestion("abcdef").is_none(), "there are no suggestions before an index is loaded");
        let (_, cl) = two_products();
        let handle = std::sync::Arc::new(cl);
        let found = find("abcdef", &CategoryHandler::new(handle.clone()), &TagHandler::new(handle), None, &nothing());
        check(found.is_none(), "a search gives nothing before an index is loaded");
    }
}
