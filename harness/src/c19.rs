//! C19: every product belongs to the vendor it names, and each vendor exists once.
//! bound: four products with arbitrary vendor names of up to 2 bytes; 40 products of 13 vendors and one of any of them; any map order
//! bound: 300 products of 299 or 300 vendors; 20 unusual names
//! outside: longer names; larger catalogues
use super::nd::*;
use super::world::*;

fn own(c: &indexer_lib::data::ProductContainer<'static>, names: &[&str]) {
    let by_id = &c.vendors.by_id;
    for (i, v) in by_id.iter().enumerate() {
        check(v.id == i, "vendors are numbered in turn");
        check(names.iter().any(|n| v.name == *n), "there are no other vendors");
        for w in &by_id[..i] { check(v.name != w.name, "a vendor exists once"); }
    }
    for (p, n) in c.products.iter().zip(names.iter()) {
        check(p.vendor.name == *n, "a product has the vendor it names");
        check(p.vendor.id < by_id.len() && by_id[p.vendor.id].name == *n, "a vendor is found by its number");
        match c.vendors.get(n) {
            Some(v) => check(v.name == *n && v.id == p.vendor.id, "a vendor is found by its name"),
            None => check(false, "a vendor is found by its name"),
        }
    }
    observe(by_id.len() as u64);
}

entries! {
    fn c19_hundreds() {
        let all = numbered("vendor ", 300);
        let (at, who) = (of(&[0usize, 256, 299]), of(&[0usize, 128, 255, 299]));
        let names: Vec<&'static str> = (0..300).map(|i| if i == at { all[who] } else { all[(i * 7) % 300] }).collect();
        let specs = hundreds(300, |i, s| s.vendor = names[i]);
        let (c, _) = build(&specs);
        for (p, n) in c.products.iter().zip(names.iter()) {
            check(p.vendor.name == *n, "a product has the vendor it names");
            check(c.vendors.by_id.get(p.vendor.id).map_or(false, |v| v.name == *n && v.id == p.vendor.id), "a vendor is found by its number");
            check(c.vendors.get(n).map_or(false, |v| v.name == *n && v.id == p.vendor.id), "a vendor is found by its name");
        }
        check(c.vendors.by_id.len() == if (at * 7) % 300 == who { 300 } else { 299 }, "there are as many vendors as names");
        cover("hundreds of vendors");
    }
    fn c19_unusual() {
        let names = [unusual(), "a", unusual()];
        let specs: Vec<Spec> = names.iter().map(|n| { let mut s = Spec::new("p"); s.vendor = n; s }).collect();
        let (c, _) = build(&specs);
        own(c, &names);
        cover("unusual names");
    }
    fn c19_names() {
        map_order();
        let names: Vec<&'static str> = vec![leak_str(ascii(range(0, 2))), leak_str(ascii(2)), leak_str(ascii(1)), leak_str(ascii(1))];
        let specs: Vec<Spec> = (0..4).map(|i| { let mut s = Spec::new(IDS[i]); s.vendor = names[i]; s }).collect();
        let (c, _) = build(&specs);
        own(c, &names);
        let other = ascii(1);
        check(c.vendors.get(&other).is_some() == names.iter().any(|n| *n == other), "only named vendors are found");
        match c.vendors.by_id.len() { 2 => cover("two vendors"), 4 => cover("four vendors"), _ => () }
    }
    fn c19_many() {
        let all: Vec<&'static str> = (0..13).map(|i| leak_str(format!("vendor {}", i))).collect();
        let (at, who) = (pick(40), pick(13));
        let names: Vec<&'static str> = (0..40).map(|i| if i == at { all[who] } else { all[(i * 5) % 13] }).collect();
        let specs: Vec<Spec> = names.iter().map(|n| { let mut s = Spec::new("p"); s.vendor = n; s }).collect();
        let (c, _) = build(&specs);
        own(c, &names);
        check(c.vendors.by_id.len() == 13, "there are as many vendors as names");
    }
}
