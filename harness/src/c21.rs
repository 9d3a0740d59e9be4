//! C21: a tag holds exactly the products that carry it.
//! bound: three products each with up to three arbitrary tags of 1 byte, repeated tags; 24 tags on three products; any map order
//! bound: 300 products and 300 tags; 20 unusual names
//! outside: longer names; larger catalogues
use super::nd::*;
use super::world::*;

fn model(specs: Vec<Spec>) {
    let (c, cl) = build(&specs);
    let cl = leak(cl);
    let mut n = 0;
    for (i, t) in cl.tags.iter().enumerate() {
        check(t.get_id() == i, "tags are numbered in turn");
        check(cl.tags.get(i).map(|u| std::ptr::eq(u, t)) == Some(true), "a tag is found by its number");
        check(specs.iter().any(|s| s.tags.contains(&t.name.as_str())), "there are no other tags");
        for u in cl.tags.iter().take(i) { check(u.name != t.name, "a tag exists once"); }
        for (p, s) in c.products.iter().zip(specs.iter()) {
            check(t.contains(p) == s.tags.contains(&t.name.as_str()), "a tag has exactly its products");
        }
        n += 1;
    }
    check(cl.tags.get(n).is_none(), "there is no tag after the last");
    for s in &specs {
        for t in &s.tags { check(cl.tags.iter().any(|u| u.name == *t), "every tag is there"); }
    }
    if n == 0 { cover("no tags"); }
    observe(n as u64);
}

entries! {
    fn c21_hundreds() {
        // 300 products: a tag of all but one, two tags of a third, and 296 tags of one product
        let out = of(&[0usize, 64, 127, 128, 254, 255, 256, 299]);
        let own = numbered("t", 300);
        let has = |i: usize, k: usize| match k { 0 => i != out, 1 => i % 3 == 0, 2 => i % 3 == 1, 3 => i % 3 == 2 && i > 200, _ => i == k };
        let specs = hundreds(300, |i, s| for k in [0, 1, 2, 3, i] { if has(i, k) && !s.tags.contains(&own[k]) { s.tags.push(own[k]); } });
        let (c, cl) = build(&specs);
        let cl = leak(cl);
        let mut seen = vec![false; 300];
        for (n, t) in cl.tags.iter().enumerate() {
            check(t.get_id() == n, "tags are numbered in turn");
            check(cl.tags.get(n).map(|u| std::ptr::eq(u, t)) == Some(true), "a tag is found by its number");
            let k: usize = t.name[1..].parse().unwrap();
            check(!seen[k], "a tag exists once");
            seen[k] = true;
            if k < 4 || k % 50 == 0 || k > 250 && k < 260 { for i in 0..300 { check(t.contains(&c.products[i]) == has(i, k), "a tag has exactly its products"); } }
            else { check(t.contains(&c.products[k]) && !t.contains(&c.products[k - 1]), "a tag has its product"); }
        }
        check(seen.iter().all(|s| *s) && cl.tags.get(300).is_none(), "every tag is there");
        cover("hundreds of tags");
    }
    fn c21_unusual() {
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.tags = vec!["a", unusual()];
        b.tags = vec![unusual(), "\u{e9}b"];
        model(vec![a, b]);
        cover("unusual names");
    }
    fn c21_names() {
        map_order();
        let specs: Vec<Spec> = (0..3).map(|i| {
            let mut s = Spec::new(IDS[i]);
            for _ in 0..pick([3, 2, 3][i]) { s.tags.push(leak_str(ascii(1))); }
            s
        }).collect();
        model(specs);
    }
    fn c21_repeated() {
        let t = leak_str(letters(1, 4));
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.tags = if flip() { vec![t, "a", t] } else { vec!["b"] }; s }).collect();
        model(specs);
        cover("repeated");
    }
    fn c21_many() {
        let names: Vec<&'static str> = (0..24).map(|i| leak_str(format!("t{}", i))).collect();
        let (at, who) = (pick(24), pick(3));
        let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); s.tags = (0..24).filter(|k| (*k == at && i == who) != (i == *k % 3)).map(|k| names[k]).collect(); s }).collect();
        model(specs);
    }
}
