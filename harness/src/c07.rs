//! C07: a whole index reads back as it was written.
//! bound: three products, each with or without each of two tags, two categories of two options; arbitrary names of one byte; arbitrary texts of up to 3 symbols; any map order; N=2, 3, 5
//! bound: 150 products of one tag, option and n-gram, with one arbitrary product missing
//! bound: 300 products, tags, categories and options of one category; an n-gram of over 255 products; over 30 branches of one n-gram
//! outside: larger indexes
use super::nd::*;
use super::same::*;
use super::world::*;
use colosseum::sync::Arena;
use indexer_lib::data::SuperAlloc;
use indexer_lib::serialize::{deserialize_all, serialize_all};

fn whole<const N: usize>((c, cl): Built, texts: &[Vec<char>]) {
    let ix = index::<char, N>(c, texts);
    let b = leak(serialize_all(&ix, &cl));
    match deserialize_all::<char, N>(b, leak(Arena::new()), leak(SuperAlloc::new())) {
        Some((ix2, cl2)) => {
            let (ix2, cl2) = (leak(ix2), leak(cl2));
            let q = ix2.product_container;
            check(c.products.len() == q.products.len(), "no product is lost");
            for (x, y) in c.products.iter().zip(q.products.iter()) {
                check(x.id == y.id && x.title == y.title && x.description == y.description && x.vendor.name == y.vendor.name, "products are kept");
            }
            grams::<N>(&ix, ix2);
            classic(&cl, cl2, &c.products, &q.products);
            check(ix == *ix2, "the n-gram index equals itself");
            check(cl == *cl2, "the tags, categories and orders equal themselves");
            cover("an index is read back");
        }
        None => check(false, "a written index can be read"),
    }
}
fn three(f: impl Fn(usize, &mut Spec)) -> Built {
    let specs: Vec<Spec> = (0..3).map(|i| { let mut s = Spec::new(IDS[i]); f(i, &mut s); s }).collect();
    build(&specs)
}

entries! {
    fn c07_tags() {
        map_order();
        let names = ["t", leak_str(ascii(1))];
        let has = [flip(), true, flip(), flip(), true, flip()];
        let built = three(|i, s| for k in 0..2 { if has[i * 2 + k] { s.tags.push(names[k]); } });
        whole::<2>(built, &[vec!['a', 'b'], vec![], vec!['a', 'c']]);
    }
    fn c07_categories() {
        let cats = ["c", leak_str(ascii(1))];
        let has = [flip(), flip(), flip(), flip(), flip(), flip()];
        let built = three(|i, s| {
            if has[i] { s.options.push((cats[0], vec![["o", "p"][i % 2]])); }
            if has[i + 3] { s.options.push((cats[1], vec!["p", "q"])); }
        });
        whole::<3>(built, &[vec!['a', 'b', 'c'], vec![], vec!['a', 'c', 'a']]);
    }
    fn c07_option_names() {
        let o = [leak_str(ascii(1)), leak_str(ascii(1)), "o"];
        let built = three(|i, s| s.options.push(("c", vec![o[i], "z"])));
        whole::<2>(built, &[vec![], vec![], vec![]]);
    }
    fn c07_orders() {
        map_order();
        let t = [leak_str(ascii(1)), leak_str(ascii(1)), "m"];
        let price = ["1", "2.5", "30"];
        let k = [pick(3), pick(3), pick(3)];
        let built = three(|i, s| { s.title = t[i]; s.price = price[k[i]]; });
        whole::<2>(built, &[vec![], vec![], vec![]]);
    }
    fn c07_texts() {
        map_order();
        let t = vec![any_char(), bits(7) as u8 as char, bits(7) as u8 as char];
        whole::<2>(three(|_, _| ()), &[t, vec!['x', bits(7) as u8 as char], vec!['x']]);
    }
    fn c07_texts_of_any_characters() {
        let t = vec![any_char(), any_char()];
        whole::<2>(three(|_, _| ()), &[t, vec![], vec!['x']]);
    }
    fn c07_texts_at_production_length() {
        let mut t = vec![any_char()];
        t.extend(['a', 'b', 'c', 'd']);
        whole::<5>(three(|_, _| ()), &[t, "abcabca".chars().collect(), vec!['x']]);
    }
    fn c07_empty() {
        whole::<5>(build(&[]), &[]);
        whole::<5>(build(&[Spec::new("")]), &[vec![]]);
    }
    fn c07_long_names() {
        let n = of(&[127, 128]);
        let name = leak_str("n".repeat(n));
        let built = three(|_, s| { s.tags = vec![name]; s.options = vec![(name, vec![name])]; });
        whole::<2>(built, &[vec![], vec![], vec![]]);
    }
    fn c07_many_products() {
        let out = of(&[0usize, 1, 126, 127, 128, 129, 149]);
        let ids: Vec<&'static str> = (0..150).map(|i| leak_str(format!("{}", i))).collect();
        let specs: Vec<Spec> = (0..150).map(|i| {
            let mut s = Spec::new(ids[i]);
            if i != out { s.tags = vec!["t"]; s.options = vec![("c", vec!["o"])]; } else { s.tags = vec!["u"]; }
            s
        }).collect();
        let texts: Vec<Vec<char>> = (0..150).map(|i| if (i != out) == (i > 100) { vec!['a', 'b'] } else { vec![] }).collect();
        whole::<2>(build(&specs), &texts);
        cover("many products");
    }
    fn c07_hundreds_of_products() {
        let out = of(&[0usize, 255, 256, 257, 299]);
        let ids: Vec<&'static str> = (0..300).map(|i| leak_str(format!("{}", i))).collect();
        let specs: Vec<Spec> = (0..300).map(|i| {
            let mut s = Spec::new(ids[i]);
            if i == out { s.title = "z"; s.tags = vec!["u"]; s.options = vec![("c", vec!["o"])]; s.price = "0.5"; }
            else { s.tags = vec!["t", ids[i]]; s.options = vec![("c", vec!["p", ids[i]]), (ids[i], vec!["q"])]; }
            s
        }).collect();
        let texts: Vec<Vec<char>> = (0..300).map(|i| if i == out { vec!['a', 'c'] } else if i % 8 > 0 { vec!['a', 'b'] } else { vec!['b', char::from_u32(0x100 + i as u32).unwrap()] }).collect();
        whole::<2>(build(&specs), &texts);
        cover("hundreds of products, tags, categories, options and symbols");
    }
}
