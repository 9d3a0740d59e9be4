//! C26: products are equal when all but the cut-off tail of a description agrees.
//! bound: two products with arbitrary titles, vendors, ids of 1 byte, descriptions of up to 3 bytes, and places in the catalogue
//! bound: two catalogues with arbitrary vendors of 1 byte
//! outside: longer texts
use super::nd::*;
use super::world::*;
use indexer_lib::data::Product;

fn product(title: String, id: String, description: String, like: &Product<'static>, at: usize) -> Product<'static> {
    Product { description, title, vendor: like.vendor, id, serialization_id: at }
}

entries! {
    fn c26_fields() {
        let mut specs = vec![Spec::new("x"), Spec::new("y")];
        specs[1].vendor = leak_str(ascii(1));
        let (c, _) = build(&specs);
        let t = [ascii(1), ascii(range(0, 1))];
        let i = [ascii(1), ascii(1)];
        let at = [bits(64) as usize, bits(64) as usize];
        let k = pick(2);
        let a = product(t[0].clone(), i[0].clone(), "d".to_string(), &c.products[0], at[0]);
        let b = product(t[1].clone(), i[1].clone(), "d".to_string(), &c.products[k], at[1]);
        let v = k == 0 || specs[1].vendor == "v";
        let wanted = t[0] == t[1] && i[0] == i[1] && at[0] == at[1] && v;
        check((a == b) == wanted && (b == a) == wanted, "products are equal when everything is");
        if wanted { cover("equal"); } else { cover("different"); }
    }
    fn c26_descriptions() {
        let (c, _) = build(&[Spec::new("x")]);
        let d = [ascii(range(0, 3)), ascii(range(0, 3))];
        let a = product(String::new(), String::new(), d[0].clone(), &c.products[0], 0);
        let b = product(String::new(), String::new(), d[1].clone(), &c.products[0], 0);
        let n = std::cmp::min(d[0].len(), d[1].len());
        let wanted = d[0].as_bytes()[..n] == d[1].as_bytes()[..n] && (n > 0 || d[0].len() == d[1].len());
        check((a == b) == wanted && (b == a) == wanted, "a description may be cut off, but not be missing");
        if wanted && d[0].len() != d[1].len() { cover("a description cut off"); }
        if d[0].len() == 0 && d[1].len() > 0 { cover("a missing description"); }
    }
    fn c26_after_loading() {
        // what is read back equals what was written, unless another product took its place
        let (mut a, mut b) = (Spec::new("p0"), Spec::new("p1"));
        a.description = "é".repeat(range(49, 51)) + "a";
        a.title = leak_str(ascii(1));
        b.title = leak_str(ascii(1));
        let (c, _) = build(&[a, b]);
        let r = match indexer_lib::data::ProductContainer::deserialize(leak(bytes_of(c)), leak(indexer_lib::data::SuperAlloc::new())) {
            Some((_, r)) => leak(r),
            None => { check(false, "a written catalogue can be read"); return }
        };
        for i in 0..2 {
            for j in 0..2 {
                check((c.products[i] == r.products[j]) == (i == j), "a product equals what was read back, and nothing else");
            }
        }
        check(*c == *r, "a catalogue equals what was read back");
        cover("read back");
    }
    fn c26_order() {
        // products sort by their place
        let (c, _) = build(&[Spec::new("x")]);
        let at = [bits(64) as usize, bits(64) as usize];
        let a = product("b".to_string(), "b".to_string(), String::new(), &c.products[0], at[0]);
        let b = product("a".to_string(), "a".to_string(), String::new(), &c.products[0], at[1]);
        check(a.cmp(&b) == at[0].cmp(&at[1]), "products sort by their place");
        check((a < b) == (at[0] < at[1]), "products sort by their place");
    }
    fn c26_vendors_of_other_catalogues() {
        // vendors are equal by name and number, not by number alone
        let names = [leak_str(ascii(1)), leak_str(ascii(1)), leak_str(ascii(1))];
        let spec = |v: &'static str| { let mut s = Spec::new("x"); s.vendor = v; s };
        let (c, _) = build(&[spec(names[0])]);
        let (d, _) = build(&[spec(names[1])]);
        let (e, _) = build(&[spec(names[2]), spec(names[1])]);
        let k = pick(2);
        let other = if k == 0 { &d.products[0] } else { &e.products[1] };
        let a = product("t".to_string(), "i".to_string(), "d".to_string(), &c.products[0], 0);
        let b = product("t".to_string(), "i".to_string(), "d".to_string(), other, 0);
        if names[0] != names[1] { check(a != b && b != a, "products of different vendors differ"); cover("different vendors of one number"); }
        else if k == 0 { check(a == b, "products of equal vendors are equal"); }
        check((*c == *d) == (names[0] == names[1]), "catalogues of different vendors differ");
    }
}
