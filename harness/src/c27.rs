//! C27: a product's number is what the digits at the end of its id spell.
//! bound: every id of up to 6 characters; ids of 19 arbitrary digits
//! outside: 20 and more digits at the end (they overflow); digits of other scripts
use super::nd::*;
use super::world::*;
use indexer_lib::data::Product;

fn number(id: &str) -> u64 {
    let c = plain(1);
    let p = Product { description: String::new(), title: String::new(), vendor: c.products[0].vendor, id: id.to_string(), serialization_id: 0 };
    p.get_id()
}
fn spelt(id: &[char]) -> u64 {
    let mut from = id.len();
    while from > 0 && id[from - 1] >= '0' && id[from - 1] <= '9' { from -= 1; }
    let mut n = 0u64;
    for c in &id[from..] { n = n * 10 + (*c as u64 - '0' as u64); }
    n
}

entries! {
    fn c27_any_id() {
        let id: Vec<char> = (0..range(0, 4)).map(|_| any_char()).collect();
        let s: String = id.iter().collect();
        check(number(&s) == spelt(&id), "the number is what the last digits spell");
        if !id.is_empty() && spelt(&id) > 100 { cover("several digits"); }
        cover("a number");
    }
    fn c27_ascii() {
        let s = ascii(6);
        let id: Vec<char> = s.chars().collect();
        check(number(&s) == spelt(&id), "the number is what the last digits spell");
    }
    fn c27_many_digits() {
        let n = of(&[1usize, 9, 10, 12, 19]);
        let s: Vec<u8> = (0..n).map(|i| if i + 4 >= n { b'0' + below(10) as u8 } else { b'1' + (i % 9) as u8 }).collect();
        let s = "gid://shopify/Product/".to_string() + &String::from_utf8(s).unwrap();
        let id: Vec<char> = s.chars().collect();
        check(number(&s) == spelt(&id), "the number is what the last digits spell");
        cover("many digits");
    }
}
