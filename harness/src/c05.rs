//! C05: how texts are shortened when they are stored.
//! bound: texts of up to 6 arbitrary ASCII bytes with a limit up to 7, of 3 arbitrary characters with a limit up to 9
//! bound: product descriptions of 96 fixed bytes, then 6 bytes each a space or a letter, then up to 2 arbitrary characters
//! outside: longer texts
use super::nd::*;
use super::world::*;
use indexer_lib::serialize::{serialize_string_with_limit, Deserializable};

/// The length that is kept, straight from the rule.
fn keep(s: &str, max: usize) -> usize {
    let mut last_space = usize::MAX;
    for (i, c) in s.char_indices() {
        if i > max {
            return if last_space != usize::MAX { last_space } else { i };
        }
        if c == ' ' { last_space = i; }
    }
    s.len()
}
fn shortened(s: &str, max: usize) {
    let mut b = vec![];
    serialize_string_with_limit(s, max, &mut |x| b.push(x));
    let n = keep(s, max);
    match String::deserialize(&b) {
        Some((rest, t)) => {
            check(rest.is_empty(), "decoding eats exactly the text");
            check(t.len() == n, "the text is cut where the rule says");
            check(t.as_bytes() == &s.as_bytes()[..n], "what is kept is the beginning");
            if n < s.len() { cover("a text is cut"); } else { cover("a text is kept whole"); }
            observe(n as u64);
        }
        None => check(false, "a stored text can be read"),
    }
}

entries! {
    fn c05_ascii() {
        let s = ascii(range(0, 6));
        shortened(&s, range(0, 7));
    }
    fn c05_any_characters() {
        let s: String = (0..3).map(|_| if flip() { ' ' } else { any_char() }).collect();
        shortened(&s, range(0, 9));
    }
    fn c05_description() {
        let mut d = "a".repeat(of(&[95, 96, 97]));
        if flip() { d.replace_range(50..51, " "); }
        for _ in 0..5 { d.push(if flip() { ' ' } else { 'b' }); }
        for _ in 0..pick(3) { d.push(any_char()); }
        let mut p = Spec::new("p0");
        p.description = d.clone();
        let (c, _) = build(&[p]);
        let b = bytes_of(c);
        match indexer_lib::data::ProductContainer::deserialize(&b, leak(indexer_lib::data::SuperAlloc::new())) {
            Some((_, r)) => {
                let n = keep(&d, 100);
                check(r.products[0].description.as_bytes() == &d.as_bytes()[..n], "a description is stored up to the limit of 100 bytes");
                if n == 100 { cover("exactly at the limit"); }
                if n > 100 { cover("beyond the limit for want of a space"); }
                if n < d.len() { cover("a description is cut"); }
            }
            None => check(false, "a stored catalogue can be read"),
        }
    }
}
