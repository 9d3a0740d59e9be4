//! C04: collections and id lists decode to what was encoded.
//! bound: strings of up to 4 arbitrary ASCII bytes, of 2 arbitrary characters, and of 126..129, 16383, 16384 bytes
//! bound: lists of up to 3 arbitrary numbers, of 127..130 entries; maps of up to 3 entries in any iteration order
//! bound: id lists of up to 4 arbitrary 64-bit ids in any order (repeats too), of 22 and of 130 ids, partly arbitrary
//! outside: longer collections
use super::nd::*;
use super::world::*;
use ahash::AHashMap;
use indexer_lib::serialize::{sequential_array, Deserializable, DeserializableCollection, Serializable};

fn trip<T: Serializable + Deserializable + PartialEq>(v: &T) {
    let mut b = bytes_of(v);
    observe(b.len() as u64);
    b.push(7);
    match T::deserialize(&b) {
        Some((rest, w)) => {
            check(rest.len() == 1, "decoding eats exactly the encoding");
            check(*v == w, "the decoded collection is the encoded one");
        }
        None => check(false, "an encoded collection decodes"),
    }
}
/// The ids are read in ascending order, as often as they were written.
fn id_list(v: &[usize]) {
    let mut sorted = v.to_vec();
    for i in 1..sorted.len() {
        let mut k = i;
        while k > 0 && sorted[k - 1] > sorted[k] {
            sorted.swap(k - 1, k);
            k -= 1;
        }
    }
    let mut b = vec![];
    sequential_array::serialize(v.iter().copied(), &mut |x| b.push(x));
    b.push(9);
    match sequential_array::deserialize::<usize>(&b) {
        Some((rest, w)) => {
            check(rest.len() == 1, "decoding eats exactly the id list");
            check(w.len() == v.len(), "as many ids are read as were written");
            for (x, y) in w.iter().zip(sorted.iter()) { check(x == y, "the ids are read in ascending order"); }
        }
        None => check(false, "an encoded id list decodes"),
    }
}

entries! {
    fn c04_string() { trip(&ascii(range(0, 4))); }
    fn c04_string_of_any_characters() {
        let s: String = (0..2).map(|_| any_char()).collect();
        if s.len() == 8 { cover("four byte characters"); }
        trip(&s);
    }
    fn c04_long_string() {
        let n = of(&[126usize, 127, 128, 129, 255, 256, 16383, 16384]);
        let mut s = "x".repeat(n - 1).into_bytes();
        s.push(bits(7) as u8);
        trip(&unsafe { String::from_utf8_unchecked(s) });
    }
    fn c04_list() {
        let v: Vec<usize> = (0..range(0, 3)).map(|_| bits(64) as usize).collect();
        trip(&v);
        let (mut b, refs) = (vec![], v.iter().collect::<Vec<_>>());
        refs.serialize(&mut |x| b.push(x));
        check(b == bytes_of(&v), "a list of references is encoded like a list");
        let mut b = vec![];
        (&v).serialize(&mut |x| b.push(x));
        check(b == bytes_of(&v), "a borrowed list is encoded like a list");
    }
    fn c04_long_list() {
        let n = range(126, 130);
        let mut v: Vec<usize> = (0..n).map(|i| i * 77).collect();
        let at = of(&[0, 64, 125]);
        v[at] = bits(64) as usize;
        trip(&v);
    }
    fn c04_strings() {
        let v: Vec<String> = (0..range(0, 2)).map(|_| ascii(range(0, 2))).collect();
        let mut b = vec![];
        (&v).serialize(&mut |x| b.push(x));
        match Vec::<String>::deserialize(&b) {
            Some((rest, w)) => check(rest.is_empty() && v == w, "the decoded strings are the encoded ones"),
            None => check(false, "an encoded list of strings decodes"),
        }
    }
    fn c04_array() {
        trip(&[any_char(), any_char(), any_char()]);
        let v = [bits(64), bits(64)];
        match <[u64; 2] as DeserializableCollection>::deserialize(&bytes_of(&v)) {
            Some((rest, w)) => check(rest.is_empty() && v == w, "the decoded array is the encoded one"),
            None => check(false, "an encoded array decodes"),
        }
    }
    fn c04_map() {
        map_order();
        let mut m: AHashMap<String, Vec<usize>> = AHashMap::new();
        for _ in 0..range(0, 2) { m.insert(ascii(1), vec![bits(64) as usize]); }
        m.insert("abc".to_string(), vec![]);
        if m.len() == 3 { cover("three entries"); }
        trip(&m);
    }
    fn c04_number_map() {
        map_order();
        let mut m: AHashMap<u64, u32> = AHashMap::new();
        for i in 0..3 { m.insert(bits(if i == 0 { 64 } else { 9 }), bits(8) as u32); }
        trip(&m);
    }
    fn c04_long_map() {
        map_order();
        let n = of(&[20usize, 127, 128]);
        let mut m: AHashMap<u64, u32> = AHashMap::new();
        for i in 0..n - 1 { m.insert(i as u64 * 3, i as u32); }
        m.insert(1, bits(32) as u32);
        trip(&m);
    }
    fn c04_id_list() {
        let n = range(0, 4);
        let v: Vec<usize> = (0..n).map(|_| bits([0, 64, 64, 14, 8][n]) as usize).collect();
        id_list(&v);
    }
    fn c04_id_list_of_other_types() {
        let v = [bits(32) as u32, bits(32) as u32];
        let mut b = vec![];
        sequential_array::serialize(v.iter().copied(), &mut |x| b.push(x));
        match sequential_array::deserialize::<u32>(&b) {
            Some((rest, w)) => {
                check(rest.is_empty() && w.len() == 2, "an id list of 32 bit numbers decodes");
                check((w[0] == v[0] && w[1] == v[1]) || (w[0] == v[1] && w[1] == v[0]), "with the same numbers");
                check(w[0] <= w[1], "in order");
            }
            None => check(false, "an encoded id list decodes"),
        }
    }
    fn c04_long_id_list() {
        let n = of(&[22usize, 130]);
        let mut v: Vec<usize> = (0..n).map(|i| (i * 37) % n * 3 / 2).collect();
        v[7] = bits(8) as usize;
        id_list(&v);
        cover("a long id list");
    }
    fn c04_long_string_of_any_characters() {
        // characters of more than one byte around the length that takes another byte
        let n = of(&[20usize, 31, 32, 42, 62, 63, 64, 65, 100, 126, 127, 8191, 8192]);
        let mut s = of(&["x", "æ", "√"]).repeat(n);
        if n < 8000 { s.push(any_char()); } else { s.push('Ø'); }
        if s.len() > 127 && s.chars().count() < 128 { cover("fewer characters than 128, more bytes"); }
        trip(&s);
    }
}
