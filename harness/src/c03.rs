//! C03: no proper prefix of an encoding is accepted.
//! bound: encodings of every 64-bit number, character, 32-bit float; strings of up to 4 arbitrary bytes and of 127/128 bytes
//! bound: lists of up to 3 arbitrary numbers (id lists: 2, or 3 below 32768; thorough 3), a map of two entries; features; a catalogue of two products with arbitrary short texts
//! bound: whole indexes of two products (N=2, N=3, N=5), every cut; initialize() with every cut of one of them
//! outside: cuts of larger indexes
use super::nd::*;
use super::world::*;
use ahash::AHashMap;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{FeatureSet, Product, ProductContainer, SuperAlloc};
use indexer_lib::ngram::GramIndex;
use indexer_lib::serialize::{deserialize_all, sequential_array, Deserializable, Serializable};

fn every_cut(b: &[u8], reads: impl Fn(&[u8]) -> bool) {
    check(reads(b), "the whole encoding is accepted");
    for n in 0..b.len() {
        check(!reads(&b[..n]), "a cut encoding is refused");
    }
    if b.len() > 1 { cover("an encoding is cut"); }
}
fn one<T: Serializable + Deserializable>(v: &T) {
    every_cut(&bytes_of(v), |c| T::deserialize(c).is_some());
}
fn some_cut(b: &[u8], reads: impl Fn(&[u8]) -> bool) {
    let n = pick(b.len());
    check(!reads(&b[..n]), "a cut encoding is refused");
    cover("a large encoding is cut");
}

entries! {
    fn c03_u64() { one(&bits(64)); }
    fn c03_usize() { one(&(bits(64) as usize)); }
    fn c03_u32() { one(&(bits(32) as u32)); }
    fn c03_char() { one(&any_char()); }
    fn c03_f32() { one(&f32::from_bits(bits(32) as u32)); }
    fn c03_small() { one(&boolean()); one(&byte()); }
    fn c03_string() {
        one(&ascii(range(0, 4)));
        let long = "x".repeat([127, 128, 200][pick(3)]);
        one(&long);
    }
    fn c03_list() {
        let v: Vec<usize> = (0..range(0, 3)).map(|_| bits(64) as usize).collect();
        every_cut(&bytes_of(&v), |c| Vec::<usize>::deserialize(c).is_some());
    }
    fn c03_id_list() {
        let n = range(0, 3);
        let v: Vec<usize> = (0..n).map(|_| bits(if n < 3 { 64 } else { 15 }) as usize).collect();
        let mut b = vec![];
        sequential_array::serialize(v.iter().copied(), &mut |x| b.push(x));
        every_cut(&b, |c| sequential_array::deserialize::<usize>(c).is_some());
    }
    fn c03_id_list_of_large_numbers_thorough() {
        let v: Vec<usize> = (0..3).map(|_| bits(64) as usize).collect();
        let mut b = vec![];
        sequential_array::serialize(v.iter().copied(), &mut |x| b.push(x));
        every_cut(&b, |c| sequential_array::deserialize::<usize>(c).is_some());
    }
    fn c03_array() {
        let v = [any_char(), any_char(), 'c'];
        every_cut(&bytes_of(&v), |c| <[char; 3] as Deserializable>::deserialize(c).is_some());
    }
    fn c03_map() {
        map_order();
        let mut m: AHashMap<String, Vec<usize>> = AHashMap::new();
        m.insert(ascii(1), vec![bits(64) as usize]);
        m.insert("ab".to_string(), vec![]);
        every_cut(&bytes_of(&m), |c| AHashMap::<String, Vec<usize>>::deserialize(c).is_some());
    }
    fn c03_features() {
        let mut f = FeatureSet::new_empty();
        f.add_int("i", bits(32) as u32);
        f.add_float("f", f32::from_bits(bits(32) as u32));
        f.add_string("s", ascii(2));
        every_cut(&bytes_of(&f), |c| FeatureSet::deserialize(c).is_some());
    }
    fn c03_catalogue() {
        let mut a = Spec::new("p0");
        a.description = ascii(2);
        a.title = leak_str(ascii(1));
        let mut b = Spec::new("p1");
        b.vendor = leak_str(ascii(1));
        b.media = vec!["u"];
        let (c, _) = build(&[a, b]);
        every_cut(&bytes_of(c), |b| ProductContainer::deserialize(b, leak(SuperAlloc::new())).is_some());
    }
    fn c03_classic() {
        let (c, classic) = two_products();
        every_cut(&bytes_of(&classic), |b| ClassicIndexes::deserialize(b, c).is_some());
    }
    fn c03_grams() {
        let t: Vec<char> = (0..3).map(|_| any_char()).collect();
        let c = plain(1);
        let ix = index::<char, 2>(c, &[t]);
        every_cut(&bytes_of(&ix), |b| GramIndex::<char, Product, 2>::deserialize(b, leak(Arena::new()), leak(SuperAlloc::new())).is_some());
    }
    fn c03_index() {
        let b = encoded::<3>(&["abc", "abd"]);
        some_cut(&b, |c| deserialize_all::<char, 3>(c, leak(Arena::new()), leak(SuperAlloc::new())).is_some());
    }
    fn c03_index_at_production_length() {
        let b = encoded::<5>(&["abcde", "abd"]);
        some_cut(&b, |c| deserialize_all::<char, 5>(c, leak(Arena::new()), leak(SuperAlloc::new())).is_some());
    }
    fn c03_initialize() {
        let b = encoded::<5>(&["ab", "abcdef"]);
        some_cut(&b, |c| indexer_lib::initialize(c));
    }
}
