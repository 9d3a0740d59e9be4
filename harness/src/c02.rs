//! C02: no input makes loading panic, hang, overflow the stack or allocate out of proportion.
//! bound: every string of up to 11 bytes for the primitive, string, list, map and array readers
//! bound: every string of up to 8 bytes for the catalogue, n-gram and classic index readers
//! bound: a valid index (2 products, N=2 and N=5) with any one byte replaced (thorough: any two adjacent bytes)
//! bound: trees nested 100000 deep
//! outside: allocation requests below 1 MiB always succeed; corruption of larger indexes, or in more places
use super::nd::*;
use super::world::*;
use ahash::AHashMap;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{FeatureSet, Product, ProductContainer, SuperAlloc};
use indexer_lib::ngram::GramIndex;
use indexer_lib::serialize::{deserialize_all, sequential_array, Deserializable, DeserializableCollection, Serializable};

fn input(max: usize) -> Vec<u8> {
    (0..range(0, max)).map(|_| byte()).collect()
}
fn outcome<T>(r: Option<(&[u8], T)>, b: &[u8]) {
    match r {
        Some((rest, _)) => {
            cover("accepted");
            check(rest.len() <= b.len(), "reading leaves part of the input");
            observe(rest.len() as u64 + 1);
        }
        None => {
            cover("rejected");
            observe(0);
        }
    }
}
fn whole<const N: usize>(b: &[u8]) -> bool {
    deserialize_all::<char, N>(b, leak(Arena::new()), leak(SuperAlloc::new())).is_some()
}

fn corrupt<const N: usize>(b: Vec<u8>, width: usize) {
    let mut b = given_bytes(b);
    let at = pick(b.len() - width + 1);
    for k in 0..width { b[at + k] = byte(); }
    match whole::<N>(&b) {
        true => cover("a changed index is read"),
        false => cover("a changed index is refused"),
    }
}

entries! {
    fn c02_numbers() {
        let b = input(11);
        outcome(u64::deserialize(&b), &b);
        outcome(u32::deserialize(&b), &b);
        outcome(char::deserialize(&b), &b);
        outcome(bool::deserialize(&b), &b);
        outcome(f32::deserialize(&b), &b);
        outcome(u8::deserialize(&b), &b);
        outcome(usize::deserialize(&b), &b);
    }
    fn c02_string() {
        let b = input(6);
        outcome(String::deserialize(&b), &b);
    }
    fn c02_strings() {
        let b = input(4);
        outcome(Vec::<String>::deserialize(&b), &b);
    }
    fn c02_long_length() {
        // a length of any size, then a few bytes
        let n = bits(64);
        let mut b = bytes_of(&n);
        b.push(1);
        b.push(2);
        outcome(String::deserialize(&b), &b);
        outcome(Vec::<usize>::deserialize(&b), &b);
        outcome(Vec::<String>::deserialize(&b), &b);
        outcome(AHashMap::<String, Vec<usize>>::deserialize(&b), &b);
        outcome(sequential_array::deserialize::<usize>(&b), &b);
        outcome(<[u8; 2] as Deserializable>::deserialize(&b), &b);
        outcome(<[u8; 2] as DeserializableCollection>::deserialize(&b), &b);
        outcome(<[char; 5] as Deserializable>::deserialize(&b), &b);
        outcome(FeatureSet::deserialize(&b), &b);
        outcome(ProductContainer::deserialize(&b, leak(SuperAlloc::new())), &b);
        let (c, _) = two_products();
        outcome(ClassicIndexes::deserialize(&b, c), &b);
        outcome(GramIndex::<char, Product, 2>::deserialize(&b, leak(Arena::new()), leak(SuperAlloc::new())), &b);
    }
    fn c02_id_list() {
        let b = input(7);
        outcome(sequential_array::deserialize::<usize>(&b), &b);
    }
    fn c02_id_list_any_values() {
        let mut b = bytes_of(&3usize);
        for _ in 0..3 { b.extend(bytes_of(&bits(64))); }
        outcome(sequential_array::deserialize::<usize>(&b), &b);
        outcome(sequential_array::deserialize::<u64>(&b), &b);
        outcome(sequential_array::deserialize::<u32>(&b), &b);
    }
    fn c02_collections() {
        let b = input(6);
        outcome(Vec::<usize>::deserialize(&b), &b);
        outcome(<[u8; 2] as Deserializable>::deserialize(&b), &b);
        outcome(<[char; 2] as DeserializableCollection>::deserialize(&b), &b);
    }
    fn c02_maps() {
        let b = input(5);
        outcome(AHashMap::<String, Vec<usize>>::deserialize(&b), &b);
        outcome(AHashMap::<u8, u8>::deserialize(&b), &b);
    }
    fn c02_features() {
        let b = input(6);
        outcome(FeatureSet::deserialize(&b), &b);
    }
    fn c02_catalogue() {
        let b = input(8);
        outcome(ProductContainer::deserialize(&b, leak(SuperAlloc::new())), &b);
    }
    fn c02_classic() {
        let b = input(7);
        let (c, _) = two_products();
        outcome(ClassicIndexes::deserialize(&b, c), &b);
    }
    fn c02_index() {
        let b = input(8);
        outcome(GramIndex::<char, Product, 2>::deserialize(&b, leak(Arena::new()), leak(SuperAlloc::new())), &b);
    }
    fn c02_index_after_catalogue() {
        // an empty catalogue, then anything
        let mut b = vec![0, 0, 0];
        b.extend(input(9));
        whole::<2>(&b);
        cover("read");
    }
    fn c02_one_byte_changed() {
        corrupt::<2>(encoded::<2>(&["ab", "ac"]), 1);
    }
    fn c02_one_byte_changed_at_production_length() {
        corrupt::<5>(encoded::<5>(&["abcde", "ab"]), 1);
    }
    fn c02_two_bytes_changed_thorough() {
        corrupt::<2>(encoded::<2>(&["ab", ""]), 2);
    }
    fn c02_deep_tree() {
        let mut b = vec![0, 0, 0, 1, b'a'];
        let levels = [600, 100_000][pick(2)];
        for _ in 0..levels { b.extend_from_slice(&[b'a', 0, 0, 0, 0, 1]); }
        b.extend_from_slice(&[b'a', 0, 0, 0, 0, 0, 0, 0, 0, 0]);
        let ok = whole::<2>(&b);
        if levels < 1000 { check(ok, "a tree of six hundred levels is read"); }
    }
    fn c02_initialize() {
        let (good, mut bad) = (given_bytes(encoded::<5>(&["ab", "ac"])), given_bytes(encoded::<5>(&["abcde", "abcdef"])));
        check(indexer_lib::initialize(&good), "a valid index loads");
        let at = pick(bad.len());
        bad[at] = byte();
        let keep = pick(2) == 0;
        if keep { bad.truncate(at); }
        let loaded = indexer_lib::initialize(&bad);
        if keep { check(!loaded, "a truncated index does not load"); }
        let tags = indexer_lib::get_tags();
        check(tags.is_some(), "there is an index");
        let object = js_sys::Object::literal(vec![]);
        let (c, t) = (indexer_lib::get_categories().unwrap(), tags.unwrap());
        let found = match indexer_lib::search("abcdef", &c, &t, None, &object) {
            Some(mut p) => { let mut n = 0; while p.next_product().is_some() { n += 1; } n }
            None => 100,
        };
        if !loaded {
            cover("a bad index after a good one");
            check(found == 0, "an index that cannot be read leaves the loaded one in place");
        } else { cover("a changed index loads"); }
    }
}
