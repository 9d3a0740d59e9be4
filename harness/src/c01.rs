//! C01: a value of every primitive type decodes to itself, and decoding eats
//! exactly the bytes of the encoding.
//! bound: every value of u64, usize, u32, u8, char, f32 (as bits) and bool, followed by two arbitrary bytes
//! outside: nothing on 64-bit machines; usize is 32 bits wide in WebAssembly
use super::nd::*;
use indexer_lib::serialize::{Deserializable, Serializable};

fn trip<T: Serializable + Deserializable>(v: &T, same: impl Fn(&T, &T) -> bool) {
    let tail = [byte(), byte()];
    let mut b = Vec::with_capacity(16);
    v.serialize(&mut |x| b.push(x));
    let n = b.len();
    observe_bytes(&b);
    b.extend_from_slice(&tail);
    match T::deserialize(&b) {
        Some((rest, w)) => {
            check(rest.len() == 2, "decoding eats exactly the encoding");
            check(rest[0] == tail[0] && rest[1] == tail[1], "the bytes after it are left alone");
            check(same(v, &w), "the decoded value is the encoded one");
        }
        None => check(false, "an encoded value decodes"),
    }
    observe(n as u64);
}

entries! {
    fn c01_u64() {
        let v = bits(64);
        trip(&v, |a, b| a == b);
        if v >= 1 << 63 { cover("ten bytes"); }
        if v >= 1 << 56 && v < 1 << 63 { cover("nine bytes"); }
        if v < 128 { cover("one byte"); }
    }
    fn c01_usize() {
        let v = bits(64) as usize;
        trip(&v, |a, b| a == b);
        cover("done");
    }
    fn c01_u32() {
        let v = bits(32) as u32;
        trip(&v, |a, b| a == b);
        cover("done");
    }
    fn c01_char() {
        let v = any_char();
        trip(&v, |a, b| a == b);
        if v as u32 > 0xffff { cover("beyond the basic plane"); }
        if (v as u32) < 128 { cover("ascii"); }
    }
    fn c01_f32() {
        let v = f32::from_bits(bits(32) as u32);
        trip(&v, |a, b| a.to_bits() == b.to_bits());
        cover("done");
    }
    fn c01_bool() {
        let v = boolean();
        trip(&v, |a, b| a == b);
        cover("done");
    }
    fn c01_u8() {
        let v = byte();
        trip(&v, |a, b| a == b);
        cover("done");
    }
}
