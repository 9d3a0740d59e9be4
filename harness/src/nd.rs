//! What a harness says to the symbolic executor - or, in the native build, to the
//! replay driver, which answers from a recorded tape.

extern "C-unwind" {
    fn sym_u64(bits: u32) -> u64;
    fn sym_given(v: u64) -> u64;
    fn sym_assume(c: bool);
    fn sym_assert(c: bool, p: *const u8, n: usize);
    fn sym_observe(v: u64);
    fn sym_cover(p: *const u8, n: usize);
    fn sym_concretize(v: u64) -> u64;
}

/// An arbitrary number of that many bits.
pub fn bits(n: u32) -> u64 {
    unsafe { sym_u64(n) }
}
pub fn byte() -> u8 {
    bits(8) as u8
}
pub fn boolean() -> bool {
    bits(1) != 0
}
/// An arbitrary choice, made by branching.
pub fn flip() -> bool {
    fixed(bits(1)) != 0
}
/// The value the symbolic run computed here, also in the native build - where what
/// depends on the order of hash maps would come out differently.
pub fn given(v: u64) -> u64 {
    unsafe { sym_given(v) }
}
pub fn given_bytes(b: Vec<u8>) -> Vec<u8> {
    let n = given(b.len() as u64) as usize;
    let mut out = Vec::with_capacity(n + 8);
    for k in 0..(n + 7) / 8 {
        let mut w = [0; 8];
        for i in 0..8 { if let Some(b) = b.get(8 * k + i) { w[i] = *b; } }
        out.extend_from_slice(&given(u64::from_le_bytes(w)).to_le_bytes());
    }
    out.truncate(n);
    out
}
/// Restricts the claim to what satisfies `c`.
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
/// The property.
pub fn check(c: bool, what: &'static str) {
    unsafe { sym_assert(c, what.as_ptr(), what.len()) }
}
/// A value whose predicted and actual contents are compared on replay.
pub fn observe(v: u64) {
    unsafe { sym_observe(v) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for c in b {
        observe(*c as u64);
    }
}
/// A situation some explored path has to reach.
pub fn cover(what: &'static str) {
    unsafe { sym_cover(what.as_ptr(), what.len()) }
}
/// Splits into one path per value.
pub fn fixed(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
/// Arbitrary number below `n`, kept symbolic.
pub fn below(n: u64) -> u64 {
    let mut w = 1;
    while w < 64 && (1u64 << w) < n {
        w += 1;
    }
    let v = bits(w);
    assume(v < n);
    v
}
/// Arbitrary number below `n`, one path each.
pub fn pick(n: usize) -> usize {
    fixed(below(n as u64)) as usize
}
pub fn range(lo: usize, hi: usize) -> usize {
    lo + pick(hi - lo + 1)
}
pub fn of<T: Copy>(list: &[T]) -> T {
    list[pick(list.len())]
}
/// Any Unicode scalar value.
pub fn any_char() -> char {
    let v = bits(21) as u32;
    assume(v < 0xd800 || (v > 0xdfff && v < 0x11_0000));
    unsafe { char::from_u32_unchecked(v) }
}
/// A lower-case ASCII letter among the first `n`, kept symbolic.
pub fn letter(n: u8) -> u8 {
    b'a' + below(n as u64) as u8
}
/// A string of `len` arbitrary ASCII bytes.
pub fn ascii(len: usize) -> String {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(bits(7) as u8);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// A string of `len` letters, each among the first `n`.
pub fn letters(len: usize, n: u8) -> String {
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push(letter(n));
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Names that code is tempted to treat in a way of their own.
pub const UNUSUAL: [&str; 20] = [
    "", "a", "A", " ", " a", "a ", "  ", "_a", "-a", "0", "null", "a,b", "a:b", "\"a\"", "a\0", "\u{e9}", "\u{c9}", "e\u{301}", "\u{65e5}\u{672c}",
    "a name of more than sixty-four characters, of the kind nobody thought of at all",
];
pub fn unusual() -> &'static str {
    of(&UNUSUAL)
}
pub fn leak<T>(t: T) -> &'static T {
    Box::leak(Box::new(t))
}
pub fn leak_str(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}


/// Makes the iteration order of the hash maps made from here on arbitrary.
/// (In the native build they have the order the real hash function gives.)
pub fn map_order() {
    let k = pick(3) as u64;
    #[cfg(indexer_verif_map)]
    ahash::set_order(k);
    let _ = k;
}
