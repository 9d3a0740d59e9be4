//! C08: the index lists, for every n-gram, exactly the products whose text has it.
//! bound: two products of up to four symbols each (any characters, N=2), two of three (N=3)
//! bound: three products of two or three symbols (N=2); one text of 3 and one of 9 symbols at the production length N=5
//! outside: texts with the symbol U+0000, which pads short n-grams; longer texts, more products, other gram types
use super::nd::*;
use super::world::*;

fn windows<const N: usize>(t: &[char]) -> Vec<[char; N]> {
    let mut out = Vec::with_capacity(8);
    if t.len() >= N {
        for i in 0..=t.len() - N {
            let mut w = ['\0'; N];
            w.copy_from_slice(&t[i..i + N]);
            out.push(w);
        }
    }
    out
}

/// The windows at the start of a text, filled up with the default symbol: they
/// are in the index too, but no property needs them.
fn padded<const N: usize>(t: &[char]) -> Vec<[char; N]> {
    let mut out = Vec::with_capacity(8);
    for n in 1..N.min(t.len() + 1) {
        let mut w = ['\0'; N];
        w[N - n..].copy_from_slice(&t[..n]);
        out.push(w);
    }
    out
}

fn model<const N: usize>(texts: &[Vec<char>]) {
    let c = plain(texts.len());
    let ix = index::<char, N>(c, texts);
    let limit = texts.len() * 4 / 5;
    let all: Vec<Vec<[char; N]>> = texts.iter().map(|t| windows::<N>(t)).collect();
    for ws in &all {
        for w in ws {
            let having = all.iter().filter(|o| o.contains(w)).count();
            let found = ix.data.get(w);
            if having <= limit {
                cover("an n-gram that is kept");
                match found {
                    Some(list) => {
                        let mut k = 0;
                        for (p, o) in all.iter().enumerate() {
                            let times = o.iter().filter(|x| *x == w).count();
                            if times > 1 { cover("an n-gram that repeats"); }
                            for _ in 0..times {
                                check(k < list.len() && list[k].serialization_id == p, "an n-gram lists the products having it, in order, once per occurrence");
                                k += 1;
                            }
                        }
                        check(k == list.len(), "an n-gram lists no other product");
                    }
                    None => check(false, "an n-gram of a text is in the index"),
                }
            } else {
                cover("an n-gram that is dropped");
                check(found.is_none(), "an n-gram of too many products is dropped");
            }
        }
    }
    for (w, _) in ix.data.iter() {
        let real = all.iter().any(|o| o.contains(w)) || texts.iter().any(|t| padded::<N>(t).contains(w));
        check(real, "the index has no n-gram that no text has");
    }
    observe(ix.roots.len() as u64);
}

fn text(len: usize) -> Vec<char> {
    (0..len).map(|_| { let c = any_char(); assume(c != '\0'); c }).collect()
}

entries! {
    fn c08_two_texts() {
        let (a, b) = (text(range(0, 4)), text(range(0, 3)));
        model::<2>(&[a, b]);
    }
    fn c08_trigrams() {
        let (a, b) = (text(range(2, 4)), text(3));
        map_order();
        model::<3>(&[a, b]);
    }
    fn c08_three_texts() {
        let t = [text(2), text(2), text(2)];
        map_order();
        model::<2>(&t);
    }
    fn c08_production_length() {
        let pool = ['a', 'b', '\u{e6}'];
        let t = [vec!['a', 'b', 'a'], (0..7).map(|_| of(&pool[..2])).collect()];
        model::<5>(&t);
    }
    fn c08_three_longer_texts() {
        let t = [text(3), text(3), text(2)];
        model::<2>(&t);
    }
}
