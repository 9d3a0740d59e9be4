//! C10: the n-gram tree counts the texts.
//! bound: two texts of up to 4 and 3 arbitrary symbols (N=3); one of 5 (N=2), of 4 (N=4), of 7 among two letters (N=5)
//! bound: a symbol repeated 254 to 257 times before one of two letters; a text of 70 different symbols
//! outside: longer texts; weights are compared with a tolerance of one in 100000
use super::nd::*;
use super::world::*;
use indexer_lib::ngram::GramNode;

/// How often `gram` starts at a position of the texts.
fn count(texts: &[Vec<char>], gram: &[char]) -> usize {
    let mut n = 0;
    for t in texts {
        for i in 0..t.len() {
            if i + gram.len() <= t.len() && &t[i..i + gram.len()] == gram { n += 1; }
        }
    }
    n
}
fn near(a: f32, b: f64) -> bool {
    let d = a as f64 - b;
    (if d < 0.0 { -d } else { d }) <= b * 1e-5
}
fn tree(texts: &[Vec<char>], node: &GramNode<'_, char>, path: &mut Vec<char>, of: usize, n: usize) {
    path.push(node.item);
    let mine = count(texts, path);
    check(mine > 0, "the tree has no text that was not indexed");
    check(near(node.weight, mine as f64 / of as f64), "a weight is the share of the occurrences");
    check(node.items.len() == node.by_occurances.len(), "branches are listed and mapped alike");
    if path.len() == n { check(node.by_occurances.is_empty(), "the tree is as deep as an n-gram"); }
    let mut last = f32::INFINITY;
    let mut sum = 0;
    for next in &node.by_occurances {
        check(next.weight <= last, "the most frequent branch comes first");
        last = next.weight;
        match node.items.get(&next.item) {
            Some(m) => check(std::ptr::eq(*m, *next), "a branch is found by its symbol"),
            None => check(false, "a branch is found by its symbol"),
        }
        path.push(next.item);
        sum += count(texts, path);
        path.pop();
        tree(texts, next, path, mine, n);
    }
    if path.len() < n {
        let mut continued = 0;
        for t in texts {
            for i in 0..t.len() {
                if i + path.len() < t.len() && &t[i..i + path.len()] == &path[..] { continued += 1; }
            }
        }
        check(sum == continued, "every text is in the tree, and only once");
    }
    path.pop();
}
fn model<const N: usize>(texts: &[Vec<char>]) {
    let c = plain(texts.len());
    let ix = index::<char, N>(c, texts);
    let total: usize = texts.iter().map(|t| t.len()).sum();
    let mut sum = 0;
    for (k, r) in ix.roots.iter() {
        check(*k == r.item, "a root is found by its symbol");
        sum += count(texts, &[*k]);
        tree(texts, r, &mut vec![], total, N);
    }
    check(sum == total, "every symbol is a root, and only once");
    cover("a tree");
    if ix.roots.len() == 1 && total > 3 { cover("one symbol only"); }
    observe(ix.roots.len() as u64);
}
fn text(n: usize) -> Vec<char> {
    (0..n).map(|_| any_char()).collect()
}

entries! {
    fn c10_hundreds() {
        // more occurrences of a symbol than a byte counts, and many symbols
        let (n, last) = (of(&[254usize, 255, 256, 257]), letter(2) as char);
        let mut a: Vec<char> = vec!['a'; n];
        a.push(last);
        let b: Vec<char> = (0..70).map(|i| char::from_u32(0x100 + i).unwrap()).collect();
        model::<2>(&[a, b, vec!['a', 'b']]);
        cover("hundreds of symbols");
    }
    fn c10_two_texts() {
        let (a, b) = (text(range(0, 4)), text(range(0, 2)));
        model::<3>(&[a, b]);
    }
    fn c10_bigrams() {
        map_order();
        model::<2>(&[text(4)]);
    }
    fn c10_four() { model::<4>(&[text(4)]); }
    fn c10_production_length() {
        let t: Vec<char> = (0..8).map(|_| if flip() { 'a' } else { 'b' }).collect();
        model::<5>(&[t, vec!['a', 'b']]);
    }
    fn c10_more_texts_thorough() {
        let (a, b) = (text(4), text(3));
        model::<3>(&[a, b]);
    }
}
