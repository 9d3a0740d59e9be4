//! C28: the most popular chain follows the most frequent next symbol to the depth of an n-gram.
//! bound: a text of 6 among three letters and one of 4 (N=3); a text of 5 any symbols (N=4); 7 of two letters (N=5); any start
//! outside: longer texts; which of two equally frequent symbols is followed
use super::nd::*;
use super::world::*;

fn count(texts: &[Vec<char>], gram: &[char]) -> usize {
    texts.iter().map(|t| (0..t.len()).filter(|i| i + gram.len() <= t.len() && t[*i..i + gram.len()] == *gram).count()).sum()
}
fn model<const N: usize>(texts: &[Vec<char>], start: char) {
    let c = plain(texts.len());
    let ix = index::<char, N>(c, texts);
    let chain = ix.most_popular_chain(start);
    if count(texts, &[start]) == 0 {
        check(chain.is_empty(), "an unknown symbol starts no chain");
        cover("an unknown start");
        return;
    }
    check(!chain.is_empty() && chain[0] == start, "a chain starts with its start");
    check(chain.len() <= N, "a chain is no longer than an n-gram");
    observe(chain[0] as u64);
    for k in 1..N + 1 {
        // the best continuation of the first k symbols
        let mut best = 0;
        if k < N {
            for t in texts {
                for i in 0..t.len() {
                    if i + k < t.len() && t[i..i + k] == chain[..k] { best = std::cmp::max(best, count(texts, &t[i..i + k + 1])); }
                }
            }
        }
        if best == 0 {
            check(chain.len() == k, "a chain ends where the texts do");
            if k < N { cover("a short chain"); }
            return;
        }
        if chain.len() <= k { check(false, "a chain goes on as long as the texts do"); return; }
        check(count(texts, &chain[..k + 1]) == best, "a chain follows the most frequent symbol");
    }
}
fn text(n: usize, k: u8) -> Vec<char> { (0..n).map(|_| letter(k) as char).collect() }

entries! {
    fn c28_trigrams() {
        map_order();
        model::<3>(&[text(5, 3), text(3, 2)], letter(3) as char);
    }
    fn c28_any_symbols() {
        let t: Vec<char> = (0..4).map(|_| any_char()).collect();
        model::<4>(&[t], any_char());
    }
    fn c28_production_length() { model::<5>(&[text(8, 2), "abbab".chars().collect()], letter(2) as char); }
    fn c28_longer_thorough() { model::<4>(&[text(8, 3), text(3, 2)], letter(3) as char); }
}
