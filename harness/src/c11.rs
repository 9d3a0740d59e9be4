//! C11: the fuzzy lookup finds the likeliest n-gram within one typing mistake.
//! bound: any text of 5 symbols and any query (N=3, N=4); any text of 3 and any query of 2 (N=2); a fixed text of 15 and any query of 5 (N=5)
//! bound: two texts, 4 to 6 symbols of them among three letters, and any query over two to three letters (N=3, N=4, N=5); thorough: 11 symbols
//! bound: an n-gram symbol followed by seven others (N=3)
//! outside: longer texts; n-grams longer than 5; confidences are compared with a tolerance of one in 10000
use super::nd::*;
use super::world::*;

fn count(texts: &[Vec<char>], gram: &[char]) -> usize {
    let mut n = 0;
    for t in texts {
        if t.len() >= gram.len() {
            for i in 0..t.len() - gram.len() + 1 {
                if t[i..i + gram.len()] == *gram { n += 1; }
            }
        }
    }
    n
}
/// Whether `gram` is what was typed, up to one wrong or one forgotten symbol after the first.
fn close<const N: usize>(gram: &[char], typed: &[char; N]) -> bool {
    if gram[0] != typed[0] { return false; }
    if N < 3 { return gram == &typed[..]; }
    let wrong = (0..N).filter(|i| gram[*i] != typed[*i]).count();
    wrong <= 1 || (1..N).any(|k| gram[..k] == typed[..k] && gram[k + 1..] == typed[k..N - 1])
}
fn model<const N: usize>(texts: &[Vec<char>], typed: [char; N]) {
    let c = plain(texts.len());
    let ix = index::<char, N>(c, texts);
    let found = ix.search_gram(typed);
    // The weights along a path multiply up to its share of its first symbol.
    let mut best = 0;
    let mut known = false;
    for t in texts {
        for w in t.windows(N) {
            if close::<N>(w, &typed) {
                best = std::cmp::max(best, count(texts, w));
                known |= w == &typed[..];
            }
        }
    }
    let first = count(texts, &typed[..1]);
    match found {
        None => {
            check(best == 0, "an n-gram within one mistake is found");
            cover("nothing is close enough");
            observe(0);
        }
        Some((g, w)) => {
            check(best > 0, "nothing is found when nothing is close enough");
            check(close::<N>(&g, &typed), "what is found is within one mistake of the query");
            let mine = count(texts, &g);
            check(mine > 0, "what is found was indexed");
            check(mine == best, "the likeliest n-gram is found");
            let share = mine as f64 / first as f64;
            let d = w as f64 - share;
            check((if d < 0.0 { -d } else { d }) < 1e-4, "the confidence is the share of the first symbol's occurrences");
            if g == typed { cover("found as typed"); } else {
                cover("found with a correction");
                if known { cover("a likelier n-gram than the one typed"); }
            }
            observe(mine as u64);
        }
    }
}
fn text(n: usize, letters: usize) -> Vec<char> {
    (0..n).map(|_| letter(letters as u8) as char).collect()
}

entries! {
    fn c11_trigrams() {
        let t: Vec<char> = (0..5).map(|_| any_char()).collect();
        model::<3>(&[t], [any_char(), any_char(), any_char()]);
    }
    fn c11_trigrams_of_few_letters() {
        map_order();
        let q = [2, 3, 3].map(|k| letter(k) as char);
        model::<3>(&[text(6, 3), vec!['a', 'b', 'c']], q);
    }
    fn c11_fourgrams() {
        let q = [2, 3, 3, 3].map(|k| letter(k) as char);
        let mut t = vec!['a'];
        t.extend(text(4, 3));
        model::<4>(&[t, "abccabacbb".chars().collect()], q);
    }
    fn c11_fivegrams() {
        let q = [1, 3, 3, 3, 3].map(|k| letter(k) as char);
        let mut t: Vec<char> = "abc".chars().collect();
        t.extend(text(5, 3));
        model::<5>(&[t, "acbcabbcb".chars().collect()], q);
    }
    fn c11_fivegrams_any_typed() {
        let q = [any_char(), any_char(), any_char(), any_char(), any_char()];
        model::<5>(&["abcdeabcdfabxde".chars().collect()], q);
    }
    fn c11_fourgrams_any() {
        let t: Vec<char> = (0..5).map(|_| any_char()).collect();
        model::<4>(&[t], [any_char(), any_char(), any_char(), any_char()]);
    }
    fn c11_longer_texts_thorough() {
        model::<3>(&[text(8, 3), text(3, 3)], [2, 3, 4].map(|k| letter(k) as char));
    }
    fn c11_more_fivegrams_thorough() {
        let mut t: Vec<char> = "ab".chars().collect();
        t.extend(text(7, 3));
        model::<5>(&[t, "acbcabbcb".chars().collect()], [2, 3, 4, 4, 4].map(|k| letter(k) as char));
    }
    fn c11_bigrams() {
        let t: Vec<char> = (0..3).map(|_| any_char()).collect();
        model::<2>(&[t], [any_char(), any_char()]);
    }
    fn c11_many_branches() {
        // a symbol followed by seven others: any of them may be the likeliest that fits
        let after = ['b', 'c', 'd', 'e', 'f', 'g', 'h'];
        let mut texts: Vec<Vec<char>> = vec![];
        for (i, l) in after.iter().enumerate() {
            let ends = [if i == 6 { 'v' } else { 'x' }, 'y', 'x'];
            for k in 0..(7 - i) { texts.push(vec!['a', *l, ends[k % 3]]); }
        }
        let at = range(0, 6);
        texts.push(vec!['a', after[at], 'w']);
        model::<3>(&texts, ['a', letter(11) as char, of(&['v', 'w', 'x', 'y', 'z'])]);
        cover("many branches");
    }
}
