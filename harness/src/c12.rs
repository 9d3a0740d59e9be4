//! C12: a search lists each matching product once, by its summed confidence.
//! bound: two to three products with texts of up to 4 symbols among three letters, and queries of up to 4 (N=2, N=3); queries of 7 (N=5)
//! bound: products sharing an id; one text and a query of any characters
//! bound: 300 products, most of them matching
//! outside: longer texts and queries; confidences are compared with a tolerance of one in 10000; the order of equal confidences
use super::nd::*;
use super::world::*;

fn near(a: f32, b: f32) -> bool {
    let d = a - b;
    (if d < 0.0 { -d } else { d }) <= 1e-4 * (1.0 + b)
}
/// How often `gram` is in `text` - also at its start, where blanks come before it.
fn count(text: &[char], gram: &[char]) -> usize {
    let n = gram.len();
    (0..text.len()).filter(|end| (0..n).all(|k| gram[n - 1 - k] == if *end >= k { text[*end - k] } else { '\0' })).count()
}
fn search<const N: usize>(c: &'static indexer_lib::data::ProductContainer<'static>, texts: &[Vec<char>], query: &[char]) {
    let ix = index::<char, N>(c, texts);
    let n = c.products.len();
    let mut wanted = vec![0.0f32; n];
    let mut hit = vec![false; n];
    for end in 0..query.len() {
        let mut w = ['\0'; N];
        for k in 0..N { if end >= k { w[N - 1 - k] = query[end - k]; } }
        if w[0] == '\0' { continue; } // nothing was indexed under a blank
        if let Some((gram, confidence)) = ix.search_gram(w) {
            let of: Vec<usize> = texts.iter().map(|t| count(t, &gram)).collect();
            let distinct = of.iter().filter(|k| **k > 0).count();
            if distinct * 5 > n * 4 { cover("an n-gram says too little"); continue; }
            for (i, k) in of.iter().enumerate() {
                // products of one id are one result
                let first = (0..n).find(|j| c.products[*j].id == c.products[i].id).unwrap();
                if *k > 0 { hit[first] = true; }
                for _ in 0..*k { wanted[first] += confidence; }
            }
        }
    }
    let found = ix.search(query.iter().copied());
    let mut last = f32::INFINITY;
    let mut seen = vec![false; n];
    for (p, confidence) in &found {
        check(*confidence <= last, "the most confident result comes first");
        last = *confidence;
        let first = (0..n).find(|j| c.products[*j].id == p.id).unwrap();
        check(!seen[first], "a product is listed once");
        seen[first] = true;
        check(hit[first], "every result matches the query");
        check(near(*confidence, wanted[first]), "the confidence is the sum over the query");
        let at = p.serialization_id;
        check(at < n && std::ptr::eq(*p, &c.products[at]), "results are products of the catalogue");
    }
    check((0..n).all(|i| !hit[i] || seen[i]), "every match is listed");
    match found.len() {
        0 => cover("no result"),
        1 => cover("one result"),
        _ => cover("several results"),
    }
    // which of two equally close n-grams is taken depends on the order of hash maps,
    // so the number of results is no prediction
}
fn text(n: usize, k: u8) -> Vec<char> {
    (0..n).map(|_| letter(k) as char).collect()
}

entries! {
    fn c12_hundreds() {
        // results and confidences of 300 products; the best is one of many
        let best = of(&[0usize, 127, 128, 255, 256, 299]);
        let c = plain(300);
        let l = letter(2) as char;
        let texts: Vec<Vec<char>> = (0..300).map(|i| if i == best { vec!['a', 'b', 'a', 'b', 'b', l] } else if i % 2 == 0 { vec!['a', 'b'] } else { vec!['b', 'b', 'c'] }).collect();
        search::<2>(c, &texts, &['a', 'b', 'b', l]);
        cover("hundreds of products");
    }
    fn c12_bigrams() {
        map_order();
        search::<2>(plain(3), &[text(3, 3), text(2, 2), vec!['c', 'b']], &text(3, 3));
    }
    fn c12_trigrams() {
        search::<3>(plain(3), &[text(4, 2), "abcab".chars().collect(), "cbabc".chars().collect()], &text(4, 3));
    }
    fn c12_any_characters() {
        let t: Vec<char> = (0..3).map(|_| any_char()).collect();
        let q: Vec<char> = (0..4).map(|_| any_char()).collect();
        for c in q.iter().chain(t.iter()) { assume(*c != '\0'); }
        search::<3>(plain(2), &[t, vec!['x']], &q);
    }
    fn c12_production_length() {
        let mut t = text(4, 2);
        t.extend("cab".chars());
        search::<5>(plain(2), &[t, "bacabcabac".chars().collect()], &text(7, 3));
    }
    fn c12_shared_ids() {
        let ids = ["p", leak_str(letters(1, 16)), "q"];
        let specs: Vec<Spec> = ids.iter().map(|i| Spec::new(i)).collect();
        let (c, _) = build(&specs);
        search::<2>(c, &[text(3, 2), text(2, 2), vec!['a', 'c']], &text(2, 3));
    }
    fn c12_many_products() {
        // around the number of products that makes an n-gram useless
        let have = range(7, 9);
        let texts: Vec<Vec<char>> = (0..10).map(|i| if i < have { vec!['a', 'b', letter(2) as char] } else { text(2, 2) }).collect();
        search::<3>(plain(10), &texts[..], &['a', 'b', 'a', 'b', 'b']);
    }
    fn c12_longer_thorough() {
        search::<3>(plain(3), &[text(6, 3), text(5, 2), "cbabc".chars().collect()], &text(5, 3));
    }
}
