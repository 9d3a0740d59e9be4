//! C09: n-grams of more than 80 percent of the products, and only those, are dropped.
//! bound: 1 to 9 products, each with the n-gram not at all, once or twice; 10 to 49, 50, 99, 100, 101, 130, 255, 256, 257, 300, 400, 1023 to 1025 and 1300 products around the limit
//! outside: other catalogue sizes
use super::nd::*;
use super::world::*;

fn cutoff(times: &[usize]) {
    let c = plain(times.len());
    let texts: Vec<Vec<char>> = times.iter().map(|n| match n { 0 => vec!['x', 'y'], 1 => vec!['a', 'b'], _ => vec!['a', 'b', 'a', 'b'] }).collect();
    let ix = index::<char, 2>(c, &texts);
    let having = times.iter().filter(|n| **n > 0).count();
    let kept = ix.data.contains_key(&['a', 'b']);
    if having > 0 {
        check(kept == (having * 5 <= times.len() * 4), "an n-gram is kept if and only if at most 80 percent of the products have it");
        if kept { cover("kept"); } else { cover("dropped"); }
        if kept && having * 5 == times.len() * 4 { cover("kept at exactly 80 percent"); }
        if !kept { check(ix.search(['a', 'b'].into_iter()).is_empty(), "a dropped n-gram finds nothing"); }
        if let Some(list) = ix.data.get(&['a', 'b']) {
            check(list.len() == times.iter().sum::<usize>(), "a kept n-gram lists every occurrence");
            check(list.windows(2).all(|w| w[0].serialization_id <= w[1].serialization_id), "in the order of the products");
        }
    } else { check(!kept, "no n-gram is made up"); }
    observe(kept as u64);
}

entries! {
    fn c09_few_products() {
        let n = range(1, 6);
        let t: Vec<usize> = (0..n).map(|_| pick(3)).collect();
        cutoff(&t);
    }
    fn c09_some_products() {
        let n = range(7, 9);
        let t: Vec<usize> = (0..n).map(|_| flip() as usize).collect();
        cutoff(&t);
    }
    fn c09_symbolic_texts() {
        // any text of two letters for each product
        let texts: Vec<Vec<char>> = (0..5).map(|_| { let c = any_char(); assume(c != '\0'); vec![c, 'b'] }).collect();
        let c = plain(5);
        let ix = index::<char, 2>(c, &texts);
        for t in &texts {
            let having = texts.iter().filter(|u| *u == t).count();
            check(ix.data.contains_key(&[t[0], 'b']) == (having <= 4), "an n-gram is kept if and only if at most 80 percent of the products have it");
        }
    }
    fn c09_many_products() {
        let n = of(&[50usize, 99, 100, 101, 130, 255, 256, 257, 300, 400]);
        around(n);
        cover("many products");
    }
    fn c09_around_the_limit() { around(range(10, 49)); }
    fn c09_thousands() { around(of(&[1023usize, 1024, 1025, 1300])); }
}
fn around(n: usize) {
    let having = (n * 4 / 5 + pick(3)).saturating_sub(1);
    let first = flip();
    let twice = flip();
    let t: Vec<usize> = (0..n).map(|i| ((if first { i < having } else { i >= n - having }) as usize) * (1 + twice as usize)).collect();
    cutoff(&t);
}
