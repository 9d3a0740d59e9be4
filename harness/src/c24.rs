//! C24: a tag is suggested for the first word that agrees best with one, in more than 80 percent of the characters.
//! bound: two tags of 3 to 6 characters and queries of one word of up to 6 or two of up to 4, out of two letters; three words; accented letters
//! bound: a tag and a word with 2 arbitrary characters each
//! bound: 300 tags, 70 words, and names of up to 140 characters; 20 unusual names
//! outside: longer names; more tags
use super::nd::*;
use super::world::*;

fn wide(n: usize) -> String {
    (0..n).map(|_| char::from_u32(['a', 'é', '漢'][pick(3)] as u32).unwrap()).collect()
}
fn judge(tags: &[&'static str], query: &str) {
    let mut s = Spec::new("p0");
    s.tags = tags.to_vec();
    load(&[s]);
    let (_, t) = handlers();
    let names: Vec<Vec<char>> = all_tags(&t).iter().map(|t| t.get_name().chars().collect()).collect();
    // which characters agree is decided first, one path each
    for w in query.split(' ') {
        for name in &names {
            for (a, b) in name.iter().zip(w.chars()) { fixed((*a == b) as u64); }
        }
    }
    let mut best: Option<(usize, usize, usize, String)> = None; // agreeing, of, tag, word
    for w in query.split(' ') {
        let word: Vec<char> = w.chars().collect();
        for (k, name) in names.iter().enumerate() {
            let of = std::cmp::min(name.len(), word.len());
            let agree = (0..of).filter(|i| name[*i] == word[*i]).count();
            if of < 3 || agree * 5 <= of * 4 { continue; }
            if best.as_ref().map_or(true, |b| agree * b.1 > b.0 * of) { best = Some((agree, of, k, w.to_string())); }
        }
    }
    match (indexer_lib::tag_suggestion(query), best) {
        (None, None) => { cover("nothing is suggested"); observe(0); }
        (Some(s), Some((agree, of, k, word))) => {
            let name: String = names[k].iter().collect();
            check(s.get_input() == word, "the word is the one that agrees best");
            check(s.get_tag().get_name() == name, "the tag is the one that agrees best");
            if agree < of { cover("a tag spelt a little differently"); }
            observe(1);
        }
        (Some(_), None) => check(false, "nothing is suggested that agrees too little"),
        (None, Some(_)) => check(false, "a tag that agrees is suggested"),
    }
}

entries! {
    fn c24_hundreds() {
        // one of 70 words that agrees, one of 300 tags; long names
        let mut tags = numbered("qqqqqq", 300);
        let (at, w, k) = (of(&[0usize, 127, 256, 299]), of(&[0usize, 31, 64, 69]), of(&[10usize, 70]));
        tags[at] = leak_str("kj".repeat(k));
        let mut words = vec!["zzzz"; 70];
        let word = "kj".repeat(k - 2) + &letters(2, 11);
        words[w] = leak_str(word.clone());
        let mut s = Spec::new("p0");
        s.tags = tags.clone();
        load(&[s]);
        match indexer_lib::tag_suggestion(&words.join(" ")) {
            Some(s) => check(s.get_tag().get_name() == tags[at] && s.get_input() == word, "the tag is the one that agrees best"),
            None => check(false, "a tag that agrees is suggested"),
        }
        cover("hundreds of tags");
    }
    fn c24_unusual() {
        judge(&[unusual(), "a name of"], of(&["", " ", "  aname", "a nam", "a name of more", "null ", "a,b", "a:b", " \"a\"", "ABC", "a-name"]));
    }
    fn c24_one_word() {
        let name = letters(range(3, 6), 2);
        let w = letters(range(0, 6), 2);
        judge(&[leak_str(name), "aabab"], &w);
    }
    fn c24_two_words() {
        let a = letters(range(2, 4), 2);
        let w = [letters(range(0, 4), 2), letters(3, 2)];
        judge(&[leak_str(a), "abaab"], &(w[0].clone() + " " + &w[1]));
    }
    fn c24_wide_characters() {
        let name = wide(3);
        judge(&[leak_str(name + "éé")], &(wide(2) + "aéé"));
    }
    fn c24_any_characters() {
        let name: String = (0..2).map(|_| any_char()).collect();
        let w: String = (0..2).map(|_| any_char()).collect();
        for c in w.chars() { assume(c != ' '); }
        judge(&[leak_str(name + "abcd")], &(w + of(&["", "ab", "abcd", "abce"])));
    }
    fn c24_two_tags() {
        let (a, b) = (letters(6, 2), letters(5, 2));
        judge(&[leak_str(a), leak_str(b)], "ababaa");
    }
    fn c24_many_words() {
        let w: Vec<String> = vec![letters(6, 2), "abbaba".to_string(), letters(5, 2)];
        judge(&["abbabb", "babbab"], &w.join(" "));
    }
}
