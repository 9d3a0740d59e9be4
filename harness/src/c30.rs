//! C30: products written as JSON are indexed like products handed over directly; anything else is refused.
//! bound: one and two products with arbitrary letters in every text; arbitrary bytes inside a title and a description; documents of up to 4 arbitrary ASCII bytes
//! bound: a document cut off anywhere; each field missing or of a wrong type; unknown fields; any white space at three places
//! bound: documents of 128 and 257 products
//! bound: prices of 12 texts that are no numbers
//! outside: documents of 4 bytes with a decimal point or exponent; escapes in texts other than descriptions; larger documents
use super::nd::*;
use super::world::*;

struct Text {
    title: String,
    description: String,
    price: &'static str,
}
const FIELDS: usize = 8;
/// One product, `skip` left out, `wrong` of another type.
fn product(id: &str, t: &Text, tag: &str, skip: usize, wrong: usize) -> String {
    let url = "u".to_string() + id;
    let money = |a: &str| "{\"amount\":\"".to_string() + a + "\",\"currencyCode\":\"DKK\"}";
    let fields = [
        "\"description\":\"".to_string() + &t.description + "\"",
        "\"tags\":[\"".to_string() + tag + "\",\"all\"]",
        "\"title\":\"".to_string() + &t.title + "\"",
        "\"vendor\":\"maker\"".to_string(),
        "\"id\":\"".to_string() + id + "\"",
        "\"options\":[{\"name\":\"size\",\"values\":[\"s\",\"m\"]}]".to_string(),
        "\"price\":{\"min\":".to_string() + &money(t.price) + ",\"max\":" + &money("9") + "}",
        "\"media\":[{\"url\":\"".to_string() + &url + "\"}]",
    ];
    let mut out = "{".to_string();
    for (i, f) in fields.iter().enumerate() {
        if i == skip { continue; }
        if out.len() > 1 { out.push(','); }
        if i == wrong {
            out += &f[..f.find(':').unwrap()];
            out += ":7";
        } else { out += f; }
    }
    out + "}"
}
fn plain_text() -> Text { Text { title: "abcde".to_string(), description: String::new(), price: "3" } }
fn one(t: &Text, skip: usize, wrong: usize) -> String {
    "{\"k\":".to_string() + &product("p0", t, "red", skip, wrong) + "}"
}
fn indexed(json: String) -> Option<Vec<u8>> {
    indexer_lib::index(leak_str(json))
}
fn loaded(json: String) -> bool {
    match indexed(json) {
        Some(b) => {
            check(indexer_lib::initialize(leak(b)), "what is indexed can be loaded");
            true
        }
        None => false,
    }
}

/// A list of fields, one of them left out, of another type, null or twice.
struct Spoilt { at: usize, how: usize, next: usize }
impl Spoilt {
    fn field(&mut self, out: &mut String, key: &str, value: &str) {
        let me = self.next;
        self.next += 1;
        if me == self.at && self.how == 0 { return; }
        for _ in 0..(if me == self.at && self.how == 3 { 2 } else { 1 }) {
            if !out.is_empty() { out.push(','); }
            *out += "\"";
            *out += key;
            *out += "\":";
            *out += match self.how { 1 if me == self.at => "7", 2 if me == self.at => "null", _ => value };
        }
    }
    fn of(&mut self, fields: &[(&str, &str)]) -> String {
        let mut out = String::new();
        for (k, v) in fields { self.field(&mut out, k, v); }
        "{".to_string() + &out + "}"
    }
    fn product(at: usize, how: usize) -> (String, bool) {
        let mut s = Spoilt { at, how, next: 0 };
        let min = s.of(&[("amount", "\"3\""), ("currencyCode", "\"DKK\"")]);
        let max = s.of(&[("amount", "\"9\""), ("currencyCode", "\"DKK\"")]);
        let price = s.of(&[("min", &min), ("max", &max)]);
        let option = s.of(&[("name", "\"size\""), ("values", "[\"s\",\"m\"]")]);
        let media = s.of(&[("url", "\"u\"")]);
        let options = "[".to_string() + &option + "]";
        let media = "[".to_string() + &media + "]";
        let p = s.of(&[("description", "\"d\""), ("tags", "[\"t\"]"), ("title", "\"abcde\""), ("vendor", "\"maker\""), ("id", "\"p0\""), ("options", &options), ("price", &price), ("media", &media)]);
        ("{\"k\":".to_string() + &p + "}", at < s.next)
    }
}

entries! {
    fn c30_prices() {
        const P: [(&str, bool); 16] = [("", false), ("abc", false), ("NaN", false), ("nan", false), ("-NaN", false), ("1,5", false), ("1e", false), ("0x1", false),
            (" 1", false), ("1 ", false), ("1.2.3", false), ("--1", false), ("1", true), ("+1", true), (".5", true), ("1e1", true)];
        let (a, b) = (pick(16), of(&[12usize, 2, 1]));
        let (mut t, mut u) = (plain_text(), plain_text());
        t.price = P[a].0;
        u.price = P[b].0;
        let json = "{\"a\":".to_string() + &product("p0", &t, "red", 9, 9) + ",\"b\":" + &product("p1", &u, "red", 9, 9) + "}";
        let fine = P[a].1 && P[b].1;
        check(loaded(json) == fine, "products whose price is not a number are refused");
        if fine { cover("read"); } else { cover("refused"); }
    }
    fn c30_hundreds() {
        let n = of(&[128usize, 257]);
        let mut json = "{".to_string();
        for i in 0..n {
            if i > 0 { json.push(','); }
            json += &format!("\"k{}\":", i);
            let t = Text { title: (if i % 2 == 0 { "abcde" } else { "vwxyz" }).to_string() + &i.to_string(), description: String::new(), price: "3" };
            json += &product(&format!("p{}", i), &t, "red", 9, 9);
        }
        if !loaded(json + "}") { check(false, "products in JSON are indexed"); return; }
        let (c, h) = handlers();
        let mut p = match indexer_lib::search("abcde", &c, &h, None, &nothing()) { Some(p) => p, None => { check(false, "a search gives results"); return } };
        let mut seen = vec![false; n];
        while let Some(j) = p.next_product() {
            let i: usize = j.get_id()[1..].parse().unwrap();
            check(!seen[i] && i % 2 == 0, "a product is found once");
            seen[i] = true;
            check(j.get_title() == "abcde".to_string() + &i.to_string(), "texts are read");
            check(j.string_feature("image_url") == Some("up".to_string() + &i.to_string()), "the image is read");
        }
        check((0..n).all(|i| seen[i] == (i % 2 == 0)), "every product is read");
        cover("hundreds of products");
    }
    fn c30_any_field_spoilt() {
        let (json, spoilt) = Spoilt::product(pick(18), pick(4));
        check(loaded(json) == !spoilt, "a product without a field, or with one of another type or twice, is refused");
        if spoilt { cover("refused"); } else { cover("read"); }
    }
    fn c30_spoilt_lists() {
        // an element of another type among others, and lists of any length
        let list = |good: &str, bad: &str, n: usize, at: usize| {
            let v: Vec<&str> = (0..n).map(|i| if i == at { bad } else { good }).collect();
            "[".to_string() + &v.join(",") + "]"
        };
        let (which, n, at) = (pick(4), pick(4), pick(4));
        let of = |k: usize, good: &str, bad: &str| if k == which { list(good, bad, n, at) } else { list(good, bad, 1, 9) };
        let bad = ["7", "null", "[]"][pick(3)];
        let json = "{\"k\":{\"description\":\"\",\"tags\":".to_string() + &of(0, "\"a\"", bad)
            + ",\"title\":\"abcde\",\"vendor\":\"v\",\"id\":\"p0\",\"options\":" + &of(1, "{\"name\":\"c\",\"values\":[]}", bad)
            + ",\"price\":{\"min\":{\"amount\":\"1\",\"currencyCode\":\"D\"},\"max\":{\"amount\":\"1\",\"currencyCode\":\"D\"}},\"media\":" + &of(2, "{\"url\":\"u\"}", bad) + "}}";
        let spoilt = which < 3 && at < n;
        check(loaded(json) == !spoilt, "a list with something of another type in it is refused");
        if !spoilt { cover("read"); }
    }
    fn c30_texts() {
        let t = [
            Text { title: "abcd".to_string() + &letters(1, 26), description: letters(1, 26), price: "3" },
            Text { title: "vwxyz".to_string(), description: String::new(), price: "19.95" },
        ];
        let tags = [letters(1, 26), "blue".to_string()];
        let json = "{\"a\":".to_string() + &product("p0", &t[0], &tags[0], 9, 9) + ",\"b\":" + &product("p1", &t[1], &tags[1], 9, 9) + "}";
        if !loaded(json) { check(false, "products in JSON are indexed"); return; }
        let (c, h) = handlers();
        for tag_ in [tags[0].as_str(), tags[1].as_str(), "all"] { check(tag(&h, tag_).is_some(), "tags are read"); }
        check(all_tags(&h).len() == 3, "tags are read once");
        check(option(&c, "size", "s").is_some() && option(&c, "size", "m").is_some(), "options are read");
        for (k, q) in [(0, t[0].title[..5].to_string()), (1, "vwxyz".to_string())] {
            let mut p = match indexer_lib::search(&q, &c, &h, None, &nothing()) { Some(p) => p, None => { check(false, "a search gives results"); return } };
            let mut n = 0;
            while let Some(j) = p.next_product() {
                n += 1;
                check(j.get_id() == IDS[k] && j.get_title() == t[k].title && j.get_description() == t[k].description, "texts are read");
                check(j.numeric_feature("price").map(|v| v as f32) == Some([3.0f32, 19.95][k]), "the lower price is read");
                check(j.string_feature("image_url") == Some("u".to_string() + IDS[k]), "the image is read");
            }
            check(n == 1, "a product is found by its title");
        }
        cover("two products");
    }
    fn c30_any_title_byte() {
        let b = bits(7) as u8;
        let mut t = plain_text();
        t.title = "abcde".to_string() + std::str::from_utf8(&[b]).unwrap();
        // texts are borrowed from the document, so they cannot hold escapes
        let fine = b >= 32 && b != b'"' && b != b'\\';
        let ok = loaded(one(&t, 9, 9));
        check(ok == fine, "a text of plain characters is read, and no other");
        if ok { cover("read"); } else { cover("refused"); }
    }
    fn c30_escapes_in_descriptions() {
        let mut t = plain_text();
        let b = bits(7) as u8;
        t.description = "\\".to_string() + std::str::from_utf8(&[b]).unwrap();
        let fine = b"\"\\/bfnrt".contains(&b);
        let ok = loaded(one(&t, 9, 9));
        check(ok == fine, "known escapes are read, and no others");
        if ok {
            cover("an escape");
            check(indexer_lib::get_tags().is_some(), "the index is there");
        }
    }
    fn c30_cut_off() {
        let json = one(&plain_text(), 9, 9);
        let cut = pick(json.len() + 1);
        let whole = cut == json.len();
        check(loaded(json[..cut].to_string()) == whole, "a document cut off is refused");
    }
    fn c30_missing_fields() {
        let skip = pick(FIELDS + 1);
        check(loaded(one(&plain_text(), skip, 9)) == (skip == FIELDS), "a product without a field is refused");
    }
    fn c30_wrong_types() {
        let wrong = pick(FIELDS + 1);
        check(loaded(one(&plain_text(), 9, wrong)) == (wrong == FIELDS), "a product with a field of another type is refused");
    }
    fn c30_unknown_fields_and_blanks() {
        let blank = [of(&[" ", "\n", "\t", "x", ""]), of(&["\r", "", ","])];
        let more = of(&["", "\"more\":[{\"a\":null}],", "\"more\":tru,"]);
        let json = blank[0].to_string() + "{\"k\":{" + more + &one(&plain_text(), 9, 9)[6..] + blank[1];
        let fine = blank[0] != "x" && blank[1] != "," && !more.contains("tru,");
        check(loaded(json) == fine, "blanks and other fields change nothing");
    }
    fn c30_nothing() {
        check(loaded("{}".to_string()), "an empty shop is indexed");
        let (c, t) = handlers();
        check(find("abcde", &c, &t, None, &nothing()).map(|f| f.len()) == Some(0), "nothing is found in an empty shop");
        check(!loaded(of(&["[]", "", "null", "{", "7", "\"k\""]).to_string()), "what is no object is refused");
    }
    fn c30_any_bytes() {
        let s = ascii(range(0, 4));
        // the decimal in the error message for a document like 1.5 is beyond the solver
        for b in s.bytes() { assume(b != b'.' && b != b'e' && b != b'E'); }
        let ok = loaded(s);
        if ok { cover("an empty object"); }
    }
}
