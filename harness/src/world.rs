//! Catalogues for the harnesses, made through the library's public interface.
use super::nd::*;
use colosseum::sync::Arena;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::{optimize, FeatureSet, Product, ProductContainer, RawProduct, RawProductOption, SuperAlloc};
use indexer_lib::js_interactable::{CategoryHandler, ExportCategoryOption, JSTag, TagHandler};
use indexer_lib::ngram::{GramAtom, GramIndex, IndexFeed};
use indexer_lib::serialize::{Deserializable, Serializable};

pub type Options = Vec<(&'static str, Vec<&'static str>)>;

pub struct Spec {
    pub description: String,
    pub tags: Vec<&'static str>,
    pub title: &'static str,
    pub vendor: &'static str,
    pub id: &'static str,
    pub options: Options,
    pub price: &'static str,
    pub media: Vec<&'static str>,
}
impl Spec {
    pub fn new(id: &'static str) -> Spec {
        Spec { description: String::new(), tags: vec![], title: "", vendor: "v", id, options: vec![], price: "1", media: vec![] }
    }
    pub fn raw(&self) -> RawProduct<'static> {
        // The price and media types have no public name, so they come from JSON.
        let json = match self.media.len() {
            0 => r#"{"description":"","tags":[],"title":"","vendor":"","id":"","options":[],"price":{"min":{"amount":"1","currencyCode":"D"},"max":{"amount":"2","currencyCode":"D"}},"media":[]}"#,
            1 => r#"{"description":"","tags":[],"title":"","vendor":"","id":"","options":[],"price":{"min":{"amount":"1","currencyCode":"D"},"max":{"amount":"2","currencyCode":"D"}},"media":[{"url":""}]}"#,
            _ => r#"{"description":"","tags":[],"title":"","vendor":"","id":"","options":[],"price":{"min":{"amount":"1","currencyCode":"D"},"max":{"amount":"2","currencyCode":"D"}},"media":[{"url":""},{"url":""}]}"#,
        };
        let mut r: RawProduct<'static> = match serde_json::from_str(json) {
            Ok(r) => r,
            Err(_) => panic!("a product in JSON"),
        };
        r.description = self.description.clone();
        r.tags = self.tags.clone();
        r.title = self.title;
        r.vendor = self.vendor;
        r.id = self.id;
        for (name, values) in &self.options {
            r.options.push(RawProductOption { name, values: values.clone() });
        }
        r.price.min.amount = self.price.to_string();
        for (i, m) in self.media.iter().enumerate() {
            r.media[i].url = m;
        }
        r
    }
}

pub const IDS: [&str; 12] = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11"];

/// That many different texts.
pub fn numbered(prefix: &str, n: usize) -> Vec<&'static str> {
    (0..n).map(|i| leak_str(prefix.to_string() + &i.to_string())).collect()
}
pub fn hundreds(n: usize, f: impl Fn(usize, &mut Spec)) -> Vec<Spec> {
    numbered("p", n).into_iter().enumerate().map(|(i, id)| { let mut s = Spec::new(id); f(i, &mut s); s }).collect()
}

pub type Built = (&'static ProductContainer<'static>, ClassicIndexes<'static>);
pub fn build(specs: &[Spec]) -> Built {
    optimize(specs.iter().map(|s| s.raw()).collect(), leak(SuperAlloc::new()))
}
/// `n` products that differ in their id only.
pub fn plain(n: usize) -> &'static ProductContainer<'static> {
    plain_with(n, &FeatureSet::new_empty())
}
/// The same with these features.
pub fn plain_with(n: usize, features: &FeatureSet) -> &'static ProductContainer<'static> {
    let mut b: Vec<u8> = Vec::with_capacity(32 + n * 8);
    1usize.serialize(&mut |x| b.push(x));
    "v".to_string().serialize(&mut |x| b.push(x));
    n.serialize(&mut |x| b.push(x));
    for i in 0..n {
        String::new().serialize(&mut |x| b.push(x));
        String::new().serialize(&mut |x| b.push(x));
        let id = String::from_utf8(vec![b'p', b'0' + (i / 100) as u8, b'0' + (i / 10 % 10) as u8, b'0' + (i % 10) as u8]).unwrap();
        id.serialize(&mut |x| b.push(x));
        0usize.serialize(&mut |x| b.push(x));
    }
    features.serialize(&mut |x| b.push(x));
    let b: &'static Vec<u8> = leak(b);
    match ProductContainer::deserialize(b, leak(SuperAlloc::new())) {
        Some((_, c)) => leak(c),
        None => panic!("a container of plain products"),
    }
}
/// The index of one text per product.
pub fn index<G: GramAtom + Send + 'static, const N: usize>(c: &'static ProductContainer<'static>, texts: &[Vec<G>]) -> GramIndex<'static, G, Product<'static>, N> {
    let feeds = texts.iter().zip(c.products.iter()).map(|(t, p)| IndexFeed { data: p, grams: t.iter().copied() });
    GramIndex::index_from(feeds, leak(Arena::new()), c)
}
pub fn bytes_of<T: Serializable>(v: &T) -> Vec<u8> {
    let mut b = Vec::with_capacity(64);
    v.serialize(&mut |x| b.push(x));
    b
}
pub fn from_bytes<T: Deserializable>(b: &[u8]) -> Option<T> {
    let (rest, v) = T::deserialize(b)?;
    check(rest.is_empty(), "nothing is left over");
    Some(v)
}
pub fn two_products() -> Built {
    let mut a = Spec::new("p0");
    a.description = "ab".to_string();
    a.tags = vec!["x"];
    a.options = vec![("c", vec!["o"])];
    let mut b = Spec::new("p1");
    b.description = "ac".to_string();
    b.vendor = "w";
    build(&[a, b])
}
pub fn encoded<const N: usize>(texts: &[&str]) -> Vec<u8> {
    let (c, classic) = two_products();
    let texts: Vec<Vec<char>> = texts.iter().map(|t| t.chars().collect()).collect();
    let ix = index::<char, N>(c, &texts);
    indexer_lib::serialize::serialize_all(&ix, &classic)
}

/// Indexes the products as a shop does, and loads the result.
pub fn load(specs: &[Spec]) -> &'static Vec<u8> {
    let b = leak(written(specs));
    check(indexer_lib::initialize(b), "a written index can be loaded");
    b
}
pub fn written(specs: &[Spec]) -> Vec<u8> {
    match indexer_lib::index_and_serialize(specs.iter().map(|s| s.raw()).collect(), leak(SuperAlloc::new())) {
        Ok(b) => b,
        Err(_) => panic!("products can be indexed"),
    }
}
pub fn nothing() -> js_sys::Object {
    js_sys::Object::literal(vec![])
}
/// The ids a search gives, in order.
pub fn find(query: &str, c: &CategoryHandler, t: &TagHandler, order: Option<&str>, filter: &js_sys::Object) -> Option<Vec<String>> {
    let mut p = indexer_lib::search(query, c, t, order.map(|o| o.to_string()), filter)?;
    let mut out = vec![];
    while let Some(j) = p.next_product() {
        out.push(j.get_id());
    }
    Some(out)
}
pub fn handlers() -> (CategoryHandler, TagHandler) {
    match (indexer_lib::get_categories(), indexer_lib::get_tags()) {
        (Some(c), Some(t)) => (c, t),
        _ => panic!("an index is loaded"),
    }
}
pub fn all_tags(t: &TagHandler) -> Vec<JSTag> {
    let mut i = t.tags();
    let mut out = vec![];
    while let Some(t) = i.next_tag() {
        out.push(t);
    }
    out
}
pub fn tag(t: &TagHandler, name: &str) -> Option<JSTag> {
    all_tags(t).into_iter().find(|t| t.get_name() == name)
}
/// The categories and their options.
pub fn all_options(c: &CategoryHandler) -> Vec<(String, Vec<ExportCategoryOption>)> {
    let mut i = c.iter();
    let mut out = vec![];
    while let Some(mut o) = i.next_item() {
        let name = o.name();
        let mut of = vec![];
        while let Some(o) = o.next_item() {
            of.push(o);
        }
        out.push((name, of));
    }
    out
}
pub fn option(c: &CategoryHandler, category: &str, name: &str) -> Option<ExportCategoryOption> {
    all_options(c).into_iter().find(|o| o.0 == category)?.1.into_iter().find(|o| o.get_name() == name)
}
