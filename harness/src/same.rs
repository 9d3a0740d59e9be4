//! That two indexes say the same.
use super::nd::*;
use indexer_lib::classic_indexes::ClassicIndexes;
use indexer_lib::data::Product;
use indexer_lib::ngram::{GramIndex, GramNode};

pub type Index<const N: usize> = GramIndex<'static, char, Product<'static>, N>;

pub fn node(a: &GramNode<'_, char>, b: &GramNode<'_, char>) {
    check(a.item == b.item, "the n-gram trees have the same symbols");
    check(a.weight.to_bits() == b.weight.to_bits(), "the n-gram trees have the same weights");
    check(a.by_occurances.len() == b.by_occurances.len() && a.items.len() == b.items.len(), "the n-gram trees have the same branches");
    for (x, y) in a.by_occurances.iter().zip(b.by_occurances.iter()) {
        node(x, y);
        match b.items.get(&x.item) {
            Some(z) => check(z.item == x.item && z.weight.to_bits() == x.weight.to_bits(), "branches are found by their symbol"),
            None => check(false, "branches are found by their symbol"),
        }
    }
}
pub fn grams<const N: usize>(a: &Index<N>, b: &Index<N>) {
    check(a.roots.len() == b.roots.len(), "no root is lost");
    for (k, x) in a.roots.iter() {
        match b.roots.get(k) { Some(y) => node(x, y), None => check(false, "every root is kept") }
    }
    check(a.data.len() == b.data.len(), "no n-gram is lost");
    for (k, x) in a.data.iter() {
        match b.data.get(k) {
            Some(y) => {
                check(x.len() == y.len(), "n-grams list as many products");
                for (p, q) in x.iter().zip(y.iter()) { check(p.serialization_id == q.serialization_id && p.id == q.id, "n-grams list the same products"); }
            }
            None => check(false, "every n-gram is kept"),
        }
    }
}
pub fn classic(a: &ClassicIndexes<'static>, b: &ClassicIndexes<'static>, p: &[Product<'static>], q: &[Product<'static>]) {
    check(a.categories.0.len() == b.categories.0.len(), "no category is lost");
    for (x, y) in a.categories.0.iter().zip(b.categories.0.iter()) {
        check(x.name == y.name && x.exclusive == y.exclusive, "categories keep their names");
        check(x.options.len() == y.options.len(), "no option is lost");
        for (o, r) in x.options.iter().zip(y.options.iter()) {
            check(o.name == r.name && o.serialization_id == r.serialization_id, "options keep their names and numbers");
            for (i, j) in p.iter().zip(q.iter()) { check(o.contains(i) == r.contains(j), "options keep their products"); }
        }
    }
    check(a.tags.iter().count() == b.tags.iter().count(), "no tag is lost");
    for (x, y) in a.tags.iter().zip(b.tags.iter()) {
        check(x.name == y.name && x.get_id() == y.get_id(), "tags keep their names and numbers");
        for (i, j) in p.iter().zip(q.iter()) { check(x.contains(i) == y.contains(j), "tags keep their products"); }
    }
    check(a.order.options().count() == b.order.options().count(), "no order is lost");
    for o in a.order.options() {
        match (a.order.get_orders(o), b.order.get_orders(o)) {
            (Some(x), Some(y)) => check(x == y, "orders are kept"),
            _ => check(false, "every order is kept"),
        }
    }
}
