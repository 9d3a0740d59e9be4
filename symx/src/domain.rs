//! Exact reasoning about conditions on a single narrow input: the values the input
//! can still have, and the value of a term for each of them.
use crate::expr::*;
use std::cell::RefCell;
use std::sync::Arc;

pub const NARROW: u32 = 8;
pub type Bits = [u64; 4];
thread_local! { static TABLES: RefCell<IdMap<Arc<Vec<u64>>>> = RefCell::new(IdMap::default()); }

pub fn narrow(e: &Ex) -> bool { e.on != 0 && e.on != MANY && e.onw <= NARROW && e.w <= 64 }
/// The term's value for every value of its only input.
pub fn table(e: &Ex) -> Option<Arc<Vec<u64>>> {
    if !narrow(e) { return None; }
    TABLES.with(|t| {
        let mut t = t.borrow_mut();
        if t.len() > 20_000 { t.clear(); }
        go(e, 1 << e.onw, &mut t)
    })
}
fn go(e: &Ex, n: usize, t: &mut IdMap<Arc<Vec<u64>>>) -> Option<Arc<Vec<u64>>> {
    if let Some(x) = t.get(&e.h) { return Some(x.clone()); }
    if e.w > 64 { return None; }
    let r: Vec<u64> = if e.op == Op::Var { (0..n as u64).collect() } else {
        let mut kids = vec![];
        for k in &e.k {
            if k.w > 64 { return None; }
            kids.push(match k.val() { Some(v) => Err(v), None => Ok(go(k, n, t)?) });
        }
        let kw = e.k[0].w;
        let lw = e.k.get(1).map(|k| k.w).unwrap_or(0);
        (0..n).map(|i| {
            let mut a = [0u128; 3];
            for (j, k) in kids.iter().enumerate() { a[j] = match k { Ok(v) => v[i] as u128, Err(c) => *c }; }
            (if e.op == Op::Concat { (a[0] << lw) | a[1] } else { fold(e.op, e.w, e.c, kw, &a[..kids.len()]) }) as u64
        }).collect()
    };
    let r = Arc::new(r);
    t.insert(e.h, r.clone());
    Some(r)
}
pub fn full(w: u32) -> Bits {
    let n = 1usize << w;
    let mut b = [0; 4];
    for i in 0..4 { b[i] = if n >= (i + 1) * 64 { u64::MAX } else if n > i * 64 { (1u64 << (n - i * 64)) - 1 } else { 0 }; }
    b
}
pub fn members(b: &Bits) -> impl Iterator<Item = usize> + '_ {
    (0..4).flat_map(move |i| { let mut x = b[i]; std::iter::from_fn(move || if x == 0 { None } else { let j = x.trailing_zeros() as usize; x &= x - 1; Some(i * 64 + j) }) })
}
/// Those of the input's values for which the condition holds.
pub fn holds(e: &Ex) -> Option<Bits> {
    let t = table(e)?;
    let mut b = [0; 4];
    for (i, v) in t.iter().enumerate() { if *v != 0 { b[i / 64] |= 1 << (i % 64); } }
    Some(b)
}
