//! What a path condition says outright: truth values, bounds and equalities of
//! terms.  Decides many conditions without a query; everything concluded here
//! follows from the path condition, and the executor checks each answer against
//! the path's model.
use crate::domain::{self, Bits};
use crate::expr::*;
use std::collections::HashMap;

type Map<V> = HashMap<u64, V, std::hash::BuildHasherDefault<IdHash>>;
#[derive(Clone, Default)]
pub struct Facts { known: Map<bool>, bounds: Map<(u128, u128)>, rep: Map<u64>, diseq: Vec<(u64, u64)>, dom: Map<Bits> }

const DEPTH: u32 = 60;

impl Facts {
    pub fn lookup(&self, e: &Ex) -> Option<bool> { self.known.get(&e.h).copied() }
    fn find(&self, mut h: u64) -> u64 { while let Some(p) = self.rep.get(&h) { h = *p; } h }
    pub fn domain(&self, e: &Ex) -> Bits { self.dom.get(&(e.on as u64)).copied().unwrap_or_else(|| domain::full(e.onw)) }
    pub fn truth(&self, e: &Ex) -> Option<bool> { let mut fuel = 400; self.t(e, DEPTH, &mut fuel) }
    fn t(&self, e: &Ex, d: u32, fuel: &mut u32) -> Option<bool> {
        if let Some(v) = e.val() { return Some(v != 0); }
        if let Some(v) = self.known.get(&e.h) { return Some(*v); }
        if let Some(b) = domain::holds(e) {
            let d = self.domain(e);
            if (0..4).all(|i| d[i] & b[i] == 0) { return Some(false); }
            if (0..4).all(|i| d[i] & !b[i] == 0) { return Some(true); }
            return None;
        }
        if d == 0 || *fuel == 0 { return None; }
        *fuel -= 1;
        let d = d - 1;
        match e.op {
            Op::And => match self.t(&e.k[0], d, fuel) {
                Some(false) => Some(false),
                a => match self.t(&e.k[1], d, fuel) { Some(false) => Some(false), Some(true) => a, None => None },
            },
            Op::Or => match self.t(&e.k[0], d, fuel) {
                Some(true) => Some(true),
                a => match self.t(&e.k[1], d, fuel) { Some(true) => Some(true), Some(false) => a, None => None },
            },
            Op::Xor => Some(self.t(&e.k[0], d, fuel)? != self.t(&e.k[1], d, fuel)?),
            Op::Ite => match self.t(&e.k[0], d, fuel) {
                Some(true) => self.t(&e.k[1], d, fuel),
                Some(false) => self.t(&e.k[2], d, fuel),
                None => { let a = self.t(&e.k[1], d, fuel)?; if self.t(&e.k[2], d, fuel)? == a { Some(a) } else { None } }
            },
            Op::Eq if e.k[0].w == 1 => Some(self.t(&e.k[0], d, fuel)? == self.t(&e.k[1], d, fuel)?),
            Op::Eq => self.eq(&e.k[0], &e.k[1], d, fuel),
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let (a, b) = (self.r(&e.k[0], d, fuel), self.r(&e.k[1], d, fuel));
                let w = e.k[0].w;
                if matches!(e.op, Op::Slt | Op::Sle) {
                    let h = mask(w) >> 1;
                    let side = |x: (u128, u128)| if x.1 <= h { Some(false) } else if x.0 > h { Some(true) } else { None };
                    match (side(a)?, side(b)?) { (true, false) => return Some(true), (false, true) => return Some(false), _ => {} }
                }
                let strict = matches!(e.op, Op::Ult | Op::Slt);
                if strict { if a.1 < b.0 { return Some(true); } if a.0 >= b.1 { return Some(false); } }
                else { if a.1 <= b.0 { return Some(true); } if a.0 > b.1 { return Some(false); } }
                if self.find(e.k[0].h) == self.find(e.k[1].h) { return Some(!strict); }
                None
            }
            Op::Extract => { let (lo, hi) = self.rr(e, d + 1, fuel); if lo == hi { Some(lo != 0) } else { None } }
            _ => None,
        }
    }
    fn eq(&self, a: &Ex, b: &Ex, d: u32, fuel: &mut u32) -> Option<bool> {
        let (ra, rb) = (self.r(a, d, fuel), self.r(b, d, fuel));
        if ra.1 < rb.0 || rb.1 < ra.0 { return Some(false); }
        if ra.0 == ra.1 && ra == rb { return Some(true); }
        let (x, y) = (self.find(a.h), self.find(b.h));
        if x == y { return Some(true); }
        for (p, q) in &self.diseq {
            let (p, q) = (self.find(*p), self.find(*q));
            if (p == x && q == y) || (p == y && q == x) { return Some(false); }
        }
        if a.op == Op::ZExt && b.op == Op::ZExt && a.k[0].w == b.k[0].w { return self.eq(&a.k[0], &b.k[0], d, fuel); }
        None
    }
    fn r(&self, e: &Ex, d: u32, fuel: &mut u32) -> (u128, u128) {
        if let Some(v) = e.val() { return (v, v); }
        let m = mask(e.w);
        if let Some((l, h)) = self.bounds.get(&e.h) { if l == h { return (*l, *h); } }
        if let Some(t) = domain::table(e) {
            let (mut lo, mut hi) = (u64::MAX, 0);
            for i in domain::members(&self.domain(e)) { lo = lo.min(t[i]); hi = hi.max(t[i]); }
            if lo <= hi { return (lo as u128, hi as u128); }
        }
        let (lo, hi) = self.rr(e, d, fuel);
        match self.bounds.get(&e.h) { Some((l, h)) => ((*l).max(lo), (*h).min(hi)), None => (lo, hi.min(m)) }
    }
    fn rr(&self, e: &Ex, d: u32, fuel: &mut u32) -> (u128, u128) {
        let m = mask(e.w);
        if d == 0 || *fuel == 0 || e.w > 120 { return (0, m); }
        *fuel -= 1;
        let d = d - 1;
        match e.op {
            Op::ZExt => self.r(&e.k[0], d, fuel),
            Op::SExt => { let a = self.r(&e.k[0], d, fuel); if a.1 <= mask(e.k[0].w) >> 1 { a } else { (0, m) } }
            Op::Add => {
                let (a, b) = (self.r(&e.k[0], d, fuel), self.r(&e.k[1], d, fuel));
                if a.1 + b.1 <= m { return (a.0 + b.0, a.1 + b.1); }
                // adding a negative constant
                if b.0 == b.1 { let n = m - b.0 + 1; if a.0 >= n { return (a.0 - n, a.1 - n); } }
                (0, m)
            }
            Op::Sub => { let (a, b) = (self.r(&e.k[0], d, fuel), self.r(&e.k[1], d, fuel)); if a.0 >= b.1 { (a.0 - b.1, a.1 - b.0) } else { (0, m) } }
            Op::Mul => { let (a, b) = (self.r(&e.k[0], d, fuel), self.r(&e.k[1], d, fuel)); match a.1.checked_mul(b.1) { Some(h) if h <= m => (a.0 * b.0, h), _ => (0, m) } }
            Op::And => { let (a, b) = (self.r(&e.k[0], d, fuel), self.r(&e.k[1], d, fuel)); (0, a.1.min(b.1)) }
            Op::Or => { let (a, b) = (self.r(&e.k[0], d, fuel), self.r(&e.k[1], d, fuel)); let bits = 128 - (a.1 | b.1).leading_zeros(); (a.0.max(b.0), mask(bits.min(e.w))) }
            Op::LShr => match e.k[1].val() { Some(s) if s < e.w as u128 => { let a = self.r(&e.k[0], d, fuel); (a.0 >> s, a.1 >> s) } _ => (0, m) },
            Op::UDiv => match e.k[1].val() { Some(s) if s > 0 => { let a = self.r(&e.k[0], d, fuel); (a.0 / s, a.1 / s) } _ => (0, m) },
            Op::URem => match e.k[1].val() { Some(s) if s > 0 => { let a = self.r(&e.k[0], d, fuel); if a.1 < s { a } else { (0, s - 1) } } _ => (0, m) },
            Op::Concat => { let (a, b) = (self.r(&e.k[0], d, fuel), self.r(&e.k[1], d, fuel)); let s = e.k[1].w; ((a.0 << s) + b.0, (a.1 << s) + b.1) }
            Op::Extract => {
                let a = self.r(&e.k[0], d, fuel);
                let s = e.c as u32;
                if a.1 >> s <= m { (a.0 >> s, a.1 >> s) } else { (0, m) }
            }
            Op::Ite => match self.t(&e.k[0], d, fuel) {
                Some(true) => self.r(&e.k[1], d, fuel),
                Some(false) => self.r(&e.k[2], d, fuel),
                None => { let (a, b) = (self.r(&e.k[1], d, fuel), self.r(&e.k[2], d, fuel)); (a.0.min(b.0), a.1.max(b.1)) }
            },
            Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => match self.t(e, d, fuel) { Some(v) => (v as u128, v as u128), None => (0, 1) },
            _ => (0, m),
        }
    }
    /// Records that `e` has that truth value on this path.
    pub fn learn(&mut self, e: &Ex, v: bool) { self.l(e, v, 12) }
    fn l(&mut self, e: &Ex, v: bool, d: u32) {
        if e.is_const() { return; }
        self.known.insert(e.h, v);
        if let Some(b) = domain::holds(e) {
            let mut d = self.domain(e);
            for i in 0..4 { d[i] &= if v { b[i] } else { !b[i] }; }
            self.dom.insert(e.on as u64, d);
        }
        if d == 0 { return; }
        let d = d - 1;
        match (e.op, v) {
            (Op::Xor, _) if e.k[1].val() == Some(1) => self.l(&e.k[0], !v, d),
            (Op::Extract, _) if e.c as u32 + 1 == e.k[0].w => {
                let k = e.k[0].clone();
                let h = mask(k.w) >> 1;
                if v { self.bound(&k, h + 1, mask(k.w)); } else { self.bound(&k, 0, h); }
            }
            (Op::And, true) | (Op::Or, false) => { self.l(&e.k[0], v, d); self.l(&e.k[1], v, d); }
            (Op::And, false) | (Op::Or, true) => {
                if self.truth(&e.k[0]) == Some(!v) { self.l(&e.k[1], v, d); }
                else if self.truth(&e.k[1]) == Some(!v) { self.l(&e.k[0], v, d); }
            }
            (Op::Eq, _) if e.k[0].w == 1 => {
                if let Some(b) = self.truth(&e.k[1]) { self.l(&e.k[0], b == v, d) }
                else if let Some(a) = self.truth(&e.k[0]) { self.l(&e.k[1], a == v, d) }
            }
            (Op::Eq, true) => {
                let (a, b) = (e.k[0].clone(), e.k[1].clone());
                let mut f = 200;
                let (ra, rb) = (self.r(&a, DEPTH, &mut f), self.r(&b, DEPTH, &mut f));
                let (lo, hi) = (ra.0.max(rb.0), ra.1.min(rb.1));
                self.bound(&a, lo, hi);
                self.bound(&b, lo, hi);
                let (x, y) = (self.find(a.h), self.find(b.h));
                if x != y { self.rep.insert(x, y); }
            }
            (Op::Eq, false) => {
                let (a, b) = (e.k[0].clone(), e.k[1].clone());
                if let Some(c) = b.val() {
                    let mut f = 200;
                    let r = self.r(&a, DEPTH, &mut f);
                    if r.0 == c && r.0 < r.1 { self.bound(&a, c + 1, r.1); }
                    else if r.1 == c && r.0 < r.1 { self.bound(&a, r.0, c - 1); }
                } else { self.diseq.push((a.h, b.h)); }
            }
            (Op::Ult, _) | (Op::Ule, _) => {
                let (a, b) = (e.k[0].clone(), e.k[1].clone());
                let strict = (e.op == Op::Ult) == v;
                let (a, b) = if v { (a, b) } else { (b, a) }; // a < b or a <= b
                let s = strict as u128;
                let mut f = 200;
                let (ra, rb) = (self.r(&a, DEPTH, &mut f), self.r(&b, DEPTH, &mut f));
                if rb.1 >= s { self.bound(&a, 0, rb.1 - s); }
                self.bound(&b, ra.0 + s, mask(b.w));
            }
            _ => {}
        }
    }
    fn bound(&mut self, e: &Ex, lo: u128, hi: u128) {
        if e.is_const() || lo > hi { return; }
        let m = mask(e.w);
        let b = self.bounds.entry(e.h).or_insert((0, m));
        *b = (b.0.max(lo), b.1.min(hi));
        let (lo, hi) = *b;
        if let Some(t) = domain::table(e) {
            let mut d = self.domain(e);
            for (i, v) in t.iter().enumerate() { if (*v as u128) < lo || (*v as u128) > hi { d[i / 64] &= !(1 << (i % 64)); } }
            self.dom.insert(e.on as u64, d);
            return;
        }
        match e.op {
            Op::Concat => {
                let (h, l) = (e.k[0].clone(), e.k[1].clone());
                let (a, b) = (lo >> l.w, hi >> l.w);
                self.bound(&h, a, b);
                if a == b { self.bound(&l, lo & mask(l.w), hi & mask(l.w)); }
            }
            Op::ZExt => { let k = e.k[0].clone(); let m = mask(k.w); self.bound(&k, lo.min(m), hi.min(m)); }
            Op::And => if let Some(c) = e.k[1].val() {
                // clears low bits only
                let low = !c & m;
                if (low & (low + 1)) == 0 && hi <= m - low { let k = e.k[0].clone(); self.bound(&k, lo, hi + low); }
            },
            Op::Mul => if let Some(c) = e.k[1].val() {
                let k = e.k[0].clone();
                let mut f = 100;
                let r = self.r(&k, DEPTH, &mut f);
                if c > 0 && r.1.checked_mul(c).map_or(false, |x| x <= m) { self.bound(&k, (lo + c - 1) / c, hi / c); }
            },
            Op::Ite => {
                let (c, a, b) = (e.k[0].clone(), e.k[1].clone(), e.k[2].clone());
                let mut f = 100;
                let (ra, rb) = (self.r(&a, DEPTH, &mut f), self.r(&b, DEPTH, &mut f));
                if ra.1 < lo || ra.0 > hi { self.l(&c, false, 4); self.bound(&b, lo, hi); }
                else if rb.1 < lo || rb.0 > hi { self.l(&c, true, 4); self.bound(&a, lo, hi); }
            }
            // x + c without wrap-around on either side
            Op::Add => if let Some(c) = e.k[1].val() {
                let k = e.k[0].clone();
                if lo >= c { let mut f = 100; let r = self.r(&k, DEPTH, &mut f); if r.1 + c <= m { self.bound(&k, lo - c, hi - c); } }
            },
            _ => {}
        }
    }
}
