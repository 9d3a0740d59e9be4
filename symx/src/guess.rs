//! Looks for a model of a condition near the path's current one by pushing the
//! wanted value down the expression.  What it finds is only used after the whole
//! path condition evaluates to true under it; when it finds nothing the solver is
//! asked.  It never concludes that a condition has no model.
use crate::domain;
use crate::expr::*;
use crate::facts::Facts;

pub struct Guess<'a> { pub m: Vec<u64>, pub widths: &'a [u8], pub alt: u32, fuel: u32 }

impl<'a> Guess<'a> {
    fn ev(&self, e: &Ex) -> u128 { eval(e, &self.m) }
    fn want(&mut self, e: &Ex, v: u128) -> bool {
        if self.fuel == 0 { return false; }
        self.fuel -= 1;
        if v > mask(e.w) { return false; }
        match e.op {
            Op::Const => e.c == v,
            Op::Var => {
                let i = e.c as usize;
                if i >= self.widths.len() || self.widths[i] as u32 != e.w { return false; }
                if self.m.len() <= i { self.m.resize(i + 1, 0); }
                self.m[i] = v as u64;
                true
            }
            Op::Concat => { let l = e.k[1].w; self.want(&e.k[0], v >> l) && self.want(&e.k[1], v & mask(l)) }
            Op::ZExt => v <= mask(e.k[0].w) && self.want(&e.k[0], v),
            Op::SExt => { let k = e.k[0].w; let t = v & mask(k); (sext(t, k) as u128) & mask(e.w) == v && self.want(&e.k[0], t) }
            Op::Extract => {
                let old = self.ev(&e.k[0]);
                let s = e.c as u32;
                if e.k[0].w > 64 { return false; }
                let n = (old & !(mask(e.w) << s)) | (v << s);
                self.want(&e.k[0], n)
            }
            Op::Add => {
                let m = mask(e.w);
                if e.k[1].is_const() || self.alt & 1 == 0 { let b = self.ev(&e.k[1]); self.want(&e.k[0], v.wrapping_sub(b) & m) }
                else { let a = self.ev(&e.k[0]); self.want(&e.k[1], v.wrapping_sub(a) & m) }
            }
            Op::Sub => {
                let m = mask(e.w);
                if self.alt & 1 == 0 && !e.k[0].is_const() { let b = self.ev(&e.k[1]); self.want(&e.k[0], v.wrapping_add(b) & m) }
                else { let a = self.ev(&e.k[0]); self.want(&e.k[1], a.wrapping_sub(v) & m) }
            }
            Op::Mul => match e.k[1].val() { Some(c) if c > 0 && v % c == 0 => self.want(&e.k[0], v / c), _ => false },
            Op::Xor if e.w > 1 || e.k[1].is_const() => { let b = self.ev(&e.k[1]); self.want(&e.k[0], v ^ b) }
            Op::Xor => { if self.alt & 1 == 0 { let b = self.ev(&e.k[1]); self.want(&e.k[0], v ^ b) } else { let a = self.ev(&e.k[0]); self.want(&e.k[1], v ^ a) } }
            Op::And | Op::Or if e.w == 1 => {
                let all = e.op == Op::And;
                if (v == 1) == all { self.want(&e.k[0], v) && (self.ev(&e.k[1]) == v || self.want(&e.k[1], v)) }
                else {
                    let i = (self.alt & 1) as usize;
                    self.alt >>= 1;
                    self.want(&e.k[i], v)
                }
            }
            Op::And => match e.k[1].val() { Some(c) if v & !c == 0 => { let old = self.ev(&e.k[0]); self.want(&e.k[0], (old & !c) | v) } _ => false },
            Op::Or => match e.k[1].val() { Some(c) if c & !v == 0 => { let old = self.ev(&e.k[0]); self.want(&e.k[0], (old & c) | (v & !c)) } _ => false },
            Op::Ite => {
                let i = if self.alt & 1 == 0 { if self.ev(&e.k[0]) != 0 { 1 } else { 2 } } else { if self.ev(&e.k[0]) != 0 { 2 } else { 1 } };
                self.alt >>= 1;
                let c = (i == 1) as u128;
                self.want(&e.k[i], v) && (self.ev(&e.k[0]) == c || self.want(&e.k[0], c))
            }
            Op::Eq => {
                let (a, b) = (self.ev(&e.k[0]), self.ev(&e.k[1]));
                if v == 1 {
                    if a == b { return true; }
                    if e.k[1].is_const() || self.alt & 1 == 0 { self.want(&e.k[0], b) } else { self.want(&e.k[1], a) }
                } else {
                    if a != b { return true; }
                    let m = mask(e.w.max(e.k[0].w));
                    let n = match self.alt & 6 { 0 => a.wrapping_add(1), 2 => a.wrapping_sub(1), 4 => a ^ 1, _ => 0 } & m;
                    if e.k[1].is_const() || self.alt & 1 == 0 { self.want(&e.k[0], n) } else { self.want(&e.k[1], n) }
                }
            }
            Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                let signed = matches!(e.op, Op::Slt | Op::Sle);
                let w = e.k[0].w;
                let m = mask(w);
                let flip = if signed { 1u128 << (w - 1) } else { 0 };
                let (a, b) = (self.ev(&e.k[0]) ^ flip, self.ev(&e.k[1]) ^ flip);
                let strict = matches!(e.op, Op::Ult | Op::Slt) == (v == 1);
                // x < y or x <= y
                let (x, y, xv, yv) = if v == 1 { (&e.k[0], &e.k[1], a, b) } else { (&e.k[1], &e.k[0], b, a) };
                let s = strict as u128;
                if xv + s <= yv { return true; }
                let first = if x.is_const() { false } else if y.is_const() { true } else { self.alt & 1 == 0 };
                if first {
                    if yv < s { return false; }
                    let t = match self.alt & 6 { 0 => yv - s, 2 => 0 , _ => (yv - s) / 2 };
                    self.want(x, (t ^ flip) & m)
                } else {
                    if xv + s > m { return false; }
                    let t = match self.alt & 6 { 0 => xv + s, 2 => m, _ => xv + s + (m - xv - s) / 2 };
                    self.want(y, (t ^ flip) & m)
                }
            }
            _ => false,
        }
    }
}

/// A model of `pc` and `e`, if one is easily found.
pub fn near(pc: &[Ex], e: &Ex, model: &[u64], widths: &[u8], facts: &Facts) -> Option<Vec<u64>> {
    if let (true, Some(t)) = (domain::narrow(e), domain::holds(e)) {
        let d = facts.domain(e);
        let b: domain::Bits = std::array::from_fn(|i| t[i] & d[i]);
        let mut m = model.to_vec();
        m.resize(widths.len(), 0);
        for v in domain::members(&b).take(12) {
            m[e.on as usize - 1] = v as u64;
            if pc.iter().rev().all(|x| eval(x, &m) == 1) { return Some(m); }
        }
    }
    for alt in 0..8u32 {
        let mut m = model.to_vec();
        m.resize(widths.len(), 0);
        let mut g = Guess { m, widths, alt, fuel: 300 };
        if !g.want(e, 1) { continue; }
        if g.ev(e) != 1 { continue; }
        // earlier conditions that broke get one round of repair
        for round in 0..3 {
            let mut bad = None;
            for x in pc.iter().rev() { if g.ev(x) != 1 { bad = Some(x); break; } }
            match bad {
                None => return if g.ev(e) == 1 { Some(g.m) } else { None },
                Some(x) => {
                    if round == 2 { break; }
                    g.alt = alt;
                    if !g.want(x, 1) || g.ev(e) != 1 { break; }
                }
            }
        }
    }
    None
}
