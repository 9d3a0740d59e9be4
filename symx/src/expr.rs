//! Bit-vector expressions over the symbolic inputs.
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var, // c = index
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor,
    Eq, Ult, Ule, Slt, Sle,
    Concat,  // kids: hi, lo
    Extract, // c = low bit, w = width
    ZExt, SExt, Ite,
    FAdd, FSub, FMul, FDiv, FNeg, // IEEE on bit patterns, w = 32 / 64
    FEq, FLt, FLe, FNan,          // predicates, w = 1
    FpExt, FpTrunc,               // 32 -> 64, 64 -> 32
    UiToFp, SiToFp,               // w = 32 / 64
    FpToUi, FpToSi,               // round to zero; guarded by the user for range
    FRound,                       // to an integral value; c: 0 nearest even, 1 nearest away, 2 up, 3 down, 4 to zero
}

pub struct Node {
    pub op: Op,
    pub w: u32,
    pub c: u128,
    pub k: Vec<Ex>,
    pub id: u64,
    pub h: u64, // structural hash
    pub on: u32, // 0: no variable, MANY, else the only variable + 1
    pub onw: u32, // its width
    pub mix: u32, // alternations of adding and xoring below, as in a hash
    pub deep: u32, // choices made inside one another below
}
pub const MANY: u32 = u32::MAX;
const TANGLED: u32 = 16;
pub type Ex = Arc<Node>;

static NEXT: AtomicU64 = AtomicU64::new(1);

fn mix(a: u64, b: u64) -> u64 {
    let x = (a ^ b.rotate_left(31)).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    (x ^ (x >> 29)).wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ b.wrapping_mul(0x94D0_49BB_1331_11EB)
}
fn mk(op: Op, w: u32, c: u128, k: Vec<Ex>) -> Ex {
    let mut h = mix(op as u64 + 1, w as u64);
    h = mix(h, c as u64);
    h = mix(h, (c >> 64) as u64);
    let (mut on, mut onw) = if op == Op::Var { (c as u32 + 1, w) } else { (0, 0) };
    for x in &k {
        h = mix(h, x.h);
        if x.on != 0 {
            if on == 0 { on = x.on; onw = x.onw; } else if on != x.on { on = MANY; }
        }
    }
    let below = k.iter().map(|x| x.mix).max().unwrap_or(0);
    let kind = match op { Op::Add | Op::Mul => 1, Op::Xor if w > 8 => 2, _ => 0 };
    let mix = if kind != 0 && w >= 32 && k.iter().all(|x| x.on != 0) && below & 3 != kind { (below & !3) + 4 + kind } else { below };
    let mut deep = k.iter().map(|x| x.deep).max().unwrap_or(0);
    if op == Op::Ite { deep += 1; }
    Arc::new(Node { op, w, c, k, mix, deep, id: NEXT.fetch_add(1, Ordering::Relaxed), h, on, onw })
}
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
pub fn sext(v: u128, w: u32) -> i128 {
    let s = 128 - w;
    ((v << s) as i128) >> s
}
pub fn cst(v: u128, w: u32) -> Ex { mk(Op::Const, w, v & mask(w), vec![]) }
pub fn var(i: u32, w: u32) -> Ex { mk(Op::Var, w, i as u128, vec![]) }
impl Node {
    /// Alternates between sums and exclusive ors too often for a solver.
    pub fn mixing(&self) -> bool { self.mix >> 2 >= 10 }
    /// A choice among choices among choices: better made by splitting the path.
    pub fn tangled(&self) -> bool { self.deep > TANGLED }
    pub fn is_const(&self) -> bool { self.op == Op::Const }
    pub fn val(&self) -> Option<u128> { if self.op == Op::Const { Some(self.c) } else { None } }
}
pub fn same(a: &Ex, b: &Ex) -> bool {
    Arc::ptr_eq(a, b) || (a.h == b.h && a.op == b.op && a.w == b.w && a.c == b.c && a.k.len() == b.k.len())
}

pub fn fold(op: Op, w: u32, c: u128, kw: u32, k: &[u128]) -> u128 {
    let m = mask(w);
    let (a, b) = (k.first().copied().unwrap_or(0), k.get(1).copied().unwrap_or(0));
    match op {
        Op::Const | Op::Var => c,
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => if b == 0 { m } else { a / b },
        Op::URem => if b == 0 { a } else { a % b },
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { if x < 0 { 1 } else { m } } else { (x.wrapping_div(y) as u128) & m }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 { a } else { (x.wrapping_rem(y) as u128) & m }
        }
        Op::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        Op::LShr => if b >= w as u128 { 0 } else { a >> b },
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext(a, w) >> s) as u128) & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext(a, kw) < sext(b, kw)) as u128,
        Op::Sle => (sext(a, kw) <= sext(b, kw)) as u128,
        Op::Concat => unreachable!(),
        Op::Extract => (a >> c) & m,
        Op::ZExt => a,
        Op::SExt => (sext(a, kw) as u128) & m,
        Op::Ite => if a != 0 { b } else { k[2] },
        Op::FAdd | Op::FSub | Op::FMul | Op::FDiv => {
            if w == 32 {
                let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
                (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128
            } else {
                let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
                (match op { Op::FAdd => x + y, Op::FSub => x - y, Op::FMul => x * y, _ => x / y }).to_bits() as u128
            }
        }
        Op::FNeg => a ^ (1u128 << (w - 1)),
        Op::FRound if w == 32 => {
            let x = f32::from_bits(a as u32);
            (match c { 0 => x.round_ties_even(), 1 => x.round(), 2 => x.ceil(), 3 => x.floor(), _ => x.trunc() }).to_bits() as u128
        }
        Op::FRound => {
            let x = f64::from_bits(a as u64);
            (match c { 0 => x.round_ties_even(), 1 => x.round(), 2 => x.ceil(), 3 => x.floor(), _ => x.trunc() }).to_bits() as u128
        }
        Op::FEq | Op::FLt | Op::FLe | Op::FNan => {
            let (x, y) = if kw == 32 {
                (f32::from_bits(a as u32) as f64, f32::from_bits(b as u32) as f64)
            } else {
                (f64::from_bits(a as u64), f64::from_bits(b as u64))
            };
            (match op { Op::FEq => x == y, Op::FLt => x < y, Op::FLe => x <= y, _ => x.is_nan() }) as u128
        }
        Op::FpExt => (f32::from_bits(a as u32) as f64).to_bits() as u128,
        Op::FpTrunc => (f64::from_bits(a as u64) as f32).to_bits() as u128,
        Op::UiToFp => if w == 32 { (a as f32).to_bits() as u128 } else { (a as f64).to_bits() as u128 },
        Op::SiToFp => {
            let s = sext(a, kw);
            if w == 32 { (s as f32).to_bits() as u128 } else { (s as f64).to_bits() as u128 }
        }
        Op::FpToUi => {
            let x = if kw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            (x as u128) & m
        }
        Op::FpToSi => {
            let x = if kw == 32 { f32::from_bits(a as u32) as f64 } else { f64::from_bits(a as u64) };
            ((x as i128) as u128) & m
        }
    }
}

pub fn concat(hi: &Ex, lo: &Ex) -> Ex {
    let w = hi.w + lo.w;
    if let (Some(a), Some(b)) = (hi.val(), lo.val()) {
        return cst((a << lo.w) | b, w);
    }
    if hi.val() == Some(0) {
        return zext(lo, w);
    }
    if hi.op == Op::ZExt { return zext(&concat(&hi.k[0], lo), w); }
    // adjacent extracts of one expression
    if hi.op == Op::Extract && lo.op == Op::Extract && hi.c == lo.c + lo.w as u128 && same(&hi.k[0], &lo.k[0]) {
        return extract(&hi.k[0], lo.c as u32, w);
    }
    if lo.op == Op::Concat && hi.op == Op::Extract && lo.k[0].op == Op::Extract
        && hi.c == lo.k[0].c + lo.k[0].w as u128 && same(&hi.k[0], &lo.k[0].k[0]) {
        let h = extract(&hi.k[0], lo.k[0].c as u32, hi.w + lo.k[0].w);
        return concat(&h, &lo.k[1]);
    }
    mk(Op::Concat, w, 0, vec![hi.clone(), lo.clone()])
}
pub fn extract(e: &Ex, lo: u32, w: u32) -> Ex {
    if lo == 0 && w == e.w { return e.clone(); }
    match e.op {
        Op::Const => return cst(e.c >> lo, w),
        Op::Extract => return extract(&e.k[0], lo + e.c as u32, w),
        Op::Concat => {
            let lw = e.k[1].w;
            if lo >= lw { return extract(&e.k[0], lo - lw, w); }
            if lo + w <= lw { return extract(&e.k[1], lo, w); }
            let h = extract(&e.k[0], 0, lo + w - lw);
            let l = extract(&e.k[1], lo, lw - lo);
            return concat(&h, &l);
        }
        Op::ZExt => {
            let kw = e.k[0].w;
            if lo >= kw { return cst(0, w); }
            if lo + w <= kw { return extract(&e.k[0], lo, w); }
            let l = extract(&e.k[0], lo, kw - lo);
            return zext(&l, w);
        }
        Op::SExt => {
            let kw = e.k[0].w;
            if lo + w <= kw { return extract(&e.k[0], lo, w); }
        }
        Op::And | Op::Or | Op::Xor => {
            if e.k[1].is_const() {
                let a = extract(&e.k[0], lo, w);
                let b = extract(&e.k[1], lo, w);
                return bin(e.op, &a, &b);
            }
        }
        Op::Ite => {
            if e.k[1].is_const() && e.k[2].is_const() {
                return ite(&e.k[0], &extract(&e.k[1], lo, w), &extract(&e.k[2], lo, w));
            }
        }
        Op::LShr => {
            if let Some(s) = e.k[1].val() {
                if s + (lo + w) as u128 <= e.w as u128 { return extract(&e.k[0], lo + s as u32, w); }
            }
        }
        Op::Shl => {
            if let Some(s) = e.k[1].val() {
                if s < e.w as u128 {
                    let s = s as u32;
                    if lo >= s { return extract(&e.k[0], lo - s, w); }
                    if lo + w <= s { return cst(0, w); }
                }
            }
        }
        _ => {}
    }
    mk(Op::Extract, w, lo as u128, vec![e.clone()])
}
pub fn zext(e: &Ex, w: u32) -> Ex {
    if e.w == w { return e.clone(); }
    if let Some(v) = e.val() { return cst(v, w); }
    if e.op == Op::ZExt { return zext(&e.k[0], w); }
    mk(Op::ZExt, w, 0, vec![e.clone()])
}
pub fn sxt(e: &Ex, w: u32) -> Ex {
    if e.w == w { return e.clone(); }
    if let Some(v) = e.val() { return cst(sext(v, e.w) as u128, w); }
    if e.op == Op::ZExt { return zext(&e.k[0], w); }
    mk(Op::SExt, w, 0, vec![e.clone()])
}
pub fn not(e: &Ex) -> Ex { bin(Op::Xor, e, &cst(mask(e.w), e.w)) }
pub fn ite(c: &Ex, a: &Ex, b: &Ex) -> Ex {
    if let Some(v) = c.val() { return if v != 0 { a.clone() } else { b.clone() }; }
    if same(a, b) { return a.clone(); }
    if a.w == 1 {
        if let (Some(x), Some(y)) = (a.val(), b.val()) {
            if x == 1 && y == 0 { return c.clone(); }
            if x == 0 && y == 1 { return not(c); }
        }
        if a.val() == Some(1) { return bin(Op::Or, c, b); }
        if b.val() == Some(0) { return bin(Op::And, c, a); }
        if a.val() == Some(0) { return bin(Op::And, &not(c), b); }
        if b.val() == Some(1) { return bin(Op::Or, &not(c), a); }
    }
    mk(Op::Ite, a.w, 0, vec![c.clone(), a.clone(), b.clone()])
}
/// A choice that is as good as no deeper than the deepest of its parts.
pub fn flat_ite(c: &Ex, a: &Ex, b: &Ex) -> Ex {
    let e = ite(c, a, b);
    if e.op != Op::Ite { return e; }
    let deep = c.deep.max(a.deep).max(b.deep);
    Arc::new(Node { op: e.op, w: e.w, c: e.c, k: e.k.clone(), mix: e.mix, deep, id: e.id, h: e.h, on: e.on, onw: e.onw })
}
pub fn bin(op: Op, a: &Ex, b: &Ex) -> Ex {
    let pred = matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle | Op::FEq | Op::FLt | Op::FLe);
    let w = if pred { 1 } else { a.w };
    if let (Some(x), Some(y)) = (a.val(), b.val()) {
        return cst(fold(op, w, 0, a.w, &[x, y]), w);
    }
    // constants to the right
    if a.is_const() && matches!(op, Op::Add | Op::Mul | Op::FMul | Op::And | Op::Or | Op::Xor | Op::Eq) {
        return bin(op, b, a);
    }
    let bc = b.val();
    let full = mask(a.w);
    match op {
        Op::Add | Op::Sub | Op::Or | Op::Xor | Op::Shl | Op::LShr | Op::AShr if bc == Some(0) => return a.clone(),
        Op::And if bc == Some(0) => return b.clone(),
        Op::And if bc == Some(full) => return a.clone(),
        Op::Or if bc == Some(full) => return b.clone(),
        Op::Mul if bc == Some(1) => return a.clone(),
        Op::Mul if bc == Some(0) => return b.clone(),
        Op::UDiv if bc == Some(1) => return a.clone(),
        Op::Xor | Op::Sub if same(a, b) => return cst(0, w),
        Op::And | Op::Or if same(a, b) => return a.clone(),
        Op::Eq | Op::Ule | Op::Sle if same(a, b) => return cst(1, 1),
        Op::Ult | Op::Slt if same(a, b) => return cst(0, 1),
        Op::Ult if bc == Some(0) => return cst(0, 1),
        Op::Ule if bc == Some(full) => return cst(1, 1),
        Op::Ule if a.val() == Some(0) => return cst(1, 1),
        // x * 1 = x, with what is not a number made quiet
        Op::FMul if matches!((w, bc), (32, Some(0x3f80_0000)) | (64, Some(0x3ff0_0000_0000_0000))) => {
            let (inf, quiet) = if w == 32 { (0x7f80_0000u128, 0x40_0000u128) } else { (0x7ff0_0000_0000_0000, 0x8_0000_0000_0000) };
            let nan = bin(Op::Ult, &cst(inf, w), &bin(Op::And, a, &cst(full >> 1, w)));
            return ite(&nan, &bin(Op::Or, a, &cst(quiet, w)), a);
        }
        _ => {}
    }
    match op {
        // (x + c1) + c2
        Op::Add | Op::Xor | Op::And | Op::Or => {
            if let (Some(y), true) = (bc, a.op == op) {
                if let Some(x) = a.k[1].val() {
                    return bin(op, &a.k[0], &cst(fold(op, w, 0, w, &[x, y]), w));
                }
            }
            if op == Op::And {
                if let Some(y) = bc {
                    // low mask = truncate + extend
                    if y != 0 && (y & (y + 1)) == 0 {
                        let n = 128 - y.leading_zeros();
                        if n < a.w { return zext(&extract(a, 0, n), w); }
                    }
                    if a.op == Op::ZExt && (y & mask(a.k[0].w)) == 0 { return cst(0, w); }
                }
            }
            if op == Op::Or {
                // disjoint zext / shl -> concat
                if let Some(e) = or_concat(a, b).or_else(|| or_concat(b, a)).or_else(|| or_pieces(a, b)) { return e; }
            }
        }
        Op::Sub => if let Some(y) = bc { return bin(Op::Add, a, &cst(y.wrapping_neg(), w)); },
        Op::Shl => {
            if let Some(s) = bc {
                if s >= w as u128 { return cst(0, w); }
                let s = s as u32;
                if a.op == Op::ZExt && a.k[0].w + s <= w {
                    let x = concat(&a.k[0], &cst(0, s));
                    return zext(&x, w);
                }
                return concat(&extract(a, 0, w - s), &cst(0, s));
            }
        }
        Op::Mul => {
            if let Some(y) = bc {
                if y.is_power_of_two() { return bin(Op::Shl, a, &cst(y.trailing_zeros() as u128, w)); }
            }
        }
        Op::LShr => {
            if let Some(s) = bc {
                if s >= w as u128 { return cst(0, w); }
                return zext(&extract(a, s as u32, w - s as u32), w);
            }
        }
        Op::Eq => {
            if let Some(y) = bc {
                if a.w == 1 { return if y == 1 { a.clone() } else { not(a) }; }
                match a.op {
                    Op::ZExt => {
                        let kw = a.k[0].w;
                        if y & !mask(kw) != 0 { return cst(0, 1); }
                        return bin(Op::Eq, &a.k[0], &cst(y, kw));
                    }
                    Op::SExt => {
                        let kw = a.k[0].w;
                        let t = y & mask(kw);
                        if (sext(t, kw) as u128) & full != y { return cst(0, 1); }
                        return bin(Op::Eq, &a.k[0], &cst(t, kw));
                    }
                    Op::Xor => if let Some(x) = a.k[1].val() { return bin(Op::Eq, &a.k[0], &cst(x ^ y, a.w)); },
                    Op::Add => if let Some(x) = a.k[1].val() { return bin(Op::Eq, &a.k[0], &cst(y.wrapping_sub(x), a.w)); },
                    Op::Ite => {
                        if let (Some(t), Some(f)) = (a.k[1].val(), a.k[2].val()) {
                            return match (t == y, f == y) {
                                (true, true) => cst(1, 1),
                                (true, false) => a.k[0].clone(),
                                (false, true) => not(&a.k[0]),
                                (false, false) => cst(0, 1),
                            };
                        }
                        if a.k[1].is_const() || a.k[2].is_const() {
                            let t = bin(Op::Eq, &a.k[1], b);
                            let f = bin(Op::Eq, &a.k[2], b);
                            return ite(&a.k[0], &t, &f);
                        }
                    }
                    Op::Concat => {
                        let lw = a.k[1].w;
                        {
                            let h = bin(Op::Eq, &a.k[0], &cst(y >> lw, a.k[0].w));
                            let l = bin(Op::Eq, &a.k[1], &cst(y, lw));
                            return bin(Op::And, &h, &l);
                        }
                    }
                    _ => {}
                }
            }
            if a.op == Op::ZExt && b.op == Op::ZExt {
                let (x, y) = (&a.k[0], &b.k[0]);
                let n = x.w.max(y.w);
                return bin(Op::Eq, &zext(x, n), &zext(y, n));
            }
            // piecewise, where both sides are made of pieces
            let pieces = |e: &Ex| matches!(e.op, Op::Concat | Op::ZExt);
            if pieces(a) && pieces(b) && (a.op == Op::Concat || b.op == Op::Concat) {
                let low = |e: &Ex| if e.op == Op::Concat { e.k[1].w } else { e.k[0].w };
                let s = low(a).min(low(b));
                let h = bin(Op::Eq, &extract(a, s, a.w - s), &extract(b, s, b.w - s));
                if h.val() == Some(0) { return h; }
                let l = bin(Op::Eq, &extract(a, 0, s), &extract(b, 0, s));
                return bin(Op::And, &h, &l);
            }
        }
        Op::Ult | Op::Ule => {
            if a.op == Op::ZExt {
                let kw = a.k[0].w;
                if let Some(y) = bc {
                    if y > mask(kw) { return cst(1, 1); }
                    return bin(op, &a.k[0], &cst(y, kw));
                }
                if b.op == Op::ZExt && b.k[0].w == kw { return bin(op, &a.k[0], &b.k[0]); }
            }
            if let (Some(x), true) = (a.val(), b.op == Op::ZExt) {
                let kw = b.k[0].w;
                if x > mask(kw) { return cst(0, 1); }
                return bin(op, &cst(x, kw), &b.k[0]);
            }
            if op == Op::Ult && bc == Some(1) { return bin(Op::Eq, a, &cst(0, a.w)); }
        }
        Op::Slt | Op::Sle => {
            // sign tests
            let neg = |e: &Ex| extract(e, e.w - 1, 1);
            match (op, a.val(), bc) {
                (Op::Slt, _, Some(0)) => return neg(a),
                (Op::Sle, _, Some(y)) if y == full => return neg(a),
                (Op::Slt, Some(x), _) if x == full => return not(&neg(b)),
                (Op::Sle, Some(0), _) => return not(&neg(b)),
                _ => {}
            }
            // a zero-extended value is never negative
            if a.op == Op::ZExt {
                if let Some(y) = bc {
                    if sext(y, a.w) < 0 { return cst(0, 1); }
                    return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
                if b.op == Op::ZExt { return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b); }
            }
            if let (Some(x), true) = (a.val(), b.op == Op::ZExt) {
                if sext(x, b.w) < 0 { return cst(1, 1); }
                return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
        }
        _ => {}
    }
    mk(op, w, 0, vec![a.clone(), b.clone()])
}
fn cuts(e: &Ex, at: u32, out: &mut Vec<u32>) {
    match e.op {
        Op::Concat => { cuts(&e.k[1], at, out); out.push(at + e.k[1].w); cuts(&e.k[0], at + e.k[1].w, out); }
        Op::ZExt => { cuts(&e.k[0], at, out); out.push(at + e.k[0].w); }
        _ => {}
    }
}
/// An or where no bit is in doubt on both sides, as a concatenation.
fn or_pieces(a: &Ex, b: &Ex) -> Option<Ex> {
    let p = |e: &Ex| matches!(e.op, Op::Concat | Op::ZExt);
    if !p(a) && !p(b) { return None; }
    let mut c = vec![];
    cuts(a, 0, &mut c);
    cuts(b, 0, &mut c);
    if c.len() > 40 { return None; }
    c.push(a.w);
    c.sort();
    c.dedup();
    let mut lo = 0;
    let mut r: Option<Ex> = None;
    for h in c {
        let (x, y) = (extract(a, lo, h - lo), extract(b, lo, h - lo));
        let v = match (x.val(), y.val()) {
            (Some(p), Some(q)) => cst(p | q, h - lo),
            (Some(0), _) => y,
            (_, Some(0)) => x,
            _ => return None,
        };
        r = Some(match r { None => v, Some(l) => concat(&v, &l) });
        lo = h;
    }
    r
}
fn or_concat(hi: &Ex, lo: &Ex) -> Option<Ex> {
    // hi = zext(concat(x, 0_s)) or concat(x, 0_s); lo = zext(y), y.w <= s
    let w = hi.w;
    let h = if hi.op == Op::ZExt { &hi.k[0] } else { hi };
    if h.op != Op::Concat || h.k[1].val() != Some(0) { return None; }
    let s = h.k[1].w;
    let l = if lo.op == Op::ZExt { &lo.k[0] } else { return None };
    if l.w > s { return None; }
    Some(zext(&concat(&h.k[0], &zext(l, s)), w))
}
pub fn un(op: Op, w: u32, a: &Ex) -> Ex {
    if let Some(x) = a.val() { return cst(fold(op, w, 0, a.w, &[x]), w); }
    mk(op, w, 0, vec![a.clone()])
}

/// The variables of an expression.
pub fn inputs(e: &Ex) -> Vec<Ex> {
    let mut seen = std::collections::HashSet::new();
    let mut vars: Vec<Ex> = vec![];
    let mut todo = vec![e.clone()];
    while let Some(x) = todo.pop() {
        if x.on == 0 || !seen.insert(x.id) { continue; }
        if x.op == Op::Var { if !vars.iter().any(|v| v.c == x.c) { vars.push(x.clone()); } }
        todo.extend(x.k.iter().cloned());
    }
    vars
}
pub fn round(mode: u128, a: &Ex) -> Ex {
    if let Some(x) = a.val() { return cst(fold(Op::FRound, a.w, mode, a.w, &[x]), a.w); }
    mk(Op::FRound, a.w, mode, vec![a.clone()])
}

#[derive(Default)]
pub struct IdHash(u64);
impl std::hash::Hasher for IdHash {
    fn finish(&self) -> u64 { self.0 }
    fn write(&mut self, _: &[u8]) { unreachable!() }
    fn write_u64(&mut self, x: u64) { self.0 = x.wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(23) }
}
pub type IdMap<V> = std::collections::HashMap<u64, V, std::hash::BuildHasherDefault<IdHash>>;

pub fn eval(e: &Ex, m: &[u64]) -> u128 {
    match e.op {
        Op::Const => return e.c,
        Op::Var => return m.get(e.c as usize).copied().unwrap_or(0) as u128 & mask(e.w),
        _ => {}
    }
    let mut memo = IdMap::default();
    ev(e, m, &mut memo)
}
fn ev(e: &Ex, m: &[u64], memo: &mut IdMap<u128>) -> u128 {
    match e.op {
        Op::Const => return e.c,
        Op::Var => return m.get(e.c as usize).copied().unwrap_or(0) as u128 & mask(e.w),
        _ => {}
    }
    let shared = Arc::strong_count(e) > 1;
    if shared { if let Some(v) = memo.get(&e.id) { return *v; } }
    let r = match e.op {
        Op::Ite => if ev(&e.k[0], m, memo) != 0 { ev(&e.k[1], m, memo) } else { ev(&e.k[2], m, memo) },
        Op::Concat => (ev(&e.k[0], m, memo) << e.k[1].w) | ev(&e.k[1], m, memo),
        _ => {
            let mut k = [0u128; 3];
            for (i, x) in e.k.iter().enumerate() { k[i] = ev(x, m, memo); }
            fold(e.op, e.w, e.c, e.k[0].w, &k[..e.k.len()])
        }
    };
    if shared { memo.insert(e.id, r); }
    r
}
pub fn show(e: &Ex, d: u32) -> String {
    if d == 0 { return "..".into(); }
    match e.op {
        Op::Const => format!("{}:{}", e.c, e.w),
        Op::Var => format!("v{}", e.c),
        _ => format!("{:?}{}{}({})", e.op, e.w, if e.op == Op::Extract { format!("@{}", e.c) } else { String::new() }, e.k.iter().map(|x| show(x, d - 1)).collect::<Vec<_>>().join(", ")),
    }
}
