//! Reader for textual LLVM IR (as printed by the toolchain's llvm-dis).
use crate::expr::sext;
use std::collections::HashMap;
use std::sync::Arc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    F32,
    F64,
    Arr(u64, Arc<Ty>),
    Vec(u64, Arc<Ty>),
    Struct(Vec<Ty>, bool),
    Meta,
}
impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => 16 },
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(),
            Ty::Vec(n, t) => (n * t.bits() as u64 / 8).next_power_of_two().max(1),
            Ty::Struct(f, packed) => if *packed { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => { let b = (*w as u64 + 7) / 8; let a = self.align(); (b + a - 1) / a * a }
            Ty::Ptr | Ty::F64 => 8,
            Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => (n * t.bits() as u64 + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for t in f { if !packed { let a = t.align(); o = (o + a - 1) / a * a; } o += t.size(); }
                if !packed { let a = self.align(); o = (o + a - 1) / a * a; }
                o
            }
            _ => 0,
        }
    }
    pub fn offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut o = 0;
                for (j, t) in f.iter().enumerate() {
                    if !packed { let a = t.align(); o = (o + a - 1) / a * a; }
                    if j == i { return o; }
                    o += t.size();
                }
                panic!("struct index")
            }
            Ty::Arr(_, t) => i as u64 * t.size(),
            Ty::Vec(_, t) => i as u64 * t.bits() as u64 / 8,
            _ => panic!("offset into scalar"),
        }
    }
    pub fn bits(&self) -> u32 {
        match self { Ty::Int(w) => *w, Ty::Ptr | Ty::F64 => 64, Ty::F32 => 32, _ => 0 }
    }
    pub fn elem(&self, i: usize) -> &Ty {
        match self { Ty::Struct(f, _) => &f[i], Ty::Arr(_, t) | Ty::Vec(_, t) => t, _ => panic!("elem of scalar") }
    }
    pub fn count(&self) -> usize {
        match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) | Ty::Vec(n, _) => *n as usize, _ => 0 }
    }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Arr(..) | Ty::Vec(..) | Ty::Struct(..)) }
}

/// A constant: scalars up to 128 bits or aggregates.
#[derive(Clone, Debug)]
pub enum Cv { S(u128), A(Vec<Cv>) }
impl Cv {
    pub fn zero(t: &Ty) -> Cv {
        if t.is_agg() { Cv::A((0..t.count()).map(|i| Cv::zero(t.elem(i))).collect()) } else { Cv::S(0) }
    }
    pub fn s(&self) -> u128 { match self { Cv::S(x) => *x, _ => panic!("scalar constant expected") } }
}

#[derive(Clone, Debug)]
pub enum Opd { R(u32), C(Cv), Bad }

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Bin { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor, FAdd, FSub, FMul, FDiv, FRem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred { Eq, Ne, Ugt, Uge, Ult, Ule, Sgt, Sge, Slt, Sle }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bitcast, UiToFp, SiToFp, FpToUi, FpToSi, FpExt, FpTrunc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Rmw { Add, Sub, Xchg, And, Or, Xor, Max, Min, Umax, Umin }

#[derive(Clone, Debug)]
pub enum Callee { F(u32), Ind(Opd) }

#[derive(Clone, Debug)]
pub enum K {
    Bin(Bin, Ty, Opd, Opd),
    Icmp(Pred, Ty, Opd, Opd),
    Fcmp(String, Ty, Opd, Opd),
    FNeg(Ty, Opd),
    Cast(Cast, Ty, Opd, Ty),
    Load(Ty, Opd),
    Store(Ty, Opd, Opd),
    Gep(Opd, u64, Vec<(Opd, u32, u64)>), // base, const offset, (index, width, scale)
    Alloca(Ty, Opd, u64),
    Select(Ty, Opd, Opd, Opd),
    Call(Callee, Vec<(Ty, Opd)>, Ty),
    Br(u32),
    CondBr(Opd, u32, u32),
    Switch(u32, Opd, Vec<(u64, u32)>, u32),
    Ret(Option<(Ty, Opd)>),
    Unreachable,
    ExtractV(Opd, Vec<u32>),
    InsertV(Opd, Opd, Ty, Vec<u32>),
    ExtractE(Opd, Opd),
    InsertE(Opd, Opd, Opd),
    Shuffle(Opd, Opd, Vec<i64>),
    AtomicRmw(Rmw, Ty, Opd, Opd),
    CmpXchg(Ty, Opd, Opd, Opd),
    Freeze(Opd),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Debug)]
pub struct Ins { pub k: K, pub dst: u32, pub dbg: u32, pub gid: u32 }
#[derive(Default)]
pub struct Block { pub ins: Vec<Ins>, pub phis: Vec<(u32, Vec<(u32, Opd)>)>, pub invoke_next: Option<u32> }
pub struct Func {
    pub name: String,
    pub args: Vec<u32>,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub noreturn: bool,
    pub decl: bool,
    pub dbg: u32,
}
pub struct Global { pub name: String, pub bytes: Vec<u8>, pub ro: bool, pub ext: bool }
pub struct Module {
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub meta: HashMap<u32, String>,
    pub nins: u32,
}
pub const NONE: u32 = u32::MAX;
pub const FBASE: u64 = 0x7000_0000_0000_0000;
pub fn faddr(i: u32) -> u64 { FBASE + ((i as u64) << 4) }
pub fn gaddr(i: u32) -> u64 { (i as u64 + 1) << 32 }

struct P<'a> { s: &'a [u8], i: usize }
type R<T> = Result<T, String>;

impl<'a> P<'a> {
    fn new(s: &'a str) -> Self { P { s: s.as_bytes(), i: 0 } }
    fn ws(&mut self) { while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t' || self.s[self.i] == b'\n') { self.i += 1; } }
    fn peek(&mut self) -> u8 { self.ws(); *self.s.get(self.i).unwrap_or(&0) }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t.as_bytes()) {
            // whole words only
            let e = self.i + t.len();
            let last = t.as_bytes()[t.len() - 1];
            if (last.is_ascii_alphanumeric() || last == b'_') && e < self.s.len() {
                let n = self.s[e];
                if n.is_ascii_alphanumeric() || n == b'_' || n == b'.' { return false; }
            }
            self.i = e;
            true
        } else { false }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) { Ok(()) } else { Err(format!("expected `{}` at `{}`", t, self.rest())) }
    }
    fn rest(&self) -> String { String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..(self.i + 60).min(self.s.len())]).into_owned() }
    fn word(&mut self) -> &'a str {
        self.ws();
        let st = self.i;
        while self.i < self.s.len() {
            let c = self.s[self.i];
            if c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-' { self.i += 1; } else { break; }
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    fn name(&mut self) -> R<String> {
        // after % or @
        if self.s.get(self.i) == Some(&b'"') {
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != b'"' { self.i += 1; }
            let r = String::from_utf8_lossy(&self.s[st..self.i]).into_owned();
            self.i += 1;
            Ok(r)
        } else { Ok(self.word().to_string()) }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            let c = self.s[self.i];
            self.i += 1;
            match c {
                b'(' => d += 1,
                b')' => { d -= 1; if d == 0 { return; } }
                b'"' => { while self.s[self.i] != b'"' { self.i += 1; } self.i += 1; }
                _ => {}
            }
        }
    }
    fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let t = match c {
            b'[' | b'<' if !(c == b'<' && self.s.get(self.i + 1) == Some(&b'{')) => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "array length")?;
                self.expect("x")?;
                let e = self.ty()?;
                self.expect(if c == b'[' { "]" } else { ">" })?;
                if c == b'[' { Ty::Arr(n, Arc::new(e)) } else { Ty::Vec(n, Arc::new(e)) }
            }
            b'{' | b'<' => {
                let packed = c == b'<';
                if packed { self.i += 1; }
                self.i += 1;
                let mut f = vec![];
                if self.peek() != b'}' {
                    loop { f.push(self.ty()?); if !self.eat(",") { break; } }
                }
                self.expect("}")?;
                if packed { self.expect(">")?; }
                Ty::Struct(f, packed)
            }
            _ => {
                let st = self.i;
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::F32,
                    "double" => Ty::F64,
                    "metadata" => Ty::Meta,
                    _ if w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|b| b.is_ascii_digit()) => Ty::Int(w[1..].parse().unwrap()),
                    _ => { self.i = st; return Err(format!("type at `{}`", self.rest())); }
                }
            }
        };
        Ok(t)
    }
    fn is_ty(&mut self) -> bool { let s = self.i; let r = self.ty().is_ok(); self.i = s; r }
}

struct Ctx<'a> {
    fidx: &'a HashMap<String, u32>,
    gidx: &'a HashMap<String, u32>,
}

impl<'a> Ctx<'a> {
    fn sym(&self, n: &str) -> R<u64> {
        if let Some(i) = self.fidx.get(n) { return Ok(faddr(*i)); }
        if let Some(i) = self.gidx.get(n) { return Ok(gaddr(*i)); }
        Err(format!("unknown symbol @{}", n))
    }
    fn cval(&self, p: &mut P, t: &Ty) -> R<Cv> {
        let c = p.peek();
        match c {
            b'@' => { p.i += 1; let n = p.name()?; return Ok(Cv::S(self.sym(&n)? as u128)); }
            b'c' if p.s.get(p.i + 1) == Some(&b'"') => {
                p.i += 2;
                let mut v = vec![];
                while p.s[p.i] != b'"' {
                    if p.s[p.i] == b'\\' {
                        if p.s[p.i + 1] == b'\\' { v.push(Cv::S(b'\\' as u128)); p.i += 2; continue; }
                        let h = std::str::from_utf8(&p.s[p.i + 1..p.i + 3]).unwrap();
                        v.push(Cv::S(u8::from_str_radix(h, 16).map_err(|e| e.to_string())? as u128));
                        p.i += 3;
                    } else { v.push(Cv::S(p.s[p.i] as u128)); p.i += 1; }
                }
                p.i += 1;
                return Ok(Cv::A(v));
            }
            b'[' | b'{' | b'<' => {
                let packed = c == b'<' && p.s.get(p.i + 1) == Some(&b'{');
                p.i += if packed { 2 } else { 1 };
                let close = match c { b'[' => "]", b'{' => "}", _ => if packed { "}" } else { ">" } };
                let mut v = vec![];
                if !p.eat(close) {
                    loop {
                        let et = p.ty()?;
                        v.push(self.cval(p, &et)?);
                        if !p.eat(",") { break; }
                    }
                    p.expect(close)?;
                }
                if packed { p.expect(">")?; }
                return Ok(Cv::A(v));
            }
            _ => {}
        }
        let w = p.word();
        Ok(match w {
            "true" => Cv::S(1),
            "false" | "null" | "none" => Cv::zero(t),
            "zeroinitializer" | "undef" | "poison" => Cv::zero(t),
            "splat" => {
                p.expect("(")?;
                let et = p.ty()?;
                let v = self.cval(p, &et)?;
                p.expect(")")?;
                Cv::A(vec![v; t.count()])
            }
            "getelementptr" => {
                while p.peek() != b'(' { p.word(); if p.peek() == b'(' { 
                    // inrange(..) style attribute
                    let save = p.i;
                    p.i += 1;
                    if p.is_ty() && p.peek() != b'-' { p.i = save; break; }
                    p.i = save; p.skip_parens();
                } }
                p.expect("(")?;
                let bt = p.ty()?;
                p.expect(",")?;
                let pt = p.ty()?;
                let base = self.cval(p, &pt)?.s() as u64;
                let mut off = 0u64;
                let mut cur = bt;
                let mut first = true;
                while p.eat(",") {
                    let it = p.ty()?;
                    let v = sext(self.cval(p, &it)?.s(), it.bits()) as i64 as u64;
                    if first { off = off.wrapping_add(v.wrapping_mul(cur.size())); first = false; }
                    else { off = off.wrapping_add(cur.offset(v as usize)); cur = cur.elem(v as usize).clone(); }
                }
                p.expect(")")?;
                Cv::S(base.wrapping_add(off) as u128)
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" => {
                p.expect("(")?;
                let it = p.ty()?;
                let v = self.cval(p, &it)?;
                p.expect("to")?;
                let ot = p.ty()?;
                p.expect(")")?;
                Cv::S(v.s() & crate::expr::mask(ot.bits()))
            }
            "sub" | "add" | "xor" => {
                while p.peek() != b'(' { p.word(); }
                p.expect("(")?;
                let it = p.ty()?;
                let a = self.cval(p, &it)?.s();
                p.expect(",")?;
                let it2 = p.ty()?;
                let b = self.cval(p, &it2)?.s();
                p.expect(")")?;
                let r = match w { "sub" => a.wrapping_sub(b), "add" => a.wrapping_add(b), _ => a ^ b };
                Cv::S(r & crate::expr::mask(it.bits()))
            }
            _ => {
                match t {
                    Ty::F32 | Ty::F64 => {
                        let mut s = w.to_string();
                        if p.s.get(p.i) == Some(&b'+') { p.i += 1; s.push('+'); s.push_str(p.word()); }
                        if let Some(h) = s.strip_prefix("f0x") { return Ok(Cv::S(u128::from_str_radix(h, 16).map_err(|e| e.to_string())?)); }
                        let special = match s.as_str() { "+inf" => Some(f64::INFINITY), "-inf" => Some(f64::NEG_INFINITY), _ => None };
                        if let Some(d) = special {
                            return Ok(Cv::S(if matches!(t, Ty::F32) { (d as f32).to_bits() as u128 } else { d.to_bits() as u128 }));
                        }
                        if s == "+qnan" || s == "-qnan" {
                            let neg = s.starts_with('-') as u128;
                            return Ok(Cv::S(if matches!(t, Ty::F32) { neg << 31 | 0x7fc0_0000 } else { neg << 63 | 0x7ff8_0000_0000_0000 }));
                        }
                        let d = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| e.to_string())?)
                        } else { s.parse::<f64>().map_err(|_| format!("float constant {}", s))? };
                        if *t == Ty::F32 { Cv::S((d as f32).to_bits() as u128) } else { Cv::S(d.to_bits() as u128) }
                    }
                    _ => {
                        let m = crate::expr::mask(t.bits());
                        if let Some(n) = w.strip_prefix('-') {
                            let v: u128 = n.parse().map_err(|_| format!("constant `{}`", w))?;
                            Cv::S(v.wrapping_neg() & m)
                        } else {
                            let v: u128 = w.parse().map_err(|_| format!("constant `{}` at `{}`", w, p.rest()))?;
                            Cv::S(v & m)
                        }
                    }
                }
            }
        })
    }
}

fn flat(c: &Cv, t: &Ty, out: &mut [u8]) {
    match c {
        Cv::S(v) => { let n = t.size() as usize; for i in 0..n.min(16) { out[i] = (v >> (8 * i)) as u8; } }
        Cv::A(vs) => for (i, v) in vs.iter().enumerate() {
            let o = t.offset(i) as usize;
            flat(v, t.elem(i), &mut out[o..]);
        },
    }
}

struct FnParser<'a, 'b> {
    cx: &'a Ctx<'b>,
    regs: HashMap<String, u32>,
    labels: HashMap<String, u32>,
    nins: &'a mut u32,
}

impl<'a, 'b> FnParser<'a, 'b> {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.regs.len() as u32;
        *self.regs.entry(n.to_string()).or_insert(l)
    }
    fn val(&mut self, p: &mut P, t: &Ty) -> R<Opd> {
        if p.peek() == b'%' { p.i += 1; let n = p.name()?; return Ok(Opd::R(self.reg(&n))); }
        Ok(Opd::C(self.cx.cval(p, t)?))
    }
    fn tv(&mut self, p: &mut P) -> R<(Ty, Opd)> { let t = p.ty()?; let v = self.val(p, &t)?; Ok((t, v)) }
    fn label(&mut self, p: &mut P) -> R<u32> {
        p.expect("label")?;
        p.expect("%")?;
        let n = p.name()?;
        self.labels.get(&n).copied().ok_or(format!("label {}", n))
    }
    fn flags(&self, p: &mut P) {
        loop {
            let s = p.i;
            p.ws();
            let w = p.word();
            match w {
                "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "samesign" | "inbounds" | "nusw" | "fast" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "volatile" | "atomic" | "weak" => {}
                _ => { p.i = s; return; }
            }
        }
    }
    fn ins(&mut self, line: &str) -> R<(K, u32)> {
        let mut p = P::new(line);
        let mut dst = NONE;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            dst = self.reg(&n);
            p.expect("=")?;
        }
        let op = p.word();
        let k = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                self.flags(&mut p);
                let t = p.ty()?;
                let a = self.val(&mut p, &t)?;
                p.expect(",")?;
                let b = self.val(&mut p, &t)?;
                let o = match op {
                    "add" => Bin::Add, "sub" => Bin::Sub, "mul" => Bin::Mul, "udiv" => Bin::UDiv, "sdiv" => Bin::SDiv, "urem" => Bin::URem,
                    "srem" => Bin::SRem, "shl" => Bin::Shl, "lshr" => Bin::LShr, "ashr" => Bin::AShr, "and" => Bin::And, "or" => Bin::Or,
                    "xor" => Bin::Xor, "fadd" => Bin::FAdd, "fsub" => Bin::FSub, "fmul" => Bin::FMul, "frem" => Bin::FRem, _ => Bin::FDiv,
                };
                K::Bin(o, t, a, b)
            }
            "fneg" => { self.flags(&mut p); let (t, a) = self.tv(&mut p)?; K::FNeg(t, a) }
            "icmp" => {
                self.flags(&mut p);
                let pr = match p.word() {
                    "eq" => Pred::Eq, "ne" => Pred::Ne, "ugt" => Pred::Ugt, "uge" => Pred::Uge, "ult" => Pred::Ult, "ule" => Pred::Ule,
                    "sgt" => Pred::Sgt, "sge" => Pred::Sge, "slt" => Pred::Slt, "sle" => Pred::Sle, x => return Err(format!("icmp {}", x)),
                };
                let t = p.ty()?;
                let a = self.val(&mut p, &t)?;
                p.expect(",")?;
                let b = self.val(&mut p, &t)?;
                K::Icmp(pr, t, a, b)
            }
            "fcmp" => {
                self.flags(&mut p);
                let pr = p.word().to_string();
                let t = p.ty()?;
                let a = self.val(&mut p, &t)?;
                p.expect(",")?;
                let b = self.val(&mut p, &t)?;
                K::Fcmp(pr, t, a, b)
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" => {
                self.flags(&mut p);
                let (t, a) = self.tv(&mut p)?;
                p.expect("to")?;
                let o = p.ty()?;
                let c = match op {
                    "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr,
                    "bitcast" => Cast::Bitcast, "uitofp" => Cast::UiToFp, "sitofp" => Cast::SiToFp, "fptoui" => Cast::FpToUi, "fptosi" => Cast::FpToSi,
                    "fpext" => Cast::FpExt, _ => Cast::FpTrunc,
                };
                K::Cast(c, t, a, o)
            }
            "load" => {
                self.flags(&mut p);
                let t = p.ty()?;
                p.expect(",")?;
                let (_, a) = self.tv(&mut p)?;
                K::Load(t, a)
            }
            "store" => {
                self.flags(&mut p);
                let (t, v) = self.tv(&mut p)?;
                p.expect(",")?;
                let (_, a) = self.tv(&mut p)?;
                K::Store(t, v, a)
            }
            "getelementptr" => {
                self.flags(&mut p);
                let bt = p.ty()?;
                p.expect(",")?;
                let (pt, base) = self.tv(&mut p)?;
                if pt != Ty::Ptr { return Ok((K::Unsupported("vector gep".into()), dst)); }
                let mut off = 0u64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' { break; }
                    let it = p.ty()?;
                    let v = self.val(&mut p, &it)?;
                    let scale = if first { cur.size() } else {
                        match &cur { Ty::Struct(..) => 0, Ty::Arr(_, t) => t.size(), Ty::Vec(_, t) => t.size(), _ => return Err("gep".into()) }
                    };
                    match &v {
                        Opd::C(c) => {
                            let i = sext(c.s(), it.bits()) as i64;
                            if !first && matches!(cur, Ty::Struct(..)) { off = off.wrapping_add(cur.offset(i as usize)); }
                            else { off = off.wrapping_add((i as u64).wrapping_mul(scale)); }
                            if !first { cur = cur.elem(if matches!(cur, Ty::Struct(..)) { i as usize } else { 0 }).clone(); }
                        }
                        _ => {
                            dynv.push((v, it.bits(), scale));
                            if !first { cur = cur.elem(0).clone(); }
                        }
                    }
                    first = false;
                }
                K::Gep(base, off, dynv)
            }
            "alloca" => {
                let t = p.ty()?;
                let mut n = Opd::C(Cv::S(1));
                let mut al = t.align();
                while p.eat(",") {
                    if p.eat("align") { al = p.word().parse().unwrap_or(1); } else if p.peek() == b'!' { break; } else { n = self.tv(&mut p)?.1; }
                }
                K::Alloca(t, n, al)
            }
            "select" => {
                self.flags(&mut p);
                let (ct, c) = self.tv(&mut p)?;
                p.expect(",")?;
                let (t, a) = self.tv(&mut p)?;
                p.expect(",")?;
                let (_, b) = self.tv(&mut p)?;
                if ct != Ty::Int(1) { K::Unsupported("vector select".into()) } else { K::Select(t, c, a, b) }
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if matches!(op, "tail" | "musttail" | "notail") { p.expect("call")?; }
                self.flags(&mut p);
                // calling convention and return attributes
                loop {
                    let s = p.i;
                    if p.is_ty() { break; }
                    let w = p.word();
                    if w.is_empty() { p.i = s; return Err(format!("call at `{}`", p.rest())); }
                    if w == "align" { p.word(); }
                    if p.s.get(p.i) == Some(&b'(') { p.skip_parens(); }
                }
                let rt = p.ty()?;
                if p.peek() == b'(' { p.skip_parens(); }
                let callee = match p.peek() {
                    b'@' => {
                        p.i += 1;
                        let n = p.name()?;
                        match self.cx.fidx.get(&n) { Some(i) => Callee::F(*i), None => return Err(format!("unknown function {}", n)) }
                    }
                    b'%' => { p.i += 1; let n = p.name()?; Callee::Ind(Opd::R(self.reg(&n))) }
                    _ => return Ok((K::Unsupported(format!("call {}", p.rest())), dst)),
                };
                p.expect("(")?;
                let mut args = vec![];
                if !p.eat(")") {
                    loop {
                        let t = p.ty()?;
                        if t == Ty::Meta {
                            let mut d = 0;
                            loop { match p.peek() { b'(' | b'{' => d += 1, b'}' => d -= 1, b')' if d > 0 => d -= 1, b',' | b')' if d == 0 => break, 0 => break, _ => {} } p.i += 1; }
                            args.push((t, Opd::C(Cv::S(0))));
                        } else {
                            // parameter attributes
                            loop {
                                let s = p.i;
                                let c = p.peek();
                                if !c.is_ascii_alphabetic() { break; }
                                if c == b'c' && p.s.get(p.i + 1) == Some(&b'"') { break; }
                                let w = p.word();
                                if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "inttoptr" | "ptrtoint")
                                    || w.starts_with("f0x") { p.i = s; break; }
                                if w == "align" && p.peek() != b'(' { p.word(); }
                                if p.s.get(p.i) == Some(&b'(') { p.skip_parens(); }
                            }
                            let v = self.val(&mut p, &t)?;
                            args.push((t, v));
                        }
                        if !p.eat(",") { break; }
                    }
                    p.expect(")")?;
                }
                K::Call(callee, args, rt)
            }
            "br" => {
                if p.peek() == b'l' { K::Br(self.label(&mut p)?) } else {
                    let (_, c) = self.tv(&mut p)?;
                    p.expect(",")?;
                    let a = self.label(&mut p)?;
                    p.expect(",")?;
                    let b = self.label(&mut p)?;
                    K::CondBr(c, a, b)
                }
            }
            "switch" => {
                let (t, v) = self.tv(&mut p)?;
                p.expect(",")?;
                let d = self.label(&mut p)?;
                p.expect("[")?;
                let mut cs = vec![];
                while !p.eat("]") {
                    let (_, c) = self.tv(&mut p)?;
                    p.expect(",")?;
                    let l = self.label(&mut p)?;
                    match c { Opd::C(c) => cs.push((c.s() as u64, l)), _ => return Err("switch".into()) }
                }
                K::Switch(t.bits(), v, cs, d)
            }
            "ret" => { if p.eat("void") { K::Ret(None) } else { K::Ret(Some(self.tv(&mut p)?)) } }
            "unreachable" => K::Unreachable,
            "resume" | "landingpad" | "cleanup" | "catch" | "filter" => K::Unsupported(op.to_string()),
            "extractvalue" => {
                let (_, a) = self.tv(&mut p)?;
                let mut ix = vec![];
                while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.word().parse().map_err(|_| "extractvalue")?); }
                K::ExtractV(a, ix)
            }
            "insertvalue" => {
                let (t, a) = self.tv(&mut p)?;
                p.expect(",")?;
                let (_, v) = self.tv(&mut p)?;
                let mut ix = vec![];
                while p.eat(",") { if p.peek() == b'!' { break; } ix.push(p.word().parse().map_err(|_| "insertvalue")?); }
                K::InsertV(a, v, t, ix)
            }
            "extractelement" => { let (_, a) = self.tv(&mut p)?; p.expect(",")?; let (_, i) = self.tv(&mut p)?; K::ExtractE(a, i) }
            "insertelement" => {
                let (_, a) = self.tv(&mut p)?; p.expect(",")?;
                let (_, v) = self.tv(&mut p)?; p.expect(",")?;
                let (_, i) = self.tv(&mut p)?;
                K::InsertE(a, v, i)
            }
            "shufflevector" => {
                let (_, a) = self.tv(&mut p)?; p.expect(",")?;
                let (_, b) = self.tv(&mut p)?; p.expect(",")?;
                let (_, m) = self.tv(&mut p)?;
                let m = match m { Opd::C(Cv::A(v)) => v.iter().map(|x| x.s() as u32 as i32 as i64).collect(), _ => return Err("shuffle mask".into()) };
                K::Shuffle(a, b, m)
            }
            "atomicrmw" => {
                self.flags(&mut p);
                let o = match p.word() {
                    "add" => Rmw::Add, "sub" => Rmw::Sub, "xchg" => Rmw::Xchg, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor,
                    "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::Umax, "umin" => Rmw::Umin, x => return Err(format!("atomicrmw {}", x)),
                };
                let (_, a) = self.tv(&mut p)?; p.expect(",")?;
                let (t, v) = self.tv(&mut p)?;
                K::AtomicRmw(o, t, a, v)
            }
            "cmpxchg" => {
                self.flags(&mut p);
                let (_, a) = self.tv(&mut p)?; p.expect(",")?;
                let (t, c) = self.tv(&mut p)?; p.expect(",")?;
                let (_, n) = self.tv(&mut p)?;
                K::CmpXchg(t, a, c, n)
            }
            "fence" => K::Nop,
            "freeze" => { let (_, a) = self.tv(&mut p)?; K::Freeze(a) }
            _ => K::Unsupported(line.trim().chars().take(80).collect()),
        };
        Ok((k, dst))
    }
}

fn dbg_of(line: &str) -> u32 {
    match line.find("!dbg !") {
        Some(i) => line[i + 6..].bytes().take_while(|b| b.is_ascii_digit()).fold(0, |a, b| a * 10 + (b - b'0') as u32),
        None => 0,
    }
}
fn fname(line: &str) -> Option<(String, usize)> {
    // first @name followed by (
    let b = line.as_bytes();
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'@' {
            let mut p = P { s: b, i: i + 1 };
            let n = p.name().ok()?;
            if p.s.get(p.i) == Some(&b'(') { return Some((n, p.i)); }
            i = p.i;
        } else { i += 1; }
    }
    None
}

pub fn parse(text: &str) -> R<Module> {
    let lines: Vec<&str> = text.lines().collect();
    let mut fidx: HashMap<String, u32> = HashMap::new();
    let mut gidx: HashMap<String, u32> = HashMap::new();
    let mut fl = vec![];
    let mut gl = vec![];
    let mut meta = HashMap::new();
    let mut noret_attr = std::collections::HashSet::new();
    for (i, l) in lines.iter().enumerate() {
        if l.starts_with("define") || l.starts_with("declare") {
            let (n, at) = fname(l).ok_or_else(|| format!("function name in {}", l))?;
            fidx.insert(n.clone(), fl.len() as u32);
            fl.push((n, i, at));
        } else if l.starts_with('@') {
            let mut p = P::new(l);
            p.i = 1;
            let n = p.name()?;
            gidx.insert(n.clone(), gl.len() as u32);
            gl.push((n, i, p.i));
        } else if l.starts_with('!') {
            if let Some(e) = l.find(" = ") {
                if let Ok(n) = l[1..e].parse::<u32>() { meta.insert(n, l[e + 3..].to_string()); }
            }
        } else if l.starts_with("attributes #") {
            if l.contains(" noreturn") {
                let n: String = l[12..].chars().take_while(|c| c.is_ascii_digit()).collect();
                noret_attr.insert(n);
            }
        }
    }
    let cx = Ctx { fidx: &fidx, gidx: &gidx };
    let mut globals = vec![];
    for (n, li, at) in &gl {
        let mut p = P::new(lines[*li]);
        p.i = *at;
        p.expect("=")?;
        let mut ext = false;
        let ro;
        loop {
            let w = p.word();
            match w {
                "global" => { ro = false; break; }
                "constant" => { ro = true; break; }
                "external" | "extern_weak" => ext = true,
                "alias" => return Err(format!("alias {}", n)),
                "" => return Err(format!("global {} at {}", n, p.rest())),
                _ => {}
            }
            if p.s.get(p.i) == Some(&b'(') { p.skip_parens(); }
        }
        let t = p.ty()?;
        let mut bytes = vec![0u8; t.size() as usize];
        if !ext && !n.starts_with("llvm.") {
            let c = cx.cval(&mut p, &t).map_err(|e| format!("global {}: {}", n, e))?;
            flat(&c, &t, &mut bytes);
        }
        globals.push(Global { name: n.clone(), bytes, ro, ext });
    }
    let mut nins = 0u32;
    let mut funcs = vec![];
    for (n, li, at) in &fl {
        let head = lines[*li];
        let decl = head.starts_with("declare");
        let noreturn = {
            let hs = &head[*at..];
            let mut p = P::new(hs);
            p.skip_parens();
            let tail = &hs[p.i..];
            let mut r = tail.contains(" noreturn");
            if let Some(x) = tail.find('#') {
                let num: String = tail[x + 1..].chars().take_while(|c| c.is_ascii_digit()).collect();
                r |= noret_attr.contains(&num);
            }
            r
        };
        let mut f = Func { name: n.clone(), args: vec![], nregs: 0, blocks: vec![], noreturn, decl, dbg: dbg_of(head) };
        if decl { funcs.push(f); continue; }
        let mut fp = FnParser { cx: &cx, regs: HashMap::new(), labels: HashMap::new(), nins: &mut nins };
        // parameters: the last %name of each top-level comma-separated piece
        let mut unnamed = 0;
        {
            let b = head.as_bytes();
            let mut i = *at + 1;
            let mut d = 0;
            let mut last: Option<String> = None;
            let mut any = false;
            loop {
                match b[i] {
                    b'(' | b'[' | b'{' | b'<' => d += 1,
                    b']' | b'}' | b'>' => d -= 1,
                    b')' if d > 0 => d -= 1,
                    b'"' => { i += 1; while b[i] != b'"' { i += 1; } }
                    b'%' if d == 0 => { let mut p = P { s: b, i: i + 1 }; last = Some(p.name()?); i = p.i; continue; }
                    b',' | b')' if d == 0 => {
                        if any || last.is_some() {
                            let nm = last.take().unwrap_or_else(|| format!("{}", unnamed));
                            if nm.bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
                            let r = fp.reg(&nm);
                            f.args.push(r);
                        }
                        any = false;
                        if b[i] == b')' { break; }
                    }
                    b' ' => {}
                    _ => any = true,
                }
                i += 1;
            }
        }
        let mut e = *li + 1;
        while lines[e] != "}" { e += 1; }
        // labels
        let is_label = |l: &str| -> Option<String> {
            if l.starts_with(' ') || l.is_empty() || l.starts_with(';') { return None; }
            let mut p = P::new(l);
            let nm = p.name().ok()?;
            if p.s.get(p.i) == Some(&b':') { Some(nm) } else { None }
        };
        let mut nb = 0;
        let mut j = *li + 1;
        while j < e && lines[j].is_empty() { j += 1; }
        if is_label(lines[j]).is_none() { fp.labels.insert(format!("{}", unnamed), 0); nb = 1; }
        for l in &lines[*li + 1..e] {
            if let Some(nm) = is_label(l) { fp.labels.insert(nm, nb); nb += 1; }
        }
        f.blocks = (0..nb).map(|_| Block::default()).collect();
        let mut cur: usize = 0;
        let mut started = false;
        let mut j = *li + 1;
        while j < e {
            let l = lines[j];
            j += 1;
            if l.is_empty() || l.trim_start().starts_with(';') || l.trim_start().starts_with("#dbg") { continue; }
            if let Some(nm) = is_label(l) { cur = fp.labels[&nm] as usize; started = true; continue; }
            if !started { cur = 0; started = true; }
            let mut owned;
            let mut line = l;
            let tr = l.trim_start();
            // multi-line: switch and invoke
            if tr.starts_with("switch ") {
                owned = l.to_string();
                while !lines[j - 1].trim_start().starts_with(']') { owned.push(' '); owned.push_str(lines[j].trim()); j += 1; }
                line = &owned;
            }
            let body = tr.split(" = ").nth(1).unwrap_or("");
            let is_invoke = tr.starts_with("invoke ") || (tr.starts_with('%') && body.starts_with("invoke "));
            let mut inv_next = None;
            if is_invoke {
                let nx = lines[j].trim_start();
                j += 1;
                if !nx.starts_with("to label") { return Err(format!("invoke: {}", nx)); }
                let mut p = P::new(nx);
                p.expect("to")?;
                inv_next = Some(fp.label(&mut p)?);
            }
            if tr.starts_with('%') && body.starts_with("phi ") {
                let mut p = P::new(line);
                p.expect("%")?;
                let nm = p.name()?;
                let d = fp.reg(&nm);
                p.expect("=")?;
                p.expect("phi")?;
                fp.flags(&mut p);
                let t = p.ty()?;
                let mut inc = vec![];
                loop {
                    p.expect("[")?;
                    let v = fp.val(&mut p, &t)?;
                    p.expect(",")?;
                    p.expect("%")?;
                    let b = p.name()?;
                    p.expect("]")?;
                    inc.push((*fp.labels.get(&b).ok_or(format!("phi label {}", b))?, v));
                    if !p.eat(",") || p.peek() == b'!' { break; }
                }
                f.blocks[cur].phis.push((d, inc));
                continue;
            }
            let (k, dst) = match fp.ins(line) {
                Ok(x) => x,
                Err(er) => {
                    // keep going: executing it is an error
                    let mut d = NONE;
                    if tr.starts_with('%') { let mut p = P::new(tr); p.i = 1; d = fp.reg(&p.name()?); }
                    (K::Unsupported(format!("{} in `{}`", er, tr.chars().take(120).collect::<String>())), d)
                }
            };
            let gid = *fp.nins;
            *fp.nins += 1;
            let dbg = dbg_of(l);
            f.blocks[cur].ins.push(Ins { k, dst, dbg, gid });
            if let Some(nx) = inv_next {
                let gid = *fp.nins;
                *fp.nins += 1;
                f.blocks[cur].ins.push(Ins { k: K::Br(nx), dst: NONE, dbg, gid });
            }
        }
        f.nregs = fp.regs.len() as u32;
        funcs.push(f);
    }
    Ok(Module { funcs, fidx, globals, gidx, meta, nins })
}

/// Source position of a debug location: (file, line, function), innermost frame.
pub struct Loc { pub file: String, pub line: u32, pub func: String, pub inlined: u32 }
pub fn locate(m: &Module, id: u32) -> Option<Loc> {
    fn field<'x>(s: &'x str, k: &str) -> Option<&'x str> {
        let pat = format!("{}: ", k);
        let mut from = 0;
        loop {
            let i = from + s[from..].find(&pat)?;
            let ok = i == 0 || { let c = s.as_bytes()[i - 1]; c == b'(' || c == b' ' };
            if ok {
                let v = &s[i + pat.len()..];
                if let Some(q) = v.strip_prefix('"') { return Some(&q[..q.find('"')?]); }
                let e = v.find(|c| c == ',' || c == ')').unwrap_or(v.len());
                return Some(&v[..e]);
            }
            from = i + 1;
        }
    }
    fn refn(s: &str) -> Option<u32> { s.trim_start_matches('!').parse().ok() }
    let d = m.meta.get(&id)?;
    if !d.contains("DILocation") { return None; }
    let line = field(d, "line").and_then(|x| x.parse().ok()).unwrap_or(0);
    let inlined = field(d, "inlinedAt").and_then(refn).unwrap_or(0);
    let mut sc = refn(field(d, "scope")?)?;
    let mut file: Option<u32> = None;
    for _ in 0..100 {
        let s = m.meta.get(&sc)?;
        if file.is_none() { file = field(s, "file").and_then(refn); }
        if s.contains("DISubprogram") {
            let func = field(s, "name").unwrap_or("?").to_string();
            let link = field(s, "linkageName").unwrap_or("").to_string();
            let f = m.meta.get(&file?)?;
            let nm = field(f, "filename")?;
            let dir = field(f, "directory").unwrap_or("");
            let full = if nm.starts_with('/') { nm.to_string() } else { format!("{}/{}", dir, nm) };
            let _ = link;
            return Some(Loc { file: full, line, func, inlined });
        }
        sc = refn(field(s, "scope")?)?;
    }
    None
}
