//! Path-forking symbolic execution of an LLVM module.
use crate::expr::*;
use crate::facts::Facts;
use crate::ir::*;
use crate::mem::*;
use crate::z3::{Sat, Solver};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone)]
pub enum V { I(u64), W(Box<u128>), E(Ex), A(Arc<Vec<V>>) }
fn con(v: u128, w: u32) -> V { let v = v & mask(w); if w <= 64 { V::I(v as u64) } else { V::W(Box::new(v)) } }
fn vx(e: Ex) -> V { match e.val() { Some(v) => con(v, e.w), None => V::E(e) } }
impl V {
    fn c(&self) -> Option<u128> { match self { V::I(x) => Some(*x as u128), V::W(x) => Some(**x), _ => None } }
    fn ex(&self, w: u32) -> Ex {
        match self { V::I(x) => cst(*x as u128, w), V::W(x) => cst(**x, w), V::E(e) => e.clone(), V::A(_) => panic!("aggregate as scalar") }
    }
}
fn cv(c: &Cv, t: Option<&Ty>) -> V {
    match c {
        Cv::S(x) => { let w = t.map(|t| t.bits()).unwrap_or(if *x > u64::MAX as u128 { 128 } else { 64 }); con(*x, if w == 0 { 64 } else { w }) }
        Cv::A(v) => V::A(Arc::new(v.iter().map(|x| cv(x, None)).collect())),
    }
}

#[derive(Clone)]
pub struct Frame { f: u32, b: u32, ip: u32, ret: u32, mark: u32, regs: Vec<V> }

/// The conditions decided without a query, latest first.
pub struct Link(Ex, Option<Arc<Link>>);
impl Drop for Link {
    fn drop(&mut self) {
        let mut n = self.1.take();
        while let Some(l) = n { match Arc::try_unwrap(l) { Ok(mut l) => n = l.1.take(), Err(_) => break } }
    }
}

#[derive(Clone)]
pub struct State {
    implied: Option<Arc<Link>>,
    stack: Vec<Arc<Frame>>,
    top: Frame,
    mem: Mem,
    pc: Vec<Ex>,
    facts: Facts,
    model: Vec<u64>,
    widths: Vec<u8>,
    given: Vec<(u32, u64)>,
    obs: Vec<V>,
    covers: Vec<u32>,
    steps: u64,
    forks: u32,
    redo: bool,
}

pub enum Stop { End(&'static str), Viol(String, String), Bad(String) }
use Stop::*;
type Rs<T> = Result<T, Stop>;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Bi {
    None, Nop, Alloc, AllocZ, Dealloc, Realloc, Malloc, Calloc, Free, CRealloc, Memalign, Memcpy, Memset, Bcmp, Memcmp, Strlen,
    Random, SymU64, SymGiven, SymAssume, SymAssert, SymObs, SymCover, SymConc, Panic, Intr,
    CpuId,
}

pub struct Opts { pub threads: usize, pub seed: u32, pub max_paths: u64, pub timeout: f64, pub max_alloc: u64, pub max_steps: u64, pub sample: usize, pub bvs: bool, pub max_viol: usize, pub smt_every: u64, pub verbose: bool, pub show: u64, pub audit: f64 }

pub struct Viol { pub kind: String, pub msg: String, pub at: Vec<String>, pub tape: Vec<(u8, u64)>, pub obs: Vec<u64> }
pub struct PathRec { pub tape: Vec<(u8, u64)>, pub obs: Vec<u64>, pub steps: u64 }
#[derive(Default)]
pub struct Out {
    pub ok: u64, pub assumed_away: u64, pub forks: u64, pub steps: u64, pub branches: u64, pub implied: u64, pub found: u64, pub audited: u64, pub audited_paths: u64, pub asserts: u64, pub asserts_symbolic: u64,
    pub queries: u64, pub sat: u64, pub unsat: u64, pub solver_s: f64, pub max_depth: u32,
    pub viols: Vec<Viol>, pub errors: Vec<String>, pub covers: HashMap<String, u64>, pub paths: Vec<PathRec>, pub seen: u64,
    pub wall: f64, pub smt: Vec<(String, bool)>, pub maxpc: usize, pub vars: usize,
}

struct Shared {
    q: Mutex<Vec<State>>,
    cv: Condvar,
    active: AtomicUsize, // workers holding states
    idle: AtomicUsize,
    stop: AtomicBool,
    grace: AtomicU64, // after a violation: when to stop, in ms
    paths: AtomicU64,
    out: Mutex<Out>,
}

pub struct Exec<'m> {
    pub m: &'m Module,
    bi: Vec<Bi>,
    intr: Vec<String>,
    base: Mem,
    pub hit: Vec<AtomicBool>,
    labels: Mutex<(Vec<String>, HashMap<String, u32>)>,
}

fn opti(o: &Opts) -> u32 { o.seed }

impl<'m> Exec<'m> {
    pub fn new(m: &'m Module) -> Self {
        let mut base = Mem::default();
        for (i, g) in m.globals.iter().enumerate() {
            let mut o = Obj::new(0);
            o.bytes = g.bytes.clone();
            o.ro = g.ro;
            let a = base.alloc(o);
            assert_eq!(a, gaddr(i as u32));
        }
        let mut bi = vec![];
        let mut intr = vec![];
        for f in &m.funcs {
            let n = f.name.as_str();
            let b = if n.contains("___rust_alloc_zeroed") { Bi::AllocZ }
                else if n.contains("___rust_alloc_error") || n.contains("___rust_no_alloc_shim") { if f.noreturn { Bi::Panic } else { Bi::Nop } }
                else if n.contains("___rust_alloc") { Bi::Alloc }
                else if n.contains("___rust_dealloc") { Bi::Dealloc }
                else if n.contains("___rust_realloc") { Bi::Realloc }
                else if n.contains("3std2io5stdio6__print") || n.contains("3std2io5stdio7__eprint") || n.contains("5stdio6_print") || n.contains("5stdio7_eprint") { Bi::Nop }
                else {
                    match n {
                        "malloc" => Bi::Malloc, "calloc" => Bi::Calloc, "free" => Bi::Free, "realloc" => Bi::CRealloc, "posix_memalign" => Bi::Memalign,
                        "bcmp" => Bi::Bcmp, "memcmp" => Bi::Memcmp, "strlen" => Bi::Strlen, "memcpy" | "memmove" => Bi::Memcpy, "memset" => Bi::Memset,
                        "sym_u64" => Bi::SymU64, "sym_given" => Bi::SymGiven, "sym_assume" => Bi::SymAssume, "sym_assert" => Bi::SymAssert, "sym_observe" => Bi::SymObs,
                        "sym_cover" => Bi::SymCover, "sym_concretize" => Bi::SymConc, "getrandom" => Bi::Random,
                        "abort" | "llvm.trap" | "llvm.ubsantrap" => Bi::Panic,
                        "rust_eh_personality" => Bi::Nop,
                        // destructors of thread locals run after the harness
                        "__cxa_thread_atexit_impl" => Bi::Nop,
                        _ if n.starts_with("llvm.memcpy") || n.starts_with("llvm.memmove") => Bi::Memcpy,
                        _ if n.starts_with("llvm.memset") => Bi::Memset,
                        _ if n.starts_with("llvm.lifetime") || n.starts_with("llvm.experimental.noalias") || n.starts_with("llvm.x86.sse2.pause")
                            || n.starts_with("llvm.assume") || n.starts_with("llvm.dbg") || n.starts_with("llvm.donothing") || n.starts_with("llvm.invariant") || n.starts_with("llvm.prefetch") => Bi::Nop,
                        _ if n.starts_with("llvm.") => Bi::Intr,
                        _ if f.noreturn => Bi::Panic,
                        _ => Bi::None,
                    }
                };
            bi.push(b);
            intr.push(if let Some(r) = n.strip_prefix("llvm.") {
                // drop type suffixes
                let mut parts: Vec<&str> = r.split('.').collect();
                while let Some(l) = parts.last() {
                    let ty = l.len() > 1 && (l.starts_with('i') || l.starts_with('f') || l.starts_with('p') || l.starts_with('v')) && l[1..].bytes().all(|c| c.is_ascii_digit() || c == b'i');
                    if ty && parts.len() > 1 { parts.pop(); } else { break; }
                }
                parts.join(".")
            } else { String::new() });
        }
        let hit = (0..m.nins).map(|_| AtomicBool::new(false)).collect();
        Exec { m, bi, intr, base, hit, labels: Mutex::new((vec![], HashMap::new())) }
    }

    pub fn run(&self, entry: &str, o: &Opts) -> Result<Out, String> {
        let t0 = std::time::Instant::now();
        let f = *self.m.fidx.get(entry).ok_or(format!("no entry {}", entry))?;
        let fun = &self.m.funcs[f as usize];
        if fun.decl || !fun.args.is_empty() { return Err(format!("entry {} is not a function without parameters", entry)); }
        let st = State {
            implied: None,
            stack: vec![], top: Frame { f, b: 0, ip: 0, ret: NONE, mark: 0, regs: vec![V::I(0); fun.nregs as usize] }, mem: self.base.clone(),
            pc: vec![], facts: Facts::default(), model: vec![], widths: vec![], given: vec![], obs: vec![], covers: vec![], steps: 0, forks: 0, redo: false,
        };
        let sh = Shared { q: Mutex::new(vec![st]), cv: Condvar::new(), active: AtomicUsize::new(0), idle: AtomicUsize::new(0), stop: AtomicBool::new(false), grace: AtomicU64::new(0), paths: AtomicU64::new(0), out: Mutex::new(Out::default()) };
        std::thread::scope(|s| {
            for i in 0..o.threads {
                let sh = &sh;
                std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(s, move || {
                    let mut w = Worker { x: self, sh, o, sol: Solver::new(opti(o).wrapping_add(i as u32), 60_000, o.bvs), local: vec![], out: Out::default(), t0, rng: (o.seed as u64 + 1) * 7919 + i as u64, audit_s: 0.0 };
                    w.work();
                    w.finish();
                }).unwrap();
            }
        });
        let mut out = sh.out.into_inner().unwrap();
        out.wall = t0.elapsed().as_secs_f64();
        if !sh.q.into_inner().unwrap().is_empty() && out.errors.is_empty() && out.viols.is_empty() { out.errors.push("time limit: states left".into()); }
        Ok(out)
    }
}

struct Worker<'a, 'm> { x: &'a Exec<'m>, sh: &'a Shared, o: &'a Opts, sol: Solver, local: Vec<State>, out: Out, t0: std::time::Instant, rng: u64, audit_s: f64 }

fn tape(st: &State) -> Vec<(u8, u64)> {
    let mut t: Vec<(u8, u64)> = st.widths.iter().enumerate().map(|(i, w)| (*w, st.model.get(i).copied().unwrap_or(0) & mask(*w as u32) as u64)).collect();
    // what a run is told rather than asked (`sym_given`)
    for (i, v) in &st.given { t[*i as usize].1 = *v; }
    t
}

impl<'a, 'm> Worker<'a, 'm> {
    fn work(&mut self) {
        loop {
            let mut st = match self.local.pop() {
                Some(s) => s,
                None => {
                    let mut q = self.sh.q.lock().unwrap();
                    self.sh.idle.fetch_add(1, SeqCst);
                    let got = loop {
                        if self.sh.stop.load(SeqCst) { break None; }
                        if let Some(s) = q.pop() { self.sh.active.fetch_add(1, SeqCst); break Some(s); }
                        if self.sh.active.load(SeqCst) == 0 { break None; }
                        q = self.sh.cv.wait_timeout(q, std::time::Duration::from_millis(20)).unwrap().0;
                    };
                    self.sh.idle.fetch_sub(1, SeqCst);
                    drop(q);
                    match got { Some(s) => s, None => { self.sh.cv.notify_all(); return; } }
                }
            };
            let r = self.run_state(&mut st);
            let r = if matches!(r, End(_)) { self.audit(&st).err().unwrap_or(r) } else { r };
            self.ended(st, r);
            if self.sh.stop.load(SeqCst) {
                if !self.local.is_empty() { self.sh.q.lock().unwrap().append(&mut self.local); }
                self.sh.active.fetch_sub(1, SeqCst);
                self.sh.cv.notify_all();
                return;
            }
            if self.local.is_empty() {
                self.sh.active.fetch_sub(1, SeqCst);
                self.sh.cv.notify_all();
            }
        }
    }
    fn finish(&mut self) {
        let mut o = self.sh.out.lock().unwrap();
        let w = &mut self.out;
        o.ok += w.ok; o.assumed_away += w.assumed_away; o.forks += w.forks; o.steps += w.steps; o.branches += w.branches; o.implied += w.implied; o.found += w.found; o.audited += w.audited; o.audited_paths += w.audited_paths;
        o.asserts += w.asserts; o.asserts_symbolic += w.asserts_symbolic;
        o.queries += self.sol.queries; o.sat += self.sol.sat; o.unsat += self.sol.unsat; o.solver_s += self.sol.time;
        o.max_depth = o.max_depth.max(w.max_depth); o.seen += w.seen; o.maxpc = o.maxpc.max(w.maxpc); o.vars = o.vars.max(w.vars);
        o.viols.append(&mut w.viols); o.errors.append(&mut w.errors); o.paths.append(&mut w.paths); o.smt.append(&mut w.smt);
        for (k, v) in w.covers.drain() { *o.covers.entry(k).or_insert(0) += v; }
    }
    /// Puts the conditions decided without a query on this path to the solver, for as
    /// many paths as the share of time set aside for it allows.
    fn audit(&mut self, st: &State) -> Rs<()> {
        if st.implied.is_none() || self.audit_s > self.t0.elapsed().as_secs_f64() * self.o.audit { return Ok(()); }
        let t = std::time::Instant::now();
        let mut all = cst(1, 1);
        let mut n = 0;
        let mut l = &st.implied;
        while let Some(x) = l { all = bin(Op::And, &x.0, &all); n += 1; l = &x.1; if n == 3000 { break; } }
        let (r, _) = self.sol.check(&st.pc, &not(&all), &st.widths);
        self.audit_s += t.elapsed().as_secs_f64();
        match r {
            Sat::No => { self.out.audited += n; self.out.audited_paths += 1; Ok(()) }
            Sat::Yes => self.err("the solver contradicts a condition decided without it".into()),
            Sat::Unknown => Ok(()),
        }
    }
    fn rand(&mut self) -> u64 { self.rng ^= self.rng << 13; self.rng ^= self.rng >> 7; self.rng ^= self.rng << 17; self.rng }
    fn ended(&mut self, st: State, r: Stop) {
        let n = self.sh.paths.fetch_add(1, SeqCst) + 1;
        self.out.steps += st.steps;
        self.out.max_depth = self.out.max_depth.max(st.forks);
        self.out.maxpc = self.out.maxpc.max(st.pc.len());
        self.out.vars = self.out.vars.max(st.widths.len());
        match r {
            End("assume") => { self.out.assumed_away += 1; }
            End(_) => {
                self.out.ok += 1;
                { let l = self.x.labels.lock().unwrap(); for c in &st.covers { *self.out.covers.entry(l.0[*c as usize].clone()).or_insert(0) += 1; } }
                let obs = self.obs(&st);
                let rec = PathRec { tape: tape(&st), obs, steps: st.steps };
                self.out.seen += 1;
                let cap = (self.o.sample / self.o.threads).max(1);
                if self.out.paths.len() < cap { self.out.paths.push(rec); }
                else { let seen = self.out.seen; let j = (self.rand() % seen) as usize; if j < cap { self.out.paths[j] = rec; } }
            }
            Viol(k, msg) => {
                let at = self.trace(&st);
                let obs = self.obs(&st);
                if self.o.verbose { eprintln!("violation: {} {} at {:?} tape {:?}", k, msg, at, tape(&st)); }
                self.out.viols.push(crate::exec::Viol { kind: k, msg, at, tape: tape(&st), obs });
                // what is left is looked at a little longer only
                let t = self.t0.elapsed().as_secs_f64();
                let _ = self.sh.grace.compare_exchange(0, ((t + 10.0f64.max(t * 0.25)) * 1000.0) as u64, SeqCst, SeqCst);
                if self.out.viols.len() >= self.o.max_viol { self.sh.stop.store(true, SeqCst); }
            }
            Bad(e) => {
                let at = self.trace(&st);
                if self.o.verbose { eprintln!("error: {} at {:?}", e, at); }
                self.out.errors.push(format!("{} at {}", e, at.join(" < ")));
                if self.out.errors.len() >= 3 { self.sh.stop.store(true, SeqCst); }
            }
        }
        if n >= self.o.max_paths { self.out.errors.push(format!("path limit {} reached", n)); self.sh.stop.store(true, SeqCst); }
        if self.late() && !self.sh.stop.load(SeqCst) {
            if self.sh.q.lock().unwrap().len() + self.local.len() > 0 || self.sh.active.load(SeqCst) > 1 { self.time_out(); }
        }
    }
    fn late(&self) -> bool {
        let t = self.t0.elapsed().as_secs_f64();
        t > self.o.timeout || (self.sh.grace.load(Relaxed) > 0 && t * 1000.0 > self.sh.grace.load(Relaxed) as f64)
    }
    fn time_out(&mut self) {
        if self.sh.stop.swap(true, SeqCst) { return; }
        self.out.errors.push(format!("time limit reached after {:.0} s and {} paths", self.t0.elapsed().as_secs_f64(), self.sh.paths.load(Relaxed)));
    }
    fn obs(&self, st: &State) -> Vec<u64> {
        st.obs.iter().map(|v| match v { V::I(x) => *x, V::E(e) => eval(e, &st.model) as u64, _ => 0 }).collect()
    }
    fn trace(&self, st: &State) -> Vec<String> {
        let mut v = vec![];
        let mut fr: Vec<&Frame> = st.stack.iter().map(|x| &**x).collect();
        fr.push(&st.top);
        for f in fr.iter().rev().take(12) {
            let fun = &self.x.m.funcs[f.f as usize];
            let b = &fun.blocks[f.b as usize];
            let mut d = b.ins.get((f.ip as usize).min(b.ins.len() - 1)).map(|i| i.dbg).unwrap_or(0);
            let mut any = false;
            while d != 0 {
                match locate(self.x.m, d) { Some(l) => { v.push(format!("{}:{} {}", l.file, l.line, l.func)); any = true; d = l.inlined; } None => break }
                if v.len() > 40 { break; }
            }
            if !any { v.push(fun.name.clone()); }
        }
        v
    }

    // ----- decisions -----
    fn strip(c: &Ex) -> (Ex, bool) {
        if c.op == Op::Xor && c.k[1].val() == Some(1) { let (e, p) = Self::strip(&c.k[0]); (e, !p) } else { (c.clone(), true) }
    }
    fn fork(&mut self, mut st: State) {
        st.forks += 1;
        self.out.forks += 1;
        st.steps = 0;
        self.local.push(st);
        if self.sh.idle.load(Relaxed) > 0 && self.local.len() > 1 {
            let s = self.local.remove(0);
            self.sh.q.lock().unwrap().push(s);
            self.sh.cv.notify_one();
        }
    }
    fn sat(&mut self, st: &State, e: &Ex) -> Rs<Option<Vec<u64>>> {
        if let Some(m) = crate::guess::near(&st.pc, e, &st.model, &st.widths, &st.facts) { self.out.found += 1; return Ok(Some(m)); }
        let keep = self.o.smt_every > 0 && self.sol.queries % self.o.smt_every == self.o.smt_every - 1;
        let (r, m) = self.sol.check(&st.pc, e, &st.widths);
        if keep && self.out.smt.len() < 200 {
            let t = self.sol.smt2(&st.pc, e, &st.widths);
            self.out.smt.push((t, r == Sat::Yes));
        }
        match r {
            Sat::Yes => {
                // the model must satisfy the query by our own evaluation: guards the encoding
                for x in st.pc.iter().chain(std::iter::once(e)) {
                    if eval(x, &m) != 1 { return Err(Bad("solver model disagrees with evaluation".into())); }
                }
                Ok(Some(m))
            }
            Sat::No => {
                if self.o.show > 0 && self.sol.unsat % self.o.show == 0 { eprintln!("{} at {:?}", show(e, 7), self.trace(st).iter().take(3).collect::<Vec<_>>()); }
                Ok(None)
            }
            Sat::Unknown => Err(Bad("solver returned unknown".into())),
        }
    }
    fn add_pc(st: &mut State, e: Ex) { st.pc.push(e); }
    /// Decide a condition, forking when both outcomes are feasible.
    fn decide(&mut self, st: &mut State, c: &Ex) -> Rs<bool> {
        if let Some(v) = c.val() { return Ok(v != 0); }
        let (e, pos) = Self::strip(c);
        if let Some(v) = st.facts.lookup(&e) { return Ok(v == pos); }
        if self.settle(st, &e)? { return Ok((eval(&e, &st.model) != 0) == pos); }
        self.out.branches += 1;
        let v = eval(&e, &st.model) != 0;
        if let Some(x) = st.facts.truth(&e) {
            if x != v { return self.err("facts disagree with the path's model".into()); }
            self.out.implied += 1;
            st.implied = Some(Arc::new(Link(if v { e.clone() } else { not(&e) }, st.implied.clone())));
            return Ok(v == pos);
        }
        let (this, other) = if v { (e.clone(), not(&e)) } else { (not(&e), e.clone()) };
        if let Some(m) = self.sat(st, &other)? {
            let mut o = st.clone();
            o.model = m;
            o.facts.learn(&e, !v);
            Self::add_pc(&mut o, other);
            o.redo = true;
            self.fork(o);
            Self::add_pc(st, this);
        }
        st.facts.learn(&e, v);
        Ok(v == pos)
    }
    /// The truth of a condition when the path condition's facts give it.
    fn settled(&mut self, st: &mut State, c: &Ex) -> Rs<Option<bool>> {
        let (e, pos) = Self::strip(c);
        if let Some(v) = st.facts.lookup(&e) { return Ok(Some(v == pos)); }
        let Some(x) = st.facts.truth(&e) else { return Ok(None) };
        if x != (eval(&e, &st.model) != 0) { return self.err("facts disagree with the path's model".into()); }
        self.out.implied += 1;
        st.implied = Some(Arc::new(Link(if x { e.clone() } else { not(&e) }, st.implied.clone())));
        st.facts.learn(&e, x);
        Ok(Some(x == pos))
    }
    /// Splits into one path per value of the inputs of a large bit-mixing expression.
    fn settle(&mut self, st: &mut State, e: &Ex) -> Rs<bool> {
        if !e.mixing() { return Ok(false); }
        for x in inputs(e) {
            let v = eval(&x, &st.model);
            let r = self.decide(st, &bin(Op::Eq, &x, &cst(v, x.w)))?;
            debug_assert!(r);
        }
        Ok(true)
    }
    fn concretize(&mut self, st: &mut State, e: &Ex) -> Rs<u128> {
        if let Some(v) = e.val() { return Ok(v); }
        // a far-fetched function of the inputs (a hash): easier to go through the inputs
        if self.settle(st, e)? { return Ok(eval(e, &st.model)); }
        let v = eval(e, &st.model);
        let q = bin(Op::Eq, e, &cst(v, e.w));
        // decide() evaluates to true under the model; the other state re-executes and picks another value
        let r = self.decide(st, &q)?;
        debug_assert!(r);
        Ok(v)
    }
    fn cval(&mut self, st: &mut State, v: &V) -> Rs<u64> {
        match v { V::I(x) => Ok(*x), V::W(x) => Ok(**x as u64), V::E(e) => { let e = e.clone(); Ok(self.concretize(st, &e)? as u64) } V::A(_) => Err(Bad("aggregate as scalar".into())) }
    }
    fn viol<T>(&self, k: &str, m: String) -> Rs<T> { Err(Viol(k.into(), m)) }
    fn err<T>(&self, m: String) -> Rs<T> { Err(Bad(m)) }
    fn mem<T>(&self, r: Result<T, String>) -> Rs<T> { r.map_err(|m| Viol("memory".into(), m)) }

    // ----- values -----
    fn opd(&self, st: &State, o: &Opd, t: &Ty) -> V {
        match o { Opd::R(r) => st.top.regs[*r as usize].clone(), Opd::C(c) => cv(c, Some(t)), Opd::Bad => V::I(0) }
    }
    fn read_ty(&mut self, st: &mut State, addr: u64, t: &Ty) -> Rs<V> {
        match t {
            Ty::Arr(..) | Ty::Struct(..) => {
                let mut v = vec![];
                for i in 0..t.count() { v.push(self.read_ty(st, addr + t.offset(i), t.elem(i))?); }
                Ok(V::A(Arc::new(v)))
            }
            Ty::Vec(_, et) => {
                if et.bits() % 8 != 0 {
                    let w = t.count() as u32 * et.bits();
                    if w % 8 != 0 || w > 128 { return self.err("load of a bit vector".into()); }
                    let it = Ty::Int(w);
                    let p = self.read_ty(st, addr, &it)?;
                    return self.cast(Cast::Bitcast, &it, &p, t);
                }
                let mut v = vec![];
                for i in 0..t.count() { v.push(self.read_ty(st, addr + t.offset(i), et)?); }
                Ok(V::A(Arc::new(v)))
            }
            _ => {
                let w = t.bits();
                let n = (w as usize + 7) / 8;
                let r = self.mem(st.mem.read(addr, n))?;
                Ok(match r { Rd::C(x) => con(x, w), Rd::E(e) => vx(extract(&e, 0, w)) })
            }
        }
    }
    fn write_ty(&mut self, st: &mut State, addr: u64, t: &Ty, v: &V) -> Rs<()> {
        match v {
            V::A(vs) => {
                if let Ty::Vec(n, et) = t {
                    if et.bits() % 8 != 0 {
                        // a vector of bits is stored packed
                        let w = *n as u32 * et.bits();
                        if w % 8 != 0 || w > 128 { return self.err("store of a bit vector".into()); }
                        let it = Ty::Int(w);
                        let p = self.cast(Cast::Bitcast, t, v, &it)?;
                        return self.write_ty(st, addr, &it, &p);
                    }
                }
                for (i, x) in vs.iter().enumerate() { self.write_ty(st, addr + t.offset(i), t.elem(i), x)?; }
                Ok(())
            }
            V::E(e) => { let n = (t.bits() as usize + 7) / 8; let e = if e.w as usize % 8 != 0 { zext(e, n as u32 * 8) } else { e.clone() }; self.mem(st.mem.write_ex(addr, n, &e)) }
            _ => { let n = (t.bits() as usize + 7) / 8; self.mem(st.mem.write(addr, n, v.c().unwrap())) }
        }
    }
    /// Load through a symbolic address: proved inside one object, then a case split expression over the offsets.
    fn sym_load(&mut self, st: &mut State, a: &Ex, t: &Ty) -> Rs<V> {
        if t.is_agg() { let c = self.concretize(st, a)? as u64; return self.read_ty(st, c, t); }
        let w = t.bits();
        let n = (w as u64 + 7) / 8;
        let v0 = eval(a, &st.model) as u64;
        let lo = v0 & !0xffff_ffff;
        let size = match st.mem.obj(v0) { Some(o) => o.bytes.len() as u64, None => { let c = self.concretize(st, a)? as u64; return self.read_ty(st, c, t); } };
        if size < n { return self.viol("memory", format!("read of {} bytes of an object of {}", n, size)); }
        let off = bin(Op::Sub, a, &cst(lo as u128, 64));
        let inb = bin(Op::Ule, &off, &cst((size - n) as u128, 64));
        if eval(&inb, &st.model) == 0 || (st.facts.truth(&inb) != Some(true) && self.sat(st, &not(&inb))?.is_some()) {
            // different objects or out of bounds: one address at a time
            let c = self.concretize(st, a)? as u64;
            return self.read_ty(st, c, t);
        }
        let ro = st.mem.obj(v0).unwrap().ro;
        let mut offs: Vec<u64> = vec![];
        let stride = if n.is_power_of_two() && extract(&off, 0, n.trailing_zeros().max(1)).val() == Some(0) { n } else { 1 };
        if ro && (size / stride) <= 2048 && size > 64 {
            let mut i = 0;
            while i + n <= size { offs.push(i); i += stride; }
        } else if let Some(t) = crate::domain::table(&off) {
            for i in crate::domain::members(&st.facts.domain(&off)) { if t[i] <= size - n { offs.push(t[i]); } }
            offs.sort();
            offs.dedup();
        } else {
            let mut q = cst(1, 1);
            let mut cur = Some(st.model.clone());
            while let Some(m) = cur {
                let o = eval(&off, &m) as u64;
                offs.push(o);
                if offs.len() > 300 { let c = self.concretize(st, a)? as u64; return self.read_ty(st, c, t); }
                q = bin(Op::And, &q, &not(&bin(Op::Eq, &off, &cst(o as u128, 64))));
                cur = self.sat(st, &q)?;
            }
            offs.sort();
        }
        let mut vals: Vec<(u64, Ex)> = vec![];
        for o in offs {
            let v = match self.mem(st.mem.read(lo + o, n as usize))? { Rd::C(x) => cst(x, w), Rd::E(e) => extract(&e, 0, w) };
            if let Some(l) = vals.last() { if same(&l.1, &v) { continue; } }
            vals.push((o, v));
        }
        // vals: runs starting at an offset
        let mut r = vals.last().unwrap().1.clone();
        for i in (0..vals.len() - 1).rev() {
            let c = bin(Op::Ult, &off, &cst(vals[i + 1].0 as u128, 64));
            r = flat_ite(&c, &vals[i].1, &r);
        }
        Ok(vx(r))
    }
    fn load(&mut self, st: &mut State, t: &Ty, a: &V) -> Rs<V> {
        match a { V::I(x) => self.read_ty(st, *x, t), V::E(e) => { let e = e.clone(); self.sym_load(st, &e, t) } _ => self.err("address".into()) }
    }
    fn bin(&mut self, st: &mut State, o: Bin, t: &Ty, a: &V, b: &V) -> Rs<V> {
        if let Ty::Vec(n, et) = t {
            let (V::A(x), V::A(y)) = (a, b) else { return self.err("vector operand".into()) };
            let mut r = vec![];
            for i in 0..*n as usize { r.push(self.bin(st, o, et, &x[i], &y[i])?); }
            return Ok(V::A(Arc::new(r)));
        }
        let w = t.bits();
        if o == Bin::FRem {
            let (x, y) = (self.cval(st, a)?, self.cval(st, b)?);
            return Ok(V::I(if w == 32 { (f32::from_bits(x as u32) % f32::from_bits(y as u32)).to_bits() as u64 } else { (f64::from_bits(x) % f64::from_bits(y)).to_bits() }));
        }
        if let (V::I(x), V::I(y)) = (a, b) {
            if w <= 64 {
                let m = mask(w) as u64;
                let (x, y) = (*x, *y);
                let r = match o {
                    Bin::Add => x.wrapping_add(y), Bin::Sub => x.wrapping_sub(y), Bin::Mul => x.wrapping_mul(y),
                    Bin::And => x & y, Bin::Or => x | y, Bin::Xor => x ^ y,
                    Bin::Shl => if y >= w as u64 { 0 } else { x << y },
                    Bin::LShr => if y >= w as u64 { 0 } else { x >> y },
                    Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem => {
                        if y == 0 { return self.viol("arithmetic", "division by zero".into()); }
                        match o { Bin::UDiv => x / y, Bin::URem => x % y, _ => fold(if o == Bin::SDiv { Op::SDiv } else { Op::SRem }, w, 0, w, &[x as u128, y as u128]) as u64 }
                    }
                    Bin::AShr => fold(Op::AShr, w, 0, w, &[x as u128, y as u128]) as u64,
                    Bin::FAdd | Bin::FSub | Bin::FMul | Bin::FDiv => fold(match o { Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, _ => Op::FDiv }, w, 0, w, &[x as u128, y as u128]) as u64,
                    Bin::FRem => unreachable!(),
                };
                return Ok(V::I(r & m));
            }
        }
        let (ea, eb) = (a.ex(w), b.ex(w));
        if matches!(o, Bin::UDiv | Bin::URem | Bin::SDiv | Bin::SRem) {
            let z = bin(Op::Eq, &eb, &cst(0, w));
            if self.decide(st, &z)? { return self.viol("arithmetic", "division by zero".into()); }
        }
        let op = match o {
            Bin::Add => Op::Add, Bin::Sub => Op::Sub, Bin::Mul => Op::Mul, Bin::UDiv => Op::UDiv, Bin::SDiv => Op::SDiv, Bin::URem => Op::URem, Bin::SRem => Op::SRem,
            Bin::Shl => Op::Shl, Bin::LShr => Op::LShr, Bin::AShr => Op::AShr, Bin::And => Op::And, Bin::Or => Op::Or, Bin::Xor => Op::Xor,
            Bin::FAdd => Op::FAdd, Bin::FSub => Op::FSub, Bin::FMul => Op::FMul, Bin::FDiv => Op::FDiv, Bin::FRem => unreachable!(),
        };
        Ok(vx(bin(op, &ea, &eb)))
    }
    fn icmp(&self, p: Pred, w: u32, a: &V, b: &V) -> V {
        if let (V::I(x), V::I(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| -> i64 { if w >= 64 { v as i64 } else { ((v << (64 - w)) as i64) >> (64 - w) } };
            let r = match p {
                Pred::Eq => x == y, Pred::Ne => x != y, Pred::Ugt => x > y, Pred::Uge => x >= y, Pred::Ult => x < y, Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y), Pred::Sge => s(x) >= s(y), Pred::Slt => s(x) < s(y), Pred::Sle => s(x) <= s(y),
            };
            return V::I(r as u64);
        }
        let (a, b) = (a.ex(w), b.ex(w));
        vx(match p {
            Pred::Eq => bin(Op::Eq, &a, &b), Pred::Ne => not(&bin(Op::Eq, &a, &b)),
            Pred::Ugt => bin(Op::Ult, &b, &a), Pred::Uge => bin(Op::Ule, &b, &a), Pred::Ult => bin(Op::Ult, &a, &b), Pred::Ule => bin(Op::Ule, &a, &b),
            Pred::Sgt => bin(Op::Slt, &b, &a), Pred::Sge => bin(Op::Sle, &b, &a), Pred::Slt => bin(Op::Slt, &a, &b), Pred::Sle => bin(Op::Sle, &a, &b),
        })
    }
    fn fcmp(&self, p: &str, w: u32, a: &V, b: &V) -> Rs<V> {
        let (a, b) = (a.ex(w), b.ex(w));
        let na = un(Op::FNan, 1, &a);
        let nb = un(Op::FNan, 1, &b);
        let uno = bin(Op::Or, &na, &nb);
        let base = |k: &str| match k {
            "eq" => bin(Op::FEq, &a, &b), "gt" => bin(Op::FLt, &b, &a), "ge" => bin(Op::FLe, &b, &a), "lt" => bin(Op::FLt, &a, &b), "le" => bin(Op::FLe, &a, &b),
            _ => bin(Op::And, &not(&uno), &not(&bin(Op::FEq, &a, &b))),
        };
        Ok(vx(match p {
            "true" => cst(1, 1), "false" => cst(0, 1), "uno" => uno, "ord" => not(&uno),
            _ if p.starts_with('o') => base(&p[1..]),
            "une" => not(&bin(Op::FEq, &a, &b)),
            _ if p.starts_with('u') => bin(Op::Or, &uno, &base(&p[1..])),
            _ => return self.err(format!("fcmp {}", p)),
        }))
    }
    fn cast(&mut self, c: Cast, t: &Ty, v: &V, o: &Ty) -> Rs<V> {
        if let (Ty::Vec(n, et), Cast::Bitcast) = (t, c) {
            // vector of bits or bytes to an integer
            let V::A(x) = v else { return self.err("bitcast".into()) };
            if o.is_agg() {
                let w = *n as u32 * et.bits();
                if w > 128 { return self.err("vector bitcast".into()); }
                let it = Ty::Int(w);
                let p = self.cast(c, t, v, &it)?;
                return self.cast(c, &it, &p, o);
            }
            let w = et.bits();
            let all = *n as u32 * w;
            if all <= 128 {
                // plain values at once
                let plain = x.iter().enumerate().try_fold(0u128, |r, (i, y)| match y { V::I(y) => Some(r | (*y as u128) << (i as u32 * w)), _ => None });
                if let Some(r) = plain { return Ok(con(r, all)); }
            }
            let mut r = x[0].ex(w);
            for i in 1..*n as usize { r = concat(&x[i].ex(w), &r); }
            return Ok(vx(r));
        }
        if let (Ty::Vec(n, et), Cast::Bitcast) = (o, c) {
            if t.is_agg() { return self.err("bitcast".into()); }
            let w = et.bits();
            if let Some(x) = v.c() { return Ok(V::A(Arc::new((0..*n as u32).map(|i| con(x >> (i * w), w)).collect()))); }
            let e = v.ex(t.bits());
            return Ok(V::A(Arc::new((0..*n as u32).map(|i| vx(extract(&e, i * w, w))).collect())));
        }
        if t.is_agg() {
            if let (Ty::Vec(_, et), Ty::Vec(_, ot), V::A(x)) = (t, o, v) {
                let mut r = vec![];
                for y in x.iter() { r.push(self.cast(c, et, y, ot)?); }
                return Ok(V::A(Arc::new(r)));
            }
            return self.err("aggregate cast".into());
        }
        if o.is_agg() { return self.err("cast to aggregate".into()); }
        let (w, ow) = (t.bits(), o.bits());
        if let V::I(x) = v {
            match c {
                Cast::Trunc | Cast::ZExt | Cast::PtrToInt | Cast::IntToPtr | Cast::Bitcast => return Ok(con(*x as u128, ow)),
                Cast::SExt => return Ok(con(sext(*x as u128, w) as u128, ow)),
                _ => {}
            }
        }
        let e = v.ex(w);
        let resize = |e: &Ex| if ow <= w { extract(e, 0, ow) } else { zext(e, ow) };
        Ok(vx(match c {
            Cast::Trunc => extract(&e, 0, ow),
            Cast::ZExt => zext(&e, ow),
            Cast::SExt => sxt(&e, ow),
            Cast::PtrToInt | Cast::IntToPtr | Cast::Bitcast => resize(&e),
            Cast::UiToFp => un(Op::UiToFp, ow, &e),
            Cast::SiToFp => un(Op::SiToFp, ow, &e),
            Cast::FpExt => un(Op::FpExt, ow, &e),
            Cast::FpTrunc => un(Op::FpTrunc, ow, &e),
            Cast::FpToUi => un(Op::FpToUi, ow, &e),
            Cast::FpToSi => un(Op::FpToSi, ow, &e),
        }))
    }
    fn jump(&mut self, st: &mut State, to: u32) {
        let f = &self.x.m.funcs[st.top.f as usize];
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            let from = st.top.b;
            let mut vals: Vec<(u32, V)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|(p, _)| *p == from).map(|(_, o)| o).expect("phi predecessor");
                let v = match o { Opd::R(r) => st.top.regs[*r as usize].clone(), Opd::C(c) => cv(c, None), Opd::Bad => V::I(0) };
                vals.push((*d, v));
            }
            for (d, v) in vals { st.top.regs[d as usize] = v; }
        }
        st.top.b = to;
        st.top.ip = 0;
    }

    fn run_state(&mut self, st: &mut State) -> Stop {
        let base = st.steps;
        loop {
            if (st.steps - base) & 0xfff == 0 {
                if st.steps > self.o.max_steps { return Viol("nontermination".into(), format!("more than {} instructions on a path", self.o.max_steps)); }
                if self.sh.stop.load(Relaxed) { return Bad("stopped".into()); }
                if self.late() { self.time_out(); return Bad("stopped".into()); }
            }
            if let Err(s) = self.step(st) { return s; }
        }
    }
    fn step(&mut self, st: &mut State) -> Rs<()> {
        let x = self.x;
        let f = &x.m.funcs[st.top.f as usize];
        let ins = &f.blocks[st.top.b as usize].ins[st.top.ip as usize];
        st.steps += 1;
        let h = &x.hit[ins.gid as usize];
        if !h.load(Relaxed) { h.store(true, Relaxed); }
        let set = |st: &mut State, v: V| { st.top.regs[ins.dst as usize] = v; st.top.ip += 1; };
        match &ins.k {
            K::Bin(o, t, a, b) => {
                let (a, b) = (self.opd(st, a, t), self.opd(st, b, t));
                let v = self.bin(st, *o, t, &a, &b)?;
                set(st, v);
            }
            K::Icmp(p, t, a, b) => {
                let (a, b) = (self.opd(st, a, t), self.opd(st, b, t));
                let v = if let Ty::Vec(_, et) = t {
                    let (V::A(x), V::A(y)) = (&a, &b) else { return self.err("vector operand".into()) };
                    V::A(Arc::new(x.iter().zip(y.iter()).map(|(x, y)| self.icmp(*p, et.bits(), x, y)).collect()))
                } else {
                    let v = self.icmp(*p, t.bits(), &a, &b);
                    match &v { V::E(e) => self.settled(st, &e.clone())?.map_or(v, |x| V::I(x as u64)), _ => v }
                };
                set(st, v);
            }
            K::Fcmp(p, t, a, b) => {
                let (a, b) = (self.opd(st, a, t), self.opd(st, b, t));
                let v = if let Ty::Vec(_, et) = t {
                    let (V::A(x), V::A(y)) = (&a, &b) else { return self.err("vector operand".into()) };
                    let mut r = vec![];
                    for (x, y) in x.iter().zip(y.iter()) { r.push(self.fcmp(p, et.bits(), x, y)?); }
                    V::A(Arc::new(r))
                } else { self.fcmp(p, t.bits(), &a, &b)? };
                set(st, v);
            }
            K::FNeg(t, a) => {
                let a = self.opd(st, a, t);
                let v = if let (Ty::Vec(_, et), V::A(x)) = (t, &a) { V::A(Arc::new(x.iter().map(|x| vx(un(Op::FNeg, et.bits(), &x.ex(et.bits())))).collect())) }
                    else { vx(un(Op::FNeg, t.bits(), &a.ex(t.bits()))) };
                set(st, v);
            }
            K::Cast(c, t, a, o) => {
                let mut a = self.opd(st, a, t);
                // a truth value made a float: floating point reasoning is dear, paths are not
                if let (Cast::UiToFp | Cast::SiToFp, V::E(e)) = (c, &a) {
                    let narrow = if e.op == Op::ZExt { e.k[0].w } else { e.w };
                    if narrow == 1 { a = con(self.concretize(st, &e.clone())?, t.bits()); }
                }
                let v = self.cast(*c, t, &a, o)?;
                set(st, v);
            }
            K::Load(t, a) => { let a = self.opd(st, a, &Ty::Ptr); let v = self.load(st, t, &a)?; set(st, v); }
            K::Store(t, v, a) => {
                let v = self.opd(st, v, t);
                let a = self.opd(st, a, &Ty::Ptr);
                let a = self.cval(st, &a)?;
                self.write_ty(st, a, t, &v)?;
                st.top.ip += 1;
            }
            K::Gep(b, off, dynv) => {
                let b = self.opd(st, b, &Ty::Ptr);
                let mut sym = None;
                let mut acc = *off;
                match &b { V::I(x) => acc = acc.wrapping_add(*x), V::E(e) => sym = Some(e.clone()), _ => return self.err("gep base".into()) }
                for (o, w, sc) in dynv {
                    match self.opd(st, o, &Ty::Int(*w)) {
                        V::I(x) => acc = acc.wrapping_add((sext(x as u128, *w) as i64 as u64).wrapping_mul(*sc)),
                        V::E(e) => {
                            let e = bin(Op::Mul, &sxt(&e, 64), &cst(*sc as u128, 64));
                            sym = Some(match sym { Some(s) => bin(Op::Add, &s, &e), None => e });
                        }
                        _ => return self.err("gep index".into()),
                    }
                }
                let v = match sym { None => V::I(acc), Some(s) => vx(bin(Op::Add, &s, &cst(acc as u128, 64))) };
                set(st, v);
            }
            K::Alloca(t, n, _) => {
                let n = self.opd(st, n, &Ty::Int(64));
                let n = self.cval(st, &n)?;
                let a = st.mem.stack_alloc((t.size() * n) as usize);
                set(st, V::I(a));
            }
            K::Select(t, c, a, b) => {
                let c = self.opd(st, c, &if let (Opd::C(Cv::A(_)), Ty::Vec(n, _)) = (c, t) { Ty::Vec(*n, Arc::new(Ty::Int(1))) } else { Ty::Int(1) });
                let v = match c {
                    V::A(cs) => {
                        let (Ty::Vec(_, et), V::A(va), V::A(vb)) = (t, self.opd(st, a, t), self.opd(st, b, t)) else { return self.err("vector select".into()) };
                        let w = et.bits();
                        let mut r = vec![];
                        for (i, c) in cs.iter().enumerate() {
                            r.push(match c {
                                V::I(x) => if *x != 0 { va[i].clone() } else { vb[i].clone() },
                                V::E(c) if matches!(**et, Ty::Int(_)) => vx(ite(c, &va[i].ex(w), &vb[i].ex(w))),
                                V::E(c) => { let c = c.clone(); if self.decide(st, &c)? { va[i].clone() } else { vb[i].clone() } }
                                _ => return self.err("vector select".into()),
                            });
                        }
                        V::A(Arc::new(r))
                    }
                    V::I(x) => self.opd(st, if x != 0 { a } else { b }, t),
                    V::E(c) => {
                        let (va, vb) = (self.opd(st, a, t), self.opd(st, b, t));
                        if t.is_agg() || matches!(t, Ty::Ptr | Ty::F32 | Ty::F64) {
                            let eq = match (&va, &vb) { (V::I(x), V::I(y)) => x == y, _ => false };
                            if eq { va } else if self.decide(st, &c)? { va } else { vb }
                        } else {
                            let w = t.bits();
                            let e = ite(&c, &va.ex(w), &vb.ex(w));
                            if e.tangled() { if self.decide(st, &c)? { va } else { vb } } else { vx(e) }
                        }
                    }
                    _ => return self.err("select".into()),
                };
                set(st, v);
            }
            K::Call(callee, args, rt) => {
                let fi = match callee {
                    Callee::F(i) => *i,
                    Callee::Ind(o) => {
                        let v = self.opd(st, o, &Ty::Ptr);
                        let a = self.cval(st, &v)?;
                        if a < FBASE || (a - FBASE) & 15 != 0 || (a - FBASE) >> 4 >= x.m.funcs.len() as u64 { return self.viol("memory", format!("call of a non-function {:#x}", a)); }
                        ((a - FBASE) >> 4) as u32
                    }
                };
                let b = x.bi[fi as usize];
                let g = &x.m.funcs[fi as usize];
                if b == Bi::None {
                    if g.decl { return self.err(format!("call of external {}", g.name)); }
                    if st.stack.len() > 20000 { return self.viol("stack", "recursion deeper than 20000 frames".into()); }
                    let mut regs = vec![V::I(0); g.nregs as usize];
                    for (r, (t, v)) in g.args.iter().zip(args) { regs[*r as usize] = self.opd(st, v, t); }
                    st.top.ip += 1;
                    let nf = Frame { f: fi, b: 0, ip: 0, ret: ins.dst, mark: st.mem.stack_mark() as u32, regs };
                    let old = std::mem::replace(&mut st.top, nf);
                    st.stack.push(Arc::new(old));
                    return Ok(());
                }
                let mut av = Vec::with_capacity(args.len());
                for (t, v) in args { av.push(self.opd(st, v, t)); }
                let r = self.builtin(st, b, fi, &av, args, rt)?;
                if ins.dst != NONE { st.top.regs[ins.dst as usize] = r; }
                st.top.ip += 1;
            }
            K::Br(l) => self.jump(st, *l),
            K::CondBr(c, a, b) => {
                let c = self.opd(st, c, &Ty::Int(1));
                let t = match c { V::I(x) => x != 0, V::E(e) => self.decide(st, &e)?, _ => return self.err("branch".into()) };
                self.jump(st, if t { *a } else { *b });
            }
            K::Switch(w, v, cs, d) => {
                let v = self.opd(st, v, &Ty::Int(*w));
                let to = match v {
                    V::I(x) => cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d),
                    V::E(e) => {
                        // by target block, the model's first
                        let x = eval(&e, &st.model) as u64;
                        let to = cs.iter().find(|c| c.0 == x).map(|c| c.1).unwrap_or(*d);
                        let mut cond = cst(0, 1);
                        if to == *d {
                            for c in cs { if c.1 != *d { cond = bin(Op::Or, &cond, &bin(Op::Eq, &e, &cst(c.0 as u128, *w))); } }
                            cond = not(&cond);
                        } else {
                            for c in cs { if c.1 == to { cond = bin(Op::Or, &cond, &bin(Op::Eq, &e, &cst(c.0 as u128, *w))); } }
                        }
                        if !self.decide(st, &cond)? { return self.err("switch decision".into()); }
                        to
                    }
                    _ => return self.err("switch".into()),
                };
                self.jump(st, to);
            }
            K::Ret(v) => {
                let v = v.as_ref().map(|(t, o)| self.opd(st, o, t));
                st.mem.stack_pop(st.top.mark as usize);
                match st.stack.pop() {
                    None => return Err(End("ok")),
                    Some(p) => {
                        let ret = st.top.ret;
                        st.top = Arc::try_unwrap(p).unwrap_or_else(|p| (*p).clone());
                        if ret != NONE { if let Some(v) = v { st.top.regs[ret as usize] = v; } }
                    }
                }
            }
            K::Unreachable => return self.viol("unreachable", "reached code the compiler was told is unreachable".into()),
            K::ExtractV(a, ix) => {
                let mut v = self.opd(st, a, &Ty::Void);
                for i in ix { v = match &v { V::A(x) => x[*i as usize].clone(), _ => return self.err("extractvalue".into()) }; }
                set(st, v);
            }
            K::InsertV(a, v, t, ix) => {
                let mut av = match a { Opd::C(c) => cv(c, None), _ => self.opd(st, a, &Ty::Void) };
                if let V::I(_) = av { av = cv(&Cv::zero(t), None); }
                let v = match v { Opd::C(c) => cv(c, None), _ => self.opd(st, v, &Ty::Void) };
                fn put(a: &mut V, ix: &[u32], v: V) -> bool {
                    if ix.is_empty() { *a = v; return true; }
                    match a { V::A(x) => put(&mut Arc::make_mut(x)[ix[0] as usize], &ix[1..], v), _ => false }
                }
                if !put(&mut av, ix, v) { return self.err("insertvalue".into()); }
                set(st, av);
            }
            K::ExtractE(a, i) => {
                let a = self.opd(st, a, &Ty::Void);
                let i = self.opd(st, i, &Ty::Int(64));
                let i = self.cval(st, &i)? as usize;
                let v = match &a { V::A(x) => x[i].clone(), _ => return self.err("extractelement".into()) };
                set(st, v);
            }
            K::InsertE(a, v, i) => {
                let a = self.opd(st, a, &Ty::Void);
                let v = match v { Opd::C(c) => cv(c, None), _ => self.opd(st, v, &Ty::Void) };
                let i = self.opd(st, i, &Ty::Int(64));
                let i = self.cval(st, &i)? as usize;
                let V::A(mut x) = a else { return self.err("insertelement".into()) };
                Arc::make_mut(&mut x)[i] = v;
                set(st, V::A(x));
            }
            K::Shuffle(a, b, m) => {
                let (V::A(p), V::A(q)) = (self.opd(st, a, &Ty::Void), self.opd(st, b, &Ty::Void)) else { return self.err("shuffle".into()) };
                let n = p.len() as i64;
                let r = m.iter().map(|i| if *i < 0 { V::I(0) } else if *i < n { p[*i as usize].clone() } else { q[(*i - n) as usize].clone() }).collect();
                set(st, V::A(Arc::new(r)));
            }
            K::AtomicRmw(o, t, a, v) => {
                let a = self.opd(st, a, &Ty::Ptr);
                let a = self.cval(st, &a)?;
                let v = self.opd(st, v, t);
                let old = self.read_ty(st, a, t)?;
                let w = t.bits();
                let n = match o {
                    Rmw::Add => self.bin(st, Bin::Add, t, &old, &v)?, Rmw::Sub => self.bin(st, Bin::Sub, t, &old, &v)?,
                    Rmw::And => self.bin(st, Bin::And, t, &old, &v)?, Rmw::Or => self.bin(st, Bin::Or, t, &old, &v)?, Rmw::Xor => self.bin(st, Bin::Xor, t, &old, &v)?,
                    Rmw::Xchg => v,
                    Rmw::Umax => vx(ite(&bin(Op::Ult, &old.ex(w), &v.ex(w)), &v.ex(w), &old.ex(w))),
                    Rmw::Umin => vx(ite(&bin(Op::Ult, &old.ex(w), &v.ex(w)), &old.ex(w), &v.ex(w))),
                    _ => return self.err("atomicrmw".into()),
                };
                self.write_ty(st, a, t, &n)?;
                set(st, old);
            }
            K::CmpXchg(t, a, c, n) => {
                let a = self.opd(st, a, &Ty::Ptr);
                let a = self.cval(st, &a)?;
                let c = self.opd(st, c, t);
                let n = self.opd(st, n, t);
                let old = self.read_ty(st, a, t)?;
                let e = self.icmp(Pred::Eq, t.bits(), &old, &c);
                let ok = match &e { V::I(x) => *x != 0, V::E(e) => self.decide(st, e)?, _ => false };
                if ok { self.write_ty(st, a, t, &n)?; }
                set(st, V::A(Arc::new(vec![old, V::I(ok as u64)])));
            }
            K::Freeze(a) => { let v = match a { Opd::C(c) => cv(c, None), _ => self.opd(st, a, &Ty::Void) }; set(st, v); }
            K::Nop => st.top.ip += 1,
            K::Unsupported(s) => return self.err(format!("unsupported instruction {}", s)),
        }
        Ok(())
    }
    fn alloc(&mut self, st: &mut State, size: &V, zero: bool) -> Rs<u64> {
        let _ = zero;
        let lim = self.o.max_alloc;
        let n = match size {
            V::I(n) => *n,
            V::E(e) => {
                let e = e.clone();
                let big = bin(Op::Ult, &cst(lim as u128, 64), &e);
                if self.decide(st, &big)? { let v = eval(&e, &st.model); return self.viol("allocation", format!("request for {} bytes (limit {})", v, lim)); }
                // a few sizes: one path each; many: room for the largest, the size stays symbolic
                let mut few = true;
                if !matches!(crate::domain::table(&e), Some(_)) {
                    let mut q = cst(1, 1);
                    let mut cur = Some(st.model.clone());
                    let mut n = 0;
                    while let Some(m) = cur {
                        n += 1;
                        if n > 16 { few = false; break; }
                        q = bin(Op::And, &q, &not(&bin(Op::Eq, &e, &cst(eval(&e, &m), e.w))));
                        cur = self.sat(st, &q)?;
                    }
                }
                if few { self.concretize(st, &e)? as u64 } else { lim }
            }
            _ => return self.err("allocation size".into()),
        };
        if n > lim { return self.viol("allocation", format!("request for {} bytes (limit {})", n, lim)); }
        Ok(st.mem.alloc(Obj::new(n as usize)))
    }
    fn text(&mut self, st: &mut State, p: &V, n: &V) -> Rs<String> {
        let p = self.cval(st, p)?;
        let n = self.cval(st, n)?;
        let b = self.mem(st.mem.bytes(p, n as usize))?;
        Ok(String::from_utf8_lossy(&b).into_owned())
    }
    fn builtin(&mut self, st: &mut State, b: Bi, fi: u32, a: &[V], args: &[(Ty, Opd)], rt: &Ty) -> Rs<V> {
        let x = self.x;
        match b {
            Bi::Nop => Ok(V::I(0)),
            Bi::Alloc | Bi::Malloc => Ok(V::I(self.alloc(st, &a[0], false)?)),
            Bi::AllocZ => Ok(V::I(self.alloc(st, &a[0], true)?)),
            Bi::Calloc => { let n = self.cval(st, &a[0])?; let m = self.cval(st, &a[1])?; Ok(V::I(self.alloc(st, &V::I(n.saturating_mul(m)), true)?)) }
            Bi::Memalign => {
                let p = self.cval(st, &a[0])?;
                let n = self.alloc(st, &a[2], false)?;
                self.mem(st.mem.write(p, 8, n as u128))?;
                Ok(V::I(0))
            }
            Bi::Dealloc | Bi::Free => {
                let p = self.cval(st, &a[0])?;
                if !(b == Bi::Free && p == 0) { self.mem(st.mem.free(p))?; }
                Ok(V::I(0))
            }
            Bi::Realloc | Bi::CRealloc => {
                let p = self.cval(st, &a[0])?;
                let n = self.alloc(st, if b == Bi::Realloc { &a[3] } else { &a[1] }, false)?;
                let new = st.mem.obj(n).unwrap().bytes.len();
                let old = match st.mem.obj(p) { Some(o) => o.bytes.len(), None => return self.viol("memory", "realloc of an invalid pointer".into()) };
                self.mem(st.mem.copy(n, p, old.min(new)))?;
                self.mem(st.mem.free(p))?;
                Ok(V::I(n))
            }
            Bi::Memcpy => {
                let n = self.cval(st, &a[2])? as usize;
                if n == 0 { return Ok(a[0].clone()); }
                let d = self.cval(st, &a[0])?;
                let s = self.cval(st, &a[1])?;
                self.mem(st.mem.copy(d, s, n))?;
                Ok(V::I(d))
            }
            Bi::Memset => {
                let n = self.cval(st, &a[2])?;
                if n == 0 { return Ok(a[0].clone()); }
                let d = self.cval(st, &a[0])?;
                let wv = &args[1].0;
                match &a[1] {
                    V::I(v) => for i in 0..n { self.mem(st.mem.write(d + i, 1, (*v & 255) as u128))?; },
                    V::E(e) => { let e = extract(e, 0, 8); for i in 0..n { self.mem(st.mem.write_ex(d + i, 1, &e))?; } }
                    _ => return self.err(format!("memset {:?}", wv)),
                }
                Ok(V::I(d))
            }
            Bi::Bcmp | Bi::Memcmp => {
                let n = self.cval(st, &a[2])? as usize;
                if n == 0 { return Ok(V::I(0)); }
                let p = self.cval(st, &a[0])?;
                let q = self.cval(st, &a[1])?;
                if let (Some(x), Some(y)) = (self.mem(st.mem.plain(p, n))?, self.mem(st.mem.plain(q, n))?) {
                    return Ok(V::I(match x.cmp(y) { std::cmp::Ordering::Equal => 0, std::cmp::Ordering::Less if b == Bi::Memcmp => 0xffff_ffff, _ => 1 }));
                }
                let rd = |st: &State, p: u64| -> Result<Vec<Ex>, String> {
                    (0..n).map(|i| st.mem.read(p + i as u64, 1).map(|r| match r { Rd::C(v) => cst(v, 8), Rd::E(e) => e })).collect()
                };
                let xs = self.mem(rd(st, p))?;
                let ys = self.mem(rd(st, q))?;
                let mut r = cst(0, 32);
                if b == Bi::Bcmp {
                    let mut eq = cst(1, 1);
                    for (x, y) in xs.iter().zip(&ys) { eq = bin(Op::And, &eq, &bin(Op::Eq, x, y)); }
                    r = ite(&eq, &cst(0, 32), &cst(1, 32));
                } else {
                    for (x, y) in xs.iter().zip(&ys).rev() {
                        let e = bin(Op::Eq, x, y);
                        let l = bin(Op::Ult, x, y);
                        r = ite(&e, &r, &ite(&l, &cst(0xffff_ffff, 32), &cst(1, 32)));
                    }
                }
                Ok(vx(r))
            }
            Bi::Strlen => {
                let p = self.cval(st, &a[0])?;
                let mut n = 0;
                loop {
                    match self.mem(st.mem.read(p + n, 1))? {
                        Rd::C(0) => return Ok(V::I(n)),
                        Rd::C(_) => n += 1,
                        Rd::E(_) => return self.err("strlen of symbolic data".into()),
                    }
                }
            }
            Bi::SymU64 => {
                let w = self.cval(st, &a[0])? as u32;
                let i = st.widths.len() as u32;
                st.widths.push(w as u8);
                st.model.push(0);
                Ok(vx(zext(&var(i, w), 64)))
            }
            Bi::SymGiven => {
                let v = self.cval(st, &a[0])?;
                st.given.push((st.widths.len() as u32, v));
                st.widths.push(64);
                st.model.push(v);
                Ok(V::I(v))
            }
            Bi::SymAssume => {
                match &a[0] {
                    V::I(0) => Err(End("assume")),
                    V::I(_) => Ok(V::I(0)),
                    V::E(e) => {
                        let e = e.clone();
                        let (base, pos) = Self::strip(&e);
                        if let Some(v) = st.facts.truth(&base) { return if v == pos { Ok(V::I(0)) } else { Err(End("assume")) }; }
                        if eval(&e, &st.model) == 0 {
                            match self.sat(st, &e)? { Some(m) => st.model = m, None => return Err(End("assume")) }
                        }
                        st.facts.learn(&base, pos);
                        Self::add_pc(st, e);
                        Ok(V::I(0))
                    }
                    _ => self.err("assume".into()),
                }
            }
            Bi::SymAssert => {
                self.out.asserts += 1;
                match &a[0] {
                    V::I(0) => { let m = self.text(st, &a[1], &a[2])?; self.viol("assertion", m) }
                    V::I(_) => Ok(V::I(0)),
                    V::E(e) => {
                        let e = e.clone();
                        self.out.asserts_symbolic += 1;
                        // always the solver's verdict
                        match self.sat(st, &not(&e))? {
                            Some(m) => { st.model = m; let m = self.text(st, &a[1], &a[2])?; self.viol("assertion", m) }
                            None => { let (b, p) = Self::strip(&e); st.facts.learn(&b, p); Ok(V::I(0)) }
                        }
                    }
                    _ => self.err("assert".into()),
                }
            }
            Bi::SymObs => { st.obs.push(a[0].clone()); Ok(V::I(0)) }
            Bi::SymCover => {
                let t = self.text(st, &a[0], &a[1])?;
                let mut l = x.labels.lock().unwrap();
                let id = match l.1.get(&t) { Some(i) => *i, None => { let i = l.0.len() as u32; l.0.push(t.clone()); l.1.insert(t, i); i } };
                drop(l);
                if !st.covers.contains(&id) { st.covers.push(id); }
                Ok(V::I(0))
            }
            Bi::Random => {
                // the seed of std's hash maps: one fixed value
                let (d, n) = (self.cval(st, &a[0])?, self.cval(st, &a[1])?);
                for i in 0..n { self.mem(st.mem.write(d + i, 1, 0x5a))?; }
                Ok(V::I(n))
            }
            Bi::SymConc => Ok(V::I(self.cval(st, &a[0])?)),
            Bi::Panic => {
                let n = &x.m.funcs[fi as usize].name;
                self.viol("panic", format!("call of {}", demangle(n)))
            }
            Bi::Intr => self.intrinsic(st, fi, a, args, rt),
            _ => self.err(format!("builtin {:?}", b)),
        }
    }
    fn intrinsic(&mut self, st: &mut State, fi: u32, a: &[V], args: &[(Ty, Opd)], rt: &Ty) -> Rs<V> {
        let n = self.x.intr[fi as usize].as_str();
        if let Some(V::I(x)) = a.first() {
            let w = args[0].0.bits();
            if (8..=64).contains(&w) && !args[0].0.is_agg() { if let Some(v) = Self::plain_intr(n, w, *x, a.get(1)) { return Ok(v); } }
        }
        let ts: Vec<Ty> = args.iter().map(|a| a.0.clone()).collect();
        if let Some(n) = n.strip_prefix("vector.reduce.") {
            let (Some(Ty::Vec(_, et)), Some(V::A(x))) = (ts.last(), a.last()) else { return self.err(format!("intrinsic {}", n)) };
            let o = match n {
                "add" => Bin::Add, "mul" => Bin::Mul, "and" => Bin::And, "or" => Bin::Or, "xor" => Bin::Xor, "fadd" => Bin::FAdd, "fmul" => Bin::FMul,
                "umin" | "umax" | "smin" | "smax" | "fmin" | "fmax" | "fminimum" | "fmaximum" => {
                    let n = match n { "fmin" => "minnum", "fmax" => "maxnum", "fminimum" => "minimum", "fmaximum" => "maximum", _ => n };
                    let mut r = x[0].clone();
                    for y in &x[1..] { r = self.scalar_intr(st, n, &[r, y.clone()], &[(**et).clone(), (**et).clone()], et)?; }
                    return Ok(r);
                }
                _ => return self.err(format!("intrinsic llvm.vector.reduce.{}", n)),
            };
            let mut i = x.iter();
            let mut r = if a.len() == 2 { a[0].clone() } else { i.next().unwrap().clone() };
            for y in i { r = self.bin(st, o, et, &r, y)?; }
            return Ok(r);
        }
        if let Some(Ty::Vec(k, _)) = ts.first() {
            // element by element
            let rts: Vec<Ty> = match rt {
                Ty::Vec(_, et) => vec![(**et).clone()],
                Ty::Struct(f, _) => f.iter().filter_map(|t| if let Ty::Vec(_, e) = t { Some((**e).clone()) } else { None }).collect(),
                _ => return self.err(format!("vector intrinsic llvm.{}", n)),
            };
            let one = if rts.len() == 1 { rts[0].clone() } else { Ty::Struct(rts.clone(), false) };
            let mut out: Vec<Vec<V>> = vec![vec![]; rts.len()];
            for j in 0..*k as usize {
                let mut av = vec![];
                let mut at = vec![];
                for (t, v) in ts.iter().zip(a) {
                    match (t, v) {
                        (Ty::Vec(_, et), V::A(x)) => { av.push(x[j].clone()); at.push((**et).clone()); }
                        _ => { av.push(v.clone()); at.push(t.clone()); }
                    }
                }
                match self.scalar_intr(st, n, &av, &at, &one)? {
                    V::A(x) if rts.len() > 1 => for (o, v) in out.iter_mut().zip(x.iter()) { o.push(v.clone()); },
                    v => out[0].push(v),
                }
            }
            let mut out: Vec<V> = out.into_iter().map(|x| V::A(Arc::new(x))).collect();
            return Ok(if out.len() == 1 { out.pop().unwrap() } else { V::A(Arc::new(out)) });
        }
        self.scalar_intr(st, n, a, &ts, rt)
    }
    /// The commonest ones, on plain values.
    fn plain_intr(n: &str, w: u32, x: u64, y: Option<&V>) -> Option<V> {
        match n {
            "ctlz" => return Some(V::I((x.leading_zeros() - (64 - w)) as u64)),
            "cttz" => return Some(V::I(x.trailing_zeros().min(w) as u64)),
            "ctpop" => return Some(V::I(x.count_ones() as u64)),
            "bswap" => return Some(V::I(x.swap_bytes() >> (64 - w))),
            _ => {}
        }
        let y = match y { Some(V::I(y)) => *y, _ => return None };
        let full = mask(w) as u64;
        let sx = |v: u64| ((v << (64 - w)) as i64) >> (64 - w);
        Some(match n {
            "umin" => V::I(x.min(y)),
            "umax" => V::I(x.max(y)),
            "smin" => V::I(if sx(x) < sx(y) { x } else { y }),
            "smax" => V::I(if sx(x) < sx(y) { y } else { x }),
            "usub.sat" => V::I(x.saturating_sub(y)),
            "uadd.sat" => V::I(x.checked_add(y).map_or(full, |s| s.min(full))),
            "uadd.with.overflow" => { let s = x as u128 + y as u128; V::A(Arc::new(vec![V::I(s as u64 & full), V::I((s > full as u128) as u64)])) }
            "usub.with.overflow" => V::A(Arc::new(vec![V::I(x.wrapping_sub(y) & full), V::I((x < y) as u64)])),
            "umul.with.overflow" => { let s = x as u128 * y as u128; V::A(Arc::new(vec![V::I(s as u64 & full), V::I((s > full as u128) as u64)])) }
            _ => return None,
        })
    }
    fn scalar_intr(&mut self, st: &mut State, n: &str, a: &[V], ts: &[Ty], rt: &Ty) -> Rs<V> {
        let t = ts.first().cloned().unwrap_or(Ty::Void);
        if t.is_agg() { return self.err(format!("vector intrinsic {}", n)); }
        let w = t.bits();
        let e = |i: usize| a[i].ex(ts[i].bits());
        let r = match n {
            "umin" | "umax" | "smin" | "smax" => {
                let (x, y) = (e(0), e(1));
                let l = bin(if n.starts_with('u') { Op::Ult } else { Op::Slt }, &x, &y);
                if n.ends_with("min") { ite(&l, &x, &y) } else { ite(&l, &y, &x) }
            }
            "usub.sat" => { let (x, y) = (e(0), e(1)); ite(&bin(Op::Ult, &x, &y), &cst(0, w), &bin(Op::Sub, &x, &y)) }
            "uadd.sat" => { let (x, y) = (e(0), e(1)); let s = bin(Op::Add, &x, &y); ite(&bin(Op::Ult, &s, &x), &cst(mask(w), w), &s) }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let (x, y) = (e(0), e(1));
                let op = match &n[1..4] { "add" => Op::Add, "sub" => Op::Sub, _ => Op::Mul };
                let s = bin(op, &x, &y);
                let ww = if op == Op::Mul { w * 2 } else { w + 1 };
                if ww > 128 { return self.err("wide overflow".into()); }
                let o = if n.starts_with('u') {
                    match op {
                        Op::Add => bin(Op::Ult, &s, &x),
                        Op::Sub => bin(Op::Ult, &x, &y),
                        _ => not(&bin(Op::Eq, &extract(&bin(Op::Mul, &zext(&x, ww), &zext(&y, ww)), w, w), &cst(0, w))),
                    }
                } else {
                    let full = bin(op, &sxt(&x, ww), &sxt(&y, ww));
                    not(&bin(Op::Eq, &full, &sxt(&s, ww)))
                };
                return Ok(V::A(Arc::new(vec![vx(s), vx(o)])));
            }
            "ctlz" => { let x = e(0); let mut r = cst(w as u128, w); for i in 0..w { r = ite(&bin(Op::Eq, &extract(&x, i, 1), &cst(1, 1)), &cst((w - 1 - i) as u128, w), &r); } r }
            "cttz" => { let x = e(0); let mut r = cst(w as u128, w); for i in (0..w).rev() { r = ite(&bin(Op::Eq, &extract(&x, i, 1), &cst(1, 1)), &cst(i as u128, w), &r); } r }
            "ctpop" => { let x = e(0); let mut r = cst(0, w); for i in 0..w { r = bin(Op::Add, &r, &zext(&extract(&x, i, 1), w)); } r }
            "bswap" => { let x = e(0); let mut r = extract(&x, 0, 8); for i in 1..w / 8 { r = concat(&r, &extract(&x, i * 8, 8)); } r }
            "bitreverse" => { let x = e(0); let mut r = extract(&x, 0, 1); for i in 1..w { r = concat(&r, &extract(&x, i, 1)); } r }
            "fshl" | "fshr" => {
                let (x, y) = (e(0), e(1));
                let s = match a[2].c() { Some(s) => s % w as u128, None => { let s = self.cval(st, &a[2])?; s as u128 % w as u128 } };
                if s == 0 { if n == "fshl" { x } else { y } } else {
                    let sh = if n == "fshl" { s } else { w as u128 - s };
                    bin(Op::Or, &bin(Op::Shl, &x, &cst(sh, w)), &bin(Op::LShr, &y, &cst(w as u128 - sh, w)))
                }
            }
            "ucmp" | "scmp" => {
                let (x, y) = (e(0), e(1));
                let ow = rt.bits();
                let l = bin(if n == "ucmp" { Op::Ult } else { Op::Slt }, &x, &y);
                ite(&bin(Op::Eq, &x, &y), &cst(0, ow), &ite(&l, &cst(mask(ow), ow), &cst(1, ow)))
            }
            "abs" => { let x = e(0); ite(&bin(Op::Slt, &x, &cst(0, w)), &bin(Op::Sub, &cst(0, w), &x), &x) }
            "is.constant" => cst(0, 1),
            "expect" => e(0),
            "threadlocal.address" => return Ok(a[0].clone()),
            "fptoui.sat" => {
                let x = e(0);
                let ow = rt.bits();
                let lim = if w == 32 { ((2f64).powi(ow as i32) as f32).to_bits() as u128 } else { (2f64).powi(ow as i32).to_bits() as u128 };
                let zero = cst(0, w);
                let pos = bin(Op::FLt, &zero, &x);
                let over = bin(Op::FLe, &cst(lim, w), &x);
                let conv = match x.val() { Some(_) if eval(&over, &[]) != 0 || eval(&pos, &[]) == 0 => cst(0, ow), _ => un(Op::FpToUi, ow, &x) };
                ite(&pos, &ite(&over, &cst(mask(ow), ow), &conv), &cst(0, ow))
            }
            "fabs" => { let x = e(0); bin(Op::And, &x, &cst(mask(w - 1), w)) }
            "round" => round(1, &e(0)),
            "roundeven" | "rint" | "nearbyint" => round(0, &e(0)),
            "ceil" => round(2, &e(0)),
            "floor" => round(3, &e(0)),
            "trunc" => round(4, &e(0)),
            "copysign" => { let (x, y) = (e(0), e(1)); concat(&extract(&y, w - 1, 1), &extract(&x, 0, w - 1)) }
            "fmuladd" => bin(Op::FAdd, &bin(Op::FMul, &e(0), &e(1)), &e(2)),
            "minnum" | "maxnum" | "minimumnum" | "maximumnum" => {
                // a NaN operand yields the other one
                let (x, y) = (e(0), e(1));
                let l = if n.starts_with("min") { bin(Op::FLt, &y, &x) } else { bin(Op::FLt, &x, &y) };
                ite(&un(Op::FNan, 1, &x), &y, &ite(&l, &y, &x))
            }
            "minimum" | "maximum" => {
                // a NaN operand is the result; -0 is less than +0
                let (x, y) = (e(0), e(1));
                let l = if n == "minimum" { bin(Op::FLt, &y, &x) } else { bin(Op::FLt, &x, &y) };
                let zeros = if n == "minimum" { bin(Op::Or, &x, &y) } else { bin(Op::And, &x, &y) };
                let r = ite(&bin(Op::FEq, &x, &y), &zeros, &ite(&l, &y, &x));
                ite(&un(Op::FNan, 1, &x), &x, &ite(&un(Op::FNan, 1, &y), &y, &r))
            }
            "sqrt" | "fma" | "pow" | "powi" | "exp" | "exp2" | "log" | "log2" | "log10" | "sin" | "cos" => {
                // on single values: one path per value of the operands
                let mut v = vec![];
                for (x, t) in a.iter().zip(ts) {
                    let x = self.cval(st, x)?;
                    v.push(match t { Ty::F32 => f32::from_bits(x as u32) as f64, Ty::F64 => f64::from_bits(x), _ => x as u32 as i32 as f64 });
                }
                macro_rules! go { ($f:ty) => {{
                    let x = v[0] as $f;
                    match n {
                        "sqrt" => x.sqrt(), "fma" => x.mul_add(v[1] as $f, v[2] as $f), "pow" => x.powf(v[1] as $f), "powi" => x.powi(v[1] as i32),
                        "exp" => x.exp(), "exp2" => x.exp2(), "log" => x.ln(), "log2" => x.log2(), "log10" => x.log10(), "sin" => x.sin(), _ => x.cos(),
                    }.to_bits() as u128
                }} }
                cst(if w == 32 { go!(f32) } else { go!(f64) }, w)
            }
            "fptosi.sat" => {
                let x = e(0);
                let ow = rt.bits();
                let f = |v: f64| if w == 32 { cst((v as f32).to_bits() as u128, 32) } else { cst(v.to_bits() as u128, 64) };
                let top = (2f64).powi(ow as i32 - 1);
                let over = bin(Op::FLe, &f(top), &x);
                let under = bin(Op::FLe, &x, &f(-top));
                let nan = un(Op::FNan, 1, &x);
                let out = bin(Op::Or, &nan, &bin(Op::Or, &over, &under));
                let conv = match x.val() { Some(_) if eval(&out, &[]) != 0 => cst(0, ow), _ => un(Op::FpToSi, ow, &x) };
                ite(&nan, &cst(0, ow), &ite(&over, &cst(mask(ow - 1), ow), &ite(&under, &cst(1u128 << (ow - 1), ow), &conv)))
            }
            "objectsize" => cst(mask(rt.bits()), rt.bits()),
            _ => return self.err(format!("intrinsic llvm.{}", n)),
        };
        Ok(vx(r))
    }
}

/// Readable pieces of a v0-mangled name.
pub fn demangle(n: &str) -> String {
    if !n.starts_with("_R") { return n.to_string(); }
    let b = n.as_bytes();
    let mut i = 2;
    let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() {
            let mut l = 0usize;
            while i < b.len() && b[i].is_ascii_digit() { l = l * 10 + (b[i] - b'0') as usize; i += 1; }
            if i < b.len() && b[i] == b'_' { i += 1; }
            if i + l <= b.len() && l > 0 {
                out.push(n[i..i + l].to_string());
                i += l;
                continue;
            }
        } else if b[i] == b's' && i + 1 < b.len() {
            // disambiguator: s<base62>_
            let mut j = i + 1;
            while j < b.len() && b[j].is_ascii_alphanumeric() { j += 1; }
            if j < b.len() && b[j] == b'_' && i > 0 && b[i - 1] == b'C' { i = j + 1; continue; }
            i += 1;
        } else { i += 1; }
    }
    out.truncate(6);
    out.join("::")
}
