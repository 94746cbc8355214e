//! SMT-LIB generation and the z3 pipe.
use crate::lin::*;
use crate::term::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg { pub cut: bool, pub full_int: bool, pub rad: f64, pub margin: f64, pub seed: u32 }
pub const LV0: Cfg = Cfg { cut: true, full_int: false, rad: 1.0, margin: 0.0, seed: 0 };
#[derive(Clone, Debug)]
pub enum Verdict { Unsat, Sat(Vec<(u32, u64)>), Unknown }

pub struct Z3 { child: Child, inp: ChildStdin, out: BufReader<ChildStdout> }
impl Z3 {
    fn new() -> Z3 {
        let bin = std::env::var("SYMEX_Z3").unwrap_or("z3-new".into());
        let mut child = Command::new(&bin).args(["-in", "-smt2"]).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("cannot start z3");
        let inp = child.stdin.take().unwrap();
        let out = BufReader::new(child.stdout.take().unwrap());
        Z3 { child, inp, out }
    }
    fn ask(&mut self, q: &str) -> Option<String> {
        self.inp.write_all(q.as_bytes()).ok()?;
        self.inp.write_all(b"\n(echo \"@@\")\n").ok()?;
        self.inp.flush().ok()?;
        let mut r = String::new();
        loop { let mut l = String::new(); if self.out.read_line(&mut l).ok()? == 0 { return None } if l.trim() == "@@" { return Some(r) } r.push_str(&l) }
    }
}
impl Drop for Z3 { fn drop(&mut self) { let _ = self.child.kill(); let _ = self.child.wait(); } }

#[derive(Default, Clone, Debug)]
pub struct Stats { pub queries: u64, pub cached: u64, pub unsat: u64, pub sat: u64, pub unknown: u64, pub time: f64, pub max_time: f64 }
pub struct Solver { z3: Option<Z3>, pub stats: Stats, cache: FxMap<u128, bool>, pub timeout_ms: u64, pub dump: Option<String>, pub deadline: Option<Instant> }

impl Solver {
    pub fn new() -> Self { Solver { z3: None, stats: Stats::default(), cache: Default::default(), timeout_ms: 20000, dump: std::env::var("SYMEX_DUMP").ok(), deadline: None } }
    fn hash(s: &str) -> u128 {
        let (mut a, mut b) = (0xcbf29ce484222325u64, 0x9e3779b97f4a7c15u64);
        for c in s.as_bytes().chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); let v = u64::from_le_bytes(x); a = (a ^ v).wrapping_mul(0x100000001b3).rotate_left(23); b = (b.rotate_left(7) ^ v).wrapping_mul(0xff51afd7ed558ccd); b ^= b >> 31; }
        ((a as u128) << 64) | b as u128
    }
    /// one query with one configuration
    pub fn query(&mut self, ts: &mut Terms, lc: &mut LinCache, asserts: &[Lit], cfg: Cfg, model: bool) -> Verdict {
        for &l in asserts { if l == FALSE { return Verdict::Unsat } }
        let mut q = Q::new(ts, lc, cfg);
        q.build(asserts);
        let text = q.text();
        let key = Self::hash(&text);
        if !model { if let Some(&u) = self.cache.get(&key) { self.stats.cached += 1; return if u { Verdict::Unsat } else { Verdict::Sat(vec![]) } } }
        let names: Vec<(u32, VarOut)> = q.outs();
        if self.z3.is_none() { self.z3 = Some(Z3::new()) }
        let t0 = Instant::now();
        let mut s = String::with_capacity(text.len() + 200);
        let _ = write!(s, "(reset)\n(set-option :timeout {})\n", self.timeout_ms);
        if cfg.seed != 0 { let _ = write!(s, "(set-option :smt.random_seed {})\n(set-option :sat.random_seed {})\n", cfg.seed, cfg.seed); }
        s.push_str(&text);
        s.push_str("(check-sat)\n");
        if let Some(d) = &self.dump { let _ = std::fs::write(format!("{}/q{}.smt2", d, self.stats.queries), &s); }
        let r = self.z3.as_mut().unwrap().ask(&s);
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1; self.stats.time += dt; if dt > self.stats.max_time { self.stats.max_time = dt }
        let r = match r { Some(r) => r, None => { self.z3 = None; self.stats.unknown += 1; return Verdict::Unknown } };
        if r.contains("(error") { eprintln!("solver error: {}", r.lines().next().unwrap_or("")); if std::env::var("SYMEX_ERRDUMP").is_ok() { let _ = std::fs::write("/tmp/symex_err.smt2", &s); } self.stats.unknown += 1; return Verdict::Unknown }
        let w = r.lines().last().unwrap_or("").trim().to_string();
        if w == "unsat" { self.stats.unsat += 1; self.cache.insert(key, true); return Verdict::Unsat }
        if w != "sat" { self.stats.unknown += 1; return Verdict::Unknown }
        self.stats.sat += 1;
        self.cache.insert(key, false);
        if !model { return Verdict::Sat(vec![]) }
        let mut res = vec![];
        let mut req = String::from("(get-value (");
        for (_, v) in &names { match v { VarOut::Num(n, _) => { req.push_str(n); req.push(' ') } VarOut::Bits(b) => for (_, n) in b { req.push_str(n); req.push(' ') } } }
        if names.is_empty() { return Verdict::Sat(res) }
        req.push_str("))");
        let a = match self.z3.as_mut().unwrap().ask(&req) { Some(a) => a, None => { self.z3 = None; return Verdict::Unknown } };
        let vals = parse_values(&a);
        for (idx, v) in names {
            match v {
                VarOut::Num(n, fl) => if let Some(x) = vals.get(&n) { res.push((idx, match x { Num::F(f) => if fl { f.to_bits() } else { f.round() as u64 }, Num::I(i) => if fl { (*i as f64).to_bits() } else { *i as u64 } })) },
                VarOut::Bits(b) => { let mut r = 0u64; for (i, n) in b { if let Some(Num::I(1)) = vals.get(&n) { r |= 1 << i } } res.push((idx, r)) }
            }
        }
        Verdict::Sat(res)
    }
    /// can the comparison differ from v, given the intervals of its operands (which account for the monotonicity of
    /// rounding) and their linear forms? one linear query
    pub fn compare(&mut self, ts: &mut Terms, lc: &mut LinCache, p: FPred, l: Tv, r: Tv, v: bool) -> Verdict {
        let (x, y) = (lc.lin_f(ts, l), lc.lin_f(ts, r));
        if !x.finite() || !y.finite() || x.terms.len() + y.terms.len() > 400 { return Verdict::Unknown }
        let tiny = 2f64.powi(-60);
        let low = |a: f64| if a != 0.0 && a.abs() < tiny { rat(if a > 0.0 { 0.0 } else { -tiny }) } else { rat(a) };
        let high = |a: f64| if a != 0.0 && a.abs() < tiny { rat(if a > 0.0 { tiny } else { 0.0 }) } else { rat(a) };
        let mut t = String::new();
        let mut names: BTreeMap<u64, String> = BTreeMap::new();
        for (k, _) in x.terms.iter().chain(y.terms.iter()) {
            if names.contains_key(k) { continue }
            let (lo, hi) = lc.base_range(ts, *k);
            let n = format!("v{}", names.len());
            let _ = writeln!(t, "(declare-const {} Real)", n);
            if lo.is_finite() { let _ = writeln!(t, "(assert (>= {} {}))", n, low(lo)); }
            if hi.is_finite() { let _ = writeln!(t, "(assert (<= {} {}))", n, high(hi)); }
            names.insert(*k, n);
        }
        for (n, f) in [("x", &x), ("y", &y)] {
            let _ = writeln!(t, "(declare-const {} Real)\n(assert (and (>= {} {}) (<= {} {})))", n, n, low(f.lo), n, high(f.hi));
            let mut e = format!("(- {} {}", n, rat(f.c0));
            if f.c0 != 0.0 && f.c0.abs() < tiny { continue }
            let mut skip = false;
            for (k, c) in &f.terms { if c.abs() < 2f64.powi(-60) { skip = true } let _ = write!(e, " (* {} {})", rat(*c), names[k]); }
            e.push(')');
            if !skip { let _ = writeln!(t, "(assert (and (<= {} {}) (>= {} (- {}))))", e, high(f.rad), e, high(f.rad)); }
        }
        let rel = match p { FPred::Lt => "<", FPred::Le => "<=", FPred::Eq => "=" };
        let _ = writeln!(t, "(assert {})", if v { format!("(not ({} x y))", rel) } else { format!("({} x y)", rel) });
        let key = Self::hash(&t);
        if let Some(&u) = self.cache.get(&key) { self.stats.cached += 1; return if u { Verdict::Unsat } else { Verdict::Sat(vec![]) } }
        if self.z3.is_none() { self.z3 = Some(Z3::new()) }
        let t0 = Instant::now();
        let r = self.z3.as_mut().unwrap().ask(&format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n", self.timeout_ms, t));
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1; self.stats.time += dt; if dt > self.stats.max_time { self.stats.max_time = dt }
        match r.as_deref().map(|s| s.trim()) { Some("unsat") => { self.stats.unsat += 1; self.cache.insert(key, true); Verdict::Unsat } Some("sat") => { self.stats.sat += 1; self.cache.insert(key, false); Verdict::Sat(vec![]) } _ => { self.z3 = None; self.stats.unknown += 1; Verdict::Unknown } }
    }
    /// is x xor y = n for all inputs? The sums below the three nodes, as they were built, over integers: every sum
    /// is a + b - 2k for some k (all that the parity needs); `size` bounds the number of sums
    pub fn xor_identity(&mut self, ts: &Terms, x: u32, y: u32, n: u32, size: usize) -> Option<Verdict> {
        let mut seen: FxSet<u32> = Default::default();
        let mut work = vec![x, y, n];
        let mut sums = vec![];
        while let Some(i) = work.pop() {
            if !seen.insert(i) { continue }
            if let BNode::Xor(a, b) = ts.b[i as usize] { sums.push((i, a, b)); if sums.len() > size { return None } work.push(a); work.push(b) }
        }
        let mut t = String::new();
        let name = |i: u32| if i == 0 { "0".to_string() } else { format!("b{}", i) };
        let inner: FxSet<u32> = sums.iter().map(|s| s.0).collect();
        for &i in &seen { if i != 0 && !inner.contains(&i) { let _ = writeln!(t, "(declare-const b{} Int)", i); } }
        sums.sort(); // older sums first
        for (i, a, b) in &sums { let _ = writeln!(t, "(declare-const k{} Int)\n(define-fun b{} () Int (- (+ {} {}) (* 2 k{})))", i, i, name(*a), name(*b), i); }
        let _ = writeln!(t, "(declare-const k Int)\n(assert (= (+ {} {} {}) (+ 1 (* 2 k))))", name(x), name(y), name(n));
        if self.z3.is_none() { self.z3 = Some(Z3::new()) }
        let t0 = Instant::now();
        let r = self.z3.as_mut().unwrap().ask(&format!("(reset)\n(set-option :timeout {})\n{}(check-sat)\n", self.timeout_ms, t));
        let dt = t0.elapsed().as_secs_f64();
        self.stats.queries += 1; self.stats.time += dt; if dt > self.stats.max_time { self.stats.max_time = dt }
        Some(match r.as_deref().map(|s| s.trim()) { Some("unsat") => { self.stats.unsat += 1; Verdict::Unsat } Some("sat") => { self.stats.sat += 1; Verdict::Sat(vec![]) } Some(_) => { self.stats.unknown += 1; Verdict::Unknown } None => { self.stats.unknown += 1; self.z3 = None; Verdict::Unknown } })
    }
    /// sound: Unsat means no input satisfies all literals
    pub fn refute(&mut self, ts: &mut Terms, lc: &mut LinCache, asserts: &[Lit], deep: bool) -> Verdict {
        let v = self.query(ts, lc, asserts, LV0, false);
        if matches!(v, Verdict::Unsat) || !deep { return v }
        let a = self.query(ts, lc, asserts, Cfg { cut: false, ..LV0 }, false);
        if matches!(a, Verdict::Unsat) { return a }
        self.query(ts, lc, asserts, Cfg { cut: false, full_int: true, ..LV0 }, false)
    }
}

enum Num { I(i128), F(f64) }
fn parse_values(s: &str) -> BTreeMap<String, Num> {
    // ((name value) (name value) ...)
    let mut toks = vec![]; let mut cur = String::new();
    for c in s.chars() { match c { '(' | ')' => { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)) } toks.push(c.to_string()) } c if c.is_whitespace() => { if !cur.is_empty() { toks.push(std::mem::take(&mut cur)) } } c => cur.push(c) } }
    let mut m = BTreeMap::new();
    let mut i = 1;
    fn val(t: &[String], i: &mut usize) -> Num {
        let x = &t[*i]; *i += 1;
        if x == "(" {
            let op = t[*i].clone(); *i += 1;
            let mut args = vec![]; while t[*i] != ")" { args.push(val(t, i)) } *i += 1;
            let f = |n: &Num| match n { Num::I(i) => *i as f64, Num::F(f) => *f };
            return match (op.as_str(), args.len()) {
                ("-", 1) => match &args[0] { Num::I(i) => Num::I(-i), Num::F(x) => Num::F(-x) },
                ("/", 2) => Num::F(f(&args[0]) / f(&args[1])),
                ("to_real", 1) => Num::F(f(&args[0])),
                ("_", 2) => Num::I(0),
                _ => Num::F(0.0),
            };
        }
        if x == "true" { return Num::I(1) } if x == "false" { return Num::I(0) }
        if let Some(h) = x.strip_prefix("#x") { return Num::I(u128::from_str_radix(h, 16).unwrap_or(0) as i128) }
        if let Some(h) = x.strip_prefix("#b") { return Num::I(u128::from_str_radix(h, 2).unwrap_or(0) as i128) }
        if x.contains('.') { return Num::F(x.trim_end_matches('?').parse().unwrap_or(0.0)) }
        x.parse::<i128>().map(Num::I).unwrap_or_else(|_| Num::F(x.parse().unwrap_or(0.0)))
    }
    while i + 2 < toks.len() {
        if toks[i] == "(" { let n = toks[i + 1].clone(); i += 2; let v = val(&toks, &mut i); m.insert(n, v); if i < toks.len() && toks[i] == ")" { i += 1 } } else { break }
    }
    m
}

enum VarOut { Num(String, bool), Bits(Vec<(u32, String)>) }

/// one query under construction
struct Q<'a> {
    ts: &'a mut Terms, lc: &'a mut LinCache, cfg: Cfg,
    decl: String, defs: String, asr: String,
    bn: FxMap<u32, String>,
    base: FxMap<u64, (String, bool)>, // name, is Int
    bits: FxMap<TermId, BTreeMap<u32, String>>, bits_order: Vec<TermId>, linked: FxSet<TermId>,
    bv: FxMap<TermId, String>,
    work: Vec<u64>, n: u32, lia: bool,
    outvars: Vec<(u32, TermId)>,
    pub approx: bool,
}

impl<'a> Q<'a> {
    fn new(ts: &'a mut Terms, lc: &'a mut LinCache, cfg: Cfg) -> Self {
        Q { ts, lc, cfg, decl: String::new(), defs: String::new(), asr: String::new(), bn: Default::default(), base: Default::default(), bits: Default::default(), bits_order: vec![], linked: Default::default(), bv: Default::default(), work: vec![], n: 0, lia: false, outvars: vec![], approx: false }
    }
    fn fresh(&mut self, p: &str) -> String { self.n += 1; format!("{}{}", p, self.n) }
    fn build(&mut self, asserts: &[Lit]) {
        self.lia = self.scan(asserts);
        for &l in asserts { let e = self.lit(l); let _ = writeln!(self.asr, "(assert {})", e); }
        loop {
            while let Some(k) = self.work.pop() { self.base_constraint(k); }
            if !self.lia { break }
            // link bit views with arithmetic views
            let pend: Vec<TermId> = self.bits_order.iter().copied().filter(|t| !self.linked.contains(t)).collect();
            let mut progressed = false;
            for t in pend {
                if let TNode::Var { lo, hi, .. } = self.ts.t[t as usize] {
                    let full = lo == 0 && (hi & (hi.wrapping_add(1))) == 0;
                    let used = self.base.contains_key(&(K_T | t as u64));
                    if full && !used { continue }
                    if self.cfg.cut && !used { continue }
                }
                progressed = true;
                self.linked.insert(t);
                self.link(t);
            }
            if !progressed && self.work.is_empty() { break }
        }
    }
    /// does the cone need arithmetic?
    fn scan(&self, asserts: &[Lit]) -> bool {
        let mut sb: Vec<u32> = asserts.iter().map(|l| l >> 1).collect();
        let mut seen: FxSet<u32> = Default::default(); let mut seent: FxSet<u32> = Default::default();
        let mut stt: Vec<u32> = vec![];
        loop {
            if let Some(n) = sb.pop() {
                if !seen.insert(n) { continue }
                let pv = |v: Tv, st: &mut Vec<u32>| if let Tv::T(t) = v { st.push(t) };
                match self.ts.b[n as usize] {
                    BNode::True => {}
                    BNode::FCmp(..) => return true,
                    BNode::Bit(t, _) => stt.push(t),
                    BNode::Xor(a, b) => if !self.cfg.cut { sb.push(a); sb.push(b) },
                    BNode::And(a, b) => { sb.push(a >> 1); sb.push(b >> 1) }
                    BNode::TT(k) => sb.extend(self.ts.tts[k as usize].bases.iter().copied()),
                    BNode::ICmp(_, _, a, b) => { pv(a, &mut stt); pv(b, &mut stt) }
                }
                continue;
            }
            if let Some(t) = stt.pop() {
                if !seent.insert(t) { continue }
                match &self.ts.t[t as usize] {
                    TNode::F2I { .. } | TNode::FVar { .. } | TNode::FBin(..) | TNode::FUn(..) | TNode::FIte(..) | TNode::FCall(..) | TNode::FBits(_) | TNode::FFromBits(_) | TNode::I2F { .. } => return true,
                    TNode::Var { .. } => {}
                    TNode::Bits(b) => sb.extend(b.iter().map(|l| l >> 1)),
                    TNode::Op(_, _, a, b) => { if let Tv::T(x) = a { stt.push(*x) } if let Tv::T(x) = b { stt.push(*x) } }
                    TNode::Ite(_, c, a, b) => { sb.push(c >> 1); if let Tv::T(x) = a { stt.push(*x) } if let Tv::T(x) = b { stt.push(*x) } }
                }
                continue;
            }
            return false;
        }
    }
    fn lit(&mut self, l: Lit) -> String {
        if l == TRUE { return "true".into() } if l == FALSE { return "false".into() }
        let n = self.node(l >> 1);
        if l & 1 == 1 { format!("(not {})", n) } else { n }
    }
    fn declb(&mut self) -> String { let s = self.fresh("b"); let _ = writeln!(self.decl, "(declare-const {} Bool)", s); s }
    fn node(&mut self, n: u32) -> String {
        if let Some(s) = self.bn.get(&n) { return s.clone() }
        let s = match self.ts.b[n as usize] {
            BNode::True => "true".to_string(),
            BNode::Xor(a, b) => {
                if self.cfg.cut && self.lia { self.declb() } else {
                    let x = self.node(a); let y = self.node(b);
                    let s = self.fresh("b"); let _ = writeln!(self.defs, "(define-fun {} () Bool (xor {} {}))", s, x, y); s
                }
            }
            BNode::And(a, b) => { let x = self.lit(a); let y = self.lit(b); let s = self.fresh("b"); let _ = writeln!(self.defs, "(define-fun {} () Bool (and {} {}))", s, x, y); s }
            BNode::TT(k) => {
                let tb = self.ts.tts[k as usize].clone();
                let names: Vec<String> = tb.bases.iter().map(|&b| self.node(b)).collect();
                fn sh(tt: &[u64; 4], lo: usize, k: usize, names: &[String]) -> String {
                    let n = 1usize << k;
                    let g = |i: usize| tt[i >> 6] >> (i & 63) & 1 == 1;
                    let f = g(lo);
                    if (lo..lo + n).all(|i| g(i) == f) { return if f { "true".into() } else { "false".into() } }
                    let a = sh(tt, lo + n / 2, k - 1, names); let b = sh(tt, lo, k - 1, names);
                    if a == b { return a }
                    format!("(ite {} {} {})", names[k - 1], a, b)
                }
                let e = sh(&tb.tt, 0, tb.bases.len(), &names);
                let s = self.fresh("b"); let _ = writeln!(self.defs, "(define-fun {} () Bool {})", s, e); s
            }
            BNode::Bit(t, i) => self.bit(t, i as u32),
            BNode::ICmp(p, w, a, b) => self.icmp(p, w as u32, a, b),
            BNode::FCmp(p, a, b) => self.fcmp(p, a, b),
        };
        self.bn.insert(n, s.clone());
        s
    }
    fn bit(&mut self, t: TermId, i: u32) -> String {
        if !self.lia { let v = self.bvterm(t); let s = self.fresh("b"); let _ = writeln!(self.defs, "(define-fun {} () Bool (= ((_ extract {} {}) {}) #b1))", s, i, i, v); return s }
        let s = self.declb();
        if !self.bits.contains_key(&t) { self.bits_order.push(t); if let TNode::Var { idx, .. } = self.ts.t[t as usize] { if !self.base.contains_key(&(K_T | t as u64)) { self.outvars.push((idx, t)) } } }
        self.bits.entry(t).or_default().insert(i, s.clone());
        s
    }
    fn link(&mut self, t: TermId) {
        let w = self.ts.width(t);
        let l = match self.lc.lin_i(self.ts, Tv::T(t)) { Some(l) => l, None => { self.approx = true; return } };
        let bm = self.bits[&t].clone();
        let maxb = *bm.keys().last().unwrap();
        let unsigned_fit = l.lo >= -0.5 && l.hi < 2f64.powi(maxb as i32 + 1);
        let k = maxb + 1;
        let mut sum = String::new();
        for i in 0..k {
            let b = match bm.get(&i) { Some(s) => s.clone(), None => { let s = self.declb(); self.bits.get_mut(&t).unwrap().insert(i, s.clone()); s } };
            let _ = write!(sum, " (ite {} {} 0)", b, 1u128 << i);
        }
        let q = if unsigned_fit { String::new() } else { let s = self.fresh("q"); let _ = writeln!(self.decl, "(declare-const {} Int)", s); format!(" (* {} {})", 1u128 << k, s) };
        self.eq_lin(&format!("(to_real (+ 0{}{}))", sum, q), &l);
        let _ = w;
    }
    fn exact_lin(&mut self, l: &Lin) -> bool { let sc = self.scale_of(l); l.rad == 0.0 && self.round_err(l, sc) == 0.0 && (l.c0 * 2f64.powi(sc as i32)).fract() == 0.0 }
    /// Lin with rad = 0 as an exact expression; returns (expression, scale)
    fn lin_exact(&mut self, l: &Lin) -> (String, i128) {
        let sc = self.scale_of(l);
        let e = self.lin_sum(l, sc);
        let c = l.c0 * 2f64.powi(sc as i32);
        (format!("(+ {} {})", e, num(c.round() as i128)), 1i128 << sc)
    }
    fn scale_of(&self, l: &Lin) -> u32 {
        let mut s = 0u32;
        let frac = |x: f64| -> u32 { if x == 0.0 { return 0 } let mut k = 0; let mut y = x; while y.fract() != 0.0 && k < 46 { y *= 2.0; k += 1 } k };
        for (_, c) in &l.terms { s = s.max(frac(*c)); }
        s = s.max(frac(l.c0));
        if s < 46 { return s }
        let m = l.terms.iter().map(|t| t.1.abs()).fold(0.0, f64::max);
        if m > 0.0 && m < 1.0 && l.c0.abs() < 1e9 { 46 + (-m.log2()).floor().min(34.0) as u32 } else { 46 }
    }
    fn lin_sum(&mut self, l: &Lin, sc: u32) -> String {
        let mut s = String::from("(+ 0.0");
        for (k, c) in &l.terms {
            let ci = (c * 2f64.powi(sc as i32)).round() as i128;
            if ci == 0 { continue }
            let b = self.base_use(*k);
            if ci == 1 { let _ = write!(s, " {}", b); } else { let _ = write!(s, " (* {} {})", num(ci), b); }
        }
        s.push(')');
        s
    }
    fn round_err(&mut self, l: &Lin, sc: u32) -> f64 {
        let mut e = 0.0;
        for (k, c) in &l.terms { let v = c * 2f64.powi(sc as i32); let d = (v - v.round()).abs(); if d > 0.0 { let (a, b) = self.lc.base_range(self.ts, *k); e += d * a.abs().max(b.abs()) } }
        e
    }
    /// relation: lin op rhs, relaxed by slack
    fn rel(&mut self, l: &Lin, op: &str, rhs: f64, slack: f64) -> String {
        let mut sc = self.scale_of(l);
        let inexact = { let s = rhs - l.c0; let bb = s - rhs; (rhs - (s - bb)) + (-l.c0 - bb) != 0.0 };
        if (slack != 0.0 || inexact) && sc < 30 { sc = 30 }
        let p = 2f64.powi(sc as i32);
        let s = self.lin_sum(l, sc);
        let err = self.round_err(l, sc);
        let b = (rhs - l.c0) * p;
        let extra = slack * p + err + if inexact { (rhs - l.c0).abs() * p * 2.0 * U } else { 0.0 };
        match op {
            "<=" | "<" => { let v = b + extra; let exact = extra == 0.0 && v.fract() == 0.0; let o = if op == "<" && (exact || slack < 0.0) { "<" } else { "<=" }; format!("({} {} {})", o, s, num(if exact { v as i128 } else { v.ceil() as i128 })) }
            _ => { let v = b - extra; let exact = extra == 0.0 && v.fract() == 0.0; let o = if op == ">" && (exact || slack < 0.0) { ">" } else { ">=" }; format!("({} {} {})", o, s, num(if exact { v as i128 } else { v.floor() as i128 })) }
        }
    }
    fn fcmp(&mut self, p: FPred, a: Tv, b: Tv) -> String {
        let x = self.lc.lin_f(self.ts, a); let y = self.lc.lin_f(self.ts, b);
        let s = self.declb();
        if !x.finite() || !y.finite() { self.approx = true; return s }
        let d = self.lc.comb(self.ts, &x, -1.0, &y);
        let slack = self.slack(d.rad);
        let m = if d.rad > 0.0 { slack } else { 0.0 };
        match p {
            FPred::Lt => { let t = self.rel(&d, "<", 0.0, m); let f = self.rel(&d, ">=", 0.0, m); let _ = writeln!(self.asr, "(assert (=> {} {}))\n(assert (=> (not {}) {}))", s, t, s, f); }
            FPred::Le => { let t = self.rel(&d, "<=", 0.0, m); let f = self.rel(&d, ">", 0.0, m); let _ = writeln!(self.asr, "(assert (=> {} {}))\n(assert (=> (not {}) {}))", s, t, s, f); }
            FPred::Eq => { let t1 = self.rel(&d, "<=", 0.0, m.max(0.0)); let t2 = self.rel(&d, ">=", 0.0, m.max(0.0)); let _ = writeln!(self.asr, "(assert (=> {} (and {} {})))", s, t1, t2);
                if d.rad == 0.0 { let u = self.rel(&d, "<", 0.0, 0.0); let v = self.rel(&d, ">", 0.0, 0.0); let _ = writeln!(self.asr, "(assert (=> (not {}) (or {} {})))", s, u, v); } }
        }
        s
    }
    fn slack(&self, rad: f64) -> f64 { if self.cfg.margin > 0.0 { -self.cfg.margin } else { rad * self.cfg.rad } }
    fn icmp(&mut self, p: IPred, w: u32, a: Tv, b: Tv) -> String {
        if !self.lia {
            let x = self.bvtv(a, w); let y = self.bvtv(b, w);
            let o = match p { IPred::Eq => "=", IPred::Ult => "bvult", IPred::Ule => "bvule", IPred::Slt => "bvslt", IPred::Sle => "bvsle" };
            let s = self.fresh("b"); let _ = writeln!(self.defs, "(define-fun {} () Bool ({} {} {}))", s, o, x, y); return s;
        }
        let cs = |v: Tv, signed: bool| match v { Tv::C(c) => Some(Rc::new(Lin::constant(if signed { sext(c, w) as f64 } else { c as f64 }))), _ => None };
        let signed = matches!(p, IPred::Slt | IPred::Sle);
        let x = match cs(a, signed) { Some(l) => Some(l), None => self.lc.lin_i(self.ts, a) };
        let y = match cs(b, signed) { Some(l) => Some(l), None => self.lc.lin_i(self.ts, b) };
        if let (Some(x), Some(y)) = (&x, &y) {
            let (x, y) = (x.clone(), y.clone());
            let (mn, mx) = irange(signed, w);
            let fit = |l: &Lin| l.lo >= mn - 0.5 && l.hi <= mx + 0.5;
            if p == IPred::Eq {
                let m = 2f64.powi(w as i32);
                // constants may be given modulo 2^w
                let y2 = if let Tv::C(c) = b { if x.lo < 0.0 { Rc::new(Lin::constant(sext(c, w) as f64)) } else { y.clone() } } else { y.clone() };
                let d = self.lc.comb(self.ts, &x, -1.0, &y2);
                if d.mag() < m {
                    let r = d.rad;
                    let l = self.rel(&d, "<=", 0.0, r); let g = self.rel(&d, ">=", 0.0, r); let l1 = self.rel(&d, "<=", -1.0, r); let g1 = self.rel(&d, ">=", 1.0, r);
                    let s = self.declb(); let _ = writeln!(self.asr, "(assert (=> {} (and {} {})))\n(assert (=> (not {}) (or {} {})))", s, l, g, s, l1, g1); return s;
                }
            } else if fit(&x) && fit(&y) {
                let d = self.lc.comb(self.ts, &x, -1.0, &y);
                let (tv, fv) = if matches!(p, IPred::Ult | IPred::Slt) { (-1.0, 0.0) } else { (0.0, 1.0) };
                let e = self.rel(&d, "<=", tv, d.rad); let g = self.rel(&d, ">=", fv, d.rad);
                let s = self.declb(); let _ = writeln!(self.asr, "(assert (=> {} {}))\n(assert (=> (not {}) {}))", s, e, s, g); return s;
            } else if !signed && w <= 64 && self.exact_lin(&x) && self.exact_lin(&y) && (x.lo >= -(2f64.powi(w as i32 - 1)) && x.hi < 2f64.powi(w as i32)) && (y.lo >= -(2f64.powi(w as i32 - 1)) && y.hi < 2f64.powi(w as i32)) {
                // unsigned comparison of possibly negative integers: add 2^w when negative
                let (ex, sx) = self.lin_exact(&x); let (ey, sy) = self.lin_exact(&y);
                let m = 1i128 << w;
                let fx = format!("(ite (< {} 0.0) (+ {} {}) {})", ex, ex, num(m * sx), ex);
                let fy = format!("(ite (< {} 0.0) (+ {} {}) {})", ey, ey, num(m * sy), ey);
                let s = self.declb(); let _ = writeln!(self.asr, "(assert (= {} ({} (* {} {}) (* {} {}))))", s, if p == IPred::Ult { "<" } else { "<=" }, num(sy), fx, num(sx), fy); return s;
            }
        }
        // bit-level fallback
        if w > 64 { self.approx = true; return self.declb() }
        let xb: Vec<String> = (0..w).map(|i| { let l = self.ts.bit_of(a, i); self.lit(l) }).collect();
        let yb: Vec<String> = (0..w).map(|i| { let l = self.ts.bit_of(b, i); self.lit(l) }).collect();
        let s = self.fresh("b");
        let e = match p {
            IPred::Eq => { let mut e = String::from("(and true"); for i in 0..w as usize { if xb[i] != yb[i] { let _ = write!(e, " (= {} {})", xb[i], yb[i]); } } e.push(')'); e }
            _ => {
                let mut e = if matches!(p, IPred::Ult | IPred::Slt) { "false".to_string() } else { "true".to_string() };
                for i in 0..w as usize {
                    let (l, r) = if signed && i == w as usize - 1 { (&yb[i], &xb[i]) } else { (&xb[i], &yb[i]) };
                    if l == r { continue }
                    let nm = self.fresh("b");
                    let _ = writeln!(self.defs, "(define-fun {} () Bool (ite (= {} {}) {} {}))", nm, l, r, e, r);
                    e = nm;
                }
                e
            }
        };
        let _ = writeln!(self.defs, "(define-fun {} () Bool {})", s, e);
        s
    }
    /// expression of a base inside a real-valued sum
    fn base_use(&mut self, k: u64) -> String {
        if k >> 32 == 2 { let s = self.node((k & 0xffff_ffff) as u32); return format!("(ite {} 1.0 0.0)", s) }
        if let Some((s, int)) = self.base.get(&k) { return if *int { format!("(to_real {})", s) } else { s.clone() } }
        let id = (k & 0xffff_ffff) as u32;
        let s = self.fresh("x");
        let mut int = false;
        if k >> 32 == 0 {
            match self.ts.t[id as usize] {
                TNode::Var { idx, .. } => { int = self.cfg.full_int || self.bits.contains_key(&id); if !self.bits.contains_key(&id) { self.outvars.push((idx, id)) } }
                TNode::FVar { idx, .. } => self.outvars.push((idx, id)),
                _ => if !self.ts.is_float(id) { int = true },
            }
        }
        let _ = writeln!(self.decl, "(declare-const {} {})", s, if int { "Int" } else { "Real" });
        self.base.insert(k, (s.clone(), int));
        self.work.push(k);
        if int { format!("(to_real {})", s) } else { s }
    }
    fn bound(&mut self, k: u64, lo: f64, hi: f64, strict_lo: bool, strict_hi: bool) {
        let (s, int) = self.base[&k].clone();
        let nm = if int { format!("(to_real {})", s) } else { s };
        if lo.is_finite() { let _ = writeln!(self.asr, "(assert ({} {} {}))", if strict_lo { ">" } else { ">=" }, nm, rat(lo)); }
        if hi.is_finite() { let _ = writeln!(self.asr, "(assert ({} {} {}))", if strict_hi { "<" } else { "<=" }, nm, rat(hi)); }
    }
    fn minus_base(&mut self, k: u64, l: &Lin) -> Lin { let b = self.lc.base(self.ts, k); self.lc.comb(self.ts, &b, -1.0, l) }
    fn base_constraint(&mut self, k: u64) {
        let (lo, hi) = self.lc.base_range(self.ts, k);
        let id = (k & 0xffff_ffff) as u32;
        let node = self.ts.t[id as usize].clone();
        if k >> 32 == 1 {
            let (src, op) = match node { TNode::FUn(op, a) => (a, Some(op)), TNode::F2I { f, .. } => (f, None), _ => unreachable!() };
            let l = self.lc.lin_f(self.ts, Tv::T(src));
            let sl = match op { Some(FUn::Floor) => (true, false), Some(FUn::Ceil) => (false, true), Some(FUn::Round) | Some(FUn::Rint) => (false, false), _ => (true, true) };
            // error scaling for counterexample search
            let adj = l.rad - self.slack(l.rad).max(-0.4);
            self.bound(k, lo + adj, hi - adj, sl.0, sl.1);
            let pixel = match op { Some(_) => self.lc.pixel_round.contains(&id), None => self.ts.width(id) <= 8 };
            if self.cfg.full_int || !pixel {
                let e = self.lc.base(self.ts, k);
                let mut l0 = (*l).clone(); l0.rad = 0.0;
                let r = self.lc.comb(self.ts, &l0, 1.0, &e);
                let s = self.fresh("i"); let _ = writeln!(self.decl, "(declare-const {} Int)", s);
                self.eq_lin(&format!("(to_real {})", s), &r);
            }
            return;
        }
        match node {
            TNode::Var { .. } | TNode::FVar { .. } => self.bound(k, lo, hi, false, false),
            TNode::F2I { signed, w, f } => {
                self.bound(k, lo, hi, false, false);
                let l = self.lc.lin_f(self.ts, Tv::T(f));
                if !l.finite() { self.approx = true; return }
                let (mn, mx) = irange(signed, w as u32);
                let sl = self.slack(l.rad);
                let d = self.minus_base(k, &l); // t - x
                let rounded = matches!(self.ts.t[f as usize], TNode::FUn(FUn::Round | FUn::Rint | FUn::Floor | FUn::Ceil | FUn::Trunc, _));
                let (s, int) = self.base[&k].clone();
                let nm = if int { format!("(to_real {})", s) } else { s };
                let mut alts = vec![];
                if l.lo < mn + 1.0 { let a = self.rel(&l, "<=", mn, sl); alts.push(format!("(and (= {} {}) {})", nm, rat(mn), a)); }
                if l.hi > mx - 1.0 { let a = self.rel(&l, ">=", mx, sl); alts.push(format!("(and (= {} {}) {})", nm, rat(mx), a)); }
                if rounded { let a = self.rel(&d, "<=", 0.0, sl); let b = self.rel(&d, ">=", 0.0, sl); alts.push(format!("(and {} {})", a, b)); }
                else {
                    if l.hi >= 0.0 { let a = self.rel(&d, "<=", 0.0, sl); let b = self.rel(&d, ">", -1.0, sl); alts.push(format!("(and (>= {} 0.0) {} {})", nm, a, b)); }
                    if l.lo < 0.0 { let a = self.rel(&d, ">=", 0.0, sl); let b = self.rel(&d, "<", 1.0, sl); alts.push(format!("(and (<= {} 0.0) {} {})", nm, a, b)); }
                }
                let _ = writeln!(self.asr, "(assert (or {}))", alts.join(" "));
            }
            TNode::Ite(_, c, a, b) => {
                self.bound(k, lo, hi, false, false);
                let (x, y) = (self.lc.lin_i(self.ts, a), self.lc.lin_i(self.ts, b));
                if let (Some(x), Some(y)) = (x, y) { self.ite_base(k, c, &x, &y) }
            }
            TNode::FIte(c, a, b) => {
                self.bound(k, lo, hi, false, false);
                let x = self.lc.lin_f(self.ts, a); let y = self.lc.lin_f(self.ts, b);
                self.ite_base(k, c, &x, &y);
            }
            TNode::FUn(FUn::Abs, a) => {
                self.bound(k, lo, hi, false, false);
                let x = self.lc.lin_f(self.ts, Tv::T(a));
                if !x.finite() { return }
                let sl = self.slack(x.rad);
                let d = self.minus_base(k, &x); // v - x
                let b = self.lc.base(self.ts, k); let s = self.lc.comb(self.ts, &b, 1.0, &x); // v + x
                let (r1, r2) = (self.rel(&d, ">=", 0.0, sl), self.rel(&s, ">=", 0.0, sl));
                let (r3, r4) = (self.rel(&d, "<=", 0.0, sl), self.rel(&s, "<=", 0.0, sl));
                let _ = writeln!(self.asr, "(assert (and {} {} (or {} {})))", r1, r2, r3, r4);
            }
            TNode::FBin(FOp::Min | FOp::Max, a, b) => {
                self.bound(k, lo, hi, false, false);
                let ismin = matches!(self.ts.t[id as usize], TNode::FBin(FOp::Min, ..));
                let x = self.lc.lin_f(self.ts, a); let y = self.lc.lin_f(self.ts, b);
                if !x.finite() || !y.finite() { return }
                let dx = self.minus_base(k, &x); let dy = self.minus_base(k, &y);
                let (sx, sy) = (self.slack(x.rad), self.slack(y.rad));
                let (o, p) = if ismin { ("<=", ">=") } else { (">=", "<=") };
                let r = [self.rel(&dx, o, 0.0, sx), self.rel(&dy, o, 0.0, sy), self.rel(&dx, p, 0.0, sx), self.rel(&dy, p, 0.0, sy)];
                let _ = writeln!(self.asr, "(assert (and {} {} (or {} {})))", r[0], r[1], r[2], r[3]);
            }
            TNode::FCall(FnName::Hypot, a, b) => {
                self.bound(k, lo, hi, false, false);
                let x = self.lc.lin_f(self.ts, a); let y = self.lc.lin_f(self.ts, b);
                if !x.finite() || !y.finite() { return }
                let eps = (x.mag() + y.mag()) * 1e-14;
                // |x| <= v, |y| <= v, v <= |x| + |y|, v >= (|x|+|y|)/sqrt2
                let base = self.lc.base(self.ts, k);
                for l in [&x, &y] { for s in [1.0, -1.0] { let d = self.lc.comb(self.ts, &base, s, l); let r = self.rel(&d, ">=", 0.0, l.rad + eps); let _ = writeln!(self.asr, "(assert {})", r); } }
                let mut ups = vec![];
                for s in [1.0, -1.0] { for t in [1.0, -1.0] {
                    let d = self.lc.comb(self.ts, &base, s, &x); let d = self.lc.comb(self.ts, &d, t, &y);
                    ups.push(self.rel(&d, "<=", 0.0, x.rad + y.rad + eps));
                    let rt = std::f64::consts::SQRT_2;
                    let b2 = self.lc.comb(self.ts, &Lin::constant(0.0), rt, &base);
                    let d = self.lc.comb(self.ts, &b2, s, &x); let d = self.lc.comb(self.ts, &d, t, &y);
                    let r = self.rel(&d, ">=", 0.0, x.rad + y.rad + eps * 2.0); let _ = writeln!(self.asr, "(assert {})", r);
                } }
                let _ = writeln!(self.asr, "(assert (or {}))", ups.join(" "));
            }
            TNode::FBin(FOp::Rem, a, Tv::C(c)) => {
                self.bound(k, lo, hi, false, false);
                let c = f64::from_bits(c).abs();
                let x = self.lc.lin_f(self.ts, a);
                if !x.finite() { return }
                // x - r = c * q
                let s = self.fresh("i"); let _ = writeln!(self.decl, "(declare-const {} Int)", s);
                let d = self.minus_base(k, &x); // r - x
                let sc = self.scale_of(&d); let p = 2f64.powi(sc as i32);
                let sum = self.lin_sum(&d, sc);
                let sl = (self.slack(x.rad)) * p + self.round_err(&d, sc);
                let e = format!("(+ {} (* {} (to_real {})) {})", sum, rat(c * p), s, rat(d.c0 * p));
                let _ = writeln!(self.asr, "(assert (and (<= {} {}) (>= {} {})))", e, rat(sl.max(0.0)), e, rat(-sl.max(0.0)));
            }
            _ => { self.approx = true; self.bound(k, lo, hi, false, false) }
        }
    }
    fn ite_base(&mut self, k: u64, c: Lit, x: &Lin, y: &Lin) {
        let cs = self.lit(c);
        for (l, neg) in [(x, false), (y, true)] {
            if !l.finite() { continue }
            let d = self.minus_base(k, l);
            let sl = self.slack(l.rad).max(0.0);
            let a = self.rel(&d, "<=", 0.0, sl); let b = self.rel(&d, ">=", 0.0, sl);
            let g = if neg { format!("(not {})", cs) } else { cs.clone() };
            let _ = writeln!(self.asr, "(assert (=> {} (and {} {})))", g, a, b);
        }
    }
    fn eq_lin(&mut self, v: &str, l: &Lin) {
        let sc = self.scale_of(l);
        let p = 2f64.powi(sc as i32);
        let s = self.lin_sum(l, sc);
        let err = self.round_err(l, sc) + (l.c0 * p).fract().abs() + self.slack(l.rad).max(0.0) * p;
        let c = num((l.c0 * p).round() as i128);
        let vs = if sc == 0 { v.to_string() } else { format!("(* {} {})", num(1i128 << sc), v) };
        if err == 0.0 { let _ = writeln!(self.asr, "(assert (= {} (+ {} {})))", vs, s, c); }
        else { let e = num(err.ceil() as i128); let _ = writeln!(self.asr, "(assert (<= {} (+ {} {} {})))\n(assert (>= {} (- (+ {} {}) {})))", vs, s, c, e, vs, s, c, e); }
    }
    // ------------------------------------------------------------ bit-vectors
    fn bvtv(&mut self, v: Tv, w: u32) -> String { match v { Tv::C(c) => bvc(c as u128, w), Tv::T(t) => self.bvterm(t) } }
    fn bvterm(&mut self, t: TermId) -> String {
        if let Some(s) = self.bv.get(&t) { return s.clone() }
        let s = match self.ts.t[t as usize].clone() {
            TNode::Var { w, lo, hi, idx } => {
                let s = self.fresh("v"); let _ = writeln!(self.decl, "(declare-const {} (_ BitVec {}))", s, w);
                if lo > 0 { let _ = writeln!(self.asr, "(assert (bvuge {} {}))", s, bvc(lo as u128, w as u32)); }
                if hi < mask(w as u32) { let _ = writeln!(self.asr, "(assert (bvule {} {}))", s, bvc(hi as u128, w as u32)); }
                self.outvars.push((idx, t)); s
            }
            TNode::Bits(b) => {
                let mut parts = vec![];
                for &l in b.iter().rev() { if l <= 1 { parts.push(if l == TRUE { "#b1".to_string() } else { "#b0".into() }) } else { let x = self.lit(l); parts.push(format!("(ite {} #b1 #b0)", x)) } }
                let e = if parts.len() == 1 { parts.pop().unwrap() } else { format!("(concat {})", parts.join(" ")) };
                let s = self.fresh("v"); let _ = writeln!(self.defs, "(define-fun {} () (_ BitVec {}) {})", s, b.len(), e); s
            }
            TNode::Op(op, w, a, b) => {
                let x = self.bvtv(a, w as u32); let y = self.bvtv(b, w as u32);
                let o = match op { IOp::Add => "bvadd", IOp::Sub => "bvsub", IOp::Mul => "bvmul", IOp::UDiv => "bvudiv", IOp::SDiv => "bvsdiv", IOp::URem => "bvurem", IOp::SRem => "bvsrem", IOp::Shl => "bvshl", IOp::LShr => "bvlshr", IOp::AShr => "bvashr", IOp::And => "bvand", IOp::Or => "bvor", IOp::Xor => "bvxor" };
                let s = self.fresh("v"); let _ = writeln!(self.defs, "(define-fun {} () (_ BitVec {}) ({} {} {}))", s, w, o, x, y); s
            }
            TNode::Ite(w, c, a, b) => {
                let x = self.bvtv(a, w as u32); let y = self.bvtv(b, w as u32); let cs = self.lit(c);
                let s = self.fresh("v"); let _ = writeln!(self.defs, "(define-fun {} () (_ BitVec {}) (ite {} {} {}))", s, w, cs, x, y); s
            }
            _ => { self.approx = true; let w = self.ts.width(t); let s = self.fresh("v"); let _ = writeln!(self.decl, "(declare-const {} (_ BitVec {}))", s, w); s }
        };
        self.bv.insert(t, s.clone());
        s
    }
    fn text(&self) -> String { format!("{}{}{}", self.decl, self.defs, self.asr) }
    fn outs(&self) -> Vec<(u32, VarOut)> {
        let mut r = vec![];
        for &(idx, t) in &self.outvars {
            if let Some(s) = self.bv.get(&t) { r.push((idx, VarOut::Num(s.clone(), false))); continue }
            if let Some((s, _)) = self.base.get(&(K_T | t as u64)) { r.push((idx, VarOut::Num(s.clone(), self.ts.is_float(t)))); continue }
            if let Some(b) = self.bits.get(&t) { r.push((idx, VarOut::Bits(b.iter().map(|(i, s)| (*i, s.clone())).collect()))); }
        }
        r
    }
}
fn num(i: i128) -> String { if i < 0 { format!("(- {}.0)", i.unsigned_abs()) } else { format!("{}.0", i) } }
fn bvc(v: u128, w: u32) -> String { format!("(_ bv{} {})", v & mask128(w), w) }
/// exact rational text of an f64
fn rat(x: f64) -> String {
    if x == 0.0 { return "0.0".into() }
    let b = x.abs().to_bits();
    let e = ((b >> 52) & 0x7ff) as i32; let m = (b & ((1 << 52) - 1)) | if e > 0 { 1 << 52 } else { 0 };
    let mut e = e.max(1) - 1075; let mut m = m as u128;
    while m & 1 == 0 && e < 0 { m >>= 1; e += 1 }
    let s = if e >= 0 { if e > 70 { format!("{:.1}", x.abs()) } else { format!("{}.0", m << e) } } else if -e < 127 { format!("(/ {}.0 {}.0)", m, 1u128 << (-e)) } else { "0.0".into() };
    if x < 0.0 { format!("(- {})", s) } else { s }
}
