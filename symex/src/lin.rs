//! Sound linear views of f64 and integer terms: value = sum(coef*base) + c0 +/- rad, lo <= value <= hi.
use crate::term::*;
use std::rc::Rc;

pub const U: f64 = 1.1102230246251565e-16; // 2^-53
pub const K_T: u64 = 0;
pub const K_RES: u64 = 1 << 32;
pub const K_LIT: u64 = 2 << 32;

#[derive(Clone, Debug)]
pub struct Lin { pub terms: Vec<(u64, f64)>, pub c0: f64, pub rad: f64, pub lo: f64, pub hi: f64 }
impl Lin {
    pub fn constant(c: f64) -> Lin { Lin { terms: vec![], c0: c, rad: 0.0, lo: c, hi: c } }
    pub fn mag(&self) -> f64 { self.lo.abs().max(self.hi.abs()) }
    pub fn finite(&self) -> bool { self.lo.is_finite() && self.hi.is_finite() && self.rad.is_finite() }
    pub fn is_const(&self) -> bool { self.terms.is_empty() && self.rad == 0.0 }
}
#[derive(Default)]
pub struct LinCache { f: FxMap<TermId, Rc<Lin>>, i: FxMap<TermId, Option<Rc<Lin>>>, weight: usize, pub pixel_round: FxSet<TermId>, ranges: FxMap<u64, (f64, f64)> }

fn up(x: f64) -> f64 { x * (1.0 + 4.0 * U) + 1e-300 }
fn two_sum_err(a: f64, b: f64) -> f64 { let s = a + b; let bb = s - a; ((a - (s - bb)) + (b - bb)).abs() }

impl LinCache {
    pub fn clear_if_big(&mut self) { if self.weight > 20_000_000 { self.f.clear(); self.i.clear(); self.weight = 0; } }

    pub fn base_range(&mut self, ts: &mut Terms, k: u64) -> (f64, f64) {
        if let Some(r) = self.ranges.get(&k) { return *r }
        let id = (k & 0xffff_ffff) as u32;
        let r = match k >> 32 {
            2 => (0.0, 1.0),
            1 => {
                // residual of a rounding: value = source + e
                match ts.t[id as usize].clone() {
                    TNode::FUn(op, a) => { let l = self.lin_f(ts, Tv::T(a)); let r = l.rad; match op {
                        FUn::Round | FUn::Rint => (-0.5 - r, 0.5 + r),
                        FUn::Floor => (-1.0 - r, r), FUn::Ceil => (-r, 1.0 + r),
                        _ => if l.lo >= 0.0 { (-1.0 - r, r) } else if l.hi <= 0.0 { (-r, 1.0 + r) } else { (-1.0 - r, 1.0 + r) } } }
                    TNode::F2I { f, .. } => { let l = self.lin_f(ts, Tv::T(f)); let r = l.rad; if l.lo >= 0.0 { (-1.0 - r, r) } else if l.hi <= 0.0 { (-r, 1.0 + r) } else { (-1.0 - r, 1.0 + r) } }
                    _ => unreachable!(),
                }
            }
            _ => match ts.t[id as usize].clone() {
                TNode::Var { lo, hi, .. } => (lo as f64, hi as f64),
                TNode::FVar { lo, hi, .. } => (f64::from_bits(lo), f64::from_bits(hi)),
                TNode::F2I { signed, w, f } => { let l = self.lin_f(ts, Tv::T(f)); let (mn, mx) = irange(signed, w as u32); if l.finite() { (l.lo.trunc().clamp(mn, mx), l.hi.trunc().clamp(mn, mx)) } else { (mn, mx) } }
                TNode::Ite(_, _, a, b) => { let x = self.lin_i(ts, a); let y = self.lin_i(ts, b); match (x, y) { (Some(x), Some(y)) => (x.lo.min(y.lo), x.hi.max(y.hi)), _ => (0.0, u64::MAX as f64) } }
                TNode::FIte(_, a, b) => { let x = self.lin_f(ts, a); let y = self.lin_f(ts, b); (x.lo.min(y.lo), x.hi.max(y.hi)) }
                TNode::FUn(op, a) => { let x = self.lin_f(ts, Tv::T(a)); match op {
                    FUn::Abs => (if x.lo <= 0.0 && x.hi >= 0.0 { 0.0 } else { x.lo.abs().min(x.hi.abs()) }, x.mag()),
                    FUn::Sqrt => if x.lo >= 0.0 { (x.lo.sqrt(), x.hi.sqrt()) } else { (f64::NEG_INFINITY, f64::INFINITY) },
                    _ => (f64::NEG_INFINITY, f64::INFINITY) } }
                TNode::FBin(op, a, b) => { let x = self.lin_f(ts, a); let y = self.lin_f(ts, b); match op {
                    FOp::Mul if a == b => { let m = x.mag(); (if x.lo > 0.0 { x.lo * x.lo } else if x.hi < 0.0 { x.hi * x.hi } else { 0.0 }, m * m) }
                    FOp::Mul => { let c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]; minmax(&c) }
                    FOp::Div => if y.lo > 0.0 || y.hi < 0.0 { let c = [x.lo / y.lo, x.lo / y.hi, x.hi / y.lo, x.hi / y.hi]; minmax(&c) } else { (f64::NEG_INFINITY, f64::INFINITY) },
                    FOp::Rem => { let m = y.mag(); if y.lo > 0.0 || y.hi < 0.0 { let mb = if y.lo == y.hi { f64::from_bits(m.to_bits() - 1) } else { m }; (if x.lo >= 0.0 { 0.0 } else { (-mb).max(x.lo) }, if x.hi <= 0.0 { 0.0 } else { mb.min(x.hi) }) } else { (f64::NEG_INFINITY, f64::INFINITY) } }
                    FOp::Min => (x.lo.min(y.lo), x.hi.min(y.hi)), FOp::Max => (x.lo.max(y.lo), x.hi.max(y.hi)),
                    _ => (f64::NEG_INFINITY, f64::INFINITY) } }
                TNode::FCall(FnName::Hypot, a, b) => { let x = self.lin_f(ts, a); let y = self.lin_f(ts, b);
                    let mn = |l: &Lin| if l.lo <= 0.0 && l.hi >= 0.0 { 0.0 } else { l.lo.abs().min(l.hi.abs()) };
                    (mn(&x).hypot(mn(&y)) * (1.0 - 1e-14), x.mag().hypot(y.mag()) * (1.0 + 1e-14)) }
                TNode::FCall(FnName::Exp, a, _) => { let x = self.lin_f(ts, a); (x.lo.exp() * (1.0 - 1e-14), x.hi.exp() * (1.0 + 1e-14)) }
                TNode::FCall(FnName::Sin | FnName::Cos, ..) => (-1.0, 1.0),
                TNode::I2F { signed, t } => { let w = ts.width(t); irange(signed, w) }
                _ => { let w = if ts.is_float(id) { 0 } else { ts.width(id) }; if w > 0 && w <= 64 { match ts.urange(Tv::T(id)) { Some((l, h)) => (l as f64, up(h as f64)), None => (0.0, mask(w) as f64) } } else { (f64::NEG_INFINITY, f64::INFINITY) } }
            },
        };
        let r = if r.0.is_nan() || r.1.is_nan() { (f64::NEG_INFINITY, f64::INFINITY) } else { r };
        self.ranges.insert(k, r);
        r
    }
    fn finish(&mut self, ts: &mut Terms, mut terms: Vec<(u64, f64)>, c0: f64, mut rad: f64) -> Lin {
        let (mut lo, mut hi) = (c0, c0);
        let mut abs = c0.abs();
        let mut j = 0;
        for i in 0..terms.len() {
            let (k, c) = terms[i];
            if c == 0.0 { continue }
            let (a, b) = self.base_range(ts, k);
            let m = a.abs().max(b.abs());
            if c.abs() * m < 1e-11 { rad += c.abs() * m; continue }
            if c > 0.0 { lo += c * a; hi += c * b } else { lo += c * b; hi += c * a }
            abs += c.abs() * m;
            terms[j] = (k, c); j += 1;
        }
        terms.truncate(j);
        let slack = if terms.is_empty() { 0.0 } else { abs * U * (terms.len() as f64 + 2.0) };
        if rad > 0.0 { rad = up(rad) }
        let (lo, hi) = (lo - rad - slack, hi + rad + slack);
        Lin { terms, c0, rad, lo, hi }
    }
    pub fn base(&mut self, ts: &mut Terms, k: u64) -> Lin { let (lo, hi) = self.base_range(ts, k); Lin { terms: vec![(k, 1.0)], c0: 0.0, rad: 0.0, lo, hi } }
    /// a + s*b without rounding of the result (exact real combination)
    pub fn comb(&mut self, ts: &mut Terms, a: &Lin, s: f64, b: &Lin) -> Lin {
        let mut t = Vec::with_capacity(a.terms.len() + b.terms.len());
        let mut rad = a.rad + s.abs() * b.rad;
        let (mut i, mut j) = (0, 0);
        let mul = |x: f64| -> (f64, f64) { let p = s * x; (p, s.mul_add(x, -p).abs()) };
        while i < a.terms.len() || j < b.terms.len() {
            if j >= b.terms.len() || (i < a.terms.len() && a.terms[i].0 < b.terms[j].0) { t.push(a.terms[i]); i += 1 }
            else {
                let (k, c) = b.terms[j];
                let (p, e) = mul(c);
                let mut err = e;
                let mut v = p;
                if i < a.terms.len() && a.terms[i].0 == k { v = a.terms[i].1 + p; err += two_sum_err(a.terms[i].1, p); i += 1; }
                j += 1;
                if err > 0.0 { let (x, y) = self.base_range(ts, k); rad += err * x.abs().max(y.abs()) }
                if v != 0.0 { t.push((k, v)) }
            }
        }
        let (p, e) = mul(b.c0);
        let c0 = a.c0 + p;
        rad += e + two_sum_err(a.c0, p);
        self.finish(ts, t, c0, rad)
    }
    fn scale(&mut self, ts: &mut Terms, a: &Lin, s: f64) -> Lin { self.comb(ts, &Lin::constant(0.0), s, a) }
    fn clampi(mut l: Lin, lo: f64, hi: f64) -> Lin { if lo > l.lo { l.lo = lo } if hi < l.hi { l.hi = hi } l }

    pub fn lin_f(&mut self, ts: &mut Terms, v: Tv) -> Rc<Lin> {
        let t = match v { Tv::C(c) => return Rc::new(Lin::constant(f64::from_bits(c))), Tv::T(t) => t };
        if let Some(l) = self.f.get(&t) { return l.clone() }
        let opaque = |s: &mut Self, ts: &mut Terms| s.base(ts, K_T | t as u64);
        let l = match ts.t[t as usize].clone() {
            TNode::FBin(op, a, b) => {
                let x = self.lin_f(ts, a); let y = self.lin_f(ts, b);
                match op {
                    FOp::Add | FOp::Sub => {
                        let s = if op == FOp::Add { 1.0 } else { -1.0 };
                        let mut r = self.comb(ts, &x, s, &y);
                        let e = r.mag() * U; r.rad += e; r.lo -= e; r.hi += e;
                        let (fl, fh) = if op == FOp::Add { (x.lo + y.lo, x.hi + y.hi) } else { (x.lo - y.hi, x.hi - y.lo) };
                        Self::clampi(r, fl, fh)
                    }
                    FOp::Mul if y.is_const() || x.is_const() => {
                        let (c, z) = if y.is_const() { (y.c0, &x) } else { (x.c0, &y) };
                        if c == 0.0 { Lin::constant(0.0) } else {
                        let mut r = self.scale(ts, z, c);
                        if c.abs().log2().fract() != 0.0 { let e = r.mag() * U; r.rad += e; r.lo -= e; r.hi += e; }
                        let (p, q) = (c * z.lo, c * z.hi);
                        Self::clampi(r, p.min(q), p.max(q)) }
                    }
                    FOp::Div if y.is_const() && y.c0 != 0.0 => {
                        let c = y.c0;
                        let pw2 = c.abs().log2().fract() == 0.0;
                        let mut r = self.scale(ts, &x, 1.0 / c);
                        if !pw2 { let e = r.mag() * U * 3.0; r.rad += e; r.lo -= e; r.hi += e; }
                        let (p, q) = (x.lo / c, x.hi / c);
                        Self::clampi(r, p.min(q), p.max(q))
                    }
                    _ => opaque(self, ts),
                }
            }
            TNode::FUn(FUn::Neg, a) => { let x = self.lin_f(ts, Tv::T(a)); self.scale(ts, &x, -1.0) }
            TNode::FUn(op @ (FUn::Round | FUn::Rint | FUn::Floor | FUn::Ceil | FUn::Trunc), a) => {
                let x = self.lin_f(ts, Tv::T(a));
                if !x.finite() || x.mag() > 1e15 { opaque(self, ts) } else {
                    let e = self.base(ts, K_RES | t as u64);
                    let mut r = self.comb(ts, &x, 1.0, &e);
                    // the residual absorbs all error of the source
                    r.rad = 0.0;
                    let f = |v: f64| match op { FUn::Round => v.round(), FUn::Rint => v.round(), FUn::Floor => v.floor(), FUn::Ceil => v.ceil(), _ => v.trunc() };
                    let (a, b) = (f(x.lo), f(x.hi));
                    Self::clampi(r, a - if op == FUn::Rint { 1.0 } else { 0.0 }, b + if op == FUn::Rint { 1.0 } else { 0.0 })
                }
            }
            TNode::FIte(c, a, b) => {
                let x = self.lin_f(ts, a); let y = self.lin_f(ts, b);
                let d = self.comb(ts, &x, -1.0, &y);
                if d.terms.is_empty() && d.rad == 0.0 && x.rad == 0.0 && y.rad == 0.0 {
                    // b + d*[c]   (c is never negated here)
                    let lb = self.base(ts, K_LIT | (c >> 1) as u64);
                    let mut r = self.comb(ts, &y, d.c0, &lb);
                    r.lo = r.lo.max(x.lo.min(y.lo)); r.hi = r.hi.min(x.hi.max(y.hi));
                    r
                } else { opaque(self, ts) }
            }
            TNode::I2F { signed, t: it } => {
                let w = ts.width(it);
                let (mn, mx) = irange(signed, w);
                match self.lin_i(ts, Tv::T(it)) {
                    Some(l) if l.lo >= mn - 0.5 && l.hi <= mx + 0.5 && l.mag() < 9.0e15 => (*l).clone(),
                    Some(l) if l.lo >= mn - 0.5 && l.hi <= mx * (1.0 + 1e-12) => { let mut l = (*l).clone(); let e = l.mag() * U * 2.0; l.rad += e; l.lo -= e; l.hi += e; l }
                    _ => opaque(self, ts),
                }
            }
            _ => opaque(self, ts),
        };
        self.weight += l.terms.len() + 8;
        let r = Rc::new(l);
        self.f.insert(t, r.clone());
        r
    }
    /// mathematical integer congruent to the value modulo 2^w (rad is always 0)
    pub fn lin_i(&mut self, ts: &mut Terms, v: Tv) -> Option<Rc<Lin>> {
        let t = match v { Tv::C(c) => return Some(Rc::new(Lin::constant(c as i64 as f64))), Tv::T(t) => t };
        if let Some(l) = self.i.get(&t) { return l.clone() }
        let w = ts.width(t);
        let r: Option<Lin> = match ts.t[t as usize].clone() {
            TNode::Var { .. } => Some(self.base(ts, K_T | t as u64)),
            TNode::Op(op, w, a, b) => {
                let cs = |v: Tv| match v { Tv::C(c) => Tv::C(sext(c, w as u32) as u64), x => x };
                match (op, a, b) {
                    (IOp::Add, a, b) => match (self.lin_i(ts, cs(a)), self.lin_i(ts, cs(b))) { (Some(x), Some(y)) => Some(self.comb(ts, &x, 1.0, &y)), _ => None },
                    (IOp::Sub, a, b) => match (self.lin_i(ts, cs(a)), self.lin_i(ts, cs(b))) { (Some(x), Some(y)) => Some(self.comb(ts, &x, -1.0, &y)), _ => None },
                    (IOp::Mul, a, Tv::C(c)) => match self.lin_i(ts, a) { Some(x) => Some(self.scale(ts, &x, sext(c, w as u32) as f64)), _ => None },
                    _ => None,
                }
            }
            TNode::F2I { signed, w, f } => {
                let x = self.lin_f(ts, Tv::T(f));
                let (mn, mx) = irange(signed, w as u32);
                if x.finite() && x.lo > mn - 1.0 && x.hi < mx + 1.0 && x.mag() < 1e15 {
                    if matches!(ts.t[f as usize], TNode::FUn(FUn::Round | FUn::Rint | FUn::Floor | FUn::Ceil | FUn::Trunc, _)) {
                        if w <= 8 { self.pixel_round.insert(f); }
                        Some((*x).clone())
                    } else if x.terms.len() == 1 && x.rad == 0.0 && x.c0 == 0.0 && x.terms[0].1 == 1.0 && self.int_base(ts, x.terms[0].0) { Some((*x).clone()) }
                    else {
                        let e = self.base(ts, K_RES | t as u64);
                        let mut r = self.comb(ts, &x, 1.0, &e);
                        r.rad = 0.0;
                        Some(Self::clampi(r, x.lo.trunc(), x.hi.trunc()))
                    }
                } else { Some(self.base(ts, K_T | t as u64)) }
            }
            TNode::Ite(_, c, a, b) => {
                let (x, y) = (self.lin_i(ts, a), self.lin_i(ts, b));
                match (x, y) { (Some(x), Some(y)) => {
                    let d = self.comb(ts, &x, -1.0, &y);
                    if d.terms.is_empty() { let lb = self.base(ts, K_LIT | (c >> 1) as u64); Some(self.comb(ts, &y, d.c0, &lb)) } else { Some(self.base(ts, K_T | t as u64)) } }
                    _ => None }
            }
            TNode::Bits(b) => {
                let cs = |v: Tv| match v { Tv::C(c) => Tv::C(sext(c, w) as u64), x => x };
                let viaalt: Option<Lin> = match ts.alt.get(&t).copied() {
                    Some(Alt::Op(op @ (IOp::Add | IOp::Sub), _, a, b)) => match (self.lin_i(ts, cs(a)), self.lin_i(ts, cs(b))) { (Some(x), Some(y)) => Some(self.comb(ts, &x, if op == IOp::Add { 1.0 } else { -1.0 }, &y)), _ => None },
                    Some(Alt::Op(IOp::Mul, w, a, Tv::C(c)) | Alt::Op(IOp::Mul, w, Tv::C(c), a)) => match self.lin_i(ts, a) { Some(x) => Some(self.scale(ts, &x, sext(c, w as u32) as f64)), _ => None },
                    Some(Alt::Zext(s)) => { let sw = ts.width(s); match self.lin_i(ts, Tv::T(s)) { Some(l) if l.lo >= -0.5 && l.hi <= mask(sw) as f64 + 0.5 => Some((*l).clone()), _ => None } }
                    Some(Alt::Sext(s)) => { let sw = ts.width(s); match self.lin_i(ts, Tv::T(s)) { Some(l) if l.lo >= -(2f64.powi(sw as i32 - 1)) - 0.5 && l.hi <= 2f64.powi(sw as i32 - 1) - 0.5 => Some((*l).clone()), _ => None } }
                    Some(Alt::Trunc(s)) => self.lin_i(ts, Tv::T(s)).map(|l| (*l).clone()),
                    _ => None,
                };
                if let Some(l) = viaalt { Some(l) } else
                if let Some(s) = ts.zext_src(t) {
                    let sw = ts.width(s);
                    match self.lin_i(ts, Tv::T(s)) { Some(l) if l.lo >= -0.5 && l.hi <= mask(sw) as f64 + 0.5 => Some((*l).clone()), _ => if sw <= 16 { self.bits_lin(ts, &b) } else { None } }
                } else if let Some(s) = ts.sext_src(t) {
                    let sw = ts.width(s);
                    match self.lin_i(ts, Tv::T(s)) { Some(l) if l.lo >= -(2f64.powi(sw as i32 - 1)) && l.hi <= 2f64.powi(sw as i32 - 1) - 0.5 => Some((*l).clone()), _ => None }
                } else if b.iter().filter(|&&l| l > 1).count() <= 16 { self.bits_lin(ts, &b) } else { None }
            }
            _ => None,
        };
        let r = r.filter(|l| l.rad < 1e-3).map(Rc::new);
        if let Some(l) = &r { self.weight += l.terms.len() + 8; }
        self.i.insert(t, r.clone());
        r
    }
    fn bits_lin(&mut self, ts: &mut Terms, b: &[Lit]) -> Option<Lin> {
        let mut terms = vec![]; let mut c0 = 0.0;
        for (i, &l) in b.iter().enumerate() {
            let p = 2f64.powi(i as i32);
            if l == FALSE { continue }
            if l == TRUE { c0 += p; continue }
            if l & 1 == 0 { terms.push((K_LIT | (l >> 1) as u64, p)) } else { c0 += p; terms.push((K_LIT | (l >> 1) as u64, -p)) }
        }
        if c0 > 9e15 { return None }
        terms.sort_by_key(|x| x.0);
        let mut t2: Vec<(u64, f64)> = vec![];
        for (k, c) in terms { if let Some(x) = t2.last_mut() { if x.0 == k { x.1 += c; continue } } t2.push((k, c)) }
        Some(self.finish(ts, t2, c0, 0.0))
    }
    fn int_base(&self, ts: &Terms, k: u64) -> bool {
        k >> 32 == 2 || (k >> 32 == 0 && !ts.is_float(k as u32))
    }
}
pub fn irange(signed: bool, w: u32) -> (f64, f64) {
    if signed { (-(2f64.powi(w as i32 - 1)), 2f64.powi(w as i32 - 1) - 1.0) } else { (0.0, 2f64.powi(w as i32) - 1.0) }
}
fn minmax(c: &[f64]) -> (f64, f64) { let mut a = f64::INFINITY; let mut b = f64::NEG_INFINITY; for &x in c { if x.is_nan() { return (f64::NEG_INFINITY, f64::INFINITY) } a = a.min(x); b = b.max(x) } (a, b) }
