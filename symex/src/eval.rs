//! Exact concrete evaluation of terms under an assignment of the symbolic inputs.
use crate::term::*;

pub struct Eval<'a> { pub ts: &'a Terms, pub vals: &'a [u64], tb: FxMap<u32, bool>, tt: FxMap<u32, u128> }

pub fn fun_eval(op: FUn, x: f64) -> f64 { match op { FUn::Neg => -x, FUn::Abs => x.abs(), FUn::Round => x.round(), FUn::Floor => x.floor(), FUn::Ceil => x.ceil(), FUn::Trunc => x.trunc(), FUn::Rint => { let r = x.round(); if (r - x).abs() == 0.5 { 2.0 * (x / 2.0).round() } else { r } } FUn::Sqrt => x.sqrt() } }
pub fn fbin_eval(op: FOp, a: f64, b: f64) -> f64 { match op { FOp::Add => a + b, FOp::Sub => a - b, FOp::Mul => a * b, FOp::Div => a / b, FOp::Rem => a % b, FOp::Min => a.min(b), FOp::Max => a.max(b) } }
pub fn f2i_eval(signed: bool, w: u32, x: f64) -> u64 {
    if x.is_nan() { return 0 }
    let t = x.trunc();
    if signed {
        if w == 64 { return (t as i64) as u64 }
        let (mn, mx) = (-(1i64 << (w - 1)), (1i64 << (w - 1)) - 1);
        ((t as i64).clamp(mn, mx) as u64) & mask(w)
    } else { if w == 64 { t as u64 } else { (t as u64).min(mask(w)) } }
}
pub fn call_eval(n: FnName, a: f64, b: f64) -> f64 { match n { FnName::Hypot => a.hypot(b), FnName::Pow => a.powf(b), FnName::Atan2 => a.atan2(b), FnName::Exp => a.exp(), FnName::Sin => a.sin(), FnName::Cos => a.cos(), FnName::Log => a.ln(), FnName::Fmod => a % b, FnName::Other => f64::NAN } }

impl<'a> Eval<'a> {
    pub fn new(ts: &'a Terms, vals: &'a [u64]) -> Self { Eval { ts, vals, tb: Default::default(), tt: Default::default() } }
    pub fn lit(&mut self, l: Lit) -> bool { self.node(l >> 1) ^ (l & 1 == 1) }
    fn node(&mut self, root: u32) -> bool {
        if let Some(v) = self.tb.get(&root) { return *v }
        // iterative for deep xor chains
        let mut st = vec![root];
        while let Some(&n) = st.last() {
            if self.tb.contains_key(&n) { st.pop(); continue }
            let mut push = vec![];
            let need = |s: &Self, x: u32, p: &mut Vec<u32>| if !s.tb.contains_key(&x) { p.push(x) };
            match self.ts.b[n as usize] {
                BNode::Xor(a, b) => { need(self, a, &mut push); need(self, b, &mut push) }
                BNode::And(a, b) => { need(self, a >> 1, &mut push); need(self, b >> 1, &mut push) }
                BNode::TT(k) => for &x in &self.ts.tts[k as usize].bases { need(self, x, &mut push) },
                _ => {}
            }
            if !push.is_empty() { st.extend(push); continue }
            let g = |s: &Self, x: u32| s.tb[&x];
            let v = match self.ts.b[n as usize] {
                BNode::True => true,
                BNode::Xor(a, b) => g(self, a) ^ g(self, b),
                BNode::And(a, b) => (g(self, a >> 1) ^ (a & 1 == 1)) & (g(self, b >> 1) ^ (b & 1 == 1)),
                BNode::TT(k) => { let tb = &self.ts.tts[k as usize]; let mut r = 0; for (i, x) in tb.bases.iter().enumerate() { if g(self, *x) { r |= 1 << i } } tb.tt[r >> 6] >> (r & 63) & 1 == 1 }
                BNode::Bit(t, i) => self.term(t) >> i & 1 == 1,
                BNode::ICmp(p, w, a, b) => { let x = self.tv(a); let y = self.tv(b); apply_ipred(p, w as u32, x, y) }
                BNode::FCmp(p, a, b) => { let x = self.fv(a); let y = self.fv(b); match p { FPred::Eq => x == y, FPred::Lt => x < y, FPred::Le => x <= y } }
            };
            self.tb.insert(n, v);
            st.pop();
        }
        self.tb[&root]
    }
    pub fn tv(&mut self, v: Tv) -> u128 { match v { Tv::C(c) => c as u128, Tv::T(t) => self.term(t) } }
    pub fn fv(&mut self, v: Tv) -> f64 { f64::from_bits(self.tv(v) as u64) }
    pub fn term(&mut self, t: TermId) -> u128 {
        if let Some(v) = self.tt.get(&t) { return *v }
        let ts = self.ts;
        let r: u128 = match &ts.t[t as usize] {
            TNode::Var { idx, .. } | TNode::FVar { idx, .. } => self.vals[*idx as usize] as u128,
            TNode::Bits(b) => { let mut r = 0u128; for (i, &l) in b.iter().enumerate() { if self.lit(l) { r |= 1 << i } } r }
            TNode::Op(op, w, a, b) => { let x = self.tv(*a); let y = self.tv(*b); apply_iop(*op, *w as u32, x, y).unwrap_or(0) }
            TNode::Ite(_, c, a, b) => if self.lit(*c) { self.tv(*a) } else { self.tv(*b) },
            TNode::F2I { signed, w, f } => { let x = f64::from_bits(self.term(*f) as u64); f2i_eval(*signed, *w as u32, x) as u128 }
            TNode::FBits(f) => self.term(*f),
            TNode::FFromBits(f) => self.term(*f),
            TNode::I2F { signed, t } => { let w = ts.width(*t); let x = self.term(*t) as u64; (if *signed { sext(x, w) as f64 } else { x as f64 }).to_bits() as u128 }
            TNode::FBin(op, a, b) => { let x = self.fv(*a); let y = self.fv(*b); fbin_eval(*op, x, y).to_bits() as u128 }
            TNode::FUn(op, a) => { let x = f64::from_bits(self.term(*a) as u64); fun_eval(*op, x).to_bits() as u128 }
            TNode::FIte(c, a, b) => if self.lit(*c) { self.tv(*a) } else { self.tv(*b) },
            TNode::FCall(n, a, b) => { let x = self.fv(*a); let y = self.fv(*b); call_eval(*n, x, y).to_bits() as u128 }
        };
        self.tt.insert(t, r);
        r
    }
}
