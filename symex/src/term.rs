//! Hash-consed terms: Boolean literals (XOR-normalising), bit-vector terms and f64 terms.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 { self.0 ^ (self.0 >> 29) }
    fn write(&mut self, b: &[u8]) { for c in b.chunks(8) { let mut x = [0u8; 8]; x[..c.len()].copy_from_slice(c); self.write_u64(u64::from_le_bytes(x)); } }
    fn write_u64(&mut self, x: u64) { self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95); }
    fn write_u32(&mut self, x: u32) { self.write_u64(x as u64) }
    fn write_u8(&mut self, x: u8) { self.write_u64(x as u64) }
    fn write_u16(&mut self, x: u16) { self.write_u64(x as u64) }
    fn write_usize(&mut self, x: usize) { self.write_u64(x as u64) }
    fn write_u128(&mut self, x: u128) { self.write_u64(x as u64); self.write_u64((x >> 64) as u64) }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;
pub type FxSet<K> = std::collections::HashSet<K, BuildHasherDefault<Fx>>;

pub type TermId = u32;
/// node<<1 | negated; node 0 is the constant TRUE
pub type Lit = u32;
pub const TRUE: Lit = 0;
pub const FALSE: Lit = 1;
pub const MAXB: usize = 8;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Tv { C(u64), T(TermId) }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum IOp { Add, Sub, Mul, UDiv, SDiv, URem, SRem, Shl, LShr, AShr, And, Or, Xor }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum IPred { Eq, Ult, Ule, Slt, Sle }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FOp { Add, Sub, Mul, Div, Rem, Min, Max }
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FUn { Neg, Abs, Round, Floor, Ceil, Trunc, Rint, Sqrt }
/// ordered comparisons on non-NaN operands (NaN excluded by finite intervals)
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FPred { Eq, Lt, Le }

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum FnName { Hypot, Pow, Atan2, Exp, Sin, Cos, Log, Fmod, Other }

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TNode {
    Var { w: u8, lo: u64, hi: u64, idx: u32 },
    Bits(Box<[Lit]>),
    Op(IOp, u8, Tv, Tv),
    Ite(u8, Lit, Tv, Tv),
    F2I { signed: bool, w: u8, f: TermId },
    FBits(TermId),
    FVar { lo: u64, hi: u64, idx: u32 },
    I2F { signed: bool, t: TermId },
    FBin(FOp, Tv, Tv),
    FUn(FUn, TermId),
    FIte(Lit, Tv, Tv),
    FCall(FnName, Tv, Tv),
    FFromBits(TermId),
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    True,
    Bit(TermId, u8),
    Xor(u32, u32),
    And(Lit, Lit),
    TT(u32),
    ICmp(IPred, u8, Tv, Tv),
    FCmp(FPred, Tv, Tv),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct TTab { pub bases: Vec<u32>, pub tt: [u64; 4] }

#[inline]
pub fn mask(w: u32) -> u64 { if w >= 64 { !0 } else { (1u64 << w) - 1 } }
#[inline]
pub fn mask128(w: u32) -> u128 { if w >= 128 { !0 } else { (1u128 << w) - 1 } }
#[inline]
pub fn sext(x: u64, w: u32) -> i64 { if w >= 64 { x as i64 } else { ((x << (64 - w)) as i64) >> (64 - w) } }

fn sm(x: u64) -> u64 { let mut z = x.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^ (z >> 31) }

#[derive(Clone, Copy, Debug)]
pub enum Alt { Op(IOp, u8, Tv, Tv), Zext(TermId), Sext(TermId), Trunc(TermId) }
pub struct Terms {
    pub t: Vec<TNode>,
    tmap: FxMap<u64, Vec<TermId>>,
    pub b: Vec<BNode>,
    bmap: FxMap<BNode, u32>,
    pub sig: Vec<u128>,
    sigmap: FxMap<u128, u32>,
    pub tts: Vec<TTab>,
    ttmap: FxMap<TTab, u32>,
    /// literal substitutions proven by lemmas
    pub nvars: u32,
    lemma: FxMap<u32, Lit>,
    /// arithmetic origin of bit-level terms (always over older terms)
    pub alt: FxMap<TermId, Alt>,
    selections: FxMap<Lit, Vec<TermId>>,
    /// sums recognised as older nodes by their signature: (a, b, node) says a xor b = node
    pub merges: FxMap<u64, u32>,
}

pub fn apply_iop(op: IOp, w: u32, a: u128, b: u128) -> Option<u128> {
    let m = mask128(w);
    let sx = |x: u128| -> i128 { if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) } };
    Some(match op {
        IOp::Add => a.wrapping_add(b) & m,
        IOp::Sub => a.wrapping_sub(b) & m,
        IOp::Mul => a.wrapping_mul(b) & m,
        IOp::UDiv => if b == 0 { return None } else { a / b },
        IOp::URem => if b == 0 { return None } else { a % b },
        IOp::SDiv => if b == 0 { return None } else { (sx(a).wrapping_div(sx(b)) as u128) & m },
        IOp::SRem => if b == 0 { return None } else { (sx(a).wrapping_rem(sx(b)) as u128) & m },
        IOp::Shl => if b >= w as u128 { 0 } else { (a << b) & m },
        IOp::LShr => if b >= w as u128 { 0 } else { a >> b },
        IOp::AShr => if b >= w as u128 { if sx(a) < 0 { m } else { 0 } } else { ((sx(a) >> b) as u128) & m },
        IOp::And => a & b, IOp::Or => a | b, IOp::Xor => a ^ b,
    })
}
pub fn apply_ipred(p: IPred, w: u32, a: u128, b: u128) -> bool {
    let sx = |x: u128| -> i128 { if w >= 128 { x as i128 } else { ((x << (128 - w)) as i128) >> (128 - w) } };
    match p { IPred::Eq => a == b, IPred::Ult => a < b, IPred::Ule => a <= b, IPred::Slt => sx(a) < sx(b), IPred::Sle => sx(a) <= sx(b) }
}

impl Terms {
    pub fn new() -> Self {
        let mut s = Terms { t: vec![], tmap: Default::default(), b: vec![], bmap: Default::default(), sig: vec![], sigmap: Default::default(), tts: vec![], ttmap: Default::default(), nvars: 0, lemma: Default::default(), alt: Default::default(), selections: Default::default(), merges: Default::default() };
        s.b.push(BNode::True); s.sig.push(0); s.sigmap.insert(0, 0);
        s
    }
    fn hashn(n: &TNode) -> u64 { let mut h = Fx::default(); n.hash(&mut h); h.finish() }
    pub fn mk(&mut self, n: TNode) -> TermId {
        let h = Self::hashn(&n);
        if let Some(v) = self.tmap.get(&h) { for &i in v { if self.t[i as usize] == n { return i } } }
        let id = self.t.len() as u32;
        self.t.push(n);
        self.tmap.entry(h).or_default().push(id);
        id
    }
    pub fn mkb(&mut self, n: BNode) -> u32 {
        if let Some(&i) = self.bmap.get(&n) { return i }
        let id = self.b.len() as u32;
        self.b.push(n);
        let s = ((sm(id as u64 ^ 0x5157_0000_0000) as u128) << 64) | sm((id as u64) << 20 ^ 0xabcdef) as u128;
        self.sig.push(s);
        self.sigmap.insert(s, id);
        self.bmap.insert(n, id);
        id
    }
    pub fn width(&self, t: TermId) -> u32 {
        match &self.t[t as usize] {
            TNode::Var { w, .. } | TNode::Op(_, w, _, _) | TNode::Ite(w, ..) | TNode::F2I { w, .. } => *w as u32,
            TNode::Bits(b) => b.len() as u32,
            _ => 64,
        }
    }
    pub fn is_float(&self, t: TermId) -> bool {
        matches!(self.t[t as usize], TNode::FVar { .. } | TNode::I2F { .. } | TNode::FBin(..) | TNode::FUn(..) | TNode::FIte(..) | TNode::FCall(..) | TNode::FFromBits(_))
    }
    // ---------------------------------------------------------------- Booleans
    pub fn not(&self, a: Lit) -> Lit { a ^ 1 }
    pub fn xor(&mut self, a: Lit, b: Lit) -> Lit {
        let neg = (a ^ b) & 1;
        let (x, y) = (a >> 1, b >> 1);
        if x == y { return neg ^ 1 } // equal nodes: xor = false(1) when neg = 0
        if x == 0 { return (y << 1) | (neg ^ 1) }
        if y == 0 { return (x << 1) | (neg ^ 1) }
        let s = self.sig[x as usize] ^ self.sig[y as usize];
        if let Some(&n) = self.sigmap.get(&s) {
            let (p, q) = (x.min(y), x.max(y));
            if self.merges.len() < 400_000 && !matches!(self.b[n as usize], BNode::Xor(i, j) if (i, j) == (p, q)) { self.merges.entry((p as u64) << 32 | q as u64).or_insert(n); }
            return if n == 0 { neg ^ 1 } else { (n << 1) | neg };
        }
        let id = self.b.len() as u32;
        self.b.push(BNode::Xor(x.min(y), x.max(y)));
        self.sig.push(s);
        self.sigmap.insert(s, id);
        (id << 1) | neg
    }
    /// bases of a literal for truth tables
    fn bases(&self, l: Lit, out: &mut Vec<u32>) -> bool {
        let n = l >> 1;
        if n == 0 { return true }
        if let BNode::TT(k) = self.b[n as usize] { for &x in &self.tts[k as usize].bases { if !out.contains(&x) { out.push(x) } } }
        else if !out.contains(&n) { out.push(n) }
        out.len() <= MAXB
    }
    fn lit_tt(&self, l: Lit, bases: &[u32]) -> [u64; 4] {
        let n = l >> 1;
        let mut r = [0u64; 4];
        let rows = 1usize << bases.len();
        if n == 0 { r = [!0; 4]; }
        else if let BNode::TT(k) = self.b[n as usize] {
            let tb = &self.tts[k as usize];
            if tb.bases == bases { r = tb.tt; }
            else {
                let pos: Vec<usize> = tb.bases.iter().map(|x| bases.iter().position(|y| y == x).unwrap()).collect();
                for row in 0..rows {
                    let mut k = 0; for (i, &p) in pos.iter().enumerate() { if row >> p & 1 == 1 { k |= 1 << i } }
                    if tb.tt[k >> 6] >> (k & 63) & 1 == 1 { r[row >> 6] |= 1 << (row & 63) }
                }
            }
        } else {
            let p = bases.iter().position(|&y| y == n).unwrap();
            const P: [u64; 6] = [0xAAAAAAAAAAAAAAAA, 0xCCCCCCCCCCCCCCCC, 0xF0F0F0F0F0F0F0F0, 0xFF00FF00FF00FF00, 0xFFFF0000FFFF0000, 0xFFFFFFFF00000000];
            for (q, x) in r.iter_mut().enumerate() { *x = if p < 6 { P[p] } else if q >> (p - 6) & 1 == 1 { !0 } else { 0 } }
        }
        if l & 1 == 1 { for x in r.iter_mut() { *x = !*x } }
        if rows < 64 { r[0] &= (1u64 << rows) - 1; }
        for q in 0..4 { if q * 64 >= rows { r[q] = 0 } }
        r
    }
    /// build a literal from a truth table over sorted bases
    pub fn from_tt(&mut self, bases: &[u32], tt: [u64; 4]) -> Lit {
        let k = bases.len();
        let rows = 1usize << k;
        let get = |tt: &[u64; 4], r: usize| tt[r >> 6] >> (r & 63) & 1 == 1;
        let neg = get(&tt, 0);
        let mut t2 = [0u64; 4];
        for r in 0..rows { if get(&tt, r) != neg { t2[r >> 6] |= 1 << (r & 63) } }
        // relevant bases
        let mut rel = vec![];
        for i in 0..k {
            let mut dep = false;
            for r in 0..rows { if r >> i & 1 == 0 && get(&t2, r) != get(&t2, r | 1 << i) { dep = true; break } }
            if dep { rel.push(i) }
        }
        let ng = neg as u32;
        if rel.is_empty() { return if neg { TRUE } else { FALSE } }
        let kb: Vec<u32> = rel.iter().map(|&i| bases[i]).collect();
        let mut t3 = [0u64; 4];
        let rows3 = 1usize << rel.len();
        let mut linear = true;
        for r in 0..rows3 {
            let mut row = 0; for (j, &i) in rel.iter().enumerate() { if r >> j & 1 == 1 { row |= 1 << i } }
            let v = get(&t2, row);
            if v { t3[r >> 6] |= 1 << (r & 63) }
            if v != (r.count_ones() & 1 == 1) { linear = false }
        }
        if linear { let mut l = kb[0] << 1; for &x in &kb[1..] { l = self.xor(l, x << 1) } return l ^ ng }
        let tb = TTab { bases: kb, tt: t3 };
        let idx = if let Some(&i) = self.ttmap.get(&tb) { i } else { let i = self.tts.len() as u32; self.tts.push(tb.clone()); self.ttmap.insert(tb, i); i };
        (self.mkb(BNode::TT(idx)) << 1) | ng
    }
    pub fn and(&mut self, a: Lit, b: Lit) -> Lit {
        if a == FALSE || b == FALSE { return FALSE }
        if a == TRUE { return b }
        if b == TRUE { return a }
        if a == b { return a }
        if a ^ 1 == b { return FALSE }
        let mut bs = vec![];
        if self.bases(a, &mut bs) && self.bases(b, &mut bs) {
            bs.sort_unstable();
            let x = self.lit_tt(a, &bs); let y = self.lit_tt(b, &bs);
            return self.from_tt(&bs, [x[0] & y[0], x[1] & y[1], x[2] & y[2], x[3] & y[3]]);
        }
        let (a, b) = (a.min(b), a.max(b));
        self.mkb(BNode::And(a, b)) << 1
    }
    pub fn or(&mut self, a: Lit, b: Lit) -> Lit { self.and(a ^ 1, b ^ 1) ^ 1 }
    pub fn mux(&mut self, c: Lit, a: Lit, b: Lit) -> Lit {
        if c == TRUE { return a }
        if c == FALSE { return b }
        if a == b { return a }
        if a ^ 1 == b { return self.xor(c, a) ^ 1 }
        let mut bs = vec![];
        if self.bases(c, &mut bs) && self.bases(a, &mut bs) && self.bases(b, &mut bs) {
            bs.sort_unstable();
            let x = self.lit_tt(c, &bs); let y = self.lit_tt(a, &bs); let z = self.lit_tt(b, &bs);
            let mut r = [0u64; 4]; for i in 0..4 { r[i] = (x[i] & y[i]) | (!x[i] & z[i]) }
            let rows = 1usize << bs.len();
            if rows < 64 { r[0] &= (1u64 << rows) - 1; }
            for q in 0..4 { if q * 64 >= rows { r[q] = 0 } }
            return self.from_tt(&bs, r);
        }
        let d = self.xor(a, b);
        let e = self.and(c, d);
        self.xor(b, e)
    }
    /// literal proven equivalent to a comparison
    pub fn subst(&self, l: Lit) -> Option<Lit> { self.lemma.get(&(l >> 1)).map(|x| x ^ (l & 1)) }
    pub fn set_subst(&mut self, n: u32, l: Lit) { self.lemma.insert(n, l); }
    // ---------------------------------------------------------------- bit views
    pub fn bit_of(&mut self, v: Tv, i: u32) -> Lit {
        match v {
            Tv::C(c) => if i < 64 && c >> i & 1 == 1 { TRUE } else { FALSE },
            Tv::T(t) => match self.t[t as usize].clone() {
                TNode::Bits(b) => b[i as usize],
                TNode::Ite(w, c, a, b) => { let x = self.bit_of(a, i); let y = self.bit_of(b, i); let r = self.mux(c, x, y); if i == 0 && w >= 16 && r > 1 { let e = self.selections.entry(r).or_default(); if e.len() < 8 && !e.contains(&t) { e.push(t) } } r }
                TNode::Var { hi, .. } if hi < 64 && 64 - hi.leading_zeros() <= i => FALSE,
                TNode::Var { hi, .. } if i >= 64 - hi.leading_zeros() => FALSE,
                _ => self.mkb(BNode::Bit(t, i as u8)) << 1,
            },
        }
    }
    pub fn bits_of(&mut self, v: Tv, w: u32) -> Vec<Lit> { (0..w).map(|i| self.bit_of(v, i)).collect() }
    pub fn mk_bits(&mut self, b: Vec<Lit>) -> Tv {
        let w = b.len();
        if b.iter().all(|&l| l <= 1) && w <= 64 {
            let mut r = 0u64; for (i, &l) in b.iter().enumerate() { if l == TRUE { r |= 1 << i } }
            return Tv::C(r);
        }
        // recognise a whole term of the same width
        if let BNode::Bit(t, 0) = self.b[(b[0] >> 1) as usize] {
            if b[0] & 1 == 0 && self.width(t) as usize == w {
                let mut ok = true;
                for i in 1..w { if self.bit_of(Tv::T(t), i as u32) != b[i] { ok = false; break } }
                if ok { return Tv::T(t) }
            }
        }
        if w >= 16 { if let Some(c) = self.selections.get(&b[0]).cloned() {
            for t in c { if self.width(t) as usize == w && (1..w).rev().all(|i| self.bit_of(Tv::T(t), i as u32) == b[i]) { return Tv::T(t) } }
        } }
        Tv::T(self.mk(TNode::Bits(b.into_boxed_slice())))
    }
    /// if the value is a zero extension of a (non-Bits) term, return that term
    pub fn zext_src(&mut self, t: TermId) -> Option<TermId> {
        let b = match &self.t[t as usize] { TNode::Bits(b) => b.clone(), _ => return None };
        if b[0] & 1 == 1 { return None }
        if let BNode::Bit(s, 0) = self.b[(b[0] >> 1) as usize] {
            let sw = self.width(s) as usize;
            if sw > b.len() { return None }
            for i in 1..sw { if self.bit_of(Tv::T(s), i as u32) != b[i] { return None } }
            for i in sw..b.len() { if b[i] != FALSE { return None } }
            return Some(s);
        }
        None
    }
    /// sign extension of a (non-Bits) term
    pub fn sext_src(&mut self, t: TermId) -> Option<TermId> {
        let b = match &self.t[t as usize] { TNode::Bits(b) => b.clone(), _ => return None };
        if b[0] & 1 == 1 { return None }
        if let BNode::Bit(s, 0) = self.b[(b[0] >> 1) as usize] {
            let sw = self.width(s) as usize;
            if sw > b.len() { return None }
            for i in 1..sw { if self.bit_of(Tv::T(s), i as u32) != b[i] { return None } }
            for i in sw..b.len() { if b[i] != b[sw - 1] { return None } }
            return Some(s);
        }
        None
    }
    /// small support of a value: bases (sorted), or None
    pub fn support(&mut self, v: Tv, w: u32, out: &mut Vec<u32>) -> bool {
        match v {
            Tv::C(_) => true,
            Tv::T(t) => {
                // avoid expanding wide opaque words
                match &self.t[t as usize] {
                    TNode::Bits(_) => {}
                    TNode::Ite(_, c, a, b) => { let (c, a, b) = (*c, *a, *b); return self.bases(c, out) && self.support(a, w, out) && self.support(b, w, out) }
                    TNode::Var { hi, .. } => if 64 - hi.leading_zeros() as usize > MAXB { return false },
                    _ => if w as usize > MAXB { return false },
                }
                for i in 0..w { let l = self.bit_of(v, i); if !self.bases(l, out) { return false } }
                true
            }
        }
    }
    /// values of v for all assignments of the bases
    fn rows(&mut self, v: Tv, w: u32, bases: &[u32]) -> Vec<u128> {
        let n = 1usize << bases.len();
        match v {
            Tv::C(c) => vec![c as u128; n],
            Tv::T(_) => {
                let mut r = vec![0u128; n];
                for i in 0..w {
                    let l = self.bit_of(v, i);
                    if l == FALSE { continue }
                    let tt = self.lit_tt(l, bases);
                    for k in 0..n { if tt[k >> 6] >> (k & 63) & 1 == 1 { r[k] |= 1 << i } }
                }
                r
            }
        }
    }
    fn from_rows(&mut self, w: u32, bases: &[u32], rows: &[u128]) -> Tv {
        let mut b = Vec::with_capacity(w as usize);
        for i in 0..w {
            let mut tt = [0u64; 4];
            for (k, r) in rows.iter().enumerate() { if r >> i & 1 == 1 { tt[k >> 6] |= 1 << (k & 63) } }
            b.push(self.from_tt(bases, tt));
        }
        self.mk_bits(b)
    }
    /// enumerate possible values of a small-support term with the condition of each row
    pub fn enumerate(&mut self, v: Tv, w: u32) -> Option<(Vec<u32>, Vec<u128>)> {
        let mut bs = vec![];
        if !self.support(v, w, &mut bs) { return None }
        bs.sort_unstable();
        let r = self.rows(v, w, &bs);
        Some((bs, r))
    }
    /// apply an arbitrary function of a small-support value
    pub fn map_rows(&mut self, bases: &[u32], w: u32, rows: &[u128]) -> Tv { self.from_rows(w, bases, rows) }
    pub fn lit_from_rows(&mut self, bases: &[u32], rows: &[bool]) -> Lit {
        let mut tt = [0u64; 4];
        for (k, r) in rows.iter().enumerate() { if *r { tt[k >> 6] |= 1 << (k & 63) } }
        self.from_tt(bases, tt)
    }
    // ---------------------------------------------------------------- integer ops
    pub fn iop(&mut self, op: IOp, w: u32, a: Tv, b: Tv) -> Tv {
        if let (Tv::C(x), Tv::C(y)) = (a, b) { if w <= 64 { if let Some(r) = apply_iop(op, w, x as u128, y as u128) { return Tv::C(r as u64) } } }
        // identities
        match (op, a, b) {
            (IOp::Add, x, Tv::C(0)) | (IOp::Sub, x, Tv::C(0)) | (IOp::Or, x, Tv::C(0)) | (IOp::Xor, x, Tv::C(0)) | (IOp::Shl, x, Tv::C(0)) | (IOp::LShr, x, Tv::C(0)) | (IOp::AShr, x, Tv::C(0)) | (IOp::Mul, x, Tv::C(1)) | (IOp::UDiv, x, Tv::C(1)) => return x,
            (IOp::Add, Tv::C(0), x) | (IOp::Or, Tv::C(0), x) | (IOp::Xor, Tv::C(0), x) | (IOp::Mul, Tv::C(1), x) => return x,
            (IOp::And, _, Tv::C(0)) | (IOp::And, Tv::C(0), _) | (IOp::Mul, _, Tv::C(0)) | (IOp::Mul, Tv::C(0), _) => return Tv::C(0),
            (IOp::And, x, Tv::C(m)) | (IOp::And, Tv::C(m), x) if w <= 64 && m == mask(w) => return x,
            (IOp::Sub, x, y) | (IOp::Xor, x, y) if x == y => return Tv::C(0),
            (IOp::And, x, y) | (IOp::Or, x, y) if x == y => return x,
            _ => {}
        }
        match op {
            IOp::And | IOp::Or | IOp::Xor => {
                let x = self.bits_of(a, w); let y = self.bits_of(b, w);
                let mut r = Vec::with_capacity(w as usize);
                for i in 0..w as usize { r.push(match op { IOp::And => self.and(x[i], y[i]), IOp::Or => self.or(x[i], y[i]), _ => self.xor(x[i], y[i]) }) }
                return self.mk_bits(r);
            }
            IOp::Shl | IOp::LShr | IOp::AShr => if let Tv::C(k) = b {
                let x = self.bits_of(a, w);
                let k = (k as usize).min(w as usize);
                let wn = w as usize;
                let r: Vec<Lit> = (0..wn).map(|i| match op {
                    IOp::Shl => if i >= k { x[i - k] } else { FALSE },
                    IOp::LShr => if i + k < wn { x[i + k] } else { FALSE },
                    _ => if i + k < wn { x[i + k] } else { x[wn - 1] },
                }).collect();
                return self.mk_bits(r);
            },
            IOp::Mul => if let Tv::C(k) = b { if k.is_power_of_two() && self.arith_free(a) { return self.iop(IOp::Shl, w, a, Tv::C(k.trailing_zeros() as u64)) } },
            IOp::UDiv => if let Tv::C(k) = b { if k.is_power_of_two() { return self.iop(IOp::LShr, w, a, Tv::C(k.trailing_zeros() as u64)) } },
            IOp::URem => if let Tv::C(k) = b { if k.is_power_of_two() { return self.iop(IOp::And, w, a, Tv::C(k - 1)) } },
            _ => {}
        }
        // quotient of an exact multiple of one value
        if let (IOp::UDiv | IOp::URem, Tv::C(k)) = (op, b) {
            if w <= 64 && k > 1 { if let Some((u, c)) = self.multiple(a, w) { if c % k as u128 == 0 {
                return if op == IOp::URem { Tv::C(0) } else { self.iop(IOp::Mul, w, Tv::T(u), Tv::C((c / k as u128) as u64)) } } } }
        }
        // small support
        let mut bs = vec![];
        if self.support(a, w, &mut bs) && self.support(b, w, &mut bs) && bs.len() <= MAXB {
            bs.sort_unstable();
            let ra = self.rows(a, w, &bs); let rb = self.rows(b, w, &bs);
            let rows: Vec<u128> = (0..ra.len()).map(|k| apply_iop(op, w, ra[k], rb[k]).unwrap_or(0)).collect();
            let n0 = self.t.len();
            let r = self.from_rows(w, &bs, &rows);
            if matches!(op, IOp::Add | IOp::Sub | IOp::Mul) { self.set_alt(n0, r, Alt::Op(op, w as u8, a, b)) }
            return r;
        }
        // disjoint-bit addition is or
        if op == IOp::Add && w <= 64 {
            if let (Tv::T(x), Tv::T(y)) = (a, b) {
                if matches!(self.t[x as usize], TNode::Bits(_)) && matches!(self.t[y as usize], TNode::Bits(_)) {
                    let xb = self.bits_of(a, w); let yb = self.bits_of(b, w);
                    if xb.iter().zip(&yb).all(|(&p, &q)| p == FALSE || q == FALSE) { return self.iop(IOp::Or, w, a, b) }
                }
            }
        }
        // constants to the right, reassociate constant additions
        let (mut op, mut a, mut b) = (op, a, b);
        if matches!(op, IOp::Add | IOp::Mul) { if let Tv::C(_) = a { std::mem::swap(&mut a, &mut b) } }
        if op == IOp::Sub { if let Tv::C(c) = b { if w <= 64 { op = IOp::Add; b = Tv::C(c.wrapping_neg() & mask(w)); } } }
        if op == IOp::Add { if let (Tv::T(x), Tv::C(c)) = (a, b) { if let TNode::Op(IOp::Add, _, y, Tv::C(d)) = self.t[x as usize] { return self.iop(IOp::Add, w, y, Tv::C(c.wrapping_add(d) & mask(w))) } } }
        Tv::T(self.mk(TNode::Op(op, w as u8, a, b)))
    }
    /// true when a is purely bit-level (no float-linked word inside)
    fn arith_free(&self, a: Tv) -> bool {
        match a { Tv::C(_) => true, Tv::T(t) => matches!(self.t[t as usize], TNode::Bits(_)) }
    }
    pub fn icmp(&mut self, p: IPred, w: u32, a: Tv, b: Tv) -> Lit {
        if let (Tv::C(x), Tv::C(y)) = (a, b) { return if apply_ipred(p, w, x as u128, y as u128) { TRUE } else { FALSE } }
        if a == b { return if matches!(p, IPred::Eq | IPred::Ule | IPred::Sle) { TRUE } else { FALSE } }
        let mut bs = vec![];
        if self.support(a, w, &mut bs) && self.support(b, w, &mut bs) && bs.len() <= MAXB {
            bs.sort_unstable();
            let ra = self.rows(a, w, &bs); let rb = self.rows(b, w, &bs);
            let rows: Vec<bool> = (0..ra.len()).map(|k| apply_ipred(p, w, ra[k], rb[k])).collect();
            return self.lit_from_rows(&bs, &rows);
        }
        // unsigned against constants: range information
        if let (Tv::T(_), Tv::C(c)) = (a, b) {
            if let Some((lo, hi)) = self.urange(a) {
                match p { IPred::Ult => { if hi < c { return TRUE } if lo >= c { return FALSE } } IPred::Ule => { if hi <= c { return TRUE } if lo > c { return FALSE } } IPred::Eq => if c < lo || c > hi { return FALSE }, _ => {} }
            }
        }
        if let (Tv::C(c), Tv::T(_)) = (a, b) {
            if let Some((lo, hi)) = self.urange(b) {
                match p { IPred::Ult => { if c < lo { return TRUE } if c >= hi { return FALSE } } IPred::Ule => { if c <= lo { return TRUE } if c > hi { return FALSE } } IPred::Eq => if c < lo || c > hi { return FALSE }, _ => {} }
            }
        }
        if p == IPred::Eq {
            let bitlevel = |s: &Self, v: Tv| match v { Tv::C(_) => true, Tv::T(t) => matches!(s.t[t as usize], TNode::Bits(_) | TNode::Var { .. }) };
            if bitlevel(self, a) && bitlevel(self, b) {
                let x = self.bits_of(a, w); let y = self.bits_of(b, w);
                let mut ds = Vec::with_capacity(w as usize);
                for i in 0..w as usize { let d = self.xor(x[i], y[i]); if d == TRUE { return FALSE } ds.push(d); }
                let mut r = TRUE;
                for d in ds { r = self.and(r, d ^ 1); if r == FALSE { return FALSE } }
                return r;
            }
        }
        if matches!(p, IPred::Slt | IPred::Sle) && w <= 64 {
            // x < 0 is the sign bit
            if p == IPred::Slt && b == Tv::C(0) { if let Tv::T(t) = a { if matches!(self.t[t as usize], TNode::Bits(_)) { return self.bit_of(a, w - 1) } } }
            if let (Some((_, h1)), Some((_, h2))) = (self.urange(a), self.urange(b)) {
                if h1 >> (w - 1) == 0 && h2 >> (w - 1) == 0 { return self.icmp(if p == IPred::Slt { IPred::Ult } else { IPred::Ule }, w, a, b) }
            }
        }
        self.mkb(BNode::ICmp(p, w as u8, a, b)) << 1
    }
    /// cheap unsigned range
    /// the value is exactly c times the value of one term of the same width (no wrap-around)
    fn multiple(&self, a: Tv, w: u32) -> Option<(TermId, u128)> {
        fn walk(s: &Terms, v: Tv, w: u32, f: u128, d: usize, src: &mut Option<TermId>, sum: &mut u128) -> bool {
            let t = match v { Tv::C(0) => return true, Tv::C(_) => return false, Tv::T(t) => t };
            if s.width(t) != w { return false }
            let n = match &s.t[t as usize] { TNode::Op(o, _, a, b) => Some((*o, *a, *b)), TNode::Bits(_) => match s.alt.get(&t) { Some(Alt::Op(o, _, a, b)) => Some((*o, *a, *b)), _ => None }, _ => None };
            if d < 8 { match n {
                Some((IOp::Add, a, b)) => return walk(s, a, w, f, d + 1, src, sum) && walk(s, b, w, f, d + 1, src, sum),
                Some((IOp::Mul, a, Tv::C(c))) | Some((IOp::Mul, Tv::C(c), a)) if f < 1 << 60 && c < 1 << 60 => return walk(s, a, w, f * c as u128, d + 1, src, sum),
                _ => {}
            } }
            match src { None => *src = Some(t), Some(x) => if *x != t { return false } }
            *sum += f; true
        }
        let (mut src, mut sum) = (None, 0);
        if !walk(self, a, w, 1, 0, &mut src, &mut sum) { return None }
        let u = src?;
        let (_, hi) = self.urange(Tv::T(u))?;
        // every partial sum and product is at most the total
        if sum < 1 << 64 && hi as u128 * sum <= mask(w) as u128 && sum > 1 { Some((u, sum)) } else { None }
    }
    pub fn urange(&self, v: Tv) -> Option<(u64, u64)> {
        match v {
            Tv::C(c) => Some((c, c)),
            Tv::T(t) => match &self.t[t as usize] {
                TNode::Var { lo, hi, .. } => Some((*lo, *hi)),
                TNode::Bits(b) if b.len() <= 64 => { let (mut lo, mut hi) = (0u64, 0u64); for (i, &l) in b.iter().enumerate() { if l == TRUE { lo |= 1 << i } if l != FALSE { hi |= 1 << i } } Some((lo, hi)) }
                TNode::Ite(_, _, a, b) => { let x = self.urange(*a)?; let y = self.urange(*b)?; Some((x.0.min(y.0), x.1.max(y.1))) }
                TNode::Op(IOp::Add, w, a, b) => { let x = self.urange(*a)?; let y = self.urange(*b)?; let h = x.1 as u128 + y.1 as u128; if h <= mask(*w as u32) as u128 { Some((x.0 + y.0, h as u64)) } else { None } }
                TNode::Op(IOp::Mul, w, a, b) => { let x = self.urange(*a)?; let y = self.urange(*b)?; let h = x.1 as u128 * y.1 as u128; if h <= mask(*w as u32) as u128 { Some((x.0 * y.0, h as u64)) } else { None } }
                TNode::Op(IOp::UDiv, _, a, Tv::C(c)) if *c != 0 => { let x = self.urange(*a)?; Some((x.0 / c, x.1 / c)) }
                TNode::Op(IOp::URem, _, _, Tv::C(c)) if *c != 0 => Some((0, c - 1)),
                TNode::F2I { w, signed: false, .. } => Some((0, mask(*w as u32))),
                _ => { let w = self.width(t); if w <= 64 { Some((0, mask(w))) } else { None } }
            },
        }
    }
    pub fn ite(&mut self, w: u32, c: Lit, a: Tv, b: Tv) -> Tv {
        if c == TRUE { return a }
        if c == FALSE { return b }
        if a == b { return a }
        let wordy = |s: &Self, v: Tv| match v { Tv::C(_) => false, Tv::T(t) => !matches!(s.t[t as usize], TNode::Bits(_)) };
        if w > 8 || wordy(self, a) || wordy(self, b) {
            let mut bs = vec![];
            let small = self.bases(c, &mut bs) && self.support(a, w, &mut bs) && self.support(b, w, &mut bs) && bs.len() <= 3;
            let zx = |s: &mut Self, v: Tv| match v { Tv::C(_) => true, Tv::T(t) => !matches!(s.t[t as usize], TNode::Bits(_)) || s.zext_src(t).is_some() || s.sext_src(t).is_some() };
            if !small && (wordy(self, a) || wordy(self, b)) && zx(self, a) && zx(self, b) {
                let (c, a, b) = if c & 1 == 1 { (c ^ 1, b, a) } else { (c, a, b) };
                return Tv::T(self.mk(TNode::Ite(w as u8, c, a, b)));
            }
        }
        let x = self.bits_of(a, w); let y = self.bits_of(b, w);
        let r: Vec<Lit> = (0..w as usize).map(|i| self.mux(c, x[i], y[i])).collect();
        self.mk_bits(r)
    }
    pub fn fite(&mut self, c: Lit, a: Tv, b: Tv) -> Tv {
        if c == TRUE { return a }
        if c == FALSE { return b }
        if a == b { return a }
        let (c, a, b) = if c & 1 == 1 { (c ^ 1, b, a) } else { (c, a, b) };
        Tv::T(self.mk(TNode::FIte(c, a, b)))
    }
    fn set_alt(&mut self, n0: usize, r: Tv, a: Alt) { if let Tv::T(t) = r { if t as usize >= n0 && matches!(self.t[t as usize], TNode::Bits(_)) { self.alt.entry(t).or_insert(a); } } }
    pub fn trunc(&mut self, v: Tv, to: u32) -> Tv {
        match v { Tv::C(c) => Tv::C(c & mask(to)), Tv::T(t) => {
            if let TNode::Ite(_, c, a, b) = self.t[t as usize] { let x = self.trunc(a, to); let y = self.trunc(b, to); return self.ite(to, c, x, y) }
            let n0 = self.t.len(); let b = self.bits_of(v, to); let r = self.mk_bits(b); self.set_alt(n0, r, Alt::Trunc(t)); r } }
    }
    pub fn zext(&mut self, v: Tv, from: u32, to: u32) -> Tv {
        match v { Tv::C(c) => Tv::C(c), Tv::T(t) => {
            if let TNode::Ite(_, c, a, b) = self.t[t as usize] { let x = self.zext(a, from, to); let y = self.zext(b, from, to); return self.ite(to, c, x, y) }
            let n0 = self.t.len(); let mut b = self.bits_of(v, from); b.resize(to as usize, FALSE); let r = self.mk_bits(b); self.set_alt(n0, r, Alt::Zext(t)); r } }
    }
    pub fn sext(&mut self, v: Tv, from: u32, to: u32) -> Tv {
        match v { Tv::C(c) => Tv::C(sext(c, from) as u64 & mask(to)), Tv::T(t) => {
            if let TNode::Ite(_, c, a, b) = self.t[t as usize] { let x = self.sext(a, from, to); let y = self.sext(b, from, to); return self.ite(to, c, x, y) }
            let mut b = self.bits_of(v, from); let s = b[from as usize - 1]; let n0 = self.t.len(); b.resize(to as usize, s); let r = self.mk_bits(b); self.set_alt(n0, r, Alt::Sext(t)); r } }
    }
    pub fn extract(&mut self, v: Tv, lo: u32, w: u32) -> Tv {
        if lo == 0 { return self.trunc(v, w) }
        match v { Tv::C(c) => Tv::C((c >> lo) & mask(w)), Tv::T(_) => { let b: Vec<Lit> = (lo..lo + w).map(|i| self.bit_of(v, i)).collect(); self.mk_bits(b) } }
    }
}
