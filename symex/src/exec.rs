//! Symbolic interpreter for the parsed LLVM IR: merging at post-dominators, journaled memory.
use crate::eval::*;
use crate::ir::*;
use crate::lin::LinCache;
use crate::solver::*;
use crate::term::*;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val { I(u64), T(TermId), B(Lit), W(Rc<u128>), Agg(Rc<Vec<Val>>), U }

#[derive(Debug)]
pub enum Stop { Split(u32), Fail(String), Found, Done }
pub type Res<T> = Result<T, Stop>;
fn fail<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Fail(s.into())) }

pub struct Obj { data: Vec<u8>, cells: Option<Box<[u64]>>, live: bool, ro: bool }
const TAG: u64 = 1 << 63;
#[inline] fn cell(t: TermId, i: u32) -> u64 { TAG | (t as u64) << 8 | i as u64 }
#[inline] fn cell_t(c: u64) -> (TermId, u32) { (((c & !TAG) >> 8) as u32, (c & 0xff) as u32) }

enum J { Mem { obj: u32, off: u32, data: Box<[u8]>, cells: Option<Box<[u64]>> }, Live(u32, bool) }
struct Mark { j: usize, objs: u32 }
struct Saved { mem: Vec<(u32, u32, Box<[u8]>, Option<Box<[u64]>>)>, dead: Vec<u32> }

pub struct Frame { f: Arc<Func>, regs: Vec<Val>, rj: Vec<(u32, Val)>, arms: u32, allocas: Vec<u32>, loops: FxMap<u32, u32> }
enum End { Reached(Vec<Val>), Ret(Val), Dead }
enum ArmSpec { To(u32), Rest(Vec<(Lit, u32)>, u32) }

#[derive(Clone, Debug)]
pub struct VarInfo { pub kind: u8, pub w: u32, pub lo: u64, pub hi: u64, pub term: TermId }
#[derive(Clone, Debug)]
pub struct Candidate { pub what: String, pub stack: Vec<String>, pub verdict: &'static str }

#[derive(Default, Clone, Debug)]
pub struct JobStats { pub instrs: u64, pub forks: u64, pub paths: u64, pub checks: u64, pub checks_structural: u64, pub checks_solver: u64, pub panics_reached: u64, pub panic_refuted: u64, pub lemmas: u64, pub lemma_hits: u64, pub splits: u64, pub confirm_tried: u64, pub havocs: u64, pub confirmed: u64 }

pub struct Ctx<'m> {
    pub m: &'m Module,
    pub ts: Terms, pub lc: LinCache, pub sv: Solver,
    objs: Vec<Obj>, free_ids: Vec<u32>, globs: FxMap<u32, Obj>,
    journal: Vec<J>, jdepth: u32,
    known: FxMap<u32, bool>, trail: Vec<u32>,
    pub pc: Vec<Lit>,
    pub vars: Vec<VarInfo>,
    pub params: Vec<u64>,
    pub stack: Vec<u32>,
    pub fcount: Vec<u64>,
    pub st: JobStats,
    pub expect_panic: bool,
    pub panic_seen: bool,
    pub found: Option<(String, Vec<u64>)>,
    pub unresolved: Vec<Candidate>,
    pub observed: Vec<(u32, Val)>,
    pub check_names: FxMap<u32, u64>,
    pub deadline: Option<Instant>,
    pub lemma: bool,
    pub trace: bool,
    pub fkind: FxMap<u32, Intr>,
    pub split: Vec<(u32, bool)>,
    pub assume_failed: bool,
    pub panic_pc: Option<Vec<Lit>>,
    pub fail_checked: bool,
    pub split_checked: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Intr { Body, Panic, Named, Ignore, Decode }

fn lit_val(l: Lit) -> Val { if l == TRUE { Val::I(1) } else if l == FALSE { Val::I(0) } else { Val::B(l) } }
fn tvv(t: Tv) -> Val { match t { Tv::C(c) => Val::I(c), Tv::T(t) => Val::T(t) } }

impl<'m> Ctx<'m> {
    pub fn new(m: &'m Module) -> Self {
        let mut c = Ctx { m, ts: Terms::new(), lc: LinCache::default(), sv: Solver::new(), objs: vec![], free_ids: vec![], globs: Default::default(), journal: vec![], jdepth: 0, known: Default::default(), trail: vec![], pc: vec![], vars: vec![], params: vec![], stack: vec![], fcount: vec![0; m.funcs.len()], st: Default::default(), expect_panic: false, panic_seen: false, found: None, unresolved: vec![], observed: vec![], check_names: Default::default(), deadline: None, lemma: true, trace: false, fkind: Default::default(), split: vec![], assume_failed: false, panic_pc: None, fail_checked: false, split_checked: false };
        c.objs.push(Obj { data: vec![], cells: None, live: false, ro: true });
        c
    }
    pub fn reset_run(&mut self) {
        self.objs.truncate(1); self.free_ids.clear(); self.globs.clear(); self.journal.clear(); self.jdepth = 0; self.known.clear(); self.trail.clear(); self.pc.clear(); self.vars.clear(); self.stack.clear(); self.expect_panic = false; self.panic_seen = false; self.observed.clear(); self.assume_failed = false; self.panic_pc = None; self.fail_checked = false; self.split_checked = false;
    }
    // ------------------------------------------------------------ values
    pub fn tv(&mut self, v: &Val) -> Res<Tv> {
        Ok(match v { Val::I(c) => Tv::C(*c), Val::T(t) => Tv::T(*t), Val::B(l) => Tv::T(self.ts.mk(TNode::Bits(vec![*l].into_boxed_slice()))), Val::U => Tv::C(0), Val::W(x) => { let b: Vec<Lit> = (0..128).map(|i| if **x >> i & 1 == 1 { TRUE } else { FALSE }).collect(); Tv::T(self.ts.mk(TNode::Bits(b.into_boxed_slice()))) } Val::Agg(_) => return fail("aggregate used as scalar") })
    }
    pub fn lit(&mut self, v: &Val) -> Res<Lit> {
        Ok(match v { Val::I(c) => if c & 1 == 1 { TRUE } else { FALSE }, Val::B(l) => *l, Val::U => FALSE, Val::T(t) => self.ts.bit_of(Tv::T(*t), 0), _ => return fail("not a Boolean") })
    }
    /// integer view of a possibly-float term
    pub fn int_view(&mut self, v: Tv) -> Tv {
        match v { Tv::T(t) if self.ts.is_float(t) => { if let TNode::FFromBits(x) = self.ts.t[t as usize] { return Tv::T(x) } Tv::T(self.ts.mk(TNode::FBits(t))) } v => v }
    }
    pub fn float_view(&mut self, v: Tv) -> Tv {
        match v { Tv::T(t) if !self.ts.is_float(t) => { if let TNode::FBits(x) = self.ts.t[t as usize] { return Tv::T(x) } if let TNode::Ite(_, c, a, b) = self.ts.t[t as usize] { let x = self.float_view(a); let y = self.float_view(b); return self.ts.fite(c, x, y) } Tv::T(self.ts.mk(TNode::FFromBits(t))) } v => v }
    }
    fn wide(&mut self, v: &Val, w: u32) -> Res<Option<u128>> {
        Ok(match v { Val::W(x) => Some(**x & mask128(w)), Val::I(c) => Some(*c as u128), Val::U => Some(0), Val::T(_) | Val::B(_) => None, _ => return fail("wide") })
    }
    fn mkw(x: u128, w: u32) -> Val { if w > 64 { Val::W(Rc::new(x & mask128(w))) } else { Val::I(x as u64 & mask(w)) } }
    fn kval(k: &K) -> Val { match k { K::I(c) => Val::I(*c), K::W(x) => Val::W(Rc::new(*x)), K::Undef => Val::U, K::Agg(a) => Val::Agg(Rc::new(a.iter().map(Self::kval).collect())) } }
    #[inline] fn ev(&self, fr: &Frame, o: &Op) -> Val { match o { Op::R(r) => fr.regs[*r as usize].clone(), Op::K(k) => Self::kval(k) } }
    #[inline] fn set(fr: &mut Frame, r: u32, v: Val) { if fr.arms > 0 { let o = std::mem::replace(&mut fr.regs[r as usize], v); fr.rj.push((r, o)); } else { fr.regs[r as usize] = v; } }
    /// ite over run-time values
    pub fn ite_val(&mut self, c: Lit, a: &Val, b: &Val, ty: &Ty) -> Res<Val> {
        if c == TRUE { return Ok(a.clone()) }
        if c == FALSE { return Ok(b.clone()) }
        match (a, b) {
            (Val::U, x) | (x, Val::U) => return Ok(x.clone()),
            (Val::I(x), Val::I(y)) if x == y => return Ok(a.clone()),
            (Val::T(x), Val::T(y)) if x == y => return Ok(a.clone()),
            (Val::Agg(x), Val::Agg(y)) => { let (x, y) = (x.clone(), y.clone()); let mut v = Vec::with_capacity(x.len()); for i in 0..x.len().min(y.len()) { let t = ty.elem(i); v.push(self.ite_val(c, &x[i], &y[i], &t)?) } return Ok(Val::Agg(Rc::new(v))) }
            (Val::W(x), Val::W(y)) if x == y => return Ok(a.clone()),
            _ => {}
        }
        match ty {
            Ty::I(1) => { let x = self.lit(a)?; let y = self.lit(b)?; Ok(lit_val(self.ts.mux(c, x, y))) }
            Ty::F64 => { let x = self.tv(a)?; let y = self.tv(b)?; let x = self.float_view(x); let y = self.float_view(y); Ok(tvv(self.ts.fite(c, x, y))) }
            Ty::F32 => fail("symbolic f32"),
            Ty::I(w) => { let x = self.tv(a)?; let y = self.tv(b)?; Ok(tvv(self.ts.ite(*w, c, x, y))) }
            Ty::Ptr => { let x = self.tv(a)?; let y = self.tv(b)?; Ok(tvv(self.ts.ite(64, c, x, y))) }
            t => fail(format!("merge of {:?}", t)),
        }
    }
    // ------------------------------------------------------------ memory
    pub fn alloc(&mut self, n: u64) -> Res<u64> {
        if n > 1 << 30 { return fail(format!("allocation of {} bytes", n)) }
        let o = Obj { data: vec![0; n as usize], cells: None, live: true, ro: false };
        if self.jdepth == 0 { if let Some(id) = self.free_ids.pop() { self.objs[id as usize] = o; return Ok((id as u64) << 32) } }
        self.objs.push(o);
        Ok(((self.objs.len() - 1) as u64) << 32)
    }
    pub fn release(&mut self, a: u64) -> Res<()> {
        let id = (a >> 32) as u32;
        if id == 0 { return Ok(()) }
        if id as usize >= self.objs.len() || !self.objs[id as usize].live { return fail(format!("free of {:x}", a)) }
        if self.jdepth > 0 { self.journal.push(J::Live(id, true)); self.objs[id as usize].live = false; }
        else { let o = &mut self.objs[id as usize]; o.live = false; o.data = vec![]; o.cells = None; self.free_ids.push(id); }
        Ok(())
    }
    fn obj(&mut self, a: u64, n: u64, write: bool) -> Res<&mut Obj> {
        let id = (a >> 32) as u32; let off = a & 0xffff_ffff;
        let g = id >= GLOB_BASE as u32;
        let o = if g {
            if id >= FUNC_BASE as u32 { return fail(format!("access to function memory {:x}", a)) }
            let m = self.m;
            self.globs.entry(id).or_insert_with(|| { let g = &m.globals[(id - GLOB_BASE as u32) as usize]; Obj { data: g.data.clone(), cells: None, live: true, ro: g.constant } })
        } else { match self.objs.get_mut(id as usize) { Some(o) => o, None => return fail(format!("wild address {:x}", a)) } };
        if !o.live { return fail(format!("access to dead object {:x}", a)) }
        if off + n > o.data.len() as u64 { return fail(format!("out-of-bounds access {:x}+{} of {}", a, n, o.data.len())) }
        if write && o.ro { return fail("write to constant") }
        Ok(o)
    }
    fn note(&mut self, a: u64, n: u64) {
        if self.jdepth == 0 { return }
        let id = (a >> 32) as u32; let off = a as u32;
        let o = if id >= GLOB_BASE as u32 { &self.globs[&id] } else { &self.objs[id as usize] };
        let r = off as usize..off as usize + n as usize;
        self.journal.push(J::Mem { obj: id, off, data: o.data[r.clone()].into(), cells: o.cells.as_ref().map(|c| c[r].into()) });
    }
    fn whole(bytes: &[u8], cells: Option<&[u64]>, ts: &Terms) -> Option<Tv> {
        let n = bytes.len();
        match cells {
            None => { let mut x = 0u64; for i in 0..n { x |= (bytes[i] as u64) << (8 * i) } Some(Tv::C(x)) }
            Some(c) => {
                if c.iter().all(|x| *x == 0) { return Self::whole(bytes, None, ts) }
                let (t, i) = cell_t(c[0]);
                if c[0] == 0 || i != 0 || ts.width(t) as usize != 8 * n { return None }
                for k in 1..n { if c[k] != c[0] + k as u64 { return None } }
                Some(Tv::T(t))
            }
        }
    }
    pub fn load(&mut self, a: u64, n: u64) -> Res<Tv> {
        if n == 0 { return Ok(Tv::C(0)) }
        let o = self.obj(a, n, false)?;
        let r = (a as u32) as usize..(a as u32) as usize + n as usize;
        if o.cells.is_none() && n <= 8 { let mut x = [0u8; 8]; x[..n as usize].copy_from_slice(&o.data[r]); return Ok(Tv::C(u64::from_le_bytes(x))) }
        let bytes: Vec<u8> = o.data[r.clone()].to_vec(); let cells: Option<Vec<u64>> = o.cells.as_ref().map(|c| c[r].to_vec());
        if n <= 8 { if let Some(v) = Self::whole(&bytes, cells.as_deref(), &self.ts) { return Ok(v) } }
        let mut bits = Vec::with_capacity(8 * n as usize);
        for k in 0..n as usize {
            let c = cells.as_ref().map(|c| c[k]).unwrap_or(0);
            if c == 0 { for i in 0..8 { bits.push(if bytes[k] >> i & 1 == 1 { TRUE } else { FALSE }) } }
            else { let (t, i) = cell_t(c); let v = self.int_view(Tv::T(t)); for j in 0..8 { let l = self.ts.bit_of(v, i * 8 + j); bits.push(l) } }
        }
        Ok(self.ts.mk_bits(bits))
    }
    pub fn store(&mut self, a: u64, n: u64, v: Tv) -> Res<()> {
        if n == 0 { return Ok(()) }
        self.obj(a, n, true)?;
        self.note(a, n);
        let v = if let Tv::T(t) = v { if self.ts.width(t) as u64 != 8 * n { // pad odd widths
            let w = self.ts.width(t); let iv = self.int_view(Tv::T(t)); let mut b = self.ts.bits_of(iv, w); b.resize(8 * n as usize, FALSE); self.ts.mk_bits(b) } else { v } } else { v };
        let o = self.obj(a, n, true)?;
        let off = (a as u32) as usize;
        match v {
            Tv::C(c) => { for i in 0..n as usize { o.data[off + i] = if i < 8 { (c >> (8 * i)) as u8 } else { 0 } } if let Some(cs) = o.cells.as_mut() { cs[off..off + n as usize].fill(0) } }
            Tv::T(t) => { let len = o.data.len(); let cs = o.cells.get_or_insert_with(|| vec![0u64; len].into_boxed_slice()); for i in 0..n as usize { cs[off + i] = cell(t, i as u32) } }
        }
        Ok(())
    }
    pub fn memcpy(&mut self, d: u64, s: u64, n: u64) -> Res<()> {
        if n == 0 || d == s { return Ok(()) }
        let so = self.obj(s, n, false)?;
        let r = (s as u32) as usize..(s as u32) as usize + n as usize;
        let bytes: Vec<u8> = so.data[r.clone()].to_vec();
        let cells: Option<Vec<u64>> = so.cells.as_ref().and_then(|c| { let c = &c[r]; if c.iter().all(|x| *x == 0) { None } else { Some(c.to_vec()) } });
        self.obj(d, n, true)?;
        self.note(d, n);
        let o = self.obj(d, n, true)?;
        let off = (d as u32) as usize; let e = off + n as usize;
        o.data[off..e].copy_from_slice(&bytes);
        match cells { Some(c) => { let len = o.data.len(); let cs = o.cells.get_or_insert_with(|| vec![0u64; len].into_boxed_slice()); cs[off..e].copy_from_slice(&c) } None => if let Some(cs) = o.cells.as_mut() { cs[off..e].fill(0) } }
        Ok(())
    }
    pub fn size_of(&self, a: u64) -> u64 { self.objs.get((a >> 32) as usize).map(|o| o.data.len() as u64).unwrap_or(0) }
    pub fn fill(&mut self, d: u64, n: u64, c: u8) -> Res<()> {
        self.obj(d, n, true)?; self.note(d, n);
        let o = self.obj(d, n, true)?; let r = (d as u32) as usize..(d as u32) as usize + n as usize;
        o.data[r.clone()].fill(c); if let Some(cs) = o.cells.as_mut() { cs[r].fill(0) }
        Ok(())
    }
    // ------------------------------------------------------------ arms
    fn mark(&mut self) -> Mark { self.jdepth += 1; Mark { j: self.journal.len(), objs: self.objs.len() as u32 } }
    /// undo memory to the mark, returning the new contents of what was touched
    fn unwind(&mut self, mk: &Mark) -> Saved {
        let mut touched: FxMap<u32, Vec<(u32, u32)>> = Default::default();
        let mut dead: Vec<u32> = vec![];
        for j in &self.journal[mk.j..] { match j { J::Mem { obj, off, data, .. } => { if *obj < mk.objs || *obj >= GLOB_BASE as u32 { touched.entry(*obj).or_default().push((*off, *off + data.len() as u32)) } } J::Live(o, _) => if *o < mk.objs { dead.push(*o) } } }
        let mut mem = vec![];
        for (o, mut rs) in touched {
            rs.sort_unstable();
            let mut cur = rs[0];
            let mut out = vec![];
            for r in &rs[1..] { if r.0 <= cur.1 { cur.1 = cur.1.max(r.1) } else { out.push(cur); cur = *r } }
            out.push(cur);
            let ob = if o >= GLOB_BASE as u32 { &self.globs[&o] } else { &self.objs[o as usize] };
            for (a, b) in out { let r = a as usize..b as usize; mem.push((o, a, ob.data[r.clone()].into(), ob.cells.as_ref().map(|c| c[r].into()))) }
        }
        mem.sort_by_key(|x| (x.0, x.1));
        while self.journal.len() > mk.j {
            match self.journal.pop().unwrap() {
                J::Mem { obj, off, data, cells } => {
                    if obj >= mk.objs && obj < GLOB_BASE as u32 { continue }
                    let o = if obj >= GLOB_BASE as u32 { self.globs.get_mut(&obj).unwrap() } else { &mut self.objs[obj as usize] };
                    let r = off as usize..off as usize + data.len();
                    o.data[r.clone()].copy_from_slice(&data);
                    if let Some(cs) = o.cells.as_mut() { match cells { Some(c) => cs[r].copy_from_slice(&c), None => cs[r].fill(0) } }
                }
                J::Live(o, l) => { if o < mk.objs { self.objs[o as usize].live = l } }
            }
        }
        Saved { mem, dead }
    }
    fn apply(&mut self, s: &Saved) {
        for (o, off, d, c) in &s.mem {
            self.note((*o as u64) << 32 | *off as u64, d.len() as u64);
            let ob = if *o >= GLOB_BASE as u32 { self.globs.get_mut(o).unwrap() } else { &mut self.objs[*o as usize] };
            let r = *off as usize..*off as usize + d.len();
            ob.data[r.clone()].copy_from_slice(d);
            match c { Some(c) => { let len = ob.data.len(); ob.cells.get_or_insert_with(|| vec![0u64; len].into_boxed_slice())[r].copy_from_slice(c) } None => if let Some(cs) = ob.cells.as_mut() { cs[r].fill(0) } }
        }
        for o in &s.dead { if self.objs[*o as usize].live { if self.jdepth > 0 { self.journal.push(J::Live(*o, true)); } self.objs[*o as usize].live = false; } }
    }
    fn side_byte<'x>(s: &'x Saved, o: u32, off: u32) -> Option<(&'x (u32, u32, Box<[u8]>, Option<Box<[u64]>>), usize)> {
        let k = s.mem.partition_point(|x| (x.0, x.1) <= (o, off));
        if k == 0 { return None }
        let e = &s.mem[k - 1];
        if e.0 == o && off >= e.1 && ((off - e.1) as usize) < e.2.len() { Some((e, (off - e.1) as usize)) } else { None }
    }
    fn side_val(&self, s: &Saved, o: u32, off: u32, n: u32) -> (Vec<u8>, Vec<u64>) {
        let ob = if o >= GLOB_BASE as u32 { &self.globs[&o] } else { &self.objs[o as usize] };
        let mut b = Vec::with_capacity(n as usize); let mut c = Vec::with_capacity(n as usize);
        for k in off..off + n {
            match Self::side_byte(s, o, k) { Some((e, i)) => { b.push(e.2[i]); c.push(e.3.as_ref().map(|c| c[i]).unwrap_or(0)) } None => { b.push(ob.data[k as usize]); c.push(ob.cells.as_ref().map(|c| c[k as usize]).unwrap_or(0)) } }
        }
        (b, c)
    }
    /// memory is at the fork point; write ite(c, a, b) for everything touched on either side
    fn merge_mem(&mut self, c: Lit, a: &Saved, b: &Saved) -> Res<()> {
        // union of ranges
        let mut rs: Vec<(u32, u32, u32)> = a.mem.iter().chain(b.mem.iter()).map(|x| (x.0, x.1, x.1 + x.2.len() as u32)).collect();
        rs.sort_unstable();
        let mut un: Vec<(u32, u32, u32)> = vec![];
        for r in rs { if let Some(l) = un.last_mut() { if l.0 == r.0 && r.1 <= l.2 { l.2 = l.2.max(r.2); continue } } un.push(r) }
        for (o, s, e) in un {
            let mut p = s;
            while p < e {
                let mut done = false;
                for n in [8u32, 4, 2, 1] {
                    if p % n != 0 || p + n > e { continue }
                    let (ab, ac) = self.side_val(a, o, p, n); let (bb, bc) = self.side_val(b, o, p, n);
                    let addr = (o as u64) << 32 | p as u64;
                    let x = Self::whole(&ab, Some(&ac), &self.ts); let y = Self::whole(&bb, Some(&bc), &self.ts);
                    let (x, y) = match (x, y) { (Some(x), Some(y)) => (x, y), _ if n == 1 => {
                        let mut g = |cx: &mut Self, b: u8, c: u64| -> Tv { if c == 0 { Tv::C(b as u64) } else { let (t, i) = cell_t(c); let v = cx.int_view(Tv::T(t)); cx.ts.extract(v, i * 8, 8) } };
                        (g(self, ab[0], ac[0]), g(self, bb[0], bc[0])) } _ => continue };
                    // avoid fusing unrelated concrete bytes with nothing to gain
                    let v = if x == y { x } else {
                        let fx = |s: &Self, v: Tv| matches!(v, Tv::T(t) if s.ts.is_float(t));
                        if n == 8 && (fx(self, x) || fx(self, y)) { let x = self.float_view(x); let y = self.float_view(y); self.ts.fite(c, x, y) } else { self.ts.ite(8 * n, c, x, y) }
                    };
                    self.store(addr, n as u64, v)?;
                    p += n; done = true; break;
                }
                if !done { return fail("merge") }
            }
        }
        // an object freed on both sides is dead; freed on one side only: kept alive
        for o in &a.dead { if b.dead.contains(o) && self.objs[*o as usize].live { if self.jdepth > 0 { self.journal.push(J::Live(*o, true)) } self.objs[*o as usize].live = false } }
        Ok(())
    }
    pub fn push_known(&mut self, l: Lit) {
        if l <= 1 { return }
        let n = l >> 1;
        if self.known.contains_key(&n) { return }
        self.known.insert(n, l & 1 == 0); self.trail.push(n);
        if l & 1 == 0 { if let BNode::And(a, b) = self.ts.b[n as usize] { self.push_known(a); self.push_known(b) } }
    }
    pub fn resolve(&self, l: Lit) -> Lit {
        match self.known.get(&(l >> 1)) { Some(v) => if *v ^ (l & 1 == 1) { TRUE } else { FALSE }, None => {
            if let BNode::And(a, b) = self.ts.b[(l >> 1) as usize] {
                let (a, b) = (self.known.get(&(a >> 1)).map(|v| *v ^ (a & 1 == 1)), self.known.get(&(b >> 1)).map(|v| *v ^ (b & 1 == 1)));
                let v = match (a, b) { (Some(false), _) | (_, Some(false)) => Some(false), (Some(true), Some(true)) => Some(true), _ => None };
                if let Some(v) = v { return if v ^ (l & 1 == 1) { TRUE } else { FALSE } }
            }
            if let BNode::TT(k) = self.ts.b[(l >> 1) as usize] {
                let tb = &self.ts.tts[k as usize];
                // partial evaluation of the table under known bases
                if tb.bases.iter().any(|b| self.known.contains_key(b)) {
                    let (mut any0, mut any1) = (false, false);
                    for r in 0..1usize << tb.bases.len() {
                        if tb.bases.iter().enumerate().any(|(i, b)| matches!(self.known.get(b), Some(v) if *v != (r >> i & 1 == 1))) { continue }
                        if tb.tt[r >> 6] >> (r & 63) & 1 == 1 { any1 = true } else { any0 = true }
                    }
                    if any0 != any1 { return if any1 ^ (l & 1 == 1) { TRUE } else { FALSE } }
                }
            }
            l } }
    }
    fn pop_known(&mut self, n: usize) { while self.trail.len() > n { let x = self.trail.pop().unwrap(); self.known.remove(&x); } }

    fn check_deadline(&mut self) -> Res<()> { if let Some(d) = self.deadline { if Instant::now() > d { return fail("time limit") } } Ok(()) }

    /// multi-way branch; returns either the merged state or the end of the frame
    fn fork(&mut self, fr: &mut Frame, blk: u32, mut arms: Vec<(Lit, u32)>, default: u32, stop: u32) -> Res<End> {
        // drop decided arms
        let mut v = vec![];
        for (l, t) in arms.drain(..) { let l = self.resolve(l); if l == FALSE { continue } if l == TRUE { return if v.is_empty() { self.run(fr, blk, t, stop, false) } else { self.fork2(fr, blk, v, t, stop) } } v.push((l, t)) }
        if v.is_empty() { return self.run(fr, blk, default, stop, false) }
        self.fork2(fr, blk, v, default, stop)
    }
    fn fork2(&mut self, fr: &mut Frame, blk: u32, mut arms: Vec<(Lit, u32)>, default: u32, stop: u32) -> Res<End> {
        let (c, t) = arms.remove(0);
        let rest = if arms.is_empty() { ArmSpec::To(default) } else { ArmSpec::Rest(arms, default) };
        self.st.forks += 1;
        if self.st.forks & 255 == 0 { self.check_deadline()? }
        let n = { let e = fr.loops.entry(blk).or_insert(0); *e += 1; *e };
        if n > 3000 { return fail(format!("symbolic loop bound exceeded in {}", fr.f.name)) }
        let mut c = c;
        if n > 2 {
            // repeated nesting of the same branch: ask whether both sides are possible
            if let Verdict::Unsat = self.refute_here(&[c], false) { self.push_known(c ^ 1); c = FALSE }
            else if let Verdict::Unsat = self.refute_here(&[c ^ 1], false) { self.push_known(c); c = TRUE }
        }
        let r = if c == TRUE { self.run(fr, blk, t, stop, false) } else if c == FALSE { self.arm(fr, blk, &rest, stop) } else { self.fork3(fr, blk, c, t, rest, stop) };
        *fr.loops.get_mut(&blk).unwrap() -= 1;
        r
    }
    fn arm(&mut self, fr: &mut Frame, blk: u32, s: &ArmSpec, stop: u32) -> Res<End> {
        match s { ArmSpec::To(t) => self.run(fr, blk, *t, stop, false), ArmSpec::Rest(a, d) => self.fork(fr, blk, a.clone(), *d, stop) }
    }
    fn fork3(&mut self, fr: &mut Frame, blk: u32, c: Lit, t: u32, rest: ArmSpec, stop: u32) -> Res<End> {
        let trail = self.trail.len();
        let pc0 = self.pc.len();
        // ---- arm A
        let mk = self.mark();
        fr.arms += 1;
        let rj0 = fr.rj.len();
        self.push_known(c); self.pc.push(c);
        let ea = self.run(fr, blk, t, stop, false)?;
        let pa: Vec<Lit> = self.pc.drain(pc0..).skip(1).collect();
        self.pop_known(trail);
        let sa = self.unwind(&mk);
        let mut ra: FxMap<u32, Val> = Default::default();
        while fr.rj.len() > rj0 { let (r, o) = fr.rj.pop().unwrap(); let n = std::mem::replace(&mut fr.regs[r as usize], o); ra.entry(r).or_insert(n); }
        let adead = matches!(ea, End::Dead);
        if adead {
            self.jdepth -= 1; fr.arms -= 1;
            self.pc.push(c ^ 1); self.push_known(c ^ 1);
            return self.arm(fr, blk, &rest, stop);
        }
        // ---- arm B
        self.push_known(c ^ 1); self.pc.push(c ^ 1);
        let eb = self.arm(fr, blk, &rest, stop)?;
        let pb: Vec<Lit> = self.pc.drain(pc0..).skip(1).collect();
        self.pop_known(trail);
        if matches!(eb, End::Dead) {
            self.unwind(&mk);
            self.jdepth -= 1;
            while fr.rj.len() > rj0 { let (r, o) = fr.rj.pop().unwrap(); fr.regs[r as usize] = o; }
            fr.arms -= 1;
            self.apply(&sa);
            for (r, v) in ra { Self::set(fr, r, v) }
            self.pc.push(c); self.push_known(c);
            for l in pa { self.pc.push(l); self.push_known(l) }
            return Ok(ea);
        }
        let sb = self.unwind(&mk);
        let mut rb: FxMap<u32, Val> = Default::default();
        while fr.rj.len() > rj0 { let (r, o) = fr.rj.pop().unwrap(); let n = std::mem::replace(&mut fr.regs[r as usize], o); rb.entry(r).or_insert(n); }
        self.jdepth -= 1; fr.arms -= 1;
        self.merge_mem(c, &sa, &sb)?;
        for l in pa { let x = self.ts.or(c ^ 1, l); if x != TRUE { self.pc.push(x) } }
        for l in pb { let x = self.ts.or(c, l); if x != TRUE { self.pc.push(x) } }
        // ---- registers still live at the join
        if stop != NOBLK {
            let f = fr.f.clone();
            let keys: Vec<u32> = ra.keys().chain(rb.keys()).copied().collect();
            for r in keys {
                let db = f.defblk[r as usize];
                // definition must dominate the join to be used there
                let mut d = stop; let mut dom = false;
                loop { let n = f.dom[d as usize]; if n == NOBLK || n == d { dom = dom || n == db; break } d = n; if d == db { dom = true; break } }
                if !dom { continue }
                let cur = fr.regs[r as usize].clone();
                let x = ra.get(&r).cloned().unwrap_or(cur.clone()); let y = rb.get(&r).cloned().unwrap_or(cur);
                let ty = f.reg_ty[r as usize].clone();
                let v = match self.ite_val(c, &x, &y, &ty) { Ok(v) => v, Err(_) => Val::Agg(Rc::new(vec![])) };
                ra.remove(&r); rb.remove(&r);
                Self::set(fr, r, v);
            }
        }
        match (ea, eb) {
            (End::Reached(x), End::Reached(y)) => {
                let f = fr.f.clone();
                let mut v = vec![];
                for (i, p) in f.blocks[stop as usize].phis.iter().enumerate() { v.push(self.ite_val(c, &x[i], &y[i], &p.ty)?) }
                Ok(End::Reached(v))
            }
            (End::Ret(x), End::Ret(y)) => { let ty = fr.f.ret.clone(); let v = self.ite_val(c, &x, &y, &ty)?; Ok(End::Ret(v)) }
            _ => fail("arms end differently"),
        }
    }
    fn phis(&self, fr: &Frame, f: &Func, pred: u32, blk: u32) -> Res<Vec<Val>> {
        let b = &f.blocks[blk as usize];
        let mut v = Vec::with_capacity(b.phis.len());
        for p in &b.phis { match p.inc.iter().find(|x| x.1 == pred) { Some((o, _)) => v.push(self.ev(fr, o)), None => return fail("phi without edge") } }
        Ok(v)
    }
    fn run(&mut self, fr: &mut Frame, mut pred: u32, mut blk: u32, stop: u32, mut skip_phi: bool) -> Res<End> {
        let f = fr.f.clone();
        loop {
            if blk == stop && !skip_phi { return Ok(End::Reached(self.phis(fr, &f, pred, blk)?)) }
            let b = &f.blocks[blk as usize];
            if !skip_phi && !b.phis.is_empty() { let v = self.phis(fr, &f, pred, blk)?; for (p, x) in b.phis.iter().zip(v) { Self::set(fr, p.dst, x) } }
            skip_phi = false;
            self.st.instrs += b.ins.len() as u64 + 1;
            *self.fcount.get_mut(*self.stack.last().unwrap() as usize).unwrap() += b.ins.len() as u64 + 1;
            for i in &b.ins {
                loop { match self.step(fr, i) {
                    Ok(false) => break,
                    Ok(true) => return Ok(End::Dead),
                    // not executable: fine when no input gets here
                    Err(Stop::Fail(e)) if !self.fail_checked => {
                        if !self.pc.is_empty() && self.check_deadline().is_ok() && matches!(self.refute_here(&[], true), Verdict::Unsat) { return Ok(End::Dead) }
                        self.fail_checked = true;
                        return fail(e);
                    }
                    Err(Stop::Split(n)) if !self.split_checked => {
                        if !self.pc.is_empty() && self.check_deadline().is_ok() && matches!(self.refute_here(&[], false), Verdict::Unsat) { return Ok(End::Dead) }
                        // only one of the cases is possible here
                        let mut one = None;
                        for v in [0, 1] { if one.is_none() && self.check_deadline().is_ok() && matches!(self.refute_here(&[n << 1 | v], false), Verdict::Unsat) { one = Some(n << 1 | (v ^ 1)) } }
                        if let Some(l) = one { if !self.known.contains_key(&n) { self.push_known(l); continue } }
                        self.split_checked = true;
                        return Err(Stop::Split(n));
                    }
                    Err(e) => return Err(e),
                } }
            }
            match &b.term {
                Term::Br(t) => { pred = blk; blk = *t }
                Term::Invoke(t) => { pred = blk; blk = *t }
                Term::Ret(v) => { let v = match v { Some(o) => self.ev(fr, o), None => Val::U }; return Ok(End::Ret(v)) }
                Term::Unreachable => { let d = self.panic("unreachable code".to_string())?; let _ = d; return Ok(End::Dead) }
                Term::Resume => return fail("resume"),
                Term::CBr(c, t, e) => {
                    let cv = self.ev(fr, c);
                    let l = self.lit(&cv)?; let l = self.resolve(l);
                    if l == TRUE || t == e { pred = blk; blk = *t; continue }
                    if l == FALSE { pred = blk; blk = *e; continue }
                    let p = f.ipdom[blk as usize];
                    match self.fork2(fr, blk, vec![(l, *t)], *e, p)? {
                        End::Reached(v) => { if p == stop { return Ok(End::Reached(v)) } for (ph, x) in f.blocks[p as usize].phis.iter().zip(v) { Self::set(fr, ph.dst, x) } pred = blk; blk = p; skip_phi = true; }
                        e => return Ok(e),
                    }
                }
                Term::Switch(v, w, d, cs) => {
                    let x = self.ev(fr, v);
                    match x {
                        Val::I(k) => { let k = k & mask(*w); pred = blk; blk = cs.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*d) }
                        Val::U => { pred = blk; blk = *d }
                        x => {
                            let tv = self.tv(&x)?;
                            let mut arms: Vec<(Lit, u32)> = vec![];
                            for (k, t) in cs { let l = self.ts.icmp(IPred::Eq, *w, tv, Tv::C(*k)); if l == FALSE { continue } if let Some(a) = arms.iter_mut().find(|a| a.1 == *t) { a.0 = self.ts.or(a.0, l) } else { arms.push((l, *t)) } }
                            arms.retain(|a| a.1 != *d);
                            let p = f.ipdom[blk as usize];
                            match self.fork(fr, blk, arms, *d, p)? {
                                End::Reached(v) => { if p == stop { return Ok(End::Reached(v)) } for (ph, x) in f.blocks[p as usize].phis.iter().zip(v) { Self::set(fr, ph.dst, x) } pred = blk; blk = p; skip_phi = true; }
                                e => return Ok(e),
                            }
                        }
                    }
                }
            }
        }
    }
    pub fn call(&mut self, fi: u32, args: Vec<Val>) -> Res<Option<Val>> {
        let f = match self.m.func(fi) { Ok(f) => f, Err(e) => return fail(e) };
        let mut fr = Frame { regs: vec![Val::U; f.nregs as usize], f: f.clone(), rj: vec![], arms: 0, allocas: vec![], loops: Default::default() };
        for ((r, _), a) in f.params.iter().zip(args) { fr.regs[*r as usize] = a }
        self.stack.push(fi);
        if self.stack.len() > 400 { return fail("recursion limit") }
        let e = self.run(&mut fr, NOBLK, 0, NOBLK, false)?;
        self.stack.pop();
        for a in &fr.allocas { self.release((*a as u64) << 32)? }
        Ok(match e { End::Ret(v) => Some(v), End::Dead => None, End::Reached(_) => return fail("reached") })
    }
    // ------------------------------------------------------------ addresses
    /// literal under the current path condition
    fn simp(&mut self, l: Lit) -> Lit {
        let r = self.resolve(l);
        if r <= 1 { return r }
        match self.ts.b[(r >> 1) as usize] {
            BNode::TT(k) => {
                let tb = self.ts.tts[k as usize].clone();
                // other functions of the same bits whose values are known here
                let mut ok = vec![true; 1usize << tb.bases.len()]; let mut any = false;
                for (n, v) in self.trail.iter().rev().take(64).filter_map(|n| self.known.get(n).map(|v| (*n, *v))) {
                    if let BNode::TT(q) = self.ts.b[n as usize] { let o = &self.ts.tts[q as usize];
                        let pos: Vec<usize> = o.bases.iter().filter_map(|x| tb.bases.iter().position(|y| x == y)).collect();
                        if pos.len() == o.bases.len() { any = true; for (k, f) in ok.iter_mut().enumerate() { let row = pos.iter().enumerate().fold(0usize, |a, (i, p)| a | (k >> p & 1) << i); if (o.tt[row >> 6] >> (row & 63) & 1 == 1) != v { *f = false } } } }
                }
                if any {
                    for (i, b) in tb.bases.iter().enumerate() { if let Some(v) = self.known.get(b) { for (k, f) in ok.iter_mut().enumerate() { if (k >> i & 1 == 1) != *v { *f = false } } } }
                    let vals: Vec<bool> = (0..ok.len()).filter(|k| ok[*k]).map(|k| tb.tt[k >> 6] >> (k & 63) & 1 == 1).collect();
                    if !vals.is_empty() && vals.iter().all(|v| *v == vals[0]) { return (if vals[0] { TRUE } else { FALSE }) ^ (r & 1) }
                }
                if !tb.bases.iter().any(|b| self.known.contains_key(b)) { return r }
                let keep: Vec<(usize, u32)> = tb.bases.iter().copied().enumerate().filter(|(_, b)| !self.known.contains_key(b)).collect();
                let mut fixed = 0usize;
                for (i, b) in tb.bases.iter().enumerate() { if let Some(true) = self.known.get(b) { fixed |= 1 << i } }
                let rows: Vec<bool> = (0..1usize << keep.len()).map(|q| { let mut row = fixed; for (j, (i, _)) in keep.iter().enumerate() { if q >> j & 1 == 1 { row |= 1 << i } } tb.tt[row >> 6] >> (row & 63) & 1 == 1 }).collect();
                let bases: Vec<u32> = keep.iter().map(|x| x.1).collect();
                self.ts.lit_from_rows(&bases, &rows) ^ (r & 1)
            }
            BNode::And(a, b) => { let x = self.simp(a); let y = self.simp(b); if x == a && y == b { r } else { self.ts.and(x, y) ^ (r & 1) } }
            BNode::Xor(a, b) => { let x = self.simp(a << 1); let y = self.simp(b << 1); if x == a << 1 && y == b << 1 { r } else { self.ts.xor(x, y) ^ (r & 1) } }
            BNode::Bit(t, i) if matches!(self.ts.t[t as usize], TNode::Op(..)) => { let w = self.ts.width(t); let v = self.simp_val(Tv::T(t), w); if v == Tv::T(t) { r } else { self.ts.bit_of(v, i as u32) ^ (r & 1) } }
            BNode::ICmp(p, w, a, b) => { let x = self.simp_val(a, w as u32); let y = self.simp_val(b, w as u32); if x == a && y == b { r } else { self.ts.icmp(p, w as u32, x, y) ^ (r & 1) } }
            _ => r,
        }
    }
    /// value under the current path condition
    fn simp_val(&mut self, v: Tv, w: u32) -> Tv {
        if self.known.is_empty() { return v }
        if let Tv::T(t) = v { if let TNode::Op(op, ow, a, b) = self.ts.t[t as usize] { let x = self.simp_val(a, ow as u32); let y = self.simp_val(b, ow as u32); return if x == a && y == b { v } else { self.ts.iop(op, ow as u32, x, y) } } }
        match v { Tv::T(t) if matches!(self.ts.t[t as usize], TNode::Bits(_) | TNode::Ite(..)) => { let b = self.ts.bits_of(v, w); let b = b.into_iter().map(|l| self.simp(l)).collect(); self.ts.mk_bits(b) } v => v }
    }
    /// possible concrete values of a term with small support; otherwise the run is split
    fn spread(&mut self, v: Tv, w: u32) -> Res<(Vec<u32>, Vec<u64>)> {
        // a simplified word may have parts that were simplified as something else
        let mut v = v;
        for _ in 0..4 { let x = self.simp_val(v, w); if x == v { break } v = x }
        match self.ts.enumerate(v, w) {
            Some((b, r)) => Ok((b, r.iter().map(|x| *x as u64).collect())),
            None => {
                // bits the value is computed from
                let mut bits = vec![]; let mut st = vec![v]; let mut seen: FxSet<u32> = Default::default();
                while let Some(x) = st.pop() { if let Tv::T(t) = x { if !seen.insert(t) { continue } if let TNode::Op(_, _, a, b) = self.ts.t[t as usize] { st.push(a); st.push(b); continue } let xw = if t == (if let Tv::T(r) = v { r } else { 0 }) { w } else { self.ts.width(t) };
                    for l in self.ts.bits_of(x, xw) { match self.ts.b[(l >> 1) as usize] { BNode::Bit(o, _) if o != t && matches!(self.ts.t[o as usize], TNode::Op(..)) => st.push(Tv::T(o)), _ => bits.push(l) } } } }
                let mut count: Vec<(u32, u32)> = vec![];
                for l in bits { if l <= 1 { continue } let n = l >> 1; let ns = match self.ts.b[n as usize] { BNode::TT(k) => self.ts.tts[k as usize].bases.clone(), _ => vec![n] }; for n in ns { if self.known.contains_key(&n) { continue } match count.iter_mut().find(|c| c.0 == n) { Some(c) => c.1 += 1, None => count.push((n, 1)) } } }
                match count.iter().max_by_key(|c| (c.1, std::cmp::Reverse(c.0))) { Some(c) => { if std::env::var("SYMEX_VERBOSE").is_ok() { eprintln!("split {:?} in {:?}", self.ts.b[c.0 as usize], self.where_()) } Err(Stop::Split(c.0)) } None => fail(format!("symbolic address or size without small support: {}", self.describe(v))) }
            }
        }
    }
    /// a word within a narrow interval that depends on many bits: the run is split by its values
    fn by_value(&mut self, t: Tv, w: u32) -> Res<Option<u64>> {
        if w > 64 { return Ok(None) }
        let t = self.simp_val(t, w);
        if let Tv::C(c) = t { return Ok(Some(c)) }
        let l = match self.lc.lin_i(&mut self.ts, t) { Some(l) if l.finite() && l.lo > -0.5 && l.hi - l.lo <= 400.0 => l, _ => return Ok(None) };
        let mut first = None;
        for k in l.lo.ceil() as u64..=l.hi.floor() as u64 {
            let e = self.ts.icmp(IPred::Eq, w, t, Tv::C(k)); let e = self.resolve(e);
            if e == TRUE { return Ok(Some(k)) }
            if e != FALSE && first.is_none() { first = Some(e >> 1) }
        }
        match first { Some(n) => { if std::env::var("SYMEX_VERBOSE").is_ok() { eprintln!("split(v) {:?} in {:?}", self.ts.b[n as usize], self.where_()) } Err(Stop::Split(n)) } None => Ok(None) }
    }
    pub fn describe(&self, v: Tv) -> String { match v { Tv::C(c) => format!("{}", c), Tv::T(t) => { let s = format!("{:?}", self.ts.t[t as usize]); s.chars().take(200).collect() } } }
    /// concrete value, splitting the run when several are possible
    pub fn concrete(&mut self, v: &Val) -> Res<u64> {
        match v {
            Val::I(c) => Ok(*c), Val::U => Ok(0),
            _ => {
                let t = self.tv(v)?;
                let w = if let Tv::T(t) = t { self.ts.width(t) } else { 64 };
                let (b, r) = match self.spread(t, w) { Err(Stop::Fail(e)) => match self.by_value(t, w)? { Some(k) => return Ok(k), None => return Err(Stop::Fail(e)) }, r => r? };
                let mut vals: Vec<u64> = vec![];
                for (k, x) in r.iter().enumerate() { if b.iter().enumerate().any(|(i, b)| matches!(self.known.get(b), Some(v) if *v != (k >> i & 1 == 1))) { continue } if !vals.contains(x) { vals.push(*x) } }
                if vals.len() == 1 { return Ok(vals[0]) }
                let x = b.iter().find(|x| !self.known.contains_key(x)).copied();
                match x { Some(x) => { if std::env::var("SYMEX_VERBOSE").is_ok() { eprintln!("split(c) {:?} in {:?}", self.ts.b[x as usize], self.where_()) } Err(Stop::Split(x)) } None => fail("no value") }
            }
        }
    }
    /// can the address be `a` here?
    pub fn feasible_row(&mut self, b: &[u32], rows: &[u64], a: u64) -> Res<bool> {
        let r: Vec<bool> = rows.iter().map(|x| *x == a).collect();
        let l = self.ts.lit_from_rows(b, &r);
        self.check_deadline()?;
        Ok(!matches!(self.refute_here(&[l], true), Verdict::Unsat))
    }
    pub fn addr(&mut self, v: &Val) -> Res<Result<u64, (Vec<u32>, Vec<u64>)>> {
        match v { Val::I(a) => Ok(Ok(*a)), Val::U => fail("undef address"), _ => {
            let t = self.tv(v)?;
            let (b, r) = self.spread(t, 64)?;
            // restrict to rows compatible with what is known
            let ok: Vec<bool> = (0..r.len()).map(|k| !b.iter().enumerate().any(|(i, b)| matches!(self.known.get(b), Some(v) if *v != (k >> i & 1 == 1)))).collect();
            let first = match ok.iter().position(|x| *x) { Some(k) => r[k], None => return fail("no address") };
            if r.iter().zip(&ok).all(|(x, o)| !*o || *x == first) { return Ok(Ok(first)) }
            let r: Vec<u64> = r.iter().zip(&ok).map(|(x, o)| if *o { *x } else { first }).collect();
            Ok(Err((b, r)))
        } }
    }
    pub fn shannon(&mut self, bases: &[u32], vals: &[Tv], w: u32, fl: bool) -> Tv {
        if vals.iter().all(|v| *v == vals[0]) { return vals[0] }
        let k = bases.len() - 1; let h = vals.len() / 2;
        let lo = self.shannon(&bases[..k], &vals[..h], w, fl); let hi = self.shannon(&bases[..k], &vals[h..], w, fl);
        if fl { self.ts.fite(bases[k] << 1, hi, lo) } else { self.ts.ite(w, bases[k] << 1, hi, lo) }
    }
    fn load_val(&mut self, p: &Val, ty: &Ty) -> Res<Val> {
        if ty.is_agg() {
            let a = self.concrete(p)?;
            let mut v = vec![];
            for i in 0..ty.count() { v.push(self.load_val(&Val::I(a + ty.field_off(i)), &ty.elem(i))?) }
            return Ok(Val::Agg(Rc::new(v)));
        }
        let n = ty.store_size();
        let tv = match self.addr(p)? {
            Ok(a) => self.load(a, n)?,
            Err((b, rows)) => {
                let mut vals = vec![]; let mut fl = false;
                let allrows = rows.clone();
                let continue_row = |vals: &Vec<Tv>| vals.last().copied().unwrap_or(Tv::C(0));
                let mut memo: FxMap<u64, Tv> = Default::default();
                for a in rows { let v = match memo.get(&a) { Some(v) => *v, None => { let v = match self.load(a, n) { Ok(v) => v, Err(e) => { if self.feasible_row(&b, &allrows, a)? { return Err(e) } continue_row(&vals) } }; memo.insert(a, v); v } }; if let Tv::T(t) = v { if self.ts.is_float(t) { fl = true } } vals.push(v) }
                if fl { for v in vals.iter_mut() { *v = self.float_view(*v) } }
                self.shannon(&b, &vals, 8 * n as u32, fl)
            }
        };
        self.from_mem(tv, ty)
    }
    fn from_mem(&mut self, tv: Tv, ty: &Ty) -> Res<Val> {
        Ok(match ty {
            Ty::F64 => tvv(self.float_view(tv)),
            Ty::I(1) => { let iv = self.int_view(tv); lit_val(self.ts.bit_of(iv, 0)) }
            Ty::I(w) if *w > 64 => { match tv { Tv::C(c) => Val::W(Rc::new(c as u128)), Tv::T(t) => { if let TNode::Bits(b) = &self.ts.t[t as usize] { if b.iter().all(|l| *l <= 1) { let mut x = 0u128; for (i, l) in b.iter().enumerate() { if *l == TRUE { x |= 1 << i } } return Ok(Val::W(Rc::new(x))) } } Val::T(t) } } }
            Ty::I(w) => { let iv = self.int_view(tv); if *w as u64 != 8 * ty.store_size() { tvv(self.ts.trunc(iv, *w)) } else { tvv(iv) } }
            Ty::Ptr => tvv(self.int_view(tv)),
            Ty::F32 => match tv { Tv::C(c) => Val::I(c), _ => return fail("symbolic f32") },
            t => return fail(format!("load {:?}", t)),
        })
    }
    fn store_val(&mut self, p: &Val, v: &Val, ty: &Ty) -> Res<()> {
        if ty.is_agg() {
            let a = self.concrete(p)?;
            if let Val::Agg(x) = v { let x = x.clone(); for i in 0..ty.count() { self.store_val(&Val::I(a + ty.field_off(i)), &x[i], &ty.elem(i))? } }
            return Ok(());
        }
        if let Val::U = v { return Ok(()) }
        let n = ty.store_size();
        if let Val::W(x) = v { let a = self.concrete(p)?; self.store(a, 8, Tv::C(**x as u64))?; return self.store(a + 8, 8, Tv::C((**x >> 64) as u64)) }
        let tv = self.tv(v)?;
        match self.addr(p)? {
            Ok(a) => if n == 16 { let lo = if let Tv::T(_) = tv { self.ts.extract(tv, 0, 64) } else { tv }; let hi = if let Tv::T(_) = tv { self.ts.extract(tv, 64, 64) } else { Tv::C(0) }; self.store(a, 8, lo)?; self.store(a + 8, 8, hi) } else { self.store(a, n, tv) },
            Err((b, rows)) => {
                let mut ad: Vec<u64> = rows.clone(); ad.sort_unstable(); ad.dedup();
                for a in ad {
                    let r: Vec<bool> = rows.iter().map(|x| *x == a).collect();
                    let c = self.ts.lit_from_rows(&b, &r);
                    let old = match self.load(a, n) { Ok(v) => v, Err(e) => { if self.feasible_row(&b, &rows, a)? { return Err(e) } continue } };
                    let fl = n == 8 && [old, tv].iter().any(|v| matches!(v, Tv::T(t) if self.ts.is_float(*t)));
                    let nv = if fl { let x = self.float_view(tv); let y = self.float_view(old); self.ts.fite(c, x, y) } else { self.ts.ite(8 * n as u32, c, tv, old) };
                    self.store(a, n, nv)?;
                }
                Ok(())
            }
        }
    }
    // ------------------------------------------------------------ queries
    /// is the conjunction impossible here?
    pub fn refute_here(&mut self, ls: &[Lit], deep: bool) -> Verdict {
        self.lc.clear_if_big();
        let mut a: Vec<Lit> = ls.to_vec();
        if let Verdict::Unsat = self.sv.refute(&mut self.ts, &mut self.lc, &a, false) { return Verdict::Unsat }
        if self.pc.is_empty() { return if deep { self.sv.refute(&mut self.ts, &mut self.lc, &a, true) } else { Verdict::Unknown } }
        let rel = self.relevant(ls);
        a.extend(rel);
        self.sv.refute(&mut self.ts, &mut self.lc, &a, deep)
    }
    fn var_support(&self, roots: &[Lit]) -> FxSet<u32> {
        let mut out: FxSet<u32> = Default::default(); let mut sb: FxSet<u32> = Default::default(); let mut st: FxSet<u32> = Default::default();
        let mut wb: Vec<u32> = roots.iter().map(|l| l >> 1).collect(); let mut wt: Vec<u32> = vec![];
        loop {
            if let Some(n) = wb.pop() {
                if !sb.insert(n) { continue }
                let mut pv = |v: Tv| if let Tv::T(t) = v { wt.push(t) };
                match self.ts.b[n as usize] { BNode::True => {} BNode::Bit(t, _) => wt.push(t), BNode::Xor(a, b) => { wb.push(a); wb.push(b) } BNode::And(a, b) => { wb.push(a >> 1); wb.push(b >> 1) } BNode::TT(k) => wb.extend(self.ts.tts[k as usize].bases.iter().copied()), BNode::ICmp(_, _, a, b) => { pv(a); pv(b) } BNode::FCmp(_, a, b) => { pv(a); pv(b) } }
                continue;
            }
            if let Some(t) = wt.pop() {
                if !st.insert(t) { continue }
                let mut pv = |v: &Tv| if let Tv::T(t) = v { wt.push(*t) };
                match &self.ts.t[t as usize] {
                    TNode::Var { idx, .. } | TNode::FVar { idx, .. } => { out.insert(*idx); }
                    TNode::Bits(b) => wb.extend(b.iter().filter(|l| **l > 1).map(|l| l >> 1)),
                    TNode::Op(_, _, a, b) | TNode::FBin(_, a, b) | TNode::FCall(_, a, b) => { pv(a); pv(b) }
                    TNode::Ite(_, c, a, b) | TNode::FIte(c, a, b) => { wb.push(c >> 1); pv(a); pv(b) }
                    TNode::F2I { f, .. } | TNode::FBits(f) | TNode::FFromBits(f) | TNode::FUn(_, f) => wt.push(*f),
                    TNode::I2F { t, .. } => wt.push(*t),
                }
                continue;
            }
            return out;
        }
    }
    /// path conditions that share inputs with the given literals
    fn relevant(&self, ls: &[Lit]) -> Vec<Lit> {
        if self.pc.len() <= 24 || ls.is_empty() { return self.pc.clone() }
        let mut s = self.var_support(ls);
        let sup: Vec<(Lit, FxSet<u32>)> = self.pc.iter().map(|l| (*l, self.var_support(&[*l]))).collect();
        let mut used = vec![false; sup.len()];
        loop {
            let mut ch = false;
            for (i, (_, v)) in sup.iter().enumerate() { if !used[i] && v.iter().any(|x| s.contains(x)) { used[i] = true; ch = true; s.extend(v.iter().copied()) } }
            if !ch { break }
        }
        sup.iter().zip(used).filter(|x| x.1).map(|x| x.0 .0).collect()
    }
    fn default_val(v: &VarInfo, seed: u64) -> u64 {
        let mut z = seed.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb); z ^= z >> 31;
        if v.kind == 1 { let (l, h) = (f64::from_bits(v.lo), f64::from_bits(v.hi)); (l + (h - l) * ((z >> 11) as f64 / (1u64 << 53) as f64)).to_bits() }
        else { let span = v.hi.wrapping_sub(v.lo).wrapping_add(1); if span == 0 { z } else { v.lo + z % span } }
    }
    /// exact evaluation of all literals
    fn holds(&self, vals: &[u64], ls: &[Lit]) -> bool { let mut e = Eval::new(&self.ts, vals); ls.iter().all(|l| e.lit(*l)) }
    /// concrete inputs that satisfy all literals and the path condition, checked exactly
    pub fn find_model(&mut self, ls: &[Lit], seed: u64) -> Option<Vec<u64>> {
        let mut all: Vec<Lit> = ls.to_vec(); all.extend(self.pc.iter().copied());
        let clampv = |v: &VarInfo, x: u64| if v.kind == 1 { f64::from_bits(x).clamp(f64::from_bits(v.lo), f64::from_bits(v.hi)).to_bits() } else { x.clamp(v.lo, v.hi) };
        // random inputs first: cheap and frequently enough
        for s in 0..6u64 {
            let vals: Vec<u64> = self.vars.iter().enumerate().map(|(i, v)| match s { 0 => Self::default_val(v, seed ^ (i as u64) << 20), 1 => v.lo, 2 => v.hi, 3 => if v.kind == 1 { 0f64.max(f64::from_bits(v.lo)).min(f64::from_bits(v.hi)).to_bits() } else { v.lo + (v.hi - v.lo) / 2 }, _ => Self::default_val(v, seed ^ s << 50 ^ (i as u64) << 20) }).collect();
            if self.holds(&vals, &all) { return Some(vals) }
        }
        let rel = self.relevant(ls);
        let mut q: Vec<Lit> = ls.to_vec(); q.extend(rel);
        let cfgs = [
            Cfg { cut: false, full_int: true, rad: 0.0, margin: 0.0, seed: 0 },
            Cfg { cut: false, full_int: true, rad: 0.0, margin: 1e-6, seed: 0 },
            Cfg { cut: false, full_int: true, rad: 0.0, margin: 1e-3, seed: 7 },
            Cfg { cut: false, full_int: false, rad: 0.0, margin: 1e-3, seed: 0 },
            Cfg { cut: false, full_int: true, rad: 0.0, margin: 0.02, seed: 11 },
            Cfg { cut: false, full_int: false, rad: 0.0, margin: 0.05, seed: 3 },
            Cfg { cut: false, full_int: false, rad: 0.0, margin: 0.2, seed: 5 },
        ];
        for (k, cfg) in cfgs.iter().enumerate() {
            if self.check_deadline().is_err() { return None }
            if let Verdict::Sat(m) = self.sv.query(&mut self.ts, &mut self.lc, &q, *cfg, true) {
                for s in 0..3u64 {
                    let mut vals: Vec<u64> = self.vars.iter().enumerate().map(|(i, v)| match s { 0 => Self::default_val(v, seed ^ 77 ^ (i as u64) << 20), 1 => v.lo, _ => if v.kind == 1 { v.lo } else { v.lo + (v.hi - v.lo) / 2 } }).collect();
                    for (i, x) in &m { let i = *i as usize; vals[i] = clampv(&self.vars[i], *x) }
                    if self.holds(&vals, &all) { return Some(vals) }
                    // small perturbations around the model
                    if s == 0 { for p in 1..40u64 {
                        let mut v2 = vals.clone();
                        for (i, _) in &m { let i = *i as usize; let r = Self::default_val(&VarInfo { kind: 0, w: 64, lo: 0, hi: 1 << 40, term: 0 }, p << 32 ^ i as u64 ^ (k as u64) << 50);
                            let v = &self.vars[i];
                            if v.kind == 1 { let x = f64::from_bits(v2[i]); let d = [1e-12, 1e-9, 1e-6, 1e-3][(p % 4) as usize]; v2[i] = clampv(v, (x + x.abs().max(1.0) * d * ((r % 3) as f64 - 1.0)).to_bits()) }
                            else if r % 5 == 0 { let d = (r / 5 % 3) as i64 - 1; v2[i] = clampv(v, (v2[i] as i64).saturating_add(d).max(0) as u64) } }
                        if self.holds(&v2, &all) { return Some(v2) }
                    } }
                }
            }
        }
        None
    }
    /// inputs reaching this point
    pub fn witness(&mut self, seed: u64) -> Option<Vec<u64>> { self.find_model(&[], seed) }

    pub fn where_(&self) -> Vec<String> { self.stack.iter().rev().take(6).map(|i| demangle(&self.m.funcs[*i as usize].name)).collect() }
    /// a panic (or unreachable code) is reached on the current path
    pub fn panic(&mut self, what: String) -> Res<()> {
        self.st.panics_reached += 1;
        if self.expect_panic { self.panic_seen = true; if self.panic_pc.is_none() { self.panic_pc = Some(self.pc.clone()) } return Ok(()) }
        let pc = self.pc.clone();
        let recent: Vec<Lit> = pc.last().copied().into_iter().collect();
        let v = self.sv.refute(&mut self.ts, &mut self.lc, &recent, false);
        if matches!(v, Verdict::Unsat) && !recent.is_empty() { self.st.panic_refuted += 1; return Ok(()) }
        let v = self.refute_here(&recent, true);
        if matches!(v, Verdict::Unsat) && !recent.is_empty() { self.st.panic_refuted += 1; return Ok(()) }
        self.violation(format!("panic: {}", what), &[])
    }
    fn violation(&mut self, what: String, extra: &[Lit]) -> Res<()> {
        if let Some(m) = self.find_model(extra, 1) { self.found = Some((format!("{} at {}", what, self.where_().join(" < ")), m)); return Err(Stop::Found) }
        let stack = self.where_();
        if std::env::var("SYMEX_VERBOSE").is_ok() { eprintln!("unresolved: {} {:?}", what, stack); for l in extra { self.dbg_lit(*l) } }
        self.unresolved.push(Candidate { what, stack, verdict: "unresolved" });
        if self.unresolved.len() > 20 { return fail("too many unresolved obligations") }
        Ok(())
    }
    fn dbg_lit(&mut self, l: Lit) {
        let n = self.ts.b[(l >> 1) as usize].clone();
        eprintln!("  lit {} {:?}", l & 1, n);
        match n {
            BNode::ICmp(_, _, a, b) => for v in [a, b] { self.dbg_term(v, 0); let d = self.describe(v); let li = self.lc.lin_i(&mut self.ts, v); eprintln!("    {} {:?}", d, li) },
            BNode::FCmp(_, a, b) => for v in [a, b] { let d = self.describe(v); let li = self.lc.lin_f(&mut self.ts, v); eprintln!("    {} {:?}", d, format!("{:?}", li).chars().take(600).collect::<String>()) },
            _ => {}
        }
    }
    fn dbg_term(&mut self, v: Tv, d: usize) {
        let t = match v { Tv::T(t) if d < 6 => t, _ => return };
        let n = self.ts.t[t as usize].clone();
        eprintln!("{}T{} {}", "  ".repeat(d + 3), t, format!("{:?}", n).chars().take(160).collect::<String>());
        match n {
            TNode::Op(_, _, a, b) | TNode::Ite(_, _, a, b) | TNode::FBin(_, a, b) | TNode::FIte(_, a, b) => { self.dbg_term(a, d + 1); self.dbg_term(b, d + 1) }
            TNode::Bits(b) => { eprintln!("{}  {:?} alt {:?}", "  ".repeat(d + 3), b.iter().take(8).map(|l| (l & 1, self.ts.b[(*l >> 1) as usize].clone())).collect::<Vec<_>>(), self.ts.alt.get(&t)); if let BNode::Bit(s, _) = self.ts.b[(b[0] >> 1) as usize] { self.dbg_term(Tv::T(s), d + 1) } }
            TNode::F2I { f, .. } | TNode::FUn(_, f) => self.dbg_term(Tv::T(f), d + 1),
            TNode::I2F { t, .. } => self.dbg_term(Tv::T(t), d + 1),
            _ => {}
        }
    }
    pub fn check(&mut self, l: Lit, id: u32) -> Res<()> {
        self.st.checks += 1;
        *self.check_names.entry(id).or_insert(0) += 1;
        let l = self.resolve(l);
        if l == TRUE { self.st.checks_structural += 1; return Ok(()) }
        self.check_deadline()?;
        match self.refute_here(&[l ^ 1], true) {
            Verdict::Unsat => { self.st.checks_solver += 1; self.pc_fact(l); Ok(()) }
            _ => { self.violation(format!("check {}", id), &[l ^ 1])?; Ok(()) }
        }
    }
    fn pc_fact(&mut self, _l: Lit) {}
    /// the same decision by the solver, for comparisons made by the property itself
    fn confirm(&mut self, p: FPred, l: Tv, r: Tv, v: bool) {
        if self.st.confirm_tried >= 400 || self.sv.stats.time > 60.0 { return }
        self.st.confirm_tried += 1;
        let raw = self.ts.mkb(BNode::FCmp(p, l, r)) << 1 | v as u32;
        if matches!(self.sv.query(&mut self.ts, &mut self.lc, &[raw], LV0, false), Verdict::Unsat) || matches!(self.sv.compare(&mut self.ts, &mut self.lc, p, l, r, v), Verdict::Unsat) { self.st.confirmed += 1 }
    }
    /// the same for comparisons of integers: one query for all of them
    pub fn confirm_int(&mut self, cs: &[(IPred, u32, Tv, Tv, bool)]) {
        if self.st.confirm_tried >= 150 || self.sv.stats.time > 60.0 { return }
        let mut any = FALSE;
        for (p, w, a, b, v) in cs {
            if let (Tv::C(_), Tv::C(_)) = (a, b) { continue }
            let raw = self.ts.mkb(BNode::ICmp(*p, *w as u8, *a, *b)) << 1 | *v as u32;
            any = self.ts.or(any, raw);
        }
        if any == FALSE { return }
        self.st.confirm_tried += 1;
        if matches!(self.sv.query(&mut self.ts, &mut self.lc, &[any], LV0, false), Verdict::Unsat) { self.st.confirmed += 1 }
    }
    // ------------------------------------------------------------ lemma for float comparisons
    fn decide_fcmp(&mut self, l: Lit) -> Lit {
        if !self.lemma || l <= 1 { return l }
        let n = l >> 1;
        let (a, b) = match self.ts.b[n as usize] { BNode::FCmp(_, a, b) => (a, b), _ => return l };
        // literals and number of bases in the cone
        let mut lits: Vec<u32> = vec![]; let mut seen: FxSet<u64> = Default::default();
        let mut work: Vec<u64> = vec![];
        for v in [a, b] { let x = self.lc.lin_f(&mut self.ts, v); work.extend(x.terms.iter().map(|t| t.0)); }
        while let Some(k) = work.pop() {
            if !seen.insert(k) { continue }
            if seen.len() > 6000 { return l }
            let id = (k & 0xffff_ffff) as u32;
            match k >> 32 {
                2 => { if !lits.contains(&id) { lits.push(id) } if lits.len() > 1 { if std::env::var("SYMEX_LEMMA").is_ok() { for x in &lits { if let BNode::Bit(t, _) = self.ts.b[*x as usize] { let d = self.describe(Tv::T(t)); let li = self.lc.lin_i(&mut self.ts, Tv::T(t)); eprintln!("{} {:?}", d, li); if let TNode::Op(_, _, a, b) = self.ts.t[t as usize] { for v in [a, b] { let d = self.describe(v); let li = self.lc.lin_i(&mut self.ts, v); let al = if let Tv::T(q) = v { self.ts.alt.get(&q).copied() } else { None }; eprintln!("  {} {:?} {:?}", d, li, al) } } } } eprintln!("too many lits {:?}", lits.iter().map(|x| format!("{:?}", self.ts.b[*x as usize])).collect::<Vec<_>>()); self.dbg_lit(l) } return l } }
                1 => { let src = match self.ts.t[id as usize] { TNode::FUn(_, a) => a, TNode::F2I { f, .. } => f, _ => continue }; let x = self.lc.lin_f(&mut self.ts, Tv::T(src)); work.extend(x.terms.iter().map(|t| t.0)); }
                _ => match self.ts.t[id as usize].clone() {
                    TNode::FIte(c, a, b) => { let c = c >> 1; if !lits.contains(&c) { lits.push(c) } if lits.len() > 1 { return l } for v in [a, b] { let x = self.lc.lin_f(&mut self.ts, v); work.extend(x.terms.iter().map(|t| t.0)); } }
                    TNode::F2I { f, .. } => { let x = self.lc.lin_f(&mut self.ts, Tv::T(f)); work.extend(x.terms.iter().map(|t| t.0)); }
                    TNode::FUn(_, a) => { let x = self.lc.lin_f(&mut self.ts, Tv::T(a)); work.extend(x.terms.iter().map(|t| t.0)); }
                    TNode::Ite(_, c, ..) => { let c = c >> 1; if !lits.contains(&c) { lits.push(c) } if lits.len() > 1 { return l } }
                    _ => {}
                },
            }
        }
        self.st.lemmas += 1;
        if std::env::var("SYMEX_LEMMA").is_ok() { eprintln!("lemma lits {:?} seen {} {:?}", lits, seen.len(), seen.iter().map(|k| (k >> 32, match k >> 32 { 2 => format!("{:?}", self.ts.b[(k & 0xffffffff) as usize]), _ => format!("{:?}", self.ts.t[(k & 0xffffffff) as usize]) })).collect::<Vec<_>>()); self.dbg_lit(l); }
        let q = |s: &mut Self, a: &[Lit]| { let v = s.sv.query(&mut s.ts, &mut s.lc, a, LV0, false); if std::env::var("SYMEX_LEMMA").is_ok() { eprintln!("  verdict {:?}", v) } matches!(v, Verdict::Unsat) };
        if lits.is_empty() {
            if seen.len() > 2500 { return l }
            if q(self, &[l]) { self.st.lemma_hits += 1; return FALSE }
            if q(self, &[l ^ 1]) { self.st.lemma_hits += 1; return TRUE }
            return l;
        }
        let c = lits[0] << 1;
        if q(self, &[c, l ^ 1]) {
            if q(self, &[c ^ 1, l]) { self.st.lemma_hits += 1; return c }
            if q(self, &[c ^ 1, l ^ 1]) { self.st.lemma_hits += 1; return TRUE }
        } else if q(self, &[c, l]) {
            if q(self, &[c ^ 1, l ^ 1]) { self.st.lemma_hits += 1; return c ^ 1 }
            if q(self, &[c ^ 1, l]) { self.st.lemma_hits += 1; return FALSE }
        }
        l
    }
    pub fn fcmp(&mut self, code: u8, a: Tv, b: Tv) -> Res<Lit> {
        if let (Tv::C(x), Tv::C(y)) = (a, b) {
            let (x, y) = (f64::from_bits(x), f64::from_bits(y));
            let un = x.is_nan() || y.is_nan();
            let r = match code { 0 => false, 1 => x == y, 2 => x > y, 3 => x >= y, 4 => x < y, 5 => x <= y, 6 => !un && x != y, 7 => !un, 8 => un, 9 => un || x == y, 10 => un || x > y, 11 => un || x >= y, 12 => un || x < y, 13 => un || x <= y, 14 => un || x != y, _ => true };
            return Ok(if r { TRUE } else { FALSE });
        }
        let a = self.float_view(a); let b = self.float_view(b);
        let x = self.lc.lin_f(&mut self.ts, a); let y = self.lc.lin_f(&mut self.ts, b);
        let cinf = |v: Tv| matches!(v, Tv::C(c) if f64::from_bits(c).is_infinite());
        if !(x.finite() || cinf(a)) || !(y.finite() || cinf(b)) { return fail(format!("comparison of possibly non-finite values: {} ; {}", self.describe(a), self.describe(b))) }
        match code { 0 => return Ok(FALSE), 7 => return Ok(TRUE), 8 => return Ok(FALSE), 15 => return Ok(TRUE), _ => {} }
        if cinf(a) || cinf(b) {
            let (fa, fb) = (if let Tv::C(c) = a { f64::from_bits(c) } else { 0.0 }, if let Tv::C(c) = b { f64::from_bits(c) } else { 0.0 });
            let r = match code { 1 | 9 => fa == fb, 2 | 10 => fa > fb, 3 | 11 => fa >= fb, 4 | 12 => fa < fb, 5 | 13 => fa <= fb, _ => fa != fb };
            return Ok(if r { TRUE } else { FALSE });
        }
        // structural and interval decisions
        if a == b { return Ok(match code { 1 | 3 | 5 | 9 | 11 | 13 => TRUE, _ => FALSE }) }
        let (p, l, r, neg) = match code { 1 | 9 => (FPred::Eq, a, b, false), 6 | 14 => (FPred::Eq, a, b, true), 2 | 10 => (FPred::Lt, b, a, false), 3 | 11 => (FPred::Le, b, a, false), 4 | 12 => (FPred::Lt, a, b, false), _ => (FPred::Le, a, b, false) };
        let (xl, xr) = if l == a { (x, y) } else { (y, x) };
        let d = self.lc.comb(&mut self.ts, &xl, -1.0, &xr);
        let known = match p { FPred::Lt => if d.hi < 0.0 || xl.hi < xr.lo { Some(true) } else if d.lo >= 0.0 && (d.lo > 0.0 || d.rad == 0.0) || xl.lo >= xr.hi { Some(false) } else { None }, FPred::Le => if d.hi < 0.0 || xl.hi <= xr.lo { Some(true) } else if d.lo > 0.0 || xl.lo > xr.hi { Some(false) } else { None }, FPred::Eq => if d.lo > 0.0 || d.hi < 0.0 { Some(false) } else { None } };
        if known.is_some() && self.stack.len() == 1 { self.confirm(p, l, r, known.unwrap()) }
        let lit = match known { Some(k) => if k { TRUE } else { FALSE }, None => {
            let ident = d.terms.is_empty() && d.rad == 0.0;
            if ident { match p { FPred::Lt => if d.c0 < 0.0 { TRUE } else { FALSE }, FPred::Le => if d.c0 <= 0.0 { TRUE } else { FALSE }, FPred::Eq => if d.c0 == 0.0 { TRUE } else { FALSE } } }
            else { let raw = self.ts.mkb(BNode::FCmp(p, l, r)) << 1; if let Some(k) = self.ts.subst(raw) { k } else { let v = self.decide_fcmp(raw); if v != raw { self.ts.set_subst(raw >> 1, v) } v } } } };
        Ok(if neg { lit ^ 1 } else { lit })
    }
    // ------------------------------------------------------------ instructions; Ok(true) = path ends
    fn step(&mut self, fr: &mut Frame, i: &Ins) -> Res<bool> {
        match i {
            Ins::Bin(d, op, w, a, b) => { let x = self.ev(fr, a); let y = self.ev(fr, b); let v = self.bin(*op, *w, &x, &y)?; Self::set(fr, *d, v) }
            Ins::FBin(d, op, a, b, single) => {
                let x = self.ev(fr, a); let y = self.ev(fr, b);
                let v = match (&x, &y) {
                    (Val::I(p), Val::I(q)) => if *single { let (p, q) = (f32::from_bits(*p as u32), f32::from_bits(*q as u32)); Val::I(match op { FB::Add => p + q, FB::Sub => p - q, FB::Mul => p * q, FB::Div => p / q, FB::Rem => p % q }.to_bits() as u64) } else { let (p, q) = (f64::from_bits(*p), f64::from_bits(*q)); Val::I(match op { FB::Add => p + q, FB::Sub => p - q, FB::Mul => p * q, FB::Div => p / q, FB::Rem => p % q }.to_bits()) },
                    _ => { if *single { return fail("symbolic f32") } let p = self.tv(&x)?; let q = self.tv(&y)?; let p = self.float_view(p); let q = self.float_view(q); tvv(self.fbin(match op { FB::Add => FOp::Add, FB::Sub => FOp::Sub, FB::Mul => FOp::Mul, FB::Div => FOp::Div, FB::Rem => FOp::Rem }, p, q)) }
                };
                Self::set(fr, *d, v)
            }
            Ins::FNeg(d, a, single) => { let x = self.ev(fr, a); let v = match x { Val::I(c) => Val::I(if *single { c ^ 0x8000_0000 } else { c ^ (1 << 63) }), x => { let t = self.tv(&x)?; let t = self.float_view(t); tvv(self.fun(FUn::Neg, t)) } }; Self::set(fr, *d, v) }
            Ins::ICmp(d, p, w, a, b) => {
                let x = self.ev(fr, a); let y = self.ev(fr, b);
                let (pr, sw, neg) = match p { IP::Eq => (IPred::Eq, false, false), IP::Ne => (IPred::Eq, false, true), IP::Ult => (IPred::Ult, false, false), IP::Ule => (IPred::Ule, false, false), IP::Ugt => (IPred::Ult, true, false), IP::Uge => (IPred::Ule, true, false), IP::Slt => (IPred::Slt, false, false), IP::Sle => (IPred::Sle, false, false), IP::Sgt => (IPred::Slt, true, false), IP::Sge => (IPred::Sle, true, false) };
                let (x, y) = if sw { (y, x) } else { (x, y) };
                let l = if let (Val::I(p), Val::I(q)) = (&x, &y) { if apply_ipred(pr, *w, *p as u128, *q as u128) { TRUE } else { FALSE } }
                else if *w == 1 && pr == IPred::Eq { let p = self.lit(&x)?; let q = self.lit(&y)?; self.ts.xor(p, q) ^ 1 }
                else if let (Some(p), Some(q)) = (self.wide(&x, *w)?, self.wide(&y, *w)?) { if apply_ipred(pr, *w, p, q) { TRUE } else { FALSE } }
                else { let l = self.icmp(pr, *w, &x, &y)?; if l <= 1 && self.stack.len() == 1 && *w <= 64 { let a = self.tv(&x)?; let b = self.tv(&y)?; let (a, b) = (self.int_view(a), self.int_view(b)); self.confirm_int(&[(pr, *w, a, b, l == TRUE)]) } l };
                let l = if neg { l ^ 1 } else { l };
                Self::set(fr, *d, lit_val(l))
            }
            Ins::FCmp(d, c, a, b, single) => {
                let x = self.ev(fr, a); let y = self.ev(fr, b);
                let (x, y) = (self.tv(&x)?, self.tv(&y)?);
                let l = if *single { match (x, y) { (Tv::C(p), Tv::C(q)) => self.fcmp(*c, Tv::C((f32::from_bits(p as u32) as f64).to_bits()), Tv::C((f32::from_bits(q as u32) as f64).to_bits()))?, _ => return fail("symbolic f32") } } else { self.fcmp(*c, x, y)? };
                Self::set(fr, *d, lit_val(l))
            }
            Ins::Select(d, c, a, b, ty) => { let cv = self.ev(fr, c); let l = self.lit(&cv)?; let l = self.resolve(l); let v = if l == TRUE { self.ev(fr, a) } else if l == FALSE { self.ev(fr, b) } else { let x = self.ev(fr, a); let y = self.ev(fr, b); self.ite_val(l, &x, &y, ty)? }; Self::set(fr, *d, v) }
            Ins::Cast(d, c, f, t, v) => { let x = self.ev(fr, v); let r = self.cast(*c, f, t, x)?; Self::set(fr, *d, r) }
            Ins::Load(d, ty, p) => { let a = self.ev(fr, p); let v = self.load_val(&a, ty)?; Self::set(fr, *d, v) }
            Ins::Store(ty, v, p) => { let a = self.ev(fr, p); let x = self.ev(fr, v); self.store_val(&a, &x, ty)? }
            Ins::Gep(d, b, off, idx) => {
                let base = self.ev(fr, b);
                let v = match base {
                    Val::I(a) => { let mut a = a.wrapping_add(*off as u64); let mut sym: Option<Tv> = None;
                        for (o, w, s) in idx { match self.ev(fr, o) { Val::I(k) => a = a.wrapping_add((sext(k, *w)).wrapping_mul(*s) as u64), Val::U => {} x => { let t = self.tv(&x)?; let t = if *w < 64 { self.ts.sext(t, *w, 64) } else { t }; let m = self.ts.iop(IOp::Mul, 64, t, Tv::C(*s as u64)); sym = Some(match sym { None => m, Some(y) => self.ts.iop(IOp::Add, 64, y, m) }) } } }
                        match sym { None => Val::I(a), Some(t) => tvv(self.ts.iop(IOp::Add, 64, t, Tv::C(a))) } }
                    Val::U => Val::U,
                    x => { let mut t = self.tv(&x)?; t = self.ts.iop(IOp::Add, 64, t, Tv::C(*off as u64));
                        for (o, w, s) in idx { let k = self.ev(fr, o); let k = self.tv(&k)?; let k = if *w < 64 { self.ts.sext(k, *w, 64) } else { k }; let m = self.ts.iop(IOp::Mul, 64, k, Tv::C(*s as u64)); t = self.ts.iop(IOp::Add, 64, t, m) }
                        tvv(t) }
                };
                Self::set(fr, *d, v)
            }
            Ins::Call { dst, ret, callee, args, .. } => {
                let fi = match callee { Callee::Sym(s) => *s, Callee::Ind(o) => { let p = self.ev(fr, o); let a = self.concrete(&p)?; let id = a >> 32; if id < FUNC_BASE || a & 0xffff_ffff != 0 { return fail(format!("indirect call to {:x}", a)) } (id - FUNC_BASE) as u32 } };
                let av: Vec<Val> = args.iter().map(|(_, o)| self.ev(fr, o)).collect();
                match self.invoke(fr, fi, av, args, ret)? { Some(v) => if let Some(d) = dst { Self::set(fr, *d, v) }, None => return Ok(true) }
            }
            Ins::Extract(d, v, ix, _) => { let mut x = self.ev(fr, v); for k in ix { x = match x { Val::Agg(a) if *k < a.len() => a[*k].clone(), Val::U => Val::U, _ => return fail("extractvalue") } } Self::set(fr, *d, x) }
            Ins::Insert(d, v, e, ix, ty) => {
                let x = self.ev(fr, v); let e = self.ev(fr, e);
                fn ins(x: Val, e: Val, ix: &[usize], ty: &Ty) -> Val { if ix.is_empty() { return e } let mut a = match x { Val::Agg(a) => (*a).clone(), _ => vec![Val::U; ty.count()] }; let k = ix[0]; let o = std::mem::replace(&mut a[k], Val::U); a[k] = ins(o, e, &ix[1..], &ty.elem(k)); Val::Agg(Rc::new(a)) }
                let v = ins(x, e, ix, ty);
                Self::set(fr, *d, v)
            }
            Ins::Alloca(d, sz, n) => { let n = self.ev(fr, n); let n = self.concrete(&n)?; let a = self.alloc(sz * n)?; fr.allocas.push((a >> 32) as u32); Self::set(fr, *d, Val::I(a)) }
            Ins::Copy(d, v, _) => { let x = self.ev(fr, v); Self::set(fr, *d, if let Val::U = x { Val::I(0) } else { x }) }
            Ins::Rmw(d, op, w, p, v) => {
                let ty = Ty::I(*w); let a = self.ev(fr, p); let x = self.ev(fr, v);
                let old = self.load_val(&a, &ty)?;
                let nv = match op { Rmw::Xchg => x, Rmw::Add => self.bin(IOp::Add, *w, &old, &x)?, Rmw::Sub => self.bin(IOp::Sub, *w, &old, &x)?, Rmw::And => self.bin(IOp::And, *w, &old, &x)?, Rmw::Or => self.bin(IOp::Or, *w, &old, &x)?, Rmw::Xor => self.bin(IOp::Xor, *w, &old, &x)?, _ => return fail("atomic min/max") };
                self.store_val(&a, &nv, &ty)?;
                Self::set(fr, *d, old)
            }
            Ins::CmpXchg(d, w, p, e, n) => {
                let ty = Ty::I(*w); let a = self.ev(fr, p); let e = self.ev(fr, e); let n = self.ev(fr, n);
                let old = self.load_val(&a, &ty)?;
                let (x, y) = (self.concrete(&old)?, self.concrete(&e)?);
                if x == y { self.store_val(&a, &n, &ty)? }
                Self::set(fr, *d, Val::Agg(Rc::new(vec![old, Val::I((x == y) as u64)])))
            }
            Ins::Nop => {}
            Ins::Unsupported(s) => return fail(format!("unsupported instruction: {}", s)),
        }
        Ok(false)
    }
    pub fn fbin(&mut self, op: FOp, a: Tv, b: Tv) -> Tv {
        if let (Tv::C(x), Tv::C(y)) = (a, b) { return Tv::C(fbin_eval(op, f64::from_bits(x), f64::from_bits(y)).to_bits()) }
        if op == FOp::Mul { if a == Tv::C(1f64.to_bits()) { return b } if b == Tv::C(1f64.to_bits()) { return a } }
        if op == FOp::Div && b == Tv::C(1f64.to_bits()) { return a }
        if op == FOp::Sub && b == Tv::C(0) { return a }
        Tv::T(self.ts.mk(TNode::FBin(op, a, b)))
    }
    pub fn fun(&mut self, op: FUn, a: Tv) -> Tv {
        match a { Tv::C(x) => Tv::C(fun_eval(op, f64::from_bits(x)).to_bits()), Tv::T(t) => {
            if let (FUn::Neg, TNode::FUn(FUn::Neg, x)) = (op, &self.ts.t[t as usize]) { return Tv::T(*x) }
            let round = |o: FUn| matches!(o, FUn::Round | FUn::Rint | FUn::Floor | FUn::Ceil | FUn::Trunc);
            if let TNode::FUn(o2, _) = self.ts.t[t as usize] { if round(op) && round(o2) { return a } }
            if matches!(op, FUn::Round | FUn::Rint) {
                // within half of an integer input: rounds to exactly that input
                let l = self.lc.lin_f(&mut self.ts, a);
                if l.terms.len() == 1 && (l.terms[0].1 - 1.0).abs() < 1e-6 && l.terms[0].0 >> 32 == 0 && { let (lo, hi) = self.lc.base_range(&mut self.ts, l.terms[0].0); (l.terms[0].1 - 1.0).abs() * lo.abs().max(hi.abs()) + l.c0.abs() + l.rad < 0.49 } {
                    let b = l.terms[0].0 as u32;
                    let sg = match self.ts.t[b as usize] { TNode::Var { w, .. } if w <= 32 => Some(false), TNode::F2I { w, signed, .. } if w <= 32 => Some(signed), _ => None };
                    if let Some(signed) = sg { return Tv::T(self.ts.mk(TNode::I2F { signed, t: b })) }
                }
            }
            if op == FUn::Abs { let l = self.lc.lin_f(&mut self.ts, a); if l.lo >= 0.0 { return a } }
            Tv::T(self.ts.mk(TNode::FUn(op, t))) } }
    }
    fn bin(&mut self, op: IOp, w: u32, x: &Val, y: &Val) -> Res<Val> {
        if let (Val::I(a), Val::I(b)) = (x, y) { if w <= 64 { return match apply_iop(op, w, *a as u128 & mask(w) as u128, *b as u128 & mask(w) as u128) { Some(r) => Ok(Val::I(r as u64)), None => fail("division by zero") } } }
        if w == 1 { let a = self.lit(x)?; let b = self.lit(y)?; return Ok(lit_val(match op { IOp::And | IOp::Mul => self.ts.and(a, b), IOp::Or => self.ts.or(a, b), IOp::Xor | IOp::Add | IOp::Sub => self.ts.xor(a, b), _ => return fail("i1 arithmetic") })) }
        if w > 64 {
            if let (Some(a), Some(b)) = (self.wide(x, w)?, self.wide(y, w)?) { return match apply_iop(op, w, a, b) { Some(r) => Ok(Self::mkw(r, w)), None => fail("division by zero") } }
            if w <= 128 {
                let a = self.wtv(x, w)?; let b = self.wtv(y, w)?;
                match op { IOp::And | IOp::Or | IOp::Xor => return Ok(tvv(self.ts.iop(op, w, a, b))), IOp::Shl | IOp::LShr | IOp::AShr => if let Some(k) = self.wide(y, w)? { return Ok(self.norm_wide(|ts| ts.iop(op, w, a, Tv::C(k as u64)), w)) }, _ => {} }
            }
            return fail(format!("symbolic arithmetic of width {}", w));
        }
        let a = self.tv(x)?; let b = self.tv(y)?;
        let a = self.int_view(a); let b = self.int_view(b);
        if matches!(op, IOp::Shl | IOp::LShr | IOp::AShr) { if let (Tv::T(_), Tv::T(_)) | (Tv::C(_), Tv::T(_)) = (a, b) {
            // symbolic shift amount: enumerate
            let mut bs = vec![]; if !(self.ts.support(a, w, &mut bs) && self.ts.support(b, w, &mut bs)) {
                if let Some((bb, rows)) = self.ts.enumerate(b, w) { let vals: Vec<Tv> = rows.iter().map(|k| self.ts.iop(op, w, a, Tv::C(*k as u64))).collect(); return Ok(tvv(self.shannon(&bb, &vals, w, false))) }
            }
        } }
        Ok(tvv(self.ts.iop(op, w, a, b)))
    }
    fn wtv(&mut self, x: &Val, w: u32) -> Res<Tv> { match x { Val::T(t) => Ok(Tv::T(*t)), v => { let c = self.wide(v, w)?.unwrap_or(0); let b: Vec<Lit> = (0..w).map(|i| if c >> i & 1 == 1 { TRUE } else { FALSE }).collect(); Ok(Tv::T(self.ts.mk(TNode::Bits(b.into_boxed_slice())))) } } }
    fn norm_wide(&mut self, f: impl FnOnce(&mut Terms) -> Tv, _w: u32) -> Val { let t = f(&mut self.ts); tvv(t) }
    pub fn icmp(&mut self, p: IPred, w: u32, x: &Val, y: &Val) -> Res<Lit> {
        let (a, b) = if w > 64 { (self.wtv(x, w)?, self.wtv(y, w)?) } else { let a = self.tv(x)?; let b = self.tv(y)?; (self.int_view(a), self.int_view(b)) };
        let l = self.ts.icmp(p, w, a, b);
        if l <= 1 { return Ok(l) }
        // interval decision through the linear view
        if w <= 64 { if let BNode::ICmp(..) = self.ts.b[(l >> 1) as usize] {
            let cs = |v: Tv, s: bool| match v { Tv::C(c) => Tv::C(if s { sext(c, w) as u64 } else { c }), v => v };
            let signed = matches!(p, IPred::Slt | IPred::Sle);
            if !matches!((a, b), (Tv::C(_), _) | (_, Tv::C(_)) if w == 64 && !signed && [a, b].iter().any(|v| matches!(v, Tv::C(c) if *c >> 63 == 1))) {
                let x = self.lc.lin_i(&mut self.ts, cs(a, signed)); let y = self.lc.lin_i(&mut self.ts, cs(b, signed));
                if let (Some(x), Some(y)) = (x, y) {
                    let (mn, mx) = crate::lin::irange(signed, w);
                    let fit = |l: &crate::lin::Lin| l.lo >= mn - 0.5 && l.hi <= mx + 0.5;
                    if fit(&x) && fit(&y) {
                        let d = self.lc.comb(&mut self.ts, &x, -1.0, &y);
                        let k = match p { IPred::Ult | IPred::Slt => if d.hi < -0.5 { Some(true) } else if d.lo > -0.5 { Some(false) } else { None }, IPred::Ule | IPred::Sle => if d.hi < 0.5 { Some(true) } else if d.lo > 0.5 { Some(false) } else { None }, IPred::Eq => if d.lo > 0.5 || d.hi < -0.5 { Some(false) } else { None } };
                        if let Some(k) = k { return Ok(if k { TRUE } else { FALSE }) }
                    }
                }
            }
        } }
        Ok(l)
    }
    fn cast(&mut self, c: Cast, f: &Ty, t: &Ty, x: Val) -> Res<Val> {
        let wf = match f { Ty::I(w) => *w, Ty::F32 => 32, _ => 64 }; let wt = match t { Ty::I(w) => *w, _ => 64 };
        if let Val::U = x { return Ok(Val::U) }
        Ok(match c {
            Cast::PtrToInt | Cast::IntToPtr => if wf == 64 && wt == 64 { x } else if wt < wf { return self.cast(Cast::Trunc, &Ty::I(wf), &Ty::I(wt), x) } else { return self.cast(Cast::ZExt, &Ty::I(wf), &Ty::I(wt), x) },
            Cast::Trunc => match x {
                Val::I(v) => Val::I(v & mask(wt)),
                Val::W(v) => Self::mkw(*v & mask128(wt), wt),
                x => { if wt == 1 { return Ok(lit_val(self.lit(&x)?)) } let v = self.tv(&x)?; let v = self.int_view(v); tvv(self.ts.trunc(v, wt)) }
            },
            Cast::ZExt => match x {
                Val::I(v) => if wt > 64 { Val::W(Rc::new(v as u128)) } else { Val::I(v) },
                Val::W(v) => Val::W(v),
                x => { let v = self.tv(&x)?; let v = self.int_view(v); tvv(self.ts.zext(v, wf, wt)) }
            },
            Cast::SExt => match x {
                Val::I(v) => if wt > 64 { Self::mkw(sext(v, wf) as i128 as u128, wt) } else { Val::I(sext(v, wf) as u64 & mask(wt)) },
                Val::W(v) => Val::W(v),
                x => { let v = self.tv(&x)?; let v = self.int_view(v); if wt > 64 { return fail("sext to wide") } tvv(self.ts.sext(v, wf, wt)) }
            },
            Cast::Bit => match (f, t) {
                (Ty::F64, Ty::I(64)) => { let v = self.tv(&x)?; tvv(self.int_view(v)) }
                (Ty::I(64), Ty::F64) => { let v = self.tv(&x)?; tvv(self.float_view(v)) }
                _ => x,
            },
            Cast::UI2F | Cast::SI2F => {
                let s = c == Cast::SI2F;
                match x {
                    Val::I(v) => { let r = if s { sext(v, wf) as f64 } else { v as f64 }; if *t == Ty::F32 { Val::I((if s { sext(v, wf) as f32 } else { v as f32 }).to_bits() as u64) } else { Val::I(r.to_bits()) } }
                    Val::W(v) => Val::I((if s { *v as i128 as f64 } else { *v as f64 }).to_bits()),
                    x => { if *t == Ty::F32 { return fail("symbolic f32") } let mut v = self.tv(&x)?; v = self.int_view(v); match v { Tv::C(c) => Val::I((if s { sext(c, wf) as f64 } else { c as f64 }).to_bits()), Tv::T(t) => {
                        // integer produced by an exact float rounding converts back
                        if let TNode::Ite(_, cnd, a, b) = self.ts.t[t as usize] { let ty = Ty::I(wf); let p = self.cast(c, &ty, &Ty::F64, tvv(a))?; let q = self.cast(c, &ty, &Ty::F64, tvv(b))?; let p = self.tv(&p)?; let q = self.tv(&q)?; return Ok(tvv(self.ts.fite(cnd, p, q))) }
                        Val::T(self.ts.mk(TNode::I2F { signed: s, t })) } } }
                }
            }
            Cast::F2UI | Cast::F2SI => { let v = self.tv(&x)?; let sg = c == Cast::F2SI; if *f == Ty::F32 { match v { Tv::C(k) => return Ok(Val::I(f2i_eval(sg, wt, f32::from_bits(k as u32) as f64))), _ => return fail("symbolic f32") } } self.f2i(sg, wt, v)? }
            Cast::FExt => match x { Val::I(v) => Val::I((f32::from_bits(v as u32) as f64).to_bits()), _ => return fail("symbolic f32") },
            Cast::FTrunc => match x { Val::I(v) => Val::I((f64::from_bits(v) as f32).to_bits() as u64), _ => return fail("symbolic f32") },
        })
    }
    /// the only non-constant operand of a chain of float operations
    fn float_leaf(&self, t: TermId, d: usize) -> Option<TermId> {
        if d > 16 { return None }
        match self.ts.t[t as usize] {
            TNode::I2F { .. } => Some(t),
            TNode::FUn(_, a) => self.float_leaf(a, d + 1),
            TNode::FBin(_, Tv::T(a), Tv::C(_)) | TNode::FBin(_, Tv::C(_), Tv::T(a)) => self.float_leaf(a, d + 1),
            _ => None,
        }
    }
    fn float_at(&self, t: TermId, leaf: TermId, x: f64) -> f64 {
        if t == leaf { return x }
        match self.ts.t[t as usize] {
            TNode::FUn(op, a) => fun_eval(op, self.float_at(a, leaf, x)),
            TNode::FBin(op, Tv::T(a), Tv::C(c)) => fbin_eval(op, self.float_at(a, leaf, x), f64::from_bits(c)),
            TNode::FBin(op, Tv::C(c), Tv::T(a)) => fbin_eval(op, f64::from_bits(c), self.float_at(a, leaf, x)),
            _ => unreachable!(),
        }
    }
    pub fn f2i(&mut self, signed: bool, w: u32, v: Tv) -> Res<Val> {
        match v {
            Tv::C(c) => Ok(Val::I(f2i_eval(signed, w, f64::from_bits(c)))),
            v => { let f = self.float_view(v); let t = match f { Tv::T(t) => t, Tv::C(c) => return Ok(Val::I(f2i_eval(signed, w, f64::from_bits(c)))) };
                if let TNode::FIte(c, a, b) = self.ts.t[t as usize] { let small = |s: &Self, v: Tv| match v { Tv::C(_) => true, Tv::T(t) => matches!(s.ts.t[t as usize], TNode::I2F { .. }) }; if small(self, a) && small(self, b) { let x = self.f2i(signed, w, a)?; let y = self.f2i(signed, w, b)?; return self.ite_val(c, &x, &y, &Ty::I(w)) } }
                // exact integer-to-float conversion followed by the way back
                if let TNode::I2F { t: it, signed: is } = self.ts.t[t as usize] {
                    let iw = self.ts.width(it);
                    if iw <= 32 && !is && iw <= w { return Ok(tvv(self.ts.zext(Tv::T(it), iw, w))) }
                    if iw == w && is == signed && iw <= 32 { return Ok(Val::T(it)) }
                }
                // a length computed in floating point from a few bits: a table over these bits
                if w == 64 { if let Some(leaf) = self.float_leaf(t, 0) { if let TNode::I2F { signed: is, t: it } = self.ts.t[leaf as usize] {
                    let iw = self.ts.width(it);
                    if iw <= 64 { if let Some((bs, rows)) = self.ts.enumerate(Tv::T(it), iw) { if bs.len() <= 8 {
                        let vals: Vec<u128> = rows.iter().map(|&r| { let x = if is { sext(r as u64, iw) as f64 } else { r as u64 as f64 }; f2i_eval(signed, w, self.float_at(t, leaf, x)) as u128 }).collect();
                        return Ok(tvv(self.ts.map_rows(&bs, w, &vals)))
                    } } }
                } } }
                let l = self.lc.lin_f(&mut self.ts, f);
                if !l.finite() { return fail(format!("conversion of possibly non-finite value {}", self.describe(f))) }
                Ok(Val::T(self.ts.mk(TNode::F2I { signed, w: w as u8, f: t }))) }
        }
    }
}
pub fn demangle(n: &str) -> String {
    // readable identifiers out of a v0 or legacy mangled name
    let b = n.as_bytes(); let mut i = 0; let mut out: Vec<String> = vec![];
    while i < b.len() {
        if b[i].is_ascii_digit() && i > 0 {
            let mut j = i; let mut v = 0usize; while j < b.len() && b[j].is_ascii_digit() { v = v * 10 + (b[j] - b'0') as usize; j += 1 }
            let mut k = j; if k < b.len() && b[k] == b'_' { k += 1 }
            if v > 0 && v < 80 && k + v <= b.len() && n.is_char_boundary(k) && n.is_char_boundary(k + v) { let s = &n[k..k + v]; if s.chars().all(|c| c.is_alphanumeric() || c == '_') { out.push(s.to_string()); i = k + v; continue } }
            i = j; continue;
        }
        i += 1;
    }
    if out.is_empty() { n.to_string() } else { out.truncate(6); out.join("::") }
}
