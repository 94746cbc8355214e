//! Calls that are not interpreted from their bodies: panics, allocation, libm, LLVM intrinsics, harness primitives.
use crate::eval::*;
use crate::exec::*;
use crate::ir::*;
use crate::solver::*;
use crate::term::*;
use std::rc::Rc;

fn fail<T>(s: impl Into<String>) -> Res<T> { Err(Stop::Fail(s.into())) }
fn lit_val(l: Lit) -> Val { if l == TRUE { Val::I(1) } else if l == FALSE { Val::I(0) } else { Val::B(l) } }
fn tvv(t: Tv) -> Val { match t { Tv::C(c) => Val::I(c), Tv::T(t) => Val::T(t) } }

impl<'m> Ctx<'m> {
    fn classify(&mut self, fi: u32) -> Intr {
        if let Some(k) = self.fkind.get(&fi) { return *k }
        let f = &self.m.funcs[fi as usize];
        let n = f.name.as_str();
        let k = if f.noret { Intr::Panic }
        else if n.contains("5stdio6__print") || n.contains("5stdio7__eprint") || n.contains("5stdio6_print") || n.contains("5stdio7_eprint") { Intr::Ignore }
        else if n.starts_with("@llvm.") || n.starts_with("@sym_") { Intr::Named }
        else if matches!(n, "@malloc" | "@calloc" | "@realloc" | "@free" | "@posix_memalign" | "@aligned_alloc" | "@memcmp" | "@bcmp" | "@memcpy" | "@memmove" | "@memset" | "@strlen") { Intr::Named }
        else if f.decl { Intr::Named } else if n.contains("13labrador_ldpc7decoder") && n.ends_with("9decode_bf") { Intr::Decode } else { Intr::Body };
        self.fkind.insert(fi, k);
        k
    }
    /// None: the path ends here
    pub fn invoke(&mut self, fr: &mut Frame, fi: u32, av: Vec<Val>, args: &[(Ty, Op)], ret: &Ty) -> Res<Option<Val>> {
        let _ = fr;
        match self.classify(fi) {
            Intr::Body => self.call(fi, av),
            Intr::Decode => if let Some(v) = self.undetermined_codeword(&av)? { Ok(Some(v)) } else { self.call(fi, av) },
            Intr::Panic => { let n = demangle(&self.m.funcs[fi as usize].name); self.panic(n)?; Ok(None) }
            Intr::Ignore => Ok(Some(Val::U)),
            Intr::Named => { let m = self.m; self.named(&m.funcs[fi as usize].name[1..], av, args, ret) }
        }
    }
    /// labrador_ldpc::LDPCCode::decode_bf on bits of which more are independent than a codeword (damaged or not) of a
    /// known message has: whatever the decoder answers. Everything else is executed.
    fn undetermined_codeword(&mut self, av: &[Val]) -> Res<Option<Val>> {
        let mut c = [0u64; 8];
        if av.len() != 8 { return Ok(None) }
        for i in 0..8 { match &av[i] { Val::I(x) => c[i] = *x, _ => return Ok(None) } }
        // code, input, length, output, length, working area, length, iterations
        let (n, p) = match c[0] { 0 => (128, 0), 1 => (256, 0), 2 => (512, 0), 5 => (2048, 512), 8 => (8192, 2048), _ => return Ok(None) };
        if c[2] != n / 8 || c[4] != (n + p) / 8 || c[6] != n + p { return Ok(None) }
        let mut atoms: FxSet<u32> = Default::default();
        let mut seen: FxSet<u32> = Default::default();
        let mut work = vec![];
        for i in 0..c[2] { let v = self.load(c[1] + i, 1)?; work.extend(self.ts.bits_of(v, 8).iter().map(|l| l >> 1)) }
        while let Some(b) = work.pop() {
            if b == 0 || !seen.insert(b) { continue }
            if let BNode::Xor(x, y) = self.ts.b[b as usize] { work.push(x); work.push(y) } else { atoms.insert(b); }
        }
        if atoms.len() as u64 <= n / 2 { return Ok(None) }
        self.st.havocs += 1;
        for i in 0..c[4] { let v = self.new_var(3, 8, 0, 255); let t = self.tv(&v)?; self.store(c[3] + i, 1, t)?; }
        let v = self.new_var(3, 8, 0, 1);
        let ok = { let t = self.tv(&v)?; lit_val(self.ts.bit_of(t, 0)) };
        let it = self.new_var(3, 64, 0, 2 * c[7]);
        Ok(Some(Val::Agg(Rc::new(vec![ok, it]))))
    }
    fn fl(&mut self, v: &Val) -> Res<Tv> { let t = self.tv(v)?; Ok(self.float_view(t)) }
    fn it(&mut self, v: &Val) -> Res<Tv> { let t = self.tv(v)?; Ok(self.int_view(t)) }
    fn new_var(&mut self, kind: u8, w: u32, lo: u64, hi: u64) -> Val {
        let idx = self.vars.len() as u32;
        let t = if kind == 1 { self.ts.mk(TNode::FVar { lo, hi, idx }) } else { self.ts.mk(TNode::Var { w: w as u8, lo, hi, idx }) };
        self.vars.push(VarInfo { kind, w, lo, hi, term: t });
        if kind != 1 && w <= 64 && !self.split.is_empty() {
            let mut b = self.ts.bits_of(Tv::T(t), w); let mut any = false;
            for l in b.iter_mut() { if *l > 1 { if let Some((_, v)) = self.split.iter().find(|s| s.0 == *l >> 1) { any = true; *l = if *v ^ (*l & 1 == 1) { TRUE } else { FALSE } } } }
            if any { return tvv(self.ts.mk_bits(b)) }
        }
        Val::T(t)
    }
    fn ovf(&mut self, op: IOp, signed: bool, w: u32, a: Tv, b: Tv) -> Res<(Tv, Lit)> {
        let r = self.ts.iop(op, w, a, b);
        // unsigned ranges
        if !signed {
            if let (Some(x), Some(y)) = (self.ts.urange(a), self.ts.urange(b)) {
                let m = mask(w) as u128;
                match op {
                    IOp::Add => { if x.1 as u128 + y.1 as u128 <= m { return Ok((r, FALSE)) } }
                    IOp::Mul => { if x.1 as u128 * y.1 as u128 <= m { return Ok((r, FALSE)) } }
                    _ => { if x.0 >= y.1 { return Ok((r, FALSE)) } let l = self.icmp(IPred::Ult, w, &tvv(a), &tvv(b))?; return Ok((r, l)) }
                }
            }
            if op == IOp::Sub { let l = self.icmp(IPred::Ult, w, &tvv(a), &tvv(b))?; return Ok((r, l)) }
        }
        // linear intervals
        let cs = |v: Tv| match v { Tv::C(c) => Tv::C(if signed { sext(c, w) as u64 } else { c }), v => v };
        let (x, y) = (self.lc.lin_i(&mut self.ts, cs(a)), self.lc.lin_i(&mut self.ts, cs(b)));
        if let (Some(x), Some(y)) = (x, y) {
            let (mn, mx) = crate::lin::irange(signed, w);
            let fits = |l: f64, h: f64| l >= mn && h <= mx * (1.0 - 1e-12);
            if fits(x.lo.floor(), x.hi.ceil()) && fits(y.lo.floor(), y.hi.ceil()) {
                let (lo, hi) = match op { IOp::Add => (x.lo + y.lo, x.hi + y.hi), IOp::Sub => (x.lo - y.hi, x.hi - y.lo), _ => { let c = [x.lo * y.lo, x.lo * y.hi, x.hi * y.lo, x.hi * y.hi]; (c.iter().cloned().fold(f64::INFINITY, f64::min), c.iter().cloned().fold(f64::NEG_INFINITY, f64::max)) } };
                if fits(lo - 0.5, hi + 0.5) { return Ok((r, FALSE)) }
                let d = if op == IOp::Sub { self.lc.comb(&mut self.ts, &x, -1.0, &y) } else if op == IOp::Add { self.lc.comb(&mut self.ts, &x, 1.0, &y) } else { crate::lin::Lin { terms: vec![], c0: 0.0, rad: f64::INFINITY, lo: f64::NEG_INFINITY, hi: f64::INFINITY } };
                if fits(d.lo - 0.5, d.hi + 0.5) { return Ok((r, FALSE)) }
            }
        }
        if std::env::var("SYMEX_VERBOSE").is_ok() { let x = self.lc.lin_i(&mut self.ts, cs(a)); let y = self.lc.lin_i(&mut self.ts, cs(b)); eprintln!("ovf {:?} {} {} {} {:?} {:?}", op, signed, self.describe(a), self.describe(b), x.map(|l| (l.lo, l.hi, l.terms.len())), y.map(|l| (l.lo, l.hi, l.terms.len()))); }
        if w <= 32 {
            let w2 = 2 * w;
            let (p, q) = if signed { (self.ts.sext(a, w, w2), self.ts.sext(b, w, w2)) } else { (self.ts.zext(a, w, w2), self.ts.zext(b, w, w2)) };
            let s = self.ts.iop(op, w2, p, q);
            let l = if signed {
                let hi = self.icmp(IPred::Slt, w2, &Val::I(mask(w) >> 1), &tvv(s))?;
                let lo = self.icmp(IPred::Slt, w2, &tvv(s), &Val::I((!(mask(w) >> 1)) & mask(w2)))?;
                self.ts.or(hi, lo)
            } else { self.icmp(IPred::Ult, w2, &Val::I(mask(w)), &tvv(s))? };
            return Ok((r, l));
        }
        match (op, signed) {
            (IOp::Add, false) => { let l = self.icmp(IPred::Ult, w, &tvv(r), &tvv(a))?; Ok((r, l)) }
            (IOp::Add | IOp::Sub, true) => {
                let x = self.ts.iop(IOp::Xor, w, a, r);
                let o = if op == IOp::Add { b } else { let y = self.ts.iop(IOp::Xor, w, a, b); let z = self.ts.iop(IOp::And, w, x, y); return Ok((r, self.ts.bit_of(z, w - 1))) };
                let y = self.ts.iop(IOp::Xor, w, o, r);
                let z = self.ts.iop(IOp::And, w, x, y);
                Ok((r, self.ts.bit_of(z, w - 1)))
            }
            _ => fail(format!("symbolic multiplication overflow of width {}", w)),
        }
    }
    fn fconst(v: Tv) -> Option<f64> { match v { Tv::C(c) => Some(f64::from_bits(c)), _ => None } }
    fn named(&mut self, n: &str, av: Vec<Val>, args: &[(Ty, Op)], ret: &Ty) -> Res<Option<Val>> {
        let rw = match ret { Ty::I(w) => *w, _ => 64 };
        let aw = match args.first() { Some((Ty::I(w), _)) => *w, _ => 64 };
        if let Some(s) = n.strip_prefix("sym_") { return self.prim(s, av) }
        if let Some(l) = n.strip_prefix("llvm.") { return self.llvm(l, av, rw, aw, ret) }
        let c1 = |f: fn(f64) -> f64| f;
        let f1: Option<fn(f64) -> f64> = match n { "cos" => Some(c1(f64::cos)), "sin" => Some(f64::sin), "tan" => Some(f64::tan), "exp" => Some(f64::exp), "log" => Some(f64::ln), "log2" => Some(f64::log2), "log10" => Some(f64::log10), "exp2" => Some(f64::exp2), "cbrt" => Some(f64::cbrt), "acos" => Some(f64::acos), "asin" => Some(f64::asin), "atan" => Some(f64::atan), "sinh" => Some(f64::sinh), "cosh" => Some(f64::cosh), "tanh" => Some(f64::tanh), "round" => Some(f64::round), "floor" => Some(f64::floor), "ceil" => Some(f64::ceil), "trunc" => Some(f64::trunc), "sqrt" => Some(f64::sqrt), _ => None };
        if let Some(f) = f1 {
            let x = self.fl(&av[0])?;
            if let Some(c) = Self::fconst(x) { return Ok(Some(Val::I(f(c).to_bits()))) }
            let op = match n { "round" => Some(FUn::Round), "floor" => Some(FUn::Floor), "ceil" => Some(FUn::Ceil), "trunc" => Some(FUn::Trunc), "sqrt" => Some(FUn::Sqrt), _ => None };
            if let Some(op) = op { return Ok(Some(tvv(self.fun(op, x)))) }
            let nm = match n { "cos" => FnName::Cos, "sin" => FnName::Sin, "exp" => FnName::Exp, "log" => FnName::Log, _ => return fail(format!("symbolic {}", n)) };
            return Ok(Some(Val::T(self.ts.mk(TNode::FCall(nm, x, Tv::C(0))))));
        }
        let f2: Option<(fn(f64, f64) -> f64, FnName)> = match n { "pow" => Some((f64::powf, FnName::Pow)), "atan2" => Some((f64::atan2, FnName::Atan2)), "hypot" => Some((f64::hypot, FnName::Hypot)), "fmod" => Some((|a, b| a % b, FnName::Fmod)), "fmin" => Some((f64::min, FnName::Other)), "fmax" => Some((f64::max, FnName::Other)), _ => None };
        if let Some((f, nm)) = f2 {
            let x = self.fl(&av[0])?; let y = self.fl(&av[1])?;
            if let (Some(a), Some(b)) = (Self::fconst(x), Self::fconst(y)) { return Ok(Some(Val::I(f(a, b).to_bits()))) }
            return Ok(Some(match n { "fmod" => tvv(self.fbin(FOp::Rem, x, y)), "fmin" => tvv(self.fbin(FOp::Min, x, y)), "fmax" => tvv(self.fbin(FOp::Max, x, y)), _ => Val::T(self.ts.mk(TNode::FCall(nm, x, y))) }));
        }
        match n {
            "malloc" => { let s = self.concrete(&av[0])?; Ok(Some(Val::I(self.alloc(s)?))) }
            "calloc" => { let s = self.concrete(&av[0])? * self.concrete(&av[1])?; Ok(Some(Val::I(self.alloc(s)?))) }
            "aligned_alloc" => { let s = self.concrete(&av[1])?; Ok(Some(Val::I(self.alloc(s)?))) }
            "posix_memalign" => { let p = self.concrete(&av[0])?; let s = self.concrete(&av[2])?; let a = self.alloc(s)?; self.store(p, 8, Tv::C(a))?; Ok(Some(Val::I(0))) }
            "realloc" => {
                let s = self.concrete(&av[1])?; let p = self.concrete(&av[0])?;
                let a = self.alloc(s)?;
                if p != 0 { let n = self.size_of(p).min(s); self.memcpy(a, p, n)?; self.release(p)?; }
                Ok(Some(Val::I(a)))
            }
            "free" => { let p = self.concrete(&av[0])?; if p != 0 { self.release(p)? } Ok(Some(Val::U)) }
            "memcpy" | "memmove" => { let n = self.concrete(&av[2])?; let d = self.concrete(&av[0])?; let s = self.concrete(&av[1])?; self.memcpy(d, s, n)?; Ok(Some(Val::I(d))) }
            "memset" => { self.memset(&av)?; Ok(Some(av[0].clone())) }
            "bcmp" | "memcmp" => {
                let n = self.concrete(&av[2])?; if n == 0 { return Ok(Some(Val::I(0))) }
                let a = self.concrete(&av[0])?; let b = self.concrete(&av[1])?;
                self.compare(a, b, n)
            }
            _ => fail(format!("call of external function {}", n)),
        }
    }
    fn compare(&mut self, a: u64, b: u64, n: u64) -> Res<Option<Val>> {
        // walk in the widest units both sides share
        let mut p = 0; let mut parts: Vec<(Lit, Lit)> = vec![]; // (equal, less) in order
        while p < n {
            let mut k = 8;
            let (x, y) = loop {
                if p + k > n { k /= 2; continue }
                let x = self.load(a + p, k)?; let y = self.load(b + p, k)?;
                break (x, y);
            };
            let x = self.int_view(x); let y = self.int_view(y);
            let w = 8 * k as u32;
            let eq = if x == y { TRUE } else { self.icmp(IPred::Eq, w, &tvv(x), &tvv(y))? };
            if eq != TRUE {
                let rev = |ts: &mut Terms, v: Tv| -> Tv { let mut o = vec![]; for i in (0..k as u32).rev() { for j in 0..8 { o.push(ts.bit_of(v, i * 8 + j)) } } ts.mk_bits(o) };
                let xr = rev(&mut self.ts, x); let yr = rev(&mut self.ts, y);
                let lt = self.icmp(IPred::Ult, w, &tvv(xr), &tvv(yr))?;
                parts.push((eq, lt));
                if eq == FALSE { break }
            }
            p += k;
        }
        let mut eq = TRUE; let mut lt = FALSE;
        for (e, l) in parts.iter().rev() { lt = self.ts.mux(*e, lt, *l); eq = self.ts.and(*e, eq); }
        if eq == TRUE { return Ok(Some(Val::I(0))) }
        // 0 when equal, -1 when less, 1 otherwise
        let ne = eq ^ 1; let neg = self.ts.and(ne, lt);
        let mut bits = vec![neg; 32]; bits[0] = ne;
        Ok(Some(tvv(self.ts.mk_bits(bits))))
    }
    fn memset(&mut self, av: &[Val]) -> Res<()> {
        let n = self.concrete(&av[2])?; if n == 0 { return Ok(()) }
        let d = self.concrete(&av[0])?; let v = self.it(&av[1])?;
        match v { Tv::C(c) => self.fill(d, n, c as u8), v => { let v = self.ts.trunc(v, 8); for i in 0..n { self.store(d + i, 1, v)? } Ok(()) } }
    }
    fn llvm(&mut self, l: &str, av: Vec<Val>, rw: u32, aw: u32, ret: &Ty) -> Res<Option<Val>> {
        let base: &str = l.split('.').next().unwrap();
        let full2 = { let mut it = l.split('.'); let a = it.next().unwrap_or(""); let b = it.next().unwrap_or(""); format!("{}.{}", a, b) };
        let ok = |v: Val| -> Res<Option<Val>> { Ok(Some(v)) };
        match base {
            "assume" | "lifetime" | "experimental" | "dbg" | "donothing" | "prefetch" | "sideeffect" | "invariant" | "stackrestore" | "x86" => return ok(Val::U),
            "stacksave" => return ok(Val::I(0)),
            "memcpy" | "memmove" => {
                let n = self.concrete(&av[2])?; if n == 0 { return ok(Val::U) }
                let d = self.concrete(&av[0])?;
                match self.addr(&av[1])? { Ok(s) => self.memcpy(d, s, n)?, Err((b, rows)) => { // copy from one of several places
                    let mut p = 0; while p < n { let k = if p + 8 <= n { 8 } else { 1 }; let mut fl = false; let mut vals = vec![]; for a in &rows { let v = match self.load(a + p, k) { Ok(v) => v, Err(e) => { if self.feasible_row(&b, &rows, *a)? { return Err(e) } vals.last().copied().unwrap_or(Tv::C(0)) } }; if let Tv::T(t) = v { if self.ts.is_float(t) { fl = true } } vals.push(v) } if fl { for v in vals.iter_mut() { *v = self.float_view(*v) } } let v = self.shannon(&b, &vals, 8 * k as u32, fl); self.store(d + p, k, v)?; p += k } } }
                return ok(Val::U);
            }
            "memset" => { self.memset(&av)?; return ok(Val::U) }
            "is" | "objectsize" => return ok(Val::I(0)),
            "expect" | "launder" | "strip" | "threadlocal" | "ssa" | "annotation" => return ok(av[0].clone()),
            "trap" | "debugtrap" | "ubsantrap" => { self.panic("trap".into())?; return Ok(None) }
            "umax" | "umin" | "smax" | "smin" => {
                let x = self.it(&av[0])?; let y = self.it(&av[1])?;
                let p = if base.starts_with('u') { IPred::Ult } else { IPred::Slt };
                let lt = self.icmp(p, rw, &tvv(x), &tvv(y))?; let lt = self.resolve(lt);
                let v = if base.ends_with("max") { self.ite_val(lt, &tvv(y), &tvv(x), ret)? } else { self.ite_val(lt, &tvv(x), &tvv(y), ret)? };
                return ok(v);
            }
            "usub" | "uadd" | "ssub" | "sadd" | "umul" | "smul" => {
                let op = if base.ends_with("add") { IOp::Add } else if base.ends_with("sub") { IOp::Sub } else { IOp::Mul };
                let signed = base.starts_with('s');
                if full2.ends_with(".with") {
                    let w = aw;
                    if w > 64 { return fail("wide overflow intrinsic") }
                    let x = self.it(&av[0])?; let y = self.it(&av[1])?;
                    if let (Tv::C(a), Tv::C(b)) = (x, y) {
                        let (r, o) = if signed { let (a, b) = (sext(a, w) as i128, sext(b, w) as i128); let r = match op { IOp::Add => a + b, IOp::Sub => a - b, _ => a * b }; let m = 1i128 << (w - 1); (r as u64 & mask(w), r < -m || r >= m) }
                        else { let (a, b) = (a as i128, b as i128); let r = match op { IOp::Add => a + b, IOp::Sub => a - b, _ => (a as u128).wrapping_mul(b as u128) as i128 }; (r as u64 & mask(w), r < 0 || (r as u128) > mask(w) as u128) };
                        return ok(Val::Agg(Rc::new(vec![Val::I(r), Val::I(o as u64)])));
                    }
                    let (r, o) = self.ovf(op, signed, w, x, y)?;
                    return ok(Val::Agg(Rc::new(vec![tvv(r), lit_val(o)])));
                }
                // saturating
                let w = rw; let x = self.it(&av[0])?; let y = self.it(&av[1])?;
                if let (Tv::C(a), Tv::C(b)) = (x, y) {
                    let r = if signed { let r = if op == IOp::Add { sext(a, w) as i128 + sext(b, w) as i128 } else { sext(a, w) as i128 - sext(b, w) as i128 }; let m = 1i128 << (w - 1); r.clamp(-m, m - 1) as u64 & mask(w) } else if op == IOp::Add { (a as u128 + b as u128).min(mask(w) as u128) as u64 } else { a.saturating_sub(b) };
                    return ok(Val::I(r));
                }
                if signed { return fail("symbolic signed saturation") }
                let (r, o) = self.ovf(op, false, w, x, y)?;
                let o = self.resolve(o);
                return ok(self.ite_val(o, &Val::I(if op == IOp::Add { mask(w) } else { 0 }), &tvv(r), ret)?);
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => {
                let w = rw;
                let x = self.it(&av[0])?;
                if let Tv::C(c) = x { return ok(Val::I(match base { "ctlz" => (c.leading_zeros() - (64 - w)) as u64, "cttz" => c.trailing_zeros().min(w) as u64, "ctpop" => c.count_ones() as u64, "bswap" => c.swap_bytes() >> (64 - w), _ => c.reverse_bits() >> (64 - w) })) }
                let b = self.ts.bits_of(x, w);
                match base {
                    "bswap" => { let mut o = vec![]; for i in (0..w as usize / 8).rev() { o.extend_from_slice(&b[8 * i..8 * i + 8]) } return ok(tvv(self.ts.mk_bits(o))) }
                    "bitreverse" => { let o: Vec<Lit> = b.iter().rev().copied().collect(); return ok(tvv(self.ts.mk_bits(o))) }
                    "ctpop" => { let mut acc = Tv::C(0); let cw = w; for l in b { if l == FALSE { continue } let t = self.ts.mk_bits({ let mut v = vec![FALSE; cw as usize]; v[0] = l; v }); acc = self.ts.iop(IOp::Add, cw, acc, t) } return ok(tvv(acc)) }
                    _ => { let it: Vec<usize> = if base == "ctlz" { (0..w as usize).collect() } else { (0..w as usize).rev().collect() };
                        let mut acc = Tv::C(w as u64);
                        for i in it { let pos = if base == "ctlz" { w as usize - 1 - i } else { i }; acc = self.ts.ite(w, b[i], Tv::C(pos as u64), acc) }
                        return ok(tvv(acc)) }
                }
            }
            "fshl" | "fshr" => {
                let k = self.concrete(&av[2])? as u32 % rw;
                let x = self.it(&av[0])?; let y = self.it(&av[1])?;
                let xb = self.ts.bits_of(x, rw); let yb = self.ts.bits_of(y, rw);
                let mut cat = yb; cat.extend(xb); // y low, x high
                let s = if base == "fshl" { rw - k } else { k } as usize;
                let o: Vec<Lit> = cat[s..s + rw as usize].to_vec();
                return ok(tvv(self.ts.mk_bits(o)));
            }
            "abs" => { let x = self.it(&av[0])?; if let Tv::C(c) = x { return ok(Val::I((sext(c, rw).wrapping_abs()) as u64 & mask(rw))) } let n = self.ts.iop(IOp::Sub, rw, Tv::C(0), x); let l = self.icmp(IPred::Slt, rw, &tvv(x), &Val::I(0))?; return ok(self.ite_val(l, &tvv(n), &tvv(x), ret)?) }
            "ucmp" | "scmp" => {
                let w = aw; let x = self.it(&av[0])?; let y = self.it(&av[1])?;
                let p = if base == "ucmp" { IPred::Ult } else { IPred::Slt };
                let lt = self.icmp(p, w, &tvv(x), &tvv(y))?; let gt = self.icmp(p, w, &tvv(y), &tvv(x))?;
                let v = self.ts.ite(rw, gt, Tv::C(1), Tv::C(0)); let v = self.ts.ite(rw, lt, Tv::C(mask(rw)), v);
                return ok(tvv(v));
            }
            "fptoui" | "fptosi" => {
                let v = self.tv(&av[0])?;
                if l.contains(".f32") { return match v { Tv::C(c) => ok(Val::I(f2i_eval(base == "fptosi", rw, f32::from_bits(c as u32) as f64))), _ => fail("symbolic f32") } }
                if rw > 64 { return fail("wide float conversion") }
                return Ok(Some(self.f2i(base == "fptosi", rw, v)?));
            }
            _ => {}
        }
        // floats
        if *ret == Ty::F32 {
            let c: Vec<f32> = av.iter().map(|v| match v { Val::I(c) => f32::from_bits(*c as u32), _ => f32::NAN }).collect();
            if av.iter().any(|v| !matches!(v, Val::I(_))) { return fail("symbolic f32") }
            let r = match base { "sqrt" => c[0].sqrt(), "floor" => c[0].floor(), "ceil" => c[0].ceil(), "round" => c[0].round(), "fabs" => c[0].abs(), "trunc" => c[0].trunc(), "copysign" => c[0].copysign(c[1]), "pow" => c[0].powf(c[1]), "minnum" | "minimumnum" => c[0].min(c[1]), "maxnum" | "maximumnum" => c[0].max(c[1]), _ => return fail(format!("llvm.{}", l)) };
            return ok(Val::I(r.to_bits() as u64));
        }
        let un = match base { "round" => Some(FUn::Round), "floor" => Some(FUn::Floor), "ceil" => Some(FUn::Ceil), "trunc" => Some(FUn::Trunc), "rint" | "nearbyint" | "roundeven" => Some(FUn::Rint), "fabs" => Some(FUn::Abs), "sqrt" => Some(FUn::Sqrt), _ => None };
        if let Some(u) = un { let x = self.fl(&av[0])?; return ok(tvv(self.fun(u, x))) }
        match base {
            "copysign" => {
                let x = self.fl(&av[0])?; let y = self.fl(&av[1])?;
                if let (Some(a), Some(b)) = (Self::fconst(x), Self::fconst(y)) { return ok(Val::I(a.copysign(b).to_bits())) }
                let m = self.fun(FUn::Abs, x); let nm = self.fun(FUn::Neg, m);
                if let Some(b) = Self::fconst(y) { return ok(tvv(if b.is_sign_negative() { nm } else { m })) }
                let neg = self.fcmp(4, y, Tv::C(0))?;
                return ok(tvv(self.ts.fite(neg, nm, m)));
            }
            "minnum" | "minimumnum" | "minimum" | "maxnum" | "maximumnum" | "maximum" => { let x = self.fl(&av[0])?; let y = self.fl(&av[1])?; return ok(tvv(self.fbin(if base.starts_with("min") { FOp::Min } else { FOp::Max }, x, y))) }
            "powi" => { let x = self.fl(&av[0])?; let k = self.concrete(&av[1])? as i32; return match Self::fconst(x) { Some(c) => ok(Val::I(c.powi(k).to_bits())), None => { if k < 0 || k > 8 { return fail("symbolic powi") } let mut r = Tv::C(1f64.to_bits()); for _ in 0..k { r = self.fbin(FOp::Mul, r, x) } ok(tvv(r)) } } }
            "fma" | "fmuladd" => { let x = self.fl(&av[0])?; let y = self.fl(&av[1])?; let z = self.fl(&av[2])?; if let (Some(a), Some(b), Some(c)) = (Self::fconst(x), Self::fconst(y), Self::fconst(z)) { return ok(Val::I(if base == "fma" { a.mul_add(b, c) } else { a * b + c }.to_bits())) } if base == "fma" { return fail("symbolic fma") } let p = self.fbin(FOp::Mul, x, y); return ok(tvv(self.fbin(FOp::Add, p, z))) }
            "pow" | "exp" | "log" | "sin" | "cos" | "exp2" | "log2" | "log10" | "tan" | "atan2" | "atan" => return self.named(base, av, &[], ret),
            _ => {}
        }
        fail(format!("intrinsic llvm.{}", l))
    }
    // ------------------------------------------------------------ harness primitives
    fn prim(&mut self, s: &str, av: Vec<Val>) -> Res<Option<Val>> {
        let ok = |v: Val| -> Res<Option<Val>> { Ok(Some(v)) };
        match s {
            "u8" => ok(self.new_var(0, 8, 0, 255)),
            "stub_u8" => ok(self.new_var(2, 8, 0, 255)),
            "u8_range" => { let lo = self.concrete(&av[0])?; let hi = self.concrete(&av[1])?; ok(self.new_var(0, 8, lo & 255, hi & 255)) }
            "u64" => ok(self.new_var(0, 64, 0, u64::MAX)),
            "u64_range" => { let lo = self.concrete(&av[0])?; let hi = self.concrete(&av[1])?; ok(self.new_var(0, 64, lo, hi)) }
            "f64" => { let lo = self.concrete(&av[0])?; let hi = self.concrete(&av[1])?; ok(self.new_var(1, 64, lo, hi)) }
            "param" => { let i = self.concrete(&av[0])? as usize; match self.params.get(i) { Some(p) => ok(Val::I(*p)), None => fail("missing parameter") } }
            "assume" => {
                let l = self.lit(&av[0])?; let l = self.resolve(l);
                if l == TRUE { return ok(Val::U) }
                if l == FALSE { return Ok(None) }
                self.pc.push(l); self.push_known(l);
                ok(Val::U)
            }
            "check" => { let l = self.lit(&av[0])?; let id = self.concrete(&av[1])? as u32; self.check(l, id)?; ok(Val::U) }
            "expect_panic" => { self.expect_panic = true; ok(Val::U) }
            "end_expect" => { self.expect_panic = false; if std::env::var("SYMEX_VERBOSE").is_ok() { eprintln!("end_expect reached") } self.check(FALSE, 9999)?; ok(Val::U) }
            "stop" => Ok(None),
            "observe" => { let id = self.observed.len() as u32; self.observed.push((id, av[0].clone())); ok(Val::U) }
            "observe_f64" => { let id = self.observed.len() as u32; self.observed.push((id | 1 << 31, av[0].clone())); ok(Val::U) }
            "is_symbolic" => ok(Val::I(1)),
            // is the condition known to be true? (used by the stubs to avoid an undetermined selection; false is always allowed)
            "surely" => { let l = self.lit(&av[0])?; let l = self.resolve(l); ok(Val::I((l == TRUE) as u64)) }
            // conjunction of byte equalities without branching
            "eq_bytes" => {
                let n = self.concrete(&av[2])?; let a = self.concrete(&av[0])?; let b = self.concrete(&av[1])?;
                let v = self.compare(a, b, n)?.unwrap();
                let l = match v { Val::I(c) => if c == 0 { TRUE } else { FALSE }, v => self.icmp(IPred::Eq, 32, &v, &Val::I(0))? };
                ok(lit_val(l))
            }
            // each byte as a separate check: a[i] == b[i]
            "check_bytes" => {
                let n = self.concrete(&av[2])?; let a = self.concrete(&av[0])?; let b = self.concrete(&av[1])?; let id = self.concrete(&av[3])? as u32;
                let mut pairs = vec![];
                for i in 0..n {
                    let x = self.load(a + i, 1)?; let y = self.load(b + i, 1)?;
                    if i < 256 { pairs.push((IPred::Eq, 8, x, y, true)); if pairs.len() == 32 || i + 1 == n { self.confirm_int(&pairs); pairs.clear() } }
                    let l = if x == y { TRUE } else { self.icmp(IPred::Eq, 8, &tvv(x), &tvv(y))? };
                    self.check(l, id)?;
                }
                ok(Val::U)
            }
            // select without a branch
            "ite_u8" => { let l = self.lit(&av[0])?; let l = self.resolve(l); ok(self.ite_val(l, &av[1], &av[2], &Ty::I(8))?) }
            "and" => { let a = self.lit(&av[0])?; let b = self.lit(&av[1])?; ok(lit_val(self.ts.and(a, b))) }
            "or" => { let a = self.lit(&av[0])?; let b = self.lit(&av[1])?; ok(lit_val(self.ts.or(a, b))) }
            _ => fail(format!("unknown primitive sym_{}", s)),
        }
    }
}
