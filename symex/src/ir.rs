//! Parser for the textual LLVM IR the pinned toolchain prints. Function bodies are parsed on first use.
use crate::term::{mask, IOp};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty { Void, I(u32), F64, F32, Ptr, Arr(u64, Arc<Ty>), Struct(Arc<Vec<Ty>>, bool), Vec(u32, Arc<Ty>), Other }
impl Ty {
    pub fn size(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 0,
            Ty::I(w) => match w { 0..=8 => 1, 9..=16 => 2, 17..=32 => 4, 33..=64 => 8, _ => ((*w as u64 + 127) / 128) * 16 },
            Ty::F64 | Ty::Ptr => 8, Ty::F32 => 4,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Vec(n, t) => *n as u64 * t.size(),
            Ty::Struct(f, packed) => { let mut o = 0; let mut a = 1; for t in f.iter() { let al = if *packed { 1 } else { t.align() }; o = (o + al - 1) / al * al + t.size(); a = a.max(al) } (o + a - 1) / a * a }
        }
    }
    /// bytes touched by a load or store
    pub fn store_size(&self) -> u64 { match self { Ty::I(w) if *w <= 64 => (*w as u64 + 7) / 8, t => t.size() } }
    pub fn align(&self) -> u64 {
        match self {
            Ty::Void | Ty::Other => 1,
            Ty::I(_) => self.size().clamp(1, 16),
            Ty::F64 | Ty::Ptr => 8, Ty::F32 => 4,
            Ty::Arr(_, t) => t.align(), Ty::Vec(..) => self.size().next_power_of_two(),
            Ty::Struct(f, p) => if *p { 1 } else { f.iter().map(|t| t.align()).max().unwrap_or(1) },
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => { let mut o = 0; for (k, t) in f.iter().enumerate() { let al = if *packed { 1 } else { t.align() }; o = (o + al - 1) / al * al; if k == i { return o } o += t.size() } o }
            Ty::Arr(_, t) | Ty::Vec(_, t) => t.size() * i as u64,
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty { match self { Ty::Struct(f, _) => f[i].clone(), Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(), _ => Ty::Other } }
    pub fn count(&self) -> usize { match self { Ty::Struct(f, _) => f.len(), Ty::Arr(n, _) => *n as usize, Ty::Vec(n, _) => *n as usize, _ => 0 } }
    pub fn is_agg(&self) -> bool { matches!(self, Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..)) }
}

/// constant value
#[derive(Clone, Debug)]
pub enum K { I(u64), W(u128), Agg(Arc<Vec<K>>), Undef }
#[derive(Clone, Debug)]
pub enum Op { R(u32), K(K) }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum FB { Add, Sub, Mul, Div, Rem }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast { Trunc, ZExt, SExt, PtrToInt, IntToPtr, Bit, UI2F, SI2F, F2UI, F2SI, FExt, FTrunc }
#[derive(Clone, Debug)]
pub enum Ins {
    Bin(u32, IOp, u32, Op, Op),
    FBin(u32, FB, Op, Op, bool),
    FNeg(u32, Op, bool),
    ICmp(u32, IP, u32, Op, Op),
    FCmp(u32, u8, Op, Op, bool),
    Select(u32, Op, Op, Op, Ty),
    Cast(u32, Cast, Ty, Ty, Op),
    Load(u32, Ty, Op),
    Store(Ty, Op, Op),
    Gep(u32, Op, i64, Vec<(Op, u32, i64)>),
    Call { dst: Option<u32>, ret: Ty, callee: Callee, args: Vec<(Ty, Op)>, unwind: bool },
    Extract(u32, Op, Vec<usize>, Ty),
    Insert(u32, Op, Op, Vec<usize>, Ty),
    Alloca(u32, u64, Op),
    Copy(u32, Op, Ty),
    Rmw(u32, Rmw, u32, Op, Op),
    CmpXchg(u32, u32, Op, Op, Op),
    Nop,
    Unsupported(String),
}
#[derive(Clone, Copy, Debug)]
pub enum Rmw { Add, Sub, Xchg, And, Or, Xor, Max, Min, UMax, UMin }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IP { Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge }
#[derive(Clone, Debug)]
pub enum Callee { Sym(u32), Ind(Op) }
#[derive(Clone, Debug)]
pub enum Term { Ret(Option<Op>), Br(u32), CBr(Op, u32, u32), Switch(Op, u32, u32, Vec<(u64, u32)>), Invoke(u32), Unreachable, Resume }
#[derive(Clone, Debug)]
pub struct Phi { pub dst: u32, pub ty: Ty, pub inc: Vec<(Op, u32)> }
#[derive(Clone, Debug)]
pub struct Block { pub phis: Vec<Phi>, pub ins: Vec<Ins>, pub term: Term }
#[derive(Debug)]
pub struct Func { pub name: String, pub params: Vec<(u32, Ty)>, pub ret: Ty, pub nregs: u32, pub blocks: Vec<Block>, pub ipdom: Vec<u32>, pub defblk: Vec<u32>, pub dom: Vec<u32>, pub reg_ty: Vec<Ty> }
pub const NOBLK: u32 = u32::MAX;

pub struct Global { pub name: String, pub data: Vec<u8>, pub size: u64, pub constant: bool }
pub struct FuncSrc { pub name: String, pub range: (usize, usize), pub header: (usize, usize), pub decl: bool, pub noret: bool, pub parsed: OnceLock<Result<Arc<Func>, String>> }
pub struct Module { pub text: String, pub funcs: Vec<FuncSrc>, pub fidx: HashMap<String, u32>, pub globals: Vec<Global>, pub gaddr: HashMap<String, u64>, pub types: HashMap<String, Ty> }

pub const FUNC_BASE: u64 = 0x7000_0000; // object ids of functions
pub const GLOB_BASE: u64 = 0x1000_0000; // object ids of globals
pub fn fn_addr(i: u32) -> u64 { (FUNC_BASE + i as u64) << 32 }
pub fn gl_addr(i: u32) -> u64 { (GLOB_BASE + i as u64) << 32 }

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
enum Tok<'a> { W(&'a str), P(char), S(&'a str) }
fn lex(s: &str) -> Vec<Tok<'_>> {
    let b = s.as_bytes(); let mut i = 0; let mut v = Vec::with_capacity(s.len() / 4);
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => { while i < b.len() && b[i] != b'\n' { i += 1 } }
            b'"' => { let st = i; i += 1; while b[i] != b'"' { i += 1 } i += 1; v.push(Tok::S(&s[st..i])) }
            b'%' | b'@' if i + 1 < b.len() && b[i + 1] == b'"' => { let st = i; i += 2; while b[i] != b'"' { i += 1 } i += 1; v.push(Tok::W(&s[st..i])) }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => { let st = i; i += 2; while b[i] != b'"' { i += 1 } i += 1; v.push(Tok::S(&s[st..i])) }
            b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'<' | b'>' | b',' | b'=' | b'*' | b'!' | b'#' | b':' => { v.push(Tok::P(c as char)); i += 1 }
            _ => { let st = i; while i < b.len() && !matches!(b[i], b' ' | b'\t' | b'\n' | b'(' | b')' | b'[' | b']' | b'{' | b'}' | b'<' | b'>' | b',' | b'=' | b'*' | b'!' | b'"' | b'#' | b':') { i += 1 } if i == st { i += 1 } v.push(Tok::W(&s[st..i])) }
        }
    }
    v
}

struct P<'a> { t: Vec<Tok<'a>>, i: usize, m: &'a Module, regs: HashMap<String, u32> }
type R<T> = Result<T, String>;
impl<'a> P<'a> {
    fn new(s: &'a str, m: &'a Module) -> Self { P { t: lex(s), i: 0, m, regs: HashMap::new() } }
    fn peek(&self) -> Option<&Tok<'a>> { self.t.get(self.i) }
    fn isw(&self, w: &str) -> bool { matches!(self.peek(), Some(Tok::W(x)) if *x == w) }
    fn isp(&self, c: char) -> bool { matches!(self.peek(), Some(Tok::P(x)) if *x == c) }
    fn eatw(&mut self, w: &str) -> bool { if self.isw(w) { self.i += 1; true } else { false } }
    fn eatp(&mut self, c: char) -> bool { if self.isp(c) { self.i += 1; true } else { false } }
    fn exp(&mut self, c: char) -> R<()> { if self.eatp(c) { Ok(()) } else { Err(format!("expected {} at {:?}", c, &self.t[self.i.min(self.t.len())..(self.i + 6).min(self.t.len())])) } }
    fn word(&mut self) -> R<&'a str> { match self.peek() { Some(Tok::W(x)) => { let x = *x; self.i += 1; Ok(x) } t => Err(format!("expected word, got {:?}", t)) } }
    fn skip_paren(&mut self) { let mut d = 0; while let Some(t) = self.peek() { match t { Tok::P('(') => d += 1, Tok::P(')') => d -= 1, _ => {} } self.i += 1; if d == 0 { break } } }
    fn ty(&mut self) -> R<Ty> {
        let t = self.peek().cloned().ok_or("eof")?;
        self.i += 1;
        let r = match t {
            Tok::W("void") => Ty::Void, Tok::W("double") => Ty::F64, Tok::W("float") => Ty::F32, Tok::W("ptr") => Ty::Ptr,
            Tok::W("label") | Tok::W("metadata") | Tok::W("token") => Ty::Other,
            Tok::W(w) if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) && w.len() > 1 => Ty::I(w[1..].parse().unwrap()),
            Tok::W(w) if w.starts_with('%') => self.m.types.get(w).cloned().ok_or(format!("type {}", w))?,
            Tok::P('[') => { let n = self.word()?.parse().map_err(|_| "n")?; if !self.eatw("x") { return Err("x".into()) } let t = self.ty()?; self.exp(']')?; Ty::Arr(n, Arc::new(t)) }
            Tok::P('{') => { let mut f = vec![]; if !self.eatp('}') { loop { f.push(self.ty()?); if self.eatp('}') { break } self.exp(',')?; } } Ty::Struct(Arc::new(f), false) }
            Tok::P('<') => {
                if self.eatp('{') { let mut f = vec![]; if !self.eatp('}') { loop { f.push(self.ty()?); if self.eatp('}') { break } self.exp(',')?; } } self.exp('>')?; Ty::Struct(Arc::new(f), true) }
                else { let n = self.word()?.parse().map_err(|_| "n")?; if !self.eatw("x") { return Err("x".into()) } let t = self.ty()?; self.exp('>')?; Ty::Vec(n, Arc::new(t)) }
            }
            t => return Err(format!("type? {:?}", t)),
        };
        if self.isw("addrspace") { self.i += 1; self.skip_paren(); }
        Ok(r)
    }
    fn is_const_kw(w: &str) -> bool {
        w.starts_with('%') || w.starts_with('@') || w.starts_with('-') || w.as_bytes()[0].is_ascii_digit() || matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "add" | "sub" | "blockaddress" | "splat" | "xor" | "asm" | "ptrtoaddr") || w.starts_with("f0x") || w.starts_with("u0x") || w.starts_with("s0x")
    }
    fn attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::W(w)) if !Self::is_const_kw(w) => { let al = *w == "align"; self.i += 1; if self.isp('(') { self.skip_paren() } else if al { self.i += 1 } }
                Some(Tok::S(_)) => self.i += 1,
                Some(Tok::P('#')) => { self.i += 2 }
                _ => break,
            }
        }
    }
    fn reg(&mut self, n: &str) -> u32 { if let Some(r) = self.regs.get(n) { return *r } let k = self.regs.len() as u32; self.regs.insert(n.to_string(), k); k }
    fn sym_addr(&self, w: &str) -> R<u64> {
        if let Some(i) = self.m.fidx.get(w) { return Ok(fn_addr(*i)) }
        if let Some(a) = self.m.gaddr.get(w) { return Ok(*a) }
        Err(format!("unknown symbol {}", w))
    }
    fn konst(&mut self, ty: &Ty) -> R<K> { match self.val(ty)? { Op::K(k) => Ok(k), _ => Err("constant expected".into()) } }
    fn val(&mut self, ty: &Ty) -> R<Op> {
        let t = self.peek().cloned().ok_or("eof")?;
        self.i += 1;
        Ok(Op::K(match t {
            Tok::W(w) if w.starts_with('%') => return Ok(Op::R(self.reg(w))),
            Tok::W(w) if w.starts_with('@') => K::I(self.sym_addr(w)?),
            Tok::W("true") => K::I(1), Tok::W("false") => K::I(0), Tok::W("null") => K::I(0), Tok::W("none") => K::I(0),
            Tok::W("undef") | Tok::W("poison") => Self::zero(ty, true),
            Tok::W("zeroinitializer") => Self::zero(ty, false),
            Tok::W("getelementptr") => {
                while !self.isp('(') { self.i += 1; }
                self.exp('(')?;
                let bt = self.ty()?; self.exp(',')?;
                let pt = self.ty()?; let base = match self.konst(&pt)? { K::I(a) => a, _ => return Err("gep".into()) };
                let mut off = 0i64; let mut cur = bt; let mut first = true;
                while self.eatp(',') { let it = self.ty()?; let iv = match self.konst(&it)? { K::I(a) => a as i64, _ => 0 }; if first { off += iv * cur.size() as i64; first = false } else { off += cur.field_off(iv as usize) as i64; cur = cur.elem(iv as usize) } }
                self.exp(')')?;
                K::I(base.wrapping_add(off as u64))
            }
            Tok::W("inttoptr") | Tok::W("ptrtoint") | Tok::W("bitcast") | Tok::W("trunc") | Tok::W("ptrtoaddr") => {
                self.exp('(')?; let a = self.ty()?; let v = self.konst(&a)?; if !self.eatw("to") { return Err("to".into()) } let b = self.ty()?; self.exp(')')?;
                match (v, &b) { (K::I(x), Ty::I(w)) => K::I(x & mask(*w)), (v, _) => v }
            }
            Tok::W("add") | Tok::W("sub") => {
                let sub = matches!(t, Tok::W("sub"));
                while !self.isp('(') { self.i += 1; }
                self.exp('(')?; let a = self.ty()?; let x = self.konst(&a)?; self.exp(',')?; let b = self.ty()?; let y = self.konst(&b)?; self.exp(')')?;
                match (x, y) { (K::I(x), K::I(y)) => K::I(if sub { x.wrapping_sub(y) } else { x.wrapping_add(y) }), _ => return Err("constexpr".into()) }
            }
            Tok::W("splat") => { self.exp('(')?; let a = self.ty()?; let v = self.konst(&a)?; self.exp(')')?; K::Agg(Arc::new(vec![v; ty.count()])) }
            Tok::W(w) => match ty {
                Ty::F64 => K::I(parse_f64(w)?),
                Ty::F32 => K::I((f64::from_bits(parse_f64(w)?) as f32).to_bits() as u64),
                Ty::I(wd) => parse_int(w, *wd)?,
                Ty::Ptr => K::I(w.parse().map_err(|_| format!("ptr const {}", w))?),
                _ => return Err(format!("const {:?} {}", ty, w)),
            },
            Tok::S(s) if s.starts_with('c') => {
                let b = &s.as_bytes()[2..s.len() - 1]; let mut v = vec![]; let mut i = 0;
                while i < b.len() { if b[i] == b'\\' && i + 2 < b.len() + 0 && b[i + 1].is_ascii_hexdigit() { v.push(K::I(u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap() as u64)); i += 3 } else if b[i] == b'\\' { v.push(K::I(b'\\' as u64)); i += 2 } else { v.push(K::I(b[i] as u64)); i += 1 } }
                K::Agg(Arc::new(v))
            }
            Tok::P('[') | Tok::P('{') | Tok::P('<') => {
                let packed = t == Tok::P('<') && self.eatp('{');
                let close = match t { Tok::P('[') => ']', Tok::P('{') => '}', _ => if packed { '}' } else { '>' } };
                let mut v = vec![];
                if !self.eatp(close) { loop { let et = self.ty()?; v.push(self.konst(&et)?); if self.eatp(close) { break } self.exp(',')?; } }
                if packed { self.exp('>')?; }
                K::Agg(Arc::new(v))
            }
            t => return Err(format!("value? {:?}", t)),
        }))
    }
    fn zero(ty: &Ty, undef: bool) -> K {
        match ty {
            Ty::Arr(n, t) => K::Agg(Arc::new(vec![Self::zero(t, undef); *n as usize])),
            Ty::Vec(n, t) => K::Agg(Arc::new(vec![Self::zero(t, undef); *n as usize])),
            Ty::Struct(f, _) => K::Agg(Arc::new(f.iter().map(|t| Self::zero(t, undef)).collect())),
            Ty::I(w) if *w > 64 => K::W(0),
            _ => if undef { K::Undef } else { K::I(0) },
        }
    }
    fn tval(&mut self) -> R<(Ty, Op)> { let t = self.ty()?; self.attrs(); let v = self.val(&t)?; Ok((t, v)) }
}
fn parse_f64(w: &str) -> R<u64> {
    if let Some(h) = w.strip_prefix("f0x") { return u64::from_str_radix(h, 16).map_err(|e| e.to_string()) }
    if let Some(h) = w.strip_prefix("0x") { return u64::from_str_radix(h, 16).map_err(|e| e.to_string()) }
    match w { "+inf" | "inf" => return Ok(f64::INFINITY.to_bits()), "-inf" => return Ok(f64::NEG_INFINITY.to_bits()), "+qnan" | "qnan" | "nan" => return Ok(f64::NAN.to_bits()), "-qnan" => return Ok((-f64::NAN).to_bits()), _ => {} }
    w.parse::<f64>().map(|x| x.to_bits()).map_err(|e| format!("{} {}", w, e))
}
fn parse_int(w: &str, wd: u32) -> R<K> {
    let m = crate::term::mask128(wd);
    let v: u128 = if let Some(h) = w.strip_prefix("u0x").or(w.strip_prefix("s0x")) { u128::from_str_radix(h, 16).map_err(|e| e.to_string())? } else if w.starts_with('-') { w.parse::<i128>().map_err(|e| format!("{} {}", w, e))? as u128 } else { w.parse::<u128>().map_err(|e| format!("{} {}", w, e))? } & m;
    Ok(if wd > 64 { K::W(v) } else { K::I(v as u64) })
}

impl Module {
    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
        let mut m = Module { text: String::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gaddr: HashMap::new(), types: HashMap::new() };
        let mut gl: Vec<(String, usize, usize)> = vec![];
        let mut pos = 0;
        let mut tydefs: Vec<(String, &str)> = vec![];
        let b = text.as_bytes();
        while pos < b.len() {
            let end = text[pos..].find('\n').map(|k| pos + k).unwrap_or(b.len());
            let line = &text[pos..end];
            if line.starts_with("define") || line.starts_with("declare") {
                let at = find_sym(line).ok_or("define without name")?;
                let name = sym_at(line, at);
                let decl = line.starts_with("declare");
                let mut r = (0, 0); let mut e2 = end;
                if !decl { let close = text[end..].find("\n}").ok_or("no end")? + end; r = (end + 1, close + 1); e2 = close + 2; }
                let idx = m.funcs.len() as u32;
                m.fidx.insert(name.to_string(), idx);
                m.funcs.push(FuncSrc { name: name.to_string(), range: r, header: (pos, end), decl, noret: false, parsed: OnceLock::new() });
                pos = e2 + 1;
                continue;
            }
            if line.starts_with('@') {
                let name = sym_at(line, 0);
                let idx = gl.len() as u32;
                if line[name.len()..].starts_with(" = ") && !line.contains(" alias ") {
                    m.gaddr.insert(name.to_string(), gl_addr(idx));
                    gl.push((name.to_string(), pos, end));
                } else if line.contains(" alias ") {
                    // alias ptr @target : resolved after the scan
                    gl.push((name.to_string(), pos, end));
                    m.gaddr.insert(name.to_string(), gl_addr(idx));
                }
            } else if line.starts_with('%') {
                let n = sym_at(line, 0);
                if let Some(k) = line.find(" = type ") { tydefs.push((n.to_string(), &line[k + 8..])) }
            }
            pos = end + 1;
        }
        let mut groups: Vec<String> = vec![];
        for l in text.lines().rev().take(20000) { if l.starts_with("attributes #") && l.contains(" noreturn ") { groups.push(format!(" {} ", l.split_whitespace().nth(1).unwrap())); } }
        for f in m.funcs.iter_mut() { let h = format!("{} ", &text[f.header.0..f.header.1]); f.noret = is_panic(&f.name) || groups.iter().any(|g| h.contains(g.as_str())); }
        for _ in 0..4 { for (n, d) in &tydefs { if m.types.contains_key(n) { continue } let r = { let mut p = P::new(d, &m); p.ty() }; if let Ok(t) = r { m.types.insert(n.clone(), t); } } }
        // parse initialisers
        let mut parsed: Vec<Global> = vec![];
        for (name, s, e) in &gl {
            let line = &text[*s..*e];
            let mut p = P::new(&line[name.len()..], &m);
            p.exp('=')?;
            let mut constant = false; let mut ext = false; let mut alias = false;
            loop {
                match p.peek() {
                    Some(Tok::W("constant")) => { constant = true; p.i += 1; break }
                    Some(Tok::W("global")) => { p.i += 1; break }
                    Some(Tok::W("alias")) => { alias = true; break }
                    Some(Tok::W("external")) | Some(Tok::W("extern_weak")) => { ext = true; p.i += 1 }
                    Some(Tok::P('(')) => p.skip_paren(),
                    Some(_) => p.i += 1,
                    None => return Err(format!("global {}", line)),
                }
            }
            if alias { parsed.push(Global { name: name.clone(), data: vec![], size: 0, constant: true }); continue }
            let ty = p.ty()?;
            let size = ty.size();
            let mut data = vec![0u8; size as usize];
            if !ext { match p.konst(&ty) { Ok(k) => put(&mut data, 0, &ty, &k), Err(e) => return Err(format!("init {}: {}", name, e)) } }
            parsed.push(Global { name: name.clone(), data, size, constant });
        }
        // aliases to functions
        for (name, s, e) in &gl { let line = &text[*s..*e]; if line.contains(" alias ") { if let Some(k) = line.rfind('@') { let tgt = sym_at(line, k); if let Some(i) = m.fidx.get(tgt) { let i = *i; m.fidx.insert(name.clone(), i); } } } }
        m.globals = parsed;
        m.text = text;
        Ok(m)
    }
    pub fn func(&self, i: u32) -> R<Arc<Func>> {
        let f = &self.funcs[i as usize];
        f.parsed.get_or_init(|| self.parse_func(f).map(Arc::new).map_err(|e| format!("{}: {}", f.name, e))).clone()
    }
    fn parse_func(&self, f: &FuncSrc) -> R<Func> {
        let head = &self.text[f.header.0..f.header.1];
        let at = find_sym(head).ok_or("name")?;
        let pre = &head[..at];
        let mut p = P::new(pre, self);
        p.i = 1;
        let ret = { let mut r = None; while p.i < p.t.len() { let save = p.i; if let Some(Tok::W(w)) = p.peek() { if matches!(*w, "range" | "align" | "dereferenceable" | "dereferenceable_or_null" | "captures" | "memory" | "nofpclass") { p.i += 1; if p.isp('(') { p.skip_paren() } else { p.i += 1 } continue } } match p.ty() { Ok(t) => { r = Some(t); } Err(_) => { p.i = save + 1; } } } r.ok_or("ret type")? };
        let rest = &head[at..];
        let name = sym_at(rest, 0);
        let mut p = P::new(&rest[name.len()..], self);
        p.exp('(')?;
        let mut params = vec![];
        let mut unnamed = 0;
        if !p.eatp(')') { loop {
            if p.eatw("...") { p.exp(')')?; break }
            let t = p.ty()?; p.attrs();
            let n = if let Some(Tok::W(w)) = p.peek() { if w.starts_with('%') { let w = w.to_string(); p.i += 1; w } else { format!("%{}", unnamed) } } else { format!("%{}", unnamed) };
            if n[1..].bytes().all(|c| c.is_ascii_digit()) { unnamed += 1; }
            let r = p.reg(&n); params.push((r, t));
            if p.eatp(')') { break } p.exp(',')?;
        } }
        let mut regs = std::mem::take(&mut p.regs);
        // split body into blocks of logical lines
        let body = &self.text[f.range.0..f.range.1];
        let mut lines: Vec<String> = vec![];
        let mut insw = false;
        for l in body.lines() {
            let t = l.trim();
            if t.is_empty() || t.starts_with(';') { continue }
            if insw { let k = lines.len() - 1; lines[k].push(' '); lines[k].push_str(t); if t.starts_with(']') { insw = false } continue }
            if t.starts_with("to label") || (l.starts_with("          ") && (t.starts_with("cleanup") || t.starts_with("catch") || t.starts_with("filter"))) { let k = lines.len() - 1; lines[k].push(' '); lines[k].push_str(t); continue }
            if t.starts_with("switch ") && !t.contains(']') { insw = true }
            lines.push(if l.starts_with(' ') { t.to_string() } else { format!("\u{1}{}", t) });
        }
        let mut blk: HashMap<String, u32> = HashMap::new();
        let mut first_label = None;
        for (i, l) in lines.iter().enumerate() { if let Some(x) = l.strip_prefix('\u{1}') { let n = label(x); let k = blk.len() as u32; if i == 0 { first_label = Some(n.clone()) } if i != 0 && blk.is_empty() && first_label.is_none() { blk.insert("%<entry>".into(), 0); let k = blk.len() as u32; blk.insert(n, k); } else { blk.insert(n, k); } } }
        if blk.is_empty() { blk.insert("%<entry>".into(), 0); }
        let nblk = blk.len();
        if first_label.is_none() { blk.entry(format!("%{}", unnamed)).or_insert(0); }
        let mut blocks: Vec<Block> = vec![];
        let mut cur = Block { phis: vec![], ins: vec![], term: Term::Unreachable };
        let mut started = false;
        for l in &lines {
            if l.starts_with('\u{1}') { if started { blocks.push(std::mem::replace(&mut cur, Block { phis: vec![], ins: vec![], term: Term::Unreachable })) } started = true; continue }
            started = true;
            let mut p = P::new(l, self);
            p.regs = std::mem::take(&mut regs);
            // strip trailing metadata: ", !name !N"
            if let Some(k) = p.t.windows(2).position(|w| w[0] == Tok::P(',') && w[1] == Tok::P('!')) { p.t.truncate(k) }
            let r = parse_ins(&mut p, &blk, &mut cur);
            if let Err(e) = r { p.i = 0; let dst = if matches!(p.t.get(1), Some(Tok::P('='))) { if let Tok::W(w) = p.t[0] { let w = w.to_string(); p.reg(&w); } 1 } else { 0 }; let _ = dst; let is_term = l.starts_with("br ") || l.starts_with("switch") || l.starts_with("ret") || l.contains("invoke "); if is_term { regs = std::mem::take(&mut p.regs); drop(p); let _ = regs; return Err(format!("{} in `{}`", e, l)) } cur.ins.push(Ins::Unsupported(format!("{} in `{}`", e, l))); }
            regs = std::mem::take(&mut p.regs);
        }
        blocks.push(cur);
        if blocks.len() != nblk { return Err(format!("block count {} {}", blocks.len(), nblk)) }
        let nregs = regs.len() as u32;
        let mut fun = Func { name: f.name.clone(), params, ret, nregs, blocks, ipdom: vec![], defblk: vec![0; nregs as usize], dom: vec![], reg_ty: vec![Ty::Other; nregs as usize] };
        analyse(&mut fun, self);
        Ok(fun)
    }
    /// functions that never return normally
    pub fn noreturn(&self, i: u32) -> bool { self.funcs[i as usize].noret }
}
pub fn is_panic(n: &str) -> bool {
    n.contains("9panicking") || n.contains("rust_begin_unwind") || n.contains("handle_alloc_error") || n.contains("12handle_error") || n.contains("13unwrap_failed") || n.contains("13expect_failed") || n == "@abort" || n.contains("panic_bounds_check") || n.contains("slice_index_fail") || n.contains("17capacity_overflow") || n.contains("panic_fmt") || n.contains("array_out_of_bounds") || n == "@llvm.trap" || n.contains("len_mismatch_fail") || n.contains("3std7process5abort")
}
fn find_sym(line: &str) -> Option<usize> { line.find('@') }
fn sym_at(line: &str, at: usize) -> &str {
    let b = line.as_bytes();
    let mut i = at + 1;
    if i < b.len() && b[i] == b'"' { i += 1; while b[i] != b'"' { i += 1 } return &line[at..=i] }
    while i < b.len() && (b[i].is_ascii_alphanumeric() || matches!(b[i], b'_' | b'.' | b'$' | b'-')) { i += 1 }
    &line[at..i]
}
fn label(l: &str) -> String { let k = l.find(':').unwrap(); format!("%{}", &l[..k]) }
fn put(d: &mut [u8], off: usize, ty: &Ty, k: &K) {
    match k {
        K::Undef => {}
        K::I(v) => { let n = ty.size() as usize; for i in 0..n.min(8) { d[off + i] = (v >> (8 * i)) as u8 } }
        K::W(v) => { for i in 0..16 { d[off + i] = (v >> (8 * i)) as u8 } }
        K::Agg(e) => for (i, x) in e.iter().enumerate() { put(d, off + ty.field_off(i) as usize, &ty.elem(i), x) },
    }
}
fn parse_ins(p: &mut P, blk: &HashMap<String, u32>, cur: &mut Block) -> R<()> {
    let mut dst = 0u32; let mut has = false;
    if matches!(p.t.get(1), Some(Tok::P('='))) { let w = p.word()?.to_string(); dst = p.reg(&w); has = true; p.i += 1; }
    let lab = |w: &str| blk.get(w).copied().ok_or(format!("label {}", w));
    let op = p.word()?;
    let flags = |p: &mut P| { let mut fast = false; while let Some(Tok::W(w)) = p.peek() { match *w { "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "samesign" | "volatile" | "nusw" => p.i += 1, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" => { fast = true; p.i += 1 } _ => break } } fast };
    match op {
        "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
            flags(p);
            let t = p.ty()?; let a = p.val(&t)?; p.exp(',')?; let b = p.val(&t)?;
            let o = match op { "add" => IOp::Add, "sub" => IOp::Sub, "mul" => IOp::Mul, "udiv" => IOp::UDiv, "sdiv" => IOp::SDiv, "urem" => IOp::URem, "srem" => IOp::SRem, "shl" => IOp::Shl, "lshr" => IOp::LShr, "ashr" => IOp::AShr, "and" => IOp::And, "or" => IOp::Or, _ => IOp::Xor };
            let w = match t { Ty::I(w) => w, _ => return Err("vector arithmetic".into()) };
            cur.ins.push(Ins::Bin(dst, o, w, a, b));
        }
        "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
            flags(p);
            let t = p.ty()?; let a = p.val(&t)?; p.exp(',')?; let b = p.val(&t)?;
            let o = match op { "fadd" => FB::Add, "fsub" => FB::Sub, "fmul" => FB::Mul, "fdiv" => FB::Div, _ => FB::Rem };
            match t { Ty::F64 => cur.ins.push(Ins::FBin(dst, o, a, b, false)), Ty::F32 => cur.ins.push(Ins::FBin(dst, o, a, b, true)), _ => return Err("float type".into()) }
        }
        "fneg" => { flags(p); let t = p.ty()?; let a = p.val(&t)?; cur.ins.push(Ins::FNeg(dst, a, t == Ty::F32)) }
        "icmp" => {
            flags(p);
            let pr = match p.word()? { "eq" => IP::Eq, "ne" => IP::Ne, "ult" => IP::Ult, "ule" => IP::Ule, "ugt" => IP::Ugt, "uge" => IP::Uge, "slt" => IP::Slt, "sle" => IP::Sle, "sgt" => IP::Sgt, "sge" => IP::Sge, x => return Err(x.into()) };
            let t = p.ty()?; let a = p.val(&t)?; p.exp(',')?; let b = p.val(&t)?;
            let w = match t { Ty::I(w) => w, Ty::Ptr => 64, _ => return Err("icmp type".into()) };
            cur.ins.push(Ins::ICmp(dst, pr, w, a, b));
        }
        "fcmp" => {
            flags(p);
            let c = match p.word()? { "false" => 0, "oeq" => 1, "ogt" => 2, "oge" => 3, "olt" => 4, "ole" => 5, "one" => 6, "ord" => 7, "uno" => 8, "ueq" => 9, "ugt" => 10, "uge" => 11, "ult" => 12, "ule" => 13, "une" => 14, "true" => 15, x => return Err(x.into()) };
            let t = p.ty()?; let a = p.val(&t)?; p.exp(',')?; let b = p.val(&t)?;
            if t != Ty::F64 && t != Ty::F32 { return Err("fcmp type".into()) }
            cur.ins.push(Ins::FCmp(dst, c, a, b, t == Ty::F32));
        }
        "select" => {
            flags(p);
            let ct = p.ty()?; if ct != Ty::I(1) { return Err("vector select".into()) }
            let c = p.val(&ct)?; p.exp(',')?; let (t, a) = p.tval()?; p.exp(',')?; let (_, b) = p.tval()?;
            cur.ins.push(Ins::Select(dst, c, a, b, t));
        }
        "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "uitofp" | "sitofp" | "fptoui" | "fptosi" | "fpext" | "fptrunc" | "ptrtoaddr" | "addrspacecast" => {
            flags(p);
            let (f, v) = p.tval()?; if !p.eatw("to") { return Err("to".into()) } let t = p.ty()?;
            if matches!(f, Ty::Vec(..)) || matches!(t, Ty::Vec(..)) { return Err("vector cast".into()) }
            let c = match op { "trunc" => Cast::Trunc, "zext" => Cast::ZExt, "sext" => Cast::SExt, "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt, "inttoptr" => Cast::IntToPtr, "uitofp" => Cast::UI2F, "sitofp" => Cast::SI2F, "fptoui" => Cast::F2UI, "fptosi" => Cast::F2SI, "fpext" => Cast::FExt, "fptrunc" => Cast::FTrunc, _ => Cast::Bit };
            cur.ins.push(Ins::Cast(dst, c, f, t, v));
        }
        "load" => { p.eatw("atomic"); flags(p); let t = p.ty()?; p.exp(',')?; let (_, a) = p.tval()?; cur.ins.push(Ins::Load(dst, t, a)) }
        "store" => { p.eatw("atomic"); flags(p); let (t, v) = p.tval()?; p.exp(',')?; let (_, a) = p.tval()?; cur.ins.push(Ins::Store(t, v, a)) }
        "getelementptr" => {
            flags(p);
            while p.isw("inrange") { p.i += 1; p.skip_paren(); }
            let bt = p.ty()?; p.exp(',')?;
            let (_, base) = p.tval()?;
            let mut off = 0i64; let mut idx = vec![]; let mut c = bt; let mut first = true;
            while p.eatp(',') {
                let it = p.ty()?; let iv = p.val(&it)?;
                let w = match it { Ty::I(w) => w, _ => return Err("gep index".into()) };
                if first {
                    let sz = c.size() as i64;
                    match iv { Op::K(K::I(v)) => off += crate::term::sext(v, w).wrapping_mul(sz), Op::K(_) => {}, r => idx.push((r, w, sz)) }
                    first = false;
                } else {
                    match (&c, iv) {
                        (Ty::Struct(..), Op::K(K::I(v))) => { off += c.field_off(v as usize) as i64; c = c.elem(v as usize) }
                        (Ty::Arr(..) | Ty::Vec(..), Op::K(K::I(v))) => { let e = c.elem(0); off += crate::term::sext(v, w) * e.size() as i64; c = e }
                        (Ty::Arr(..) | Ty::Vec(..), r) => { let e = c.elem(0); idx.push((r, w, e.size() as i64)); c = e }
                        _ => return Err("gep".into()),
                    }
                }
            }
            cur.ins.push(Ins::Gep(dst, base, off, idx));
        }
        "phi" => {
            flags(p);
            let ty = p.ty()?; let mut inc = vec![];
            loop { p.exp('[')?; let v = p.val(&ty)?; p.exp(',')?; let b = lab(p.word()?)?; p.exp(']')?; inc.push((v, b)); if !p.eatp(',') { break } }
            cur.phis.push(Phi { dst, ty, inc });
        }
        "call" | "tail" | "musttail" | "notail" | "invoke" => {
            let inv = op == "invoke";
            if !inv && op != "call" { p.word()?; }
            // skip return attributes, calling convention
            let ret;
            loop {
                match p.peek() {
                    Some(Tok::W(w)) if matches!(*w, "fastcc" | "ccc" | "coldcc" | "noundef" | "nonnull" | "noalias" | "zeroext" | "signext" | "inreg" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") => p.i += 1,
                    Some(Tok::W(w)) if matches!(*w, "range" | "align" | "dereferenceable" | "dereferenceable_or_null" | "nofpclass" | "memory" | "captures") => { p.i += 1; if p.isp('(') { p.skip_paren() } else { p.i += 1 } }
                    _ => { ret = p.ty()?; break }
                }
            }
            if p.isp('(') { p.skip_paren(); } // function type for varargs
            if p.isw("asm") {
                // inline assembly used as an optimisation barrier only
                let txt: Vec<String> = p.t[p.i..].iter().filter_map(|t| if let Tok::S(s) = t { Some(s.to_string()) } else { None }).collect();
                if txt.first().map(|s| s == "\"\"").unwrap_or(false) {
                    cur.ins.push(if has { Ins::Unsupported("asm with result".into()) } else { Ins::Nop });
                    return Ok(());
                }
                return Err("inline asm".into());
            }
            let cw = p.word()?;
            let callee = if cw.starts_with('@') {
                match p.m.fidx.get(cw) { Some(i) => Callee::Sym(*i), None => return Err(format!("callee {}", cw)) }
            } else if cw.starts_with('%') { Callee::Ind(Op::R(p.reg(cw))) } else { return Err(format!("callee {}", cw)) };
            p.exp('(')?;
            let mut args = vec![];
            if !p.eatp(')') { loop {
                let t = p.ty()?;
                if t == Ty::Other { // metadata: skip to , or ) at depth 0
                    let mut d = 0; while let Some(x) = p.peek() { match x { Tok::P('(') => d += 1, Tok::P(')') if d == 0 => break, Tok::P(')') => d -= 1, Tok::P(',') if d == 0 => break, _ => {} } p.i += 1 }
                    args.push((t, Op::K(K::Undef)));
                } else { p.attrs(); let v = p.val(&t)?; args.push((t, v)); }
                if p.eatp(')') { break } p.exp(',')?;
            } }
            let mut normal = 0;
            if inv { while !p.isw("to") { p.i += 1; if p.i >= p.t.len() { return Err("invoke".into()) } } p.i += 1; p.word()?; normal = lab(p.word()?)?; }
            cur.ins.push(Ins::Call { dst: if has { Some(dst) } else { None }, ret, callee, args, unwind: inv });
            if inv { cur.term = Term::Invoke(normal) }
        }
        "extractvalue" => { let (t, v) = p.tval()?; let mut ix: Vec<usize> = vec![]; while p.eatp(',') { ix.push(p.word()?.parse().map_err(|_| "idx")?) } let mut r = t; for &i in &ix { r = r.elem(i) } cur.ins.push(Ins::Extract(dst, v, ix, r)) }
        "insertvalue" => { let (t, v) = p.tval()?; p.exp(',')?; let (_, e) = p.tval()?; let mut ix = vec![]; while p.eatp(',') { ix.push(p.word()?.parse().map_err(|_| "idx")?) } cur.ins.push(Ins::Insert(dst, v, e, ix, t)) }
        "extractelement" => { let (t, v) = p.tval()?; p.exp(',')?; let (_, e) = p.tval()?; match e { Op::K(K::I(i)) => cur.ins.push(Ins::Extract(dst, v, vec![i as usize], t.elem(0))), _ => return Err("dynamic extractelement".into()) } }
        "insertelement" => { let (t, v) = p.tval()?; p.exp(',')?; let (_, x) = p.tval()?; p.exp(',')?; let (_, e) = p.tval()?; match e { Op::K(K::I(i)) => cur.ins.push(Ins::Insert(dst, v, x, vec![i as usize], t)), _ => return Err("dynamic insertelement".into()) } }
        "alloca" => { p.eatw("inalloca"); let t = p.ty()?; let mut n = Op::K(K::I(1)); if p.eatp(',') { if p.isw("align") {} else { let (_, v) = p.tval()?; n = v } } cur.ins.push(Ins::Alloca(dst, t.size(), n)) }
        "freeze" => { let (t, v) = p.tval()?; cur.ins.push(Ins::Copy(dst, v, t)) }
        "atomicrmw" => {
            flags(p);
            let o = match p.word()? { "add" => Rmw::Add, "sub" => Rmw::Sub, "xchg" => Rmw::Xchg, "and" => Rmw::And, "or" => Rmw::Or, "xor" => Rmw::Xor, "max" => Rmw::Max, "min" => Rmw::Min, "umax" => Rmw::UMax, "umin" => Rmw::UMin, x => return Err(x.into()) };
            let (_, a) = p.tval()?; p.exp(',')?; let (t, v) = p.tval()?;
            cur.ins.push(Ins::Rmw(dst, o, t.size() as u32 * 8, a, v));
        }
        "cmpxchg" => { p.eatw("weak"); flags(p); let (_, a) = p.tval()?; p.exp(',')?; let (t, e) = p.tval()?; p.exp(',')?; let (_, n) = p.tval()?; cur.ins.push(Ins::CmpXchg(dst, t.size() as u32 * 8, a, e, n)) }
        "fence" | "landingpad" => cur.ins.push(Ins::Nop),
        "resume" => cur.term = Term::Resume,
        "unreachable" => cur.term = Term::Unreachable,
        "ret" => { if p.isw("void") { cur.term = Term::Ret(None) } else { let (_, v) = p.tval()?; cur.term = Term::Ret(Some(v)) } }
        "br" => {
            if p.eatw("label") { cur.term = Term::Br(lab(p.word()?)?) }
            else { let (_, c) = p.tval()?; p.exp(',')?; p.word()?; let a = lab(p.word()?)?; p.exp(',')?; p.word()?; let b = lab(p.word()?)?; cur.term = Term::CBr(c, a, b) }
        }
        "switch" => {
            let t = p.ty()?; let v = p.val(&t)?; p.exp(',')?; p.word()?; let d = lab(p.word()?)?; p.exp('[')?;
            let mut cs = vec![];
            while !p.eatp(']') { let k = match p.tval()?.1 { Op::K(K::I(k)) => k, _ => return Err("case".into()) }; p.exp(',')?; p.word()?; cs.push((k, lab(p.word()?)?)) }
            let w = match t { Ty::I(w) => w, _ => 64 };
            cur.term = Term::Switch(v, w, d, cs);
        }
        x => return Err(format!("unsupported {}", x)),
    }
    Ok(())
}
pub fn succs(t: &Term) -> Vec<u32> {
    match t { Term::Br(a) | Term::Invoke(a) => vec![*a], Term::CBr(_, a, b) => vec![*a, *b], Term::Switch(_, _, d, c) => { let mut v = vec![*d]; v.extend(c.iter().map(|x| x.1)); v } _ => vec![] }
}
/// dominators, and post-dominators over the part of the graph that can return
fn analyse(f: &mut Func, m: &Module) {
    let n = f.blocks.len();
    for (b, blk) in f.blocks.iter().enumerate() {
        for p in &blk.phis { f.defblk[p.dst as usize] = b as u32; f.reg_ty[p.dst as usize] = p.ty.clone() }
        for i in &blk.ins { if let Some(d) = dst_of(i) { f.defblk[d as usize] = b as u32; f.reg_ty[d as usize] = ty_of(i) } }
    }
    for (r, t) in &f.params { f.reg_ty[*r as usize] = t.clone() }
    let mut succ: Vec<Vec<u32>> = f.blocks.iter().map(|b| succs(&b.term)).collect();
    // blocks that call a never-returning function end there
    for (b, blk) in f.blocks.iter().enumerate() { for i in &blk.ins { if let Ins::Call { callee: Callee::Sym(s), .. } = i { if m.noreturn(*s) { succ[b].clear() } } } }
    let ret: Vec<bool> = f.blocks.iter().map(|b| matches!(b.term, Term::Ret(_))).collect();
    // can reach a return
    let mut can = ret.clone();
    loop { let mut ch = false; for b in 0..n { if !can[b] && succ[b].iter().any(|&s| can[s as usize]) { can[b] = true; ch = true } } if !ch { break } }
    let mut pred = vec![vec![]; n];
    for b in 0..n { for &s in &succ[b] { pred[s as usize].push(b as u32) } }
    // dominators (simple iterative with rpo)
    let rpo = order(n, 0, &succ);
    f.dom = idom(n, 0, &rpo, &pred);
    // post-dominators: virtual exit n
    let mut rs: Vec<Vec<u32>> = vec![vec![]; n + 1]; let mut rp: Vec<Vec<u32>> = vec![vec![]; n + 1];
    for b in 0..n { if !can[b] { continue } for &s in &succ[b] { if can[s as usize] { rs[s as usize].push(b as u32); rp[b].push(s) } } if ret[b] { rs[n].push(b as u32); rp[b].push(n as u32) } }
    let rro = order(n + 1, n as u32, &rs);
    let pd = idom(n + 1, n as u32, &rro, &rp);
    f.ipdom = (0..n).map(|b| if can[b] && pd[b] != NOBLK && pd[b] != n as u32 { pd[b] } else { NOBLK }).collect();
}
fn order(n: usize, root: u32, succ: &[Vec<u32>]) -> Vec<u32> {
    let mut seen = vec![false; n]; let mut post = vec![]; let mut st = vec![(root, 0usize)]; seen[root as usize] = true;
    while let Some((b, i)) = st.pop() { if i < succ[b as usize].len() { st.push((b, i + 1)); let s = succ[b as usize][i]; if !seen[s as usize] { seen[s as usize] = true; st.push((s, 0)) } } else { post.push(b) } }
    post.reverse(); post
}
fn idom(n: usize, root: u32, rpo: &[u32], pred: &[Vec<u32>]) -> Vec<u32> {
    let mut num = vec![u32::MAX; n]; for (i, &b) in rpo.iter().enumerate() { num[b as usize] = i as u32 }
    let mut d = vec![NOBLK; n]; d[root as usize] = root;
    loop {
        let mut ch = false;
        for &b in rpo.iter() { if b == root { continue }
            let mut nd = NOBLK;
            for &p in &pred[b as usize] { if num[p as usize] == u32::MAX || d[p as usize] == NOBLK { continue } if nd == NOBLK { nd = p } else { let (mut x, mut y) = (p, nd); while x != y { while num[x as usize] > num[y as usize] { x = d[x as usize] } while num[y as usize] > num[x as usize] { y = d[y as usize] } } nd = x } }
            if nd != d[b as usize] { d[b as usize] = nd; ch = true }
        }
        if !ch { break }
    }
    d
}
pub fn dst_of(i: &Ins) -> Option<u32> {
    match i { Ins::Bin(d, ..) | Ins::FBin(d, ..) | Ins::FNeg(d, ..) | Ins::ICmp(d, ..) | Ins::FCmp(d, ..) | Ins::Select(d, ..) | Ins::Cast(d, ..) | Ins::Load(d, ..) | Ins::Gep(d, ..) | Ins::Extract(d, ..) | Ins::Insert(d, ..) | Ins::Alloca(d, ..) | Ins::Copy(d, ..) | Ins::Rmw(d, ..) | Ins::CmpXchg(d, ..) => Some(*d), Ins::Call { dst, .. } => *dst, _ => None }
}

fn ty_of(i: &Ins) -> Ty {
    match i {
        Ins::Bin(_, _, w, ..) => Ty::I(*w),
        Ins::FBin(.., s) | Ins::FNeg(.., s) => if *s { Ty::F32 } else { Ty::F64 },
        Ins::ICmp(..) | Ins::FCmp(..) => Ty::I(1),
        Ins::Select(.., t) | Ins::Cast(_, _, _, t, _) | Ins::Load(_, t, _) | Ins::Extract(.., t) | Ins::Insert(.., t) | Ins::Copy(.., t) => t.clone(),
        Ins::Gep(..) | Ins::Alloca(..) => Ty::Ptr,
        Ins::Rmw(_, _, w, ..) => Ty::I(*w),
        Ins::CmpXchg(_, w, ..) => Ty::Struct(Arc::new(vec![Ty::I(*w), Ty::I(1)]), false),
        Ins::Call { ret, .. } => ret.clone(),
        _ => Ty::Other,
    }
}
