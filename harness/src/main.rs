//! Native runner: executes one harness on concrete inputs (a solver model or a witness) read from a file.
//! File: line 1 harness name, line 2 parameters, line 3 inputs (hex), line 4 inputs of stubs (hex).
//! Prints OBS <value>, CHECK-FAILED <id>, PANIC <message>, ASSUME-FAILED, END; exit code 0 always.
use std::sync::Mutex;

struct St { params: Vec<u64>, main: Vec<u64>, mi: usize, stub: Vec<u64>, si: usize, expect: bool, fails: u32 }
static ST: Mutex<St> = Mutex::new(St { params: vec![], main: vec![], mi: 0, stub: vec![], si: 0, expect: false, fails: 0 });
fn st<T>(f: impl FnOnce(&mut St) -> T) -> T { let mut g = match ST.lock() { Ok(g) => g, Err(e) => e.into_inner() }; f(&mut g) }
fn next() -> u64 { st(|s| { let v = s.main.get(s.mi).copied().unwrap_or(0); s.mi += 1; v }) }
fn out(l: String) { eprintln!("@@{}", l) }

#[no_mangle] extern "C" fn sym_u8() -> u8 { next() as u8 }
#[no_mangle] extern "C" fn sym_u8_range(lo: u8, hi: u8) -> u8 { (next() as u8).clamp(lo, hi) }
#[no_mangle] extern "C" fn sym_u64() -> u64 { next() }
#[no_mangle] extern "C" fn sym_u64_range(lo: u64, hi: u64) -> u64 { next().clamp(lo, hi) }
#[no_mangle] extern "C" fn sym_f64(lo: f64, hi: f64) -> f64 { f64::from_bits(next()).clamp(lo, hi) }
#[no_mangle] extern "C" fn sym_stub_u8() -> u8 { st(|s| { let v = s.stub.get(s.si).copied().unwrap_or((s.si * 37 + 11) as u64); s.si += 1; v as u8 }) }
#[no_mangle] extern "C" fn sym_param(i: u64) -> u64 { st(|s| s.params[i as usize]) }
#[no_mangle] extern "C" fn sym_assume(c: bool) { if !c { out("ASSUME-FAILED".into()); std::process::exit(0) } }
#[no_mangle] extern "C" fn sym_check(c: bool, id: u32) { if !c { st(|s| s.fails += 1); if st(|s| s.fails) < 20 { out(format!("CHECK-FAILED {}", id)) } } }
#[no_mangle] extern "C" fn sym_expect_panic() { st(|s| s.expect = true) }
#[no_mangle] extern "C" fn sym_end_expect() { st(|s| s.expect = false); sym_check(false, 9999) }
#[no_mangle] extern "C" fn sym_observe(v: u64) { out(format!("OBS i{:x}", v)) }
#[no_mangle] extern "C" fn sym_observe_f64(v: f64) { out(format!("OBS f{:x}", v.to_bits())) }
#[no_mangle] extern "C" fn sym_is_symbolic() -> bool { false }
#[no_mangle] unsafe extern "C" fn sym_eq_bytes(a: *const u8, b: *const u8, n: usize) -> bool { n == 0 || std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n) }
#[no_mangle] unsafe extern "C" fn sym_check_bytes(a: *const u8, b: *const u8, n: usize, id: u32) { for i in 0..n { sym_check(*a.add(i) == *b.add(i), id) } }
#[no_mangle] extern "C" fn sym_ite_u8(c: bool, a: u8, b: u8) -> u8 { if c { a } else { b } }
#[no_mangle] extern "C" fn sym_and(a: bool, b: bool) -> bool { a & b }
#[no_mangle] extern "C" fn sym_surely(a: bool) -> bool { a }
#[no_mangle] extern "C" fn sym_or(a: bool, b: bool) -> bool { a | b }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 2 { for (n, _) in harness::ALL.iter().flat_map(|l| l.iter()) { println!("{}", n) } return }
    let t = std::fs::read_to_string(&a[1]).expect("replay file");
    let l: Vec<&str> = t.lines().filter(|l| !l.starts_with('#')).collect();
    let name = l[0].trim().to_string();
    let dec = |s: &str| -> Vec<u64> { s.split_whitespace().map(|x| x.parse::<i128>().unwrap() as u64).collect() };
    let hex = |s: &str| -> Vec<u64> { s.split_whitespace().map(|x| u64::from_str_radix(x, 16).unwrap()).collect() };
    st(|s| { s.params = dec(l.get(1).unwrap_or(&"")); s.main = hex(l.get(2).unwrap_or(&"")); s.stub = hex(l.get(3).unwrap_or(&"")); });
    let f = harness::ALL.iter().flat_map(|l| l.iter()).find(|x| x.0 == name).expect("unknown harness").1;
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        std::panic::set_hook(Box::new(|_| {}));
        match std::panic::catch_unwind(f) {
            Ok(()) => out("END".into()),
            Err(e) => { let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); if st(|s| s.expect) { out("EXPECTED-PANIC".into()) } else { out(format!("PANIC {}", m.replace('\n', " "))) } }
        }
    }).unwrap();
    let _ = h.join();
}
