//! S02, S03, B01, B02: records, bit vectors, byte and text conversions.
use crate::prim::*;
use bitvec::prelude::*;
use three_bit_quantization::{perturbation_vector_as_bytes, perturbation_vector_from_bytes};
use utils::bytes::*;
use utils::format::{decode_hex, encode_hex};
use watermarking::verif::{deserialize, Watermark};

pub fn bits(n: usize) -> BitVec<u8> { let mut b = BitVec::<u8>::with_capacity(n); for _ in 0..n { b.push(byte() & 1 == 1) } b }
fn same_bits(a: &BitVec<u8>, b: &BitVec<u8>, id: u32) {
    check(a.len() == b.len(), id);
    for i in 0..a.len().min(b.len()) { check(a[i] == b[i], id) }
}
/// arbitrary text of n bytes: characters of `width` bytes (1: ASCII, 2: two-byte, 3: three-byte) padded with ASCII
fn text(n: usize, width: usize) -> String {
    let mut v = vec![];
    while v.len() < n {
        if width == 2 && n - v.len() >= 2 { v.push(0xc4 | byte() & 0x1b); v.push(0x80 | byte() & 0x3f) }
        else if width == 3 && n - v.len() >= 3 { v.push(0xe1); v.push(0x80 | byte() & 0x3f); v.push(0x80 | byte() & 0x3f) }
        else { v.push(byte() & 0x7f) }
    }
    unsafe { String::from_utf8_unchecked(v) }
}

harness! {
    /// S02: perturbation bits, signature bytes, text bytes, further bytes, bytes per character
    fn s02_record() {
        let (np, ns, nt, extra, width) = (p(0), p(1), p(2), p(3), p(4));
        let w = Watermark::new(bits(np), u8s(ns), text(nt, width));
        let mut b = w.serialize();
        check(b.len() == 3 + (np + 7) / 8 + ns + nt, 1);
        see_bytes(&b);
        b.extend(u8s(extra));
        let d = deserialize(&b);
        same_bits(&d.perturbation_vector, &w.perturbation_vector, 2);
        same(&d.signature, &w.signature, 3);
        same(d.text.as_bytes(), w.text.as_bytes(), 4);
        see_bytes(&d.signature);
    }
    /// S02: a part that is too long
    fn s02_refuse() {
        let (np, ns, nt) = (p(0), p(1), p(2));
        let w = Watermark::new(bits(np), u8s(ns), text(nt, 1));
        expect_panic();
        let b = w.serialize();
        see(b.len() as u64);
        end_expect();
    }
    /// S03: bits
    fn s03_bits() {
        let n = p(0);
        let b = bits(n);
        let y = perturbation_vector_as_bytes(&b);
        check(y.len() == (n + 7) / 8, 1);
        see_bytes(&y);
        let d = perturbation_vector_from_bytes(&y, n);
        same_bits(&d, &b, 2);
        check(d == b, 3);
    }
    /// B01: number of integers
    fn b01_u16() {
        let n = p(0);
        let v: Vec<u16> = (0..n).map(|_| word() as u16).collect();
        let b = vec_u16_to_bytes(&v);
        check(b.len() == 2 * n, 1);
        see_bytes(&b);
        for i in 0..n.min(b.len() / 2) { check(b[2 * i] == v[i] as u8, 2); check(b[2 * i + 1] == (v[i] >> 8) as u8, 2) }
        let d = vec_u16_from_bytes(&b);
        check(d.len() == n, 3);
        for i in 0..n.min(d.len()) { check(d[i] == v[i], 4) }
        let r = u8s(2 * n);
        let again = vec_u16_to_bytes(&vec_u16_from_bytes(&r));
        same(&again, &r, 5);
    }
    fn b01_i64() {
        let n = p(0);
        let v: Vec<i64> = (0..n).map(|_| word() as i64).collect();
        let b = vec_i64_to_bytes(&v);
        check(b.len() == 8 * n, 1);
        see_bytes(&b);
        for i in 0..n.min(b.len() / 8) { for j in 0..8 { check(b[8 * i + j] == (v[i] >> (8 * j)) as u8, 2) } }
        let d = vec_i64_from_bytes(&b);
        check(d.len() == n, 3);
        for i in 0..n.min(d.len()) { check(d[i] == v[i], 4) }
        let r = u8s(8 * n);
        let again = vec_i64_to_bytes(&vec_i64_from_bytes(&r));
        same(&again, &r, 5);
    }
    /// B02: bytes
    fn b02_hex() {
        let n = p(0);
        let v = u8s(n);
        let h = encode_hex(&v);
        check(h.len() == 2 * n, 1);
        for b in h.bytes() { check(or(and(b >= b'0', b <= b'9'), and(b >= b'a', b <= b'f')), 2) }
        see_bytes(h.as_bytes());
        match decode_hex(&h) { Ok(d) => same(&d, &v, 3), Err(_) => check(false, 4) }
        let upper = h.to_ascii_uppercase();
        match decode_hex(&upper) { Ok(d) => same(&d, &v, 5), Err(_) => check(false, 6) }
    }
    /// B02: every ASCII text of n bytes is decoded when it consists of pairs of digits and is an error otherwise
    fn b02_any() {
        let (n, width) = (p(0), p(1));
        let t = text(n, width);
        let mut good = n % 2 == 0;
        for b in t.bytes() { good = and(good, or(or(and(b >= b'0', b <= b'9'), and(b >= b'a', b <= b'f')), and(b >= b'A', b <= b'F'))) }
        let d = decode_hex(&t);
        match d {
            Ok(v) => {
                check(good, 1);
                check(v.len() == n / 2, 2);
                for i in 0..v.len().min(n / 2) {
                    let dig = |b: u8| -> u8 { unsafe { sym_ite_u8(b <= b'9', b.wrapping_sub(b'0'), (b & 0x1f).wrapping_add(9)) } };
                    let (hi, lo) = (dig(t.as_bytes()[2 * i]), dig(t.as_bytes()[2 * i + 1]));
                    check(v[i] == hi.wrapping_mul(16).wrapping_add(lo), 3);
                }
            }
            Err(_) => check(!good, 4),
        }
    }
}
