//! D01, A01: bytes and pictures that nobody prepared: damaged, foreign, cut off.
use crate::prim::*;
use bitvec::prelude::*;
use embedding::verif::deserialize as parse_frame;
use encoding::{decode, get_code_by_codeword_length};
use image::GrayImage;
use ndarray::Array2;
use signature::verify;
use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
use watermarking::verif::{authenticate_channel, deserialize as parse_record};

const SECRET: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
const PUBLIC: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";

/// what a length header of two bytes (high byte first or last) leaves of the bytes after it
fn framed(all: &[u8], high_first: bool, got: &[u8]) {
    let n = all.len();
    if n < 2 { check(got.is_empty(), 1); return }
    let said = if high_first { (all[0] as usize) << 8 | all[1] as usize } else { (all[1] as usize) << 8 | all[0] as usize };
    let room = n - 2;
    check(got.len() <= room, 2);
    if got.len() > room { return }
    check(if got.len() == room { said >= room } else { said == got.len() }, 3);
    same(&all[2..2 + got.len()], got, 4);
}

harness! {
    /// D01: capacity without a code, any bytes
    fn d01_uncoded() {
        let (cap, n) = (p(0), p(1));
        let b = u8s(n);
        let d = decode(b.clone(), cap);
        framed(&b, true, &d);
    }
    /// D01: capacity with a code, codewords of arbitrary bytes, further bytes
    fn d01_coded() {
        let (cap, words, extra) = (p(0), p(1), p(2));
        let code = get_code_by_codeword_length(cap).unwrap();
        let m = u8s(words * code.k() / 8);
        let mut b = vec![];
        for w in m.chunks(code.k() / 8) { let mut c = vec![0u8; code.n() / 8]; code.copy_encode(w, &mut c); b.extend(c) }
        b.extend(u8s(extra));
        let d = decode(b, cap);
        framed(&m, true, &d);
    }
    /// D01: capacity with a code, any bytes, codewords or not
    fn d01_any() {
        let (cap, n) = (p(0), p(1));
        let code = get_code_by_codeword_length(cap).unwrap();
        let d = decode(u8s(n), cap);
        let room = n / (code.n() / 8) * (code.k() / 8);
        check(d.len() + 2 <= room.max(2), 1);
    }
    /// D01: frame of any bytes
    fn d01_frame() {
        let b = u8s(p(0));
        let d = parse_frame(&b);
        framed(&b, false, &d.bytes);
    }
    /// D01: record of any n bytes; 1: lengths of the three parts are as given (if there are so many bytes) and the
    /// contents are any bytes, 0: the lengths of signature and text (and of the
    /// perturbation vector, if its parameter is 256) are any and the contents are ASCII
    fn d01_record() {
        let n = p(0);
        let mut b = if p(1) == 1 { u8s(n) } else { u8s_in(n, 0, 127) };
        for i in 0..n.min(3) { b[i] = if p(1) == 1 || i == 0 && p(2) < 256 { p(2 + i as u64) as u8 } else { byte() } }
        let w = parse_record(&b);
        let (p, s, t) = (w.perturbation_vector, w.signature, w.text);
        if n < 3 { check(p.is_empty() && s.is_empty() && t.is_empty(), 1); return }
        let (pb, sb) = (b[0] as usize, b[1] as usize);
        let room = n - 3;
        check(p.len() <= pb && p.len() <= 8 * room, 2);
        check(or(p.len() == pb, p.len() == 8 * room), 3);
        let rest = room - (p.len() + 7) / 8;
        check(s.len() <= rest, 4);
        check(or(s.len() == sb, s.len() == rest), 5);
        if s.len() <= rest { let at = n - rest; same(&s, &b[at..at + s.len()], 6) }
    }
    /// D01: features, perturbation bits
    fn d01_recover() {
        let (n, bits) = (p(0), p(1));
        let f = f64s(n, -50., 50.);
        let mut v: BitVec<u8, Lsb0> = BitVec::new();
        for b in u8s(bits) { v.push(b & 1 != 0) }
        let q = three_bit_dequantization(&f, &v, 1.5);
        check(q.len() == n.min(bits / 3), 1);
    }
    /// D01: arbitrary bytes in place of a signature
    fn d01_verify() {
        let (n, len) = (p(0), p(1));
        let s = u8s(len);
        check(!verify(&u8s(n), &s, PUBLIC), 1);
    }
    /// A01: width, height, depth, step, features, a pixel value that reads as 1 and one that reads as 0, number of fixed
    /// bits, byte at which they begin, their values; any picture of 8x8 blocks of the two values (of which the bits from
    /// byte 7 on, the contents of the record, have ASCII values, so that the text is well-formed)
    fn a01_unmarked() {
        let (w, h, depth, step, n) = (p(0), p(1), pf(2), pf(3), p(4));
        unsafe { image_features::verif::FEATURES = Some(any) }
        let (bw, bh) = (w / 8, h / 8);
        let (one, zero) = (p(5) as u8, p(6) as u8);
        let blocks: Vec<u8> = (0..bw * bh).map(|k| {
            let at = 8 * p(8);
            if k >= at && k < at + p(7) { if p(9) >> (k - at) & 1 == 1 { one } else { zero } }
            else if k >= 56 && k % 8 == 7 { zero } else { unsafe { sym_ite_u8(byte() & 1 == 1, one, zero) } }
        }).collect();
        let g = GrayImage::from_raw(w as u32, h as u32, (0..w * h).map(|i| blocks[i / h / 8 * bh + i % h / 8]).collect()).unwrap();
        check(!authenticate_channel(&g, depth, step, n, 3), 1);
    }
    /// A01: width, height, depth, step, features: any picture whatever (the capacity has a code)
    fn a01_any() {
        let (w, h, depth, step, n) = (p(0), p(1), pf(2), pf(3), p(4));
        unsafe { image_features::verif::FEATURES = Some(any) }
        let g = GrayImage::from_raw(w as u32, h as u32, u8s(w * h)).unwrap();
        check(!authenticate_channel(&g, depth, step, n, 3), 1);
    }
    /// A01: width, height, depth, step, features, perturbation bits, signature bytes, text bytes: a picture that carries
    /// a record somebody made up
    fn a01_forged() {
        let (w, h, depth, step, n) = (p(0), p(1), pf(2), pf(3), p(4));
        let (pb, sb, tb) = (p(5), p(6), p(7));
        unsafe { image_features::verif::FEATURES = Some(any) }
        let mut record = vec![pb as u8, sb as u8, tb as u8];
        record.extend(u8s((pb + 7) / 8 + sb));
        record.extend(u8s_in(tb, 0, 127));
        check(!authenticate_channel(&carrier(w, h, depth, record), depth, step, n, 3), 1);
    }
    /// A01: width, height, depth, step, features, sign, which: a picture that carries a signature issued for features of
    /// which one lies further than two steps away, with any perturbation bits
    fn a01_transplanted() {
        let (w, h, depth, step, n) = (p(0), p(1), pf(2), pf(3), p(4));
        let (sign_of, which) = (pf(5), p(6));
        let f0 = f64s(n, -40. * step, 40. * step);
        let (q, _) = three_bit_quantization(&f0, step);
        let s = signature::sign(&utils::bytes::vec_i64_to_bytes(&q), SECRET, PUBLIC);
        let mut record = vec![3 * n as u8, s.len() as u8, 12];
        record.extend(u8s((3 * n + 7) / 8));
        record.extend(s);
        record.extend(b"Hello world!");
        unsafe {
            MOVED = f0.iter().enumerate().map(|(i, x)| if i == which { x + sign_of * f(2.01 * step, 30. * step) } else { x + f(-step, step) }).collect();
            image_features::verif::FEATURES = Some(moved);
        }
        check(!authenticate_channel(&carrier(w, h, depth, record), depth, step, n, 3), 1);
    }
}
static mut MOVED: Vec<f64> = Vec::new();
fn moved(_: &Array2<u8>, _: usize) -> Vec<f64> { unsafe { MOVED.clone() } }
fn carrier(w: usize, h: usize, depth: f64, record: Vec<u8>) -> GrayImage {
    let m = (0.75 * depth / 8. + 1.).ceil() as u8;
    let image = Array2::from_shape_vec((w, h), u8s_in(w * h, m, 255 - m)).unwrap();
    GrayImage::from_raw(w as u32, h as u32, embedding::embed(image, record, depth, 3).into_raw_vec()).unwrap()
}
fn any(_: &Array2<u8>, n: usize) -> Vec<f64> { f64s(n, 0., 50.) }
