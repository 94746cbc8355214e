//! E01-E05: embedding, extraction, wavelet transform, coefficient writer and reader.
use crate::prim::*;
use embedding::verif::{dwt_2d, read, write};
use embedding::{embed, extract};
use ndarray::Array2;

fn picture(r: usize, c: usize, lo: u8, hi: u8) -> Array2<u8> { Array2::from_shape_vec([r, c], u8s_in(r * c, lo, hi)).unwrap() }
fn bound(depth: f64, levels: usize) -> f64 { 0.75 * depth / (1u64 << levels) as f64 + 1. }

harness! {
    /// E01: rows, cols, levels, depth, payload length
    fn e01_roundtrip() {
        let (r, c, levels, depth, n) = (p(0), p(1), p(2), pf(3), p(4));
        let m = bound(depth, levels).ceil() as u8;
        let img = picture(r, c, m, 255 - m);
        let payload = u8s(n);
        let marked = embed(img, payload.clone(), depth, levels);
        check(marked.dim() == (r, c), 1);
        for v in marked.iter().take(8) { see(*v as u64) }
        let x = extract(marked, depth, levels);
        same(&x, &payload, 2);
        see_bytes(&x);
    }
    /// E01: a payload that does not fit is refused
    fn e01_refuse() {
        let (r, c, levels, depth, n) = (p(0), p(1), p(2), pf(3), p(4));
        let img = picture(r, c, 0, 255);
        let payload = u8s(n);
        expect_panic();
        let marked = embed(img, payload, depth, levels);
        see(marked.len() as u64);
        end_expect();
    }
    /// E02: rows, cols, levels, depth, payload length; pixels unrestricted
    fn e02_bounded() {
        let (r, c, levels, depth, n) = (p(0), p(1), p(2), pf(3), p(4));
        let img = picture(r, c, 0, 255);
        let marked = embed(img.clone(), u8s(n), depth, levels);
        check(marked.dim() == (r, c), 1);
        for v in marked.iter().take(8) { see(*v as u64) }
        let b = bound(depth, levels).floor() as i32;
        let (lr, lc) = (r >> levels, c >> levels);
        // bits the encoded payload occupies, in row-major order of the low-pass domain
        let used = 8 * encoding::encode(vec![0; n + 2], lr * lc / 8).len();
        for i in 0..r {
            for j in 0..c {
                let (x, y) = (marked[[i, j]], img[[i, j]]);
                if (i >> levels) * lc + (j >> levels) < used {
                    check(x as i32 - y as i32 <= b, 2);
                    check(y as i32 - x as i32 <= b, 3);
                } else {
                    check(x == y, 4);
                }
            }
        }
    }
    /// E03: rows, cols, levels, depth, payload length, noise bound
    fn e03_noise() {
        let (r, c, levels, depth, n, k) = (p(0), p(1), p(2), pf(3), p(4), p(5) as i32);
        let m = bound(depth, levels).ceil() as u8 + k as u8;
        let img = picture(r, c, m, 255 - m);
        let payload = u8s(n);
        let mut marked = embed(img, payload.clone(), depth, levels);
        for v in marked.iter_mut() { *v = (*v as i32 + (unsafe { sym_u8_range(0, 2 * k as u8) } as i32 - k)) as u8 }
        for v in marked.iter().take(8) { see(*v as u64) }
        let x = extract(marked, depth, levels);
        same(&x, &payload, 1);
        see_bytes(&x);
    }
    /// E04: rows, cols, levels
    fn e04_inverse() {
        let (r, c, levels) = (p(0), p(1), p(2));
        let m = Array2::from_shape_vec([r, c], f64s(r * c, -1000., 1000.)).unwrap();
        let there = dwt_2d(m.clone(), levels, false);
        let back = dwt_2d(there.clone(), levels, true);
        check(back.dim() == (r, c), 1);
        for (a, b) in back.iter().zip(m.iter()) { close(*a, *b, 1e-6, 2) }
        let (bl, lr, lc) = (1usize << levels, r >> levels, c >> levels);
        for i in 0..lr {
            for j in 0..lc {
                let mut s = 0.;
                for a in 0..bl { for b in 0..bl { s += m[[i * bl + a, j * bl + b]] } }
                close(there[[i, j]], s / bl as f64, 1e-6, 3);
                if i + j < 2 { see_f(there[[i, j]]) }
            }
        }
        let inv = dwt_2d(m.clone(), levels, true);
        let again = dwt_2d(inv, levels, false);
        for (a, b) in again.iter().zip(m.iter()) { close(*a, *b, 1e-6, 4) }
    }
    /// E05: rows, cols, depth, bytes written, noise per mille of the depth
    fn e05_cells() {
        let (r, c, depth, n, noise) = (p(0), p(1), pf(2), p(3), pf(4));
        let range = (200. * depth).min(3000.);
        let mut m = Array2::from_shape_vec([r, c], f64s(r * c, -range, range)).unwrap();
        let before = m.clone();
        let bytes = u8s(n);
        write(&mut m.view_mut(), bytes.clone(), depth);
        for (k, (a, b)) in m.iter().zip(before.iter()).enumerate() {
            if k < 8 * n { close(*a, *b, 0.75 * depth + 1e-6, 1) } else { check(a.to_bits() == b.to_bits(), 2) }
            if k < 4 { see_f(*a) }
        }
        for v in m.iter_mut() { *v += f(-noise * depth, noise * depth) }
        let x = read(&m.view_mut(), depth);
        check(x.len() == r * c / 8, 3);
        same(&x[..n], &bytes, 4);
        see_bytes(&x[..n]);
    }
}
