//! Q01-Q03, R01: quantisation with perturbation bits, pseudo-random numbers.
use crate::prim::*;
use three_bit_quantization::{three_bit_dequantization, three_bit_quantization};
use utils::pseudo_random::{Generate, PseudoRandom};

harness! {
    /// Q01: features, step, range of features in steps, noise (thousandths of a step)
    fn q01_noise() {
        let (n, step, range, noise) = (p(0), pf(1), pf(2), pf(3));
        let f0 = f64s(n, -range * step, range * step);
        let (q, pv) = three_bit_quantization(&f0, step);
        check(q.len() == n, 1);
        let f1: Vec<f64> = f0.iter().map(|x| x + f(-noise * step, noise * step)).collect();
        let d = three_bit_dequantization(&f1, &pv, step);
        check(d.len() == n, 2);
        for i in 0..n.min(d.len()) { check(d[i] == q[i], 3); see(d[i] as u64) }
    }
    /// Q01 seen through the signed bytes
    fn q01_bytes() {
        let (n, step, range, noise) = (p(0), pf(1), pf(2), pf(3));
        let f0 = f64s(n, -range * step, range * step);
        let (q, pv) = three_bit_quantization(&f0, step);
        let f1: Vec<f64> = f0.iter().map(|x| x + f(-noise * step, noise * step)).collect();
        let d = three_bit_dequantization(&f1, &pv, step);
        check(eq(&utils::bytes::vec_i64_to_bytes(&d), &utils::bytes::vec_i64_to_bytes(&q)), 3);
    }
    /// Q02: features, step, range in steps
    fn q02_floor() {
        let (n, step, range) = (p(0), pf(1), pf(2));
        let f0 = f64s(n, -range * step, range * step);
        let (q, pv) = three_bit_quantization(&f0, step);
        check(q.len() == n, 1);
        check(pv.len() == 3 * n, 2);
        let eps = 1e-9 * (range + 1.) * step;
        for i in 0..n {
            // q = floor(f / step): q*step <= f < (q+1)*step up to rounding of the quotient
            let c = q[i] as f64 * step;
            check(f0[i] >= c - eps, 3);
            check(f0[i] < c + step + eps, 4);
            let m = (q[i] - 1).rem_euclid(4);
            // as stored: the bits are kept in the sense used by the byte conversion
            let y = three_bit_quantization::perturbation_vector_as_bytes(&pv);
            let back = three_bit_quantization::perturbation_vector_from_bytes(&y, 3 * n);
            check(back[3 * i] == pv[3 * i], 5);
            let (b0, b1, b2) = (pv[3 * i], pv[3 * i + 1], pv[3 * i + 2]);
            check(b0 == (m & 2 != 0), 6);
            check(b1 == (m & 1 != 0), 10);
            check(b2 || f0[i] < c + 0.5 * step + eps, 7);
            check(!b2 || f0[i] >= c + 0.5 * step - eps, 8);
            see(q[i] as u64); see(b0 as u64); see(b1 as u64); see(b2 as u64);
        }
        let d = three_bit_dequantization(&f0, &pv, step);
        for i in 0..n.min(d.len()) { check(d[i] == q[i], 9) }
    }
    /// Q03: features, step, range in steps, least and greatest disturbance (thousandths of a step)
    fn q03_far() {
        let (n, step, range, lo, hi, sign) = (p(0), pf(1), pf(2), pf(3), pf(4), pf(5));
        let f0 = f64s(n, -range * step, range * step);
        let (q, pv) = three_bit_quantization(&f0, step);
        let f1: Vec<f64> = f0.iter().map(|x| x + sign * f(lo * step, hi * step)).collect();
        let d = three_bit_dequantization(&f1, &pv, step);
        for i in 0..n { check(d[i] != q[i], 1); see(d[i] as u64) }
    }
    /// R01: number of draws, lower bound, upper bound
    fn r01_range() {
        let (n, from, to) = (p(0), pf(1), pf(2));
        let seed = word();
        let mut a = PseudoRandom { seed: seed as usize };
        let mut b = PseudoRandom { seed: 7 };
        b.seed(seed as usize);
        for _ in 0..n {
            let x = a.generate_unit();
            check(x >= 0., 1);
            check(x < 1., 2);
            see_f(x);
            let y = b.generate_unit();
            check(x.to_bits() == y.to_bits(), 3);
            let u = a.generate(from, to);
            check(u >= from, 4);
            check(u <= to, 5);
            see_f(u);
            let v = b.generate(from, to);
            check(u.to_bits() == v.to_bits(), 6);
        }
    }
}
