//! Z01-Z04: Zernike moments and features.
use crate::prim::*;
use image_features::calculate_features;
use image_features::feature_types::FeaturesType;
use ndarray::Array2;
use num::Complex;
use zernike::calc::{calculate_zernike_image_moment, get_zernike_matrix};

fn picture(r: usize, c: usize) -> Array2<u8> { Array2::from_shape_vec([r, c], u8s(r * c)).unwrap() }

fn choose(n: usize, k: usize) -> u64 { let mut c = 1u64; for i in 0..k { c = c * (n - i) as u64 / (i + 1) as u64 } c }

/// conjugated Zernike polynomial at a position of a d x d grid, corners on the unit circle:
/// exact integer coefficients, polynomial in r^2 times (x - iy)^m
pub fn reference(order: usize, m: usize, row: usize, col: usize, d: usize) -> Complex<f64> {
    let at = |k: usize| (2. * k as f64 - (d as f64 - 1.)) / (d as f64 - 1.) * std::f64::consts::FRAC_1_SQRT_2;
    let (x, y) = (at(row), at(col));
    let r2 = x * x + y * y;
    let h = (order - m) / 2;
    // Horner from the highest power: coefficient of r^(order-2s), s = 0..=h, divided by r^m
    let mut acc = 0.;
    for s in 0..=h {
        // (n-s)! / (s! ((n+m)/2-s)! ((n-m)/2-s)!)
        let c = (choose(order - s, s) * choose(order - 2 * s, h - s)) as f64;
        acc = acc * r2 + if s % 2 == 0 { c } else { -c };
    }
    let mut w = Complex::new(1., 0.);
    for _ in 0..m { w *= Complex::new(x, -y) }
    w * acc
}
fn tol(order: usize) -> f64 { if order <= 9 { 1e-9 } else if order <= 15 { 1e-8 } else { 1e-6 } }

fn expected(img: &Array2<u8>, order: usize, m: usize) -> Complex<f64> {
    let (r, c) = img.dim();
    let d = r.max(c);
    let mut s = Complex::new(0., 0.);
    for ((i, j), v) in img.indexed_iter() { let w = reference(order, m, i, j, d); s.re += w.re * *v as f64; s.im += w.im * *v as f64 }
    s * ((order as f64 + 1.) / std::f64::consts::PI / (r * c) as f64)
}
fn agree(a: Complex<f64>, b: Complex<f64>, t: f64, id: u32) { close(a.re, b.re, t, id); close(a.im, b.im, t, id) }
fn quarter(z: Complex<f64>, k: usize) -> Complex<f64> { match k % 4 { 0 => z, 1 => Complex::new(-z.im, z.re), 2 => -z, _ => Complex::new(z.im, -z.re) } }
/// |z| whichever of the two usual ways it is computed
fn magnitude(f: f64, z: Complex<f64>, t: f64, id: u32) {
    let (a, b) = (z.re.hypot(z.im), (z.re * z.re + z.im * z.im).sqrt());
    check(or(and(f - a <= t, a - f <= t), and(f - b <= t, b - f <= t)), id);
}

harness! {
    /// Z01: side, order, repetition
    fn z01_turns() {
        let (d, order, m) = (p(0), p(1), p(2));
        let img = picture(d, d);
        let turned = Array2::from_shape_fn((d, d), |(i, j)| img[[d - 1 - j, i]]);
        let half = Array2::from_shape_fn((d, d), |(i, j)| img[[d - 1 - i, d - 1 - j]]);
        let three = Array2::from_shape_fn((d, d), |(i, j)| img[[j, d - 1 - i]]);
        let mirror = Array2::from_shape_fn((d, d), |(i, j)| img[[i, d - 1 - j]]);
        let transposed = Array2::from_shape_fn((d, d), |(i, j)| img[[j, i]]);
        let t = tol(order) * 255. * (order as f64 + 1.);
        let z = calculate_zernike_image_moment(order, m, &img);
        see_f(z.re); see_f(z.im);
        agree(calculate_zernike_image_moment(order, m, &turned), quarter(z, m), t, 1);
        agree(calculate_zernike_image_moment(order, m, &half), quarter(z, 2 * m), t, 2);
        agree(calculate_zernike_image_moment(order, m, &three), quarter(z, 3 * m), t, 3);
        agree(calculate_zernike_image_moment(order, m, &mirror), z.conj(), t, 4);
        agree(calculate_zernike_image_moment(order, m, &transposed), quarter(z.conj(), 3 * m), t, 5);
    }
    /// Z01: the features are the magnitudes of those moments: rows, cols, features
    fn z01_magnitudes() {
        let (r, c, n) = (p(0), p(1), p(2));
        let img = picture(r, c);
        let f = calculate_features(&img, FeaturesType::MomentsZernike, n);
        for (i, v) in f.iter().enumerate() { magnitude(*v, calculate_zernike_image_moment(2 * n - 1, 2 * i + 1, &img), 1e-9, 1) }
    }
    /// Z02: rows, cols, features
    fn z02_features() {
        let (r, c, n) = (p(0), p(1), p(2));
        let img = picture(r, c);
        let f = calculate_features(&img, FeaturesType::MomentsZernike, n);
        check(f.len() == n, 1);
        for (i, v) in f.iter().enumerate() {
            check(*v >= 0., 2);
            // magnitude of the basis is at most 1, the mean pixel at most 255
            check(*v <= 255. * (2 * n) as f64 / std::f64::consts::PI * 1.5, 3);
            magnitude(*v, calculate_zernike_image_moment(2 * n - 1, 2 * i + 1, &img), 1e-9, 4);
            if i < 2 { see_f(*v) }
        }
    }
    /// Z03: rows, cols, order, repetition
    fn z03_linear() {
        let (r, c, order, m) = (p(0), p(1), p(2), p(3));
        let img = picture(r, c);
        let z = calculate_zernike_image_moment(order, m, &img);
        see_f(z.re); see_f(z.im);
        agree(z, expected(&img, order, m), tol(order) * 255. * (order as f64 + 1.), 1);
        // additivity and stability: a second image, each pixel changed by at most k
        let k = 3u8;
        let a = Array2::from_shape_fn((r, c), |_| unsafe { sym_u8_range(0, 255 - k) });
        let b = Array2::from_shape_fn((r, c), |_| unsafe { sym_u8_range(0, k) });
        let sum = Array2::from_shape_fn((r, c), |ij| a[ij] + b[ij]);
        let (za, zb, zs) = (calculate_zernike_image_moment(order, m, &a), calculate_zernike_image_moment(order, m, &b), calculate_zernike_image_moment(order, m, &sum));
        agree(zs, za + zb, tol(order) * 255. * (order as f64 + 1.), 2);
        let lim = k as f64 * (order as f64 + 1.) / std::f64::consts::PI * 1.001;
        check(zs.re - za.re <= lim, 3); check(za.re - zs.re <= lim, 3);
        check(zs.im - za.im <= lim, 3); check(za.im - zs.im <= lim, 3);
    }
    /// Z04: side, order, repetition (negative repetition selects the same polynomial): the basis matrix applied
    /// to an arbitrary picture agrees with the polynomial's definition applied to it
    fn z04_basis() {
        let (d, order, m, neg) = (p(0), p(1), p(2), p(3));
        let img = picture(d, d);
        let z = get_zernike_matrix(order, if neg == 1 { -(m as isize) } else { m as isize }, d);
        check(z.dim() == (d, d), 1);
        let t = tol(order);
        // one position at a time, selected by symbolic weights: sum of weight * (entry - definition)
        let (mut re, mut im) = (0., 0.);
        for ((i, j), v) in img.indexed_iter() {
            let w = reference(order, m, i, j, d);
            re += (z[[i, j]].re - w.re) * *v as f64;
            im += (z[[i, j]].im - w.im) * *v as f64;
        }
        // weights of a single pixel are at most 255; a deviation at any position shows in some picture
        check(re <= 255. * t, 2); check(re >= -255. * t, 2);
        check(im <= 255. * t, 3); check(im >= -255. * t, 3);
        for v in z.iter() { check(v.re <= 1. + 1e-6 && v.re >= -1. - 1e-6 && v.im <= 1. + 1e-6 && v.im >= -1. - 1e-6, 4) }
        see_f(z[[0, 0]].re); see_f(z[[0, d - 1]].im); see_f(re);
    }
}
