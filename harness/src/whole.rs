//! W01, W02: whole images and channels; features supplied through the hook.
use crate::prim::*;
use image::{DynamicImage, GrayAlphaImage, GrayImage, RgbImage, RgbaImage};
use ndarray::Array2;
use watermarking::verif::{authenticate_channel, watermark_channel};
use watermarking::watermark;

static mut CALLS: usize = 0;
static mut BASE: Vec<f64> = Vec::new();
static mut NOISE: (f64, f64, f64, usize, f64) = (0., 0., 0., 0, 0.);
static mut SEEN: Vec<Vec<u8>> = Vec::new();

fn supplied(image: &Array2<u8>, n: usize) -> Vec<f64> {
    unsafe {
        CALLS += 1;
        SEEN.push(image.iter().cloned().collect());
        if CALLS == 1 { return BASE.clone() }
        let (lo, hi, sign, which, small) = NOISE;
        BASE.iter().take(n).enumerate().map(|(i, b)| if which == n || which == i { b + sign * sym_f64(lo, hi) } else { b + sym_f64(-small, small) }).collect()
    }
}
/// features that depend on the channel's own pixels
fn of_pixels(image: &Array2<u8>, n: usize) -> Vec<f64> { (0..n).map(|i| image[[i, i]] as f64 * 0.5 + i as f64).collect() }

fn margin(depth: f64) -> u8 { (0.75 * depth / 8. + 1.).ceil() as u8 }

fn channel(w: usize, h: usize, depth: f64) -> GrayImage { let m = margin(depth); GrayImage::from_raw(w as u32, h as u32, u8s_in(w * h, m, 255 - m)).unwrap() }

harness! {
    /// W02: width, height, depth, step, features, noise bounds (thousandths of a step), sign, 1: must authenticate,
    /// the feature that moves by that much while the others move by up to 0.99 steps (all features if there is no such feature)
    fn w02_channel() {
        let (w, h, depth, step, n) = (p(0), p(1), pf(2), pf(3), p(4));
        let (lo, hi, sign, good) = (pf(5), pf(6), pf(7), p(8));
        unsafe {
            image_features::verif::FEATURES = Some(supplied);
            BASE = f64s(n, -40. * step, 40. * step);
            NOISE = (lo * step, hi * step, sign, p(9), 0.99 * step);
        }
        let img = channel(w, h, depth);
        let marked = watermark_channel(&img, depth, step, n, 3);
        check(marked.dimensions() == (w as u32, h as u32), 1);
        let ok = authenticate_channel(&marked, depth, step, n, 3);
        if good == 1 { check(ok, 2) } else { check(!ok, 3) }
        // both sides look at the same version (plain or equalised) of their channel
        unsafe {
            let plain = |k: usize, g: &GrayImage| eq(&SEEN[k], g.as_raw());
            let equal = |k: usize, g: &GrayImage| { let e = imageproc_of(g); eq(&SEEN[k], e.as_raw()) };
            check(SEEN.len() == 2, 4);
            check(or(and(plain(0, &img), plain(1, &marked)), and(equal(0, &img), equal(1, &marked))), 5);
        }
    }
    /// W01: width, height, depth, step, features, colour type (1 grey, 2 grey+alpha, 3 RGB, 4 RGBA)
    fn w01_image() {
        let (w, h, depth, step, n, kind) = (p(0), p(1), pf(2), pf(3), p(4), p(5));
        unsafe { image_features::verif::FEATURES = Some(of_pixels) }
        let colours = if kind >= 3 { 3 } else { 1 };
        let (ww, hh) = (w as u32, h as u32);
        let raw = u8s(w * h * kind);
        let input = match kind {
            1 => DynamicImage::ImageLuma8(GrayImage::from_raw(ww, hh, raw.clone()).unwrap()),
            2 => DynamicImage::ImageLumaA8(GrayAlphaImage::from_raw(ww, hh, raw.clone()).unwrap()),
            3 => DynamicImage::ImageRgb8(RgbImage::from_raw(ww, hh, raw.clone()).unwrap()),
            _ => DynamicImage::ImageRgba8(RgbaImage::from_raw(ww, hh, raw.clone()).unwrap()),
        };
        let colour = input.color();
        let output = watermark(input, depth, step, n);
        check(output.color() == colour, 1);
        check(output.width() == ww && output.height() == hh, 2);
        let out = output.as_bytes();
        check(out.len() == raw.len(), 3);
        if out.len() != raw.len() { return }
        let b = (0.75 * depth / 8. + 1.).floor() as i32;
        for c in 0..kind {
            if c >= colours {
                for i in 0..w * h { check(out[i * kind + c] == raw[i * kind + c], 4) }
            } else {
                for i in 0..w * h {
                    let (x, y) = (out[i * kind + c] as i32, raw[i * kind + c] as i32);
                    check(x - y <= b, 5);
                    check(y - x <= b, 6);
                }
                // the channel on its own
                let alone = GrayImage::from_raw(ww, hh, raw.iter().skip(c).step_by(kind).cloned().collect()).unwrap();
                let marked = watermark_channel(&alone, depth, step, n, 3);
                let got: Vec<u8> = out.iter().skip(c).step_by(kind).cloned().collect();
                same(marked.as_raw(), &got, 7);
            }
            see(out[c] as u64);
        }
    }
}
fn imageproc_of(g: &GrayImage) -> GrayImage { imageproc::contrast::equalize_histogram(g) }
