//! C01-C03, S01: error-correcting code and payload frame.
use crate::prim::*;
use embedding::verif::{deserialize, Data};
use encoding::{decode, encode, get_code_by_codeword_length};

harness! {
    /// C01: capacity, message length
    fn c01_roundtrip() {
        let (cap, n) = (p(0), p(1));
        let m = u8s(n);
        let e = encode(m.clone(), cap);
        see_bytes(&e);
        let d = decode(e, cap);
        same(&d, &m, 1);
        see_bytes(&d);
    }
    /// C01: longer than the header can say
    fn c01_refuse() {
        let (cap, n) = (p(0), p(1));
        let mut m = vec![0u8; n];
        for i in 0..16 { m[i * (n / 16)] = byte() }
        expect_panic();
        let e = encode(m, cap);
        see(e.len() as u64);
        end_expect();
    }
    /// C02: capacity, message length, first flipped position, stride, count
    fn c02_flip() {
        let (cap, n, first, stride, count) = (p(0), p(1), p(2), p(3), p(4));
        let m = u8s(n);
        let e = encode(m.clone(), cap);
        see_bytes(&e);
        let word = get_code_by_codeword_length(cap).unwrap().n() / 8;
        check(e.len() % word == 0, 1);
        for k in 0..count {
            let at = (first + k * stride) % (8 * word);
            let mut x = e.clone();
            let mut w = 0;
            while w < x.len() { x[w + at / 8] ^= 1 << (at % 8); w += word }
            let d = decode(x, cap);
            same(&d, &m, 2);
        }
    }
    /// C03: capacity, message length, number of further bytes; further bytes are 1: arbitrary, 0: zero, 2: ones,
    /// 3: codewords of another message, 4: the same with a flipped bit in every byte row
    fn c03_trailing() {
        let (cap, n, extra, kind) = (p(0), p(1), p(2), p(3));
        let m = u8s(n);
        let mut e = encode(m.clone(), cap);
        let size = encode(vec![0; n], cap).len();
        check(e.len() == size, 1);
        if kind == 1 { e.extend(u8s(extra)) } else if kind >= 3 {
            let mut o = encode(u8s(n + 1), cap);
            if kind == 4 { let word = get_code_by_codeword_length(cap).unwrap().n() / 8; for i in (5..o.len()).step_by(word) { o[i] ^= 4 } }
            let o: Vec<u8> = o.into_iter().cycle().take(extra).collect();
            e.extend(o)
        } else { e.extend(vec![if kind == 2 { 255u8 } else { 0 }; extra]) }
        see_bytes(&e);
        let d = decode(e, cap);
        same(&d, &m, 2);
        see_bytes(&d);
    }
    /// S01: payload length, further bytes
    fn s01_frame() {
        let (n, extra) = (p(0), p(1));
        let m = u8s(n);
        let mut f = Data::new(m.clone()).serialize();
        check(f.len() == n + 2, 1);
        f.extend(u8s(extra));
        see_bytes(&f);
        let d = deserialize(&f);
        same(&d.bytes, &m, 2);
        check(d == Data { bytes: m }, 3);
    }
    /// S01: too long
    fn s01_refuse() {
        let n = p(0);
        let mut m = vec![0u8; n];
        m[0] = byte();
        expect_panic();
        let f = Data::new(m).serialize();
        see(f.len() as u64);
        end_expect();
    }
}
