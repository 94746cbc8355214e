//! G01: signatures (over an ideal signature primitive).
use crate::prim::*;
use signature::{sign, verify};

const SECRET: &str = "e1ec991518bead7d94b60bf64469b98d866315b3676d4fa5b4e7c36dc4951d60";
const PUBLIC: &str = "a7fd235002f60fad1a7077d74cfd62dd8922963ebc713c385ad37596fba5a7d6";
const OTHER_SECRET: &str = "9d61b19deffd5a60ba844af492ec2cc44449c5697b326919703bac031cae7f60";
const OTHER_PUBLIC: &str = "d75a980182b10ab7d54bfed3c964073a0ee172f3daa62325af021a68f707511a";

harness! {
    /// G01: message length
    fn g01_accept() {
        let n = p(0);
        let m = u8s(n);
        let s = sign(&m, SECRET, PUBLIC);
        check(s.len() == 64, 1);
        check(verify(&m, &s, PUBLIC), 2);
        let s2 = sign(&m, SECRET, PUBLIC);
        check(verify(&m, &s2, PUBLIC), 3);
    }
    /// G01: another message of length n2
    fn g01_message() {
        let (n, n2) = (p(0), p(1));
        let m = u8s(n);
        let s = sign(&m, SECRET, PUBLIC);
        let o = u8s(n2);
        assume(!eq(&m, &o));
        check(!verify(&o, &s, PUBLIC), 1);
    }
    /// G01: a signature of which any bits differ
    fn g01_signature() {
        let n = p(0);
        let m = u8s(n);
        let s = sign(&m, SECRET, PUBLIC);
        let mut t = s.clone();
        for b in t.iter_mut() { *b ^= byte() }
        assume(!eq(&s, &t));
        check(!verify(&m, &t, PUBLIC), 1);
    }
    /// G01: another key
    fn g01_key() {
        let n = p(0);
        let m = u8s(n);
        let s = sign(&m, SECRET, PUBLIC);
        check(!verify(&m, &s, OTHER_PUBLIC), 1);
        let s2 = sign(&m, OTHER_SECRET, OTHER_PUBLIC);
        check(verify(&m, &s2, OTHER_PUBLIC), 2);
        check(verify(&m, &s, PUBLIC), 3);
    }
}
