//! Discrete logarithm equality proofs as in BIP374.
use crate::ec::*;
use bitcoin::secp256k1::{PublicKey, SecretKey};

fn challenge(a: &Pt, b: &Pt, c: &Pt, g: &Pt, r1: &Pt, r2: &Pt, m: Option<&[u8; 32]>) -> [u8; 32] {
    let ser = |p: &Pt| p.expect("not infinity").serialize();
    let m: &[u8] = m.map_or(&[], |m| m);
    tagged("BIP0374/challenge", &[&ser(a), &ser(b), &ser(c), &ser(g), &ser(r1), &ser(r2), m])
}

pub fn prove(a: SecretKey, b: PublicKey, r: &[u8; 32], g: PublicKey, m: Option<&[u8; 32]>) -> [u8; 64] {
    let (big_a, c) = (pt_mul(Some(g), Some(a)), pt_mul(Some(b), Some(a)));
    let aux = tagged("BIP0374/aux", &[r]);
    let mut t = a.secret_bytes();
    for (x, y) in t.iter_mut().zip(aux) {
        *x ^= y;
    }
    let msg: &[u8] = m.map_or(&[], |m| m);
    let k = sc(&tagged("BIP0374/nonce", &[&t, &big_a.unwrap().serialize(), &c.unwrap().serialize(), msg]));
    let (r1, r2) = (pt_mul(Some(g), k), pt_mul(Some(b), k));
    let e = challenge(&big_a, &Some(b), &c, &Some(g), &r1, &r2, m);
    let s = sc_add(k, sc_mul(sc(&e), Some(a)));
    let mut out = [0u8; 64];
    out[..32].copy_from_slice(&e);
    out[32..].copy_from_slice(&s.map_or([0; 32], |s| s.secret_bytes()));
    out
}

pub fn verify(
    a: PublicKey,
    b: PublicKey,
    c: PublicKey,
    proof: &[u8; 64],
    g: PublicKey,
    m: Option<&[u8; 32]>,
) -> bool {
    let e: [u8; 32] = proof[..32].try_into().unwrap();
    let s: [u8; 32] = proof[32..].try_into().unwrap();
    if s >= ORDER {
        return false;
    }
    let r1 = pt_add(pt_mul(Some(g), sc(&s)), pt_neg(pt_mul(Some(a), sc(&e))));
    let r2 = pt_add(pt_mul(Some(b), sc(&s)), pt_neg(pt_mul(Some(c), sc(&e))));
    if r1.is_none() || r2.is_none() {
        return false;
    }
    challenge(&Some(a), &Some(b), &Some(c), &Some(g), &r1, &r2, m) == e
}
