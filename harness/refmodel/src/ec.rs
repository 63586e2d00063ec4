use bitcoin::hashes::{sha256, Hash, HashEngine};
use bitcoin::secp256k1::{All, Parity, PublicKey, Scalar, Secp256k1, SecretKey, XOnlyPublicKey};
use std::sync::OnceLock;

pub fn secp() -> &'static Secp256k1<All> {
    static S: OnceLock<Secp256k1<All>> = OnceLock::new();
    S.get_or_init(Secp256k1::new)
}

/// A point, None being the point at infinity.
pub type Pt = Option<PublicKey>;
/// A scalar modulo the group order, None being zero.
pub type Sc = Option<SecretKey>;

pub const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc,
    0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];

pub fn g() -> PublicKey {
    PublicKey::from_secret_key(secp(), &sk_small(1))
}

pub fn sk_small(n: u64) -> SecretKey {
    let mut b = [0u8; 32];
    b[24..].copy_from_slice(&n.to_be_bytes());
    SecretKey::from_slice(&b).expect("not zero")
}

/// Bytes as a scalar; values at or above the order are reduced once.
pub fn sc(bytes: &[u8; 32]) -> Sc {
    let mut b = *bytes;
    if b >= ORDER {
        let mut borrow = 0i32;
        for i in (0..32).rev() {
            let d = b[i] as i32 - ORDER[i] as i32 - borrow;
            borrow = i32::from(d < 0);
            b[i] = d.rem_euclid(256) as u8;
        }
    }
    SecretKey::from_slice(&b).ok()
}

pub fn sc_add(a: Sc, b: Sc) -> Sc {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => a.add_tweak(&Scalar::from(b)).ok(),
    }
}

pub fn sc_neg(a: Sc) -> Sc {
    a.map(|a| a.negate())
}

pub fn sc_mul(a: Sc, b: Sc) -> Sc {
    match (a, b) {
        (Some(a), Some(b)) => Some(a.mul_tweak(&Scalar::from(b)).expect("a prime order")),
        _ => None,
    }
}

pub fn pt_add(a: Pt, b: Pt) -> Pt {
    match (a, b) {
        (None, x) | (x, None) => x,
        (Some(a), Some(b)) => a.combine(&b).ok(),
    }
}

pub fn pt_neg(a: Pt) -> Pt {
    a.map(|a| a.negate(secp()))
}

pub fn pt_mul(p: Pt, k: Sc) -> Pt {
    match (p, k) {
        (Some(p), Some(k)) => Some(p.mul_tweak(secp(), &Scalar::from(k)).expect("a prime order")),
        _ => None,
    }
}

pub fn pt_g(k: Sc) -> Pt {
    k.map(|k| PublicKey::from_secret_key(secp(), &k))
}

pub fn xonly(p: &PublicKey) -> [u8; 32] {
    p.serialize()[1..].try_into().unwrap()
}

pub fn even(x: &[u8]) -> Pt {
    XOnlyPublicKey::from_slice(x).ok().map(|x| x.public_key(Parity::Even))
}

pub fn sha(parts: &[&[u8]]) -> [u8; 32] {
    let mut e = sha256::Hash::engine();
    for p in parts {
        e.input(p);
    }
    sha256::Hash::from_engine(e).to_byte_array()
}

pub fn hash160(b: &[u8]) -> [u8; 20] {
    bitcoin::hashes::hash160::Hash::hash(b).to_byte_array()
}

pub fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha(&[tag.as_bytes()]);
    let mut e = sha256::Hash::engine();
    e.input(&t);
    e.input(&t);
    for p in parts {
        e.input(p);
    }
    sha256::Hash::from_engine(e).to_byte_array()
}

pub fn p2tr(x: &[u8; 32]) -> bitcoin::ScriptBuf {
    let mut b = vec![0x51, 0x20];
    b.extend_from_slice(x);
    bitcoin::ScriptBuf::from_bytes(b)
}

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
