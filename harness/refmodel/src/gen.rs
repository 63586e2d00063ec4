//! Generators of keys, inputs, transactions and receivers.
use crate::{bip352::*, ec::*};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{PublicKey, SecretKey};
use bitcoin::{absolute, transaction, Amount, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Txid, Witness};
use engine::Src;
use std::collections::BTreeSet;

/// Mostly random keys, some from small ranges so that sums cancel and values repeat.
pub fn secret(s: &mut Src) -> SecretKey {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => loop {
            if let Some(k) = sc(&s.bytes32()) {
                return k;
            }
            // an all-zero draw, which only a shrunk tape gives
            return sk_small(1);
        },
        1 => sk_small(1 + s.below(6)),
        2 => sk_small(1 + s.below(6)).negate(),
        _ => {
            let mut b = [0u8; 32];
            b[31 - s.below(32) as usize] = 1 << s.below(8);
            sc(&b).expect("not zero")
        }
    }
}

/// A key that is certainly not related to the small ones.
pub fn random_secret(s: &mut Src) -> SecretKey {
    let mut b = s.bytes32();
    b[0] = 0x40 | b[0] & 0x3f;
    sc(&b).expect("not zero")
}

pub fn scalar_bytes(s: &mut Src) -> [u8; 32] {
    match s.weighted(&[4, 1, 1]) {
        0 => s.bytes32(),
        1 => [0; 32],
        _ => ORDER,
    }
}

/// Transaction ids from a small pool, so that first bytes and whole ids repeat.
pub fn outpoint(s: &mut Src) -> OutPoint {
    let mut b = match s.weighted(&[2, 2, 1]) {
        0 => s.bytes32(),
        1 => [s.below(3) as u8; 32],
        _ => {
            let mut b = [7u8; 32];
            b[*s.pick(&[0usize, 1, 30, 31])] = s.below(4) as u8;
            b
        }
    };
    if b == [0; 32] {
        // the null outpoint is for coinbases only
        b[3] = 1;
    }
    let vout = match s.weighted(&[3, 2, 1]) {
        0 => s.below(4) as u32,
        1 => *s.pick(&[255, 256, 257, 511, 512, 65535, 65536, 1 << 24]),
        _ => s.u32(),
    };
    OutPoint::new(Txid::from_byte_array(b), vout)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum InKind {
    TrKey,
    TrKeyAnnex,
    TrScript,
    TrScriptAnnex,
    TrNums,
    TrNumsAnnex,
    Wpkh,
    WpkhUncompressed,
    ShWpkh,
    ShWpkhUncompressed,
    Pkh,
    PkhMalleated,
    PkhUncompressed,
    P2pk,
    Wsh,
    ShWsh,
    ShMultisig,
    FutureWitness,
    Anchor,
    BareScript,
    /// a taproot output nobody can spend, its key not being on the curve
    TrOffCurve,
}
use InKind::*;

pub const ELIGIBLE: [InKind; 8] = [TrKey, TrKeyAnnex, TrScript, TrScriptAnnex, Wpkh, ShWpkh, Pkh, PkhMalleated];
pub const INELIGIBLE: [InKind; 13] = [
    TrNums,
    TrNumsAnnex,
    WpkhUncompressed,
    ShWpkhUncompressed,
    PkhUncompressed,
    P2pk,
    Wsh,
    ShWsh,
    ShMultisig,
    FutureWitness,
    Anchor,
    BareScript,
    TrOffCurve,
];

#[derive(Clone, Debug)]
pub struct GenIn {
    pub kind: InKind,
    pub txin: TxIn,
    pub prevout: TxOut,
    /// the secret of the key that counts (for taproot: of the output key, either parity); meaningless if not eligible
    pub secret: SecretKey,
    /// taproot: the internal secret and the merkle root
    pub internal: Option<SecretKey>,
    pub merkle_root: Option<[u8; 32]>,
    /// the key signing this input, as it stands in the witness or the script signature
    pub pubkey: PublicKey,
}

impl GenIn {
    pub fn eligible(&self) -> bool {
        ELIGIBLE.contains(&self.kind)
    }
    pub fn taproot(&self) -> bool {
        matches!(self.kind, TrKey | TrKeyAnnex | TrScript | TrScriptAnnex)
    }
    /// What a sender adds up.
    pub fn share(&self) -> Sc {
        if !self.eligible() {
            return None;
        }
        Some(if self.taproot() { even_secret(&self.secret) } else { self.secret })
    }
    pub fn show(&self) -> String {
        format!("{:?}@{}:{}", self.kind, &self.txin.previous_output.txid.to_string()[..8], self.txin.previous_output.vout)
    }
}

/// The secret of the point with the same x coordinate and an even y.
pub fn even_secret(k: &SecretKey) -> SecretKey {
    if pt_g(Some(*k)).unwrap().serialize()[0] == 3 {
        k.negate()
    } else {
        *k
    }
}

pub fn push(v: &mut Vec<u8>, b: &[u8]) {
    match b.len() {
        0..=75 => v.push(b.len() as u8),
        76..=255 => v.extend([0x4c, b.len() as u8]),
        n => v.extend([0x4d, n as u8, (n >> 8) as u8]),
    }
    v.extend_from_slice(b);
}

fn der(s: &mut Src) -> Vec<u8> {
    let n = s.size(8, 71);
    let mut v = vec![0x30, n as u8];
    let fill = s.u64().to_be_bytes();
    v.extend((0..n).map(|i| fill[i % 8].wrapping_add(i as u8)));
    v.push(1);
    v
}

fn schnorr(s: &mut Src) -> Vec<u8> {
    let mut v: Vec<u8> = s.bytes32().to_vec();
    v.extend(s.bytes32());
    if s.chance(1, 4) {
        // looks like an annex
        v[0] = 0x50;
    }
    if s.chance(1, 3) {
        v.push(1);
    }
    v
}

fn h160spk(head: &[u8], h: [u8; 20], tail: &[u8]) -> ScriptBuf {
    ScriptBuf::from_bytes([head, &h[..], tail].concat())
}

pub fn p2wpkh(pk: &[u8]) -> ScriptBuf {
    h160spk(&[0, 20], hash160(pk), &[])
}
pub fn p2pkh(pk: &[u8]) -> ScriptBuf {
    h160spk(&[0x76, 0xa9, 20], hash160(pk), &[0x88, 0xac])
}
pub fn p2sh(redeem: &[u8]) -> ScriptBuf {
    h160spk(&[0xa9, 20], hash160(redeem), &[0x87])
}

/// BIP341: the secret of the output key for an internal secret and a merkle root.
pub fn taproot_secret(internal: &SecretKey, root: Option<[u8; 32]>) -> SecretKey {
    let d = even_secret(internal);
    let x = xonly(&pt_g(Some(d)).unwrap());
    let root: &[u8] = root.as_ref().map_or(&[], |r| r);
    let t = sc(&tagged("TapTweak", &[&x, root]));
    sc_add(Some(d), t).expect("not zero")
}

pub fn gen_input(s: &mut Src, kind: InKind, secret: SecretKey, outpoint: OutPoint) -> GenIn {
    let pk = pt_g(Some(secret)).unwrap();
    let ser = pk.serialize();
    let mut witness: Vec<Vec<u8>> = vec![];
    let mut sig: Vec<u8> = vec![];
    let mut out_secret = secret;
    let mut internal = None;
    let mut merkle_root = None;
    let annex = |s: &mut Src| {
        let mut a = vec![0x50];
        let n = several(s, 0, 40, 400);
        a.extend(s.bytes(n));
        a
    };
    let spk = match kind {
        TrKey | TrKeyAnnex => {
            if s.chance(2, 3) {
                // a key-path-only or script-bearing output of an internal key
                let root = s.chance(1, 3).then(|| s.bytes32());
                internal = Some(secret);
                merkle_root = root;
                out_secret = taproot_secret(&secret, root);
            }
            witness.push(schnorr(s));
            if kind == TrKeyAnnex {
                witness.push(annex(s));
            }
            p2tr(&xonly(&pt_g(Some(out_secret)).unwrap()))
        }
        TrScript | TrScriptAnnex | TrNums | TrNumsAnnex => {
            let nums = matches!(kind, TrNums | TrNumsAnnex);
            let script = if s.chance(1, 2) {
                vec![0x51]
            } else {
                let mut v = vec![];
                push(&mut v, &s.bytes32());
                v.push(0xac);
                if s.chance(1, 100) {
                    v.extend(vec![0x61; s.size(1, 300)]);
                }
                v
            };
            let leaf = tagged("TapLeaf", &[&[0xc0], &bitcoin::consensus::serialize(&bitcoin::VarInt(script.len() as u64)), &script]);
            // consensus allows trees of up to 128 levels
            let depth = several(s, 0, 3, 126);
            let path: Vec<[u8; 32]> = (0..depth).map(|_| s.bytes32()).collect();
            let root = path.iter().fold(leaf, |h, p| {
                let (a, b) = if h < *p { (&h, p) } else { (p, &h) };
                tagged("TapBranch", &[a, b])
            });
            let (ix, out) = if nums {
                let t = sc(&tagged("TapTweak", &[&NUMS_X, &root]));
                (NUMS_X, pt_add(even(&NUMS_X), pt_g(t)).unwrap())
            } else {
                internal = Some(secret);
                merkle_root = Some(root);
                out_secret = taproot_secret(&secret, Some(root));
                (xonly(&pk), pt_g(Some(out_secret)).unwrap())
            };
            let parity = out.serialize()[0] & 1;
            for _ in 0..several(s, 0, 3, 40) {
                // stack elements; one that equals the unspendable point must not matter
                witness.push(if s.chance(1, 4) { [&[0xc0][..], &NUMS_X].concat() } else { schnorr(s) });
            }
            witness.push(script);
            let mut cb = vec![0xc0 | parity];
            cb.extend(ix);
            path.iter().for_each(|p| cb.extend(p));
            witness.push(cb);
            if matches!(kind, TrScriptAnnex | TrNumsAnnex) {
                witness.push(annex(s));
            }
            p2tr(&xonly(&out))
        }
        TrOffCurve => {
            let mut x = s.bytes32();
            while even(&x).is_some() {
                x[31] = x[31].wrapping_add(1);
            }
            witness.push(schnorr(s));
            p2tr(&x)
        }
        Wpkh => {
            witness = vec![der(s), ser.to_vec()];
            p2wpkh(&ser)
        }
        WpkhUncompressed => {
            let u = pk.serialize_uncompressed();
            witness = vec![der(s), u.to_vec()];
            p2wpkh(&u)
        }
        ShWpkh => {
            let redeem = p2wpkh(&ser).into_bytes();
            push(&mut sig, &redeem);
            witness = vec![der(s), ser.to_vec()];
            p2sh(&redeem)
        }
        ShWpkhUncompressed => {
            let u = pk.serialize_uncompressed();
            let redeem = p2wpkh(&u).into_bytes();
            push(&mut sig, &redeem);
            witness = vec![der(s), u.to_vec()];
            p2sh(&redeem)
        }
        Pkh => {
            push(&mut sig, &der(s));
            push(&mut sig, &ser);
            p2pkh(&ser)
        }
        PkhMalleated => {
            // junk before, between or after, dropped again: the script still leaves signature and key on the stack
            let junk = |s: &mut Src, sig: &mut Vec<u8>| {
                let pieces = if s.chance(1, 2) { several(s, 1, 1, 12) } else { 0 };
                for _ in 0..pieces {
                    let n = several(s, 1, 60, 450);
                    let mut b = s.bytes(n);
                    if s.chance(1, 2) {
                        b = PublicKey::from_secret_key(secp(), &random_secret(s)).serialize().to_vec();
                    }
                    push(sig, &b);
                    sig.push(0x75);
                }
            };
            junk(s, &mut sig);
            push(&mut sig, &der(s));
            junk(s, &mut sig);
            if s.chance(1, 3) {
                // the key in a push of more than itself cannot be valid, but an OP_PUSHDATA form is
                sig.extend([0x4c, 33]);
                sig.extend(ser);
            } else {
                push(&mut sig, &ser);
            }
            junk(s, &mut sig);
            p2pkh(&ser)
        }
        PkhUncompressed => {
            let u = pk.serialize_uncompressed();
            push(&mut sig, &der(s));
            push(&mut sig, &u);
            p2pkh(&u)
        }
        P2pk => {
            push(&mut sig, &der(s));
            let mut v = vec![];
            push(&mut v, &ser);
            v.push(0xac);
            ScriptBuf::from_bytes(v)
        }
        Wsh | ShWsh => {
            let mut script = vec![];
            push(&mut script, &ser);
            script.push(0xac);
            witness = vec![der(s), script.clone()];
            if s.chance(1, 3) {
                // the last element is a key like in P2WPKH
                witness.push(ser.to_vec());
            }
            let h = sha(&[witness.last().unwrap()]);
            let prog = [&[0u8, 32][..], &h].concat();
            if kind == ShWsh {
                push(&mut sig, &prog);
                p2sh(&prog)
            } else {
                ScriptBuf::from_bytes(prog)
            }
        }
        ShMultisig => {
            let mut redeem = vec![0x51];
            push(&mut redeem, &ser);
            redeem.extend([0x51, 0xae]);
            sig.push(0);
            push(&mut sig, &der(s));
            push(&mut sig, &redeem);
            p2sh(&redeem)
        }
        FutureWitness => {
            witness = vec![schnorr(s), ser.to_vec()];
            let v = s.range(2, 16) as u8;
            ScriptBuf::from_bytes([&[0x50 + v, 32][..], &xonly(&pk)].concat())
        }
        Anchor => {
            if s.chance(1, 2) {
                witness = vec![ser.to_vec()];
            }
            ScriptBuf::from_bytes(vec![0x51, 2, 0x4e, 0x73])
        }
        BareScript => {
            // anyone can spend; may carry anything that looks like a key
            if s.chance(1, 2) {
                push(&mut sig, &ser);
            }
            ScriptBuf::from_bytes(vec![0x51; s.size(1, 3)])
        }
    };
    let amount = 1000 + s.below(1 << 40);
    GenIn {
        kind,
        txin: TxIn {
            previous_output: outpoint,
            script_sig: ScriptBuf::from_bytes(sig),
            sequence: Sequence(if s.chance(1, 2) { 0xffff_ffff } else { s.u32() }),
            witness: Witness::from_slice(&witness),
        },
        prevout: TxOut { value: Amount::from_sat(amount), script_pubkey: spk },
        secret: out_secret,
        internal,
        merkle_root,
        pubkey: pk,
    }
}

/// Inputs of all kinds with distinct outpoints.
pub fn inputs(s: &mut Src, max: usize, ineligible: bool) -> Vec<GenIn> {
    let n = several(s, 1, max, 300);
    let mut used = BTreeSet::new();
    let mut v: Vec<GenIn> = vec![];
    for _ in 0..n {
        let kind = if ineligible && s.chance(1, 3) { *s.pick(&INELIGIBLE) } else { *s.pick(&ELIGIBLE) };
        let mut o = outpoint(s);
        while !used.insert(o) {
            o.vout = o.vout.wrapping_add(1);
        }
        let k = match s.weighted(&[4, 1, 1]) {
            1 if !v.is_empty() => {
                // a key already used
                let i = s.below(v.len() as u64) as usize;
                v[i].internal.unwrap_or(v[i].secret)
            }
            2 if !v.is_empty() => {
                // the negation of a key already used
                let i = s.below(v.len() as u64) as usize;
                v[i].internal.unwrap_or(v[i].secret).negate()
            }
            _ => secret(s),
        };
        v.push(gen_input(s, kind, k, o));
    }
    if s.chance(1, 16) {
        // one that cancels all the others, or does so but for its parity
        let sum = v.iter().fold(None, |a, i| sc_add(a, i.share()));
        let mut o = outpoint(s);
        while !used.insert(o) {
            o.vout = o.vout.wrapping_add(1);
        }
        if let Some(k) = sum {
            let kind = *s.pick(&[InKind::Wpkh, InKind::Pkh, InKind::ShWpkh]);
            v.push(gen_input(s, kind, k.negate(), o));
        }
    }
    v
}

/// A small number, and seldom a large one.
pub fn several(s: &mut Src, min: usize, max: usize, large: u64) -> usize {
    if s.chance(1, 150) {
        max + s.below(large) as usize
    } else {
        s.size(min, max)
    }
}

/// a * input hash for the inputs, None if the keys sum to zero or none is eligible
pub fn partial(inputs: &[GenIn]) -> Sc {
    if inputs.iter().any(|i| unknown_version(&i.prevout)) {
        return None;
    }
    let a = inputs.iter().fold(None, |a, i| sc_add(a, i.share()))?;
    let small = smallest(inputs.iter().map(|i| &i.txin.previous_output))?;
    sc_mul(Some(a), input_hash(&small, &pt_g(Some(a)).unwrap()))
}

pub fn label_number(s: &mut Src) -> u32 {
    match s.weighted(&[4, 1, 1, 1, 1]) {
        0 => s.below(5) as u32,
        1 => *s.pick(&[255, 256, 65535, 65536, 1 << 24, u32::MAX, u32::MAX - 1]),
        2 => 0,
        // one bit away from the small ones
        3 => s.below(4) as u32 ^ 1 << s.below(32),
        _ => s.u32(),
    }
}

pub fn receiver(s: &mut Src, max_labels: usize) -> Receiver {
    let scan_sk = secret(s);
    let spend_sk = secret(s);
    let n = several(s, 0, max_labels, 24);
    let mut labels = vec![];
    for _ in 0..n {
        let l = label_number(s);
        if !labels.contains(&l) {
            labels.push(l);
        }
    }
    Receiver { scan_sk, spend_sk, labels }
}

pub fn amount(s: &mut Src) -> Amount {
    Amount::from_sat(match s.weighted(&[3, 1, 1]) {
        0 => 500 + s.below(1_000_000),
        1 => s.below(3),
        _ => s.below(21_000_000 * 100_000_000),
    })
}

/// Outputs that have nothing to do with anyone: all kinds of scripts, some almost taproot.
pub fn foreign_output(s: &mut Src) -> TxOut {
    let spk = match s.weighted(&[3, 2, 1, 1, 1, 1, 1, 1]) {
        0 => p2tr(&xonly(&pt_g(Some(random_secret(s))).unwrap())),
        1 => p2wpkh(&s.bytes32()),
        2 => {
            // not on the curve
            let mut x = s.bytes32();
            while even(&x).is_some() {
                x[31] = x[31].wrapping_add(1);
            }
            p2tr(&x)
        }
        3 => p2tr(&if s.chance(1, 2) { [0; 32] } else { [0xff; 32] }),
        4 => ScriptBuf::from_bytes([&[0x52, 0x20][..], &s.bytes32()].concat()),
        5 => {
            let n = s.size(0, 3);
            let b = s.bytes(n);
            ScriptBuf::from_bytes([&[0x6a, n as u8][..], &b].concat())
        }
        6 => {
            let n = s.size(0, 40);
            ScriptBuf::from_bytes(s.bytes(n))
        }
        _ => p2pkh(&s.bytes32()),
    };
    TxOut { value: amount(s), script_pubkey: spk }
}

/// Versions and lock times do not matter for silent payments; they come from the first input.
pub fn tx(inputs: Vec<TxIn>, outputs: Vec<TxOut>) -> Transaction {
    let b = inputs.first().map_or([0; 32], |i| i.previous_output.txid.to_byte_array());
    Transaction {
        version: transaction::Version([2, 2, 2, 1, 3, 2, 0, i32::from_le_bytes([b[1], b[2], b[3], b[4]])][b[0] as usize % 8]),
        lock_time: absolute::LockTime::from_consensus(if b[5] % 3 > 0 { 0 } else { u32::from_le_bytes([b[6], b[7], b[8], b[9]]) }),
        input: inputs,
        output: outputs,
    }
}

/// A height of a block: mostly low, sometimes beyond what one or two bytes hold.
pub fn height(s: &mut Src, low: u64) -> u32 {
    match s.weighted(&[6, 1, 1, 1]) {
        0 => s.below(low) as u32,
        1 => 250 + s.below(20) as u32,
        2 => 65_530 + s.below(20) as u32,
        _ => s.below(3_000_000) as u32,
    }
}
