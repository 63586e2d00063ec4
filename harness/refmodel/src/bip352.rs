//! Silent payments as in BIP352.
use crate::ec::*;
use bitcoin::secp256k1::{PublicKey, SecretKey};
use bitcoin::{OutPoint, Transaction, TxIn, TxOut};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Tr,
    Wpkh,
    ShWpkh,
    Pkh,
}

pub const NUMS_X: [u8; 32] = [
    0x50, 0x92, 0x9b, 0x74, 0xc1, 0xa0, 0x49, 0x54, 0xb7, 0x8b, 0x4b, 0x60, 0x35, 0xe9, 0x7a, 0x5e, 0x07, 0x8a, 0x5a,
    0x0f, 0x28, 0xec, 0x96, 0xd5, 0x47, 0xbf, 0xee, 0x9a, 0xce, 0x80, 0x3a, 0xc0,
];

fn compressed(b: &[u8]) -> Pt {
    (b.len() == 33 && (b[0] == 2 || b[0] == 3)).then(|| PublicKey::from_slice(b).ok()).flatten()
}

fn is_p2wpkh(s: &[u8]) -> bool {
    s.len() == 22 && s[0] == 0 && s[1] == 20
}

pub fn is_p2tr(s: &[u8]) -> bool {
    s.len() == 34 && s[0] == 0x51 && s[1] == 32
}

/// The input's public key if it counts towards the shared secret.
pub fn input_key(script_sig: &[u8], witness: &[Vec<u8>], spk: &[u8]) -> Option<(Kind, PublicKey)> {
    let p2pkh = spk.len() == 25 && spk[..3] == [0x76, 0xa9, 20] && spk[23..] == [0x88, 0xac];
    let p2sh = spk.len() == 23 && spk[..2] == [0xa9, 20] && spk[22] == 0x87;
    if p2pkh {
        // the last 33 bytes window hashing to the output, wherever it is
        for end in (33..=script_sig.len()).rev() {
            let w = &script_sig[end - 33..end];
            if hash160(w) == spk[3..23] {
                return compressed(w).map(|p| (Kind::Pkh, p));
            }
        }
        return None;
    }
    if p2sh {
        if script_sig.len() == 23 && script_sig[0] == 22 && is_p2wpkh(&script_sig[1..]) {
            return compressed(witness.last()?).map(|p| (Kind::ShWpkh, p));
        }
        return None;
    }
    if is_p2wpkh(spk) {
        return compressed(witness.last()?).map(|p| (Kind::Wpkh, p));
    }
    if is_p2tr(spk) {
        let mut stack = witness;
        if stack.is_empty() {
            return None;
        }
        if stack.len() > 1 && stack.last().unwrap().first() == Some(&0x50) {
            stack = &stack[..stack.len() - 1];
        }
        if stack.len() > 1 {
            let cb = stack.last().unwrap();
            if cb.len() >= 33 && cb[1..33] == NUMS_X {
                return None;
            }
        }
        return even(&spk[2..]).map(|p| (Kind::Tr, p));
    }
    None
}

pub fn txin_key(txin: &TxIn, prev: &TxOut) -> Option<(Kind, PublicKey)> {
    let w: Vec<Vec<u8>> = txin.witness.iter().map(|x| x.to_vec()).collect();
    input_key(txin.script_sig.as_bytes(), &w, prev.script_pubkey.as_bytes())
}

pub fn outpoint_bytes(o: &OutPoint) -> [u8; 36] {
    let mut b = [0u8; 36];
    let txid: &[u8; 32] = o.txid.as_ref();
    b[..32].copy_from_slice(txid);
    b[32..].copy_from_slice(&o.vout.to_le_bytes());
    b
}

pub fn smallest<'a>(o: impl Iterator<Item = &'a OutPoint>) -> Option<[u8; 36]> {
    o.map(outpoint_bytes).min()
}

pub fn input_hash(smallest: &[u8; 36], sum: &PublicKey) -> Sc {
    sc(&tagged("BIP0352/Inputs", &[smallest, &sum.serialize()]))
}

/// Whether the output's segwit version is one whose keys nobody knows yet.
pub fn unknown_version(o: &TxOut) -> bool {
    let b = o.script_pubkey.as_bytes();
    (4..=42).contains(&b.len()) && (0x52..=0x60).contains(&b[0]) && b[1] as usize == b.len() - 2
}

/// The sum of the eligible input keys.
pub fn input_sum(tx: &Transaction, prev: &[TxOut]) -> Pt {
    if prev.iter().any(unknown_version) {
        return None;
    }
    tx.input.iter().zip(prev).fold(None, |s, (i, p)| pt_add(s, txin_key(i, p).map(|x| x.1)))
}

/// input_hash * A, what a tweak server publishes for the transaction.
pub fn tweak_data(tx: &Transaction, prev: &[TxOut]) -> Pt {
    let sum = input_sum(tx, prev)?;
    let small = smallest(tx.input.iter().map(|i| &i.previous_output))?;
    pt_mul(Some(sum), input_hash(&small, &sum))
}

pub fn label_scalar(scan_sk: &SecretKey, m: u32) -> SecretKey {
    sc(&tagged("BIP0352/Label", &[&scan_sk.secret_bytes(), &m.to_be_bytes()])).expect("not zero")
}

pub fn t_k(shared: &PublicKey, k: u32) -> SecretKey {
    sc(&tagged("BIP0352/SharedSecret", &[&shared.serialize(), &k.to_be_bytes()])).expect("not zero")
}

pub fn p_k(shared: &PublicKey, k: u32, spend: &PublicKey) -> Pt {
    pt_add(Some(*spend), pt_g(Some(t_k(shared, k))))
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Receiver {
    pub scan_sk: SecretKey,
    pub spend_sk: SecretKey,
    /// registered labels
    pub labels: Vec<u32>,
}

impl Receiver {
    pub fn scan_pk(&self) -> PublicKey {
        pt_g(Some(self.scan_sk)).unwrap()
    }
    pub fn spend_pk(&self) -> PublicKey {
        pt_g(Some(self.spend_sk)).unwrap()
    }
    pub fn label(&self, m: u32) -> SecretKey {
        label_scalar(&self.scan_sk, m)
    }
    /// the spend key of the code for a label
    pub fn spend_for(&self, label: Option<u32>) -> PublicKey {
        match label {
            None => self.spend_pk(),
            Some(m) => pt_add(Some(self.spend_pk()), pt_g(Some(self.label(m)))).expect("not infinity"),
        }
    }
    pub fn shared(&self, tweak: &PublicKey) -> PublicKey {
        pt_mul(Some(*tweak), Some(self.scan_sk)).unwrap()
    }
    /// the scripts that pay the receiver at counter k
    pub fn scripts(&self, tweak: &PublicKey, k: u32) -> Vec<(Option<u32>, bitcoin::ScriptBuf)> {
        let shared = self.shared(tweak);
        std::iter::once(None)
            .chain(self.labels.iter().map(|m| Some(*m)))
            .filter_map(|l| p_k(&shared, k, &self.spend_for(l)).map(|p| (l, p2tr(&xonly(&p)))))
            .collect()
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Owned {
    pub outpoint: OutPoint,
    pub out: TxOut,
    pub tweak: SecretKey,
    pub label: Option<u32>,
}

/// For each counter value, what outputs match: more than one only in transactions nobody makes by following BIP352.
pub struct Scan {
    pub owned: Vec<Owned>,
    pub ambiguous: bool,
}

/// The outputs of the transaction matching at counter k, among those given.
fn matches(r: &Receiver, shared: &PublicKey, k: u32, tx: &Transaction, left: &[usize]) -> Vec<(usize, Owned)> {
    let t = t_k(shared, k);
    let txid = tx.compute_txid();
    let mut out = vec![];
    for l in std::iter::once(None).chain(r.labels.iter().map(|m| Some(*m))) {
        let Some(p) = p_k(shared, k, &r.spend_for(l)) else { continue };
        let spk = p2tr(&xonly(&p));
        for v in left {
            if tx.output[*v].script_pubkey == spk {
                let Some(tweak) = sc_add(Some(t), l.map(|m| r.label(m))) else { continue };
                out.push((
                    *v,
                    Owned { outpoint: OutPoint::new(txid, *v as u32), out: tx.output[*v].clone(), tweak, label: l },
                ));
            }
        }
    }
    out.sort_by_key(|x| x.0);
    out
}

/// The outputs the BIP352 algorithm finds, taking the first match in output order.
pub fn scan(r: &Receiver, tx: &Transaction, tweak: &PublicKey) -> Scan {
    let shared = r.shared(tweak);
    let mut left: Vec<usize> = (0..tx.output.len()).filter(|v| is_p2tr(tx.output[*v].script_pubkey.as_bytes())).collect();
    let mut s = Scan { owned: vec![], ambiguous: false };
    for k in 0.. {
        let m = matches(r, &shared, k, tx, &left);
        s.ambiguous |= m.len() > 1;
        let Some((v, o)) = m.into_iter().next() else { break };
        left.retain(|x| *x != v);
        s.owned.push(o);
    }
    s
}

/// Whether a result is one the BIP352 algorithm may give: at each counter value one of the matching outputs, until
/// none matches.
pub fn check_scan(r: &Receiver, tx: &Transaction, tweak: &PublicKey, found: &[Owned]) -> Result<(), String> {
    let shared = r.shared(tweak);
    let mut left: Vec<usize> = (0..tx.output.len()).filter(|v| is_p2tr(tx.output[*v].script_pubkey.as_bytes())).collect();
    let mut rest = found.to_vec();
    for k in 0.. {
        let m = matches(r, &shared, k, tx, &left);
        if m.is_empty() {
            break;
        }
        let Some(pos) = rest.iter().position(|f| m.iter().any(|x| x.1 == *f)) else {
            return Err(format!("none of the outputs matching at k={k} is reported as it should be: {m:?}, reported {rest:?}"));
        };
        let f = rest.remove(pos);
        left.retain(|v| *v as u32 != f.outpoint.vout);
    }
    if rest.is_empty() {
        Ok(())
    } else {
        Err(format!("reported although not the receiver's: {rest:?}"))
    }
}

/// The x-only keys a sender with this partial secret (a * input hash) derives, in the order of the payments.
pub fn derive(partial: &SecretKey, payments: &[(PublicKey, PublicKey)]) -> Vec<[u8; 32]> {
    let mut counters: std::collections::BTreeMap<PublicKey, u32> = Default::default();
    payments
        .iter()
        .map(|(scan, spend)| {
            let k = counters.entry(*scan).or_default();
            let shared = pt_mul(Some(*scan), Some(*partial)).unwrap();
            let p = p_k(&shared, *k, spend).expect("not infinity");
            *k += 1;
            xonly(&p)
        })
        .collect()
}
