//! What the index and wallet checks share: stored forms, and transactions paying a receiver.
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::receive::SpOut;
use bitcoin::secp256k1::PublicKey;
use bitcoin::{absolute, block, Amount, Block, BlockHash, Network, OutPoint, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness};
use engine::*;
use refmodel::bip352::{p_k, Owned, Receiver};
use refmodel::ec::*;
use refmodel::gen;
use serde::{de::DeserializeOwned, Serialize};

/// One of the formats in which change sets are kept.
pub fn store<T: Serialize + DeserializeOwned>(format: u64, v: &T) -> Result<T, Fail> {
    let text = |e: String| Fail { sig: "does not read back".into(), msg: e };
    guarded(|| match format % 3 {
        0 => {
            let s = serde_json::to_string(v).map_err(|e| text(format!("json: {e}")))?;
            serde_json::from_str(&s).map_err(|e| text(format!("json: {e}: {s}")))
        }
        1 => {
            let b = bincode::serialize(v).map_err(|e| text(format!("bincode: {e}")))?;
            bincode::deserialize(&b).map_err(|e| text(format!("bincode: {e}")))
        }
        _ => {
            let b = bincode::serialize(v).map_err(|e| text(format!("bincode: {e}")))?;
            bincode::deserialize_from(&b[..]).map_err(|e| text(format!("bincode from a reader: {e}")))
        }
    })?
}

pub fn code(r: &Receiver, label: Option<u32>, n: Network) -> SilentPaymentCode {
    SilentPaymentCode::new_v0(r.scan_pk(), r.spend_for(label), n)
}

pub fn owned(o: &SpOut) -> Owned {
    Owned {
        outpoint: o.outpoint,
        out: TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() },
        tweak: o.tweak,
        label: o.label,
    }
}

pub fn spout(o: &Owned) -> SpOut {
    SpOut {
        outpoint: o.outpoint,
        tweak: o.tweak,
        script_pubkey: o.out.script_pubkey.clone(),
        amount: o.out.value,
        label: o.label,
    }
}

/// The outputs paying the labels in order, counting up for this receiver.
pub fn pay(s: &mut Src, r: &Receiver, tweak: &PublicKey, labels: &[Option<u32>]) -> Vec<TxOut> {
    let shared = r.shared(tweak);
    labels
        .iter()
        .enumerate()
        .map(|(k, l)| {
            let p = p_k(&shared, k as u32, &r.spend_for(*l)).expect("not infinity");
            TxOut { value: gen::amount(s), script_pubkey: p2tr(&xonly(&p)) }
        })
        .collect()
}

pub fn input(s: &mut Src, o: OutPoint) -> TxIn {
    TxIn {
        previous_output: o,
        script_sig: ScriptBuf::new(),
        sequence: Sequence(s.below(3) as u32),
        witness: Witness::from_slice(&[vec![s.u8(); 64]]),
    }
}

pub fn coinbase(height: u32, outputs: Vec<TxOut>) -> Transaction {
    let mut sig = vec![4];
    sig.extend_from_slice(&height.to_le_bytes());
    Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: absolute::LockTime::ZERO,
        input: vec![TxIn {
            previous_output: OutPoint::null(),
            script_sig: ScriptBuf::from_bytes(sig),
            sequence: Sequence::MAX,
            witness: Witness::default(),
        }],
        output: if outputs.is_empty() {
            vec![TxOut { value: Amount::from_sat(50), script_pubkey: ScriptBuf::from_bytes(vec![0x51]) }]
        } else {
            outputs
        },
    }
}

pub fn block(prev: BlockHash, time: u32, nonce: u32, txdata: Vec<Transaction>) -> Block {
    let mut b = Block {
        header: block::Header {
            version: block::Version::TWO,
            prev_blockhash: prev,
            merkle_root: bitcoin::hashes::Hash::all_zeros(),
            time,
            bits: bitcoin::CompactTarget::from_consensus(0x207fffff),
            nonce,
        },
        txdata,
    };
    b.header.merkle_root = b.compute_merkle_root().expect("has a coinbase");
    b
}

/// A receiver with at least the labels of a small pool to draw from.
pub fn receiver(s: &mut Src) -> (Receiver, Vec<u32>) {
    let mut r = gen::receiver(s, 0);
    let mut pool = vec![];
    if s.chance(1, 200) {
        // more than anybody would think of
        pool.extend(0..60 + s.below(20) as u32);
    }
    for _ in 0..s.size(1, 5) {
        let m = gen::label_number(s);
        if !pool.contains(&m) {
            pool.push(m);
        }
    }
    r.labels.clear();
    (r, pool)
}

pub fn fresh_input(s: &mut Src) -> TxIn {
    let o = gen::outpoint(s);
    input(s, o)
}
