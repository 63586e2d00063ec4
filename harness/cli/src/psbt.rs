//! C35: payments to silent payment codes put into the PSBTs of other wallets.
use crate::v1::{code_text, Wallet};
use bitcoin::absolute::LockTime;
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, Xpriv};
use bitcoin::secp256k1::SecretKey;
use bitcoin::{
    transaction, Amount, CompressedPublicKey, OutPoint, Psbt, ScriptBuf, Sequence, Transaction, TxIn, TxOut, Witness,
};
use engine::*;
use refmodel::bip352::{input_hash, p_k, smallest};
use refmodel::gen::InKind;
use refmodel::*;
use std::str::FromStr;

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C35",
        "a PSBT of up to 30 inputs, of keys of one extended key or of others and of all kinds, with outputs of equal amounts and scripts, one of which is to pay a code instead; non-trivial when the output is replaced in a PSBT of several inputs",
        3_000,
        30_000,
        replace,
    )
    .shrink_budget(400)]
}

fn path(s: &mut Src) -> DerivationPath {
    let n = s.size(0, 5);
    let v: Vec<ChildNumber> = (0..n)
        .map(|_| {
            let index = if s.chance(3, 4) { s.below(4) as u32 } else { s.u32() >> 1 };
            if s.chance(1, 2) {
                ChildNumber::Hardened { index }
            } else {
                ChildNumber::Normal { index }
            }
        })
        .collect();
    v.into()
}

/// An input as the PSBT knows it, and what it adds to the sum of keys.
struct In {
    kind: InKind,
    prevout: TxOut,
    share: Sc,
    own: bool,
    /// the key of the input, with the internal key for taproot
    key: SecretKey,
    path: DerivationPath,
}

fn own_input(s: &mut Src, master: &Xpriv) -> In {
    let path = path(s);
    let key = master.derive_priv(secp(), &path).unwrap().private_key;
    let ser = pt_g(Some(key)).unwrap().serialize();
    let (kind, spk, share) = match s.weighted(&[4, 3, 2, 2, 1, 1]) {
        0 => {
            let out = gen::taproot_secret(&key, None);
            (InKind::TrKey, p2tr(&xonly(&pt_g(Some(out)).unwrap())), Some(gen::even_secret(&out)))
        }
        1 => (InKind::Wpkh, gen::p2wpkh(&ser), Some(key)),
        2 => (InKind::ShWpkh, gen::p2sh(gen::p2wpkh(&ser).as_bytes()), Some(key)),
        3 => (InKind::Pkh, gen::p2pkh(&ser), Some(key)),
        4 => {
            let script = ScriptBuf::from_bytes([&[33], &ser[..], &[0xac]].concat());
            (InKind::Wsh, script.to_p2wsh(), None)
        }
        _ => (InKind::P2pk, ScriptBuf::from_bytes([&[33], &ser[..], &[0xac]].concat()), None),
    };
    In { kind, prevout: TxOut { value: gen::amount(s), script_pubkey: spk }, share, own: true, key, path }
}

fn foreign_input(s: &mut Src) -> In {
    let kind = if s.chance(1, 3) { *s.pick(&gen::ELIGIBLE) } else { *s.pick(&gen::INELIGIBLE) };
    let key = gen::random_secret(s);
    let i = gen::gen_input(s, kind, key, OutPoint::null());
    In { kind, share: i.share(), prevout: i.prevout, own: false, key, path: path(s) }
}

fn replace(s: &mut Src, cx: &mut Cx) -> R {
    let (w, mut wr) = Wallet::new(s);
    w.init(&mut wr)?;
    let n = w.network;
    let master = Xpriv::new_master(bitcoin::NetworkKind::from(n), &s.bytes32()).unwrap();
    let fp = master.fingerprint(secp());
    let foreign = s.chance(2, 5);
    let many = s.chance(1, 20);
    let mut ins: Vec<In> = (0..if many { s.size(6, 30) } else { s.size(1, 5) })
        .map(|_| if foreign && s.chance(1, 2) { foreign_input(s) } else { own_input(s, &master) })
        .collect();
    // some more to spend than is paid
    for i in &mut ins {
        i.prevout.value = Amount::from_sat(i.prevout.value.to_sat().min(1 << 45) + 100_000);
    }
    let total: u64 = ins.iter().map(|i| i.prevout.value.to_sat()).sum();

    // outputs
    let count = if s.chance(1, 20) { s.size(6, 30) } else { s.size(1, 5) };
    let amounts = if count > 5 { [1_000, 1_001, 1_500, total / 100] } else { [1_000, 1_001, 5_000, total / 10] };
    let mut scripts: Vec<ScriptBuf> =
        (0..2).map(|_| p2tr(&xonly(&pt_g(Some(gen::random_secret(s))).unwrap()))).collect();
    scripts.push(gen::foreign_output(s).script_pubkey);
    let mut outs: Vec<TxOut> = vec![];
    for _ in 0..count {
        let value = Amount::from_sat(*s.pick(&amounts));
        outs.push(TxOut { value, script_pubkey: scripts[s.weighted(&[4, 3, 1])].clone() });
    }
    let amount = if s.chance(1, 12) { 777 } else { s.pick(&outs).value.to_sat() };

    // the PSBT
    let mut txins = vec![];
    let mut maps = vec![];
    let mut unknown = false;
    for i in &ins {
        let mut m = bitcoin::psbt::Input::default();
        let prev = Transaction {
            version: transaction::Version::TWO,
            lock_time: LockTime::from_consensus(s.u32()),
            input: vec![TxIn::default()],
            output: {
                let at = s.below(4) as usize;
                let mut v: Vec<TxOut> = (0..s.below(3) as usize + at).map(|_| gen::foreign_output(s)).collect();
                v.insert(at, i.prevout.clone());
                v
            },
        };
        let vout = prev.output.iter().position(|o| *o == i.prevout).unwrap();
        let op = OutPoint::new(prev.compute_txid(), vout as u32);
        // the outpoint only matters for legacy inputs' previous transactions
        let legacy = matches!(i.kind, InKind::Pkh | InKind::P2pk);
        let op = if legacy || s.chance(1, 2) {
            m.non_witness_utxo = Some(prev);
            op
        } else {
            gen::outpoint(s)
        };
        if m.non_witness_utxo.is_none() || (!legacy && s.chance(1, 2)) {
            m.witness_utxo = Some(i.prevout.clone());
        }
        if s.chance(1, 30) {
            unknown = true;
            m.witness_utxo = None;
            m.non_witness_utxo = None;
        }
        // where the keys come from
        let own = (fp, i.path.clone());
        let pk = pt_g(Some(i.key)).unwrap();
        let mut origins = vec![];
        if i.own {
            origins.push((pk, own));
        } else if s.chance(1, 2) {
            origins.push((pk, (Fingerprint::from([1, 2, 3, 4]), i.path.clone())));
        }
        if s.chance(1, 5) {
            // of another signer of the same input
            let other = pt_g(Some(gen::random_secret(s))).unwrap();
            origins.push((other, (Fingerprint::from([9, 9, 9, s.u8()]), path(s))));
        }
        for (pk, o) in origins {
            if matches!(i.kind, InKind::TrKey | InKind::TrKeyAnnex | InKind::TrScript | InKind::TrScriptAnnex) {
                if o.0 == fp {
                    m.tap_internal_key = Some(pk.x_only_public_key().0);
                }
                m.tap_key_origins.insert(pk.x_only_public_key().0, (vec![], o));
            } else {
                m.bip32_derivation.insert(pk, o);
            }
        }
        if i.own && i.kind == InKind::ShWpkh {
            m.redeem_script = Some(ScriptBuf::new_p2wpkh(&CompressedPublicKey(pk).wpubkey_hash()));
        }
        txins.push(TxIn {
            previous_output: op,
            script_sig: ScriptBuf::new(),
            sequence: Sequence(s.u32()),
            witness: Witness::new(),
        });
        maps.push(m);
    }
    let unsigned = Transaction {
        version: transaction::Version::TWO,
        lock_time: LockTime::from_consensus(s.u32()),
        input: txins,
        output: outs.clone(),
    };
    let mut psbt = Psbt::from_unsigned_tx(unsigned.clone()).unwrap();
    psbt.inputs = maps;

    let r = gen::receiver(s, 2);
    let label = if r.labels.is_empty() || s.chance(1, 2) { None } else { Some(*s.pick(&r.labels)) };
    let code = code_text(n, &r, label);
    let key = format!("{master}{}", if s.chance(1, 2) { "/86h/1h/0h/0/*" } else { "/*" });
    let desc = match s.below(4) {
        0 => format!("tr({key})"),
        1 => format!("wpkh({key})"),
        2 => format!("sh(wpkh({key}))"),
        _ => format!("pkh({key})"),
    };
    let (text, sats) = (psbt.to_string(), amount.to_string());
    let mut args = vec!["to-silent-payment", "--code", &code, "--amount", &sats, "--psbt", &text];
    let by_env = s.chance(1, 4);
    if !by_env {
        args.extend(["--descriptor", &desc]);
    }
    let env = [("DESCRIPTOR", desc.as_str())];
    let o = w.sp_with(&args, if by_env { &env } else { &[] })?;
    cx.note(|| {
        let k: Vec<_> = ins.iter().map(|i| (i.own, i.kind)).collect();
        format!("{k:?} {amount} of {:?}", outs.iter().map(|o| o.value.to_sat()).collect::<Vec<_>>())
    });
    ensure!(o.code != 101, "panics", "{}: {}{}", o.line, o.stdout, o.stderr);

    let mut sum = ins.iter().fold(None, |a, i| sc_add(a, i.share));
    if ins.iter().any(|i| unknown_version(&i.prevout)) {
        sum = None;
    }
    let small = smallest(psbt.unsigned_tx.input.iter().map(|i| &i.previous_output)).unwrap();
    let first = outs.iter().find(|x| x.value.to_sat() == amount);
    let possible = !unknown && sum.is_some() && first.is_some_and(|x| x.script_pubkey.is_p2tr());
    let needed = possible && ins.iter().all(|i| i.own);
    cx.label_if(!possible, "impossible");
    cx.label_if(foreign, "inputs of others");
    if o.code != 0 {
        ensure!(!needed, "refused", "{}: {}{}", o.line, o.stdout, o.stderr);
        cx.label("refused");
        return Ok(());
    }
    let result = o.text("psbt", "no PSBT")?;
    let result = match Psbt::from_str(&result) {
        Ok(p) => p,
        Err(e) => return fail("PSBT not readable", format!("{e}: {result}")),
    };
    ensure!(sum.is_some(), "paid without keys", "{}", o.line);
    // exactly one output with the amount is another one now
    ensure_eq!(result.unsigned_tx.output.len(), outs.len(), "number of outputs");
    let changed: Vec<usize> =
        (0..outs.len()).filter(|i| result.unsigned_tx.output[*i].script_pubkey != outs[*i].script_pubkey).collect();
    ensure!(changed.len() == 1, "changed outputs", "{changed:?} for {amount} of {outs:?}");
    let at = changed[0];
    ensure!(
        outs[at].value.to_sat() == amount && outs[at].script_pubkey.is_p2tr(),
        "another output changed",
        "output {at} for {amount} of {outs:?}"
    );
    let a = sum.unwrap();
    let tweak = pt_mul(pt_g(Some(a)), input_hash(&small, &pt_g(Some(a)).unwrap())).unwrap();
    let expect = p2tr(&xonly(&p_k(&r.shared(&tweak), 0, &r.spend_for(label)).unwrap()));
    ensure!(
        result.unsigned_tx.output[at].script_pubkey == expect,
        if ins.iter().all(|i| i.own) { "recipient finds nothing" } else { "recipient finds nothing: inputs of others" },
        "output {at} of {:?}",
        ins.iter().map(|i| (i.own, i.kind)).collect::<Vec<_>>()
    );
    let mut back = result.clone();
    back.unsigned_tx.output[at].script_pubkey = outs[at].script_pubkey.clone();
    back.outputs[at] = psbt.outputs[at].clone();
    ensure!(back == psbt, "PSBT changed otherwise", "{psbt:?} became {result:?}");
    let paid: u64 = outs.iter().map(|o| o.value.to_sat()).sum();
    if paid <= total {
        ensure_eq!(o.number(&["fee"], "no fee")?, total - paid, "fee");
    }
    cx.label("replaced");
    cx.label_if(ins.iter().any(|i| i.own && i.share.is_none()), "own input without a part in it");
    if ins.len() > 1 {
        cx.nontrivial();
    }
    Ok(())
}
