//! C12: what a light client looks for.
use crate::common::*;
use bdk_sp::compute_shared_secret;
use bdk_sp::receive::{get_silentpayment_script_pubkey, scan::Scanner};
use bitcoin::secp256k1::{PublicKey, Scalar};
use bitcoin::ScriptBuf;
use engine::*;
use indexer::bdk_chain::ConfirmationBlockTime;
use indexer::v2::SpIndexerV2;
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C12",
        "a receiver with up to 6 labels, a tweak and a counter, and a transaction with payments from counter 0 or 1 on to plain, labelled and unregistered codes among foreign outputs; non-trivial when the candidates at counter 0 are met",
        40_000,
        400_000,
        candidates,
    )]
}

fn candidates(s: &mut Src, cx: &mut Cx) -> R {
    let r = gen::receiver(s, 6);
    let tweak = pt_g(Some(gen::secret(s))).unwrap();
    let lookup: BTreeMap<PublicKey, (Scalar, u32)> =
        r.labels.iter().map(|m| (pt_g(Some(r.label(*m))).unwrap(), (Scalar::from(r.label(*m)), *m))).collect();
    let scanner = Scanner::new(r.scan_sk, r.spend_pk(), lookup);
    let mut ix = SpIndexerV2::<ConfirmationBlockTime>::new(r.scan_sk, r.spend_pk());
    let mut order = r.labels.clone();
    s.shuffle(&mut order);
    for m in &order {
        let _ = ix.add_label(*m);
        if s.chance(1, 4) {
            let _ = ix.add_label(*m);
        }
    }

    let k = match s.weighted(&[3, 2, 1]) {
        0 => 0,
        1 => s.below(5) as u32,
        _ => *s.pick(&[255, 256, u32::MAX, u32::MAX - 1, 1 << 31, 65536]),
    };
    let sorted = |mut v: Vec<ScriptBuf>| {
        v.sort();
        v
    };
    let want = |k| sorted(r.scripts(&tweak, k).into_iter().map(|x| x.1).collect());
    let got = guarded(|| scanner.get_spks_from_tweak(&tweak, k))?;
    ensure_eq!(sorted(got), want(k), "scanner's candidate scripts");
    let got = guarded(|| ix.derive_spks_for_tweak(&tweak))?;
    let at0 = sorted(got.into_iter().map(|b| ScriptBuf::from_bytes(b.to_vec())).collect());
    ensure_eq!(at0.clone(), want(0), "indexer's candidate scripts");
    let shared = compute_shared_secret(&r.scan_sk, &tweak);
    for (l, spk) in r.scripts(&tweak, k) {
        let point = l.map(|m| pt_g(Some(r.label(m))).unwrap());
        let got = guarded(|| get_silentpayment_script_pubkey(&r.spend_pk(), &shared, k, point.as_ref()))?;
        ensure_eq!(got, spk, "script of one label");
    }

    // a transaction's outputs meet the candidates exactly when a full scan finds something
    let mut outs = vec![];
    let n = gen::several(s, 0, 3, 30);
    let labels: Vec<Option<u32>> = (0..n)
        .map(|_| match s.weighted(&[2, 3, 1]) {
            1 if !r.labels.is_empty() => Some(*s.pick(&r.labels)),
            2 => Some(gen::label_number(s)),
            _ => None,
        })
        .collect();
    let mut paid = pay(s, &r, &tweak, &labels);
    if s.chance(1, 4) && !paid.is_empty() {
        paid.remove(0);
    }
    outs.extend(paid);
    for _ in 0..gen::several(s, 0, 3, 60) {
        outs.push(gen::foreign_output(s));
    }
    s.shuffle(&mut outs);
    let tx = gen::tx(vec![fresh_input(s)], outs);
    let met = tx.output.iter().any(|o| at0.contains(&o.script_pubkey));
    let found = guarded(|| scanner.scan_txouts(&tx, shared))?;
    ensure!(found.is_ok(), "scan fails", "{found:?}");
    let found = found.unwrap();
    ensure_eq!(met, !found.is_empty(), "candidates against the full scan");
    let _ = guarded(|| ix.index_tx(&tx, &tweak))?;
    ensure_eq!(met, !ix.index().by_shared_secret.is_empty(), "candidates against the index");
    let model = bip352::scan(&r, &tx, &tweak);
    ensure_eq!(met, !model.owned.is_empty(), "candidates against BIP352");
    let got: BTreeSet<_> = found.iter().map(|o| o.outpoint).collect();
    if !model.ambiguous {
        ensure_eq!(got, model.owned.iter().map(|o| o.outpoint).collect::<BTreeSet<_>>(), "outputs found");
    }
    if met {
        cx.nontrivial();
    }
    cx.label_if(!r.labels.is_empty(), "labels");
    cx.label_if(k > 0, "counter beyond 0");
    cx.label_if(model.owned.iter().any(|o| o.label.is_some()), "labelled output found");
    cx.note(|| format!("{} labels, k={k}, payments to {labels:?}, {} found", r.labels.len(), found.len()));
    Ok(())
}
