//! C05 to C07: what the inputs of a transaction contribute.
use bdk_sp::{
    receive::{compute_tweak_data, extract_pubkey},
    tag_txin, LexMin, SpInputs,
};
use bitcoin::{OutPoint, ScriptBuf, TxIn, TxOut, Witness};
use engine::*;
use refmodel::{gen, *};

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C05",
            "one input: of every spending kind as consensus allows it (any key, malleations, annexes, script paths), checked against BIP352, or with arbitrary or mutated witness, script signature and previous script, checked not to panic; non-trivial when the input is one consensus allows, or is a mutation of one",
            400_000,
            8_000_000,
            classify,
        )
        .pinned(&[("short_control_blocks", pinned_short_control)]),
        Prop::new(
            "C06",
            "sequences of up to 12 outpoints from pools with equal ids, equal first bytes and output indices that order differently as little-endian bytes, with repetitions; non-trivial with at least two different outpoints",
            400_000,
            8_000_000,
            smallest_outpoint,
        ),
        Prop::new(
            "C07",
            "transactions of up to 7 inputs of all kinds with repeated and negated keys, permuted; non-trivial when an input is eligible",
            160_000,
            1_600_000,
            tweaks,
        )
        .pinned(&[("no_inputs", pinned_no_inputs)]),
    ]
}

fn kind(k: SpInputs) -> Kind {
    match k {
        SpInputs::Tr => Kind::Tr,
        SpInputs::Wpkh => Kind::Wpkh,
        SpInputs::ShWpkh => Kind::ShWpkh,
        SpInputs::Pkh => Kind::Pkh,
    }
}

fn both(txin: &TxIn, spk: &ScriptBuf) -> Result<(Option<SpInputs>, Option<(Kind, bitcoin::secp256k1::PublicKey)>), Fail> {
    let tag = guarded(|| tag_txin(txin, spk))?;
    let got = guarded(|| extract_pubkey(txin.clone(), spk))?;
    if let Some((k, _)) = &got {
        ensure!(tag == Some(*k), "extracted although not tagged so", "{tag:?} {k:?}");
    }
    Ok((tag, got.map(|(k, p)| (kind(k), p))))
}

fn pinned_short_control() -> R {
    let spk = p2tr(&xonly(&g()));
    for len in 0..70 {
        for first in [0x50, 0xc0, 0x00] {
            for extra in 0..2 {
                let mut stack = vec![vec![0x51], vec![first; len]];
                stack.extend(vec![vec![0x50]; extra]);
                let txin = TxIn { witness: Witness::from_slice(&stack), ..Default::default() };
                both(&txin, &spk)?;
            }
        }
    }
    Ok(())
}

fn classify(s: &mut Src, cx: &mut Cx) -> R {
    let eligible = s.chance(1, 2);
    let kind = if eligible { *s.pick(&gen::ELIGIBLE) } else { *s.pick(&gen::INELIGIBLE) };
    let (k, o) = (gen::secret(s), gen::outpoint(s));
    let i = gen::gen_input(s, kind, k, o);
    let mode = s.weighted(&[5, 3, 1]);
    if mode == 0 {
        cx.nontrivial();
        cx.label(if eligible { "eligible" } else { "not eligible" });
        cx.note(|| format!("{kind:?} script_sig {} witness {:?} prevout {}", i.txin.script_sig.to_hex_string(), i.txin.witness.iter().map(hex).collect::<Vec<_>>(), i.prevout.script_pubkey.to_hex_string()));
        let want = txin_key(&i.txin, &i.prevout);
        // the oracle itself: eligible inputs give the key the generator knows the secret of
        let own = i.share().map(|k| pt_g(Some(k)).unwrap());
        assert_eq!(want.map(|x| x.1), own, "generator and oracle disagree on {kind:?}");
        let (_, got) = both(&i.txin, &i.prevout.script_pubkey)?;
        ensure!(got == want, format!("input of kind {kind:?}"), "got {got:?}, BIP352 says {want:?}");
        return Ok(());
    }
    // anything at all
    let mut witness: Vec<Vec<u8>> = i.txin.witness.iter().map(|x| x.to_vec()).collect();
    let mut sig = i.txin.script_sig.to_bytes();
    let mut spk = i.prevout.script_pubkey.to_bytes();
    if mode == 2 {
        let n = s.size(0, 4);
        witness = (0..n).map(|_| { let n = s.size(0, 40); s.bytes(n) }).collect();
        let n = s.size(0, 40);
        sig = s.bytes(n);
        if s.chance(1, 2) {
            let n = s.size(0, 40);
            spk = s.bytes(n);
        }
    } else {
        cx.nontrivial();
        for _ in 0..s.size(1, 4) {
            match s.below(9) {
                0 => { witness.pop(); }
                1 => witness.push(vec![]),
                2 => {
                    let n = s.size(0, 36);
                    witness.push(s.bytes(n));
                }
                3 => {
                    if !witness.is_empty() {
                        let i = s.below(witness.len() as u64) as usize;
                        let n = s.size(0, witness[i].len());
                        witness[i].truncate(n);
                    }
                }
                4 => {
                    if !witness.is_empty() {
                        let i = s.below(witness.len() as u64) as usize;
                        witness.swap(0, i);
                    }
                }
                5 => {
                    let n = s.size(0, sig.len());
                    sig.truncate(n);
                }
                6 => {
                    if !sig.is_empty() {
                        let i = s.below(sig.len() as u64) as usize;
                        sig[i] = s.u8();
                    }
                }
                7 => {
                    let o = gen::ELIGIBLE[s.below(8) as usize];
                    let (k, op) = (gen::secret(s), gen::outpoint(s));
                    spk = gen::gen_input(s, o, k, op).prevout.script_pubkey.to_bytes();
                }
                _ => {
                    if !spk.is_empty() {
                        let i = s.below(spk.len() as u64) as usize;
                        spk[i] = s.u8();
                    }
                }
            }
        }
    }
    cx.label("arbitrary");
    cx.note(|| format!("arbitrary script_sig {} witness {:?} prevout {}", hex(&sig), witness.iter().map(|x| hex(x)).collect::<Vec<_>>(), hex(&spk)));
    let txin = TxIn { previous_output: o, script_sig: ScriptBuf::from_bytes(sig), witness: Witness::from_slice(&witness), ..Default::default() };
    let spk = ScriptBuf::from_bytes(spk);
    let (_, got) = both(&txin, &spk)?;
    if let Some((k, p)) = got {
        // whatever is reported belongs to the previous output
        let ok = match k {
            Kind::Tr => is_p2tr(spk.as_bytes()) && even(&spk.as_bytes()[2..]) == Some(p),
            Kind::Pkh => spk == gen::p2pkh(&p.serialize()),
            Kind::Wpkh => spk.is_p2wpkh(),
            Kind::ShWpkh => spk.is_p2sh(),
        };
        ensure!(ok, "key reported for another script", "{k:?} {p} {spk:?}");
    }
    Ok(())
}

fn smallest_outpoint(s: &mut Src, cx: &mut Cx) -> R {
    let n = s.size(0, 12);
    let mut v: Vec<OutPoint> = vec![];
    for _ in 0..n {
        let mut o = if !v.is_empty() && s.chance(1, 3) { *s.pick(&v) } else { gen::outpoint(s) };
        if s.chance(1, 4) {
            o.vout = gen::outpoint(s).vout;
        }
        v.push(o);
    }
    let different: std::collections::BTreeSet<_> = v.iter().collect();
    if different.len() > 1 {
        cx.nontrivial();
    }
    cx.note(|| format!("{v:?}"));
    cx.label_if(different.len() < v.len(), "repetitions");
    let mut l = LexMin::default();
    ensure!(l.bytes().is_err(), "a smallest outpoint out of nothing", "");
    for (i, o) in v.iter().enumerate() {
        let now = *l.update(o);
        let want = smallest(v[..=i].iter()).unwrap();
        ensure_eq!(outpoint_bytes(&now), want, "outpoint returned by update");
        match l.bytes() {
            Ok(b) => ensure_eq!(b, want, "smallest outpoint"),
            Err(e) => return fail("no smallest outpoint", e.to_string()),
        }
    }
    let mut p = v.clone();
    s.shuffle(&mut p);
    let mut m = LexMin::default();
    for o in &p {
        m.update(o);
    }
    ensure_eq!(m.bytes().ok(), l.bytes().ok(), "another order");
    Ok(())
}

fn pinned_no_inputs() -> R {
    let tx = gen::tx(vec![], vec![]);
    ensure!(compute_tweak_data(&tx, &[]).is_err(), "tweak data without inputs", "");
    Ok(())
}

fn tweaks(s: &mut Src, cx: &mut Cx) -> R {
    let ins = gen::inputs(s, 7, true);
    let n = s.size(0, 3);
    let outs: Vec<TxOut> = (0..n).map(|_| gen::foreign_output(s)).collect();
    let prev: Vec<TxOut> = ins.iter().map(|i| i.prevout.clone()).collect();
    let t = gen::tx(ins.iter().map(|i| i.txin.clone()).collect(), outs);
    let eligible = ins.iter().filter(|i| i.eligible()).count();
    if eligible > 0 {
        cx.nontrivial();
    }
    let want = tweak_data(&t, &prev);
    cx.label(match (eligible, &want) {
        (0, _) => "none eligible",
        (_, None) if prev.iter().any(unknown_version) => "unknown witness version",
        (_, None) => "sum is infinity",
        _ => "tweak data",
    });
    cx.label_if(eligible < ins.len(), "mixed");
    cx.note(|| ins.iter().map(|i| i.show()).collect::<Vec<_>>().join(" "));
    let got = guarded(|| compute_tweak_data(&t, &prev))?;
    let same = |got: &Result<bitcoin::secp256k1::PublicKey, _>, what: &str| -> R {
        ensure!(got.as_ref().ok() == want.as_ref(), what, "got {got:?}, BIP352 says {want:?}");
        Ok(())
    };
    same(&got, "tweak data")?;
    // the order of the inputs and the outputs do not matter
    let mut ins2 = ins.clone();
    s.shuffle(&mut ins2);
    let foreign = gen::foreign_output(s);
    let t2 = gen::tx(ins2.iter().map(|i| i.txin.clone()).collect(), vec![foreign]);
    let prev2: Vec<TxOut> = ins2.iter().map(|i| i.prevout.clone()).collect();
    same(&guarded(|| compute_tweak_data(&t2, &prev2))?, "tweak data in another order")?;
    // and it is what the sender computes
    let partial = gen::partial(&ins).map(|p| pt_g(Some(p)).unwrap());
    assert_eq!(partial, want, "the two oracles");
    Ok(())
}
