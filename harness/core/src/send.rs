//! C08 to C11, C13 and C14: deriving payments and finding them.
use bdk_sp::{
    compute_shared_secret,
    encoding::SilentPaymentCode,
    receive::{compute_tweak_data, scan::Scanner, SpMeta, SpOut},
    send::{
        bip32::XprivSilentPaymentSender, bip352::SpSender, create_silentpayment_partial_secret,
        create_silentpayment_scriptpubkeys,
    },
};
use bitcoin::bip32::{ChildNumber, DerivationPath, Xpriv};
use bitcoin::secp256k1::{Keypair, Message, PublicKey, Scalar, SecretKey, XOnlyPublicKey};
use bitcoin::{Network, OutPoint, ScriptBuf, Transaction, TxOut};
use engine::*;
use refmodel::{gen, *};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C08",
            "up to 7 inputs of all kinds with repeated, negated and small keys, taproot secrets of either parity, in two orders, one scan key; non-trivial when an input is eligible",
            160_000,
            1_600_000,
            shared_secret,
        )
        .pinned(&[("partial_sum_zero", pinned_partial_zero), ("total_zero", pinned_total_zero)]),
        Prop::new(
            "C09",
            "a partial secret and up to 12 requested payments to plain and labelled codes of up to 3 receivers (possibly sharing a scan key, on several networks, of several versions), repeated; non-trivial with two payments to one scan key",
            100_000,
            1_000_000,
            derivation,
        )
        .pinned(&[("more_than_256_payments", pinned_many_derived)]),
        Prop::new(
            "C10",
            "transactions with outputs of a receiver at arbitrary counters (gaps, duplicates, several labels at one counter, unregistered labels), of others, and foreign or malformed ones; non-trivial when an output was derived for the receiver",
            100_000,
            1_000_000,
            scanning,
        )
        .pinned(&[("more_than_256_outputs", pinned_many_found)]),
        Prop::new(
            "C11",
            "up to 5 inputs of all kinds paying up to 6 outputs to plain and labelled codes of up to 3 receivers, shuffled among foreign outputs; non-trivial with a payment",
            60_000,
            600_000,
            end_to_end,
        )
        .pinned(&[("more_than_256_payments", pinned_many_paid)]),
        Prop::new(
            "C13",
            "up to 45 owned outputs (mostly 5), labelled or not, spent to up to 5 payments; non-trivial with an input and a payment",
            60_000,
            600_000,
            sp_sender,
        )
        .pinned(&[("no_inputs", pinned_no_inputs)]),
        Prop::new(
            "C14",
            "an extended key, up to 45 inputs (mostly 5) at derivation paths (taproot key path, P2WPKH, nested P2WPKH, P2PKH and ineligible scripts of the same keys), up to 4 payments; non-trivial with an eligible input and a payment",
            60_000,
            600_000,
            xpriv_sender,
        ),
    ]
}

pub fn code(r: &Receiver, label: Option<u32>, n: Network) -> SilentPaymentCode {
    SilentPaymentCode::new_v0(r.scan_pk(), r.spend_for(label), n)
}

pub fn scanner(r: &Receiver) -> Scanner {
    let lookup: BTreeMap<PublicKey, (Scalar, u32)> =
        r.labels.iter().map(|m| (pt_g(Some(r.label(*m))).unwrap(), (Scalar::from(r.label(*m)), *m))).collect();
    Scanner::new(r.scan_sk, r.spend_pk(), lookup)
}

pub fn owned(v: &[SpOut]) -> Vec<Owned> {
    v.iter()
        .map(|o| Owned {
            outpoint: o.outpoint,
            out: TxOut { value: o.amount, script_pubkey: o.script_pubkey.clone() },
            tweak: o.tweak,
            label: o.label,
        })
        .collect()
}

/// Receivers with different scan keys that are not the negations of each other.
pub fn receivers(s: &mut Src, max: usize, labels: usize) -> Vec<Receiver> {
    let n = gen::several(s, 1, max, 30);
    let mut v: Vec<Receiver> = vec![];
    for _ in 0..n {
        let mut r = gen::receiver(s, labels);
        while v.iter().any(|o| o.scan_sk == r.scan_sk || o.scan_sk == r.scan_sk.negate()) {
            r.scan_sk = sc_add(Some(r.scan_sk), Some(sk_small(11))).unwrap_or(sk_small(12));
        }
        v.push(r);
    }
    v
}

/// Payments as (receiver, label).
pub fn payments(s: &mut Src, rs: &[Receiver], max: usize) -> Vec<(usize, Option<u32>)> {
    let n = if rs.len() > 6 { s.range(rs.len() as u64, 3 * rs.len() as u64) as usize } else { gen::several(s, 0, max, 60) };
    (0..n)
        .map(|_| {
            let i = s.below(rs.len() as u64) as usize;
            let l = if rs[i].labels.is_empty() || s.chance(1, 2) { None } else { Some(*s.pick(&rs[i].labels)) };
            (i, l)
        })
        .collect()
}

/// Lays the derived keys out as outputs among foreign ones, in any order; the expected owner of each output.
pub fn lay_out(
    s: &mut Src,
    pays: &[(usize, Option<u32>)],
    codes: &[SilentPaymentCode],
    derived: &HashMap<SilentPaymentCode, Vec<XOnlyPublicKey>>,
    foreign: usize,
) -> Result<(Vec<TxOut>, Vec<Option<(usize, Option<u32>)>>), Fail> {
    let mut at: HashMap<&SilentPaymentCode, usize> = HashMap::new();
    let mut outs = vec![];
    for (p, c) in pays.iter().zip(codes) {
        let i = at.entry(c).or_default();
        let Some(k) = derived.get(c).and_then(|v| v.get(*i)) else {
            return fail("payment lost", format!("no key for occurrence {i} of {c}"));
        };
        *i += 1;
        outs.push((TxOut { value: gen::amount(s), script_pubkey: p2tr(&k.serialize()) }, Some(*p)));
    }
    let total: usize = derived.values().map(|v| v.len()).sum();
    ensure!(total == pays.len(), "payments added", "{total} keys for {} payments", pays.len());
    for _ in 0..gen::several(s, 0, foreign, 100) {
        outs.push((gen::foreign_output(s), None));
    }
    s.shuffle(&mut outs);
    Ok(outs.into_iter().unzip())
}

/// Every receiver finds exactly what was paid to it, under the right label, and can sign for it.
pub fn check_found(
    rs: &[Receiver],
    tx: &Transaction,
    prev: &[TxOut],
    who: &[Option<(usize, Option<u32>)>],
    sign: bool,
) -> R {
    let txid = tx.compute_txid();
    for (i, r) in rs.iter().enumerate() {
        let found = match guarded(|| scanner(r).scan_tx(tx, prev))? {
            Ok(f) => f,
            Err(e) => return fail("scanning failed", e.to_string()),
        };
        let mut got: Vec<_> = found
            .iter()
            .map(|o| (o.outpoint, o.script_pubkey.clone(), o.amount, o.label))
            .collect();
        got.sort();
        let mut want: Vec<_> = who
            .iter()
            .enumerate()
            .filter_map(|(v, w)| {
                w.filter(|w| w.0 == i).map(|w| {
                    let o = &tx.output[v];
                    (OutPoint::new(txid, v as u32), o.script_pubkey.clone(), o.value, w.1)
                })
            })
            .collect();
        want.sort();
        ensure!(got == want, "outputs found by the recipient", "receiver {i}: found {got:?}, was paid {want:?}");
        for o in &found {
            let sk = sc_add(Some(r.spend_sk), Some(o.tweak));
            let p = pt_g(sk);
            ensure!(
                p.map(|p| p2tr(&xonly(&p))).as_ref() == Some(&o.script_pubkey),
                "secret key of an output found",
                "spend secret plus tweak does not give {:?}",
                o.script_pubkey
            );
            if sign {
                let kp = Keypair::from_secret_key(secp(), &sk.unwrap());
                let msg = Message::from_digest(sha(&[&o.tweak.secret_bytes()]));
                let sig = secp().sign_schnorr_no_aux_rand(&msg, &kp);
                let x = XOnlyPublicKey::from_slice(&o.script_pubkey.as_bytes()[2..]).unwrap();
                ensure!(secp().verify_schnorr(&sig, &msg, &x).is_ok(), "signature for an output found", "");
            }
            let meta = SpMeta::from(o);
            ensure!(meta.tweak == o.tweak && meta.label == o.label, "metadata of an output found", "{meta:?}");
            ensure_eq!(TxOut::from(o), tx.output[o.outpoint.vout as usize], "output made from an output found");
        }
    }
    Ok(())
}

fn lex(ins: &[gen::GenIn]) -> [u8; 36] {
    smallest(ins.iter().map(|i| &i.txin.previous_output)).unwrap()
}

fn tx_of(ins: &[gen::GenIn], outs: Vec<TxOut>) -> (Transaction, Vec<TxOut>) {
    (gen::tx(ins.iter().map(|i| i.txin.clone()).collect(), outs), ins.iter().map(|i| i.prevout.clone()).collect())
}

fn keys_of(s: &mut Src, ins: &[gen::GenIn]) -> Vec<(ScriptBuf, SecretKey)> {
    let mut v = vec![];
    for i in ins {
        use gen::InKind::*;
        let spk = i.prevout.script_pubkey.clone();
        if i.eligible() {
            let flip = i.taproot() && s.chance(1, 2);
            v.push((spk, if flip { i.secret.negate() } else { i.secret }));
        } else if i.kind == FutureWitness || matches!(i.kind, P2pk | Wsh | Anchor | BareScript) && s.chance(1, 2) {
            // of a kind that can be told to be ineligible from the script alone
            v.push((spk, i.secret));
        }
    }
    s.shuffle(&mut v);
    v
}

fn shared_secret(s: &mut Src, cx: &mut Cx) -> R {
    let ins = gen::inputs(s, 7, true);
    let scan_sk = gen::secret(s);
    check_shared(s, cx, &ins, scan_sk)
}

fn check_shared(s: &mut Src, cx: &mut Cx, ins: &[gen::GenIn], scan_sk: SecretKey) -> R {
    let (t, prev) = tx_of(ins, vec![]);
    let keys = keys_of(s, ins);
    let eligible = ins.iter().filter(|i| i.eligible()).count();
    cx.note(|| format!("{}; keys {}", ins.iter().map(|i| i.show()).collect::<Vec<_>>().join(" "), keys.iter().map(|k| hex(&k.1.secret_bytes())).collect::<Vec<_>>().join(" ")));
    if eligible > 0 {
        cx.nontrivial();
    }
    let want = gen::partial(ins);
    let mut orders = vec![keys.clone(), keys.clone()];
    s.shuffle(&mut orders[1]);
    for keys in orders {
        let got = guarded(|| create_silentpayment_partial_secret(&lex(ins), &keys))?;
        match (&got, &want) {
            (Err(_), None) => cx.label(if eligible == 0 {
                "no eligible input"
            } else if prev.iter().any(unknown_version) {
                "unknown witness version"
            } else {
                "keys sum to zero"
            }),
            (Ok(g), Some(_)) => {
                cx.label("shared secret");
                let pk = pt_g(Some(scan_sk)).unwrap();
                let sender = compute_shared_secret(g, &pk);
                let tweak = match compute_tweak_data(&t, &prev) {
                    Ok(t) => t,
                    Err(e) => return fail("receiver has no shared secret", e.to_string()),
                };
                ensure_eq!(sender, compute_shared_secret(&scan_sk, &tweak), "sender and receiver");
                let r = Receiver { scan_sk, spend_sk: scan_sk, labels: vec![] };
                match scanner(&r).get_shared_secret(&t, &prev) {
                    Ok(x) => ensure_eq!(x, sender, "secret of the scanner"),
                    Err(e) => return fail("scanner has no shared secret", e.to_string()),
                }
                ensure_eq!(Some(*g), want, "partial secret");
            }
            (Ok(_), None) => return fail("partial secret although there is none", format!("{got:?}")),
            (Err(e), Some(_)) => return fail("sender refuses", e.to_string()),
        }
    }
    Ok(())
}

fn three(values: &[(u64, bool)], kind: gen::InKind) -> R {
    let mut s = Src::replay(vec![]);
    let ins: Vec<_> = values
        .iter()
        .enumerate()
        .map(|(n, (v, neg))| {
            let k = if *neg { sk_small(*v).negate() } else { sk_small(*v) };
            let o = OutPoint::new(bitcoin::hashes::Hash::from_byte_array([9; 32]), n as u32);
            gen::gen_input(&mut s, kind, k, o)
        })
        .collect();
    check_shared(&mut s, &mut Cx::default(), &ins, sk_small(77))
}

fn pinned_partial_zero() -> R {
    three(&[(5, false), (5, true), (9, false)], gen::InKind::Wpkh)?;
    three(&[(5, false), (7, false), (12, true), (1, false)], gen::InKind::Pkh)
}

fn pinned_total_zero() -> R {
    three(&[(5, false), (5, true)], gen::InKind::Wpkh)?;
    three(&[(5, false), (2, false), (7, true)], gen::InKind::ShWpkh)
}

fn derivation(s: &mut Src, cx: &mut Cx) -> R {
    let partial = gen::secret(s);
    let n = gen::several(s, 1, 3, 40);
    let mut rs: Vec<Receiver> = vec![];
    for _ in 0..n {
        let mut r = gen::receiver(s, 3);
        if !rs.is_empty() && s.chance(1, 4) {
            // another spend key under the same scan key
            r.scan_sk = rs[0].scan_sk;
        }
        rs.push(r);
    }
    let pays = payments(s, &rs, 12);
    let mut codes = vec![];
    for (i, l) in &pays {
        let net = *s.pick(&[Network::Bitcoin, Network::Bitcoin, Network::Testnet, Network::Regtest]);
        let c = code(&rs[*i], *l, net);
        codes.push(if s.chance(1, 8) {
            // a later version with the same keys is another code
            let v = s.range(1, 30) as u8;
            let text = refmodel::bech::encode_code("sp", v, &[c.scan.serialize(), c.spend.serialize()].concat());
            SilentPaymentCode::try_from(text.as_str()).expect("a valid code")
        } else {
            c
        });
    }
    cx.note(|| format!("{} payments: {:?}", pays.len(), pays));
    let scans: BTreeSet<_> = codes.iter().map(|c| c.scan).collect();
    if scans.len() < codes.len() {
        cx.nontrivial();
    }
    let want_list = derive(&partial, &codes.iter().map(|c| (c.scan, c.spend)).collect::<Vec<_>>());
    let mut want: HashMap<SilentPaymentCode, Vec<[u8; 32]>> = HashMap::new();
    for (c, k) in codes.iter().zip(&want_list) {
        want.entry(c.clone()).or_default().push(*k);
    }
    let got: HashMap<SilentPaymentCode, Vec<[u8; 32]>> = guarded(|| create_silentpayment_scriptpubkeys(partial, &codes))?
        .into_iter()
        .map(|(c, v)| (c, v.iter().map(|k| k.serialize()).collect()))
        .collect();
    ensure_eq!(got, want, "derived keys");
    let distinct: BTreeSet<_> = want_list.iter().collect();
    ensure!(distinct.len() == want_list.len(), "two payments share a key", "{want_list:?}");
    Ok(())
}

/// Counters do not end where a byte does.
const MANY: usize = 262;

fn fixed_receiver() -> Receiver {
    Receiver { scan_sk: sk_small(1001), spend_sk: sk_small(1003), labels: vec![0, 7] }
}

fn fixed_inputs() -> Vec<gen::GenIn> {
    let mut s = Src::replay(vec![]);
    let o = OutPoint::new(bitcoin::hashes::Hash::from_byte_array([9; 32]), 1);
    vec![gen::gen_input(&mut s, gen::InKind::Wpkh, sk_small(1005), o)]
}

fn fixed_label(n: usize) -> Option<u32> {
    [None, None, Some(7), None, Some(0)][n % 5]
}

fn pinned_many_derived() -> R {
    let (r, partial) = (fixed_receiver(), sk_small(1007));
    let codes: Vec<_> = (0..MANY).map(|n| code(&r, fixed_label(n), Network::Bitcoin)).collect();
    let list = derive(&partial, &codes.iter().map(|c| (c.scan, c.spend)).collect::<Vec<_>>());
    let mut want: HashMap<SilentPaymentCode, Vec<[u8; 32]>> = HashMap::new();
    for (c, k) in codes.iter().zip(&list) {
        want.entry(c.clone()).or_default().push(*k);
    }
    let got: HashMap<SilentPaymentCode, Vec<[u8; 32]>> = guarded(|| create_silentpayment_scriptpubkeys(partial, &codes))?
        .into_iter()
        .map(|(c, v)| (c, v.iter().map(|k| k.serialize()).collect()))
        .collect();
    ensure!(got == want, "many derived keys", "not those of the reference");
    Ok(())
}

fn pinned_many_found() -> R {
    let (r, ins) = (fixed_receiver(), fixed_inputs());
    let (t0, prev) = tx_of(&ins, vec![]);
    let tw = tweak_data(&t0, &prev).expect("an eligible input");
    let outs = (0..MANY)
        .rev()
        .map(|k| {
            let p = p_k(&r.shared(&tw), k as u32, &r.spend_for(fixed_label(k))).expect("a point");
            TxOut { value: bitcoin::Amount::from_sat(1000 + k as u64), script_pubkey: p2tr(&xonly(&p)) }
        })
        .collect();
    let (t, prev) = tx_of(&ins, outs);
    match guarded(|| scanner(&r).scan_tx(&t, &prev))? {
        Err(e) => fail("scanning failed", e.to_string()),
        Ok(v) => {
            ensure_eq!(v.len(), MANY, "many outputs found");
            for o in owned(&v) {
                let k = MANY - 1 - o.outpoint.vout as usize;
                ensure_eq!(o.label, fixed_label(k), "label of one of many outputs");
                let p = pt_g(sc_add(Some(r.spend_sk), Some(o.tweak)));
                ensure!(p.map(|p| p2tr(&xonly(&p))) == Some(o.out.script_pubkey), "tweak of one of many outputs", "output {k}");
            }
            Ok(())
        }
    }
}

fn pinned_many_paid() -> R {
    let (r, ins) = (fixed_receiver(), fixed_inputs());
    let keys: Vec<_> = ins.iter().map(|i| (i.prevout.script_pubkey.clone(), i.secret)).collect();
    let partial = match guarded(|| create_silentpayment_partial_secret(&lex(&ins), &keys))? {
        Ok(p) => p,
        Err(e) => return fail("sender refuses", e.to_string()),
    };
    let pays: Vec<_> = (0..MANY).map(|n| (0, fixed_label(n))).collect();
    let codes: Vec<_> = pays.iter().map(|p| code(&r, p.1, Network::Bitcoin)).collect();
    let derived = guarded(|| create_silentpayment_scriptpubkeys(partial, &codes))?;
    let (outs, who) = lay_out(&mut Src::replay(vec![]), &pays, &codes, &derived, 0)?;
    let (t, prev) = tx_of(&ins, outs);
    check_found(&[r], &t, &prev, &who, false)
}

fn scanning(s: &mut Src, cx: &mut Cx) -> R {
    let ins = gen::inputs(s, 4, true);
    let rs = receivers(s, 2, 4);
    let (t0, prev) = tx_of(&ins, vec![]);
    let tweak = tweak_data(&t0, &prev);
    let mut outs: Vec<TxOut> = vec![];
    let mut mine = 0;
    if let Some(tw) = &tweak {
        let mut k = 0u32;
        for _ in 0..gen::several(s, 0, 7, 60) {
            let other = rs.len() > 1 && s.chance(1, 5);
            let r = &rs[usize::from(other)];
            let label = match s.weighted(&[3, 3, 1]) {
                0 => None,
                1 if !r.labels.is_empty() => Some(*s.pick(&r.labels)),
                2 => Some(gen::label_number(s)),
                _ => None,
            };
            if let Some(p) = p_k(&r.shared(tw), k, &r.spend_for(label)) {
                outs.push(TxOut { value: gen::amount(s), script_pubkey: p2tr(&xonly(&p)) });
                mine += usize::from(!other);
                if s.chance(1, 12) {
                    // the same script twice
                    outs.push(TxOut { value: gen::amount(s), script_pubkey: p2tr(&xonly(&p)) });
                    cx.label("duplicate script");
                }
            }
            match s.weighted(&[8, 1, 1]) {
                0 => k += 1,
                1 => cx.label("counter reused"),
                _ => {
                    k += 2;
                    cx.label("gap")
                }
            }
        }
    }
    for _ in 0..gen::several(s, 0, 4, 100) {
        outs.push(gen::foreign_output(s));
    }
    s.shuffle(&mut outs);
    let (t, prev) = tx_of(&ins, outs);
    let r = &rs[0];
    cx.note(|| format!("{} outputs, labels {:?}, inputs {}", t.output.len(), r.labels, ins.iter().map(|i| i.show()).collect::<Vec<_>>().join(" ")));
    if mine > 0 {
        cx.nontrivial();
    }
    let got = guarded(|| scanner(r).scan_tx(&t, &prev))?;
    match (&tweak, got) {
        (None, Ok(v)) => ensure!(v.is_empty(), "found without a shared secret", "{v:?}"),
        (None, Err(_)) => cx.label("no shared secret"),
        (Some(_), Err(e)) => return fail("scanning failed", e.to_string()),
        (Some(tw), Ok(v)) => {
            let found = owned(&v);
            cx.label_if(!found.is_empty(), "found");
            if let Err(e) = check_scan(r, &t, tw, &found) {
                return fail("outputs found", e);
            }
            for (label, l) in found.iter().map(|o| (o, o.label)) {
                let p = pt_g(sc_add(Some(r.spend_sk), Some(label.tweak)));
                ensure!(
                    p.map(|p| p2tr(&xonly(&p))).as_ref() == Some(&label.out.script_pubkey),
                    "tweak of an output found",
                    "label {l:?}"
                );
            }
            // the same by the shared secret alone
            let again = guarded(|| scanner(r).scan_txouts(&t, r.shared(tw)))?;
            match again {
                Ok(a) => {
                    let mut a = owned(&a);
                    let mut b = found.clone();
                    a.sort_by_key(|o| o.outpoint);
                    b.sort_by_key(|o| o.outpoint);
                    ensure_eq!(a, b, "outputs found by the shared secret");
                }
                Err(e) => return fail("scanning outputs failed", e.to_string()),
            }
        }
    }
    Ok(())
}

fn end_to_end(s: &mut Src, cx: &mut Cx) -> R {
    let ins = gen::inputs(s, 5, true);
    let rs = receivers(s, 3, 3);
    let pays = payments(s, &rs, 6);
    let codes: Vec<_> = pays.iter().map(|(i, l)| code(&rs[*i], *l, Network::Bitcoin)).collect();
    let keys = keys_of(s, &ins);
    let got = guarded(|| create_silentpayment_partial_secret(&lex(&ins), &keys))?;
    let want = gen::partial(&ins);
    ensure!(got.is_ok() == want.is_some(), "whether the inputs allow a payment", "{got:?}");
    let Ok(partial) = got else {
        cx.label("no shared secret");
        return Ok(());
    };
    if !pays.is_empty() {
        cx.nontrivial();
    }
    let derived = guarded(|| create_silentpayment_scriptpubkeys(partial, &codes))?;
    let (outs, who) = lay_out(s, &pays, &codes, &derived, 4)?;
    let (t, prev) = tx_of(&ins, outs);
    cx.label_if(pays.iter().any(|p| p.1.is_some()), "labelled");
    cx.label_if(pays.iter().collect::<BTreeSet<_>>().len() < pays.len(), "code paid twice");
    cx.note(|| format!("{who:?} from {}", ins.iter().map(|i| i.show()).collect::<Vec<_>>().join(" ")));
    check_found(&rs, &t, &prev, &who, true)?;
    // somebody else
    let mut x = gen::receiver(s, 3);
    x.scan_sk = gen::random_secret(s);
    match guarded(|| scanner(&x).scan_tx(&t, &prev))? {
        Ok(v) => ensure!(v.is_empty(), "found by somebody else", "{v:?}"),
        Err(e) => return fail("scanning failed", e.to_string()),
    }
    Ok(())
}

fn pinned_no_inputs() -> R {
    let c = SilentPaymentCode::new_v0(g(), g(), Network::Bitcoin);
    ensure!(SpSender::new(sk_small(5)).send_to(&[], &[c]).is_err(), "payment from nothing", "");
    Ok(())
}

fn distinct_outpoints(s: &mut Src, n: usize) -> Vec<OutPoint> {
    let mut used = BTreeSet::new();
    (0..n)
        .map(|_| {
            let mut o = gen::outpoint(s);
            while !used.insert(o) {
                o.vout = o.vout.wrapping_add(1);
            }
            o
        })
        .collect()
}

fn sp_sender(s: &mut Src, cx: &mut Cx) -> R {
    let me = gen::receiver(s, 3);
    let n = gen::several(s, 1, 5, 40);
    let ops = distinct_outpoints(s, n);
    let mut ins = vec![];
    let mut spouts: Vec<SpOut> = vec![];
    for o in ops {
        // tweaks as the scanner reports them: a hash, plus the label
        let mut tweak = gen::random_secret(s);
        let label = (!me.labels.is_empty() && s.chance(1, 2)).then(|| *s.pick(&me.labels));
        if let Some(m) = label {
            tweak = sc_add(Some(tweak), Some(me.label(m))).unwrap();
        }
        if !spouts.is_empty() && s.chance(1, 8) {
            tweak = spouts[0].tweak;
            if s.chance(1, 2) {
                // the key that cancels the first one
                let d = sc_add(Some(me.spend_sk), Some(tweak)).unwrap();
                if let Some(t) = sc_add(Some(d.negate()), Some(me.spend_sk.negate())) {
                    tweak = t;
                }
            }
        }
        if s.chance(1, 12) {
            // the key that cancels all those before, if its parity is right
            let sum = ins.iter().fold(None, |a, i: &gen::GenIn| sc_add(a, i.share()));
            if let Some(t) = sc_add(sum, Some(me.spend_sk)) {
                tweak = t.negate();
            }
        }
        let Some(sk) = sc_add(Some(me.spend_sk), Some(tweak)) else { continue };
        let mut i = gen::gen_input(s, gen::InKind::TrKey, sk, o);
        i.secret = sk;
        i.prevout.script_pubkey = p2tr(&xonly(&pt_g(Some(sk)).unwrap()));
        spouts.push(SpOut { outpoint: o, tweak, script_pubkey: i.prevout.script_pubkey.clone(), amount: i.prevout.value, label });
        ins.push(i);
    }
    let mut rs = receivers(s, 2, 2);
    if s.chance(1, 3) && !rs.iter().any(|r| r.scan_sk == me.scan_sk || r.scan_sk == me.scan_sk.negate()) {
        rs.push(me.clone());
    }
    let pays = payments(s, &rs, 5);
    let codes: Vec<_> = pays.iter().map(|(i, l)| code(&rs[*i], *l, Network::Signet)).collect();
    if !pays.is_empty() {
        cx.nontrivial();
    }
    cx.note(|| format!("{} inputs, payments {:?}", ins.len(), pays));
    let mut order = spouts.clone();
    s.shuffle(&mut order);
    let sender = SpSender::new(me.spend_sk);
    let a = guarded(|| sender.send_to(&spouts, &codes))?;
    let b = guarded(|| sender.send_to(&order, &codes))?;
    let want = gen::partial(&ins);
    match (a, b, want) {
        (Err(_), Err(_), None) => {
            cx.label("keys sum to zero");
            Ok(())
        }
        (Ok(a), Ok(b), Some(_)) => {
            ensure_eq!(a, b, "order of the inputs");
            let (outs, who) = lay_out(s, &pays, &codes, &a, 2)?;
            let (t, prev) = tx_of(&ins, outs);
            check_found(&rs, &t, &prev, &who, false)
        }
        (a, b, w) => fail("whether the outputs can be spent to codes", format!("{:?} {:?} {:?}", a.is_ok(), b.is_ok(), w.is_some())),
    }
}

fn path(s: &mut Src) -> DerivationPath {
    let n = gen::several(s, 0, 5, 6);
    (0..n)
        .map(|_| {
            let i = if s.chance(1, 10) { s.u32() >> 1 } else { s.below(4) as u32 };
            if s.chance(1, 2) {
                ChildNumber::Hardened { index: i }
            } else {
                ChildNumber::Normal { index: i }
            }
        })
        .collect::<Vec<_>>()
        .into()
}

fn xpriv_sender(s: &mut Src, cx: &mut Cx) -> R {
    use gen::InKind::*;
    let seed = s.bytes32();
    let xpriv = Xpriv::new_master(Network::Regtest, &seed).unwrap();
    let n = gen::several(s, 1, 5, 40);
    let ops = distinct_outpoints(s, n);
    let mut ins = vec![];
    let mut given = vec![];
    for o in ops {
        let p = path(s);
        let sk = xpriv.derive_priv(secp(), &p).unwrap().private_key;
        let kind = if s.chance(1, 4) {
            *s.pick(&[P2pk, Wsh, ShWsh, ShMultisig, FutureWitness])
        } else {
            *s.pick(&[TrKey, Wpkh, ShWpkh, Pkh, PkhMalleated])
        };
        let mut i = gen::gen_input(s, kind, sk, o);
        if kind == TrKey {
            // BIP86
            i.secret = gen::taproot_secret(&sk, None);
            i.prevout.script_pubkey = p2tr(&xonly(&pt_g(Some(i.secret)).unwrap()));
        }
        given.push((o, (i.prevout.script_pubkey.clone(), p)));
        ins.push(i);
    }
    let rs = receivers(s, 2, 2);
    let pays = payments(s, &rs, 4);
    let codes: Vec<_> = pays.iter().map(|(i, l)| code(&rs[*i], *l, Network::Regtest)).collect();
    let eligible = ins.iter().filter(|i| i.eligible()).count();
    if eligible > 0 && !pays.is_empty() {
        cx.nontrivial();
    }
    cx.label_if(eligible < ins.len() && eligible > 0, "mixed with ineligible");
    cx.label_if(ins.iter().any(|i| i.eligible() && !i.taproot()), "other than taproot");
    cx.note(|| format!("payments {pays:?} from {}", ins.iter().map(|i| i.show()).collect::<Vec<_>>().join(" ")));
    let sender = XprivSilentPaymentSender::new(xpriv);
    let mut order = given.clone();
    s.shuffle(&mut order);
    let a = guarded(|| sender.send_to(&given, &codes))?;
    let b = guarded(|| sender.send_to(&order, &codes))?;
    let want = gen::partial(&ins);
    match (a, b, want) {
        (Err(_), Err(_), None) => {
            cx.label("no shared secret");
            Ok(())
        }
        (Ok(a), Ok(b), Some(_)) => {
            ensure_eq!(a, b, "order of the inputs");
            let (outs, who) = lay_out(s, &pays, &codes, &a, 2)?;
            let (t, prev) = tx_of(&ins, outs);
            check_found(&rs, &t, &prev, &who, false)
        }
        (a, b, w) => fail("whether the inputs can pay codes", format!("{:?} {:?} {:?}", a.is_ok(), b.is_ok(), w.is_some())),
    }
}
