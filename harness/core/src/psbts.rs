//! C15 to C17: deriving and signing silent payments in PSBTs.
use crate::send::{code, payments, receivers};
use bdk_sp::encoding::SilentPaymentCode;
use bdk_sp::send::psbt::{
    derive_sp,
    sign::{add_sp_data_to_input, sign_sp, SPEND_PK_SUBTYPE},
};
use bitcoin::bip32::{ChildNumber, DerivationPath, Fingerprint, KeySource};
use bitcoin::hashes::Hash;
use bitcoin::psbt::{raw::ProprietaryKey, GetKey, KeyRequest, Psbt};
use bitcoin::secp256k1::{self, Message, PublicKey, Scalar, Secp256k1, SecretKey, Signing, XOnlyPublicKey};
use bitcoin::psbt::PsbtSighashType;
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{Network, OutPoint, PrivateKey, ScriptBuf, TapNodeHash, TapSighashType, Transaction, TxIn, TxOut, Witness};
use engine::*;
use gen::InKind::{self, *};
use refmodel::{gen, *};
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C15",
            "finalised PSBTs with up to 45 inputs (mostly 5) (taproot key and script path, P2WPKH, nested, P2PKH, silent payment spends, ineligible ones; witness or full previous transactions; keys found by origin, key or x-only key, next to keys that do not matter) and up to 6 placeholder outputs of up to 3 receivers among others; non-trivial with an eligible input and a placeholder",
            50_000,
            480_000,
            derives,
        ),
        Prop::new(
            "C16",
            "the PSBTs of C15 with one fault: keys missing, wrong or failing, previous outputs or final witnesses missing or out of range, garbage in proprietary fields, witnesses and scripts, or recipients and placeholders that do not correspond; non-trivial when the fault leaves an error as the only right answer, or is garbage",
            80_000,
            800_000,
            refuses,
        )
        .pinned(&[
            ("missing_key_next_to_known", pinned_missing),
            ("counts_of_two_codes", pinned_counts),
            ("own_change_left_out", pinned_left_out),
            ("garbage_spend_data", pinned_garbage),
        ]),
        Prop::new(
            "C17",
            "PSBTs with up to 45 inputs (mostly 5), some with silent payment spend data (right, of other keys, several, on labelled outputs, on inputs that do not exist), already signed or of other kinds; non-trivial when an input can be signed",
            60_000,
            600_000,
            signs,
        )
        .pinned(&[("garbage_spend_data", pinned_sign_garbage)]),
    ]
}

#[derive(Clone, Default)]
struct Provider {
    sources: Vec<(KeySource, PrivateKey)>,
    pks: BTreeMap<PublicKey, PrivateKey>,
    xs: BTreeMap<XOnlyPublicKey, PrivateKey>,
    /// answer unknown requests with an error, like the key maps of rust-bitcoin do
    strict: bool,
    /// fail whatever is asked for these
    broken: BTreeSet<PublicKey>,
}

impl GetKey for Provider {
    type Error = &'static str;
    fn get_key<C: Signing>(&self, r: KeyRequest, secp: &Secp256k1<C>) -> Result<Option<PrivateKey>, Self::Error> {
        let found = match r {
            KeyRequest::Bip32(s) => self.sources.iter().find(|x| x.0 == s).map(|x| x.1),
            KeyRequest::Pubkey(p) => self.pks.get(&p.inner).copied(),
            KeyRequest::XOnlyPubkey(x) => self.xs.get(&x).copied(),
            _ => None,
        };
        match found {
            Some(k) if self.broken.contains(&k.inner.public_key(secp)) => Err("broken"),
            Some(k) => Ok(Some(k)),
            None if self.strict => Err("not here"),
            None => Ok(None),
        }
    }
}

fn private(k: SecretKey) -> PrivateKey {
    PrivateKey::new(k, Network::Regtest)
}

impl Provider {
    /// Known by origin, by key, or by both.
    fn learn(&mut self, s: &mut Src, source: &KeySource, k: SecretKey, taproot: bool) {
        let how = s.below(3);
        if how != 1 {
            self.sources.push((source.clone(), private(k)));
        }
        if how != 0 {
            let p = pt_g(Some(k)).unwrap();
            if taproot {
                let k = if s.chance(1, 2) { k.negate() } else { k };
                self.xs.insert(p.x_only_public_key().0, private(k));
            } else {
                self.pks.insert(p, private(k));
            }
        }
    }
    fn forget(&mut self, k: SecretKey) {
        let ks = [k, k.negate()];
        self.sources.retain(|x| !ks.contains(&x.1.inner));
        self.pks.retain(|_, v| !ks.contains(&v.inner));
        self.xs.retain(|_, v| !ks.contains(&v.inner));
    }
    /// The answers for this key become the wrong key.
    fn confuse(&mut self, k: SecretKey, wrong: SecretKey) {
        let ks = [k, k.negate()];
        let all = self.sources.iter_mut().map(|x| &mut x.1).chain(self.pks.values_mut()).chain(self.xs.values_mut());
        for v in all {
            if ks.contains(&v.inner) {
                *v = private(wrong);
            }
        }
    }
    fn fail_for(&mut self, k: SecretKey) {
        self.broken.insert(pt_g(Some(k)).unwrap());
        self.broken.insert(pt_g(Some(k.negate())).unwrap());
    }
}

struct Case {
    ins: Vec<gen::GenIn>,
    /// the secret the provider is asked for, per input
    asked: Vec<SecretKey>,
    /// silent payment spends: spend secret and tweak
    spends: Vec<Option<(SecretKey, SecretKey)>>,
    psbt: Psbt,
    provider: Provider,
    rs: Vec<Receiver>,
    pays: Vec<(usize, Option<u32>)>,
    codes: Vec<SilentPaymentCode>,
}

fn source(n: u32) -> KeySource {
    let path: DerivationPath = vec![ChildNumber::Normal { index: n }].into();
    (Fingerprint::from([9; 4]), path)
}

/// Fields of other kinds, sorted before and after the spend data.
fn others(s: &mut Src, p: &mut bitcoin::psbt::Input) {
    if s.chance(3, 4) {
        return;
    }
    for _ in 0..s.size(1, 3) {
        let prefix: &[u8] = *s.pick(&[b"".as_slice(), b"bip3", b"bip352", b"bip3520", b"x"]);
        let subtype = *s.pick(&[0, SPEND_PK_SUBTYPE, 2, 255]);
        if prefix == b"bip352" && subtype == SPEND_PK_SUBTYPE {
            continue;
        }
        let n = s.size(0, 40);
        let key = if s.chance(1, 2) { s.bytes(n) } else { pt_g(Some(gen::secret(s))).unwrap().serialize().to_vec() };
        p.proprietary.insert(ProprietaryKey { prefix: prefix.to_vec(), subtype, key }, s.bytes32().to_vec());
    }
}

/// An input of the kind, of which derivation can know the secret, and its part of the PSBT.
fn case_input(
    s: &mut Src,
    n: u32,
    kind: Option<InKind>,
    k: SecretKey,
    provider: &mut Provider,
    learn: bool,
) -> (gen::GenIn, bitcoin::psbt::Input, SecretKey, Option<(SecretKey, SecretKey)>) {
    let mut p = bitcoin::psbt::Input::default();
    let vout = if s.chance(1, 60) { s.range(250, 270) } else { s.below(3) };
    let o = OutPoint::new(bitcoin::Txid::from_byte_array(s.bytes32()), vout as u32);
    let mut asked = k;
    let mut spend = None;
    let src = source(n);
    let mut i = gen::gen_input(s, kind.unwrap_or(TrKey), k, o);
    if i.txin.previous_output.txid == bitcoin::Txid::all_zeros() {
        i.txin.previous_output.txid = bitcoin::Txid::from_byte_array([n as u8 + 1; 32]);
    }
    match kind {
        None => {
            // a silent payment output of the spend key k
            let tweak = gen::random_secret(s);
            let sk = sc_add(Some(k), Some(tweak)).expect("not zero");
            i.secret = sk;
            i.internal = None;
            i.merkle_root = None;
            i.prevout.script_pubkey = p2tr(&xonly(&pt_g(Some(sk)).unwrap()));
            spend = Some((k, tweak));
            let spend_pk = pt_g(Some(k)).unwrap();
            others(s, &mut p);
            p.proprietary.insert(
                ProprietaryKey { prefix: b"bip352".to_vec(), subtype: SPEND_PK_SUBTYPE, key: spend_pk.serialize().to_vec() },
                tweak.secret_bytes().to_vec(),
            );
            if learn {
                provider.pks.insert(spend_pk, private(k));
            }
            p.witness_utxo = Some(i.prevout.clone());
            if s.chance(1, 2) {
                p.final_script_witness = Some(i.txin.witness.clone());
            }
            asked = k;
        }
        Some(kind) => {
            if matches!(kind, TrKey | TrKeyAnnex) {
                if i.internal.is_none() {
                    i.internal = Some(k);
                }
                let root = i.merkle_root;
                i.secret = gen::taproot_secret(&k, root);
                i.prevout.script_pubkey = p2tr(&xonly(&pt_g(Some(i.secret)).unwrap()));
            }
            if i.taproot() {
                let x = pt_g(Some(k)).unwrap().x_only_public_key().0;
                p.tap_key_origins.insert(x, (vec![], src.clone()));
                p.tap_internal_key = Some(x);
                p.tap_merkle_root = i.merkle_root.map(TapNodeHash::from_byte_array);
                if matches!(kind, TrScript | TrScriptAnnex) && s.chance(1, 2) {
                    // the keys of the leaves are known as well
                    let leaf = gen::random_secret(s);
                    let lx = pt_g(Some(leaf)).unwrap().x_only_public_key().0;
                    let lsrc = source(n + 500);
                    p.tap_key_origins.insert(lx, (vec![bitcoin::TapLeafHash::from_byte_array([5; 32])], lsrc.clone()));
                    if learn {
                        provider.learn(s, &lsrc, leaf, true);
                    }
                }
                if learn {
                    provider.learn(s, &src, k, true);
                }
            } else if s.chance(4, 5) || i.eligible() {
                p.bip32_derivation.insert(i.pubkey, src.clone());
                if learn || !i.eligible() {
                    provider.learn(s, &src, k, false);
                }
            }
            if !i.txin.witness.is_empty() {
                p.final_script_witness = Some(i.txin.witness.clone());
            }
            if !i.txin.script_sig.is_empty() || i.txin.witness.is_empty() {
                p.final_script_sig = Some(i.txin.script_sig.clone());
            }
            if s.chance(1, 3) || matches!(kind, Pkh | PkhMalleated | PkhUncompressed | P2pk | ShMultisig | BareScript) {
                let v = i.txin.previous_output.vout as usize;
                let mut outs: Vec<TxOut> = (0..=v + s.size(0, 1)).map(|_| gen::foreign_output(s)).collect();
                outs[v] = i.prevout.clone();
                let mut t = gen::tx(vec![TxIn::default()], outs);
                t.lock_time = bitcoin::absolute::LockTime::from_consensus(n + 1);
                i.txin.previous_output.txid = t.compute_txid();
                p.non_witness_utxo = Some(t);
            } else {
                p.witness_utxo = Some(i.prevout.clone());
            }
        }
    }
    (i, p, asked, spend)
}

fn make(s: &mut Src) -> Case {
    let n = gen::several(s, 1, 5, 40);
    let mut provider = Provider { strict: s.chance(1, 2), ..Default::default() };
    let (mut ins, mut pins, mut asked, mut spends) = (vec![], vec![], vec![], vec![]);
    for n in 0..n {
        let kind = match s.weighted(&[6, 2, 2]) {
            0 => Some(*s.pick(&gen::ELIGIBLE)),
            1 => None,
            _ => Some(*s.pick(&gen::INELIGIBLE)),
        };
        // keys differ, so that forgetting one concerns one input
        let k = gen::random_secret(s);
        let (i, p, a, sp) = case_input(s, n as u32, kind, k, &mut provider, true);
        ins.push(i);
        pins.push(p);
        asked.push(a);
        spends.push(sp);
    }
    let mut rs = receivers(s, 3, 3);
    for r in rs.iter_mut() {
        // no accidental relations between keys and placeholders
        r.spend_sk = gen::random_secret(s);
    }
    let mut pays = payments(s, &rs, 6);
    let codes: Vec<_> = pays.iter().map(|(i, l)| code(&rs[*i], *l, Network::Regtest)).collect();
    let mut outs: Vec<TxOut> = codes
        .iter()
        .map(|c| TxOut { value: gen::amount(s), script_pubkey: c.get_placeholder_p2tr_spk() })
        .collect();
    for _ in 0..gen::several(s, 0, 3, 600) {
        outs.push(gen::foreign_output(s));
    }
    s.shuffle(&mut outs);
    // the order of the recipients is not that of the outputs
    let mut order: Vec<usize> = (0..pays.len()).collect();
    s.shuffle(&mut order);
    pays = order.iter().map(|i| pays[*i]).collect();
    let codes = order.iter().map(|i| codes[*i].clone()).collect();
    let unsigned = gen::tx(
        ins.iter()
            .map(|i| TxIn { script_sig: ScriptBuf::new(), witness: Witness::new(), ..i.txin.clone() })
            .collect(),
        outs,
    );
    let mut psbt = Psbt::from_unsigned_tx(unsigned).expect("unsigned");
    psbt.inputs = pins;
    Case { ins, asked, spends, psbt, provider, rs, pays, codes }
}

impl Case {
    fn partial(&self) -> Sc {
        gen::partial(&self.ins)
    }
    fn prev(&self) -> Vec<TxOut> {
        self.ins.iter().map(|i| i.prevout.clone()).collect()
    }
    fn finished(&self, psbt: &Psbt) -> Transaction {
        let mut t = psbt.unsigned_tx.clone();
        for (i, x) in t.input.iter_mut().zip(&self.ins) {
            i.witness = x.txin.witness.clone();
            i.script_sig = x.txin.script_sig.clone();
        }
        t
    }
    fn show(&self) -> String {
        format!(
            "inputs {}, recipients {:?}, {} outputs",
            self.ins.iter().zip(&self.spends).map(|(i, s)| if s.is_some() { "silent".into() } else { i.show() }).collect::<Vec<_>>().join(" "),
            self.pays,
            self.psbt.unsigned_tx.output.len()
        )
    }
    /// After a successful derivation: all placeholders of the recipients pay them, and nothing else changed.
    fn check_ok(&self, before: &Psbt, after: &Psbt) -> R {
        let mut same = after.clone();
        same.unsigned_tx.output = before.unsigned_tx.output.clone();
        ensure!(same == *before, "something else in the PSBT changed", "{same:?} {before:?}");
        ensure!(
            before.unsigned_tx.output.len() == after.unsigned_tx.output.len(),
            "number of outputs",
            "{}",
            after.unsigned_tx.output.len()
        );
        let t = self.finished(after);
        let tweak = tweak_data(&t, &self.prev());
        let mut holders: BTreeMap<ScriptBuf, (usize, Option<u32>)> = BTreeMap::new();
        for (c, p) in self.codes.iter().zip(&self.pays) {
            holders.insert(c.get_placeholder_p2tr_spk(), *p);
        }
        let scans: Vec<Vec<Owned>> =
            self.rs.iter().map(|r| tweak.map_or(vec![], |tw| scan(r, &t, &tw).owned)).collect();
        for (v, (b, a)) in before.unsigned_tx.output.iter().zip(&after.unsigned_tx.output).enumerate() {
            ensure!(a.value == b.value, "amount of an output", "output {v}");
            match holders.get(&b.script_pubkey) {
                None => ensure!(a == b, "an output that is no placeholder changed", "output {v}"),
                Some((who, label)) => {
                    let hit = scans[*who].iter().find(|o| o.outpoint.vout == v as u32);
                    ensure!(
                        hit.is_some_and(|o| o.label == *label),
                        "payment its recipient cannot find",
                        "output {v} for receiver {who} label {label:?}: {hit:?}"
                    );
                }
            }
        }
        Ok(())
    }
}

fn derive(c: &Case, psbt: &mut Psbt) -> Result<Result<(), String>, Fail> {
    guarded(|| derive_sp(psbt, &c.provider, &c.codes, secp()).map_err(|e| e.to_string()))
}

fn derives(s: &mut Src, cx: &mut Cx) -> R {
    let c = make(s);
    let mut psbt = c.psbt.clone();
    let want = c.partial();
    cx.note(|| c.show());
    cx.label_if(c.spends.iter().any(|x| x.is_some()), "silent payment spend");
    cx.label_if(c.ins.iter().any(|i| i.kind == ShWpkh), "nested");
    if want.is_some() && !c.pays.is_empty() {
        cx.nontrivial();
    }
    let got = derive(&c, &mut psbt)?;
    match (want, got) {
        (None, Err(_)) => {
            cx.label("no eligible input");
            ensure!(psbt == c.psbt, "changed by a failing derivation", "");
            Ok(())
        }
        (None, Ok(())) => {
            ensure!(c.pays.is_empty(), "derived without eligible inputs", "");
            ensure!(psbt == c.psbt, "changed by a derivation of nothing", "");
            Ok(())
        }
        (Some(_), Err(e)) => fail("derivation refused", e),
        (Some(_), Ok(())) => c.check_ok(&c.psbt, &psbt),
    }
}

fn garbage(s: &mut Src) -> Vec<u8> {
    let n = *s.pick(&[0usize, 1, 31, 32, 33, 34, 65]);
    match s.below(3) {
        0 => s.bytes(n),
        1 => vec![0xff; n],
        _ => vec![0; n],
    }
}

fn refuses(s: &mut Src, cx: &mut Cx) -> R {
    let mut c = make(s);
    let eligible: Vec<usize> = (0..c.ins.len()).filter(|i| c.ins[*i].eligible()).collect();
    let plain: Vec<usize> = (0..c.ins.len()).filter(|i| c.spends[*i].is_none()).collect();
    let any = s.below(c.ins.len() as u64) as usize;
    // what the fault is, and whether only an error can be right
    let pays = !c.pays.is_empty();
    let (what, must_fail): (&str, bool) = match s.below(12) {
        0 if !eligible.is_empty() => {
            let i = *s.pick(&eligible);
            let k = c.asked[i];
            c.provider.forget(k);
            ("key missing", true)
        }
        1 if !eligible.is_empty() => {
            let i = *s.pick(&eligible);
            let wrong = gen::random_secret(s);
            let k = c.asked[i];
            c.provider.confuse(k, wrong);
            ("key wrong", true)
        }
        2 if !eligible.is_empty() => {
            let i = *s.pick(&eligible);
            let k = c.asked[i];
            c.provider.fail_for(k);
            ("key provider fails", true)
        }
        3 => {
            c.psbt.inputs[any].witness_utxo = None;
            c.psbt.inputs[any].non_witness_utxo = None;
            ("previous output missing", true)
        }
        4 if !plain.is_empty() => {
            let i = *s.pick(&plain);
            c.psbt.inputs[i].final_script_witness = None;
            c.psbt.inputs[i].final_script_sig = None;
            ("not finalised", true)
        }
        5 if pays => {
            // one recipient more or less than placeholders, of a code that has some
            let i = s.below(c.pays.len() as u64) as usize;
            if s.chance(1, 2) {
                let (p, k) = (c.pays[i], c.codes[i].clone());
                c.pays.push(p);
                c.codes.push(k);
                ("recipient without placeholder", true)
            } else if c.codes.iter().filter(|x| **x == c.codes[i]).count() > 1 {
                c.pays.remove(i);
                c.codes.remove(i);
                ("placeholder without recipient", true)
            } else {
                let spk = c.codes[i].get_placeholder_p2tr_spk();
                c.psbt.unsigned_tx.output.push(TxOut { value: gen::amount(s), script_pubkey: spk });
                c.psbt.outputs.push(Default::default());
                ("placeholder without recipient", true)
            }
        }
        6 => {
            let i = any;
            let v = c.psbt.unsigned_tx.input[i].previous_output.vout as usize;
            let outs: Vec<TxOut> = (0..s.size(0, v)).map(|_| c.ins[i].prevout.clone()).collect();
            c.psbt.inputs[i].witness_utxo = None;
            c.psbt.inputs[i].non_witness_utxo = Some(gen::tx(vec![], outs));
            ("previous output out of range", true)
        }
        7 | 8 => {
            // spend data that makes no sense
            let key = match s.below(3) {
                0 => garbage(s),
                1 => pt_g(Some(gen::secret(s))).unwrap().serialize().to_vec(),
                _ => pt_g(Some(c.asked[any])).unwrap().serialize().to_vec(),
            };
            let value = match s.below(4) {
                0 => garbage(s),
                1 => ORDER.to_vec(),
                2 => c.asked[any].negate().secret_bytes().to_vec(),
                _ => s.bytes32().to_vec(),
            };
            if s.chance(1, 2) {
                // asked for, the key is there
                c.provider.pks.insert(pt_g(Some(c.asked[any])).unwrap(), private(c.asked[any]));
            }
            c.psbt.inputs[any]
                .proprietary
                .insert(ProprietaryKey { prefix: b"bip352".to_vec(), subtype: SPEND_PK_SUBTYPE, key }, value);
            ("spend data that makes no sense", false)
        }
        9 => {
            let mut stack: Vec<Vec<u8>> = c.ins[any].txin.witness.iter().map(|x| x.to_vec()).collect();
            match s.below(3) {
                0 => {
                    stack.pop();
                }
                1 => stack.push(garbage(s)),
                _ => {
                    if let Some(l) = stack.last_mut() {
                        *l = garbage(s);
                    }
                }
            }
            c.psbt.inputs[any].final_script_witness = Some(Witness::from_slice(&stack));
            return no_panic(c, cx, "witness that makes no sense");
        }
        10 => {
            let mut spk = c.ins[any].prevout.script_pubkey.to_bytes();
            if s.chance(1, 2) {
                spk.truncate(s.size(0, 4));
            } else {
                spk = garbage(s);
            }
            c.psbt.inputs[any].witness_utxo =
                Some(TxOut { value: c.ins[any].prevout.value, script_pubkey: ScriptBuf::from_bytes(spk) });
            return no_panic(c, cx, "previous script that makes no sense");
        }
        _ => {
            // other key origins first
            for n in 0..s.size(1, 3) {
                let k = gen::random_secret(s);
                let p = pt_g(Some(k)).unwrap();
                let src = source(900 + n as u32);
                if c.ins[any].taproot() {
                    c.psbt.inputs[any].tap_key_origins.insert(p.x_only_public_key().0, (vec![], src.clone()));
                } else {
                    c.psbt.inputs[any].bip32_derivation.insert(p, src.clone());
                }
                if s.chance(1, 2) {
                    let tr = c.ins[any].taproot();
                    c.provider.learn(s, &src, k, tr);
                }
            }
            ("other key origins", false)
        }
    };
    cx.label(what);
    cx.note(|| format!("{what}: {}", c.show()));
    if must_fail || what.contains("no sense") {
        cx.nontrivial();
    }
    judge(&c, must_fail && pays)
}

/// An error leaves the PSBT alone, a success pays everybody.
fn judge(c: &Case, must_fail: bool) -> R {
    let mut psbt = c.psbt.clone();
    // the order a hash map is walked in differs from run to run
    for _ in 0..3 {
        match derive(c, &mut psbt)? {
            Err(_) => ensure!(psbt == c.psbt, "changed by a failing derivation", ""),
            Ok(()) => {
                c.check_ok(&c.psbt, &psbt)?;
                ensure!(!must_fail, "derivation not refused", "");
                return Ok(());
            }
        }
    }
    Ok(())
}

fn no_panic(c: Case, cx: &mut Cx, what: &'static str) -> R {
    cx.label(what);
    cx.nontrivial();
    cx.note(|| format!("{what}: {}", c.show()));
    let mut psbt = c.psbt.clone();
    if derive(&c, &mut psbt)?.is_err() {
        ensure!(psbt == c.psbt, "changed by a failing derivation", "");
    }
    Ok(())
}

fn fixed(kinds: &[Option<InKind>], pays: &[(usize, Option<u32>)]) -> Case {
    let mut s = Src::replay(vec![]);
    let mut provider = Provider { ..Default::default() };
    let (mut ins, mut pins, mut asked, mut spends) = (vec![], vec![], vec![], vec![]);
    for (n, k) in kinds.iter().enumerate() {
        let (i, p, a, sp) = case_input(&mut s, n as u32, *k, sk_small(1000 + n as u64), &mut provider, true);
        ins.push(i);
        pins.push(p);
        asked.push(a);
        spends.push(sp);
    }
    let rs: Vec<Receiver> =
        (0..3).map(|i| Receiver { scan_sk: sk_small(2000 + i), spend_sk: sk_small(3000 + i), labels: vec![0, 1] }).collect();
    let codes: Vec<_> = pays.iter().map(|(i, l)| code(&rs[*i], *l, Network::Regtest)).collect();
    let outs = codes
        .iter()
        .map(|c| TxOut { value: bitcoin::Amount::from_sat(1000), script_pubkey: c.get_placeholder_p2tr_spk() })
        .collect();
    let t = gen::tx(ins.iter().map(|i| TxIn { script_sig: ScriptBuf::new(), witness: Witness::new(), ..i.txin.clone() }).collect(), outs);
    let mut psbt = Psbt::from_unsigned_tx(t).unwrap();
    psbt.inputs = pins;
    Case { ins, asked, spends, psbt, provider, rs, pays: pays.to_vec(), codes }
}

fn pinned_missing() -> R {
    for kinds in [[Some(Wpkh), Some(TrKey)], [Some(Pkh), Some(ShWpkh)], [Some(TrKey), Some(TrScript)], [Some(TrKey), None]] {
        for gone in 0..2 {
            let mut c = fixed(&kinds, &[(0, None)]);
            let k = c.asked[gone];
            c.provider.forget(k);
            judge(&c, true)?;
            let mut c = fixed(&kinds, &[(0, None)]);
            let k = c.asked[gone];
            c.provider.confuse(k, sk_small(77));
            judge(&c, true)?;
        }
    }
    Ok(())
}

fn pinned_counts() -> R {
    // one code is right, the other is not: nothing may be replaced, whichever is looked at first
    for n in 0..16u64 {
        let mut c = fixed(&[Some(Wpkh)], &[(0, None), (1, None), (2, Some(1))]);
        c.psbt.unsigned_tx.output[(n % 3) as usize].value = bitcoin::Amount::from_sat(n);
        let extra = c.codes[(n % 3) as usize].clone();
        c.codes.push(extra);
        c.pays.push(c.pays[(n % 3) as usize]);
        judge(&c, true)?;
    }
    Ok(())
}

fn pinned_left_out() -> R {
    // a code without any placeholder is left out, whatever scan key it has
    for order in 0..2 {
        let mut c = fixed(&[Some(Wpkh)], &[(0, Some(1))]);
        let change = code(&c.rs[0], Some(0), Network::Regtest);
        c.codes.insert(order, change);
        c.pays.insert(order, (0, Some(0)));
        let mut psbt = c.psbt.clone();
        match derive(&c, &mut psbt)? {
            Ok(()) => c.check_ok(&c.psbt, &psbt)?,
            Err(_) => ensure!(psbt == c.psbt, "changed by a failing derivation", ""),
        }
    }
    Ok(())
}

fn spend_entries() -> Vec<(Vec<u8>, Vec<u8>)> {
    let pk = pt_g(Some(sk_small(1000))).unwrap().serialize().to_vec();
    let mut v = vec![];
    for key in [pk.clone(), vec![], vec![2; 33], vec![0; 33], vec![0xff; 33], pk[..32].to_vec()] {
        for value in [
            vec![1; 32],
            vec![],
            vec![1; 31],
            vec![1; 33],
            ORDER.to_vec(),
            vec![0xff; 32],
            vec![0; 32],
            sk_small(1000).negate().secret_bytes().to_vec(),
        ] {
            v.push((key.clone(), value));
        }
    }
    v
}

fn pinned_garbage() -> R {
    for (key, value) in spend_entries() {
        for kind in [Some(Wpkh), Some(TrKey), Some(Pkh), Some(Anchor), None] {
            let mut c = fixed(&[kind, Some(ShWpkh)], &[(0, None)]);
            c.provider.pks.insert(pt_g(Some(sk_small(1000))).unwrap(), private(sk_small(1000)));
            c.psbt.inputs[0].proprietary.insert(
                ProprietaryKey { prefix: b"bip352".to_vec(), subtype: SPEND_PK_SUBTYPE, key: key.clone() },
                value.clone(),
            );
            judge(&c, false)?;
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ signing

fn pinned_sign_garbage() -> R {
    for (key, value) in spend_entries() {
        for spk in [p2tr(&xonly(&g())), gen::p2wpkh(&[1]), ScriptBuf::new(), p2tr(&[0xff; 32])] {
            let mut c = fixed(&[None, Some(Pkh)], &[]);
            c.psbt.inputs[0].witness_utxo = Some(TxOut { value: bitcoin::Amount::from_sat(5), script_pubkey: spk });
            c.psbt.inputs[0].proprietary.clear();
            c.psbt.inputs[0].proprietary.insert(
                ProprietaryKey { prefix: b"bip352".to_vec(), subtype: SPEND_PK_SUBTYPE, key: key.clone() },
                value.clone(),
            );
            let mut psbt = c.psbt.clone();
            guarded(|| sign_sp(&mut psbt, &c.provider, secp()))?;
            ensure!(psbt == c.psbt, "signed for garbage", "{key:?} {value:?}");
        }
    }
    Ok(())
}

const SIGHASHES: [TapSighashType; 7] = [
    TapSighashType::Default,
    TapSighashType::All,
    TapSighashType::None,
    TapSighashType::Single,
    TapSighashType::AllPlusAnyoneCanPay,
    TapSighashType::NonePlusAnyoneCanPay,
    TapSighashType::SinglePlusAnyoneCanPay,
];

fn signs(s: &mut Src, cx: &mut Cx) -> R {
    let n = gen::several(s, 1, 5, 40);
    let mut provider = Provider { strict: s.chance(1, 2), ..Default::default() };
    let mut pins = vec![];
    let mut txins = vec![];
    let mut prev: Vec<TxOut> = vec![];
    // per input: the entries (spend secret, tweak) and whether it can be signed
    let mut spends: Vec<Vec<(SecretKey, SecretKey)>> = vec![];
    let mut can: Vec<bool> = vec![];
    let me = gen::random_secret(s);
    for n in 0..n {
        if s.chance(1, 3) {
            let kind = if s.chance(1, 2) { *s.pick(&gen::ELIGIBLE) } else { *s.pick(&gen::INELIGIBLE) };
            let k = gen::random_secret(s);
            let (i, mut p, _, _) = case_input(s, n as u32, Some(kind), k, &mut provider, true);
            if s.chance(1, 2) {
                p.final_script_sig = None;
                p.final_script_witness = None;
            }
            txins.push(TxIn { script_sig: ScriptBuf::new(), witness: Witness::new(), ..i.txin.clone() });
            prev.push(i.prevout);
            pins.push(p);
            spends.push(vec![]);
            can.push(false);
            continue;
        }
        let k = if s.chance(2, 3) { me } else { gen::random_secret(s) };
        let known = s.chance(4, 5);
        let (i, mut p, _, sp) = case_input(s, n as u32, None, k, &mut provider, false);
        let (_, tweak) = sp.unwrap();
        p.proprietary.clear();
        others(s, &mut p);
        p.final_script_witness = None;
        if known {
            provider.pks.insert(pt_g(Some(k)).unwrap(), private(k));
        }
        let mut entries = vec![(k, tweak)];
        if s.chance(1, 5) {
            // data of another key, or another tweak for the key, must not get in the way
            let wrong = (gen::random_secret(s), gen::random_secret(s));
            provider.pks.insert(pt_g(Some(wrong.0)).unwrap(), private(wrong.0));
            entries.push(wrong);
        }
        // right in all but the name
        let elsewhere = s.chance(1, 12);
        if elsewhere {
            let (prefix, subtype): (&[u8], u8) = *s.pick(&[
                (&b"bip352"[..], 0),
                (&b"bip352"[..], 2),
                (&b"bip353"[..], SPEND_PK_SUBTYPE),
                (&b"bip35"[..], SPEND_PK_SUBTYPE),
                (&b"BIP352"[..], SPEND_PK_SUBTYPE),
            ]);
            for (k, t) in entries.drain(..) {
                let key = pt_g(Some(k)).unwrap().serialize().to_vec();
                p.proprietary.insert(ProprietaryKey { prefix: prefix.to_vec(), subtype, key }, t.secret_bytes().to_vec());
            }
        }
        let signed = s.chance(1, 6);
        if signed {
            // somebody else's business
            let kp = secp256k1::Keypair::from_secret_key(secp(), &gen::random_secret(s));
            p.tap_key_sig = Some(bitcoin::taproot::Signature {
                signature: secp().sign_schnorr_no_aux_rand(&Message::from_digest([1; 32]), &kp),
                sighash_type: TapSighashType::All,
            });
        }
        let wrong_output = s.chance(1, 10);
        let mut out = i.prevout.clone();
        if wrong_output {
            out.script_pubkey = gen::foreign_output(s).script_pubkey;
            p.witness_utxo = Some(out.clone());
        }
        txins.push(TxIn { script_sig: ScriptBuf::new(), witness: Witness::new(), ..i.txin.clone() });
        prev.push(out);
        pins.push(p);
        spends.push(entries);
        can.push(!signed && !wrong_output && !elsewhere);
        let _ = known;
    }
    let unknown = s.chance(1, 10);
    let hole = s.below(n as u64) as usize;
    if unknown {
        pins[hole].witness_utxo = None;
        pins[hole].non_witness_utxo = None;
    }
    let outs: Vec<TxOut> = (0..s.size(1, 3)).map(|_| gen::foreign_output(s)).collect();
    // how the inputs ask to be signed, None where that cannot be done
    let mut asked = vec![];
    for (i, p) in pins.iter_mut().enumerate() {
        p.sighash_type = match s.weighted(&[12, 6, 1]) {
            0 => None,
            1 => Some((*s.pick(&SIGHASHES)).into()),
            _ => Some(PsbtSighashType::from_u32(*s.pick(&[4, 0x41, 0x80, 0x84, 0x101]))),
        };
        asked.push(match p.sighash_type {
            None => Some(TapSighashType::Default),
            Some(t) => SIGHASHES.iter().copied().find(|x| PsbtSighashType::from(*x) == t).filter(|x| {
                i < outs.len() || ![TapSighashType::Single, TapSighashType::SinglePlusAnyoneCanPay].contains(x)
            }),
        });
    }
    let mut psbt = Psbt::from_unsigned_tx(gen::tx(txins, outs)).unwrap();
    psbt.inputs = pins;
    for (i, e) in spends.iter().enumerate() {
        let had = psbt.inputs[i].proprietary.len();
        for (k, t) in e {
            let before = psbt.clone();
            add_sp_data_to_input(&mut psbt, i, pt_g(Some(*k)).unwrap(), Scalar::from(*t));
            let mut back = psbt.clone();
            back.inputs[i] = before.inputs[i].clone();
            ensure!(back == before, "recording spend data changed something else", "input {i}");
        }
        ensure_eq!(psbt.inputs[i].proprietary.len(), had + e.len(), "spend data recorded");
    }
    let before = psbt.clone();
    let beyond = n + s.size(0, 3);
    guarded(|| add_sp_data_to_input(&mut psbt, beyond, pt_g(Some(me)).unwrap(), Scalar::from(me)))?;
    ensure!(psbt == before, "spend data for an input that does not exist", "input {beyond}");

    let holds = |k: &SecretKey| provider.pks.contains_key(&pt_g(Some(*k)).unwrap());
    let want: Vec<bool> = (0..n).map(|i| can[i] && asked[i].is_some() && holds(&spends[i][0].0)).collect();
    cx.note(|| format!("{n} inputs, to be signed {want:?}, a previous output unknown: {unknown}"));
    if want.iter().any(|x| *x) && !unknown {
        cx.nontrivial();
    }
    cx.label(if unknown { "a previous output unknown" } else { "all previous outputs known" });
    cx.label_if(spends.iter().any(|e| e.is_empty()), "other inputs");
    cx.label_if((0..n).any(|i| want[i] && asked[i] != Some(TapSighashType::Default)), "sighash type asked for");
    cx.label_if(asked.iter().any(|x| x.is_none()), "cannot be signed as asked for");
    guarded(|| sign_sp(&mut psbt, &provider, secp()))?;
    let mut same = psbt.clone();
    for (i, p) in same.inputs.iter_mut().enumerate() {
        p.tap_key_sig = before.inputs[i].tap_key_sig;
    }
    ensure!(same == before, "signing changed something else", "");
    let mut cache = SighashCache::new(&psbt.unsigned_tx);
    for i in 0..n {
        let now = &psbt.inputs[i].tap_key_sig;
        if !want[i] {
            ensure!(*now == before.inputs[i].tap_key_sig, "a signature of an input that is not to be signed", "input {i}");
            continue;
        }
        let Some(sig) = now else {
            ensure!(unknown, "input not signed", "input {i}");
            continue;
        };
        ensure_eq!(Some(sig.sighash_type), asked[i], "sighash type");
        let hash = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(&prev), sig.sighash_type).expect("sighash");
        let x = XOnlyPublicKey::from_slice(&prev[i].script_pubkey.as_bytes()[2..]).unwrap();
        ensure!(
            secp().verify_schnorr(&sig.signature, &Message::from(hash), &x).is_ok(),
            "signature does not verify",
            "input {i} of {n}"
        );
    }
    // signing again changes nothing
    let signed = psbt.clone();
    guarded(|| sign_sp(&mut psbt, &provider, secp()))?;
    ensure!(psbt == signed, "signing again changed something", "");
    Ok(())
}
