//! C32, C33 and C34: the command-line wallet.
use crate::chain::{Chain, Coin};
use crate::keys::{self, Desc};
use crate::run::{run, Clock, Dir, Out};
use bitcoin::absolute::{Height, Time};
use bitcoin::hashes::Hash;
use bitcoin::psbt::PsbtSighashType;
use bitcoin::secp256k1::{schnorr, Message, XOnlyPublicKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{taproot, Address, Amount, Network, OutPoint, Psbt, TapSighashType, Transaction, TxOut, Witness};
use engine::*;
use refmodel::bip352::Receiver;
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

const BIN: &str = "sp-cli1";

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C32",
            "a wallet and a node whose chain grows by up to 5 blocks at a time with payments to its codes, its spends and transactions of others with inputs and outputs of all kinds, is reorganised, with labels handed out and scans in between; non-trivial when a scan finds an output",
            1_500,
            30_000,
            scans,
        )
        .shrink_budget(400),
        Prop::new(
            "C33",
            "a wallet made of two taproot descriptors of any form, and up to 8 commands: codes, labelled codes, scans and ones that must be refused; non-trivial when a labelled code is printed",
            1_500,
            30_000,
            codes,
        )
        .shrink_budget(400),
        Prop::new(
            "C34",
            "a wallet with coins from a scanned chain and up to 3 payments to codes and addresses, signed, mined and scanned again; non-trivial when a payment is made",
            1_200,
            24_000,
            payments,
        )
        .pinned(&[("large amounts", pinned_large)])
        .shrink_budget(400),
    ]
}

pub struct Wallet {
    dir: Dir,
    pub network: Network,
    scan: Desc,
    spend: Desc,
    /// the spend key is only given for spending
    watch: bool,
}

pub fn code_text(n: Network, r: &Receiver, label: Option<u32>) -> String {
    bech::encode_code(keys::hrp(n), 0, &[r.scan_pk().serialize(), r.spend_for(label).serialize()].concat())
}

impl Wallet {
    fn sp(&self, args: &[&str]) -> Result<Out, Fail> {
        self.sp_with(args, &[])
    }

    pub fn sp_with(&self, args: &[&str], envs: &[(&str, &str)]) -> Result<Out, Fail> {
        run(BIN, &self.dir, args, envs)
    }

    fn init_args(&self) -> Vec<String> {
        let spend = if self.watch { &self.spend.public } else { &self.spend.private };
        ["init", "--network", &self.network.to_string(), "--scan", &self.scan.private, "--spend", spend]
            .map(String::from)
            .to_vec()
    }

    pub fn new(s: &mut Src) -> (Wallet, Receiver) {
        let network = *s.pick(&keys::NETWORKS);
        let scan = keys::descriptor(s, network);
        let spend = keys::descriptor(s, network);
        let watch = s.chance(1, 2);
        let r = Receiver { scan_sk: scan.secret, spend_sk: spend.secret, labels: vec![] };
        (Wallet { dir: Dir::new(), network, scan, spend, watch }, r)
    }

    pub fn init(&self, r: &mut Receiver) -> R {
        let a = self.init_args();
        self.sp(&a.iter().map(|x| x.as_str()).collect::<Vec<_>>())?.ok("wallet not made")?;
        r.labels = vec![0];
        Ok(())
    }

    fn label(&self, r: &mut Receiver, m: u32) -> R {
        let o = self.sp(&["code", "--label", &m.to_string(), "--scan", &self.scan.private])?.ok("no labelled code")?;
        let got = o.text("labelled_silent_payment_code", "labelled code not printed")?;
        ensure_eq!(got, code_text(self.network, r, Some(m)), "labelled code");
        if !r.labels.contains(&m) {
            r.labels.push(m);
        }
        Ok(())
    }

    /// A descriptor of another key than the wallet's scan or spend key.
    fn foreign(&self, s: &mut Src, spend: bool) -> Desc {
        // the wallet's other key is as wrong as any
        let (own, other) = if spend { (&self.spend, &self.scan) } else { (&self.scan, &self.spend) };
        let mut d = if s.chance(1, 3) { other.clone() } else { keys::descriptor(s, self.network) };
        while d.secret == own.secret {
            let k = bitcoin::PrivateKey::new(gen::random_secret(s), self.network);
            d = Desc { private: format!("tr({})", k.to_wif()), public: String::new(), secret: k.inner, single: true };
        }
        d
    }

    fn code(&self, r: &Receiver) -> R {
        let o = self.sp(&["code"])?.ok("no code")?;
        ensure_eq!(o.text("silent_payment_code", "code not printed")?, code_text(self.network, r, None), "code");
        Ok(())
    }

    fn scan(&self, c: &Chain) -> Result<Out, Fail> {
        self.scan_any(c)?.ok("scan fails")
    }

    fn scan_any(&self, c: &Chain) -> Result<Out, Fail> {
        let code = code_text(self.network, &c.r, None);
        let o = self.sp(&["scan", "--scan", &self.scan.private, "--code", &code, "--url", &c.url])?;
        if let Some(m) = c.node.lock().unwrap().unknown.first() {
            panic!("the node of the harness does not know {m}");
        }
        Ok(o)
    }

    /// confirmed and unconfirmed total
    fn balance(&self, c: &Chain) -> Result<(u64, u64), Fail> {
        let o = self.sp(&["balance"])?.ok("no balance")?;
        let n = |a: &str, b: &str| o.number(&[a, b], "balance not printed");
        let confirmed = n("confirmed", "total")?;
        ensure_eq!(n("confirmed", "spendable")? + n("confirmed", "immature")?, confirmed, "parts of the balance");
        let unconfirmed = n("unconfirmed", "total")?;
        let (trusted, untrusted) = (n("unconfirmed", "trusted")?, n("unconfirmed", "untrusted")?);
        ensure_eq!(trusted + untrusted, unconfirmed, "parts of the balance");
        // nothing is paid by a coinbase, and only change is trusted before it is confirmed
        ensure_eq!(n("confirmed", "immature")?, 0u64, "immature balance");
        let (change, others) = c.pending();
        ensure!(trusted <= change, "trusted balance", "{trusted}, pending change {change}");
        ensure!(untrusted <= others, "untrusted balance", "{untrusted}, other pending outputs {others}");
        Ok((confirmed, unconfirmed))
    }

    fn check_balance(&self, c: &Chain, scanned: &Out) -> R {
        let (confirmed, unconfirmed) = self.balance(c)?;
        ensure!(
            confirmed == c.balance(),
            "balance",
            "{confirmed} instead of {}, coins {:?}",
            c.balance(),
            c.unspent().values().map(|x| (x.height, x.owned.outpoint, x.owned.out.value)).collect::<Vec<_>>()
        );
        if !c.dropped {
            ensure_eq!(unconfirmed, 0, "unconfirmed balance");
        }
        if scanned.slow {
            return Ok(());
        }
        // what the scan itself says last
        let last = scanned.stdout.lines().filter_map(|l| l.rsplit_once("total: ")).next_back();
        let Some((_, total)) = last else { return fail("scan prints no total", scanned.stdout.clone()) };
        match Amount::from_str(total.trim()) {
            Ok(t) => ensure_eq!(t.to_sat(), confirmed + unconfirmed, "total printed by the scan"),
            Err(e) => return fail("total not readable", format!("{total}: {e}")),
        }
        Ok(())
    }
}

fn scans(s: &mut Src, cx: &mut Cx) -> R {
    let (w, mut r) = Wallet::new(s);
    w.init(&mut r)?;
    let mut c = Chain::new(w.network, r);
    let mut reorged = false;
    let clock = Clock::new(if s.chance(1, 3) { s.range(2, 40) } else { 0 });
    cx.label_if(clock.fast(), "fast clock");
    for step in 0..s.size(1, 6) {
        let what = s.weighted(&[4, if step == 0 { 0 } else { 2 }, 2]);
        match what {
            0 => {
                for _ in 0..s.size(1, 5) {
                    let txs = c.gen_txs(s, 4);
                    c.mine(s, txs);
                }
            }
            1 => {
                let d = s.size(1, 5);
                c.reorg(s, d, true);
                reorged = true;
            }
            _ => {
                let m = gen::label_number(s);
                w.label(&mut c.r, m)?;
            }
        }
        if s.chance(1, 10) {
            foreign_scan(s, &w, &c)?;
            cx.label("scan with keys of another wallet");
        }
        if s.chance(2, 3) {
            if s.chance(1, 4) {
                // the node does not answer one of the requests, or the wallet is killed while it waits for the answer
                let n = Some(if s.chance(1, 2) { s.below(40) } else { s.below(200) });
                if s.chance(1, 2) {
                    c.node.lock().unwrap().fail_in = n;
                } else {
                    c.node.lock().unwrap().kill_in = n;
                }
                let o = w.scan_any(&c)?;
                let (failed, killed) = {
                    let mut n = c.node.lock().unwrap();
                    (n.fail_in, n.kill_in) = (None, None);
                    (std::mem::take(&mut n.failed), std::mem::take(&mut n.killed))
                };
                if (failed || killed) && o.code != 0 {
                    cx.label(if killed { "scan killed" } else { "scan failed" });
                    cx.label_if(o.stdout.contains("committed"), "scan stopped after a commit");
                    continue;
                }
                let o = o.ok("scan fails")?;
                w.check_balance(&c, &o)?;
                continue;
            }
            let o = w.scan(&c)?;
            w.check_balance(&c, &o)?;
            cx.label_if(reorged, "scan after a reorganisation");
        }
    }
    let o = w.scan(&c)?;
    w.check_balance(&c, &o)?;
    let found: usize = c.blocks.iter().flat_map(|b| &b.txdata).filter_map(|t| c.owned.get(&t.compute_txid())).map(|v| v.len()).sum();
    if found > 0 {
        cx.nontrivial();
    }
    cx.label_if(found > c.unspent().len(), "spent outputs");
    cx.label_if(c.dropped, "left out after a reorganisation");
    cx.label_if(c.r.labels.len() > 1, "labels");
    cx.note(|| format!("{:?} {} blocks, {found} outputs, {} unspent", w.network, c.blocks.len(), c.unspent().len()));
    Ok(())
}

/// A scan for another wallet is none of this one and must not count as one.
fn foreign_scan(s: &mut Src, w: &Wallet, c: &Chain) -> R {
    let own = code_text(w.network, &c.r, None);
    let mut other = c.r.clone();
    let scan = if s.chance(1, 2) {
        other.spend_sk = w.foreign(s, true).secret;
        w.scan.private.clone()
    } else {
        w.foreign(s, false).private
    };
    let other = if other.spend_sk == c.r.spend_sk { own } else { code_text(w.network, &other, None) };
    let args = ["scan", "--scan", &scan, "--code", &other, "--url", &c.url];
    // the code may be left out, the default is the one of an example
    let args = if scan == w.scan.private && s.chance(1, 3) { [&args[..3], &args[5..]].concat() } else { args.to_vec() };
    refused(w, &args, "scan with the keys of another wallet")
}

fn refused(w: &Wallet, args: &[&str], what: &str) -> R {
    let before = w.dir.content();
    let o = w.sp(args)?;
    ensure!(o.code != 0, format!("accepted: {what}"), "{}: {}{}", o.line, o.stdout, o.stderr);
    ensure!(o.code != 101, format!("panics: {what}"), "{}: {}{}", o.line, o.stdout, o.stderr);
    ensure!(before == w.dir.content(), format!("changes the database: {what}"), "{}", o.line);
    Ok(())
}

fn codes(s: &mut Src, cx: &mut Cx) -> R {
    let (w, mut r) = Wallet::new(s);
    // before it is made
    if s.chance(1, 4) {
        match s.below(3) {
            0 => refused(&w, &["code"], "code without a wallet")?,
            1 => refused(&w, &["balance"], "balance without a wallet")?,
            _ => refused(&w, &["code", "--label", "1", "--scan", &w.scan.private], "label without a wallet")?,
        }
        ensure!(w.dir.content().is_empty(), "makes a database", "{:?}", w.dir.content().len());
        cx.label("before the wallet is made");
    }
    if s.chance(1, 3) {
        let inner = |d: &str| {
            let d = d.split('#').next().unwrap();
            d[3..d.len() - 1].split(',').next().unwrap().to_string()
        };
        let (scan, spend) = (inner(&w.scan.private), inner(&w.spend.private));
        let n = w.network.to_string();
        let (a, b, what) = match s.below(7) {
            0 => (w.scan.public.clone(), w.spend.private.clone(), "public scan descriptor"),
            1 => (format!("wpkh({scan})"), w.spend.private.clone(), "scan descriptor not taproot"),
            2 => (w.scan.private.clone(), format!("wpkh({spend})"), "spend descriptor not taproot"),
            3 if !w.scan.single => (format!("tr({scan}/*)"), w.spend.private.clone(), "scan descriptor with wildcard"),
            4 if !w.spend.single => (w.scan.private.clone(), format!("tr({spend}/*)"), "spend descriptor with wildcard"),
            5 => (scan.clone(), w.spend.private.clone(), "no scan descriptor"),
            _ => (w.scan.private.clone(), "tr(".to_string(), "broken spend descriptor"),
        };
        refused(&w, &["init", "--network", &n, "--scan", &a, "--spend", &b], what)?;
        ensure!(w.dir.content().is_empty(), "makes a database", "{what}");
        cx.label("wallet refused");
    }
    if s.chance(1, 8) {
        generated(s, w.network)?;
    }
    w.init(&mut r)?;
    w.code(&r)?;
    let mut c = Chain::new(w.network, r);
    let mut labels = 0;
    for _ in 0..s.size(0, 8) {
        match s.weighted(&[4, 2, 1, 2]) {
            0 => {
                let m = if labels > 0 && s.chance(1, 4) { *s.pick(&c.r.labels) } else { gen::label_number(s) };
                w.label(&mut c.r, m)?;
                labels += 1;
            }
            1 => w.code(&c.r)?,
            2 => {
                let txs = c.gen_txs(s, 3);
                c.mine(s, txs);
                let o = w.scan(&c)?;
                w.check_balance(&c, &o)?;
                cx.label("scan in between");
            }
            _ => {
                let m = gen::label_number(s).to_string();
                match s.below(7) {
                    5 => {
                        let d = w.foreign(s, false).private;
                        refused(&w, &["code", "--label", &m, "--scan", &d], "label with the keys of another wallet")?
                    }
                    0 => refused(&w, &["code", "--label", &m], "label without the scan descriptor")?,
                    1 => refused(&w, &["code", "--label", &m, "--scan", &w.scan.public], "label with a public descriptor")?,
                    2 => {
                        let d = w.scan.private.split('#').next().unwrap();
                        let d = d[3..d.len() - 1].split(',').next().unwrap();
                        refused(&w, &["code", "--label", &m, "--scan", &format!("wpkh({d})")], "label with a descriptor not taproot")?
                    }
                    3 => {
                        let a = w.init_args();
                        refused(&w, &a.iter().map(|x| x.as_str()).collect::<Vec<_>>(), "a wallet already made")?
                    }
                    4 => refused(&w, &["code", "--label", "4294967296", "--scan", &w.scan.private], "label out of range")?,
                    _ => refused(&w, &["code", "--label", "-1", "--scan", &w.scan.private], "negative label")?,
                }
                cx.label("command refused");
            }
        }
    }
    w.code(&c.r)?;
    if labels > 0 {
        cx.nontrivial();
    }
    cx.label_if(w.scan.single, "single scan key");
    cx.note(|| format!("{:?} {} {}", w.network, w.scan.private, w.spend.public));
    Ok(())
}

/// What `generate` prints is a wallet.
fn generated(s: &mut Src, network: Network) -> R {
    let dir = Dir::new();
    let n = network.to_string();
    let o = run(BIN, &dir, &["generate", "--network", &n], &[])?.ok("nothing generated")?;
    ensure!(dir.content().is_empty(), "generate leaves files", "{:?}", dir.content().len());
    let d = |k: &str| o.text(k, "descriptor not printed");
    let (scan, spend) = (d("private_scan_descriptor")?, d("private_spend_descriptor")?);
    let (pub_scan, pub_spend) = (d("public_scan_descriptor")?, d("public_spend_descriptor")?);
    ensure!(scan != spend && pub_scan != pub_spend, "same descriptors", "{scan}");
    for (t, private) in [(&scan, true), (&spend, true), (&pub_scan, false), (&pub_spend, false)] {
        // how an extended private key starts; keys may contain these letters anywhere else
        let secret = t.split(|c: char| !c.is_alphanumeric()).any(|k| k.starts_with("xprv") || k.starts_with("tprv"));
        ensure!(secret == private, "secrets in the wrong descriptor", "{t}");
        let coin = if network == Network::Bitcoin { 0 } else { 1 };
        ensure!(!t.is_empty() && t.contains("352") , "purpose", "{t} {coin}");
    }
    let with = if s.chance(1, 2) { &spend } else { &pub_spend };
    run(BIN, &dir, &["init", "--network", &n, "--scan", &scan, "--spend", with], &[])?.ok("generated wallet not made")?;
    let code = run(BIN, &dir, &["code"], &[])?.ok("no code")?.text("silent_payment_code", "code not printed")?;
    // both forms stand for the same wallet
    let want = {
        let a = public_key(&pub_scan)?;
        let b = public_key(&pub_spend)?;
        bech::encode_code(keys::hrp(network), 0, &[a, b].concat())
    };
    ensure_eq!(code, want, "code of a generated wallet");
    let again = run(BIN, &dir, &["generate", "--network", &n], &[])?.ok("nothing generated")?;
    ensure!(again.text("private_scan_descriptor", "descriptor not printed")? != scan, "not random", "{scan}");
    Ok(())
}

fn public_key(desc: &str) -> Result<[u8; 33], Fail> {
    use miniscript::{Descriptor, DescriptorPublicKey, ToPublicKey};
    let bad = |e: String| Fail { sig: "descriptor not readable".into(), msg: format!("{desc}: {e}") };
    let d = Descriptor::<DescriptorPublicKey>::from_str(desc).map_err(|e| bad(e.to_string()))?;
    match d.at_derivation_index(0).map_err(|e| bad(e.to_string()))? {
        Descriptor::Tr(t) => Ok(t.internal_key().to_public_key().inner.serialize()),
        o => Err(bad(format!("not taproot: {o}"))),
    }
}

fn verify(prevouts: &[TxOut], tx: &Transaction, i: usize, sig: &taproot::Signature) -> bool {
    let mut cache = SighashCache::new(tx);
    let Ok(h) = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(prevouts), sig.sighash_type) else {
        return false;
    };
    let Ok(key) = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]) else { return false };
    let s: &schnorr::Signature = &sig.signature;
    secp().verify_schnorr(s, &Message::from_digest(h.to_byte_array()), &key).is_ok()
}

enum To {
    Code(Receiver, Option<u32>),
    Own(Option<u32>),
    Address(Address),
}

fn address(s: &mut Src, n: Network) -> Address {
    let k = gen::random_secret(s);
    let pk = pt_g(Some(k)).unwrap();
    let script = match s.below(5) {
        0 => p2tr(&xonly(&pk)),
        1 => gen::p2wpkh(&pk.serialize()),
        2 => gen::p2pkh(&pk.serialize()),
        3 => gen::p2sh(&pk.serialize()),
        _ => bitcoin::ScriptBuf::from_bytes([&[0u8, 32][..], &s.bytes32()].concat()),
    };
    Address::from_script(&script, n).expect("an address")
}

fn payments(s: &mut Src, cx: &mut Cx) -> R {
    let (w, mut r) = Wallet::new(s);
    w.init(&mut r)?;
    let mut c = Chain::new(w.network, r);
    c.max_amount = *s.pick(&[2_000, 100_000, 10_000_000, 21_000_000 * 100_000_000 / 64]);
    if s.chance(1, 2) {
        let m = gen::label_number(s);
        w.label(&mut c.r, m)?;
    }
    for _ in 0..s.size(1, 5) {
        let txs = c.gen_txs(s, 4);
        c.mine(s, txs);
    }
    let o = w.scan(&c)?;
    w.check_balance(&c, &o)?;
    if s.chance(1, 4) {
        let d = s.size(1, 3);
        c.reorg(s, d, false);
        let o = w.scan(&c)?;
        w.check_balance(&c, &o)?;
    }
    for _ in 0..s.size(1, 3) {
        payment(s, cx, &w, &mut c)?;
    }
    Ok(())
}

/// The panic in the coin selection library.
fn bound_panics(o: &Out) -> bool {
    o.code == 101 && o.stderr.contains("lowest_fee.rs") && o.stderr.contains("ideal_fee >= 0.0")
}

/// Two coins of 20000 bitcoins and payments of all but some of both.
fn pinned_large() -> R {
    let s = &mut Src::replay(vec![]);
    let (w, mut r) = Wallet::new(s);
    w.init(&mut r)?;
    let mut c = Chain::new(w.network, r);
    let each = 20_000 * 100_000_000u64;
    let t = c.payment(s, &[each, each + 12345]);
    c.mine(s, vec![t]);
    let o = w.scan(&c)?;
    w.check_balance(&c, &o)?;
    let code = code_text(w.network, &c.r, None);
    for i in 0..30u64 {
        let value = (each + i * 333_333_333).to_string();
        let o = w.sp(&["new-psbt", &value, "--code", &code, "--spend", &w.spend.private])?;
        ensure!(!bound_panics(&o), "branch and bound panics", "{}: {}", o.line, o.stderr);
        o.ok("large payment refused")?;
    }
    Ok(())
}

fn payment(s: &mut Src, cx: &mut Cx, w: &Wallet, c: &mut Chain) -> R {
    let coins: BTreeMap<OutPoint, Coin> = c.unspent();
    let total: u64 = coins.values().map(|x| x.owned.out.value.to_sat()).sum();
    let value = match s.weighted(&[4, 2, 1, 1]) {
        0 => 1 + s.below((total.max(2)) * 2 / 3),
        1 => {
            // about some coin's value
            let v: Vec<u64> = coins.values().map(|x| x.owned.out.value.to_sat()).collect();
            if v.is_empty() { 1000 } else { s.pick(&v).saturating_sub(s.below(1500)).max(1) }
        }
        2 => total.saturating_sub(s.below(2000)).max(1),
        _ => total + 1 + s.below(1000),
    };
    let to = match s.weighted(&[3, 1, 2]) {
        0 => {
            let mut r = gen::receiver(s, 2);
            if r.scan_sk == c.r.scan_sk {
                // wallets sharing the scan key but not the spend key do not find each other's outputs
                r.scan_sk = gen::random_secret(s);
            }
            let l = if !r.labels.is_empty() && s.chance(1, 2) { Some(*s.pick(&r.labels)) } else { None };
            To::Code(r, l)
        }
        1 => To::Own(if s.chance(1, 2) { Some(*s.pick(&c.r.labels)) } else { None }),
        _ => To::Address(address(s, w.network)),
    };
    let algo = *s.pick(&["bnb", "largest-first", "smallest-first", "oldest-first", "newest-first"]);
    let v = value.to_string();
    let mut args: Vec<String> = vec!["new-psbt".into(), v];
    match &to {
        To::Code(r, l) => args.extend(["--code".into(), code_text(w.network, r, *l)]),
        To::Own(l) => args.extend(["--code".into(), code_text(w.network, &c.r, *l)]),
        To::Address(a) => args.push(a.to_string()),
    }
    // nothing is paid with the keys of another wallet or to codes of another network
    if s.chance(1, 10) && !matches!(to, To::Address(_)) {
        let spend = w.foreign(s, true).private;
        let own = &w.spend.private;
        let n = *s.pick(&keys::NETWORKS);
        let wrong_net = keys::hrp(n) != keys::hrp(w.network) && s.chance(1, 2);
        let r = gen::receiver(s, 0);
        let text = if wrong_net { code_text(n, &r, None) } else { args[3].clone() };
        let what = if wrong_net { "payment to a code of another network" } else { "payment with the keys of another wallet" };
        let spend = if wrong_net { own } else { &spend };
        refused(w, &["new-psbt", &args[1], "--code", &text, "--coin-select", "largest-first", "--spend", spend], what)?;
        cx.label(what);
    }
    args.extend(["--coin-select", algo, "--spend", &w.spend.private].map(String::from));
    let before = w.dir.content();
    let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let o = w.sp(&args)?;
    let made = o.line.clone();
    ensure!(before == w.dir.content(), "a payment changes the database", "{}", o.line);
    let sure: i64 = coins.values().map(|x| x.owned.out.value.to_sat() as i64 - 70).sum();
    if o.code != 0 {
        // amounts are 32 bit floats in the coin selection's bound
        ensure!(!(bound_panics(&o) && algo == "bnb" && total >= 100_000_000), "branch and bound panics", "{}: {} {coins:?}", o.line, o.stderr);
        ensure!(o.code != 101, "payment panics", "{}: {} {coins:?}", o.line, o.stderr);
        ensure!(sure < value as i64 + 400, "payment refused", "{} with {coins:?}: {}", o.line, o.stderr);
        cx.label("refused");
        return Ok(());
    }
    ensure!(total >= value, "payment of more than there is", "{} of {total}: {}", o.line, o.stdout);
    let text = o.text("psbt", "psbt not printed")?;
    let fee = o.number(&["fee"], "fee not printed")?;
    let psbt = match Psbt::from_str(&text) {
        Ok(p) => p,
        Err(e) => return fail("psbt not readable", format!("{e}: {text}")),
    };
    let tx = psbt.unsigned_tx.clone();
    let spent: BTreeSet<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
    ensure_eq!(spent.len(), tx.input.len(), "an input twice");
    let mut prevouts = vec![];
    for (i, x) in tx.input.iter().enumerate() {
        let Some(k) = coins.get(&x.previous_output) else {
            return fail("input that is no unspent coin", format!("{}: {}", o.line, x.previous_output));
        };
        ensure_eq!(psbt.inputs[i].witness_utxo.as_ref(), Some(&k.owned.out), "witness utxo");
        prevouts.push(k.owned.out.clone());
    }
    let ins: u64 = prevouts.iter().map(|p| p.value.to_sat()).sum();
    let outs: u64 = tx.output.iter().map(|p| p.value.to_sat()).sum();
    ensure!(ins >= outs && ins - outs == fee, "fee", "{ins} - {outs} != {fee}");
    ensure!(tx.output.len() <= 2, "outputs", "{:?}", tx.output);

    // signed
    if s.chance(1, 10) {
        let spend = w.foreign(s, true).private;
        let o = w.sp(&["sign-psbt", "--psbt", &text, "--spend", &spend])?;
        ensure!(o.code != 101, "signing panics: keys of another wallet", "{}: {}", o.line, o.stderr);
        ensure!(o.code != 0, "signed with the keys of another wallet", "{}: {}", o.line, o.stdout);
        cx.label("signed with the keys of another wallet");
    }
    let mut to_sign = psbt.clone();
    let mut asked = vec![None; tx.input.len()];
    if s.chance(1, 6) {
        // inputs may ask for a sighash type, also for one that cannot be made
        for (i, t) in asked.iter_mut().enumerate() {
            if s.chance(1, 2) {
                let ty = *s.pick(&[0u32, 1, 2, 0x81, 0x82, 3, 0x83, 4, 0x80]);
                to_sign.inputs[i].sighash_type = Some(PsbtSighashType::from_u32(ty));
                *t = Some(ty);
            }
        }
        cx.label("sighash type asked for");
    }
    let text = to_sign.to_string();
    let o = w.sp(&["sign-psbt", "--psbt", &text, "--spend", &w.spend.private])?;
    let impossible = asked.iter().enumerate().any(|(i, t)| match t {
        Some(4 | 0x80) => true,
        Some(3 | 0x83) => i >= tx.output.len(),
        _ => false,
    });
    if impossible {
        ensure!(o.code != 101, "signing panics: sighash type", "{}: {} {asked:?}", o.line, o.stderr);
        ensure!(o.code != 0, "signed with a sighash type that cannot be made", "{}: {} {asked:?}", o.line, o.stdout);
        cx.label("sighash type that cannot be made");
        return Ok(());
    }
    let o = o.ok("not signed")?;
    let signed = match Psbt::from_str(&o.text("psbt", "psbt not printed")?) {
        Ok(p) => p,
        Err(e) => return fail("signed psbt not readable", e.to_string()),
    };
    ensure!(signed.unsigned_tx == tx, "signing changes the transaction", "{:?}", signed.unsigned_tx);
    let mut last = tx.clone();
    for (i, p) in signed.inputs.iter().enumerate() {
        let Some(sig) = &p.tap_key_sig else { return fail("input not signed", format!("{i} of {}", signed.inputs.len())) };
        let ok = match asked[i] {
            Some(t) => sig.sighash_type as u8 as u32 == t,
            None => sig.sighash_type == TapSighashType::Default || sig.sighash_type == TapSighashType::All,
        };
        ensure!(ok, "sighash type", "{:?}, asked {:?}", sig.sighash_type, asked[i]);
        ensure!(verify(&prevouts, &tx, i, sig), "signature", "input {i} of {}", signed.inputs.len());
        last.input[i].witness = Witness::from_slice(&[sig.to_vec()]);
    }
    ensure!(
        last.is_absolute_timelock_satisfied(Height::from_consensus(c.blocks.len() as u32 - 1).unwrap(), Time::MIN),
        "not final in the next block",
        "{} at height {}",
        last.lock_time,
        c.blocks.len() - 1
    );
    ensure!(last.input.iter().all(|i| !i.sequence.is_relative_lock_time()), "relative timelock", "{last:?}");
    let vsize = last.vsize() as u64;
    ensure!(fee >= vsize, "fee below what is relayed", "{fee} for {vsize} vbytes: {}", o.line);
    ensure!(fee <= vsize + vsize / 5 + 500, "fee too high", "{fee} for {vsize} vbytes {algo}: {tx:?}");

    // where it goes
    c.node.lock().unwrap().txs.insert(last.compute_txid(), last.clone());
    ensure!(c.learn(&last), "own outputs not defined", "{last:?}");
    let mut left: BTreeMap<u32, TxOut> = last.output.iter().cloned().enumerate().map(|(v, o)| (v as u32, o)).collect();
    let own = c.owned[&last.compute_txid()].clone();
    let mut change = own.clone();
    match &to {
        To::Code(r, l) => {
            let t = tweak_data(&last, &prevouts).expect("own inputs");
            let m = refmodel::scan(r, &last, &t);
            ensure!(m.owned.len() == 1, "found by the recipient", "{:?} of {last:?}", m.owned);
            let f = &m.owned[0];
            ensure!(f.label == *l || m.ambiguous, "label found by the recipient", "{:?} {l:?}", f.label);
            ensure_eq!(f.out.value.to_sat(), value, "value of the payment");
            left.remove(&f.outpoint.vout);
        }
        To::Own(l) => {
            let at = change.iter().position(|x| x.label == *l && x.out.value.to_sat() == value);
            let Some(at) = at else { return fail("payment to itself", format!("{l:?} {own:?} {last:?}")) };
            left.remove(&change.remove(at).outpoint.vout);
        }
        To::Address(a) => {
            let at = left.iter().find(|(_, o)| o.script_pubkey == a.script_pubkey() && o.value.to_sat() == value);
            let Some(at) = at.map(|x| *x.0) else { return fail("payment to an address", format!("{a} {last:?}")) };
            left.remove(&at);
        }
    }
    ensure!(change.len() <= 1, "change", "{own:?}");
    if let Some(x) = change.first() {
        ensure_eq!(x.label, Some(0), "label of the change");
        left.remove(&x.outpoint.vout);
        cx.label("change");
    }
    ensure!(left.is_empty(), "funds go elsewhere", "{left:?} {} {tx:?} own {own:?} labels {:?} coins {coins:?}", made, c.r.labels);
    cx.nontrivial();
    cx.label_if(tx.input.len() > 1, "several inputs");
    cx.label_if(matches!(to, To::Address(_)), "address");
    cx.label_if(matches!(to, To::Own(_)), "to itself");
    cx.note(|| format!("{algo} {value} of {total}: {} inputs, fee {fee}", tx.input.len()));
    // mined, it is gone from the wallet
    if s.chance(2, 3) {
        let mut txs = vec![last];
        if s.chance(1, 2) {
            txs.extend(c.gen_tx(s, &BTreeMap::new()));
        }
        c.mine(s, txs);
        let o = w.scan(c)?;
        w.check_balance(c, &o)?;
    }
    Ok(())
}
