//! C36 and C37: the second command-line wallet.
use crate::chain::{Chain, Coin};
use crate::run::{run, Clock, Dir, Out};
use bitcoin::absolute::{Height, Time};
use bitcoin::bip32::{DerivationPath, Xpriv};
use bitcoin::consensus::encode::{deserialize_hex, serialize_hex};
use bitcoin::hashes::Hash;
use bitcoin::secp256k1::{schnorr, Message, XOnlyPublicKey};
use bitcoin::sighash::{Prevouts, SighashCache};
use bitcoin::{constants, Address, Amount, BlockHash, Network, OutPoint, ScriptBuf, Transaction, TxOut};
use engine::*;
use refmodel::bip352::Receiver;
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

const BIN: &str = "sp-cli2";
const NETWORKS: [Network; 4] = [Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest];

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C36",
            "a new wallet of any birthday and a node whose chain grows, is reorganised and sometimes fails to answer, with labels handed out, scripts derived for transactions and scans in between; non-trivial when a scan finds an output",
            1_200,
            24_000,
            scans,
        )
        .shrink_budget(400),
        Prop::new(
            "C37",
            "a wallet with coins from a scanned chain and up to 3 transactions paying up to 30 codes and addresses, mined and scanned again; non-trivial when a transaction is made",
            1_000,
            20_000,
            payments,
        )
        .assumptions(&["coins are selected by a stand-in for bdk_tx"])
        .shrink_budget(400),
    ]
}

fn hrp(n: Network) -> &'static str {
    match n {
        Network::Bitcoin => "sp",
        Network::Regtest => "sprt",
        _ => "tsp",
    }
}

fn code_text(n: Network, r: &Receiver, label: Option<u32>) -> String {
    bech::encode_code(hrp(n), 0, &[r.scan_pk().serialize(), r.spend_for(label).serialize()].concat())
}

pub struct Wallet {
    dir: Dir,
    db: String,
    pub network: Network,
    descriptor: String,
    pub birthday: (u32, BlockHash),
}

impl Wallet {
    pub fn sp(&self, args: &[&str]) -> Result<Out, Fail> {
        if self.db.is_empty() {
            run(BIN, &self.dir, args, &[])
        } else {
            run(BIN, &self.dir, args, &[("DB_PATH", &self.db)])
        }
    }

    /// A new wallet and the keys BIP352 gives it.
    pub fn create(s: &mut Src, max_birthday: u64, network: Option<Network>) -> Result<(Wallet, Receiver), Fail> {
        let network = network.unwrap_or_else(|| *s.pick(&NETWORKS));
        let height = s.below(max_birthday + 1) as u32;
        let genesis = constants::genesis_block(network).block_hash();
        let hash = if height == 0 { genesis } else { BlockHash::from_byte_array(s.bytes32()) };
        let db = if s.chance(1, 2) { String::new() } else { "wallet.db".to_string() };
        let mut w = Wallet { dir: Dir::new(), db, network, descriptor: String::new(), birthday: (height, hash) };
        let (n, h, b, g) = (network.to_string(), height.to_string(), hash.to_string(), genesis.to_string());
        let mut args = vec!["create", "--birthday-height", &h, "--birthday-hash", &b];
        if network != Network::Signet || s.chance(1, 2) {
            args.extend(["--network", &n]);
        }
        if s.chance(1, 4) {
            args.push(&g);
        }
        let before = w.sp(&["code"])?;
        ensure!(before.code != 0 && w.dir.content().is_empty(), "code without a wallet", "{before:?}");
        let o = w.sp(&args)?.ok("wallet not made")?;
        w.descriptor = o.text("tr_xprv", "no descriptor")?;
        if s.chance(1, 4) {
            let before = w.dir.content();
            let o = w.sp(&args)?;
            ensure!(o.code != 0, "another wallet in its place", "{o:?}");
            ensure_eq!(w.dir.content(), before, "another wallet in its place");
        }
        let Some(key) = w.descriptor.strip_prefix("tr([").and_then(|d| d.strip_suffix(")")) else {
            return fail("descriptor not readable", w.descriptor.clone());
        };
        let Some((fp, key)) = key.split_once(']') else { return fail("descriptor not readable", w.descriptor.clone()) };
        let m = match Xpriv::from_str(key) {
            Ok(k) => k,
            Err(e) => return fail("descriptor not readable", format!("{e} {}", w.descriptor)),
        };
        ensure_eq!(m.fingerprint(secp()).to_string(), fp, "fingerprint");
        ensure_eq!(m.network, bitcoin::NetworkKind::from(network), "network of the key");
        let coin = if network == Network::Bitcoin { 0 } else { 1 };
        let key = |tail: &str| {
            let p = DerivationPath::from_str(&format!("352h/{coin}h/0h/{tail}")).unwrap();
            m.derive_priv(secp(), &p).unwrap().private_key
        };
        let r = Receiver { scan_sk: key("1h/0"), spend_sk: key("0h/0"), labels: vec![0] };
        Ok((w, r))
    }

    pub fn code(&self, r: &Receiver) -> R {
        let o = self.sp(&["code"])?.ok("no code")?;
        ensure_eq!(o.text("silent_payment_code", "code not printed")?, code_text(self.network, r, None), "code");
        Ok(())
    }

    pub fn label(&self, r: &mut Receiver, m: u32) -> R {
        let o = self.sp(&["code", "--label", &m.to_string()])?;
        if m == 0 {
            ensure!(!o.stdout.contains("silent_payment_code"), "code for the label of change", "{}", o.stdout);
            return Ok(());
        }
        let got = o.ok("no labelled code")?.text("silent_payment_code", "labelled code not printed")?;
        ensure_eq!(got, code_text(self.network, r, Some(m)), "labelled code");
        if !r.labels.contains(&m) {
            r.labels.push(m);
        }
        Ok(())
    }

    pub fn birthday(&self) -> R {
        let o = self.sp(&["birthday"])?.ok("no birthday")?;
        ensure_eq!(o.number(&["height"], "no height")? as u32, self.birthday.0, "birthday height");
        ensure_eq!(o.text("hash", "no hash")?, self.birthday.1.to_string(), "birthday hash");
        Ok(())
    }

    /// confirmed and unconfirmed total; of a chain the wallet has seen all the changes of
    pub fn balance(&self, c: Option<&Chain>) -> Result<(u64, u64), Fail> {
        let o = self.sp(&["balance"])?.ok("no balance")?;
        let n = |a: &str, b: &str| o.number(&[a, b], "balance not printed");
        let confirmed = n("confirmed", "total")?;
        ensure_eq!(n("confirmed", "spendable")? + n("confirmed", "immature")?, confirmed, "parts of the balance");
        let unconfirmed = n("unconfirmed", "total")?;
        let (trusted, untrusted) = (n("unconfirmed", "trusted")?, n("unconfirmed", "untrusted")?);
        ensure_eq!(trusted + untrusted, unconfirmed, "parts of the balance");
        // nothing is paid by a coinbase, and only change is trusted before it is confirmed
        ensure_eq!(n("confirmed", "immature")?, 0u64, "immature balance");
        if let Some(c) = c {
            let (change, others) = c.pending();
            ensure!(trusted <= change, "trusted balance", "{trusted}, pending change {change}");
            ensure!(untrusted <= others, "untrusted balance", "{untrusted}, other pending outputs {others}");
        }
        Ok((confirmed, unconfirmed))
    }

    /// Scans and compares; false when the node failed and the wallet said so.
    fn scan(&self, c: &Chain) -> Result<bool, Fail> {
        let o = self.sp(&["scan-rpc", "--url", &c.url])?;
        let failed = {
            let mut n = c.node.lock().unwrap();
            if let Some(m) = n.unknown.first() {
                panic!("the node of the harness does not know {m}");
            }
            (n.fail_in, n.kill_in) = (None, None);
            if std::mem::take(&mut n.killed) {
                return Ok(false);
            }
            std::mem::take(&mut n.failed)
        };
        let below = c.blocks.len() <= self.birthday.0 as usize;
        if o.code != 0 && (failed || below) {
            ensure!(o.code != 101, "scan panics", "{}: {}", o.line, o.stderr);
            return Ok(false);
        }
        let o = o.ok("scan fails")?;
        let (confirmed, unconfirmed) = self.balance(Some(c))?;
        ensure!(
            confirmed == c.balance(),
            if failed { "balance after an answer failed" } else { "balance" },
            "{confirmed} instead of {}, birthday {}, coins {:?}",
            c.balance(),
            self.birthday.0,
            c.unspent().values().map(|x| (x.height, x.owned.outpoint, x.owned.out.value)).collect::<Vec<_>>()
        );
        if !c.dropped {
            ensure_eq!(unconfirmed, 0, "unconfirmed balance");
        }
        if o.slow {
            return Ok(true);
        }
        let last = o.stdout.lines().filter_map(|l| l.rsplit_once("total: ")).next_back();
        let Some((_, total)) = last else { return fail("scan prints no total", o.stdout.clone()) };
        match Amount::from_str(total.trim()) {
            Ok(t) => ensure_eq!(t.to_sat(), confirmed + unconfirmed, "total printed by the scan"),
            Err(e) => return fail("total not readable", format!("{total}: {e}")),
        }
        Ok(true)
    }

    /// The script of an output of a transaction.
    fn derive(&self, s: &mut Src, c: &Chain, cx: &mut Cx) -> R {
        let all: Vec<Transaction> = c.blocks.iter().skip(1).flat_map(|b| b.txdata.iter().skip(1).cloned()).collect();
        if all.is_empty() {
            return Ok(());
        }
        let tx = s.pick(&all).clone();
        let order = if s.chance(1, 2) { s.below(3) as u32 } else { s.u32() };
        let label = match s.below(3) {
            0 => None,
            1 => Some(*s.pick(&c.r.labels)),
            _ => Some(gen::label_number(s)),
        };
        let (id, hex, order_text) = (tx.compute_txid().to_string(), serialize_hex(&tx), order.to_string());
        let l = label.map(|l| l.to_string()).unwrap_or_default();
        let mut args = vec!["derive-sp-for-tx", "--url", &c.url, &order_text];
        args.extend(if s.chance(1, 2) { ["--txid", &id] } else { ["--tx-hex", &hex] });
        if label.is_some() {
            args.extend(["--label", &l]);
        }
        let o = self.sp(&args)?;
        let tweak = tweak_data(&tx, &c.prevouts(&tx));
        let known = label.is_none_or(|l| c.r.labels.contains(&l));
        cx.label("script derived");
        let (Some(tweak), true) = (tweak, known) else {
            ensure!(o.code != 101, "derivation panics", "{}: {}", o.line, o.stderr);
            ensure!(
                o.code != 0,
                if known { "script without a shared secret" } else { "script for a label not known" },
                "{}: {}",
                o.line,
                o.stdout
            );
            return Ok(());
        };
        let o = o.ok("nothing derived")?;
        let shared = c.r.shared(&tweak);
        let script = p2tr(&xonly(&p_k(&shared, order, &c.r.spend_for(label)).expect("not infinity")));
        let get = |k: &str| o.text(k, "not printed");
        ensure_eq!(get("script_pubkey_hex")?, hex_of(&script), "script");
        ensure_eq!(get("txid")?, id, "id of the transaction");
        ensure_eq!(get("partial_secret")?, tweak.to_string(), "tweak data");
        ensure_eq!(get("ecdh_shared_secret")?, shared.to_string(), "shared secret");
        Ok(())
    }
}

use refmodel::bip352::p_k;

fn hex_of(s: &ScriptBuf) -> String {
    hex(s.as_bytes())
}

fn scans(s: &mut Src, cx: &mut Cx) -> R {
    let (w, r) = Wallet::create(s, 6, None)?;
    let mut c = Chain::new(w.network, r);
    c.from = w.birthday.0 as usize;
    let mut reorged = false;
    let mut scanned = 0;
    let clock = Clock::new(if s.chance(1, 3) { s.range(2, 40) } else { 0 });
    cx.label_if(clock.fast(), "fast clock");
    for step in 0..s.size(1, 6) {
        match s.weighted(&[4, if step == 0 { 0 } else { 2 }, 2, 1]) {
            0 => {
                for _ in 0..s.size(1, 5) {
                    let txs = c.gen_txs(s, 4);
                    c.mine(s, txs);
                }
            }
            1 => {
                // not below the birthday
                let most = c.blocks.len().saturating_sub(c.from.max(1));
                let d = s.size(1, 5).min(most);
                if d > 0 {
                    c.reorg(s, d, true);
                    reorged = scanned > 0;
                }
            }
            2 => {
                let m = gen::label_number(s);
                w.label(&mut c.r, m)?;
            }
            _ => w.derive(s, &c, cx)?,
        }
        if s.chance(2, 3) {
            if s.chance(1, 4) {
                // the node does not answer one of the requests, or the wallet is killed while it waits for the answer
                let n = Some(if s.chance(1, 2) { s.below(40) } else { s.below(200) });
                if s.chance(1, 2) {
                    c.node.lock().unwrap().fail_in = n;
                } else {
                    c.node.lock().unwrap().kill_in = n;
                }
            }
            if w.scan(&c)? {
                scanned += 1;
                cx.label_if(reorged, "scan after a reorganisation");
            } else {
                cx.label("scan failed");
            }
        }
    }
    w.code(&c.r)?;
    w.birthday()?;
    w.scan(&c)?;
    let found: usize =
        c.blocks.iter().skip(c.from).flat_map(|b| &b.txdata).filter_map(|t| c.owned.get(&t.compute_txid())).map(|v| v.len()).sum();
    if found > 0 && c.blocks.len() > c.from {
        cx.nontrivial();
    }
    cx.label_if(found > c.unspent().len(), "spent outputs");
    cx.label_if(c.dropped, "left out after a reorganisation");
    cx.label_if(c.r.labels.len() > 1, "labels");
    cx.label_if(c.from > 1, "late birthday");
    cx.note(|| format!("{:?} {} blocks from {}, {found} outputs, {} unspent", w.network, c.blocks.len(), c.from, c.unspent().len()));
    Ok(())
}

fn payments(s: &mut Src, cx: &mut Cx) -> R {
    let (w, r) = Wallet::create(s, 2, None)?;
    let mut c = Chain::new(w.network, r);
    c.from = w.birthday.0 as usize;
    c.max_amount = *s.pick(&[2_000, 100_000, 10_000_000, 21_000_000 * 100_000_000 / 64]);
    if s.chance(1, 2) {
        let m = gen::label_number(s);
        w.label(&mut c.r, m)?;
    }
    for _ in 0..s.size(2, 5) {
        let txs = c.gen_txs(s, 4);
        c.mine(s, txs);
    }
    w.scan(&c)?;
    for _ in 0..s.size(1, 3) {
        payment(s, cx, &w, &mut c)?;
    }
    Ok(())
}

#[derive(Clone, Debug)]
enum To {
    Code(Receiver, Option<u32>),
    Own(Option<u32>),
    Address(Address),
}

fn address(s: &mut Src, n: Network) -> Address {
    let k = gen::random_secret(s);
    let pk = pt_g(Some(k)).unwrap();
    let script = match s.below(5) {
        0 => p2tr(&xonly(&pk)),
        1 => gen::p2wpkh(&pk.serialize()),
        2 => gen::p2pkh(&pk.serialize()),
        3 => gen::p2sh(&pk.serialize()),
        _ => ScriptBuf::from_bytes([&[0u8, 32][..], &s.bytes32()].concat()),
    };
    Address::from_script(&script, n).expect("an address")
}

fn verify(prevouts: &[TxOut], tx: &Transaction, i: usize) -> bool {
    let w = &tx.input[i].witness;
    let sig = match (w.len(), w.nth(0)) {
        (1, Some(b)) => bitcoin::taproot::Signature::from_slice(b),
        _ => return false,
    };
    let Ok(sig) = sig else { return false };
    let mut cache = SighashCache::new(tx);
    let Ok(h) = cache.taproot_key_spend_signature_hash(i, &Prevouts::All(prevouts), sig.sighash_type) else {
        return false;
    };
    let Ok(key) = XOnlyPublicKey::from_slice(&prevouts[i].script_pubkey.as_bytes()[2..]) else { return false };
    let x: &schnorr::Signature = &sig.signature;
    secp().verify_schnorr(x, &Message::from_digest(h.to_byte_array()), &key).is_ok()
}

fn payment(s: &mut Src, cx: &mut Cx, w: &Wallet, c: &mut Chain) -> R {
    let coins: BTreeMap<OutPoint, Coin> = c.unspent();
    let total: u64 = coins.values().map(|x| x.owned.out.value.to_sat()).sum();
    // recipients
    let mut to: Vec<(To, u64)> = vec![];
    let count = if s.chance(1, 15) { s.size(6, 30) } else { s.size(1, 5) } as u64;
    for _ in 0..count {
        let value = match s.weighted(&[5, 1, 1]) {
            0 => 1 + s.below((total.max(2)) * 2 / 3 / count + 1),
            1 => (total / count).saturating_sub(s.below(3000)).max(1),
            _ => 1000,
        };
        let t = match s.weighted(&[3, 1, 2, if to.is_empty() { 0 } else { 2 }]) {
            0 => {
                let mut r = gen::receiver(s, 2);
                // a receiver finds only outputs numbered without gaps for its scan key
                if r.scan_sk == c.r.scan_sk || to.iter().any(|t| matches!(&t.0, To::Code(x, _) if x.scan_sk == r.scan_sk)) {
                    r.scan_sk = gen::random_secret(s);
                }
                let l = if !r.labels.is_empty() && s.chance(1, 2) { Some(*s.pick(&r.labels)) } else { None };
                To::Code(r, l)
            }
            1 => {
                let l = *s.pick(&c.r.labels);
                To::Own(if l == 0 { None } else { Some(l) })
            }
            2 => To::Address(address(s, w.network)),
            _ => match s.pick(&to).0.clone() {
                // the same or another code of the same receiver again
                To::Code(r, l) => {
                    let l = if !r.labels.is_empty() && s.chance(1, 2) { Some(*s.pick(&r.labels)) } else { l };
                    To::Code(r, l)
                }
                t => t,
            },
        };
        to.push((t, value));
    }
    let asked: u64 = to.iter().map(|t| t.1).sum();
    let rate = if s.chance(1, 12) { 1 + s.below(2000) } else { 1 + s.below(20) };
    let data = if s.chance(1, 4) {
        // any text but that of an option
        let mut d = "0123456789".repeat(gen::several(s, 0, 8, 40));
        for _ in 0..s.below(3) {
            let at = if s.chance(1, 2) { d.len() } else { 0 };
            d.insert(at, *s.pick(&[' ', '\n', '\t', 'ä', '€', '\u{feff}', 'z', '0', '\u{a0}']));
        }
        Some(d)
    } else {
        None
    };
    let mut args: Vec<String> = vec!["new-tx".into()];
    for (t, v) in &to {
        match t {
            To::Code(r, l) => args.extend(["--to-sp".into(), format!("{}:{v}", code_text(w.network, r, *l))]),
            To::Own(l) => args.extend(["--to-sp".into(), format!("{}:{v}", code_text(w.network, &c.r, *l))]),
            To::Address(a) => args.extend(["--to".into(), format!("{a}:{v}")]),
        }
    }
    args.extend(["--fee-rate".into(), rate.to_string()]);
    if let Some(d) = &data {
        args.extend(["--data".into(), d.clone()]);
    }
    // a recipient of another network
    let wrong = s.chance(1, 12);
    if wrong {
        let n = if w.network == Network::Bitcoin { Network::Regtest } else { Network::Bitcoin };
        if s.chance(1, 2) {
            args.extend(["--to".into(), format!("{}:1000", address(s, n))]);
        } else {
            args.extend(["--to-sp".into(), format!("{}:1000", code_text(n, &gen::receiver(s, 0), None))]);
        }
    }
    // the descriptor of another wallet
    let foreign = s.chance(1, 12);
    let descriptor = if foreign {
        let m = Xpriv::new_master(w.network, &s.bytes32()).expect("a key");
        format!("tr([{}]{m})", m.fingerprint(secp()))
    } else {
        w.descriptor.clone()
    };
    args.extend(["--".into(), descriptor]);
    let args: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
    let o = w.sp(&args)?;
    cx.note(|| format!("{asked} of {total} in {} to {} recipients, rate {rate}", coins.len(), to.len()));
    if wrong {
        ensure!(o.code != 0, "pays another network", "{}: {}", o.line, o.stdout);
        ensure!(o.code != 101, "payment panics: another network", "{}: {}", o.line, o.stderr);
        cx.label("another network");
        return Ok(());
    }
    if foreign {
        ensure!(o.code != 0, "payment with foreign keys", "{}: {}", o.line, o.stdout);
        cx.label("foreign keys");
        return Ok(());
    }
    // with all coins there must be enough
    let most = rate * (12 + 58 * coins.len() as u64 + 43 * (to.len() as u64 + 1) + data.as_ref().map_or(0, |d| d.len() as u64 + 12)) + 500;
    if o.code != 0 {
        ensure!(o.code != 101, "payment panics", "{}: {} {coins:?}", o.line, o.stderr);
        ensure!(total < asked + most, "payment refused", "{} with {coins:?}: {}", o.line, o.stderr);
        cx.label("refused");
        return Ok(());
    }
    ensure!(total >= asked, "payment of more than there is", "{} of {total}: {}", o.line, o.stdout);
    let text = o.text("tx", "no transaction")?;
    let tx: Transaction = match deserialize_hex(&text) {
        Ok(t) => t,
        Err(e) => return fail("transaction not readable", format!("{e}: {text}")),
    };
    let spent: BTreeSet<OutPoint> = tx.input.iter().map(|i| i.previous_output).collect();
    ensure_eq!(spent.len(), tx.input.len(), "an input twice");
    let mut prevouts = vec![];
    for x in &tx.input {
        let Some(k) = coins.get(&x.previous_output) else {
            return fail("input that is no unspent coin", format!("{}: {}", o.line, x.previous_output));
        };
        prevouts.push(k.owned.out.clone());
    }
    for i in 0..tx.input.len() {
        ensure!(verify(&prevouts, &tx, i), "signature", "input {i} of {tx:?}");
    }
    let ins: u64 = prevouts.iter().map(|p| p.value.to_sat()).sum();
    let outs: u64 = tx.output.iter().map(|p| p.value.to_sat()).sum();
    ensure!(ins >= outs, "more out than in", "{ins} {outs}");
    ensure!(
        tx.is_absolute_timelock_satisfied(Height::from_consensus(c.blocks.len() as u32 - 1).unwrap(), Time::MIN),
        "not final in the next block",
        "{} at height {}",
        tx.lock_time,
        c.blocks.len() - 1
    );
    ensure!(tx.input.iter().all(|i| !i.sequence.is_relative_lock_time()), "relative timelock", "{tx:?}");
    let vsize = tx.vsize() as u64;
    ensure!(ins - outs >= rate * vsize, "fee below the rate", "{} for {vsize} at {rate}", ins - outs);
    ensure!(ins - outs <= rate * (vsize + 60) + 500, "fee too high", "{} for {vsize} at {rate}", ins - outs);

    // where it goes
    c.node.lock().unwrap().txs.insert(tx.compute_txid(), tx.clone());
    ensure!(c.learn(&tx), "own outputs not defined", "{tx:?}");
    let mut left: BTreeMap<u32, TxOut> = tx.output.iter().cloned().enumerate().map(|(v, o)| (v as u32, o)).collect();
    let mut own = c.owned[&tx.compute_txid()].clone();
    let tweak = tweak_data(&tx, &prevouts).expect("own inputs");
    for (t, v) in &to {
        let at = match t {
            To::Code(r, l) => {
                let m = refmodel::scan(r, &tx, &tweak);
                m.owned
                    .iter()
                    .find(|f| left.contains_key(&f.outpoint.vout) && f.out.value.to_sat() == *v && (f.label == *l || m.ambiguous))
                    .map(|f| f.outpoint.vout)
            }
            To::Own(l) => own
                .iter()
                .position(|x| x.label == *l && x.out.value.to_sat() == *v)
                .map(|at| own.remove(at).outpoint.vout),
            To::Address(a) => left
                .iter()
                .find(|(_, o)| o.script_pubkey == a.script_pubkey() && o.value.to_sat() == *v)
                .map(|x| *x.0),
        };
        let Some(at) = at else { return fail("recipient not paid", format!("{t:?} {v}: {tx:?}")) };
        left.remove(&at);
    }
    if let Some(d) = &data {
        let at = left.iter().find(|(_, o)| {
            o.script_pubkey.is_op_return() && o.value == Amount::ZERO && o.script_pubkey.as_bytes().ends_with(d.as_bytes())
        });
        let Some(at) = at.map(|x| *x.0) else { return fail("data missing", format!("{d}: {tx:?}")) };
        left.remove(&at);
    }
    ensure!(own.len() <= 1, "change", "{own:?}");
    if let Some(x) = own.first() {
        ensure_eq!(x.label, Some(0), "label of the change");
        left.remove(&x.outpoint.vout);
        cx.label("change");
    }
    ensure!(left.is_empty(), "funds go elsewhere", "{left:?} {} {tx:?} own {own:?} labels {:?}", o.line, c.r.labels);
    cx.nontrivial();
    cx.label_if(tx.input.len() > 1, "several inputs");
    cx.label_if(to.len() > 1, "several recipients");
    cx.label_if(data.is_some(), "data");
    let before: u64 = c.unspent().values().map(|x| x.owned.out.value.to_sat()).sum();
    ensure_eq!(w.balance(Some(&c))?.0, before, "balance after a transaction not sent");
    if s.chance(2, 3) {
        let mut txs = vec![tx];
        if s.chance(1, 2) {
            txs.extend(c.gen_tx(s, &BTreeMap::new()));
        }
        c.mine(s, txs);
        w.scan(c)?;
    }
    Ok(())
}
