//! C29 to C31: the wallet.
use crate::common::*;
use crate::v2::check_index;
use bdk_sp_wallet::signers::{get_spend_sk, populate_sp_keymap};
use bdk_sp_wallet::{ChangeSet, SpWallet, SpWalletError};
use bitcoin::bip32::{DerivationPath, Xpriv, Xpub};
use bitcoin::secp256k1::{PublicKey, SecretKey};
use bitcoin::{Amount, Block, BlockHash, Network, OutPoint, Transaction, TxOut, Txid, XOnlyPublicKey};
use engine::*;
use indexer::bdk_chain::{local_chain::CheckPoint, BlockId, Merge};
use refmodel::bip352::{Owned, Receiver};
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C29",
            "trees of up to 9 blocks with payments, spends, replacements and transactions mined again in other branches, applied and made the best chain in any order; non-trivial when an output is owned",
            12_000,
            120_000,
            balance,
        )
        .pinned(&[("script_paid_twice", pinned_twice)]),
        Prop::new(
            "C30",
            "the histories of C29 with the staged changes taken at any points and merged through json and bincode; non-trivial when an output is owned",
            12_000,
            120_000,
            restoring,
        )
        .pinned(&[("birthday", pinned_birthday)]),
        Prop::new(
            "C31",
            "extended keys, networks, labels and payments to the addresses; non-trivial when an output is owned",
            20_000,
            200_000,
            keys,
        ),
    ]
}

// ------------------------------------------------------------------------------------------------ keys

fn network(s: &mut Src) -> Network {
    *s.pick(&[Network::Bitcoin, Network::Regtest, Network::Testnet, Network::Signet, Network::Testnet4])
}

fn xpriv(s: &mut Src, n: Network) -> Xpriv {
    Xpriv::new_master(n, &s.bytes32()).expect("a valid seed")
}

/// The keys of BIP352's derivation paths.
fn receiver_of(x: &Xpriv, n: Network) -> Receiver {
    let coin = if n == Network::Bitcoin { 0 } else { 1 };
    let at = |branch: u32| {
        let p: DerivationPath = format!("m/352'/{coin}'/0'/{branch}'/0").parse().unwrap();
        x.derive_priv(secp(), &p).unwrap().private_key
    };
    Receiver { scan_sk: at(1), spend_sk: at(0), labels: vec![0] }
}

fn new_wallet(birthday: BlockId, genesis: BlockHash, desc: &str, n: Network) -> Result<SpWallet, Fail> {
    match guarded(|| SpWallet::new(birthday, genesis, desc, n))? {
        Ok(w) => Ok(w),
        Err(e) => fail("wallet not made", format!("{e:?}")),
    }
}

// ------------------------------------------------------------------------------------------------ chains

struct Node {
    parent: Option<usize>,
    height: u32,
    block: Block,
    txs: Vec<usize>,
}

struct Tx {
    tx: Transaction,
    tweak: PublicKey,
}

struct World {
    net: Network,
    r: Receiver,
    wallet: SpWallet,
    birthday: BlockId,
    nodes: Vec<Node>,
    txs: Vec<Tx>,
    tip: usize,
    // what the wallet was shown
    owned: BTreeMap<OutPoint, Owned>,
    recorded: BTreeMap<Txid, Transaction>,
    anchors: BTreeSet<(usize, Txid)>,
    log: Vec<String>,
    contested: bool,
    reorgs: usize,
    late: bool,
    // heights between the first block and the next one that nobody tells the wallet of
    gap: u32,
}

fn small_amount(s: &mut Src) -> Amount {
    Amount::from_sat(if s.chance(1, 8) { s.below(3) } else { s.below(1_000_000) })
}

impl World {
    fn new(s: &mut Src) -> Result<World, Fail> {
        let net = network(s);
        let x = xpriv(s, net);
        let r = receiver_of(&x, net);
        let genesis = block(bitcoin::hashes::Hash::all_zeros(), 1_600_000_000, 0, vec![coinbase(0, vec![])]);
        let birthday = BlockId { height: s.below(5) as u32, hash: genesis.block_hash() };
        let wallet = new_wallet(birthday, genesis.block_hash(), &format!("tr({x})"), net)?;
        Ok(World {
            net,
            r,
            wallet,
            birthday,
            nodes: vec![Node { parent: None, height: 0, block: genesis, txs: vec![] }],
            txs: vec![],
            tip: 0,
            owned: Default::default(),
            recorded: Default::default(),
            anchors: Default::default(),
            log: vec![],
            contested: false,
            reorgs: 0,
            late: false,
            gap: gen::height(s, 1),
        })
    }

    fn path(&self, mut n: usize) -> Vec<usize> {
        let mut v = vec![n];
        while let Some(p) = self.nodes[n].parent {
            v.push(p);
            n = p;
        }
        v.reverse();
        v
    }

    /// A block on top of one of the nodes, with transactions that are valid there.
    fn grow(&mut self, s: &mut Src) -> usize {
        let parent = match s.weighted(&[3, 2]) {
            0 => self.tip,
            _ => s.below(self.nodes.len() as u64) as usize,
        };
        let branch = self.path(parent);
        let mut coins: BTreeMap<OutPoint, TxOut> = BTreeMap::new();
        let mut here = BTreeSet::new();
        let add = |coins: &mut BTreeMap<OutPoint, TxOut>, tx: &Transaction| {
            for i in &tx.input {
                coins.remove(&i.previous_output);
            }
            let id = tx.compute_txid();
            for (v, o) in tx.output.iter().enumerate() {
                coins.insert(OutPoint::new(id, v as u32), o.clone());
            }
        };
        let mut spent_fresh = BTreeSet::new();
        for n in &branch {
            for t in &self.nodes[*n].txs {
                here.insert(*t);
                let tx = &self.txs[*t].tx;
                spent_fresh.extend(tx.input.iter().map(|i| i.previous_output));
                add(&mut coins, tx);
            }
        }
        let mut txs = vec![];
        for _ in 0..s.size(0, 4) {
            // mined again from another branch
            let again: Vec<usize> = (0..self.txs.len())
                .filter(|t| {
                    !here.contains(t)
                        && self.txs[*t].tx.input.iter().all(|i| {
                            let o = i.previous_output;
                            let known = self.txs.iter().any(|x| x.tx.compute_txid() == o.txid);
                            if known {
                                coins.contains_key(&o)
                            } else {
                                !spent_fresh.contains(&o)
                            }
                        })
                })
                .collect();
            let t = if !again.is_empty() && s.chance(1, 3) {
                *s.pick(&again)
            } else {
                self.new_tx(s, &coins, &spent_fresh)
            };
            if !here.insert(t) {
                continue;
            }
            let tx = self.txs[t].tx.clone();
            spent_fresh.extend(tx.input.iter().map(|i| i.previous_output));
            add(&mut coins, &tx);
            txs.push(t);
        }
        let height = self.nodes[parent].height + 1 + if parent == 0 { self.gap } else { 0 };
        let mut body = vec![coinbase(height, vec![])];
        body.extend(txs.iter().map(|t| self.txs[*t].tx.clone()));
        let b = block(
            self.nodes[parent].block.block_hash(),
            1_600_000_000 + s.below(100_000) as u32,
            self.nodes.len() as u32,
            body,
        );
        self.log.push(format!("block {} on {parent}: {txs:?}", self.nodes.len()));
        self.nodes.push(Node { parent: Some(parent), height, block: b, txs });
        self.nodes.len() - 1
    }

    fn new_tx(&mut self, s: &mut Src, coins: &BTreeMap<OutPoint, TxOut>, spent: &BTreeSet<OutPoint>) -> usize {
        let mut ins: Vec<bitcoin::TxIn> = vec![];
        let all: Vec<OutPoint> = coins.keys().cloned().collect();
        let ours: Vec<OutPoint> = all.iter().filter(|o| self.is_ours(&coins[o])).cloned().collect();
        for _ in 0..s.size(1, 3) {
            let o = match s.weighted(&[3, 4, 2]) {
                1 if !ours.is_empty() => *s.pick(&ours),
                2 if !all.is_empty() => *s.pick(&all),
                _ => OutPoint::new(bitcoin::hashes::Hash::from_byte_array([s.below(12) as u8; 32]), s.below(3) as u32),
            };
            if ins.iter().all(|i| i.previous_output != o) && !spent.contains(&o) {
                ins.push(input(s, o));
            }
        }
        let many = if s.chance(1, 40) { s.below(40) } else { 0 };
        if ins.is_empty() || many > 0 {
            for _ in 0..=many {
                let o = OutPoint::new(bitcoin::hashes::Hash::from_byte_array(s.bytes32()), 9);
                ins.push(input(s, o));
            }
            s.shuffle(&mut ins);
        }
        // what the inputs are decides the tweak, so that a replacement pays the same scripts
        let small = bip352::smallest(ins.iter().map(|i| &i.previous_output)).unwrap();
        let tweak = pt_g(sc(&sha(&[b"tweak", &small]))).unwrap();
        let mut outs = vec![];
        if s.chance(3, 4) {
            let labels: Vec<Option<u32>> = (0..s.size(0, 3))
                .map(|_| match s.weighted(&[3, 2, 2]) {
                    0 => None,
                    1 => Some(0),
                    _ => Some(s.below(4) as u32),
                })
                .collect();
            let mut r = self.r.clone();
            r.labels = vec![0, 1, 2, 3];
            outs.extend(pay(s, &r, &tweak, &labels));
            for o in &mut outs {
                o.value = small_amount(s);
            }
        }
        for _ in 0..s.size(0, 2) {
            let mut o = gen::foreign_output(s);
            o.value = small_amount(s);
            outs.push(o);
        }
        if outs.is_empty() {
            outs.push(TxOut { value: small_amount(s), script_pubkey: p2tr(&xonly(&g())) });
        }
        s.shuffle(&mut outs);
        let tx = gen::tx(ins, outs);
        if let Some(i) = self.txs.iter().position(|t| t.tx.compute_txid() == tx.compute_txid()) {
            return i;
        }
        self.txs.push(Tx { tx, tweak });
        self.txs.len() - 1
    }

    fn is_ours(&self, out: &TxOut) -> bool {
        self.owned.values().any(|o| o.out.script_pubkey == out.script_pubkey)
    }

    fn show_block(&mut self, n: usize) -> R {
        let b = self.nodes[n].block.clone();
        let mut r = self.r.clone();
        r.labels = vec![0, 1, 2, 3];
        // servers give no tweaks for some of the transactions that pay nothing to silent payment codes
        let secrets: HashMap<Txid, PublicKey> = self.nodes[n]
            .txs
            .iter()
            .map(|t| &self.txs[*t])
            .filter(|t| t.tx.compute_txid()[0] % 2 == 0 || !bip352::scan(&r, &t.tx, &t.tweak).owned.is_empty())
            .map(|t| (t.tx.compute_txid(), t.tweak))
            .collect();
        let h = self.nodes[n].height;
        self.log.push(format!("apply {n}"));
        guarded(|| self.wallet.apply_block_relevant(&b, secrets, h))?;
        for t in self.nodes[n].txs.clone() {
            let Tx { tx, tweak } = &self.txs[t];
            let txid = tx.compute_txid();
            for o in bip352::scan(&self.r, tx, tweak).owned {
                self.owned.insert(o.outpoint, o);
            }
            let pays = self.owned.keys().any(|o| o.txid == txid);
            let spends = tx.input.iter().any(|i| self.owned.contains_key(&i.previous_output));
            if pays || spends {
                self.recorded.insert(txid, tx.clone());
                self.anchors.insert((n, txid));
            }
        }
        Ok(())
    }

    fn set_tip(&mut self, s: &mut Src, n: usize) -> R {
        let path = self.path(n);
        let now = self.path(self.tip);
        let common = path.iter().zip(&now).take_while(|(a, b)| a == b).count();
        let sparse = s.chance(1, 3);
        let hole = |h: usize| h < now.len() && self.wallet.chain().get(h as u32).is_none();
        if (common < path.len() && hole(common)) || (common == path.len() && hole(common - 1)) {
            // an earlier update left out the block with which this one disagrees or where it ends: it
            // would not connect
            return Ok(());
        }
        let ids: Vec<BlockId> = path
            .iter()
            .enumerate()
            .filter(|(i, b)| {
                // what is needed to connect, and the blocks that matter
                !sparse
                    || *i <= common
                    || *i + 1 == path.len()
                    || !self.nodes[**b].txs.is_empty()
                    || self.wallet.chain().get(*i as u32).is_some()
            })
            .map(|(_, b)| BlockId { height: self.nodes[*b].height, hash: self.nodes[*b].block.block_hash() })
            .collect();
        let cp = CheckPoint::from_block_ids(ids).expect("ascending");
        self.log.push(format!("chain to {n}"));
        let ids = cp.iter().map(|c| c.height()).collect::<Vec<_>>();
        let r = guarded(|| self.wallet.update_chain(cp));
        r.map_err(|f| self.at()(f)).map_err(|f| Fail { sig: f.sig, msg: format!("{} heights {ids:?}", f.msg) })?;
        // an update that ends below on the same chain takes nothing back
        if !now.contains(&n) {
            if !path.contains(&self.tip) {
                self.reorgs += 1;
            }
            self.tip = n;
        }
        Ok(())
    }

    fn label(&mut self, m: u32) -> R {
        self.log.push(format!("label {m}"));
        let got = guarded(|| self.wallet.get_labelled_address(m))?;
        let Ok(got) = got else { return fail("labelled address", format!("{m}: {got:?}")) };
        ensure_eq!(got.to_string(), code(&self.r, Some(m), self.net).to_string(), "labelled address");
        if !self.r.labels.contains(&m) {
            self.r.labels.push(m);
            self.late |= !self.recorded.is_empty();
            // outputs of what was shown before may be found or not with the new label
            let got: BTreeSet<OutPoint> = self.wallet.indexer().index().by_shared_secret.keys().cloned().collect();
            ensure!(self.owned.keys().all(|o| got.contains(o)), "owned output lost with a label", "{m}");
            for t in &self.txs {
                for o in bip352::scan(&self.r, &t.tx, &t.tweak).owned {
                    if got.contains(&o.outpoint) {
                        self.owned.insert(o.outpoint, o);
                    }
                }
            }
        }
        Ok(())
    }

    fn step(&mut self, s: &mut Src) -> R {
        match s.weighted(&[4, 2, 1, 1]) {
            0 => {
                let n = if self.nodes.len() < 10 { self.grow(s) } else { s.below(self.nodes.len() as u64) as usize };
                let order = s.below(4);
                if order != 1 && n > 0 {
                    self.show_block(n)?;
                }
                if order != 2 {
                    self.set_tip(s, n)?;
                }
                if order == 1 && n > 0 {
                    self.show_block(n)?;
                }
                Ok(())
            }
            1 => {
                let n = s.below(self.nodes.len() as u64) as usize;
                self.set_tip(s, n)
            }
            2 => {
                let n = s.below(self.nodes.len() as u64) as usize;
                if n == 0 {
                    return Ok(());
                }
                self.show_block(n)
            }
            _ => {
                let m = 1 + s.below(3) as u32;
                self.label(m)
            }
        }
    }

    /// The transactions in the best chain with their blocks, and those they build on.
    fn confirmed(&self) -> BTreeMap<Txid, Option<usize>> {
        let best = self.path(self.tip);
        let mut v: BTreeMap<Txid, Option<usize>> =
            self.anchors.iter().filter(|(n, _)| best.contains(n)).map(|(n, t)| (*t, Some(*n))).collect();
        let mut todo: Vec<Txid> = v.keys().cloned().collect();
        while let Some(t) = todo.pop() {
            for i in &self.recorded[&t].input {
                let p = i.previous_output.txid;
                if self.recorded.contains_key(&p) && !v.contains_key(&p) {
                    v.insert(p, None);
                    todo.push(p);
                }
            }
        }
        v
    }

    fn check(&mut self) -> R {
        let w = &self.wallet;
        ensure_eq!(w.chain().tip().hash(), self.nodes[self.tip].block.block_hash(), "tip");
        ensure_eq!(w.chain().tip().height(), self.nodes[self.tip].height, "tip height");
        let confirmed = self.confirmed();
        // which transactions count: those of the best chain, and of the others as many as go together
        let listed: Vec<_> = guarded(|| w.canonical_txs().collect::<Vec<_>>())?;
        let mut count: BTreeMap<Txid, &Transaction> = BTreeMap::new();
        for (tx, status) in &listed {
            let id = tx.compute_txid();
            ensure!(count.insert(id, tx.as_ref()).is_none(), "listed twice", "{id}");
            ensure!(self.recorded.contains_key(&id), "unrelated transaction listed", "{id}");
            match (confirmed.get(&id), status) {
                (None, None) => (),
                (Some(n), Some(st)) => {
                    if let Some(n) = n {
                        ensure_eq!(st.height.to_consensus_u32(), self.nodes[*n].height, "height of a transaction");
                        ensure_eq!(st.time.to_consensus_u32(), self.nodes[*n].block.header.time, "time of a transaction");
                    }
                }
                (c, st) => return fail("confirmation", format!("{id}: expected block {c:?}, status {st:?}")),
            }
        }
        for id in confirmed.keys() {
            ensure!(count.contains_key(id), "confirmed transaction not listed", "{id}");
        }
        let mut spent: BTreeMap<OutPoint, Txid> = BTreeMap::new();
        for (id, tx) in &count {
            for i in &tx.input {
                ensure!(spent.insert(i.previous_output, *id).is_none(), "listed transactions conflict", "{id}");
            }
        }
        for (id, tx) in &self.recorded {
            if !count.contains_key(id) {
                let out = tx.input.iter().any(|i| {
                    let o = i.previous_output;
                    spent.contains_key(&o) || (self.recorded.contains_key(&o.txid) && !count.contains_key(&o.txid))
                });
                ensure!(out, "transaction left out", "{id}");
                self.contested = true;
            }
        }
        // the coins among their outputs
        let coins: BTreeMap<OutPoint, &Owned> = self
            .owned
            .iter()
            .filter(|(o, _)| count.contains_key(&o.txid) && !spent.contains_key(o))
            .map(|(o, x)| (*o, x))
            .collect();
        let sum = |f: &dyn Fn(&Owned) -> bool| coins.values().filter(|o| f(o)).map(|o| o.out.value).sum::<Amount>();
        let is_confirmed = |o: &Owned| confirmed.contains_key(&o.outpoint.txid);
        let b = guarded(|| w.balance())?;
        ensure_eq!(b.confirmed, sum(&|o| is_confirmed(o)), "confirmed balance");
        ensure_eq!(b.trusted_pending, sum(&|o| !is_confirmed(o) && o.label == Some(0)), "pending change");
        ensure_eq!(b.untrusted_pending, sum(&|o| !is_confirmed(o) && o.label != Some(0)), "pending payments");
        ensure_eq!(b.immature, Amount::ZERO, "immature balance");
        let mut spks: Vec<Vec<u8>> = guarded(|| w.unspent_spks())?.into_iter().map(|x| x.to_vec()).collect();
        spks.sort();
        let mut want: Vec<Vec<u8>> = coins.values().map(|o| o.out.script_pubkey.to_bytes()).collect();
        want.sort();
        let show = |v: &Vec<Vec<u8>>| v.iter().map(|x| hex(&x[..6])).collect::<Vec<_>>();
        ensure!(spks == want, "unspent scripts", "got {:?}, expected {:?}", show(&spks), show(&want));
        let cand = guarded(|| w.all_candidates())?;
        ensure!(cand.must.is_empty(), "candidates that must be spent", "");
        let got: BTreeMap<OutPoint, TxOut> = cand.can.iter().map(|i| (i.outpoint, i.txout.clone())).collect();
        ensure_eq!(got.len(), cand.can.len(), "candidate listed twice");
        let want: BTreeMap<OutPoint, TxOut> = coins.values().map(|o| (o.outpoint, o.out.clone())).collect();
        ensure_eq!(got, want, "candidates");
        for i in &cand.can {
            ensure_eq!(i.status.is_some(), confirmed.contains_key(&i.outpoint.txid), "confirmation of a candidate");
        }
        check_index(w.indexer().index(), &self.r, &self.owned)?;
        Ok(())
    }

    fn at(&self) -> impl Fn(Fail) -> Fail {
        let log = self.log.join(", ");
        move |f| Fail { sig: f.sig, msg: format!("after {log}: {}", f.msg) }
    }

    fn labels(&self, cx: &mut Cx) {
        if !self.owned.is_empty() {
            cx.nontrivial();
        }
        cx.label_if(self.reorgs > 0, "reorganisation");
        cx.label_if(self.contested, "conflicting transactions");
        cx.label_if(self.late, "label after payments");
        let scripts: BTreeSet<_> = self.owned.values().map(|o| &o.out.script_pubkey).collect();
        cx.label_if(scripts.len() < self.owned.len(), "script paid twice");
        cx.label_if(self.wallet.balance().confirmed > Amount::ZERO, "confirmed balance at the end");
    }
}

fn balance(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(s)?;
    for m in 1..=s.size(0, 3) {
        w.label(m as u32)?;
    }
    for _ in 0..gen::several(s, 1, 14, 60) {
        w.step(s)?;
        let at = w.at();
        w.check().map_err(at)?;
    }
    w.labels(cx);
    cx.note(|| w.log.join(", "));
    Ok(())
}

fn pinned_twice() -> R {
    // a payment confirmed, and the one it replaced seen later in a stale block
    let mut s = Src::replay(vec![]);
    let mut w = World::new(&mut s)?;
    let tweak = pt_g(Some(sk_small(77))).unwrap();
    let o = OutPoint::new(bitcoin::hashes::Hash::from_byte_array([3; 32]), 0);
    for n in 1..3usize {
        let mut outs = pay(&mut s, &w.r.clone(), &tweak, &[None]);
        outs[0].value = Amount::from_sat(1000 + n as u64);
        let i = input(&mut s, o);
        w.txs.push(Tx { tx: gen::tx(vec![i], outs), tweak });
        let body = vec![coinbase(1, vec![]), w.txs[n - 1].tx.clone()];
        let b = block(w.nodes[0].block.block_hash(), 1_600_000_001, n as u32, body);
        w.nodes.push(Node { parent: Some(0), height: 1, block: b, txs: vec![n - 1] });
    }
    w.show_block(1)?;
    w.set_tip(&mut s, 1)?;
    w.check()?;
    w.show_block(2)?;
    w.check()
}

// ------------------------------------------------------------------------------------------------ restoring

fn same(a: &SpWallet, b: &SpWallet, labels: &[u32]) -> R {
    ensure_eq!(a.birthday, b.birthday, "birthday");
    ensure_eq!(a.network(), b.network(), "network");
    ensure_eq!(a.get_address().to_string(), b.get_address().to_string(), "address");
    let points = |w: &SpWallet| w.chain().iter_checkpoints().map(|c| c.block_id()).collect::<Vec<_>>();
    ensure_eq!(points(a), points(b), "chain");
    for m in labels {
        ensure_eq!(a.indexer().index().get_label(*m), b.indexer().index().get_label(*m), "label");
    }
    ensure_eq!(a.balance(), b.balance(), "balance");
    let spks = |w: &SpWallet| {
        let mut v = w.unspent_spks();
        v.sort();
        v
    };
    ensure!(spks(a) == spks(b), "unspent scripts", "");
    let coins = |w: &SpWallet| w.all_candidates().can.iter().map(|i| i.outpoint).collect::<BTreeSet<_>>();
    ensure_eq!(coins(a), coins(b), "candidates");
    let txs = |w: &SpWallet| w.canonical_txs().map(|(t, s)| (t.compute_txid(), s.map(|s| s.height))).collect::<BTreeSet<_>>();
    ensure_eq!(txs(a), txs(b), "transactions");
    Ok(())
}

fn save(s: &mut Src, w: &mut SpWallet, all: &mut ChangeSet) -> R {
    let staged = w.staged().cloned();
    let mutable = w.staged_mut().map(|c| c.clone());
    ensure!(staged == mutable, "staged and staged_mut", "{staged:?} / {mutable:?}");
    let taken = w.take_staged();
    ensure!(taken == staged, "taken and staged", "{taken:?} / {staged:?}");
    ensure!(w.staged().is_none() && w.take_staged().is_none() && w.staged_mut().is_none(), "left after taking", "");
    if let Some(c) = taken {
        ensure!(!c.is_empty(), "an empty change set staged", "{c:?}");
        let format = s.below(3);
        let back = store(format, &c)?;
        ensure!(back == c, "stored change set", "{back:?} / {c:?}");
        all.merge(back);
    }
    Ok(())
}

fn restore(all: &ChangeSet) -> Result<SpWallet, Fail> {
    match guarded(|| SpWallet::try_from(all.clone()))? {
        Ok(w) => Ok(w),
        Err(()) => fail("not restored", format!("{all:?}")),
    }
}

fn restoring(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(s)?;
    let mut all = ChangeSet::default();
    ensure!(all.is_empty(), "default change set not empty", "");
    ensure!(guarded(|| SpWallet::try_from(ChangeSet::default()))?.is_err(), "restored from nothing", "");
    let mut taken = 0;
    for _ in 0..gen::several(s, 1, 10, 50) {
        w.step(s)?;
        if s.chance(1, 2) {
            save(s, &mut w.wallet, &mut all)?;
            taken += 1;
        }
    }
    save(s, &mut w.wallet, &mut all)?;
    let at = w.at();
    let mut back = restore(&all)?;
    ensure_eq!(back.birthday, w.birthday, "birthday");
    ensure_eq!(back.network(), w.net, "network");
    same(&w.wallet, &back, &[0, 1, 2, 3]).map_err(&at)?;
    ensure_eq!(back.get_change_address().to_string(), code(&w.r, Some(0), w.net).to_string(), "change address");
    check_index(back.indexer().index(), &w.r, &w.owned).map_err(&at)?;
    // without network or keys nothing is restored
    let mut v = serde_json::to_value(&all).unwrap();
    if let Some(o) = v.as_object_mut() {
        match s.below(3) {
            0 => o["network"] = serde_json::Value::Null,
            1 => o["indexer"]["scan_sk"] = serde_json::Value::Null,
            _ => o["indexer"]["spend_pk"] = serde_json::Value::Null,
        }
    }
    if let Ok(part) = serde_json::from_value::<ChangeSet>(v) {
        ensure!(guarded(|| SpWallet::try_from(part))?.is_err(), "restored without network or keys", "");
    }
    // the restored wallet goes on like the live one, its own changes included
    let mut rest = all.clone();
    if s.chance(1, 2) {
        // what it has may be staged again
        if let Some(c) = back.take_staged() {
            rest.merge(c);
        }
    }
    let old = std::mem::replace(&mut w.wallet, back);
    let mut live = old;
    for _ in 0..s.size(0, 4) {
        // the same block or chain for both: run the step on the restored one, replay it on the live one
        let nodes = w.nodes.len();
        let n = w.grow(s);
        debug_assert!(n == nodes);
        let now = w.path(w.tip);
        let common = w.path(n).iter().zip(&now).take_while(|(a, b)| a == b).count();
        if common < now.len() && live.chain().get(common as u32).is_none() {
            continue;
        }
        let (b, h) = (w.nodes[n].block.clone(), w.nodes[n].height);
        let secrets: HashMap<Txid, PublicKey> =
            w.nodes[n].txs.iter().map(|t| (w.txs[*t].tx.compute_txid(), w.txs[*t].tweak)).collect();
        guarded(|| live.apply_block_relevant(&b, secrets, h))?;
        let ids: Vec<BlockId> =
            w.path(n).iter().map(|b| BlockId { height: w.nodes[*b].height, hash: w.nodes[*b].block.block_hash() }).collect();
        guarded(|| live.update_chain(CheckPoint::from_block_ids(ids).expect("ascending")))?;
        w.show_block(n)?;
        w.set_tip(&mut Src::replay(vec![]), n)?;
        let at = w.at();
        w.check().map_err(&at)?;
        let (x, y) = (&live, &w.wallet);
        ensure_eq!(x.balance(), y.balance(), "balance of the continued wallet");
        if s.chance(1, 2) {
            save(s, &mut w.wallet, &mut rest)?;
        }
    }
    save(s, &mut w.wallet, &mut rest)?;
    let at = w.at();
    same(&w.wallet, &restore(&rest)?, &[0, 1, 2, 3]).map_err(at)?;
    w.labels(cx);
    cx.note(|| format!("taken {taken} times; {}", w.log.join(", ")));
    Ok(())
}

fn pinned_birthday() -> R {
    let mut s = Src::replay(vec![]);
    let x = xpriv(&mut s, Network::Regtest);
    let hash: BlockHash = bitcoin::hashes::Hash::from_byte_array([1; 32]);
    let mut w = new_wallet(BlockId { height: 100, hash }, hash, &format!("tr({x})"), Network::Regtest)?;
    let mut all = ChangeSet::default();
    all.merge(w.take_staged().unwrap_or_default());
    ensure_eq!(restore(&all)?.birthday, w.birthday, "birthday");
    let _ = w.get_labelled_address(1);
    all.merge(w.take_staged().unwrap_or_default());
    ensure_eq!(restore(&all)?.birthday, w.birthday, "birthday");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ keys and addresses

fn keys(s: &mut Src, cx: &mut Cx) -> R {
    let net = network(s);
    let x = xpriv(s, net);
    let mut r = receiver_of(&x, net);
    let genesis: BlockHash = bitcoin::hashes::Hash::from_byte_array(s.bytes32());
    let birthday = BlockId { height: s.u32(), hash: genesis };
    let desc = format!("tr({x})");
    let mut w = new_wallet(birthday, genesis, &desc, net)?;
    ensure_eq!(w.birthday, birthday, "birthday");
    ensure_eq!(w.network(), net, "network");
    ensure_eq!(w.chain().genesis_hash(), genesis, "genesis");
    ensure!(*w.indexer().scan_sk() == r.scan_sk, "scan key", "");
    ensure_eq!(*w.indexer().spend_pk(), r.spend_pk(), "spend key");
    ensure_eq!(w.get_address().to_string(), code(&r, None, net).to_string(), "address");
    let spend = guarded(|| get_spend_sk(&desc, net))?;
    ensure!(spend == r.spend_sk, "spend key of the descriptor", "{net}");
    ensure!(w.indexer().index().get_label(0).is_some(), "change label missing", "");
    for _ in 0..gen::several(s, 0, 6, 20) {
        let m = gen::label_number(s);
        let got = guarded(|| w.get_labelled_address(m))?;
        match got {
            Ok(a) => {
                ensure!(m != 0, "reserved label handed out", "{a}");
                ensure_eq!(a.to_string(), code(&r, Some(m), net).to_string(), "labelled address");
                if !r.labels.contains(&m) {
                    r.labels.push(m);
                }
            }
            Err(SpWalletError::ReservedLabel) => ensure!(m == 0, "label refused", "{m}"),
            Err(e) => return fail("label refused", format!("{m}: {e:?}")),
        }
        ensure_eq!(w.get_change_address().to_string(), code(&r, Some(0), net).to_string(), "change address");
        ensure_eq!(w.get_address().to_string(), code(&r, None, net).to_string(), "address");
    }

    // payments to the addresses are found, and the keys listed open them
    let mut txs = vec![coinbase(1, vec![])];
    let mut secrets = HashMap::new();
    let mut want: BTreeMap<XOnlyPublicKey, SecretKey> = BTreeMap::new();
    for _ in 0..s.size(0, 3) {
        let tweak = pt_g(Some(gen::secret(s))).unwrap();
        let labels: Vec<Option<u32>> =
            (0..s.size(0, 4)).map(|_| if s.chance(1, 3) { None } else { Some(*s.pick(&r.labels)) }).collect();
        let mut outs = pay(s, &r, &tweak, &labels);
        outs.push(gen::foreign_output(s));
        s.shuffle(&mut outs);
        let i = fresh_input(s);
        let tx = gen::tx(vec![i], outs);
        for o in bip352::scan(&r, &tx, &tweak).owned {
            let sk = sc_add(Some(r.spend_sk), Some(o.tweak)).expect("not zero");
            let x = XOnlyPublicKey::from_slice(&o.out.script_pubkey.as_bytes()[2..]).unwrap();
            assert_eq!(x.serialize(), xonly(&pt_g(Some(sk)).unwrap()));
            want.insert(x, sk);
        }
        secrets.insert(tx.compute_txid(), tweak);
        txs.push(tx);
    }
    let b = block(genesis, 1_600_000_000, 1, txs);
    guarded(|| w.apply_block_relevant(&b, secrets, 1))?;
    let map = guarded(|| populate_sp_keymap(&spend, w.indexer().index(), net))?;
    let got: BTreeMap<XOnlyPublicKey, SecretKey> = map.iter().map(|(k, v)| (*k, v.inner)).collect();
    ensure_eq!(got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>(), "keys listed");
    ensure!(got == want, "secrets of the keys listed", "");
    for v in map.values() {
        ensure!(v.network == net.into() && v.compressed, "form of the keys listed", "{:?}", v.network);
    }

    // other descriptors
    let xpub = Xpub::from_priv(secp(), &x);
    let refused = |d: String| guarded(|| SpWallet::new(birthday, genesis, &d, net).err());
    for d in [format!("wpkh({x})"), format!("pkh({x})"), format!("sh(wpkh({x}))"), format!("wpkh({xpub})")] {
        let e = refused(d.clone())?;
        ensure!(matches!(e, Some(SpWalletError::NonTaprootDescriptor)), "not refused as it should", "{d}: {e:?}");
    }
    let e = refused(format!("tr({xpub})"))?;
    ensure!(matches!(e, Some(SpWalletError::PrivateDataNotAvailable)), "not refused as it should", "{e:?}");
    if !want.is_empty() {
        cx.nontrivial();
    }
    cx.label_if(net == Network::Bitcoin, "main network");
    cx.label_if(r.labels.len() > 1, "labels");
    cx.note(|| format!("{net}, labels {:?}, {} outputs", r.labels, want.len()));
    Ok(())
}
