//! C22 to C25: the indexer.
use crate::common::*;
use bdk_sp::receive::scan::Scanner;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Block, Network, OutPoint, ScriptBuf, Transaction, Txid, XOnlyPublicKey};
use engine::*;
use indexer::bdk_chain::{tx_graph, Anchor, BlockId, ConfirmationBlockTime, Merge, TxPosInBlock};
use indexer::v2::indexes::{Label, SpIndex};
use indexer::v2::{ChangeSet, SpIndexerV2};
use indexer::SpIndexes;
use refmodel::bip352::{Owned, Receiver};
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::Arc;

type A = ConfirmationBlockTime;
type Ix = SpIndexerV2<A>;
type Cs = ChangeSet<A>;

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C22",
            "histories of up to 74 calls (mostly 14) (labels, blocks, batches, anchors, seen and evicted times) over up to 12 transactions paying, spending, replacing and unrelated; non-trivial when an output is owned",
            12_000,
            120_000,
            tracking,
        ),
        Prop::new(
            "C23",
            "the histories of C22 with every change set saved in any grouping, in json and bincode, restored at a random point and continued; non-trivial when an output is owned at that point",
            24_000,
            240_000,
            restoring,
        )
        .pinned(&[("label_of_an_address", pinned_address_label), ("late_label", pinned_late_label)]),
        Prop::new(
            "C24",
            "three change sets of up to 4 entries per part, overlapping and conflicting, in json and bincode; non-trivial when two of them overlap",
            120_000,
            1_200_000,
            changesets,
        )
        .pinned(&[("keys_only", pinned_keys_only), ("label_json", pinned_label_json)]),
        Prop::new(
            "C25",
            "sequences of up to 8 label additions and address requests in any order and repeated, and payments to the addresses; non-trivial when a number is used twice",
            24_000,
            400_000,
            labels,
        ),
    ]
}

// ------------------------------------------------------------------------------------------------ histories

#[derive(Clone, Debug)]
pub enum Op {
    Label(u32),
    Address(u32),
    /// 0 relevant, 1 everything, 2 with a filter of our own, 3 with one that keeps the paying transactions
    Block(u8, u32, Block, Vec<(Txid, PublicKey)>),
    Anchored(Vec<(Transaction, PublicKey, Vec<A>)>),
    UnconfirmedRelevant(Vec<(Transaction, PublicKey, u64)>),
    Unconfirmed(Vec<(Transaction, PublicKey, u64)>),
    IndexOnly(Transaction, PublicKey),
    Anchor(Txid, A),
    SeenAt(Txid, u64),
    EvictedAt(Txid, u64),
    EvictedRelevant(Vec<(Txid, u64)>),
}

fn show(o: &Op) -> String {
    match o {
        Op::Label(m) => format!("label {m}"),
        Op::Address(m) => format!("address {m}"),
        Op::Block(f, h, b, p) => format!("block({f}) {h} of {} with {} tweaks", b.txdata.len(), p.len()),
        Op::Anchored(v) => format!("{} anchored", v.len()),
        Op::UnconfirmedRelevant(v) => format!("{} unconfirmed relevant", v.len()),
        Op::Unconfirmed(v) => format!("{} unconfirmed", v.len()),
        Op::IndexOnly(..) => "index".into(),
        Op::Anchor(..) => "anchor".into(),
        Op::SeenAt(..) => "seen".into(),
        Op::EvictedAt(..) => "evicted".into(),
        Op::EvictedRelevant(v) => format!("{} evicted", v.len()),
    }
}

pub struct World {
    pub r: Receiver,
    pub pool: Vec<u32>,
    /// transactions with the tweak published for them
    pub txs: Vec<(Transaction, PublicKey)>,
    secrets: Vec<SecretKey>,
}

impl World {
    fn new_tx(&mut self, s: &mut Src) {
        let secret = if !self.secrets.is_empty() && s.chance(1, 8) { *s.pick(&self.secrets) } else { gen::secret(s) };
        let tweak = pt_g(Some(secret)).unwrap();
        let mut ins = vec![];
        for _ in 0..s.size(1, 3) {
            let o = if !self.txs.is_empty() && s.chance(1, 2) {
                let t = &s.pick(&self.txs).0;
                OutPoint::new(t.compute_txid(), s.below(t.output.len() as u64) as u32)
            } else {
                gen::outpoint(s)
            };
            if ins.iter().all(|i: &bitcoin::TxIn| i.previous_output != o) {
                ins.push(input(s, o));
            }
        }
        let many = |s: &mut Src| if s.chance(1, 60) { s.below(60) } else { 0 };
        for _ in 0..many(s) {
            let o = gen::outpoint(s);
            if ins.iter().all(|i: &bitcoin::TxIn| i.previous_output != o) {
                ins.insert(0, input(s, o));
            }
        }
        let mut outs = vec![];
        for _ in 0..if s.chance(1, 300) { 260 } else { many(s) } {
            outs.push(gen::foreign_output(s));
        }
        if s.chance(3, 4) {
            let most = if s.chance(1, 30) { 12 } else { 4 };
            let labels: Vec<Option<u32>> = (0..s.size(0, most))
                .map(|_| if s.chance(1, 2) { None } else { Some(*s.pick(&self.pool)) })
                .collect();
            outs.extend(pay(s, &self.r, &tweak, &labels));
            if s.chance(1, 10) && !outs.is_empty() {
                let at = s.below(outs.len() as u64) as usize;
                outs.remove(at);
            }
        }
        for _ in 0..s.size(0, 3) {
            outs.push(gen::foreign_output(s));
        }
        if outs.is_empty() {
            outs.push(gen::foreign_output(s));
        }
        s.shuffle(&mut outs);
        self.txs.push((gen::tx(ins, outs), tweak));
        self.secrets.push(secret);
    }

    /// Some transactions, in an order in which they can be in a block.
    fn some(&mut self, s: &mut Src, max: usize) -> Vec<usize> {
        let mut v = vec![];
        for _ in 0..s.size(0, max) {
            if self.txs.is_empty() || (self.txs.len() < 12 && s.chance(2, 3)) {
                self.new_tx(s);
                v.push(self.txs.len() - 1);
            } else {
                v.push(s.below(self.txs.len() as u64) as usize);
            }
        }
        v.sort();
        v.dedup();
        v
    }
}

fn anchor(s: &mut Src) -> A {
    let height = gen::height(s, 20);
    let mut h = [0u8; 32];
    h[..4].copy_from_slice(&height.to_le_bytes());
    h[4] = s.below(3) as u8;
    A {
        block_id: BlockId { height, hash: bitcoin::hashes::Hash::from_byte_array(h) },
        confirmation_time: if s.chance(1, 4) { u32::MAX as u64 - 500 } else { 1_600_000_000 } + s.below(1000),
    }
}

/// Times are anything, and close together more often than not.
fn seconds(s: &mut Src) -> u64 {
    let low = s.below(100);
    match s.weighted(&[4, 1, 1]) {
        0 => low,
        1 => 1_700_000_000 + low,
        _ => (u32::MAX as u64 - 50 + low) << s.below(2),
    }
}

fn gen_op(s: &mut Src, w: &mut World, index_only: bool) -> Op {
    match s.weighted(&[3, 6, 3, 3, 3, 1, 1, 1, 1, 1, if index_only { 2 } else { 0 }]) {
        0 => {
            let m = *s.pick(&w.pool);
            Op::Label(m)
        }
        1 => {
            let idx = w.some(s, 5);
            let mut txs = vec![coinbase(s.below(200) as u32, vec![])];
            let mut tweaks = vec![];
            for i in idx {
                txs.push(w.txs[i].0.clone());
                if s.chance(7, 8) {
                    tweaks.push((w.txs[i].0.compute_txid(), w.txs[i].1));
                }
            }
            if s.chance(1, 4) && !w.txs.is_empty() {
                // of a transaction that may not be in the block
                let t = s.pick(&w.txs);
                tweaks.push((t.0.compute_txid(), t.1));
            }
            let time = 1_600_000_000 + s.below(1000) as u32;
            let b = block(bitcoin::hashes::Hash::from_byte_array([s.below(3) as u8; 32]), time, s.below(1000) as u32, txs);
            Op::Block(s.weighted(&[4, 1, 1]) as u8, gen::height(s, 1000), b, tweaks)
        }
        2 => {
            let mut idx = w.some(s, 4);
            s.shuffle(&mut idx);
            Op::Anchored(
                idx.into_iter()
                    .map(|i| {
                        let a = (0..s.size(0, 2)).map(|_| anchor(s)).collect();
                        (w.txs[i].0.clone(), w.txs[i].1, a)
                    })
                    .collect(),
            )
        }
        k @ (3 | 4) => {
            let mut idx = w.some(s, 4);
            s.shuffle(&mut idx);
            let v = idx.into_iter().map(|i| (w.txs[i].0.clone(), w.txs[i].1, seconds(s))).collect();
            if k == 3 {
                Op::UnconfirmedRelevant(v)
            } else {
                Op::Unconfirmed(v)
            }
        }
        k => {
            if w.txs.is_empty() {
                w.new_tx(s);
            }
            let (tx, tweak) = s.pick(&w.txs).clone();
            let txid = tx.compute_txid();
            match k {
                5 => Op::Anchor(txid, anchor(s)),
                6 => Op::SeenAt(txid, seconds(s)),
                7 => Op::EvictedAt(txid, seconds(s)),
                8 => {
                    let mut v = vec![(txid, seconds(s))];
                    v.push((s.pick(&w.txs).0.compute_txid(), seconds(s)));
                    Op::EvictedRelevant(v)
                }
                9 => Op::Address(*s.pick(&w.pool)),
                _ => Op::IndexOnly(tx, tweak),
            }
        }
    }
}

fn keeps(tx: &Transaction) -> bool {
    tx.output.len() % 2 == 0
}

/// Carries the call out; the change set it gives.
fn apply(ix: &mut Ix, op: &Op) -> Result<Cs, Fail> {
    let op = op.clone();
    guarded(move || match op {
        Op::Label(m) => ix.add_label(m),
        Op::Address(m) => {
            let _ = ix.get_labeled_address(m, Network::Bitcoin);
            Cs::default()
        }
        Op::Block(f, h, b, p) => {
            let p: HashMap<_, _> = p.into_iter().collect();
            match f {
                0 => ix.apply_block_relevant(&b, p, h),
                1 => ix.apply_block(&b, p, h),
                2 => ix.apply_block_with_filter(&b, p, h, |_, tx| keeps(tx)),
                _ => ix.apply_block_with_filter(&b, p, h, |ix, tx| {
                    keeps(tx) || ix.index().txouts_in_tx(tx.compute_txid()).next().is_some()
                }),
            }
        }
        Op::Anchored(v) => ix.batch_insert_relevant(v),
        Op::UnconfirmedRelevant(v) => ix.batch_insert_relevant_unconfirmed(v),
        Op::Unconfirmed(v) => ix.batch_insert_unconfirmed(v),
        Op::IndexOnly(tx, p) => ix.index_tx(&tx, &p),
        Op::Anchor(t, a) => ix.insert_anchor(t, a),
        Op::SeenAt(t, a) => ix.insert_seen_at(t, a),
        Op::EvictedAt(t, a) => ix.insert_evicted_at(t, a),
        Op::EvictedRelevant(v) => ix.batch_insert_relevant_evicted_at(v),
    })
}

// ------------------------------------------------------------------------------------------------ model

struct Model {
    r: Receiver,
    owned: BTreeMap<OutPoint, Owned>,
    tweaks: BTreeMap<Txid, PublicKey>,
    /// transactions looked at so far with their tweaks
    looked: BTreeMap<Txid, (Transaction, PublicKey)>,
    graph: tx_graph::ChangeSet<A>,
    spends_only: bool,
    evicted: bool,
}

fn later(m: &mut BTreeMap<Txid, u64>, t: Txid, v: u64) {
    let e = m.entry(t).or_insert(v);
    *e = v.max(*e);
}

fn earlier(m: &mut BTreeMap<Txid, u64>, t: Txid, v: u64) {
    let e = m.entry(t).or_insert(v);
    *e = v.min(*e);
}

impl Model {
    fn new(r: &Receiver) -> Self {
        Model {
            r: r.clone(),
            owned: Default::default(),
            tweaks: Default::default(),
            looked: Default::default(),
            graph: Default::default(),
            spends_only: false,
            evicted: false,
        }
    }

    fn index(&mut self, tx: &Transaction, tweak: &PublicKey) {
        self.looked.insert(tx.compute_txid(), (tx.clone(), *tweak));
        let found = bip352::scan(&self.r, tx, tweak).owned;
        for o in found {
            self.tweaks.insert(tx.compute_txid(), *tweak);
            self.owned.insert(o.outpoint, o);
        }
    }

    fn relevant(&mut self, tx: &Transaction) -> bool {
        let txid = tx.compute_txid();
        let pays = self.owned.keys().any(|o| o.txid == txid);
        let spends = tx.input.iter().any(|i| self.owned.contains_key(&i.previous_output));
        self.spends_only |= spends && !pays;
        pays || spends
    }

    fn seen(&mut self, t: Txid, at: u64) {
        later(&mut self.graph.last_seen, t, at);
        earlier(&mut self.graph.first_seen, t, at);
    }

    fn insert(&mut self, tx: &Transaction) {
        self.graph.txs.insert(Arc::new(tx.clone()));
    }

    fn has(&self, t: &Txid) -> bool {
        self.graph.txs.iter().any(|x| x.compute_txid() == *t)
    }

    fn apply(&mut self, op: &Op) {
        match op {
            Op::Label(m) | Op::Address(m) => {
                if !self.r.labels.contains(m) {
                    self.r.labels.push(*m);
                }
            }
            Op::Block(f, h, b, p) => {
                let p: BTreeMap<_, _> = p.iter().cloned().collect();
                for tx in b.txdata.iter().skip(1) {
                    let txid = tx.compute_txid();
                    if let Some(t) = p.get(&txid) {
                        self.index(tx, t);
                    }
                    let keep = match f {
                        0 => self.relevant(tx),
                        1 => true,
                        _ => keeps(tx),
                    };
                    if keep {
                        self.insert(tx);
                        let a = A {
                            block_id: BlockId { height: *h, hash: b.block_hash() },
                            confirmation_time: b.header.time as u64,
                        };
                        self.graph.anchors.insert((a, txid));
                    }
                }
            }
            Op::Anchored(v) => {
                for (tx, t, _) in v {
                    self.index(tx, t);
                }
                for (tx, _, a) in v {
                    if self.relevant(tx) {
                        self.insert(tx);
                        for a in a {
                            self.graph.anchors.insert((*a, tx.compute_txid()));
                        }
                    }
                }
            }
            Op::UnconfirmedRelevant(v) | Op::Unconfirmed(v) => {
                for (tx, t, _) in v {
                    self.index(tx, t);
                }
                for (tx, _, at) in v {
                    if matches!(op, Op::Unconfirmed(_)) || self.relevant(tx) {
                        self.insert(tx);
                        self.seen(tx.compute_txid(), *at);
                    }
                }
            }
            Op::IndexOnly(tx, t) => self.index(tx, t),
            Op::Anchor(t, a) => {
                self.graph.anchors.insert((*a, *t));
            }
            Op::SeenAt(t, at) => self.seen(*t, *at),
            Op::EvictedAt(t, at) => later(&mut self.graph.last_evicted, *t, *at),
            Op::EvictedRelevant(v) => {
                for (t, at) in v {
                    if self.has(t) {
                        self.evicted = true;
                        later(&mut self.graph.last_evicted, *t, *at);
                    }
                }
            }
        }
    }

    /// After a label became known, what was found may be looked over again or not: anything in between is right.
    fn settle(&mut self, ix: &Ix) -> R {
        let mut most: BTreeMap<OutPoint, Owned> = self.owned.clone();
        for (tx, t) in self.looked.values() {
            for o in bip352::scan(&self.r, tx, t).owned {
                most.insert(o.outpoint, o);
            }
        }
        let got: BTreeSet<OutPoint> = ix.index().by_shared_secret.keys().cloned().collect();
        for o in self.owned.keys() {
            ensure!(got.contains(o), "owned output lost with a label", "{o}");
        }
        let mut now = BTreeMap::new();
        for o in got {
            let Some(x) = most.get(&o) else { return fail("output out of nowhere with a label", format!("{o}")) };
            now.insert(o, x.clone());
            if !self.tweaks.contains_key(&o.txid) {
                self.tweaks.insert(o.txid, self.looked[&o.txid].1);
            }
        }
        self.owned = now;
        Ok(())
    }

    fn check(&self, ix: &Ix) -> R {
        check_index(ix.index(), &self.r, &self.owned)?;
        ensure_eq!(&ix.index().txid_to_partial_secret, &self.tweaks, "tweaks of paying transactions");
        ensure_eq!(*ix.scan_sk(), self.r.scan_sk, "scan key");
        ensure_eq!(*ix.spend_pk(), self.r.spend_pk(), "spend key");
        let g = ix.graph().initial_changeset();
        let ids = |c: &tx_graph::ChangeSet<A>| c.txs.iter().map(|t| t.compute_txid()).collect::<BTreeSet<_>>();
        ensure_eq!(ids(&g), ids(&self.graph), "transactions in the graph");
        ensure!(g.txs == self.graph.txs, "transactions in the graph", "{:?} / {:?}", g.txs, self.graph.txs);
        ensure_eq!(&g.anchors, &self.graph.anchors, "anchors");
        ensure_eq!(&g.last_seen, &self.graph.last_seen, "last seen");
        ensure_eq!(&g.first_seen, &self.graph.first_seen, "first seen");
        ensure_eq!(&g.last_evicted, &self.graph.last_evicted, "last evicted");
        ensure_eq!(&g.txouts, &self.graph.txouts, "stray outputs in the graph");
        Ok(())
    }
}

pub fn check_index(ix: &SpIndex, r: &Receiver, owned: &BTreeMap<OutPoint, Owned>) -> R {
    let tweaks: BTreeMap<OutPoint, SecretKey> = owned.iter().map(|(o, x)| (*o, x.tweak)).collect();
    ensure_eq!(
        ix.by_shared_secret.keys().collect::<Vec<_>>(),
        tweaks.keys().collect::<Vec<_>>(),
        "owned outputs"
    );
    ensure!(ix.by_shared_secret == tweaks, "tweaks of owned outputs", "{:?} / {tweaks:?}", ix.by_shared_secret);
    let by_label: BTreeSet<_> = ix.by_label.iter().cloned().collect();
    ensure_eq!(by_label, owned.values().map(|o| (o.label, o.outpoint)).collect::<BTreeSet<_>>(), "outputs by label");
    let scripts: BTreeSet<&ScriptBuf> = owned.values().map(|o| &o.out.script_pubkey).collect();
    ensure_eq!(ix.by_script.keys().collect::<BTreeSet<_>>(), scripts, "scripts");
    for (k, o) in &ix.by_script {
        ensure!(owned.get(o).is_some_and(|x| x.out.script_pubkey == *k), "entry by script", "{k}: {o}");
    }
    let xonly: BTreeMap<XOnlyPublicKey, OutPoint> = guarded(|| ix.by_xonly().map(|(x, o)| (x, *o)).collect())?;
    for (x, o) in &xonly {
        ensure!(owned.get(o).is_some_and(|w| w.out.script_pubkey == p2tr(&x.serialize())), "entry by key", "{x}: {o}");
    }
    ensure_eq!(xonly.len(), ix.by_script.len(), "entries by key");
    let sorted = |i: Vec<SecretKey>| {
        let mut v: Vec<_> = i.iter().map(|k| k.secret_bytes()).collect();
        v.sort();
        v
    };
    for o in owned.values() {
        ensure_eq!(ix.get_by_script(&o.out.script_pubkey), Some(&o.tweak), "tweak by script");
        let got: Vec<SecretKey> = ix.txouts_in_tx(o.outpoint.txid).cloned().collect();
        let want: Vec<SecretKey> =
            owned.values().filter(|x| x.outpoint.txid == o.outpoint.txid).map(|x| x.tweak).collect();
        ensure_eq!(got, want, "outputs of a transaction");
    }
    let mut numbers: Vec<Option<u32>> = r.labels.iter().map(|m| Some(*m)).collect();
    numbers.extend([None, Some(3), Some(77)]);
    for l in numbers {
        let got: Vec<SecretKey> = ix.get_by_label(l).cloned().collect();
        let want: Vec<SecretKey> = owned.values().filter(|x| x.label == l).map(|x| x.tweak).collect();
        ensure_eq!(sorted(got), sorted(want), "tweaks by label");
        if let Some(m) = l {
            let want = r.labels.contains(&m).then(|| Scalar::from(r.label(m)));
            ensure_eq!(ix.get_label(m), want, "label of a number");
        }
    }
    let lookup: BTreeMap<PublicKey, (Scalar, u32)> =
        r.labels.iter().map(|m| (pt_g(Some(r.label(*m))).unwrap(), (Scalar::from(r.label(*m)), *m))).collect();
    ensure_eq!(&ix.label_lookup, &lookup, "label points");
    let numbers: BTreeMap<u32, PublicKey> = ix.num_to_label.iter().map(|(a, b)| (*a, *b)).collect();
    ensure_eq!(numbers, lookup.iter().map(|(p, (_, m))| (*m, *p)).collect::<BTreeMap<_, _>>(), "label numbers");
    Ok(())
}

fn world(s: &mut Src) -> World {
    let (r, pool) = receiver(s);
    World { r, pool, txs: vec![], secrets: vec![] }
}

fn tracking(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = world(s);
    let mut ix = Ix::new(w.r.scan_sk, w.r.spend_pk());
    let mut m = Model::new(&w.r);
    let n = gen::several(s, 1, 14, 60);
    let mut ops = vec![];
    let early = s.chance(1, 2);
    if early {
        for l in w.pool.clone() {
            ops.push(Op::Label(l));
        }
    }
    let mut late = false;
    for i in 0..n + ops.len() {
        let op = match ops.get(i) {
            Some(o) => o.clone(),
            None => {
                let o = gen_op(s, &mut w, true);
                ops.push(o.clone());
                o
            }
        };
        let cs = apply(&mut ix, &op)?;
        let known = m.r.labels.len();
        m.apply(&op);
        let step = |f: Fail| Fail {
            sig: f.sig,
            msg: format!("after {}: {}", ops.iter().map(show).collect::<Vec<_>>().join(", "), f.msg),
        };
        if m.r.labels.len() > known {
            m.settle(&ix).map_err(step)?;
            late |= !m.looked.is_empty();
        }
        m.check(&ix).map_err(step)?;
        // a change set says what there is
        for (t, p) in &cs.txid_to_partial_secret {
            ensure!(m.tweaks.get(t) == Some(p), "tweak in a change set", "{t}");
        }
    }
    // the same transactions one by one, with all the labels known, give the same owned outputs
    let mut other = Ix::new(w.r.scan_sk, w.r.spend_pk());
    let mut mo = Model::new(&m.r);
    for l in &m.r.labels {
        let _ = other.add_label(*l);
    }
    let all: Vec<_> = m.looked.values().cloned().collect();
    for (tx, t) in &all {
        mo.index(tx, t);
    }
    let how = s.below(3);
    let t0 = all.iter().map(|(tx, t)| (tx.clone(), *t, 5u64)).collect::<Vec<_>>();
    guarded(|| match how {
        0 => {
            let _ = other.batch_insert_relevant_unconfirmed(t0);
        }
        1 => {
            let _ = other.batch_insert_relevant(t0.into_iter().map(|(tx, t, _)| (tx, t, [])));
        }
        _ => {
            let mut txs = vec![coinbase(1, vec![])];
            txs.extend(all.iter().map(|x| x.0.clone()));
            let b = block(bitcoin::hashes::Hash::all_zeros(), 1_600_000_000, 0, txs);
            let _ = other.apply_block_relevant(&b, all.iter().map(|x| (x.0.compute_txid(), x.1)).collect(), 3);
        }
    })?;
    check_index(other.index(), &m.r, &mo.owned).map_err(|f| Fail { sig: format!("at once: {}", f.sig), msg: f.msg })?;

    if s.chance(1, 5) {
        places(s, cx)?;
    }
    if !m.owned.is_empty() {
        cx.nontrivial();
    }
    cx.label_if(late, "label after transactions");
    cx.label_if(m.spends_only, "spend that pays nothing back");
    cx.label_if(m.evicted, "evicted");
    cx.label_if(m.owned.values().any(|o| o.label.is_some()), "labelled output");
    let scripts: BTreeSet<_> = m.owned.values().map(|o| &o.out.script_pubkey).collect();
    cx.label_if(scripts.len() < m.owned.len(), "script paid twice");
    cx.note(|| ops.iter().map(show).collect::<Vec<_>>().join(", "));
    Ok(())
}

/// An anchor that keeps all there is to know of the place.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
struct At(BlockId, usize, Txid, u32);

impl Anchor for At {
    fn anchor_block(&self) -> BlockId {
        self.0
    }
}

impl From<TxPosInBlock<'_>> for At {
    fn from(p: TxPosInBlock<'_>) -> Self {
        At(p.block_id, p.tx_pos, p.block.txdata[p.tx_pos].compute_txid(), p.block.header.nonce)
    }
}

/// Whatever an anchor is made of is the transaction's own place.
fn places(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = world(s);
    let mut ix = SpIndexerV2::<At>::new(w.r.scan_sk, w.r.spend_pk());
    w.r.labels = w.pool.clone();
    for m in &w.pool {
        let _ = ix.add_label(*m);
    }
    let mut want: BTreeSet<(At, Txid)> = BTreeSet::new();
    let mut owned: BTreeSet<OutPoint> = BTreeSet::new();
    let low = gen::height(s, 1);
    for h in (0..s.size(1, 3) as u32).map(|h| low + h) {
        let all = w.some(s, 6);
        let mut txs = vec![coinbase(h, vec![])];
        txs.extend(all.iter().map(|i| w.txs[*i].0.clone()));
        let tweaks: HashMap<_, _> = all.iter().map(|i| (w.txs[*i].0.compute_txid(), w.txs[*i].1)).collect();
        let b = block(bitcoin::hashes::Hash::from_byte_array([h as u8; 32]), 1_600_000_000, s.below(1000) as u32, txs);
        let everything = s.chance(1, 3);
        for (pos, tx) in b.txdata.iter().enumerate().skip(1) {
            let txid = tx.compute_txid();
            let mine = bip352::scan(&w.r, tx, &tweaks[&txid]).owned;
            let relevant = !mine.is_empty() || tx.input.iter().any(|i| owned.contains(&i.previous_output));
            owned.extend(mine.iter().map(|o| o.outpoint));
            if relevant || everything {
                let id = BlockId { height: h, hash: b.block_hash() };
                want.insert((At(id, pos, txid, b.header.nonce), txid));
            }
        }
        guarded(|| {
            if everything {
                ix.apply_block(&b, tweaks, h)
            } else {
                ix.apply_block_relevant(&b, tweaks, h)
            }
        })?;
    }
    ensure_eq!(&ix.graph().initial_changeset().anchors, &want, "places in blocks");
    cx.label_if(want.iter().any(|a| a.0 .1 > 1), "place in a block");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ restoring

/// bdk_chain's own apply_changeset leaves the first seen times out.
fn lasting(mut g: tx_graph::ChangeSet<A>) -> tx_graph::ChangeSet<A> {
    g.first_seen.clear();
    g
}

/// The same indexer. Of several outputs with one script any may be the script's.
fn same(a: &Ix, b: &Ix) -> R {
    ensure_eq!(a.scan_sk(), b.scan_sk(), "scan key");
    ensure_eq!(a.spend_pk(), b.spend_pk(), "spend key");
    let (x, y) = (a.index(), b.index());
    ensure_eq!(&x.label_lookup, &y.label_lookup, "labels");
    ensure_eq!(&x.num_to_label, &y.num_to_label, "label numbers");
    ensure_eq!(&x.by_shared_secret, &y.by_shared_secret, "owned outputs");
    ensure_eq!(&x.by_label, &y.by_label, "outputs by label");
    ensure_eq!(&x.txid_to_partial_secret, &y.txid_to_partial_secret, "tweaks");
    let keys = |i: &SpIndex| i.by_script.keys().cloned().collect::<BTreeSet<_>>();
    ensure_eq!(keys(x), keys(y), "scripts");
    for k in x.by_script.keys() {
        ensure_eq!(x.get_by_script(k), y.get_by_script(k), "tweak by script");
    }
    let (g, h) = (lasting(a.graph().initial_changeset()), lasting(b.graph().initial_changeset()));
    ensure!(g == h, "graph", "{g:?} / {h:?}");
    Ok(())
}

fn restore(s: &mut Src, saved: &[Cs]) -> Result<Ix, Fail> {
    let mut all = Cs::default();
    let mut group: Option<Cs> = None;
    for c in saved {
        match &mut group {
            Some(g) => g.merge(c.clone()),
            None => group = Some(c.clone()),
        }
        if s.chance(1, 2) {
            let g = group.take().unwrap();
            // what is empty is not written
            if !g.is_empty() {
                let format = s.below(3);
                all.merge(store(format, &g)?);
            }
        }
    }
    if let Some(g) = group {
        if !g.is_empty() {
            let format = s.below(3);
            all.merge(store(format, &g)?);
        }
    }
    let again = all.clone();
    match guarded(|| Ix::try_from(all))? {
        Ok(i) => Ok(i),
        Err(()) => fail("not restored", format!("{again:?}")),
    }
}

fn restoring(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = world(s);
    let mut ix = Ix::new(w.r.scan_sk, w.r.spend_pk());
    let mut saved = vec![ix.initial_changeset()];
    let n = gen::several(s, 1, 10, 40);
    let mut ops = vec![];
    let mut labels = BTreeSet::new();
    let mut late = false;
    let mut next = |s: &mut Src, w: &mut World, labels: &mut BTreeSet<u32>| {
        let mut op = gen_op(s, w, false);
        // asking for the address of a new number is a registration nobody gets to save (a known finding)
        if let Op::Address(m) = op {
            if !labels.contains(&m) {
                op = Op::Label(m);
            }
        }
        // a filter that drops paying transactions leaves nothing to restore them from
        if let Op::Block(f @ 2, ..) = &mut op {
            *f = 3;
        }
        if let Op::Label(m) = op {
            late |= labels.insert(m) && !w.txs.is_empty();
        }
        ops.push(show(&op));
        op
    };
    if s.chance(1, 2) {
        for l in w.pool.clone() {
            labels.insert(l);
            saved.push(apply(&mut ix, &Op::Label(l))?);
        }
    }
    for _ in 0..n {
        let op = next(s, &mut w, &mut labels);
        saved.push(apply(&mut ix, &op)?);
        if s.chance(1, 25) {
            // all of it saved at once, and changes from there on
            saved = vec![ix.initial_changeset()];
        }
    }
    let at = |what: &str| {
        let what = what.to_string();
        move |f: Fail| Fail { sig: format!("{what}: {}", f.sig), msg: f.msg }
    };
    let mut back = restore(s, &saved)?;
    same(&ix, &back).map_err(at("restored"))?;
    let init = ix.initial_changeset();
    let format = s.below(3);
    let init = store(format, &init)?;
    let from_init = guarded(|| Ix::try_from(init))?;
    let Ok(from_init) = from_init else { return fail("initial change set not restored", "") };
    same(&ix, &from_init).map_err(at("from the initial change set"))?;
    let (mut x, mut y) = (back.initial_changeset(), ix.initial_changeset());
    (x.graph, y.graph) = (lasting(x.graph), lasting(y.graph));
    ensure!(x == y, "initial change set of the restored", "{x:?} / {y:?}");
    // restoring may be done by applying to a fresh indexer, in steps, and again
    let mut step = Ix::new(w.r.scan_sk, w.r.spend_pk());
    for c in &saved {
        let mut c = c.clone();
        c.scan_sk = Some(w.r.scan_sk);
        c.spend_pk = Some(w.r.spend_pk());
        guarded(|| step.apply_changeset(c))?;
    }
    same(&ix, &step).map_err(at("applied in steps"))?;
    let again = ix.initial_changeset();
    guarded(|| step.apply_changeset(again))?;
    same(&ix, &step).map_err(at("applied again"))?;
    // change sets of other keys change nothing
    let mut foreign = ix.initial_changeset();
    if s.chance(1, 2) {
        foreign.scan_sk = Some(w.r.scan_sk.negate());
    } else {
        foreign.spend_pk = pt_neg(foreign.spend_pk);
    }
    let mut fresh = Ix::new(w.r.scan_sk, w.r.spend_pk());
    guarded(|| fresh.apply_changeset(foreign))?;
    same(&fresh, &Ix::new(w.r.scan_sk, w.r.spend_pk())).map_err(at("change set of other keys"))?;
    for cut in 0..2 {
        let mut part = ix.initial_changeset();
        if cut == 0 {
            part.scan_sk = None;
        } else {
            part.spend_pk = None;
        }
        ensure!(guarded(|| Ix::try_from(part))?.is_err(), "restored without keys", "{cut}");
    }

    if !ix.index().by_shared_secret.is_empty() {
        cx.nontrivial();
    }
    let stop = n;
    for _ in 0..s.size(0, 4) {
        let op = next(s, &mut w, &mut labels);
        let (mut x, mut y) = (apply(&mut ix, &op)?, apply(&mut back, &op)?);
        (x.graph, y.graph) = (lasting(x.graph), lasting(y.graph));
        ensure!(x == y, "continued: change set", "{op:?}: {x:?} / {y:?}");
        same(&ix, &back).map_err(at("continued"))?;
        saved.push(x);
    }
    same(&ix, &restore(s, &saved)?).map_err(at("restored at the end"))?;
    cx.label_if(late, "label after transactions");
    cx.label_if(!labels.is_empty(), "labels");
    cx.note(|| format!("{}; restored after {stop}", ops.join(", ")));
    Ok(())
}

fn pinned_address_label() -> R {
    let r = Receiver { scan_sk: sk_small(5), spend_sk: sk_small(9), labels: vec![] };
    let mut ix = Ix::new(r.scan_sk, r.spend_pk());
    let saved = ix.initial_changeset();
    let _ = ix.get_labeled_address(1, Network::Bitcoin);
    let Ok(back) = Ix::try_from(saved) else { return fail("not restored", "") };
    ensure!(
        back.index().get_label(1) == ix.index().get_label(1),
        "label of an address not saved",
        "get_labeled_address(1) registers label 1 and gives no change set to save"
    );
    Ok(())
}

fn pinned_late_label() -> R {
    let r = Receiver { scan_sk: sk_small(5), spend_sk: sk_small(9), labels: vec![1] };
    let mut ix = Ix::new(r.scan_sk, r.spend_pk());
    let mut saved = ix.initial_changeset();
    let tweak = pt_g(Some(sk_small(33))).unwrap();
    let mut s = Src::replay(vec![]);
    let tx = gen::tx(vec![input(&mut s, OutPoint::null())], pay(&mut s, &r, &tweak, &[None, Some(1)]));
    saved.merge(ix.batch_insert_relevant_unconfirmed([(tx, tweak, 5)]));
    saved.merge(ix.add_label(1));
    let Ok(back) = Ix::try_from(saved) else { return fail("not restored", "") };
    same(&ix, &back)
}

// ------------------------------------------------------------------------------------------------ change sets

fn txid(s: &mut Src) -> Txid {
    bitcoin::hashes::Hash::from_byte_array([s.below(4) as u8; 32])
}

fn gen_changeset(s: &mut Src, r: &Receiver) -> Cs {
    let mut c = Cs::default();
    let which = s.below(1 << 9);
    let on = |b: u32| which & (1 << b) == 0;
    if on(0) && s.chance(1, 2) {
        c.scan_sk = Some(r.scan_sk);
    }
    if on(1) && s.chance(1, 2) {
        c.spend_pk = Some(r.spend_pk());
    }
    for _ in 0..gen::several(s, 0, 4, 80) {
        if on(2) {
            c.txid_to_partial_secret.insert(txid(s), pt_g(Some(sk_small(1 + s.below(5)))).unwrap());
        }
        if on(3) {
            let num = gen::label_number(s);
            let l = if s.chance(1, 2) { r.label(num) } else { gen::secret(s) };
            c.label_lookup.insert(Label { num, tweak: Scalar::from(l), point: pt_g(Some(l)).unwrap() });
        }
        let mut g = tx_graph::ChangeSet::<A>::default();
        if on(4) {
            g.txs.insert(Arc::new(gen::tx(vec![pool_input(s)], vec![gen::foreign_output(s)])));
        }
        if on(5) {
            g.anchors.insert((anchor(s), txid(s)));
        }
        if on(6) {
            g.last_seen.insert(txid(s), s.below(5));
            g.first_seen.insert(txid(s), s.below(5));
        }
        if on(7) {
            g.last_evicted.insert(txid(s), s.below(5));
        }
        if on(8) {
            let o = OutPoint::new(txid(s), s.below(3) as u32);
            g.txouts.insert(
                o,
                bitcoin::TxOut { value: bitcoin::Amount::from_sat(o.vout as u64), script_pubkey: ScriptBuf::new() },
            );
        }
        c.graph.merge(g);
    }
    c
}

fn size(c: &Cs) -> usize {
    let g = &c.graph;
    c.scan_sk.iter().count()
        + c.spend_pk.iter().count()
        + c.txid_to_partial_secret.len()
        + c.label_lookup.len()
        + g.txs.len()
        + g.txouts.len()
        + g.anchors.len()
        + g.last_seen.len()
        + g.first_seen.len()
        + g.last_evicted.len()
}

fn merged(a: &Cs, b: &Cs) -> Result<Cs, Fail> {
    let (mut x, y) = (a.clone(), b.clone());
    guarded(move || {
        x.merge(y);
        x
    })
}

fn changesets(s: &mut Src, cx: &mut Cx) -> R {
    let r = gen::receiver(s, 0);
    let (a, b, c) = (gen_changeset(s, &r), gen_changeset(s, &r), gen_changeset(s, &r));
    for x in [&a, &b, &c] {
        ensure_eq!(x.is_empty(), size(x) == 0, "reported empty");
        for format in 0..3 {
            let back = store(format, x)?;
            ensure!(back == *x, "stored change set", "{back:?} / {x:?}");
        }
        let mut t = x.clone();
        let taken = t.take();
        ensure!(taken.is_some() == (size(x) > 0) && taken.unwrap_or_default() == *x && size(&t) == 0, "taken change set", "{x:?}");
    }
    let ab = merged(&a, &b)?;
    let mut partial = a.txid_to_partial_secret.clone();
    for (k, v) in &b.txid_to_partial_secret {
        partial.insert(*k, *v);
    }
    let mut graph = a.graph.clone();
    graph.txs.extend(b.graph.txs.iter().cloned());
    graph.anchors.extend(b.graph.anchors.iter().cloned());
    graph.txouts.extend(b.graph.txouts.clone());
    for (k, v) in &b.graph.last_seen {
        later(&mut graph.last_seen, *k, *v);
    }
    for (k, v) in &b.graph.last_evicted {
        later(&mut graph.last_evicted, *k, *v);
    }
    for (k, v) in &b.graph.first_seen {
        earlier(&mut graph.first_seen, *k, *v);
    }
    let want = Cs {
        scan_sk: a.scan_sk.or(b.scan_sk),
        spend_pk: a.spend_pk.or(b.spend_pk),
        txid_to_partial_secret: partial,
        label_lookup: a.label_lookup.union(&b.label_lookup).cloned().collect(),
        graph,
    };
    ensure!(ab == want, "merged change set", "{a:?} + {b:?} = {ab:?}");
    ensure!(merged(&ab, &c)? == merged(&a, &merged(&b, &c)?)?, "merging is not associative", "{a:?} {b:?} {c:?}");
    ensure!(merged(&a, &a)? == a, "merging is not idempotent", "{a:?}");
    let none = Cs::default();
    ensure!(merged(&none, &a)? == a && merged(&a, &none)? == a, "the empty change set is not neutral", "{a:?}");
    let g: Cs = a.graph.clone().into();
    ensure!(g.graph == a.graph && size(&g) == size(&Cs { graph: a.graph.clone(), ..Cs::default() }), "change set of a graph", "{g:?}");
    if size(&ab) < size(&a) + size(&b) {
        cx.nontrivial();
    }
    cx.label_if(size(&a) == 0, "empty");
    cx.label_if(size(&a) > 0 && a.graph.is_empty() && a.label_lookup.is_empty() && a.txid_to_partial_secret.is_empty(), "keys only");
    cx.label_if(merged(&b, &a)? != ab, "conflicting");
    cx.note(|| format!("change sets of {}, {} and {} entries", size(&a), size(&b), size(&c)));
    Ok(())
}

fn pinned_keys_only() -> R {
    let ix = Ix::new(sk_small(5), g());
    ensure!(!ix.initial_changeset().is_empty(), "keys reported empty", "initial change set of a new indexer");
    Ok(())
}

fn pinned_label_json() -> R {
    let mut ix = Ix::new(sk_small(5), g());
    let c = ix.add_label(3);
    ensure!(store(0, &c)? == c, "label in json", "{c:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ labels

fn labels(s: &mut Src, cx: &mut Cx) -> R {
    let (r, pool) = receiver(s);
    let net = *s.pick(&[Network::Bitcoin, Network::Testnet, Network::Signet, Network::Regtest]);
    let mut ix = Ix::new(r.scan_sk, r.spend_pk());
    let mut basic = SpIndexes::default();
    let base = code(&r, None, net);
    let mut known = vec![];
    let mut repeated = false;
    let mut history = vec![];
    let many = pool.len() > 20;
    if many {
        for m in &pool {
            let _ = guarded(|| ix.add_label(*m))?;
            let got = guarded(|| basic.add_label(base.clone(), r.scan_sk, *m))?;
            ensure!(got.is_ok(), "label refused", "{got:?}");
            known.push(*m);
        }
    }
    for _ in 0..s.size(1, 8) {
        let m = *s.pick(&pool);
        let fresh = !known.contains(&m);
        for x in &pool {
            let want = known.contains(x).then(|| Scalar::from(r.label(*x)));
            ensure_eq!(ix.index().get_label(*x), want, "looked up label");
            ensure_eq!(basic.get_label(*x), want, "looked up label of the basic indexer");
        }
        let before = ix.index().clone();
        let basic_before = basic.clone();
        let add = s.chance(1, 2);
        if add {
            let cs = guarded(|| ix.add_label(m))?;
            let l = Label { num: m, tweak: Scalar::from(r.label(m)), point: pt_g(Some(r.label(m))).unwrap() };
            if fresh {
                ensure!(cs.label_lookup.contains(&l), "label in the change set", "{cs:?}");
            }
            ensure!(cs.label_lookup.iter().all(|x| *x == l), "label in the change set", "{cs:?}");
        } else {
            let got = guarded(|| ix.get_labeled_address(m, net))?;
            ensure_eq!(got.to_string(), code(&r, Some(m), net).to_string(), "labelled address");
        }
        let got = guarded(|| basic.add_label(base.clone(), r.scan_sk, m))?;
        let Ok(got) = got else { return fail("label refused", format!("{got:?}")) };
        ensure_eq!(got.to_string(), code(&r, Some(m), net).to_string(), "labelled code of the basic indexer");
        if !fresh {
            repeated = true;
            ensure!(*ix.index() == before, "registering again changes the index", "{m}");
            ensure!(basic == basic_before, "registering again changes the basic index", "{m}");
        } else {
            known.push(m);
        }
        history.push(format!("{} {m}", if add { "add" } else { "address" }));
        // addresses of all numbers stay what they are
        let got = guarded(|| ix.get_address(net))?;
        ensure_eq!(got.to_string(), base.to_string(), "base address");
        for x in &known {
            let got = guarded(|| ix.get_labeled_address(*x, net))?;
            ensure_eq!(got.to_string(), code(&r, Some(*x), net).to_string(), "labelled address");
        }
    }
    // payments to them are found under their numbers
    let tweak = pt_g(Some(gen::secret(s))).unwrap();
    let mut to: Vec<Option<u32>> = known.iter().map(|m| Some(*m)).collect();
    to.push(None);
    s.shuffle(&mut to);
    let mut tx = gen::tx(vec![fresh_input(s)], pay(s, &r, &tweak, &to));
    s.shuffle(&mut tx.output);
    let mut all = r.clone();
    all.labels = known.clone();
    let want: BTreeMap<OutPoint, Owned> =
        bip352::scan(&all, &tx, &tweak).owned.into_iter().map(|o| (o.outpoint, o)).collect();
    assert_eq!(want.len(), to.len());
    let _ = guarded(|| ix.index_tx(&tx, &tweak))?;
    check_index(ix.index(), &all, &want)?;
    let sc = Scanner::new(r.scan_sk, r.spend_pk(), basic.label_to_tweak.clone());
    let found = guarded(|| sc.scan_txouts(&tx, r.shared(&tweak)))?;
    let Ok(found) = found else { return fail("scan fails", format!("{found:?}")) };
    let found: BTreeMap<OutPoint, Owned> = found.iter().map(|o| (o.outpoint, owned(o))).collect();
    ensure_eq!(found, want, "found with the labels of the basic indexer");
    if repeated {
        cx.nontrivial();
    }
    cx.label_if(known.contains(&0), "label 0");
    cx.label_if(many, "dozens of labels");
    cx.label_if(known.len() > 2, "three labels or more");
    cx.note(|| history.join(", "));
    Ok(())
}

fn pool_input(s: &mut Src) -> bitcoin::TxIn {
    let o = OutPoint::new(txid(s), 0);
    input(s, o)
}
