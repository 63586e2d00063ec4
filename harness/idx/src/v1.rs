//! C20 and C21: the basic indexer.
use crate::common::*;
use bdk_sp::receive::scan::Scanner;
use bitcoin::secp256k1::{PublicKey, Scalar, SecretKey};
use bitcoin::{Network, OutPoint, ScriptBuf, Transaction, TxIn, TxOut, Txid};
use engine::*;
use indexer::bdk_chain::{tx_graph, ConfirmationBlockTime, Merge, TxGraph};
use indexer::{PrevoutSource, SpIndexer, SpIndexes, SpIndexesChangeSet};
use refmodel::bip352::{Owned, Receiver};
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop::new(
            "C20",
            "histories of up to 8 transactions with inputs of all kinds, spends of owned outputs, coinbases and repetitions, paying plain and labelled codes of the wallet and others; non-trivial when an output is owned",
            16_000,
            160_000,
            history,
        )
        .pinned(&[("coinbase", pinned_coinbase)]),
        Prop::new(
            "C21",
            "three persistent forms of up to 4 entries per map, overlapping and conflicting, in json and bincode, and indexes with labels and outputs; non-trivial when two forms overlap",
            40_000,
            400_000,
            persistence,
        ),
    ]
}

struct Prevouts(BTreeMap<OutPoint, TxOut>);

impl PrevoutSource for Prevouts {
    fn get_tx_prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        tx.input.iter().filter_map(|i| self.0.get(&i.previous_output).cloned()).collect()
    }
}

type Ix = SpIndexer<Prevouts, ConfirmationBlockTime>;

fn setup(r: &Receiver, prevouts: BTreeMap<OutPoint, TxOut>) -> Result<Ix, Fail> {
    let mut ixs = SpIndexes::default();
    for m in &r.labels {
        let got = guarded(|| ixs.add_label(code(r, None, Network::Bitcoin), r.scan_sk, *m))?;
        let Ok(got) = got else { return fail("label refused", format!("{m}: {got:?}")) };
        ensure_eq!(got.to_string(), code(r, Some(*m), Network::Bitcoin).to_string(), "labelled code");
    }
    let scanner = Scanner::new(r.scan_sk, r.spend_pk(), ixs.label_to_tweak.clone());
    Ok(SpIndexer::new(Prevouts(prevouts), scanner, ixs, TxGraph::default()))
}

struct Hist {
    txs: Vec<Transaction>,
    prevouts: BTreeMap<OutPoint, TxOut>,
}

fn gen_history(s: &mut Src, r: &Receiver) -> Hist {
    let mut h = Hist { txs: vec![], prevouts: BTreeMap::new() };
    // outputs that may be spent: all those of earlier transactions
    let mut coins: Vec<(OutPoint, TxOut)> = vec![];
    for i in 0..s.size(1, 8) {
        if !h.txs.is_empty() && s.chance(1, 6) {
            let t = s.pick(&h.txs).clone();
            h.txs.push(t);
            continue;
        }
        if s.chance(1, 8) {
            let outs = if s.chance(1, 2) { vec![gen::foreign_output(s)] } else { vec![] };
            h.txs.push(coinbase(i as u32, outs));
            continue;
        }
        let mut ins: Vec<TxIn> = vec![];
        if s.chance(3, 4) || coins.is_empty() {
            for g in gen::inputs(s, 3, true) {
                if !h.prevouts.contains_key(&g.txin.previous_output) {
                    h.prevouts.insert(g.txin.previous_output, g.prevout);
                    ins.push(g.txin);
                }
            }
        }
        for _ in 0..s.size(0, 2) {
            if coins.is_empty() {
                break;
            }
            let (o, out) = s.pick(&coins).clone();
            if ins.iter().all(|x| x.previous_output != o) {
                h.prevouts.insert(o, out);
                ins.push(input(s, o));
            }
        }
        s.shuffle(&mut ins);
        if ins.is_empty() {
            continue;
        }
        let prev: Vec<TxOut> = ins.iter().map(|i| h.prevouts[&i.previous_output].clone()).collect();
        let mut tx = gen::tx(ins, vec![]);
        let tweak = bip352::tweak_data(&tx, &prev);
        let mut outs = vec![];
        if s.chance(4, 5) {
            let n = gen::several(s, 0, 4, 30);
            let labels: Vec<Option<u32>> = (0..n)
                .map(|_| match s.weighted(&[3, 2, 1]) {
                    1 if !r.labels.is_empty() => Some(*s.pick(&r.labels)),
                    2 => Some(gen::label_number(s)),
                    _ => None,
                })
                .collect();
            let tweak = tweak.unwrap_or_else(g);
            let mut paid = pay(s, r, &tweak, &labels);
            if s.chance(1, 8) && !paid.is_empty() {
                let at = s.below(paid.len() as u64) as usize;
                paid.remove(at);
            }
            outs.extend(paid);
        }
        for _ in 0..if s.chance(1, 250) { 260 } else { gen::several(s, 0, 3, 60) } {
            outs.push(gen::foreign_output(s));
        }
        s.shuffle(&mut outs);
        if outs.is_empty() {
            outs.push(gen::foreign_output(s));
        }
        tx.output = outs;
        let txid = tx.compute_txid();
        for (v, o) in tx.output.iter().enumerate() {
            coins.push((OutPoint::new(txid, v as u32), o.clone()));
        }
        h.txs.push(tx);
    }
    h
}

fn check_indexes(ix: &SpIndexes, owned_outs: &BTreeMap<OutPoint, Owned>, shared: &BTreeMap<Txid, PublicKey>) -> R {
    let got: BTreeMap<OutPoint, Owned> = ix.spouts.iter().map(|(o, x)| (*o, owned(x))).collect();
    ensure_eq!(&got, owned_outs, "outputs by outpoint");
    ensure!(ix.spouts.iter().all(|(o, x)| *o == x.outpoint), "outpoint of an entry", "{:?}", ix.spouts);
    let by_label: BTreeSet<(Option<u32>, OutPoint)> =
        ix.label_to_spout.iter().map(|(l, x)| (*l, x.outpoint)).collect();
    ensure_eq!(by_label, owned_outs.values().map(|o| (o.label, o.outpoint)).collect::<BTreeSet<_>>(), "outputs by label");
    for (l, x) in &ix.label_to_spout {
        ensure!(owned_outs.get(&x.outpoint) == Some(&owned(x)) && *l == x.label, "entry by label", "{l:?} {x:?}");
    }
    let scripts: BTreeSet<&ScriptBuf> = owned_outs.values().map(|o| &o.out.script_pubkey).collect();
    ensure_eq!(ix.script_to_spout.keys().collect::<BTreeSet<_>>(), scripts, "scripts");
    for (k, x) in &ix.script_to_spout {
        ensure!(owned_outs.get(&x.outpoint) == Some(&owned(x)) && *k == x.script_pubkey, "entry by script", "{k} {x:?}");
    }
    ensure_eq!(&ix.txid_to_shared_secret, shared, "shared secrets");
    for o in owned_outs.values() {
        ensure_eq!(ix.txout(o.outpoint), Some(o.out.clone()), "txout");
        let in_tx: Vec<Owned> = ix.txouts_in_tx(o.outpoint.txid).map(owned).collect();
        let want: Vec<Owned> = owned_outs.values().filter(|x| x.outpoint.txid == o.outpoint.txid).cloned().collect();
        ensure_eq!(in_tx, want, "outputs of a transaction");
    }
    Ok(())
}

fn history(s: &mut Src, cx: &mut Cx) -> R {
    let r = gen::receiver(s, 4);
    let h = gen_history(s, &r);
    let mut ix = setup(&r, h.prevouts.clone())?;
    let mut owned_outs: BTreeMap<OutPoint, Owned> = BTreeMap::new();
    let mut shared: BTreeMap<Txid, PublicKey> = BTreeMap::new();
    let mut paying: BTreeMap<Txid, Transaction> = BTreeMap::new();
    let mut prevs: BTreeMap<OutPoint, TxOut> = BTreeMap::new();
    let mut copy = TxGraph::<ConfirmationBlockTime>::default();
    let mut saved = tx_graph::ChangeSet::<ConfirmationBlockTime>::default();
    let mut seen = BTreeSet::new();
    // transactions the graph was given before anything is indexed
    let mut known: BTreeMap<Txid, Transaction> = BTreeMap::new();
    if s.chance(1, 4) {
        for tx in &h.txs {
            if s.chance(1, 2) {
                let c = ix.tx_graph.insert_tx(tx.clone());
                saved.merge(c.clone());
                copy.apply_changeset(c);
                known.insert(tx.compute_txid(), tx.clone());
            }
        }
    }
    for (n, tx) in h.txs.iter().enumerate() {
        let txid = tx.compute_txid();
        let prev = ix_prevouts(&h, tx);
        let spends = tx.input.iter().any(|i| owned_outs.contains_key(&i.previous_output));
        let got = guarded(|| ix.spends_owned_spouts(tx))?;
        ensure_eq!(got, spends, "spends owned outputs");
        let repeated = !seen.insert(txid);
        let tweak = if tx.is_coinbase() { None } else { bip352::tweak_data(tx, &prev) };
        let mut found = vec![];
        if let Some(t) = &tweak {
            let m = bip352::scan(&r, tx, t);
            if m.ambiguous {
                // not made by following BIP352: what may be found is the scanner's matter
                return Ok(());
            }
            found = m.owned;
        }
        let cs = guarded(|| ix.index_tx(tx))?;
        let Ok(cs) = cs else {
            return fail("transaction not indexed", format!("transaction {n} {tx:?}: {cs:?}"));
        };
        if !found.is_empty() {
            shared.insert(txid, r.shared(&tweak.unwrap()));
            paying.insert(txid, tx.clone());
            for (i, p) in tx.input.iter().zip(&prev) {
                prevs.insert(i.previous_output, p.clone());
            }
        }
        if repeated || found.is_empty() {
            ensure!(cs.is_empty(), "change set of an unrelated or repeated transaction", "{cs:?}");
        }
        for o in found {
            owned_outs.insert(o.outpoint, o);
        }
        saved.merge(cs.clone());
        copy.apply_changeset(cs);
        check_indexes(&ix.indexes, &owned_outs, &shared)?;
        // the graph
        let g = &ix.tx_graph;
        let full: BTreeMap<Txid, Transaction> = g.full_txs().map(|n| (n.txid, n.tx.as_ref().clone())).collect();
        let want: BTreeMap<Txid, Transaction> = paying.iter().chain(&known).map(|(k, v)| (*k, v.clone())).collect();
        ensure_eq!(full, want, "transactions in the graph");
        for (o, p) in &prevs {
            ensure_eq!(g.get_txout(*o), Some(p), "previous output in the graph");
        }
        for (o, _) in g.floating_txouts() {
            ensure!(prevs.contains_key(&o), "foreign output in the graph", "{o}");
        }
        ensure!(g.initial_changeset() == copy.initial_changeset(), "graph against its change sets", "transaction {n}");
        ensure!(g.all_anchors().is_empty(), "anchors out of nowhere", "{:?}", g.all_anchors());
        cx.label_if(repeated && paying.contains_key(&txid), "repeated paying transaction");
        cx.label_if(tx.is_coinbase(), "coinbase");
        cx.label_if(known.contains_key(&txid) && shared.contains_key(&txid), "paying transaction known before");
        cx.label_if(!tx.is_coinbase() && tweak.is_none(), "no usable inputs");
        cx.label_if(spends, "spends an owned output");
    }
    let from_saved = TxGraph::from_changeset(saved);
    ensure!(from_saved.initial_changeset() == ix.tx_graph.initial_changeset(), "graph from merged change sets", "");

    // the saved index is the same and goes on the same
    let cs: SpIndexesChangeSet = ix.indexes.clone().into();
    let format = s.below(3);
    let back = store(format, &cs)?;
    ensure!(back == cs, "index as stored", "{back:?} / {cs:?}");
    let again = SpIndexes::from(back);
    ensure!(again == ix.indexes, "index from its stored form", "{again:?} / {:?}", ix.indexes);

    cx.label_if(owned_outs.values().any(|o| o.label.is_some()), "labelled output");
    cx.label_if(paying.len() > 1, "several paying transactions");
    if !owned_outs.is_empty() {
        cx.nontrivial();
    }
    cx.note(|| format!("{} transactions, {} paying, {} owned outputs, labels {:?}", h.txs.len(), paying.len(), owned_outs.len(), r.labels));
    Ok(())
}

fn ix_prevouts(h: &Hist, tx: &Transaction) -> Vec<TxOut> {
    tx.input.iter().filter_map(|i| h.prevouts.get(&i.previous_output).cloned()).collect()
}

fn pinned_coinbase() -> R {
    let r = Receiver { scan_sk: sk_small(5), spend_sk: sk_small(9), labels: vec![] };
    let mut ix = setup(&r, BTreeMap::new())?;
    let got = guarded(|| ix.index_tx(&coinbase(7, vec![])))?;
    ensure!(matches!(&got, Ok(c) if c.is_empty()), "coinbase not skipped", "{got:?}");
    Ok(())
}

// ------------------------------------------------------------------------------------------------ persistence

fn pool_key(s: &mut Src) -> SecretKey {
    sk_small(1 + s.below(6))
}

fn pool_out(s: &mut Src) -> OutPoint {
    OutPoint::new(bitcoin::hashes::Hash::from_byte_array([s.below(3) as u8; 32]), s.below(3) as u32)
}

/// Entries under few keys, so that they meet and conflict; what an outpoint stands for is fixed where sets need it.
fn gen_form(s: &mut Src) -> SpIndexesChangeSet {
    let mut f = SpIndexesChangeSet::default();
    let which = s.below(64);
    let some_out = |s: &mut Src, o: OutPoint| Owned {
        outpoint: o,
        out: TxOut { value: gen::amount(s), script_pubkey: p2tr(&xonly(&pt_g(Some(pool_key(s))).unwrap())) },
        tweak: pool_key(s),
        label: s.chance(1, 2).then(|| gen::label_number(s)),
    };
    for _ in 0..gen::several(s, 0, 4, 80) {
        if which & 1 == 0 {
            let o = pool_out(s);
            let x = spout(&some_out(s, o));
            f.spouts.insert(o, x);
        }
        if which & 2 == 0 {
            let o = pool_out(s);
            let x = spout(&some_out(s, o));
            f.script_to_spout.insert(x.script_pubkey.clone(), x);
        }
        if which & 4 == 0 {
            f.txid_to_shared_secret.insert(pool_out(s).txid, pt_g(Some(pool_key(s))).unwrap());
        }
        if which & 8 == 0 {
            let o = pool_out(s);
            let l = s.chance(1, 2).then(|| s.below(3) as u32);
            let v = o.vout as u64 + 1;
            f.label_to_spout.insert((
                l,
                spout(&Owned {
                    outpoint: o,
                    out: TxOut { value: bitcoin::Amount::from_sat(v), script_pubkey: p2tr(&xonly(&g())) },
                    tweak: sk_small(v),
                    label: l,
                }),
            ));
        }
        if which & 16 == 0 {
            f.label_to_tweak.insert(pt_g(Some(pool_key(s))).unwrap(), (gen::secret(s), gen::label_number(s)));
        }
        if which & 32 == 0 {
            f.num_to_label.insert(gen::label_number(s), pt_g(Some(pool_key(s))).unwrap());
        }
    }
    f
}

fn entries(f: &SpIndexesChangeSet) -> usize {
    f.spouts.len()
        + f.script_to_spout.len()
        + f.txid_to_shared_secret.len()
        + f.label_to_spout.len()
        + f.label_to_tweak.len()
        + f.num_to_label.len()
}

fn over<K: Ord + Clone, V: Clone>(a: &BTreeMap<K, V>, b: &BTreeMap<K, V>) -> BTreeMap<K, V> {
    let mut m = BTreeMap::new();
    for (k, v) in a.iter().chain(b) {
        m.insert(k.clone(), v.clone());
    }
    m
}

fn merged(a: &SpIndexesChangeSet, b: &SpIndexesChangeSet) -> Result<SpIndexesChangeSet, Fail> {
    let (mut x, y) = (a.clone(), b.clone());
    guarded(move || {
        x.merge(y);
        x
    })
}

fn persistence(s: &mut Src, cx: &mut Cx) -> R {
    let (a, b, c) = (gen_form(s), gen_form(s), gen_form(s));
    for f in [&a, &b, &c] {
        ensure_eq!(f.is_empty(), entries(f) == 0, "reported empty");
        for format in 0..3 {
            let back = store(format, f)?;
            ensure!(back == *f, "stored form", "{back:?} / {f:?}");
        }
        let ix = SpIndexes::from(f.clone());
        let again = SpIndexesChangeSet::from(ix.clone());
        ensure!(again == *f, "form of the index", "{again:?} / {f:?}");
        ensure!(SpIndexes::from(again) == ix, "index of the form", "{ix:?}");
    }
    let ab = merged(&a, &b)?;
    let want = SpIndexesChangeSet {
        spouts: over(&a.spouts, &b.spouts),
        script_to_spout: over(&a.script_to_spout, &b.script_to_spout),
        txid_to_shared_secret: over(&a.txid_to_shared_secret, &b.txid_to_shared_secret),
        label_to_spout: a.label_to_spout.iter().chain(&b.label_to_spout).cloned().collect(),
        label_to_tweak: over(&a.label_to_tweak, &b.label_to_tweak),
        num_to_label: over(&a.num_to_label, &b.num_to_label),
    };
    ensure!(ab == want, "merged form", "{a:?} + {b:?} = {ab:?}");
    ensure!(merged(&ab, &c)? == merged(&a, &merged(&b, &c)?)?, "merging is not associative", "{a:?} {b:?} {c:?}");
    ensure!(merged(&a, &a)? == a, "merging is not idempotent", "{a:?}");
    let none = SpIndexesChangeSet::default();
    ensure!(merged(&none, &a)? == a && merged(&a, &none)? == a, "the empty form is not neutral", "{a:?}");
    // what is taken is all there was
    let mut t = a.clone();
    let taken = t.take();
    ensure_eq!(taken.clone().unwrap_or_default(), a.clone(), "taken form");
    ensure!(t.is_empty() && taken.is_some() == (entries(&a) > 0), "form left after taking", "{t:?}");

    // an index with labels and outputs finds and labels the same outputs when loaded
    let r = gen::receiver(s, 3);
    let mut ix = setup(&r, BTreeMap::new())?.indexes;
    let tweak = pt_g(Some(gen::secret(s))).unwrap();
    let labels: Vec<Option<u32>> = (0..s.size(0, 3))
        .map(|_| if r.labels.is_empty() || s.chance(1, 2) { None } else { Some(*s.pick(&r.labels)) })
        .collect();
    let tx = gen::tx(vec![fresh_input(s)], pay(s, &r, &tweak, &labels));
    for o in bip352::scan(&r, &tx, &tweak).owned {
        let x = spout(&o);
        ix.spouts.insert(o.outpoint, x.clone());
        ix.script_to_spout.insert(x.script_pubkey.clone(), x.clone());
        ix.label_to_spout.insert((x.label, x));
    }
    let format = s.below(3);
    let loaded = SpIndexes::from(store(format, &SpIndexesChangeSet::from(ix.clone()))?);
    ensure!(loaded == ix, "loaded index", "{loaded:?} / {ix:?}");
    let scan = |i: &SpIndexes| {
        let sc = Scanner::new(r.scan_sk, r.spend_pk(), i.label_to_tweak.clone());
        sc.scan_txouts(&tx, r.shared(&tweak)).map(|v| v.iter().map(owned).collect::<Vec<_>>())
    };
    let (x, y) = (guarded(|| scan(&ix))?, guarded(|| scan(&loaded))?);
    ensure!(matches!((&x, &y), (Ok(x), Ok(y)) if x == y && x.len() == labels.len()), "outputs found by the loaded index", "{x:?} / {y:?}");
    for m in 0..4 {
        let want = r.labels.contains(&m).then(|| Scalar::from(r.label(m)));
        ensure_eq!(loaded.get_label(m), want, "label of the loaded index");
    }
    for m in &r.labels {
        ensure_eq!(loaded.get_label(*m), Some(Scalar::from(r.label(*m))), "label of the loaded index");
    }
    if entries(&ab) < entries(&a) + entries(&b) {
        cx.nontrivial();
    }
    cx.label_if(entries(&a) == 0, "empty form");
    cx.label_if(merged(&b, &a)? != ab, "conflicting forms");
    cx.note(|| format!("forms of {}, {} and {} entries, {} payments", entries(&a), entries(&b), entries(&c), labels.len()));
    Ok(())
}
