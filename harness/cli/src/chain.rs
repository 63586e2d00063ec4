//! Histories of a chain with payments to a wallet, its spends, transactions of others and reorganisations.
use crate::node::{self, State};
use bitcoin::{
    absolute, block, constants, transaction, Amount, Block, Network, OutPoint, ScriptBuf, Sequence, Transaction, TxIn,
    TxOut, Txid, Witness,
};
use engine::*;
use refmodel::bip352::{p_k, Owned, Receiver};
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::sync::{Arc, Mutex};

pub struct Chain {
    pub url: String,
    pub node: Arc<Mutex<State>>,
    /// the transactions of each block of the best chain, the coinbase first; index 0 is the genesis block
    pub blocks: Vec<Block>,
    pub r: Receiver,
    /// what the receiver owns of each transaction ever made
    pub owned: HashMap<Txid, Vec<Owned>>,
    /// a transaction in a removed block was left out or replaced since
    pub left_out: Vec<Transaction>,
    pub dropped: bool,
    /// blocks below are not looked at
    pub from: usize,
    nonce: u32,
    pub max_amount: u64,
}

#[derive(Clone, Debug)]
pub struct Coin {
    pub owned: Owned,
    pub height: usize,
}

impl Chain {
    pub fn new(network: Network, r: Receiver) -> Chain {
        let (url, node) = node::serve();
        let g = constants::genesis_block(network);
        {
            let mut n = node.lock().unwrap();
            n.best.push(g.block_hash());
            n.blocks.insert(g.block_hash(), (g.clone(), 0));
        }
        Chain {
            url,
            node,
            blocks: vec![g],
            r,
            owned: HashMap::new(),
            left_out: vec![],
            dropped: false,
            from: 0,
            nonce: 0,
            max_amount: 21_000_000 * 100_000_000,
        }
    }

    /// The receiver's coins in the best chain that are not spent in it, and their number before spends.
    pub fn unspent(&self) -> BTreeMap<OutPoint, Coin> {
        let mut c = BTreeMap::new();
        for (height, b) in self.blocks.iter().enumerate().skip(self.from) {
            for t in b.txdata.iter().skip(if height == 0 { 1 } else { 0 }) {
                for i in &t.input {
                    c.remove(&i.previous_output);
                }
                for o in self.owned.get(&t.compute_txid()).into_iter().flatten() {
                    c.insert(o.outpoint, Coin { owned: o.clone(), height });
                }
            }
        }
        c
    }

    pub fn balance(&self) -> u64 {
        self.unspent().values().map(|c| c.owned.out.value.to_sat()).sum()
    }

    /// What may be waiting for confirmation again: change and other payments.
    pub fn pending(&self) -> (u64, u64) {
        let confirmed: BTreeSet<Txid> = self.blocks.iter().flat_map(|b| &b.txdata).map(|t| t.compute_txid()).collect();
        let (mut change, mut others) = (0, 0);
        for o in self.owned.iter().filter(|o| !confirmed.contains(o.0)).flat_map(|o| o.1) {
            *(if o.label == Some(0) { &mut change } else { &mut others }) += o.out.value.to_sat();
        }
        (change, others)
    }

    pub fn is_owned(&self, o: &OutPoint) -> bool {
        self.owned.get(&o.txid).is_some_and(|v| v.iter().any(|x| x.outpoint == *o))
    }

    pub fn prevouts(&self, tx: &Transaction) -> Vec<TxOut> {
        let n = self.node.lock().unwrap();
        tx.input
            .iter()
            .map(|i| n.txs[&i.previous_output.txid].output[i.previous_output.vout as usize].clone())
            .collect()
    }

    /// Takes note of a transaction; refused when what the receiver owns of it is not defined by BIP352.
    pub fn learn(&mut self, tx: &Transaction) -> bool {
        let prev = self.prevouts(tx);
        let mut own = vec![];
        if let Some(t) = tweak_data(tx, &prev) {
            let m = scan(&self.r, tx, &t);
            if m.ambiguous {
                return false;
            }
            own = m.owned;
        }
        self.owned.insert(tx.compute_txid(), own);
        self.node.lock().unwrap().txs.insert(tx.compute_txid(), tx.clone());
        true
    }

    fn amount(&self, s: &mut Src) -> Amount {
        Amount::from_sat(gen::amount(s).to_sat() % self.max_amount)
    }

    /// An input of somebody else, from a transaction the node knows.
    fn foreign_input(&mut self, s: &mut Src, kind: gen::InKind, secret: bitcoin::secp256k1::SecretKey) -> TxIn {
        let mut g = gen::gen_input(s, kind, secret, OutPoint::null());
        let mut from = TxIn::default();
        from.previous_output.txid = bitcoin::hashes::Hash::from_byte_array(s.bytes32());
        self.nonce += 1;
        from.previous_output.vout = self.nonce;
        let before = if s.chance(1, 200) { 250 + s.size(0, 20) } else { s.size(0, 2) };
        let mut outs: Vec<TxOut> = (0..before).map(|_| gen::foreign_output(s)).collect();
        outs.push(g.prevout.clone());
        if s.chance(1, 12) {
            // an anchor
            outs.push(TxOut { value: Amount::ZERO, script_pubkey: ScriptBuf::from_bytes(vec![0x51, 2, 0x4e, 0x73]) });
        }
        let fund = gen::tx(vec![from], outs);
        g.txin.previous_output = OutPoint::new(fund.compute_txid(), before as u32);
        self.node.lock().unwrap().txs.insert(fund.compute_txid(), fund);
        g.txin
    }

    fn foreign_inputs(&mut self, s: &mut Src, lo: usize, ineligible: bool) -> Vec<TxIn> {
        let mut v = vec![];
        let mut keys = vec![];
        for _ in 0..gen::several(s, lo, 3, 25) {
            let kind =
                if ineligible && s.chance(1, 3) { *s.pick(&gen::INELIGIBLE) } else { *s.pick(&gen::ELIGIBLE) };
            let k = if !keys.is_empty() && s.chance(1, 6) {
                let k: bitcoin::secp256k1::SecretKey = *s.pick(&keys);
                k.negate()
            } else {
                gen::secret(s)
            };
            keys.push(k);
            v.push(self.foreign_input(s, kind, k));
        }
        v
    }

    fn own_input(&self, s: &mut Src, o: OutPoint) -> TxIn {
        TxIn {
            previous_output: o,
            script_sig: ScriptBuf::new(),
            sequence: Sequence(s.below(3) as u32),
            witness: Witness::from_slice(&[vec![s.u8(); 64]]),
        }
    }

    /// Outputs for the inputs: payments to codes handed out, and others.
    fn outputs(&mut self, s: &mut Src, tx: &mut Transaction, pay: usize, foreign: usize, taproot: bool) {
        let prev = self.prevouts(tx);
        let tweak = tweak_data(tx, &prev).unwrap_or_else(g);
        let shared = self.r.shared(&tweak);
        let mut outs = vec![];
        for k in 0..pay {
            let l = if !self.r.labels.is_empty() && s.chance(1, 2) { Some(*s.pick(&self.r.labels)) } else { None };
            let p = p_k(&shared, k as u32, &self.r.spend_for(l)).expect("not infinity");
            let value = self.amount(s);
            outs.push(TxOut { value, script_pubkey: p2tr(&xonly(&p)) });
        }
        for _ in 0..foreign {
            let o = gen::foreign_output(s);
            if taproot || !o.script_pubkey.is_p2tr() {
                outs.push(o);
            }
        }
        if outs.is_empty() {
            outs.push(TxOut { value: self.amount(s), script_pubkey: gen::p2wpkh(&s.bytes32()) });
        }
        s.shuffle(&mut outs);
        tx.output = outs;
    }

    /// A payment of these amounts to the plain code.
    #[allow(dead_code)]
    pub fn payment(&mut self, s: &mut Src, amounts: &[u64]) -> Transaction {
        let k = gen::secret(s);
        let i = self.foreign_input(s, gen::InKind::Wpkh, k);
        let mut tx = gen::tx(vec![i], vec![]);
        let tweak = tweak_data(&tx, &self.prevouts(&tx)).expect("eligible input");
        let shared = self.r.shared(&tweak);
        for (k, a) in amounts.iter().enumerate() {
            let p = p_k(&shared, k as u32, &self.r.spend_pk()).expect("not infinity");
            tx.output.push(TxOut { value: Amount::from_sat(*a), script_pubkey: p2tr(&xonly(&p)) });
        }
        assert!(self.learn(&tx));
        tx
    }

    /// A new transaction, spending some of these coins.
    pub fn gen_tx(&mut self, s: &mut Src, coins: &BTreeMap<OutPoint, Coin>) -> Option<Transaction> {
        let coins: Vec<OutPoint> = coins.keys().copied().collect();
        let kind = s.weighted(&[4, if coins.is_empty() { 0 } else { 2 }, 1]);
        let mut ins = vec![];
        let own = |c: &Chain, s: &mut Src, ins: &mut Vec<TxIn>, n: usize| {
            let mut left = coins.clone();
            for _ in 0..n {
                if left.is_empty() {
                    break;
                }
                let i = s.below(left.len() as u64) as usize;
                ins.push(c.own_input(s, left.swap_remove(i)));
            }
        };
        match kind {
            0 => {
                ins = self.foreign_inputs(s, 1, true);
                if s.chance(1, 5) {
                    own(self, s, &mut ins, 1);
                }
            }
            1 => {
                let n = if s.chance(1, 8) { s.size(4, 12) } else { s.size(1, 3) };
                own(self, s, &mut ins, n);
                if s.chance(1, 3) {
                    let f = self.foreign_inputs(s, 0, true);
                    ins.extend(f);
                }
            }
            _ => ins = self.foreign_inputs(s, 1, true),
        }
        s.shuffle(&mut ins);
        let mut tx = gen::tx(ins, vec![]);
        tx.version = transaction::Version(*s.pick(&[2, 1, 3]));
        if s.chance(1, 8) {
            tx.lock_time = absolute::LockTime::from_consensus(s.u32());
        }
        match kind {
            0 => {
                let most = if s.chance(1, 3) { 300 } else { 40 };
                let (p, f) = (gen::several(s, 1, 3, 12), gen::several(s, 0, 2, most));
                self.outputs(s, &mut tx, p, f, true)
            }
            1 => {
                let (p, f, t) = (s.size(0, 2), s.size(0, 2), s.chance(1, 2));
                self.outputs(s, &mut tx, p, f, t)
            }
            _ => {
                let f = s.size(1, 3);
                self.outputs(s, &mut tx, 0, f, true)
            }
        }
        self.learn(&tx).then_some(tx)
    }

    /// Puts a block with these transactions on top.
    pub fn mine(&mut self, s: &mut Src, txs: Vec<Transaction>) {
        let height = self.blocks.len();
        self.nonce += 1;
        let mut sig = vec![4];
        sig.extend_from_slice(&(height as u32).to_le_bytes());
        sig.push(4);
        sig.extend_from_slice(&self.nonce.to_le_bytes());
        let mut outs: Vec<TxOut> = (0..s.size(0, 2)).map(|_| gen::foreign_output(s)).collect();
        if outs.is_empty() {
            outs.push(TxOut { value: Amount::from_sat(50), script_pubkey: ScriptBuf::from_bytes(vec![0x51]) });
        }
        let cb = Transaction {
            version: transaction::Version::TWO,
            lock_time: absolute::LockTime::ZERO,
            input: vec![TxIn {
                previous_output: OutPoint::null(),
                script_sig: ScriptBuf::from_bytes(sig),
                sequence: Sequence::MAX,
                witness: Witness::default(),
            }],
            output: outs,
        };
        self.owned.insert(cb.compute_txid(), vec![]);
        let mut txdata = vec![cb];
        txdata.extend(txs);
        let mut b = Block {
            header: block::Header {
                version: block::Version::TWO,
                prev_blockhash: self.blocks.last().unwrap().block_hash(),
                merkle_root: bitcoin::hashes::Hash::all_zeros(),
                time: 1_700_000_000 + 600 * height as u32,
                bits: bitcoin::CompactTarget::from_consensus(0x207fffff),
                nonce: self.nonce,
            },
            txdata,
        };
        b.header.merkle_root = b.compute_merkle_root().expect("has a coinbase");
        while b.header.validate_pow(b.header.target()).is_err() {
            b.header.nonce = b.header.nonce.wrapping_add(1);
        }
        let mut n = self.node.lock().unwrap();
        n.best.push(b.block_hash());
        n.add(b.clone(), height);
        self.blocks.push(b);
    }

    /// Up to that many new transactions, each seeing the ones before, for the next block.
    pub fn gen_txs(&mut self, s: &mut Src, max: usize) -> Vec<Transaction> {
        let mut coins = self.unspent();
        let mut txs = vec![];
        let mut spent: BTreeSet<OutPoint> = BTreeSet::new();
        for _ in 0..s.size(0, max) {
            if !self.left_out.is_empty() && s.chance(1, 5) {
                // one left out before is confirmed after all
                let i = s.below(self.left_out.len() as u64) as usize;
                let t = self.left_out.swap_remove(i);
                self.take(&t, &mut coins, &mut spent);
                txs.push(t);
                continue;
            }
            if let Some(t) = self.gen_tx(s, &coins) {
                self.take(&t, &mut coins, &mut spent);
                txs.push(t);
            }
        }
        txs
    }

    fn take(&self, t: &Transaction, coins: &mut BTreeMap<OutPoint, Coin>, spent: &mut BTreeSet<OutPoint>) {
        for i in &t.input {
            coins.remove(&i.previous_output);
            spent.insert(i.previous_output);
        }
        for o in &self.owned[&t.compute_txid()] {
            coins.insert(o.outpoint, Coin { owned: o.clone(), height: self.blocks.len() });
        }
    }

    /// Replaces the last blocks by more others. Their transactions are confirmed again, left out or replaced; those
    /// left out spend no coin of the receiver and are not spent in the blocks removed.
    pub fn reorg(&mut self, s: &mut Src, depth: usize, may_drop: bool) {
        let depth = depth.min(self.blocks.len() - 1);
        let removed: Vec<Block> = self.blocks.split_off(self.blocks.len() - depth);
        {
            let mut n = self.node.lock().unwrap();
            n.best.truncate(self.blocks.len());
        }
        let old: Vec<Transaction> = removed.iter().flat_map(|b| b.txdata.iter().skip(1).cloned()).collect();
        let used: BTreeSet<Txid> = old.iter().flat_map(|t| t.input.iter().map(|i| i.previous_output.txid)).collect();
        let mut new: Vec<Transaction> = vec![];
        for t in old {
            let leaf = !used.contains(&t.compute_txid());
            let spends = t.input.iter().any(|i| self.is_owned(&i.previous_output));
            if may_drop && leaf && !spends && s.chance(1, 4) {
                self.left_out.push(t);
                self.dropped = true;
                continue;
            }
            if may_drop && leaf && s.chance(1, 4) {
                // another transaction with the same inputs takes its place
                let mut other = t.clone();
                let (p, f) = (s.size(0, 2), s.size(0, 2));
                self.outputs(s, &mut other, p, f, true);
                if other != t && self.learn(&other) {
                    new.push(other);
                    self.dropped = true;
                    continue;
                }
            }
            new.push(t);
        }
        let n = depth + s.size(1, 2);
        let mut at: Vec<usize> = new.iter().map(|_| s.below(n as u64) as usize).collect();
        at.sort();
        for b in 0..n {
            let mut txs: Vec<Transaction> =
                new.iter().zip(&at).filter(|(_, a)| **a == b).map(|(t, _)| t.clone()).collect();
            if b + 1 == n {
                // everything else is confirmed again: what is new may spend it in the next blocks
                let more = if s.chance(1, 3) { self.foreign_only(s) } else { vec![] };
                txs.extend(more);
            }
            self.mine(s, txs);
        }
    }

    fn foreign_only(&mut self, s: &mut Src) -> Vec<Transaction> {
        self.gen_tx(s, &BTreeMap::new()).into_iter().collect()
    }
}
