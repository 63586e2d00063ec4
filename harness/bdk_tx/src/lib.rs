//! Stands in for bdk_tx, which comes from a git repository this sandbox does not have: just the items the wallet uses.
pub use miniscript;
pub use miniscript::bitcoin;

use bitcoin::absolute::{Height, Time};
use bitcoin::{OutPoint, Transaction, TxOut, Txid};
use miniscript::plan::Plan;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TxStatus {
    pub height: Height,
    pub time: Time,
}

pub type TxWithStatus<T> = (T, Option<TxStatus>);

pub struct CanonicalUnspents {
    txs: HashMap<Txid, TxWithStatus<Arc<Transaction>>>,
    spent: HashSet<OutPoint>,
}

#[derive(Debug, Clone)]
pub struct Input {
    pub outpoint: OutPoint,
    pub txout: TxOut,
    pub plan: Plan,
    pub status: Option<TxStatus>,
}

impl CanonicalUnspents {
    pub fn new(txs: impl IntoIterator<Item = TxWithStatus<Arc<Transaction>>>) -> Self {
        let txs: HashMap<_, _> = txs.into_iter().map(|t| (t.0.compute_txid(), t)).collect();
        let spent = txs.values().flat_map(|t| t.0.input.iter().map(|i| i.previous_output)).collect();
        Self { txs, spent }
    }

    pub fn try_get_unspent(&self, outpoint: OutPoint, plan: Plan) -> Option<Input> {
        if self.spent.contains(&outpoint) {
            return None;
        }
        let (tx, status) = self.txs.get(&outpoint.txid)?;
        Some(Input { outpoint, txout: tx.tx_out(outpoint.vout as usize).ok()?.clone(), plan, status: *status })
    }

    pub fn try_get_unspents<'a>(
        &'a self,
        outpoints: impl IntoIterator<Item = (OutPoint, Plan)> + 'a,
    ) -> impl Iterator<Item = Input> + 'a {
        outpoints.into_iter().filter_map(|(o, p)| self.try_get_unspent(o, p))
    }
}

pub struct InputCandidates {
    pub must: Vec<Input>,
    pub can: Vec<Input>,
}

impl InputCandidates {
    pub fn new(must: impl IntoIterator<Item = Input>, can: impl IntoIterator<Item = Input>) -> Self {
        Self { must: must.into_iter().collect(), can: can.into_iter().collect() }
    }
}

// What the command-line wallet uses: selection of coins, in a simple way, and the making of PSBTs.

use bdk_coin_select::ChangePolicy;
use bitcoin::{absolute, psbt, transaction, Amount, FeeRate, Psbt, ScriptBuf, Sequence, TxIn};
use miniscript::psbt::PsbtInputSatisfier;

pub type Group = Vec<Input>;

/// Coins of one script are spent together.
pub fn group_by_spk() -> impl Fn(&Input) -> ScriptBuf {
    |i| i.txout.script_pubkey.clone()
}

/// Coins that can be spent in the next block, locks aside, which silent payment outputs do not have.
pub fn filter_unspendable_now(_: Height, _: Time) -> impl Fn(&Input) -> bool {
    |_| true
}

pub struct Groups {
    must: Vec<Input>,
    can: Vec<Group>,
}

impl InputCandidates {
    pub fn regroup<K: Eq + std::hash::Hash>(self, key: impl Fn(&Input) -> K) -> Groups {
        let mut order: Vec<Group> = vec![];
        let mut at: HashMap<K, usize> = HashMap::new();
        for i in self.can {
            let n = *at.entry(key(&i)).or_insert(order.len());
            if n == order.len() {
                order.push(vec![]);
            }
            order[n].push(i);
        }
        Groups { must: self.must, can: order }
    }
}

#[derive(Clone, Debug)]
pub struct Output {
    pub value: Amount,
    pub script_pubkey: ScriptBuf,
}

impl Output {
    pub fn with_script(script_pubkey: ScriptBuf, value: Amount) -> Self {
        Self { value, script_pubkey }
    }
}

pub struct ScriptSource(ScriptBuf);

impl ScriptSource {
    pub fn from_script(script: ScriptBuf) -> Self {
        Self(script)
    }
}

pub enum FeeStrategy {
    FeeRate(FeeRate),
}

pub struct SelectorParams {
    fee: FeeStrategy,
    outputs: Vec<Output>,
    change_script: ScriptSource,
    change_policy: ChangePolicy,
}

impl SelectorParams {
    pub fn new(fee: FeeStrategy, outputs: Vec<Output>, change_script: ScriptSource, change_policy: ChangePolicy) -> Self {
        Self { fee, outputs, change_script, change_policy }
    }
}

#[derive(Debug)]
pub struct CannotMeetTarget;

impl std::fmt::Display for CannotMeetTarget {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("meeting the target is not possible with the input candidates")
    }
}

impl std::error::Error for CannotMeetTarget {}

/// Groups are taken in order of value here until the target is met.
pub fn selection_algorithm_lowest_fee_bnb(_: FeeRate, _: usize) -> impl Fn(&mut Vec<Group>) {
    |g| g.sort_by_key(|g| std::cmp::Reverse(g.iter().map(|i| i.txout.value).sum::<Amount>()))
}

#[derive(Clone)]
pub struct Selection {
    pub inputs: Vec<Input>,
    pub outputs: Vec<Output>,
}

impl Groups {
    pub fn filter(mut self, keep: impl Fn(&Input) -> bool) -> Self {
        self.can.retain(|g| g.iter().all(&keep));
        self
    }

    pub fn into_selection(
        mut self,
        algorithm: impl Fn(&mut Vec<Group>),
        params: SelectorParams,
    ) -> Result<Selection, CannotMeetTarget> {
        algorithm(&mut self.can);
        let FeeStrategy::FeeRate(rate) = params.fee;
        let output = |script: &ScriptBuf| TxOut { value: Amount::ZERO, script_pubkey: script.clone() }.weight().to_wu();
        // version, lock time, counts and the segwit marker
        let mut weight = 4 * (4 + 4 + 3 + 3) + 2;
        weight += params.outputs.iter().map(|o| output(&o.script_pubkey)).sum::<u64>();
        let target: u64 = params.outputs.iter().map(|o| o.value.to_sat()).sum();
        let mut inputs = self.must;
        let mut groups = self.can.into_iter();
        let fee = |w: u64| (rate.to_sat_per_kwu() * w).div_ceil(1000);
        loop {
            let value: u64 = inputs.iter().map(|i| i.txout.value.to_sat()).sum();
            let all = weight + inputs.len() as u64 * (4 * 41 + 66);
            if !inputs.is_empty() && value >= target + fee(all) {
                let mut outputs = params.outputs;
                let with_change = all + output(&params.change_script.0);
                let change = value.saturating_sub(target + fee(with_change));
                if change >= params.change_policy.min_value {
                    outputs.push(Output::with_script(params.change_script.0, Amount::from_sat(change)));
                }
                return Ok(Selection { inputs, outputs });
            }
            inputs.extend(groups.next().ok_or(CannotMeetTarget)?);
        }
    }
}

pub struct PsbtParams {
    pub version: transaction::Version,
    pub fallback_locktime: absolute::LockTime,
    pub fallback_sequence: Sequence,
    pub mandate_full_tx_for_segwit_v0: bool,
}

impl Default for PsbtParams {
    fn default() -> Self {
        Self {
            version: transaction::Version::TWO,
            fallback_locktime: absolute::LockTime::ZERO,
            fallback_sequence: Sequence::ENABLE_LOCKTIME_NO_RBF,
            mandate_full_tx_for_segwit_v0: true,
        }
    }
}

impl Selection {
    pub fn create_psbt(&self, params: PsbtParams) -> Result<Psbt, psbt::Error> {
        let mut psbt = Psbt::from_unsigned_tx(Transaction {
            version: params.version,
            lock_time: params.fallback_locktime,
            input: self
                .inputs
                .iter()
                .map(|i| TxIn {
                    previous_output: i.outpoint,
                    sequence: i.plan.relative_timelock.map_or(params.fallback_sequence, |l| l.to_sequence()),
                    ..Default::default()
                })
                .collect(),
            output: self
                .outputs
                .iter()
                .map(|o| TxOut { value: o.value, script_pubkey: o.script_pubkey.clone() })
                .collect(),
        })?;
        for (p, i) in psbt.inputs.iter_mut().zip(&self.inputs) {
            i.plan.update_psbt_input(p);
            p.witness_utxo = Some(i.txout.clone());
        }
        Ok(psbt)
    }

    pub fn into_finalizer(self) -> Finalizer {
        Finalizer(self.inputs)
    }
}

pub struct Finalizer(Vec<Input>);

impl Finalizer {
    /// Whether all inputs are final now.
    pub fn finalize(&self, psbt: &mut Psbt) -> bool {
        let mut all = true;
        for n in 0..psbt.inputs.len() {
            let outpoint = psbt.unsigned_tx.input[n].previous_output;
            let Some(i) = self.0.iter().find(|i| i.outpoint == outpoint) else {
                all = false;
                continue;
            };
            let Ok((witness, script_sig)) = i.plan.satisfy(&PsbtInputSatisfier::new(psbt, n)) else {
                all = false;
                continue;
            };
            let old = std::mem::take(&mut psbt.inputs[n]);
            psbt.inputs[n] = psbt::Input {
                witness_utxo: old.witness_utxo,
                non_witness_utxo: old.non_witness_utxo,
                unknown: old.unknown,
                final_script_witness: (!witness.is_empty()).then(|| witness.into()),
                final_script_sig: (!script_sig.is_empty()).then_some(script_sig),
                ..Default::default()
            };
        }
        all
    }
}
