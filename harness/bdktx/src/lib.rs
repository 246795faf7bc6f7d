//! The part of bdk_tx the wallet uses. It keeps what it is given, so that a check can look at it.
pub use bdk_chain::bitcoin;
pub use bdk_chain::miniscript;
use bitcoin::absolute::{Height, Time};
use bitcoin::{OutPoint, Transaction, TxOut, Txid};
use miniscript::plan::Plan;
use std::collections::{HashMap, HashSet};
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct TxStatus {
    pub height: Height,
    pub time: Time,
}
pub type TxWithStatus<T> = (T, Option<TxStatus>);

#[derive(Clone, Debug)]
pub struct Input {
    pub outpoint: OutPoint,
    pub txout: TxOut,
    pub plan: Plan,
    pub status: Option<TxStatus>,
    pub is_coinbase: bool,
}

pub struct CanonicalUnspents {
    txs: HashMap<Txid, (Arc<Transaction>, Option<TxStatus>)>,
    spends: HashSet<OutPoint>,
}
impl CanonicalUnspents {
    pub fn new<T: Into<Arc<Transaction>>>(canonical_txs: impl IntoIterator<Item = TxWithStatus<T>>) -> Self {
        let mut s = CanonicalUnspents { txs: HashMap::new(), spends: HashSet::new() };
        for (tx, status) in canonical_txs {
            let tx: Arc<Transaction> = tx.into();
            s.spends.extend(tx.input.iter().map(|i| i.previous_output));
            s.txs.insert(tx.compute_txid(), (tx, status));
        }
        s
    }
    pub fn try_get_unspents(&self, outpoints: impl IntoIterator<Item = (OutPoint, Plan)>) -> Vec<Input> {
        outpoints
            .into_iter()
            .filter(|(op, _)| !self.spends.contains(op))
            .filter_map(|(outpoint, plan)| {
                let (tx, status) = self.txs.get(&outpoint.txid)?;
                let txout = tx.output.get(outpoint.vout as usize)?.clone();
                Some(Input { outpoint, txout, plan, status: *status, is_coinbase: tx.is_coinbase() })
            })
            .collect()
    }
}

#[derive(Clone, Debug)]
pub struct InputCandidates {
    pub must_select: Vec<Input>,
    pub can_select: Vec<Input>,
}
impl InputCandidates {
    pub fn new(must_select: impl IntoIterator<Item = Input>, can_select: impl IntoIterator<Item = Input>) -> Self {
        InputCandidates { must_select: must_select.into_iter().collect(), can_select: can_select.into_iter().collect() }
    }
    pub fn inputs(&self) -> impl Iterator<Item = &Input> {
        self.must_select.iter().chain(&self.can_select)
    }
}

// ------------------------------------------------------------------- payments
use bdk_coin_select as cs;
pub use bdk_coin_select::ChangePolicy;
use bitcoin::transaction::Version;
use bitcoin::{absolute, relative, Amount, FeeRate, Psbt, ScriptBuf, Sequence, TxIn};
use miniscript::psbt::PsbtInputSatisfier;

impl Input {
    pub fn prev_outpoint(&self) -> OutPoint {
        self.outpoint
    }
    pub fn prev_txout(&self) -> &TxOut {
        &self.txout
    }
    pub fn plan(&self) -> Option<&Plan> {
        Some(&self.plan)
    }
    fn is_timelocked(&self, height: absolute::Height, time: absolute::Time) -> bool {
        let abs = self.plan.absolute_timelock.is_some_and(|l| !l.is_satisfied_by(height, time));
        let rel = self.plan.relative_timelock.is_some_and(|l| match (l, self.status) {
            (relative::LockTime::Blocks(n), Some(s)) => s.height.to_consensus_u32() + u32::from(n.value()) > height.to_consensus_u32() + 1,
            (relative::LockTime::Time(n), Some(s)) => s.time.to_consensus_u32() + u32::from(n.value()) * 512 > time.to_consensus_u32(),
            _ => true,
        });
        abs || rel
    }
    fn is_immature(&self, height: absolute::Height) -> bool {
        self.is_coinbase && self.status.is_none_or(|s| height.to_consensus_u32() + 1 < s.height.to_consensus_u32() + 100)
    }
}

pub fn group_by_spk() -> impl Fn(&Input) -> ScriptBuf {
    |i| i.txout.script_pubkey.clone()
}
pub fn filter_unspendable_now(height: absolute::Height, time: absolute::Time) -> impl Fn(&Input) -> bool {
    move |i| !i.is_immature(height) && !i.is_timelocked(height, time)
}

/// Candidates in groups, which are spent together or not at all.
pub struct Grouped {
    groups: Vec<Vec<Input>>,
}
impl InputCandidates {
    pub fn regroup<G: Eq + std::hash::Hash>(self, mut policy: impl FnMut(&Input) -> G) -> Grouped {
        let mut at: HashMap<G, usize> = HashMap::new();
        let mut groups: Vec<Vec<Input>> = vec![];
        for i in self.must_select.into_iter().chain(self.can_select) {
            let n = groups.len();
            let k = *at.entry(policy(&i)).or_insert(n);
            if k == n {
                groups.push(vec![]);
            }
            groups[k].push(i);
        }
        Grouped { groups }
    }
}
impl Grouped {
    pub fn filter(self, mut policy: impl FnMut(&Input) -> bool) -> Self {
        let groups = self.groups.into_iter().map(|g| g.into_iter().filter(|i| policy(i)).collect::<Vec<_>>());
        Grouped { groups: groups.filter(|g| !g.is_empty()).collect() }
    }
    pub fn into_selection<E>(
        self,
        mut algorithm: impl FnMut(&mut Selector) -> Result<(), E>,
        params: SelectorParams,
    ) -> Result<Selection, IntoSelectionError<E>> {
        let candidates: Vec<cs::Candidate> = self
            .groups
            .iter()
            .map(|g| cs::Candidate {
                value: g.iter().map(|i| i.txout.value.to_sat()).sum(),
                weight: g.iter().map(|i| cs::TXIN_BASE_WEIGHT + i.plan.satisfaction_weight() as u64).sum(),
                input_count: g.len(),
                is_segwit: true,
            })
            .collect();
        let FeeStrategy::FeeRate(rate) = params.fee;
        let target = cs::Target {
            fee: cs::TargetFee::from_feerate(cs::FeeRate::from_sat_per_wu(rate.to_sat_per_kwu() as f32 / 1000.0)),
            outputs: cs::TargetOutputs::fund_outputs(params.outputs.iter().map(|o| (o.txout().weight().to_wu(), o.value.to_sat()))),
        };
        let mut s = Selector { inner: cs::CoinSelector::new(&candidates), target, policy: params.policy };
        if !s.inner.is_selection_possible(target) {
            return Err(IntoSelectionError::CannotMeetTarget);
        }
        algorithm(&mut s).map_err(IntoSelectionError::SelectionAlgorithm)?;
        if !s.inner.is_target_met(target) {
            return Err(IntoSelectionError::CannotMeetTarget);
        }
        let drain = s.inner.drain(target, params.policy);
        let inputs = s.inner.apply_selection(&self.groups).flatten().cloned().collect();
        let mut outputs = params.outputs;
        if drain.is_some() {
            outputs.push(Output { value: Amount::from_sat(drain.value), script: params.change });
        }
        Ok(Selection { inputs, outputs })
    }
}

#[derive(Debug)]
pub enum IntoSelectionError<E> {
    CannotMeetTarget,
    SelectionAlgorithm(E),
}
impl<E: std::fmt::Display> std::fmt::Display for IntoSelectionError<E> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match self {
            Self::CannotMeetTarget => write!(f, "the target cannot be met"),
            Self::SelectionAlgorithm(e) => write!(f, "{e}"),
        }
    }
}
impl<E: std::fmt::Display + std::fmt::Debug> std::error::Error for IntoSelectionError<E> {}

pub struct Selector<'a> {
    inner: cs::CoinSelector<'a>,
    target: cs::Target,
    policy: ChangePolicy,
}
pub fn selection_algorithm_lowest_fee_bnb(
    longterm_feerate: FeeRate,
    max_rounds: usize,
) -> impl FnMut(&mut Selector) -> Result<(), cs::NoBnbSolution> {
    let long_term_feerate = cs::FeeRate::from_sat_per_wu(longterm_feerate.to_sat_per_kwu() as f32 / 1000.0);
    move |s| {
        let metric = cs::metrics::LowestFee { target: s.target, long_term_feerate, change_policy: s.policy };
        s.inner.run_bnb(metric, max_rounds).map(|_| ())
    }
}

pub enum FeeStrategy {
    FeeRate(FeeRate),
}
#[derive(Clone, Debug)]
pub struct Output {
    pub value: Amount,
    script: ScriptSource,
}
impl Output {
    pub fn with_script(script: ScriptBuf, value: Amount) -> Self {
        Output { value, script: ScriptSource(script) }
    }
    pub fn txout(&self) -> TxOut {
        TxOut { value: self.value, script_pubkey: self.script.0.clone() }
    }
}
#[derive(Clone, Debug)]
pub struct ScriptSource(ScriptBuf);
impl ScriptSource {
    pub fn from_script(script: ScriptBuf) -> Self {
        ScriptSource(script)
    }
}
pub struct SelectorParams {
    fee: FeeStrategy,
    outputs: Vec<Output>,
    change: ScriptSource,
    policy: ChangePolicy,
}
impl SelectorParams {
    pub fn new(fee: FeeStrategy, outputs: Vec<Output>, change: ScriptSource, policy: ChangePolicy) -> Self {
        SelectorParams { fee, outputs, change, policy }
    }
}

pub struct PsbtParams {
    pub version: Version,
    pub fallback_locktime: absolute::LockTime,
    pub fallback_sequence: Sequence,
    pub mandate_full_tx_for_segwit_v0: bool,
}
impl Default for PsbtParams {
    fn default() -> Self {
        PsbtParams {
            version: Version::TWO,
            fallback_locktime: absolute::LockTime::ZERO,
            fallback_sequence: Sequence::ENABLE_LOCKTIME_NO_RBF,
            mandate_full_tx_for_segwit_v0: true,
        }
    }
}
#[derive(Clone, Debug)]
pub struct Selection {
    pub inputs: Vec<Input>,
    pub outputs: Vec<Output>,
}
impl Selection {
    pub fn create_psbt(&self, params: PsbtParams) -> Result<Psbt, bitcoin::psbt::Error> {
        let mut psbt = Psbt::from_unsigned_tx(Transaction {
            version: params.version,
            lock_time: params.fallback_locktime,
            input: self
                .inputs
                .iter()
                .map(|i| TxIn { previous_output: i.outpoint, sequence: params.fallback_sequence, ..Default::default() })
                .collect(),
            output: self.outputs.iter().map(Output::txout).collect(),
        })?;
        for (p, i) in psbt.inputs.iter_mut().zip(&self.inputs) {
            i.plan.update_psbt_input(p);
            p.witness_utxo = Some(i.txout.clone());
        }
        Ok(psbt)
    }
    pub fn into_finalizer(self) -> Finalizer {
        Finalizer { plans: self.inputs.into_iter().map(|i| (i.outpoint, i.plan)).collect() }
    }
}
pub struct Finalizer {
    plans: HashMap<OutPoint, Plan>,
}
impl Finalizer {
    /// Whether each input is final.
    pub fn finalize(&self, psbt: &mut Psbt) -> Vec<bool> {
        (0..psbt.inputs.len())
            .map(|i| {
                let Some(plan) = self.plans.get(&psbt.unsigned_tx.input[i].previous_output) else { return false };
                let Ok((stack, script)) = plan.satisfy(&PsbtInputSatisfier::new(psbt, i)) else { return false };
                let old = std::mem::take(&mut psbt.inputs[i]);
                let new = &mut psbt.inputs[i];
                new.witness_utxo = old.witness_utxo;
                new.non_witness_utxo = old.non_witness_utxo;
                new.unknown = old.unknown;
                new.final_script_sig = (!script.is_empty()).then_some(script);
                new.final_script_witness = (!stack.is_empty()).then(|| bitcoin::Witness::from_slice(&stack));
                true
            })
            .collect()
    }
}
