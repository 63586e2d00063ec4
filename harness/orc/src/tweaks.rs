//! C26: the blocks the tweak subscriber reports.
use crate::filters::synced;
use crate::mock::*;
use bdk_sp_oracles::bip157::{Event, IndexedFilter};
use bdk_sp_oracles::filters::kyoto::{FilterEvent, FilterSubscriber};
use bdk_sp_oracles::tweaks::blindbit::{BlindbitSubscriber, TweakEvent};
use bitcoin::bip158::BlockFilter;
use bitcoin::secp256k1::PublicKey;
use bitcoin::{absolute, block, Block, BlockHash, OutPoint, ScriptBuf, Transaction, TxIn, TxOut};
use engine::*;
use futures::FutureExt;
use indexer::bdk_chain::{BlockId, ConfirmationBlockTime};
use indexer::v2::SpIndexerV2;
use refmodel::bip352::{p_k, Receiver};
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use tokio::sync::mpsc::unbounded_channel;

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C26",
        "up to 25 blocks, now and then 260, some replaced, paying or spending from the wallet or neither, with tweak lists served late, in pieces, among many others or not at all, announced in one or several batches; non-trivial when a block concerns the wallet",
        2_500,
        40_000,
        reports,
    )
    .pinned(&[("spend_without_tweaks", pinned_spend), ("nothing_to_look_for", pinned_nothing), ("failed_request", pinned_failed), ("thousands_of_tweaks", pinned_thousands)])
    .shrink_budget(1500)]
}

static NUMBER: AtomicU64 = AtomicU64::new(0);
static CWD: Mutex<()> = Mutex::new(());

/// A directory of its own for the filter database, which is created in the working directory.
struct Scratch(PathBuf);

impl Scratch {
    fn new() -> Scratch {
        let base = if PathBuf::from("/dev/shm").is_dir() { PathBuf::from("/dev/shm") } else { std::env::temp_dir() };
        let n = NUMBER.fetch_add(1, Ordering::Relaxed);
        let p = base.join(format!("sp-orc-{}-{n}", std::process::id()));
        std::fs::create_dir_all(&p).expect("a scratch directory");
        Scratch(p)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

struct B {
    height: u32,
    block: Block,
    hash: BlockHash,
    tweaks: Vec<PublicKey>,
    filter: Vec<u8>,
    answer: Answer,
    fails: bool,
    pays: bool,
    spends: bool,
    candidates: std::cell::OnceCell<Candidates>,
}

/// The scripts to look for and the tweaks they may come from.
type Candidates = BTreeMap<[u8; 34], BTreeSet<[u8; 33]>>;

struct World {
    r: Receiver,
    unspent: Vec<[u8; 34]>,
    serial: u32,
}

fn spk34(s: &ScriptBuf) -> [u8; 34] {
    s.to_bytes().try_into().expect("a taproot script")
}

impl World {
    fn new(s: &mut Src) -> World {
        let max = if s.chance(1, 15) { 20 } else { 3 };
        let r = gen::receiver(s, max);
        let mut unspent = vec![];
        for _ in 0..s.size(0, 4) {
            unspent.push(spk34(&p2tr(&xonly(&pt_g(Some(gen::random_secret(s))).unwrap()))));
        }
        World { r, unspent, serial: 0 }
    }

    fn txin(&mut self, s: &mut Src, prev: &mut HashMap<OutPoint, ScriptBuf>, script: ScriptBuf) -> TxIn {
        self.serial += 1;
        let o = OutPoint::new(bitcoin::hashes::Hash::hash(&self.serial.to_le_bytes()), s.below(3) as u32);
        prev.insert(o, script);
        TxIn { previous_output: o, ..Default::default() }
    }

    fn block(&mut self, s: &mut Src, height: u32, fault: bool) -> B {
        let mut prevouts = HashMap::new();
        let mut txdata = vec![gen::tx(
            vec![TxIn { previous_output: OutPoint::null(), ..Default::default() }],
            vec![TxOut { value: gen::amount(s), script_pubkey: ScriptBuf::from_bytes(vec![0x51]) }],
        )];
        let mut tweaks = vec![];
        let (mut pays, mut spends) = (false, false);
        let kinds: &[u64] = &[4, 3, 3, 2];
        for _ in 0..s.size(0, 3) {
            let kind = s.weighted(kinds);
            let mut ins = vec![];
            let mut outs: Vec<TxOut> = (0..s.size(0, 2)).map(|_| gen::foreign_output(s)).collect();
            if kind == 2 && !self.unspent.is_empty() {
                let u = *s.pick(&self.unspent);
                ins.push(self.txin(s, &mut prevouts, ScriptBuf::from_bytes(u.to_vec())));
                spends = true;
            }
            let other = ScriptBuf::from_bytes([&[0u8, 20][..], &s.bytes(20)].concat());
            ins.push(self.txin(s, &mut prevouts, other));
            let tweak = pt_g(Some(gen::random_secret(s))).unwrap();
            if kind == 1 || (kind == 2 && s.chance(1, 3)) {
                // counters from 0 on, each to the plain or a labelled code
                let shared = self.r.shared(&tweak);
                for k in 0..s.size(1, 3) {
                    let label = if s.chance(1, 2) || self.r.labels.is_empty() { None } else { Some(*s.pick(&self.r.labels)) };
                    let p = p_k(&shared, k as u32, &self.r.spend_for(label)).unwrap();
                    outs.push(TxOut { value: gen::amount(s), script_pubkey: p2tr(&xonly(&p)) });
                }
                pays = true;
            }
            if outs.is_empty() {
                outs.push(TxOut { value: gen::amount(s), script_pubkey: other_script(s) });
            }
            s.shuffle(&mut outs);
            if outs.iter().any(|o| o.script_pubkey.is_p2tr()) {
                tweaks.push(tweak);
            }
            txdata.push(gen::tx(ins, outs));
        }
        for _ in 0..if s.chance(1, 30) { s.size(20, 200) } else { s.size(0, 3) } {
            // of transactions that are not the wallet's
            tweaks.push(pt_g(Some(sk_small(1 + s.below(100_000)))).unwrap());
        }
        s.shuffle(&mut tweaks);
        self.serial += 1;
        let mut block = Block {
            header: block::Header {
                version: block::Version::TWO,
                prev_blockhash: bitcoin::hashes::Hash::all_zeros(),
                merkle_root: bitcoin::hashes::Hash::all_zeros(),
                time: 1_600_000_000 + self.serial,
                bits: bitcoin::CompactTarget::from_consensus(0x207fffff),
                nonce: s.u32(),
            },
            txdata,
        };
        block.header.merkle_root = block.compute_merkle_root().unwrap();
        let filter = filter_of(&block, &prevouts);
        let v: Vec<String> = tweaks.iter().map(|k| format!("\"{}\"", hex(&k.serialize()))).collect();
        let mut answer = Answer::ok(format!("[{}]", v.join(",")));
        answer.framing = *s.pick(&[Framing::Length, Framing::Chunked, Framing::Close]);
        answer.delay_ms = if s.chance(1, 3) { s.below(20) } else { 0 };
        answer.pieces = s.pick(&[1usize, 1, 5]).to_owned();
        let fails = fault && s.chance(1, 4);
        if fails {
            match s.below(3) {
                0 => answer.hang_up = true,
                1 => answer.status = 500,
                _ => answer.cut = Some(answer.body.len() / 2),
            }
        }
        B { height, hash: block.block_hash(), block, tweaks, filter, answer, fails, pays, spends, candidates: Default::default() }
    }

    fn candidates<'a>(&self, b: &'a B) -> &'a Candidates {
        b.candidates.get_or_init(|| {
            let mut v = Candidates::new();
            for t in &b.tweaks {
                for (_, spk) in self.r.scripts(t, 0) {
                    v.entry(spk34(&spk)).or_default().insert(t.serialize());
                }
            }
            v
        })
    }

    /// Whether the filter matches what the wallet looks for in the block.
    fn matches(&self, b: &B, with_tweaks: bool) -> bool {
        let mut q: Vec<Vec<u8>> = self.unspent.iter().map(|x| x.to_vec()).collect();
        if with_tweaks {
            q.extend(self.candidates(b).keys().map(|x| x.to_vec()));
        }
        !q.is_empty() && BlockFilter::new(&b.filter).match_any(&b.hash, q.into_iter()).unwrap()
    }
}

fn other_script(s: &mut Src) -> ScriptBuf {
    ScriptBuf::from_bytes([&[0x76u8, 0xa9, 20][..], &s.bytes(20), &[0x88, 0xac]].concat())
}

fn filter_of(b: &Block, prev: &HashMap<OutPoint, ScriptBuf>) -> Vec<u8> {
    let f = BlockFilter::new_script_filter(b, |o| {
        prev.get(o).map(|s| s.as_script()).ok_or(bitcoin::bip158::Error::UtxoMissing(*o))
    });
    f.expect("all previous scripts known").content
}

enum Op {
    Filter(usize),
    Sync(BlockId),
}

fn check_map(w: &World, b: &B, map: &HashMap<[u8; 34], PublicKey>) -> R {
    let cand = w.candidates(b);
    for (spk, t) in map {
        let ok = cand.get(spk).is_some_and(|c| c.contains(&t.serialize()));
        ensure!(ok, "script reported under another tweak", "{} in block {}", hex(spk), b.height);
    }
    if b.fails {
        return Ok(());
    }
    for o in b.block.txdata.iter().flat_map(|t| &t.output) {
        let Ok(spk) = <[u8; 34]>::try_from(o.script_pubkey.to_bytes()) else { continue };
        if cand.contains_key(&spk) {
            ensure!(map.contains_key(&spk), "paid script reported without its tweak", "{} in block {}", hex(&spk), b.height);
        }
    }
    Ok(())
}

/// Reports of one sync, in whatever order.
fn check_reports(w: &World, batch: &BTreeMap<u32, usize>, stale: &BTreeSet<u32>, blocks: &[B], got: &[(BlockHash, HashMap<[u8; 34], PublicKey>)]) -> Result<bool, Fail> {
    let mut missed_after_failure = None;
    for (hash, map) in got {
        let Some(i) = batch.values().find(|i| blocks[**i].hash == *hash) else {
            return fail("block reported that was not announced", format!("{hash}"));
        };
        let b = &blocks[*i];
        if stale.contains(&b.height) {
            continue;
        }
        ensure!(w.matches(b, !b.fails), "block reported that does not match", "height {}", b.height);
        check_map(w, b, map)?;
    }
    for i in batch.values() {
        let b = &blocks[*i];
        if stale.contains(&b.height) {
            continue;
        }
        let n = got.iter().filter(|g| g.0 == b.hash).count();
        ensure!(n <= 1, "block reported twice", "height {}", b.height);
        if n == 0 && w.matches(b, false) {
            return fail("spending block not reported", format!("height {}, {} tweaks", b.height, b.tweaks.len()));
        }
        if n == 0 && w.matches(b, true) {
            if b.fails {
                missed_after_failure = Some(b.height);
            } else {
                return fail("paying block not reported", format!("height {}", b.height));
            }
        }
    }
    Ok(missed_after_failure.is_some())
}

fn drive(w: &World, blocks: &[B], ops: &[Op], base: &str, path: &str, lagging: bool, cx: &mut Cx) -> R {
    let mut ix = SpIndexerV2::<ConfirmationBlockTime>::new(w.r.scan_sk, w.r.spend_pk());
    for m in &w.r.labels {
        let _ = ix.add_label(*m);
    }
    let scratch = Scratch::new();
    let (event, events) = unbounded_channel();
    let (changes, requests) = unbounded_channel::<FilterEvent>();
    let (out, mut outs) = unbounded_channel();
    let new = {
        let _lock = CWD.lock().unwrap_or_else(|e| e.into_inner());
        let back = std::env::current_dir().expect("a working directory");
        std::env::set_current_dir(&scratch.0).expect("the scratch directory");
        let r = guarded(|| BlindbitSubscriber::new(w.unspent.clone(), ix, format!("{base}{path}"), requests, out));
        std::env::set_current_dir(back).expect("the working directory");
        r?
    };
    let Ok((mut tweaks, buffer)) = new else { return fail("subscriber not made", "") };
    let mut filters = FilterSubscriber::new(buffer, events, changes, 0);

    // what each sync should bring
    let mut batches: Vec<(BTreeMap<u32, usize>, BlockId)> = vec![];
    let mut cur = BTreeMap::new();
    for op in ops {
        match op {
            Op::Filter(i) => {
                cur.insert(blocks[*i].height, *i);
            }
            Op::Sync(t) => batches.push((std::mem::take(&mut cur), *t)),
        }
    }
    let mut got: Vec<Vec<(BlockHash, HashMap<[u8; 34], PublicKey>)>> = vec![];
    if lagging {
        for op in ops {
            let _ = event.send(match op {
                Op::Filter(i) => filter_event(&blocks[*i]),
                Op::Sync(t) => synced(t.height, t.hash),
            });
        }
        drop(event);
        let end = guarded(|| run(60, filters.run()))?;
        ensure!(end.is_some(), "filters not worked off", "");
        drop(filters);
        let end = guarded(|| run(90, tweaks.run()))?;
        ensure!(end.is_some(), "synchronisation not announced", "{} batches", batches.len());
        for (_, tip) in &batches {
            let mut v = vec![];
            loop {
                match outs.try_recv() {
                    Ok(TweakEvent::Matches(m)) => v.push(m),
                    Ok(TweakEvent::Synced(t)) => {
                        ensure_eq!(t, *tip, "tip of the synchronisation");
                        break;
                    }
                    Err(_) => return fail("synchronisation not announced", format!("{tip:?}")),
                }
            }
            got.push(v);
        }
    } else {
        let mut tweak_run = Box::pin(tweaks.run());
        let mut filter_run = Box::pin(filters.run());
        for op in ops {
            let tip = match op {
                Op::Filter(i) => {
                    let _ = event.send(filter_event(&blocks[*i]));
                    None
                }
                Op::Sync(t) => {
                    let _ = event.send(synced(t.height, t.hash));
                    Some(*t)
                }
            };
            let Some(tip) = tip else { continue };
            let mut v = vec![];
            let mut early = false;
            let end = guarded(|| {
                run(90, async {
                    loop {
                        while (&mut filter_run).now_or_never().is_some() {
                            early = true;
                            return None;
                        }
                        tokio::select! {
                            biased;
                            e = outs.recv() => match e {
                                Some(TweakEvent::Matches(m)) => v.push(m),
                                Some(TweakEvent::Synced(t)) => return Some(t),
                                None => return None,
                            },
                            _ = &mut tweak_run => return None,
                            _ = tokio::time::sleep(std::time::Duration::from_millis(2)) => (),
                        }
                    }
                })
            })?;
            match end {
                Some(Some(t)) => ensure_eq!(t, tip, "tip of the synchronisation"),
                Some(None) => return fail("subscriber stopped", format!("before {tip:?}")),
                None => return fail("synchronisation not announced", format!("{tip:?}")),
            }
            got.push(v);
        }
        drop(event);
        drop(filter_run);
        drop(filters);
        let end = guarded(|| run(90, &mut tweak_run))?;
        ensure!(end.is_some(), "subscriber does not end", "");
    }
    ensure!(outs.try_recv().is_err(), "reported after the end", "");

    let mut missed = false;
    for (k, (batch, _)) in batches.iter().enumerate() {
        // a filter replaced before the batch was looked at is judged by the later batch
        let stale: BTreeSet<u32> = if lagging {
            let later: BTreeSet<u32> = batches[k + 1..].iter().flat_map(|b| b.0.keys()).cloned().collect();
            batch.keys().filter(|h| later.contains(h)).cloned().collect()
        } else {
            BTreeSet::new()
        };
        missed |= check_reports(w, batch, &stale, blocks, &got[k])?;
        for i in batch.values() {
            if !stale.contains(&blocks[*i].height) && w.matches(&blocks[*i], true) {
                cx.nontrivial();
            }
        }
    }
    if missed {
        return fail("payment missed after a failed request", "the synchronisation was announced all the same");
    }
    Ok(())
}

fn filter_event(b: &B) -> Event {
    Event::IndexedFilter(IndexedFilter::from_contents(b.height, b.filter.clone(), b.hash))
}

fn answers(path: &str, blocks: &[B]) -> HashMap<String, Answer> {
    blocks.iter().map(|b| (format!("{path}/tweaks/{}?dustLimit=1000", b.height), b.answer.clone())).collect()
}

fn reports(s: &mut Src, cx: &mut Cx) -> R {
    let mut w = World::new(s);
    let many = s.chance(1, 60);
    let n = if many { s.size(190, 260) } else { s.size(1, 25) };
    let fault = !many && s.chance(1, 12);
    let start = s.below(800_000) as u32;
    let mut blocks: Vec<B> = vec![];
    let mut ops = vec![];
    let mut height = start;
    let mut heights = BTreeSet::new();
    let mut replaced: BTreeSet<usize> = BTreeSet::new();
    for _ in 0..n {
        if s.chance(1, 40) {
            height = height.saturating_sub(s.below(4) as u32);
        } else {
            height += 1 + if s.chance(1, 10) { s.below(5) as u32 } else { 0 };
        }
        let mut b = w.block(s, height, fault);
        if many {
            b.answer.delay_ms = if s.chance(1, 20) { s.below(60) } else { 0 };
        }
        if !heights.insert(height) {
            // the server knows one block per height: the one of the best chain
            let old = blocks.iter().rposition(|x| x.height == height).unwrap();
            replaced.insert(old);
        }
        ops.push(Op::Filter(blocks.len()));
        blocks.push(b);
        if !many && s.chance(1, 9) {
            ops.push(Op::Sync(BlockId { height, hash: blocks.last().unwrap().hash }));
        }
    }
    let last = blocks.last().unwrap();
    ops.push(Op::Sync(BlockId { height: last.height, hash: last.hash }));
    if s.chance(1, 4) {
        // the node's filters may come in any order
        let cut: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Sync(_))).collect();
        if cut.len() == 1 && heights.len() == blocks.len() {
            let end = ops.len() - 1;
            s.shuffle(&mut ops[..end]);
        }
    }
    // blocks that are replaced have no tweaks served any more: they only have the new block's
    for i in &replaced {
        let new = blocks.iter().rposition(|x| x.height == blocks[*i].height).unwrap();
        blocks[*i].tweaks = blocks[new].tweaks.clone();
        blocks[*i].fails = blocks[new].fails;
    }
    let path = *s.pick(&["", "/", "/blindbit", "/a/b/"]);
    let (base, state) = serve(answers(path.trim_end_matches('/'), &blocks));
    let lagging = s.chance(1, 2);
    cx.note(|| {
        let v: Vec<String> = ops
            .iter()
            .map(|o| match o {
                Op::Filter(i) => {
                    let b = &blocks[*i];
                    format!(
                        "{}{}{}{}({})",
                        b.height,
                        if b.pays { "+" } else { "" },
                        if b.spends { "-" } else { "" },
                        if b.fails { "!" } else { "" },
                        b.tweaks.len()
                    )
                }
                Op::Sync(t) => format!("sync {}", t.height),
            })
            .collect();
        format!("labels {:?}, {} unspent, lagging {lagging}: {}", w.r.labels, w.unspent.len(), v.join(" "))
    });
    let r = drive(&w, &blocks, &ops, &base, path, lagging, cx);
    let log = state.lock().unwrap().log.len();
    cx.label_if(log > 200, "more than 200 requests");
    cx.label_if(!replaced.is_empty(), "replaced block");
    cx.label_if(blocks.iter().any(|b| b.fails), "failed request");
    cx.label_if(blocks.iter().any(|b| b.spends && b.tweaks.is_empty()), "spend in a block without tweaks");
    cx.label_if(lagging, "subscriber behind the filters");
    r
}

fn one(w: &World, mut b: B, fails: bool) -> R {
    b.fails = fails;
    if fails {
        b.answer.hang_up = true;
    }
    let tip = BlockId { height: b.height, hash: b.hash };
    let blocks = vec![b];
    let (base, _state) = serve(answers("", &blocks));
    drive(w, &blocks, &[Op::Filter(0), Op::Sync(tip)], &base, "", true, &mut Cx::default())
}

fn plain_block(height: u32, outs: Vec<TxOut>, spends: Option<[u8; 34]>, tweaks: Vec<PublicKey>) -> B {
    let o = OutPoint::new(bitcoin::hashes::Hash::hash(b"previous"), 0);
    let mut prevouts = HashMap::new();
    prevouts.insert(o, spends.map(|s| ScriptBuf::from_bytes(s.to_vec())).unwrap_or(ScriptBuf::from_bytes(vec![0x51])));
    let coin = gen::tx(
        vec![TxIn { previous_output: OutPoint::null(), ..Default::default() }],
        vec![TxOut { value: bitcoin::Amount::from_sat(5), script_pubkey: ScriptBuf::from_bytes(vec![0x52]) }],
    );
    let tx = Transaction {
        version: bitcoin::transaction::Version::TWO,
        lock_time: absolute::LockTime::ZERO,
        input: vec![TxIn { previous_output: o, ..Default::default() }],
        output: outs,
    };
    let block = Block {
        header: block::Header {
            version: block::Version::TWO,
            prev_blockhash: bitcoin::hashes::Hash::all_zeros(),
            merkle_root: bitcoin::hashes::Hash::all_zeros(),
            time: 1_600_000_000,
            bits: bitcoin::CompactTarget::from_consensus(0x207fffff),
            nonce: height,
        },
        txdata: vec![coin, tx],
    };
    let filter = filter_of(&block, &prevouts);
    let v: Vec<String> = tweaks.iter().map(|k| format!("\"{}\"", hex(&k.serialize()))).collect();
    B {
        height,
        hash: block.block_hash(),
        block,
        tweaks,
        filter,
        answer: Answer::ok(format!("[{}]", v.join(","))),
        fails: false,
        pays: false,
        spends: spends.is_some(),
        candidates: Default::default(),
    }
}

fn pinned_world() -> World {
    let r = Receiver { scan_sk: sk_small(5), spend_sk: sk_small(7), labels: vec![0] };
    World { r, unspent: vec![spk34(&p2tr(&xonly(&pt_g(Some(sk_small(11))).unwrap())))], serial: 0 }
}

fn change(n: u8) -> Vec<TxOut> {
    let spk = ScriptBuf::from_bytes([&[0u8, 20][..], &[n; 20]].concat());
    vec![TxOut { value: bitcoin::Amount::from_sat(1), script_pubkey: spk }]
}

fn pinned_spend() -> R {
    // a transaction without taproot outputs has no tweak
    let w = pinned_world();
    let b = plain_block(7, change(1), Some(w.unspent[0]), vec![]);
    one(&w, b, false)
}

fn pinned_nothing() -> R {
    let mut w = pinned_world();
    w.unspent.clear();
    let b = plain_block(7, change(1), None, vec![]);
    one(&w, b, false)
}

fn pinned_failed() -> R {
    let w = pinned_world();
    let tweak = pt_g(Some(sk_small(77))).unwrap();
    let p = p_k(&w.r.shared(&tweak), 0, &w.r.spend_pk()).unwrap();
    let outs = vec![TxOut { value: bitcoin::Amount::from_sat(5000), script_pubkey: p2tr(&xonly(&p)) }];
    let b = plain_block(7, outs, None, vec![tweak]);
    one(&w, b, true)
}

/// The first and the last of many tweaks and of many unspent scripts.
fn pinned_thousands() -> R {
    let mut w = pinned_world();
    w.unspent = (0..700u64).map(|n| spk34(&p2tr(&xonly(&pt_g(Some(sk_small(1000 + n))).unwrap())))).collect();
    let tweaks: Vec<PublicKey> = (0..4300u64).map(|n| pt_g(Some(sk_small(50_000 + n))).unwrap()).collect();
    for at in [0, tweaks.len() - 1] {
        let p = p_k(&w.r.shared(&tweaks[at]), 0, &w.r.spend_pk()).unwrap();
        let outs = vec![TxOut { value: bitcoin::Amount::from_sat(5000), script_pubkey: p2tr(&xonly(&p)) }];
        one(&w, plain_block(7, outs, None, tweaks.clone()), false)?;
    }
    for at in [0, w.unspent.len() - 1] {
        one(&w, plain_block(8, change(1), Some(w.unspent[at]), vec![]), false)?;
        one(&w, plain_block(9, change(1), Some(w.unspent[at]), tweaks.clone()), false)?;
    }
    Ok(())
}
