//! C27: what becomes of the filters a node sends.
use bdk_sp_oracles::bip157::messages::SyncUpdate;
use bdk_sp_oracles::bip157::{Event, HeaderCheckpoint, IndexedBlock, IndexedFilter};
use bdk_sp_oracles::filters::kyoto::{DatabaseBuffer, FilterEvent, FilterSubscriber, UpdateError, TABLE_DEF};
use bitcoin::BlockHash;
use engine::*;
use futures::FutureExt;
use redb::{Database, ReadableTable};
use std::collections::{BTreeMap, VecDeque};
use std::sync::{Arc, Mutex};
use tokio::sync::mpsc::unbounded_channel;

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C27",
        "up to 40 filters, now and then up to 2400, in any order of heights, repeated and replaced by those of other blocks, between syncs and other events, and any birthday; non-trivial when a filter is stored",
        4_000,
        80_000,
        filters,
    )
    .pinned(&[("replaced_in_one_batch", pinned_replaced)])]
}

/// The queue is announced when it is full: how many filters that are is up to the subscriber, below this.
const FULL: usize = 2000;

pub fn database() -> Arc<Mutex<Database>> {
    let b = redb::backends::InMemoryBackend::new();
    Arc::new(Mutex::new(Database::builder().create_with_backend(b).expect("a database in memory")))
}

fn stored(db: &Arc<Mutex<Database>>) -> BTreeMap<u32, Vec<u8>> {
    let db = db.lock().unwrap();
    let Ok(t) = db.begin_read().expect("readable").open_table(TABLE_DEF) else { return BTreeMap::new() };
    t.iter().expect("readable").map(|e| e.map(|(k, v)| (k.value(), v.value())).expect("readable")).collect()
}

pub fn synced(height: u32, hash: BlockHash) -> Event {
    Event::FiltersSynced(SyncUpdate::new(HeaderCheckpoint::new(height, hash), BTreeMap::new()))
}

fn hash(n: u64) -> BlockHash {
    bitcoin::hashes::Hash::hash(&n.to_le_bytes())
}

#[derive(Clone, Debug, PartialEq)]
struct F {
    height: u32,
    hash: BlockHash,
    contents: Vec<u8>,
}

enum Op {
    Filter(F),
    Sync(u32, BlockHash),
    Other(u32),
}

fn history(s: &mut Src, birthday: u32) -> Vec<Op> {
    let mut ops = vec![];
    let mut sent: Vec<F> = vec![];
    let many = s.chance(1, 80);
    let n = if many { s.size(900, 2400) } else { s.size(0, 40) };
    let start = match s.weighted(&[4, 2, 1]) {
        0 => birthday.saturating_sub(s.below(6) as u32),
        1 => birthday,
        _ => s.below(1000) as u32,
    };
    let mut next = start;
    for i in 0..n {
        // big histories go up, mostly
        let height = match if many { s.weighted(&[200, 1, 1, 1]) } else { s.weighted(&[5, 2, 2, 1]) } {
            0 => {
                next = next.saturating_add(1);
                next
            }
            1 => start.saturating_add(s.below(1 + n as u64) as u32),
            2 if !sent.is_empty() => sent[s.below(sent.len() as u64) as usize].height,
            _ => {
                // the blocks from here on are replaced
                next = next.saturating_sub(s.below(5) as u32);
                next
            }
        };
        let f = if !sent.is_empty() && s.chance(1, 12) {
            // sent again
            sent[s.below(sent.len() as u64) as usize].clone()
        } else {
            let size = if many { 3 } else { s.size(0, 80) };
            F { height, hash: hash((s.below(1 << 20) << 20) + i as u64), contents: s.bytes(size) }
        };
        sent.push(f.clone());
        ops.push(Op::Filter(f));
        let quiet = if many { 1500 } else { 6 };
        if s.chance(1, quiet) {
            ops.push(Op::Sync(s.below(1000) as u32, hash(s.u64())));
        }
        if s.chance(1, quiet * 2) {
            ops.push(Op::Other(s.below(1000) as u32));
        }
    }
    if s.chance(3, 4) {
        ops.push(Op::Sync(s.below(1000) as u32, hash(s.u64())));
    }
    ops
}

#[derive(Default)]
struct Model {
    waiting: BTreeMap<u32, F>,
    stored: BTreeMap<u32, Vec<u8>>,
    full: usize,
    replaced: usize,
}

impl Model {
    fn batch(&self) -> BTreeMap<u32, BlockHash> {
        self.waiting.iter().map(|(h, f)| (*h, f.hash)).collect()
    }
}

/// What the subscriber announced.
struct Outs {
    channel: tokio::sync::mpsc::UnboundedReceiver<FilterEvent>,
    next: VecDeque<FilterEvent>,
}

impl Outs {
    /// Whether this batch comes next, and not as the one of a sync.
    fn early(&mut self, batch: &BTreeMap<u32, BlockHash>) -> bool {
        while let Ok(e) = self.channel.try_recv() {
            self.next.push_back(e);
        }
        matches!(self.next.front(), Some(FilterEvent::Changes(w)) if w.writes == *batch)
            && !matches!(self.next.get(1), Some(FilterEvent::Tip(_)))
    }

    fn next(&mut self) -> Option<FilterEvent> {
        self.next.pop_front().or_else(|| self.channel.try_recv().ok())
    }
}

/// Feeds the events in groups, letting the subscriber run after each.
fn feed(birthday: u32, ops: &[Op], group: &mut dyn FnMut() -> usize, m: &mut Model) -> R {
    let db = database();
    let (event, events) = unbounded_channel();
    let (out, outs) = unbounded_channel();
    let mut outs = Outs { channel: outs, next: VecDeque::new() };
    let mut sub = FilterSubscriber::new(DatabaseBuffer::new(db.clone()), events, out, birthday);
    let mut run = Box::pin(sub.run());
    let mut i = 0;
    while i < ops.len() {
        let n = group().clamp(1, ops.len() - i);
        for op in &ops[i..i + n] {
            let e = match op {
                Op::Filter(f) => {
                    Event::IndexedFilter(IndexedFilter::from_contents(f.height, f.contents.clone(), f.hash))
                }
                Op::Sync(h, b) => synced(*h, *b),
                Op::Other(h) => Event::Block(IndexedBlock {
                    height: *h,
                    block: bitcoin::constants::genesis_block(bitcoin::Network::Regtest),
                }),
            };
            event.send(e).expect("the subscriber listens");
        }
        // without anything to wait for it works off all that was sent
        let done = guarded(|| {
            crate::mock::run(60, async {
                for _ in 0..ops.len() + 2 {
                    if let Some(r) = (&mut run).now_or_never() {
                        return Some(r.is_err());
                    }
                    tokio::task::yield_now().await;
                }
                None
            })
        })?;
        ensure!(done == Some(None), "subscriber stopped", "after {} events", i + n);
        let now = stored(&db);
        for op in &ops[i..i + n] {
            match op {
                Op::Filter(f) => {
                    if f.height < birthday {
                        continue;
                    }
                    if let Some(o) = m.waiting.insert(f.height, f.clone()) {
                        m.replaced += (o != *f) as usize;
                    }
                    if outs.early(&m.batch()) {
                        take(&mut outs, m)?;
                        m.full += 1;
                    }
                    ensure!(m.waiting.len() <= FULL, "batch not announced", "{} waiting", m.waiting.len());
                }
                Op::Sync(h, b) => {
                    take(&mut outs, m)?;
                    match outs.next() {
                        Some(FilterEvent::Tip(t)) => {
                            ensure_eq!((t.height, t.hash), (*h, *b), "tip announced");
                        }
                        Some(_) => return fail("tip not announced", format!("{h}: another batch instead")),
                        None => return fail("tip not announced", format!("{h}")),
                    }
                }
                Op::Other(_) => (),
            }
        }
        ensure!(outs.next().is_none(), "announced without reason", "after {} events", i + n);
        ensure!(now == m.stored, "filters stored", "after {} events: {}", i + n, differ(&now, &m.stored));
        i += n;
    }
    drop(event);
    let end = guarded(|| crate::mock::run(60, &mut run))?;
    ensure!(matches!(end, Some(Err(UpdateError::NodeStopped))), "end of the node not reported", "{end:?}");
    ensure!(outs.next().is_none(), "announced without reason", "at the end");
    Ok(())
}

fn differ(a: &BTreeMap<u32, Vec<u8>>, b: &BTreeMap<u32, Vec<u8>>) -> String {
    let mut v = vec![];
    for k in a.keys().chain(b.keys()) {
        if a.get(k) != b.get(k) && v.len() < 5 {
            v.push(format!("{k}: {:?} instead of {:?}", a.get(k), b.get(k)));
        }
    }
    v.join("; ")
}

fn take(outs: &mut Outs, m: &mut Model) -> R {
    let w = match outs.next() {
        Some(FilterEvent::Changes(w)) => w.writes,
        Some(FilterEvent::Tip(t)) => return fail("tip announced before the filters", format!("{}", t.height)),
        None => return fail("batch not announced", format!("{} waiting", m.waiting.len())),
    };
    let want = m.batch();
    if w != want {
        let h = w.keys().chain(want.keys()).find(|h| w.get(h) != want.get(h)).unwrap();
        let (a, b) = (w.get(h), want.get(h));
        return fail("batch announced", format!("{} for {} filters; at {h}: got {a:?}, expected {b:?}", w.len(), want.len()));
    }
    for (h, f) in std::mem::take(&mut m.waiting) {
        m.stored.insert(h, f.contents);
    }
    Ok(())
}

fn filters(s: &mut Src, cx: &mut Cx) -> R {
    let birthday = match s.weighted(&[2, 3]) {
        0 => 0,
        _ => s.below(1000) as u32,
    };
    let ops = history(s, birthday);
    let mut groups: Vec<usize> = vec![];
    let all_at_once = s.chance(1, 3);
    for _ in 0..ops.len().min(64) {
        groups.push(if all_at_once { ops.len() } else { s.size(1, if ops.len() > 100 { 300 } else { 8 }) });
    }
    let mut k = 0;
    let mut m = Model::default();
    cx.note(|| {
        let v: Vec<String> = ops
            .iter()
            .map(|o| match o {
                Op::Filter(f) => format!("{}={}", f.height, &f.hash.to_string()[..6]),
                Op::Sync(h, _) => format!("sync {h}"),
                Op::Other(_) => "block".into(),
            })
            .collect();
        format!("birthday {birthday}: {}", v.join(" "))
    });
    feed(
        birthday,
        &ops,
        &mut || {
            k += 1;
            groups[(k - 1) % groups.len()]
        },
        &mut m,
    )?;
    if !m.stored.is_empty() {
        cx.nontrivial();
    }
    cx.label_if(m.full > 0, "full queue");
    cx.label_if(m.replaced > 0, "replaced before the batch");
    cx.label_if(ops.iter().any(|o| matches!(o, Op::Filter(f) if f.height < birthday)), "below the birthday");

    // without a listener the subscriber ends with an error
    if s.chance(1, 8) {
        let (event, events) = unbounded_channel();
        let (out, outs) = unbounded_channel();
        let mut sub = FilterSubscriber::new(DatabaseBuffer::new(database()), events, out, birthday);
        drop(outs);
        let _ = event.send(synced(5, hash(1)));
        let end = guarded(|| crate::mock::run(60, sub.run()))?;
        ensure!(matches!(end, Some(Err(UpdateError::ChannelClosed))), "closed channel not reported", "{end:?}");
    }
    Ok(())
}

fn pinned_replaced() -> R {
    let f = |n: u8| Op::Filter(F { height: 7, hash: hash(n as u64), contents: vec![n] });
    feed(3, &[f(1), f(2), Op::Sync(7, hash(2))], &mut || 9, &mut Model::default())
}
