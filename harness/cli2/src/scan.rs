//! C38: the light-client scan of the second command-line wallet.
use crate::chain::Chain;
use crate::light;
use crate::v2::Wallet;
use bitcoin::Network;
use engine::*;
use refmodel::*;
use std::collections::{BTreeMap, BTreeSet};

/// Transactions whose taproot outputs are all smaller are not looked at.
const DUST: u64 = 1000;

pub fn props() -> Vec<Prop> {
    vec![Prop::new(
        "C38",
        "a new wallet of any birthday, a peer serving compact filters and a tweak server whose chain grows, with light-client scans in steps, some from a chosen block, some mixed with scans by RPC; non-trivial when a light-client scan finds an output",
        1_200,
        9_000,
        scans,
    )
    .pinned(&[
        ("many blocks", pinned_many),
        ("reorganisation", pinned_reorg),
        ("reorganisation before a scan by RPC", pinned_rpc),
        ("failure of the tweak server", pinned_tweaks),
    ])
    .shrink_budget(150)]
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Seen {
    Light,
    Full,
}

#[derive(Default)]
struct Model {
    /// blocks looked at
    seen: BTreeMap<usize, Seen>,
    /// height of the wallet's tip
    tip: Option<usize>,
    /// the tweak server once did not answer for a block
    unanswered: bool,
}

impl Model {
    fn coins(&self, c: &Chain) -> BTreeMap<bitcoin::OutPoint, (usize, u64)> {
        let mut coins = BTreeMap::new();
        for (height, how) in &self.seen {
            for t in c.blocks[*height].txdata.iter().skip(1) {
                for i in &t.input {
                    coins.remove(&i.previous_output);
                }
                let most = t.output.iter().filter(|o| o.script_pubkey.is_p2tr()).map(|o| o.value.to_sat()).max();
                if *how == Seen::Light && most.is_none_or(|m| m < DUST) {
                    continue;
                }
                for o in &c.owned[&t.compute_txid()] {
                    coins.insert(o.outpoint, (*height, o.out.value.to_sat()));
                }
            }
        }
        coins
    }
    fn saw(&mut self, from: usize, to: usize, how: Seen) {
        for h in from..=to {
            let e = self.seen.entry(h).or_insert(how);
            if how == Seen::Full {
                *e = how;
            }
        }
    }
}

#[derive(Default)]
struct Plan {
    /// how long the tweak server takes, by height
    delay: Vec<u64>,
    slash: bool,
    nobody: bool,
    drop_at: Option<u64>,
    fails_at: Option<usize>,
    /// height of a chosen block
    chosen: Option<usize>,
}

fn plan(s: &mut Src, cx: &mut Cx, c: &Chain, reorged: bool) -> Plan {
    let n = c.blocks.len();
    let mut p = Plan {
        delay: (0..n).map(|_| if s.chance(1, 4) { s.below(15) } else { 0 }).collect(),
        slash: s.chance(1, 2),
        ..Default::default()
    };
    if s.chance(1, 16) {
        p.nobody = true;
    } else if s.chance(1, 8) {
        p.drop_at = Some(s.below(12));
    } else if s.chance(1, 16) {
        p.fails_at = Some(s.below(n as u64) as usize);
    }
    if !reorged && s.chance(1, 5) {
        // from a chosen block, possibly before or after the last one seen
        p.chosen = Some(s.below(n as u64) as usize);
        cx.label("from a chosen block");
    }
    p
}

/// Scans; false when there was no peer, or a server failed, and the wallet said so.
fn scan(w: &Wallet, c: &Chain, m: &mut Model, p: Plan, reorged: bool) -> Result<bool, Fail> {
    let (mut peer, url, served) = light::serve();
    {
        let mut s = served.lock().unwrap();
        s.set(c, p.delay);
        s.drop_at = p.drop_at;
        s.fails_at = p.fails_at;
    }
    if p.nobody {
        peer = light::NOBODY.into();
    }
    let tip = c.blocks.len() - 1;
    let mut from = m.tip.filter(|t| *t >= c.from).unwrap_or(c.from);
    let mut args = vec!["scan-cbf".to_string(), format!("{url}{}", if p.slash { "/" } else { "" })];
    args.extend(["--extra-peer".into(), peer]);
    if let Some(chosen) = p.chosen {
        from = chosen;
        args.extend(["--height".into(), from.to_string(), "--hash".into(), c.blocks[from].block_hash().to_string()]);
    }
    let o = w.sp(&args.iter().map(|a| a.as_str()).collect::<Vec<_>>())?;
    let served = served.lock().unwrap();
    if let Some(x) = served.strange.first() {
        return fail("request not of the protocols", x.clone());
    }
    if p.nobody {
        ensure!(o.code != 0, "scan without a peer", "{}: {}", o.line, o.stdout);
    }
    if o.code != 0 && (p.nobody || served.dropped || served.failed) {
        ensure!(o.code != 101, "scan panics without its servers", "{}: {}", o.line, o.stderr);
        return Ok(false);
    }
    m.unanswered |= served.failed;
    o.ok("light-client scan fails")?;
    let asked: BTreeSet<usize> = served.asked.iter().copied().collect();
    if !reorged {
        let want: BTreeSet<usize> = (from.max(1)..=tip).collect();
        ensure_eq!(asked, want, "blocks whose tweaks are asked for");
    }
    m.saw(from, tip, Seen::Light);
    m.tip = Some(tip.max(m.tip.unwrap_or(0)));
    Ok(true)
}

fn rpc(w: &Wallet, c: &Chain, m: &mut Model, reorged: bool) -> R {
    let o = w.sp(&["scan-rpc", "--url", &c.url])?;
    o.ok(if reorged { "scan by RPC after a reorganisation" } else { "scan fails" })?;
    let tip = c.blocks.len() - 1;
    m.saw(m.tip.map_or(c.from, |t| (t + 1).max(c.from)), tip, Seen::Full);
    m.tip = Some(tip);
    Ok(())
}

fn balance(w: &Wallet, c: &Chain, m: &Model, reorged: bool) -> R {
    let want = m.coins(c);
    let total: u64 = want.values().map(|x| x.1).sum();
    let (confirmed, unconfirmed) = w.balance((!reorged).then_some(c))?;
    let sig = if reorged {
        "balance after a reorganisation"
    } else if m.unanswered {
        "balance after a failure of the tweak server"
    } else {
        "balance"
    };
    ensure!(
        confirmed == total,
        sig,
        "{confirmed} instead of {total}, birthday {}, coins {want:?}, seen {:?}",
        c.from,
        m.seen
    );
    if !c.dropped {
        ensure_eq!(unconfirmed, 0, if reorged { sig } else { "unconfirmed balance" });
    }
    Ok(())
}

fn scans(s: &mut Src, cx: &mut Cx) -> R {
    let (w, r) = Wallet::create(s, 6, Some(Network::Regtest))?;
    let mut c = Chain::new(w.network, r);
    c.from = w.birthday.0 as usize;
    let mut m = Model::default();
    let mut light = 0;
    let may_reorg = s.chance(1, 5);
    let mut reorged = false;
    for _ in 0..s.size(1, 4) {
        for _ in 0..s.size(0, 6) {
            let txs = c.gen_txs(s, 4);
            c.mine(s, txs);
        }
        if s.chance(1, 3) {
            let n = gen::label_number(s);
            w.label(&mut c.r, n)?;
        }
        if may_reorg && s.chance(2, 3) {
            let most = c.blocks.len().saturating_sub(c.from.max(1));
            let d = s.size(1, 4).min(most);
            if d > 0 {
                let fork = c.blocks.len() - 1 - d;
                reorged |= m.tip.is_some_and(|t| t > fork);
                c.reorg(s, d, true);
                m.seen.split_off(&(fork + 1));
                m.tip = m.tip.map(|t| t.min(fork));
            }
        }
        if s.chance(1, 8) && c.blocks.len() > c.from {
            rpc(&w, &c, &mut m, reorged)?;
            cx.label("scan by RPC");
        } else {
            let p = plan(s, cx, &c, reorged);
            if scan(&w, &c, &mut m, p, reorged)? {
                light += 1;
            } else {
                cx.label("no peer or tweaks");
                if reorged {
                    continue;
                }
            }
        }
        balance(&w, &c, &m, reorged)?;
    }
    w.code(&c.r)?;
    let found: usize = m
        .seen
        .keys()
        .flat_map(|h| c.blocks[*h].txdata.iter().skip(1))
        .map(|t| c.owned[&t.compute_txid()].len())
        .sum();
    if found > 0 && light > 0 {
        cx.nontrivial();
    }
    cx.label_if(m.unanswered, "failure of the tweak server");
    cx.label_if(light > 1, "several light-client scans");
    cx.label_if(found > m.coins(&c).len(), "spent or small outputs");
    cx.label_if(c.r.labels.len() > 1, "labels");
    cx.label_if(c.from > 1, "late birthday");
    cx.label_if(reorged, "reorganisation of blocks seen");
    cx.note(|| format!("{} blocks from {}, {found} outputs, {} unspent, {light} scans", c.blocks.len(), c.from, m.coins(&c).len()));
    Ok(())
}

fn pinned(f: fn(&mut Src, Wallet, Chain, Model) -> R) -> R {
    let mut x = 1u64;
    let tape = (0..4000).map(|_| {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        x >> 20
    });
    let s = &mut Src::replay(tape.collect());
    let (w, r) = Wallet::create(s, 0, Some(Network::Regtest))?;
    let mut c = Chain::new(w.network, r);
    c.from = 0;
    f(s, w, c, Model::default())
}

/// More blocks than one message or one batch of filters has.
fn pinned_many() -> R {
    pinned(|s, w, mut c, mut m| {
        for n in [700, 1300, 150] {
            for h in 0..n {
                let txs = if [0, 7, 333, 334, 997, 998, 999, 1000, 1299].contains(&h) {
                    vec![c.payment(s, &[10_000 + h, 50_000 + h])]
                } else {
                    vec![]
                };
                c.mine(s, txs);
            }
            ensure!(scan(&w, &c, &mut m, Plan::default(), false)?, "light-client scan fails", "");
            balance(&w, &c, &m, false)?;
        }
        Ok(())
    })
}

/// Blocks the wallet saw are replaced; only some have payments.
fn reorganised(s: &mut Src, w: &Wallet, c: &mut Chain, m: &mut Model, paid: &[u64]) -> R {
    for n in 0..3 {
        let txs = if paid.contains(&n) { vec![c.payment(s, &[10_000 + n])] } else { vec![] };
        c.mine(s, txs);
    }
    ensure!(scan(w, c, m, Plan::default(), false)?, "light-client scan fails", "");
    balance(w, c, m, false)?;
    c.reorg(s, 2, true);
    let txs = vec![c.payment(s, &[70_000])];
    c.mine(s, txs);
    m.seen.split_off(&2);
    m.tip = Some(1);
    Ok(())
}

fn pinned_reorg() -> R {
    pinned(|s, w, mut c, mut m| {
        reorganised(s, &w, &mut c, &mut m, &[0, 1, 2])?;
        ensure!(scan(&w, &c, &mut m, Plan::default(), true)?, "light-client scan fails", "");
        balance(&w, &c, &m, true)
    })
}

fn pinned_rpc() -> R {
    pinned(|s, w, mut c, mut m| {
        reorganised(s, &w, &mut c, &mut m, &[])?;
        rpc(&w, &c, &mut m, true)?;
        balance(&w, &c, &m, true)
    })
}

fn pinned_tweaks() -> R {
    pinned(|s, w, mut c, mut m| {
        let txs = vec![c.payment(s, &[10_000])];
        c.mine(s, txs);
        let p = Plan { fails_at: Some(1), ..Default::default() };
        scan(&w, &c, &mut m, p, false)?;
        balance(&w, &c, &m, false)
    })
}
