//! A small property-based testing engine: a case is a pure function of a tape of bounded integers, so that every
//! generator shrinks and replays without further code.
use serde_json::{json, Value};
use std::{
    cell::RefCell,
    collections::{BTreeMap, BTreeSet, HashSet},
    io::Write,
    panic::{catch_unwind, AssertUnwindSafe},
    path::PathBuf,
    sync::{
        atomic::{AtomicU64, Ordering},
        Mutex,
    },
    time::{Duration, Instant},
};

// ------------------------------------------------------------------------------------------------ choices

struct Rng([u64; 4]);

fn splitmix(x: &mut u64) -> u64 {
    *x = x.wrapping_add(0x9e37_79b9_7f4a_7c15);
    let mut z = *x;
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    fn new(seed: u64) -> Self {
        let mut s = seed;
        Rng([splitmix(&mut s), splitmix(&mut s), splitmix(&mut s), splitmix(&mut s)])
    }
    // xoshiro256**
    fn next(&mut self) -> u64 {
        let s = &mut self.0;
        let r = s[1].wrapping_mul(5).rotate_left(7).wrapping_mul(9);
        let t = s[1] << 17;
        s[2] ^= s[0];
        s[3] ^= s[1];
        s[1] ^= s[2];
        s[0] ^= s[3];
        s[2] ^= t;
        s[3] = s[3].rotate_left(45);
        r
    }
}

/// The source of all choices of a case.
pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

impl Src {
    fn generate(seed: u64) -> Self {
        Src { tape: vec![], pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: Vec<u64>) -> Self {
        Src { tape, pos: 0, rng: None }
    }
    fn draw(&mut self, bound: u64) -> u64 {
        let v = match &mut self.rng {
            Some(rng) => {
                let x = rng.next();
                let v = if bound == 0 { x } else { ((x as u128 * bound as u128) >> 64) as u64 };
                self.tape.push(v);
                v
            }
            None => {
                let raw = self.tape.get(self.pos).copied().unwrap_or(0);
                if bound == 0 {
                    raw
                } else {
                    raw % bound
                }
            }
        };
        self.pos += 1;
        v
    }
    /// 0..n
    pub fn below(&mut self, n: u64) -> u64 {
        assert!(n > 0);
        self.draw(n)
    }
    /// lo..=hi
    pub fn range(&mut self, lo: u64, hi: u64) -> u64 {
        if lo == 0 && hi == u64::MAX {
            return self.draw(0);
        }
        lo + self.draw(hi - lo + 1)
    }
    pub fn size(&mut self, lo: usize, hi: usize) -> usize {
        self.range(lo as u64, hi as u64) as usize
    }
    pub fn u64(&mut self) -> u64 {
        self.draw(0)
    }
    pub fn u32(&mut self) -> u32 {
        self.draw(1 << 32) as u32
    }
    pub fn u8(&mut self) -> u8 {
        self.draw(256) as u8
    }
    /// True with probability num/den; shrinks to false.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.draw(den) >= den - num
    }
    /// Index with the given weights; shrinks to 0.
    pub fn weighted(&mut self, w: &[u64]) -> usize {
        let total: u64 = w.iter().sum();
        let mut x = self.draw(total);
        for (i, w) in w.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
    pub fn pick<'a, T>(&mut self, s: &'a [T]) -> &'a T {
        let i = self.below(s.len() as u64) as usize;
        &s[i]
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&self.draw(0).to_be_bytes());
        }
        b
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u8()).collect()
    }
    pub fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            // a zero draw leaves the element in place
            let j = i - self.below(i as u64 + 1) as usize;
            v.swap(i, j);
        }
    }
}

// ------------------------------------------------------------------------------------------------ results

#[derive(Clone, Debug)]
pub struct Fail {
    /// What fails, without the generated values: known findings are keyed on it.
    pub sig: String,
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(sig: impl Into<String>, msg: impl Into<String>) -> Result<T, Fail> {
    Err(Fail { sig: sig.into(), msg: msg.into() })
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !($cond) {
            return Err($crate::Fail { sig: ($sig).to_string(), msg: format!($($arg)*) });
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $sig:expr) => {
        match (&$a, &$b) {
            (a, b) => {
                if a != b {
                    return Err($crate::Fail {
                        sig: ($sig).to_string(),
                        msg: format!("{}: got {:?}, expected {:?}", $sig, a, b),
                    });
                }
            }
        }
    };
}

/// What a case tells about itself.
#[derive(Default)]
pub struct Cx {
    labels: BTreeSet<&'static str>,
    nontrivial: bool,
    notes: Vec<String>,
    verbose: bool,
}

impl Cx {
    pub fn label(&mut self, l: &'static str) {
        self.labels.insert(l);
    }
    pub fn label_if(&mut self, c: bool, l: &'static str) {
        if c {
            self.labels.insert(l);
        }
    }
    pub fn nontrivial(&mut self) {
        self.nontrivial = true;
    }
    /// Part of the description of the case; evaluated only when it is shown.
    pub fn note(&mut self, f: impl FnOnce() -> String) {
        if self.verbose {
            let mut s = f();
            if s.len() > 1500 {
                let mut cut = 1500;
                while !s.is_char_boundary(cut) {
                    cut -= 1;
                }
                s.truncate(cut);
                s.push_str("...");
            }
            self.notes.push(s);
        }
    }
}

pub type CaseFn = fn(&mut Src, &mut Cx) -> R;

pub struct Prop {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub case: CaseFn,
    /// Fixed cases, run before the generated ones.
    pub pinned: &'static [(&'static str, fn() -> R)],
    pub assumptions: &'static [&'static str],
    /// 0: one per core
    pub threads: usize,
    /// Executions a shrink may take.
    pub shrink_budget: u64,
}

impl Prop {
    pub const fn new(id: &'static str, rule: &'static str, quick: u64, thorough: u64, case: CaseFn) -> Self {
        Prop { id, rule, quick, thorough, case, pinned: &[], assumptions: &[], threads: 0, shrink_budget: 3000 }
    }
    pub const fn pinned(mut self, p: &'static [(&'static str, fn() -> R)]) -> Self {
        self.pinned = p;
        self
    }
    pub const fn assumptions(mut self, a: &'static [&'static str]) -> Self {
        self.assumptions = a;
        self
    }
    pub const fn threads(mut self, n: usize) -> Self {
        self.threads = n;
        self
    }
    pub const fn shrink_budget(mut self, n: u64) -> Self {
        self.shrink_budget = n;
        self
    }
}

// ------------------------------------------------------------------------------------------------ running one case

thread_local! {
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
    static QUIET: RefCell<bool> = const { RefCell::new(false) };
}

static FOREIGN_PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if QUIET.with(|q| *q.borrow()) {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            FOREIGN_PANICS.lock().unwrap().push(format!("{loc}: {msg}"));
        }
    }));
}

/// Panics caught on threads that are not running a case (spawned by the code under test).
pub fn take_foreign_panics() -> Vec<String> {
    std::mem::take(&mut *FOREIGN_PANICS.lock().unwrap())
}

fn is_harness(loc: &str) -> bool {
    loc.starts_with("src/") || loc.contains("/harness/")
}

/// Runs code under test that may panic; a panic raised by the harness itself ends the run with an error.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Fail> {
    let was = QUIET.with(|q| q.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() = was);
    match r {
        Ok(v) => Ok(v),
        Err(_) => {
            let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
            if is_harness(&loc) {
                eprintln!("harness error: panic at {loc}: {msg}");
                std::process::exit(2);
            }
            let file = loc.rsplit_once(':').map(|x| x.0).unwrap_or("").rsplit('/').take(2).collect::<Vec<_>>();
            let file = file.into_iter().rev().collect::<Vec<_>>().join("/");
            let short: String = msg.chars().take(60).map(|c| if c.is_ascii_digit() { '#' } else { c }).collect();
            Err(Fail { sig: format!("panic:{file}:{short}"), msg: format!("panicked at {loc}: {msg}") })
        }
    }
}

fn run_case(case: CaseFn, src: &mut Src, cx: &mut Cx) -> R {
    match guarded(AssertUnwindSafe(|| case(src, cx))) {
        Ok(r) => r,
        Err(f) => Err(f),
    }
}

// ------------------------------------------------------------------------------------------------ shrinking

struct Shrinker<'a> {
    case: CaseFn,
    known: &'a [String],
    left: u64,
    until: Instant,
    best: Vec<u64>,
    fail: Fail,
}

impl Shrinker<'_> {
    fn try_tape(&mut self, tape: Vec<u64>) -> bool {
        if self.left == 0 || Instant::now() > self.until || tape == self.best {
            return false;
        }
        self.left -= 1;
        let mut src = Src::replay(tape);
        let mut cx = Cx::default();
        match run_case(self.case, &mut src, &mut cx) {
            Err(f) if !self.known.contains(&f.sig) => {
                let mut t = src.tape;
                t.truncate(src.pos);
                if t.len() > self.best.len() || (t.len() == self.best.len() && t >= self.best) {
                    // no progress by length or value: accept nothing that grows
                    return false;
                }
                self.best = t;
                self.fail = f;
                true
            }
            _ => false,
        }
    }
    fn run(&mut self) {
        loop {
            let before = self.best.clone();
            // drop blocks
            let mut size = (self.best.len() / 2).max(1);
            while size >= 1 {
                let mut i = 0;
                while i + size <= self.best.len() {
                    let mut t = self.best.clone();
                    t.drain(i..i + size);
                    if !self.try_tape(t) {
                        i += size;
                    }
                    if self.left == 0 {
                        return;
                    }
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // zero blocks
            let mut size = (self.best.len() / 2).max(1);
            while size >= 1 {
                let mut i = 0;
                while i < self.best.len() {
                    let end = (i + size).min(self.best.len());
                    if self.best[i..end].iter().any(|x| *x != 0) {
                        let mut t = self.best.clone();
                        t[i..end].fill(0);
                        self.try_tape(t);
                    }
                    i += size;
                }
                if size == 1 {
                    break;
                }
                size /= 2;
            }
            // make values small
            let mut i = 0;
            while i < self.best.len() {
                let (mut lo, mut tries) = (0u64, 0);
                while i < self.best.len() && lo < self.best[i] && tries < 24 {
                    let mid = lo + (self.best[i] - lo) / 2;
                    let mut t = self.best.clone();
                    t[i] = mid;
                    if !self.try_tape(t) {
                        lo = mid + 1;
                    }
                    tries += 1;
                }
                i += 1;
            }
            if self.best == before || self.left == 0 || Instant::now() > self.until {
                return;
            }
        }
    }
}

// ------------------------------------------------------------------------------------------------ the run

fn hash(tape: &[u64]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for x in tape {
        h = (h ^ x).wrapping_mul(0x1_0000_0000_01b3).rotate_left(23);
    }
    h
}

fn verif_dir() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

struct Known {
    sigs: Vec<String>,
    texts: BTreeMap<String, String>,
}

fn load_known(id: &str) -> Known {
    let mut k = Known { sigs: vec![], texts: BTreeMap::new() };
    let text = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS.txt")).unwrap_or_default();
    let head = format!("finding: property={id} sig=");
    for line in text.lines() {
        if let Some(rest) = line.strip_prefix(&head) {
            let (sig, what) = rest.split_once(" | ").unwrap_or((rest, ""));
            k.sigs.push(sig.trim().to_string());
            k.texts.insert(sig.trim().to_string(), what.to_string());
        }
    }
    k
}

#[derive(Default)]
struct Totals {
    evaluations: u64,
    labels: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    nontrivial: u64,
    known: BTreeMap<String, u64>,
    samples: Vec<(u64, String)>,
}

impl Totals {
    fn merge(&mut self, o: Totals) {
        self.evaluations += o.evaluations;
        self.nontrivial += o.nontrivial;
        self.distinct.extend(o.distinct);
        for (k, v) in o.labels {
            *self.labels.entry(k).or_default() += v;
        }
        for (k, v) in o.known {
            *self.known.entry(k).or_default() += v;
        }
        self.samples.extend(o.samples);
    }
}

fn env_u64(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.trim().parse().ok()).unwrap_or(d)
}

fn write_replay(id: &str, tape: &[u64], f: &Fail, notes: &[String]) -> PathBuf {
    let dir = verif_dir().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{id}-{:016x}.json", hash(tape) ^ f.sig.len() as u64));
    let v = json!({"property": id, "sig": f.sig, "message": f.msg, "case": notes, "tape": tape});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    path
}

/// Entry point of the harness binaries: `<binary> <property> [--replay FILE]`. Never returns.
pub fn main(props: &[Prop]) -> ! {
    install_hook();
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    let Some(p) = props.iter().find(|p| p.id == id) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    if args.get(2).map(|s| s.as_str()) == Some("--replay") {
        replay(p, &args[3]);
    }
    let code = run(p);
    let _ = std::io::stdout().flush();
    std::process::exit(code);
}

fn replay(p: &Prop, file: &str) -> ! {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
    let r = if let Some(name) = v["pinned"].as_str() {
        let f = p.pinned.iter().find(|x| x.0 == name).expect("pinned case").1;
        guarded(f).and_then(|r| r)
    } else {
        let tape = v["tape"].as_array().expect("tape").iter().map(|x| x.as_u64().unwrap()).collect();
        let mut cx = Cx { verbose: true, ..Default::default() };
        let r = run_case(p.case, &mut Src::replay(tape), &mut cx);
        for n in &cx.notes {
            println!("  {n}");
        }
        r
    };
    match r {
        Ok(()) => {
            println!("the case passes");
            std::process::exit(0)
        }
        Err(f) => {
            println!("{}: {}", f.sig, f.msg);
            println!("VIOLATION property={} replay={}", p.id, file);
            std::process::exit(1)
        }
    }
}

fn run(p: &Prop) -> i32 {
    let start = Instant::now();
    let seed = env_u64("VERIF_SEED", 1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    let cases = env_u64("VERIF_CASES", if thorough { p.thorough } else { p.quick });
    let known = load_known(p.id);

    let mut violations: Vec<(PathBuf, Fail)> = vec![];
    let mut totals = Totals::default();

    for (name, f) in p.pinned {
        totals.evaluations += 1;
        if let Err(f) = guarded(f).and_then(|r| r) {
            if known.sigs.contains(&f.sig) {
                *totals.known.entry(f.sig.clone()).or_default() += 1;
                continue;
            }
            let dir = verif_dir().join("replays");
            let _ = std::fs::create_dir_all(&dir);
            let path = dir.join(format!("{}-pinned-{name}.json", p.id));
            let v = json!({"property": p.id, "sig": f.sig, "message": f.msg, "pinned": name});
            std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
            violations.push((path, f));
        }
    }

    let threads = if p.threads == 0 { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4) } else { p.threads };
    let next = AtomicU64::new(0);
    let stop = AtomicU64::new(cases);
    let first: Mutex<Option<(u64, Vec<u64>, Fail)>> = Mutex::new(None);
    let sums = Mutex::new(Totals::default());
    let busy: Vec<AtomicU64> = (0..threads).map(|_| AtomicU64::new(0)).collect();
    let done = AtomicU64::new(0);
    let mut base = seed ^ 0x5bd1_e995_0000_0000;
    for b in p.id.bytes() {
        base = base.wrapping_mul(0x1_0000_0000_01b3) ^ b as u64;
    }
    let base = splitmix(&mut base);
    let hang_secs = env_u64("VERIF_HANG_SECS", 240);
    if violations.is_empty() {
        std::thread::scope(|s| {
            s.spawn(|| {
                // a hang is an error of the check, never a violation
                while done.load(Ordering::SeqCst) < threads as u64 {
                    std::thread::sleep(Duration::from_millis(20));
                    let now = start.elapsed().as_secs() + 1;
                    for b in &busy {
                        let t = b.load(Ordering::SeqCst);
                        if t != 0 && now.saturating_sub(t) > hang_secs {
                            eprintln!("error: a case has been running for more than {hang_secs} s");
                            std::process::exit(3);
                        }
                    }
                }
            });
            for w in 0..threads {
                let (next, stop, first, sums, busy, done, known) = (&next, &stop, &first, &sums, &busy, &done, &known);
                s.spawn(move || {
                    let mut t = Totals::default();
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= stop.load(Ordering::SeqCst) {
                            break;
                        }
                        let mut s = base.wrapping_add(i.wrapping_mul(0x9e37_79b9_7f4a_7c15));
                        let mut src = Src::generate(splitmix(&mut s));
                        let mut cx = Cx { verbose: i < 40, ..Default::default() };
                        busy[w].store(start.elapsed().as_secs() + 1, Ordering::SeqCst);
                        let r = run_case(p.case, &mut src, &mut cx);
                        busy[w].store(0, Ordering::SeqCst);
                        t.evaluations += 1;
                        for l in &cx.labels {
                            *t.labels.entry(l).or_default() += 1;
                        }
                        if cx.nontrivial {
                            t.nontrivial += 1;
                            t.distinct.insert(hash(&src.tape));
                            if !cx.notes.is_empty() && t.samples.len() < 6 {
                                t.samples.push((i, cx.notes.join("; ")));
                            }
                        }
                        if let Err(f) = r {
                            if known.sigs.contains(&f.sig) {
                                *t.known.entry(f.sig).or_default() += 1;
                            } else {
                                let mut g = first.lock().unwrap();
                                if g.as_ref().map_or(true, |x| i < x.0) {
                                    *g = Some((i, src.tape, f));
                                }
                                stop.fetch_min(i, Ordering::SeqCst);
                            }
                        }
                    }
                    sums.lock().unwrap().merge(t);
                    done.fetch_add(1, Ordering::SeqCst);
                });
            }
        });
    }
    totals.merge(sums.into_inner().unwrap());

    if let Some((i, tape, f)) = first.into_inner().unwrap() {
        println!("case {i} fails: {}: {}", f.sig, f.msg);
        let mut sh = Shrinker {
            case: p.case,
            known: &known.sigs,
            left: p.shrink_budget,
            until: Instant::now() + Duration::from_secs(env_u64("VERIF_SHRINK_SECS", 40)),
            best: tape,
            fail: f,
        };
        sh.run();
        let mut cx = Cx { verbose: true, ..Default::default() };
        let _ = run_case(p.case, &mut Src::replay(sh.best.clone()), &mut cx);
        let path = write_replay(p.id, &sh.best, &sh.fail, &cx.notes);
        println!("shrunk to a tape of {}: {}: {}", sh.best.len(), sh.fail.sig, sh.fail.msg);
        for n in &cx.notes {
            println!("  {n}");
        }
        violations.push((path, sh.fail));
    }

    totals.samples.sort();
    totals.samples.truncate(5);
    let ev = json!({
        "property": p.id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": totals.evaluations,
            "distinct_nontrivial": totals.distinct.len(),
            "rule": p.rule,
            "samples": totals.samples.iter().map(|x| json!({"case": x.0, "what": x.1})).collect::<Vec<_>>(),
            "classes": totals.labels,
            "pinned_cases": p.pinned.len(),
            "known_findings_hit": totals.known,
        },
        "assumptions": p.assumptions,
        "wall_s": start.elapsed().as_secs_f64(),
        "violations": violations.len(),
    });
    let dir = verif_dir().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(dir.join(format!("{}.json", p.id)), serde_json::to_string_pretty(&ev).unwrap()).expect("evidence file");

    for sig in totals.known.keys() {
        println!("KNOWN-FINDING: property={} {} ({})", p.id, known.texts[sig], sig);
    }
    println!(
        "{}: {} cases, {} distinct non-trivial, {:.1} s, classes {:?}",
        p.id, totals.evaluations, totals.distinct.len(), start.elapsed().as_secs_f64(), totals.labels
    );
    for (path, f) in &violations {
        println!("{}: {}", f.sig, f.msg.chars().take(2000).collect::<String>());
        println!("VIOLATION property={} replay={}", p.id, path.display());
    }
    i32::from(!violations.is_empty())
}
