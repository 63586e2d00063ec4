//! Runs the command-line wallets in a scratch directory of their own.
use engine::*;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering};
use std::sync::{Arc, OnceLock};

thread_local! {
    /// the process running the wallet
    pub static PID: Arc<AtomicU32> = Default::default();
    static STEP: std::cell::Cell<u64> = const { std::cell::Cell::new(0) };
}

/// A library under which every look at the monotonic clock takes some seconds.
fn clock() -> Option<&'static Path> {
    static LIB: OnceLock<Option<PathBuf>> = OnceLock::new();
    LIB.get_or_init(|| {
        let dir = std::env::current_exe().ok()?.parent()?.to_path_buf();
        let id = std::process::id();
        let (src, new, lib) = (dir.join(format!("clock{id}.c")), dir.join(format!("clock{id}.so")), dir.join("libclock.so"));
        std::fs::write(&src, include_str!("clock.c")).ok()?;
        let ok = Command::new("cc").args(["-O1", "-shared", "-fPIC", "-o"]).arg(&new).arg(&src).stderr(Stdio::null()).status().ok()?.success();
        let _ = std::fs::remove_file(&src);
        (ok && std::fs::rename(&new, &lib).is_ok()).then_some(lib)
    })
    .as_deref()
}

/// Sets the seconds between two looks at the clock for the wallets of this thread until dropped.
pub struct Clock;

impl Clock {
    pub fn new(step: u64) -> Clock {
        STEP.with(|s| s.set(if step > 0 && clock().is_some() { step } else { 0 }));
        Clock
    }
    pub fn fast(&self) -> bool {
        STEP.with(|s| s.get()) > 0
    }
}

impl Drop for Clock {
    fn drop(&mut self) {
        STEP.with(|s| s.set(0));
    }
}

pub struct Dir(pub PathBuf);

impl Dir {
    pub fn new() -> Dir {
        static N: AtomicU64 = AtomicU64::new(0);
        let shm = Path::new("/dev/shm");
        let base = if shm.is_dir() { shm.to_path_buf() } else { std::env::temp_dir() };
        let d = base.join(format!("sp-cli-check-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&d).expect("a scratch directory");
        Dir(d)
    }
    /// The bytes of all files in it.
    pub fn content(&self) -> Vec<(String, Vec<u8>)> {
        let mut v: Vec<(String, Vec<u8>)> = std::fs::read_dir(&self.0)
            .expect("the scratch directory")
            .flatten()
            .map(|e| (e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap_or_default()))
            .collect();
        v.sort();
        v
    }
}

impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

#[derive(Debug)]
pub struct Out {
    pub line: String,
    pub code: i32,
    pub stdout: String,
    pub stderr: String,
    /// ran so long that what it prints along the way may be all
    pub slow: bool,
}

/// Runs the wallet; one that takes a minute is stopped and a violation.
pub fn run(bin: &str, dir: &Dir, args: &[&str], envs: &[(&str, &str)]) -> Result<Out, Fail> {
    let exe = std::env::current_exe().expect("own path").with_file_name(bin);
    let line = format!("{bin} {}", args.join(" "));
    let start = std::time::Instant::now();
    let step = STEP.with(|s| s.get());
    let mut c = Command::new("timeout");
    c.args(["-s", "KILL", "60"])
        .arg(&exe)
        .args(args)
        .env_clear()
        .envs(envs.iter().copied())
        .current_dir(&dir.0)
        .stdin(Stdio::null())
        .stdout(Stdio::piped())
        .stderr(Stdio::piped());
    if let (Some(lib), true) = (clock(), step > 0) {
        c.env("LD_PRELOAD", lib).env("CLOCK_STEP", step.to_string());
    }
    let child = c.spawn().expect("the wallet runs");
    PID.with(|p| p.store(child.id(), Ordering::SeqCst));
    let o = child.wait_with_output().expect("the wallet runs");
    PID.with(|p| p.store(0, Ordering::SeqCst));
    // the node may end it on purpose with a signal of its own
    let code = o.status.code().unwrap_or(if o.status.signal() == Some(15) { 143 } else { -1 });
    let (stdout, stderr) =
        (String::from_utf8_lossy(&o.stdout).into_owned(), String::from_utf8_lossy(&o.stderr).into_owned());
    if code == 124 || code == 137 || code == -1 {
        return fail("does not end", format!("{line}: {code}"));
    }
    Ok(Out { line, code, stdout, stderr, slow: step > 0 || start.elapsed().as_secs() >= 4 })
}

impl Out {
    pub fn ok(self, sig: &str) -> Result<Out, Fail> {
        if self.code == 0 {
            Ok(self)
        } else {
            fail(sig, format!("{}: status {}: {}{}", self.line, self.code, self.stdout, self.stderr))
        }
    }
    /// The JSON objects printed.
    pub fn json(&self, sig: &str) -> Result<Vec<serde_json::Value>, Fail> {
        let v: Result<Vec<serde_json::Value>, _> = serde_json::Deserializer::from_str(&self.stdout).into_iter().collect();
        v.or_else(|e| fail(sig, format!("{}: {e}: {}", self.line, self.stdout)))
    }
    pub fn text(&self, key: &str, sig: &str) -> Result<String, Fail> {
        for j in self.json(sig)? {
            if let Some(t) = j.get(key).and_then(|x| x.as_str()) {
                return Ok(t.to_string());
            }
        }
        fail(sig, format!("{}: no {key}: {}", self.line, self.stdout))
    }
    pub fn number(&self, path: &[&str], sig: &str) -> Result<u64, Fail> {
        for j in self.json(sig)? {
            let mut at = Some(&j);
            for p in path {
                at = at.and_then(|x| x.get(p));
            }
            if let Some(n) = at.and_then(|x| x.as_u64()) {
                return Ok(n);
            }
        }
        fail(sig, format!("{}: no {path:?}: {}", self.line, self.stdout))
    }
}
