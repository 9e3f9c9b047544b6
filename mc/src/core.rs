//! The exploration engine: parallel exhaustive enumeration of an index space, with
//! crash/hang pinpointing, counters, samples and violation records.

use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::io::Read;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::PathBuf;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::Mutex;
use std::time::Instant;

pub const NSLOTS: usize = 64;

/// What one worker is doing right now; lives in a file mapped by parent and child, so that the
/// supervisor can tell which case hung or crashed.
#[repr(C)]
pub struct Slot {
    pub seq: AtomicU64,
    pub stage: AtomicU64,
    pub idx: AtomicU64,
    pad: [u64; 5],
}

pub fn map_slots(path: &str) -> &'static [Slot] {
    use std::os::unix::io::AsRawFd;
    let f = std::fs::OpenOptions::new()
        .read(true)
        .write(true)
        .create(true)
        .open(path)
        .expect("slot file");
    let len = NSLOTS * std::mem::size_of::<Slot>();
    f.set_len(len as u64).unwrap();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            len,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            f.as_raw_fd(),
            0,
        );
        assert!(p != libc::MAP_FAILED);
        std::slice::from_raw_parts(p as *const Slot, NSLOTS)
    }
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub case: Value,
    pub msg: String,
}

pub struct Ctx {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub threads: usize,
    pub scratch: PathBuf,
    t0: Instant,
    budget: std::time::Duration,
    counts: Mutex<BTreeMap<String, u64>>,
    stages: Mutex<Vec<Value>>,
    samples: Mutex<Vec<Value>>,
    assumptions: Mutex<Vec<String>>,
    violation: Mutex<Option<Fail>>,
    suppressed: Mutex<BTreeMap<String, u64>>,
    stage_no: AtomicU64,
    slots: &'static [Slot],
    pinpoint: Option<(u64, u64)>,
    open: Vec<Value>,
    pub exhaustive: AtomicBool,
}

/// Per-worker handle.
pub struct W {
    pub no: usize,
    pub dir: PathBuf,
    pub nontrivial: u64,
    pub extra: u64,
}

impl W {
    /// Writes a scratch file and returns its path.
    pub fn file(&self, name: &str, data: impl AsRef<[u8]>) -> PathBuf {
        let p = self.dir.join(name);
        std::fs::write(&p, data).expect("scratch write");
        p
    }
}

thread_local! { static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|info| {
        let m = info.to_string().replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}

/// Runs `f`; a panic becomes `Err("panicked: ..")`.
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f))
        .map_err(|_| format!("panicked: {}", LAST_PANIC.with(|p| p.borrow().clone())))
}

impl Ctx {
    pub fn new(prop: &str) -> Ctx {
        let env = |k: &str| std::env::var(k).unwrap_or_default();
        let pin = env("MC_PINPOINT");
        let pinpoint = pin.split_once(':').map(|(a, b)| (a.parse().unwrap(), b.parse().unwrap()));
        let open = std::fs::read_to_string(env("MC_KNOWN"))
            .ok()
            .and_then(|s| serde_json::from_str::<Value>(&s).ok())
            .and_then(|v| v.get("open").and_then(|o| o.as_array().cloned()))
            .unwrap_or_default()
            .into_iter()
            .filter(|e| e["property"] == prop)
            .collect();
        Ctx {
            prop: prop.into(),
            thorough: env("VERIF_TIER") == "thorough",
            seed: env("VERIF_SEED").parse().unwrap_or(1),
            threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16),
            scratch: PathBuf::from(env("MC_SCRATCH")),
            t0: Instant::now(),
            budget: std::time::Duration::from_secs(if env("VERIF_TIER") == "thorough" { 6 * 3600 } else { 480 }),
            counts: Default::default(),
            stages: Default::default(),
            samples: Default::default(),
            assumptions: Default::default(),
            violation: Default::default(),
            suppressed: Default::default(),
            stage_no: AtomicU64::new(0),
            slots: map_slots(&env("MC_SLOTS")),
            pinpoint,
            open,
            exhaustive: AtomicBool::new(true),
        }
    }

    pub fn pick<T>(&self, quick: T, thorough: T) -> T {
        if self.thorough {
            thorough
        } else {
            quick
        }
    }

    pub fn failed(&self) -> bool {
        self.violation.lock().unwrap().is_some()
    }

    pub fn evaluations(&self) -> u64 {
        *self.counts.lock().unwrap().get("evaluations").unwrap_or(&0)
    }

    pub fn count(&self, key: &str, n: u64) {
        *self.counts.lock().unwrap().entry(key.into()).or_default() += n;
    }

    pub fn sample(&self, mut v: Value) {
        let t = v["case"].to_string();
        if t.len() > 3000 {
            v["case"] = json!(t.chars().take(600).collect::<String>() + " ... (cut)");
        }
        let mut s = self.samples.lock().unwrap();
        if s.len() < 40 {
            s.push(v);
        }
    }

    pub fn assume(&self, s: &str) {
        self.assumptions.lock().unwrap().push(s.into());
    }

    pub fn fail(&self, case: Value, msg: String) {
        for e in &self.open {
            if e["case"] == case {
                *self
                    .suppressed
                    .lock()
                    .unwrap()
                    .entry(e["what"].as_str().unwrap_or("").to_string())
                    .or_default() += 1;
                return;
            }
        }
        let mut v = self.violation.lock().unwrap();
        if v.is_none() {
            *v = Some(Fail { case, msg });
        }
    }

    /// A failure of a class listed as a known finding.
    pub fn known(&self, class: &str, msg: String) -> Result<bool, String> {
        match self.open.iter().find(|e| e["class"] == class) {
            Some(e) => {
                *self.suppressed.lock().unwrap().entry(e["what"].as_str().unwrap_or("").to_string()).or_default() += 1;
                Ok(true)
            }
            None => Err(msg),
        }
    }

    /// Judges `n` cases exhaustively. `judge` returns whether the case was non-trivial (for the
    /// tree under test it exercised the behaviour the property is about), or what went wrong.
    /// The lowest failing index is reported, so spaces are laid out simplest first.
    pub fn explore<M, J>(&self, name: &str, n: u64, mk: M, judge: J)
    where
        M: Fn(u64) -> Value + Sync,
        J: Fn(&mut W, u64) -> Result<bool, String> + Sync,
    {
        let stage = self.stage_no.fetch_add(1, Relaxed);
        if let Some((s, i)) = self.pinpoint {
            if s == stage {
                println!("{}", mk(i));
                std::process::exit(0);
            }
            return;
        }
        if self.failed() || n == 0 {
            return;
        }
        let t = Instant::now();
        let best = AtomicU64::new(u64::MAX);
        let next = AtomicU64::new(0);
        let fails: Mutex<BTreeMap<u64, String>> = Mutex::new(BTreeMap::new());
        let done = AtomicU64::new(0);
        let nontrivial = AtomicU64::new(0);
        let extra = AtomicU64::new(0);
        let threads = (self.threads as u64).min(n).max(1);
        let chunk = (n / (threads * 64)).clamp(1, 4096);
        std::thread::scope(|sc| {
            for no in 0..threads as usize {
                let (best, next, fails, done, nontrivial, extra, mk, judge) =
                    (&best, &next, &fails, &done, &nontrivial, &extra, &mk, &judge);
                sc.spawn(move || {
                    let slot = &self.slots[no];
                    let dir = self.scratch.join(format!("w{no}"));
                    std::fs::create_dir_all(&dir).unwrap();
                    let mut w = W { no, dir, nontrivial: 0, extra: 0 };
                    slot.stage.store(stage, Relaxed);
                    let mut cnt = 0u64;
                    loop {
                        let lo = next.fetch_add(chunk, Relaxed);
                        if lo >= n || lo > best.load(Relaxed) {
                            break;
                        }
                        if self.t0.elapsed() > self.budget {
                            // an answer late is no answer: what is left out is in the evidence
                            self.exhaustive.store(false, Relaxed);
                            break;
                        }
                        for i in lo..(lo + chunk).min(n) {
                            slot.idx.store(i, Relaxed);
                            slot.seq.fetch_add(1, Release);
                            let r = match guard(|| judge(&mut w, i)) {
                                Ok(r) => r,
                                Err(p) => Err(p),
                            };
                            slot.seq.fetch_add(1, Release);
                            cnt += 1;
                            match r {
                                Ok(true) => w.nontrivial += 1,
                                Ok(false) => {}
                                Err(msg) => {
                                    let case = mk(i);
                                    if self.open.iter().any(|e| e["case"] == case) {
                                        self.fail(case, msg);
                                    } else {
                                        best.fetch_min(i, Relaxed);
                                        fails.lock().unwrap().insert(i, msg);
                                        break;
                                    }
                                }
                            }
                        }
                    }
                    done.fetch_add(cnt, Relaxed);
                    nontrivial.fetch_add(w.nontrivial, Relaxed);
                    extra.fetch_add(w.extra, Relaxed);
                });
            }
        });
        let (done, nt) = (done.into_inner(), nontrivial.into_inner());
        self.count("evaluations", done);
        self.count("distinct_nontrivial", nt);
        let mut st = json!({"stage": name, "space": n, "explored": done, "nontrivial": nt,
            "wall_s": (t.elapsed().as_millis() as f64) / 1000.0});
        let ex = extra.into_inner();
        if ex > 0 {
            st["executions_inside"] = json!(ex);
            self.count("executions_inside", ex);
        }
        self.stages.lock().unwrap().push(st);
        let k = (self.seed.wrapping_mul(0x9E3779B97F4A7C15) ^ stage.wrapping_mul(0xD1B54A32D192ED03)) % n;
        self.sample(json!({"stage": name, "index": k, "case": mk(k)}));
        if let Some((i, msg)) = fails.into_inner().unwrap().into_iter().next() {
            self.fail(mk(i), msg);
        }
    }

    /// All strings of exactly the lengths in `lens` over `toks`, shortest first.
    pub fn strings<M, J>(&self, name: &str, toks: &[String], lens: std::ops::RangeInclusive<u32>, mk: M, judge: J)
    where
        M: Fn(&str) -> Value + Sync,
        J: Fn(&mut W, &str) -> Result<bool, String> + Sync,
    {
        for len in lens {
            let k = toks.len() as u64;
            let n = k.pow(len);
            self.explore(
                &format!("{name}: all {n} texts of {len} symbols over {k}"),
                n,
                |i| mk(&nth_string(toks, len, i)),
                |w, i| judge(w, &nth_string(toks, len, i)),
            );
        }
    }

    pub fn finish(self) -> Value {
        let mut cov = serde_json::Map::new();
        for (k, v) in self.counts.into_inner().unwrap() {
            cov.insert(k, json!(v));
        }
        cov.insert("stages".into(), json!(self.stages.into_inner().unwrap()));
        cov.insert("samples".into(), json!(self.samples.into_inner().unwrap()));
        cov.insert("exhaustive".into(), json!(self.exhaustive.load(Relaxed)));
        let v = self.violation.into_inner().unwrap();
        json!({
            "coverage": cov,
            "assumptions": self.assumptions.into_inner().unwrap(),
            "known": self.suppressed.into_inner().unwrap().keys().cloned().collect::<Vec<_>>(),
            "explore_s": self.t0.elapsed().as_millis() as f64 / 1000.0,
            "violation": v.map(|f| json!({"case": f.case, "message": f.msg})),
        })
    }
}

pub fn nth_string(toks: &[String], len: u32, mut i: u64) -> String {
    let k = toks.len() as u64;
    let mut digits = [0usize; 64];
    for d in (0..len as usize).rev() {
        digits[d] = (i % k) as usize;
        i /= k;
    }
    let mut s = String::with_capacity(len as usize * 4);
    for d in digits.iter().take(len as usize) {
        s.push_str(&toks[*d]);
    }
    s
}

pub fn toks(s: &str) -> Vec<String> {
    s.chars().map(|c| c.to_string()).collect()
}

/// Mixed-radix decomposition of an index (first radix varies slowest).
pub fn mixed(mut i: u64, radices: &[u64]) -> Vec<u64> {
    let mut out = vec![0; radices.len()];
    for d in (0..radices.len()).rev() {
        out[d] = i % radices[d];
        i /= radices[d];
    }
    out
}

/// Unicode scalar values, in order.
pub const SCALARS: u64 = 0x110000 - 0x800;
pub fn scalar(i: u64) -> char {
    let v = if i < 0xD800 { i } else { i + 0x800 };
    char::from_u32(v as u32).unwrap()
}

/// A text given as segments repeated n times, so that long cases stay readable in a replay file.
pub fn segs_text(segs: &[(String, usize)]) -> String {
    let mut s = String::new();
    for (t, n) in segs {
        for _ in 0..*n {
            s.push_str(t);
        }
    }
    s
}

pub fn case_text(case: &Value) -> String {
    if let Some(t) = case["text"].as_str() {
        return t.to_string();
    }
    let segs: Vec<(String, usize)> = serde_json::from_value(case["segs"].clone()).expect("text or segs");
    segs_text(&segs)
}

pub fn show(s: &str) -> String {
    let n = s.chars().count();
    if n <= 80 {
        format!("{s:?}")
    } else {
        let head: String = s.chars().take(60).collect();
        format!("{head:?}... ({n} chars)")
    }
}

/// First difference of two long strings, for messages.
pub fn diff(exp: &str, got: &str) -> String {
    let a: Vec<char> = exp.chars().collect();
    let b: Vec<char> = got.chars().collect();
    let i = a.iter().zip(b.iter()).take_while(|(x, y)| x == y).count();
    if a.len() <= 80 && b.len() <= 80 {
        return format!("expected {exp:?}, got {got:?}");
    }
    let ctx = |v: &[char]| v.iter().skip(i.saturating_sub(5)).take(20).collect::<String>();
    format!(
        "differs at char {i} (expected {} chars, got {}): expected ..{:?}.., got ..{:?}..",
        a.len(),
        b.len(),
        ctx(&a),
        ctx(&b)
    )
}

/// Runs `f` in a child process; its answer, or how it ended.
pub fn forked(f: impl FnOnce() -> Result<String, String>) -> Result<String, String> {
    let mut fds = [0i32; 2];
    unsafe {
        assert!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC) == 0);
        let pid = libc::fork();
        assert!(pid >= 0, "fork failed");
        if pid == 0 {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            libc::close(fds[0]);
            let r = match guard(f) {
                Ok(r) => r,
                Err(p) => Err(p),
            };
            let (tag, s) = match r {
                Ok(s) => (b'+', s),
                Err(s) => (b'-', s),
            };
            let mut out = vec![tag];
            out.extend(s.as_bytes());
            let mut at = 0;
            while at < out.len() {
                let n = libc::write(fds[1], out[at..].as_ptr() as *const _, out.len() - at);
                if n <= 0 {
                    break;
                }
                at += n as usize;
            }
            libc::_exit(0);
        }
        libc::close(fds[1]);
        let mut file = <std::fs::File as std::os::unix::io::FromRawFd>::from_raw_fd(fds[0]);
        let mut out = Vec::new();
        let _ = file.read_to_end(&mut out);
        let mut st = 0;
        while libc::waitpid(pid, &mut st, 0) < 0 {}
        let text = String::from_utf8_lossy(out.get(1..).unwrap_or(&[])).into_owned();
        match out.first() {
            Some(b'+') => Ok(text),
            Some(_) => Err(text),
            None => Err(format!("the process died (wait status {st:#x})")),
        }
    }
}


struct Zygote {
    pid: i32,
    tx: i32,
    rx: i32,
}
impl Drop for Zygote {
    fn drop(&mut self) {
        unsafe {
            libc::close(self.tx);
            libc::close(self.rx);
            let mut st = 0;
            libc::waitpid(self.pid, &mut st, 0);
        }
    }
}
unsafe fn write_all(fd: i32, b: &[u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = libc::write(fd, b[at..].as_ptr() as *const _, b.len() - at);
        if n <= 0 {
            return false;
        }
        at += n as usize;
    }
    true
}
unsafe fn read_all(fd: i32, b: &mut [u8]) -> bool {
    let mut at = 0;
    while at < b.len() {
        let n = libc::read(fd, b[at..].as_mut_ptr() as *mut _, b.len() - at);
        if n <= 0 {
            return false;
        }
        at += n as usize;
    }
    true
}

impl Zygote {
    /// Call only while this process has no other thread.
    fn start(dir: &std::path::Path, f: &dyn Fn(&std::path::Path, u64) -> Result<String, String>) -> Zygote {
        unsafe {
            let (mut a, mut b) = ([0i32; 2], [0i32; 2]);
            assert!(libc::pipe2(a.as_mut_ptr(), libc::O_CLOEXEC) == 0 && libc::pipe2(b.as_mut_ptr(), libc::O_CLOEXEC) == 0);
            let pid = libc::fork();
            assert!(pid >= 0, "fork failed");
            if pid == 0 {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                // Other servers' pipe ends must not be held open here.
                for fd in 3..1024 {
                    if fd != a[0] && fd != b[1] {
                        libc::close(fd);
                    }
                }
                let mut n = [0u8; 8];
                while read_all(a[0], &mut n) {
                    let r = forked(|| f(dir, u64::from_le_bytes(n)));
                    let (tag, s) = match &r {
                        Ok(s) => (b'+', s),
                        Err(s) => (b'-', s),
                    };
                    let mut out = (s.len() as u64 + 1).to_le_bytes().to_vec();
                    out.push(tag);
                    out.extend(s.as_bytes());
                    if !write_all(b[1], &out) {
                        break;
                    }
                }
                libc::_exit(0);
            }
            libc::close(a[0]);
            libc::close(b[1]);
            Zygote { pid, tx: a[1], rx: b[0] }
        }
    }

    fn ask(&self, i: u64) -> Result<String, String> {
        unsafe {
            let mut n = [0u8; 8];
            if !write_all(self.tx, &i.to_le_bytes()) || !read_all(self.rx, &mut n) {
                return Err("the server process died".into());
            }
            let mut s = vec![0u8; u64::from_le_bytes(n) as usize];
            if !read_all(self.rx, &mut s) {
                return Err("the server process died".into());
            }
            let t = String::from_utf8_lossy(&s[1..]).into_owned();
            if s[0] == b'+' {
                Ok(t)
            } else {
                Err(t)
            }
        }
    }
}

impl Ctx {
    /// As `explore`, with every case judged in a process of its own, forked from one that never
    /// used the library and has a single thread. `f` runs there; `done` sees its answer here.
    pub fn explore_res<M, F, D>(&self, name: &str, n: u64, mk: M, f: F, done: D)
    where
        M: Fn(u64) -> Value + Sync,
        F: Fn(&std::path::Path, u64) -> Result<String, String>,
        D: Fn(&mut W, u64, Result<String, String>) -> Result<bool, String> + Sync,
    {
        let mut zs: Vec<Zygote> = Vec::new();
        if self.pinpoint.is_none() && !self.failed() {
            for no in 0..self.threads {
                let dir = self.scratch.join(format!("w{no}"));
                std::fs::create_dir_all(&dir).unwrap();
                zs.push(Zygote::start(&dir, &f));
            }
        }
        let zs = &zs;
        self.explore(name, n, mk, |w, i| done(w, i, zs[w.no].ask(i)));
    }

    pub fn explore_iso<M, F, D>(&self, name: &str, n: u64, mk: M, f: F, done: D)
    where
        M: Fn(u64) -> Value + Sync,
        F: Fn(&std::path::Path, u64) -> Result<String, String>,
        D: Fn(&mut W, u64, &str) -> Result<bool, String> + Sync,
    {
        self.explore_res(name, n, mk, f, |w, i, r| done(w, i, &r?))
    }
}
