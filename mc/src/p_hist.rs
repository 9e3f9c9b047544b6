//! C13: results depend only on configuration and text. Histories of calls, instances, threads,
//! hash seeds, environments, and preemptions of one call by another at machine-instruction
//! granularity (sched.rs). Every history runs in a process of its own, forked before the library
//! was used; what it must return was computed by a process that did nothing else.

use crate::core::*;
use crate::sched::{self, Cut};
use crate::spec::*;
use crate::HASH_SEED;
use ::chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::Path;
use std::sync::atomic::Ordering::*;
use std::sync::{Condvar, Mutex};

/// Everything a call returns.
pub fn outcome(c: &Chanoma, positions: bool, text: &str) -> String {
    if positions {
        let m = c.normalize_with_positions(text);
        let mut s = format!("{}\u{1}", m.text());
        for r in m.modified_records() {
            s.push_str(&format!("{}\u{2}", r.text));
            for p in &r.positions {
                s.push_str(&format!("{}>{}@{}+{}/{}+{}\u{3}", p.from, p.to, p.index, p.length, p.utf8_index, p.utf8_length));
            }
        }
        s
    } else {
        c.normalize(text)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// (slot, normalizer)
    Build(usize, Spec),
    Add(usize, Part),
    Drop(usize),
    /// (slot, with positions, text)
    Call(usize, bool, String),
    /// A load that fails.
    BadLoad(String, String),
    /// n calls with distinct texts, none of them judged
    Many(usize, usize),
    /// n other normalizers are built (kind), each called and dropped, or kept to the end
    Churn(usize, usize, bool),
}

pub fn distinct_text(i: usize) -> String {
    format!("a{i}ー Ａ{}", ['ー', '~', 'ｱ', 'x'][i % 4])
}

#[derive(Default)]
struct State {
    slots: HashMap<usize, (Chanoma, Spec)>,
    kept: Vec<Chanoma>,
}

impl State {
    fn exec(&mut self, op: &Op, expect: &dyn Fn(&Spec, bool, &str) -> Result<String, String>, dir: &Path) -> Result<bool, String> {
        match op {
            Op::Build(s, spec) => {
                let d = dir.join(format!("b{s}-{:?}", std::thread::current().id()));
                std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
                let c = spec.build(&d)?;
                self.slots.insert(*s, (c, spec.clone()));
            }
            Op::Add(s, part) => {
                if let Some((c, spec)) = self.slots.get_mut(s) {
                    part.add_to(c);
                    spec.0.push(part.clone());
                }
            }
            Op::Drop(s) => {
                self.slots.remove(s);
            }
            Op::Call(s, p, text) => {
                if let Some((c, spec)) = self.slots.get(s) {
                    let want = expect(spec, *p, text)?;
                    let got = outcome(c, *p, text);
                    if got != want {
                        return Err(format!("call {} on {}: {}", if *p { "with positions" } else { "normalize" }, show(text), diff(&want, &got)));
                    }
                    return Ok(true);
                }
            }
            Op::BadLoad(ext, doc) => {
                let p = dir.join(format!("bad.{ext}"));
                std::fs::write(&p, doc).map_err(|e| e.to_string())?;
                let _ = Chanoma::from_config_file(&p);
            }
            Op::Many(s, n) => {
                if let Some((c, _)) = self.slots.get(s) {
                    for i in 0..*n {
                        let t = distinct_text(i);
                        c.normalize(&t);
                        if i % 3 == 0 {
                            c.normalize_with_positions(&t);
                        }
                    }
                }
            }
            Op::Churn(n, kind, keep) => {
                for i in 0..*n {
                    let x = char::from_u32(0x4e00 + (i % 20_000) as u32).unwrap();
                    let other = match (*kind + i % 2) % 4 {
                        0 => Spec(vec![Part::Table(vec![("a".into(), x.into()), ("ー".into(), "b".into())])]),
                        1 => Spec(vec![Part::New, Part::Neologdn, Part::Table(vec![("b".into(), x.into())])]),
                        2 => Spec::step(Step::Reduce(x)),
                        _ => Spec::step(Step::Lig(vec![("ab".into(), x.into()), (x.into(), "ー".into())])),
                    };
                    let c = other.build(dir)?;
                    let t = format!("aー b{x}Ａ{x}");
                    outcome(&c, false, &t);
                    outcome(&c, true, &t);
                    if *keep {
                        self.kept.push(c);
                    }
                }
            }
        }
        Ok(false)
    }
}

/// Texts that a cache could take for one another: of one length, with the same ends, of the same
/// characters, with a common beginning or end, apart by case, width or a folding.
fn families() -> Vec<Vec<String>> {
    let bases = ["aーb Ａ", "ab か゛~xｱa b", "aー b~Ａ  か゛ａ zｶﾞーー y", &"xー aＡ~b か".repeat(5), &"abー ".repeat(70)];
    bases
        .iter()
        .map(|b| {
            let cs: Vec<char> = b.chars().collect();
            let n = cs.len();
            let with = |k: usize, c: char| {
                let mut v = cs.clone();
                v[k] = c;
                v.into_iter().collect::<String>()
            };
            let swapped = |i: usize, j: usize| {
                let mut v = cs.clone();
                v.swap(i, j);
                v.into_iter().collect::<String>()
            };
            let mut v = vec![
                b.to_string(),
                with(n / 2, '～'),
                with(n / 2, 'ｱ'),
                with(0, 'ａ'),
                with(n - 1, 'ー'),
                with(n - 1, 'Ａ'),
                swapped(0, n - 1),
                swapped(1, n / 2),
                cs.iter().rev().collect(),
                cs[..n - 1].iter().collect(),
                cs[1..].iter().collect(),
                format!("{b} "),
                format!(" {b}"),
                format!("{b}\u{301}"),
                b.to_uppercase(),
                b.replace('a', "ａ"),
                b.replace(' ', ""),
                b.replace("ab", "ba"),
                format!("{b}{b}"),
            ];
            v.sort();
            v.dedup();
            v
        })
        .collect()
}

/// What a fresh normalizer in a fresh process returns.
pub struct Baseline(Mutex<HashMap<String, String>>);
impl Baseline {
    pub fn new() -> Self {
        Baseline(Mutex::new(HashMap::new()))
    }
    fn key(spec: &Spec, p: bool, text: &str) -> String {
        format!("{}\u{4}{p}\u{4}{text}", serde_json::to_string(spec).unwrap())
    }
    /// Never call this from a process that has used the library.
    pub fn learn(&self, spec: &Spec, p: bool, text: &str, dir: &Path) -> Result<(), String> {
        let k = Self::key(spec, p, text);
        if self.0.lock().unwrap().contains_key(&k) {
            return Ok(());
        }
        let v = forked(|| Ok(outcome(&spec.build(dir)?, p, text)))?;
        self.0.lock().unwrap().insert(k, v);
        Ok(())
    }
    fn put(&self, o: &Op2, r: &str) {
        self.0.lock().unwrap().insert(Self::key(&o.0, o.1, &o.2), r.to_string());
    }
    fn copy(&self) -> HashMap<String, String> {
        self.0.lock().unwrap().clone()
    }
}

/// Learns what a history will need.
fn learn_for(b: &Baseline, ops: &[Op], dir: &Path) -> Result<(), String> {
    let mut slots: HashMap<usize, Spec> = HashMap::new();
    for op in ops {
        match op {
            Op::Build(s, spec) => {
                slots.insert(*s, spec.clone());
            }
            Op::Add(s, p) => {
                if let Some(x) = slots.get_mut(s) {
                    x.0.push(p.clone());
                }
            }
            Op::Drop(s) => {
                slots.remove(s);
            }
            Op::Call(s, p, t) => {
                if let Some(x) = slots.get(s) {
                    b.learn(x, *p, t, dir)?;
                }
            }
            _ => {}
        }
    }
    Ok(())
}

fn history(b: &HashMap<String, String>, ops: &[Op], dir: &Path) -> Result<bool, String> {
    forked(|| history_here(b, ops, dir)).map(|n| n != "0" && n != "1")
}

fn history_here(b: &HashMap<String, String>, ops: &[Op], dir: &Path) -> Result<String, String> {
    let get = |s: &Spec, p: bool, t: &str| b.get(&Baseline::key(s, p, t)).cloned().ok_or_else(|| "no baseline".to_string());
    let mut st = State::default();
    let mut judged = 0;
    for (i, op) in ops.iter().enumerate() {
        if st.exec(op, &get, dir).map_err(|e| format!("operation {i}: {e}"))? {
            judged += 1;
        }
    }
    Ok(judged.to_string())
}

/// Thread histories: `turns` says whose turn it is; each thread owns its normalizers.
fn threaded(b: &HashMap<String, String>, seqs: &[Vec<Op>], turns: &[usize], dir: &Path) -> Result<bool, String> {
    forked(|| threaded_here(b, seqs, turns, dir)).map(|_| true)
}

fn threaded_here(b: &HashMap<String, String>, seqs: &[Vec<Op>], turns: &[usize], dir: &Path) -> Result<String, String> {
    let get = |s: &Spec, p: bool, t: &str| b.get(&Baseline::key(s, p, t)).cloned().ok_or_else(|| "no baseline".to_string());
    {
        let turn = (Mutex::new(0usize), Condvar::new());
        let errs: Mutex<Vec<String>> = Mutex::new(Vec::new());
        std::thread::scope(|sc| {
            for (me, seq) in seqs.iter().enumerate() {
                let (turn, errs, get) = (&turn, &errs, &get);
                sc.spawn(move || {
                    let mut st = State::default();
                    let mut k = 0;
                    let mut at = turn.0.lock().unwrap();
                    loop {
                        if k == seq.len() {
                            return;
                        }
                        if *at < turns.len() && turns[*at] != me {
                            at = turn.1.wait(at).unwrap();
                            continue;
                        }
                        match guard(|| st.exec(&seq[k], get, dir)) {
                            Ok(Ok(_)) => {}
                            Ok(Err(e)) | Err(e) => errs.lock().unwrap().push(format!("thread {me}, operation {k}: {e}")),
                        }
                        k += 1;
                        *at += 1;
                        turn.1.notify_all();
                    }
                });
            }
        });
        match errs.into_inner().unwrap().into_iter().next() {
            Some(e) => Err(e),
            None => Ok(String::new()),
        }
    }
}

/// n threads with a normalizer each, one after another, or all at the same time and taking turns.
fn crowd(b: &HashMap<String, String>, specs: &[Spec], texts: &[String], n: usize, alive: bool, dir: &Path) -> Result<String, String> {
    use std::sync::mpsc::channel;
    let get = |s: &Spec, p: bool, t: &str| b.get(&Baseline::key(s, p, t)).cloned().ok_or_else(|| "no baseline".to_string());
    // round 0 builds, then every text with every interface
    let op = |me: usize, round: usize| match round {
        0 => Op::Build(0, specs[me % specs.len()].clone()),
        r => Op::Call(0, (r + me) % 2 == 0, texts[((r - 1) / 2 + me) % texts.len()].clone()),
    };
    let rounds = 1 + 2 * texts.len();
    std::thread::scope(|sc| {
        let start = |me: usize| {
            let (ask, asked) = channel::<usize>();
            let (tell, told) = channel::<Result<(), String>>();
            let (get, op) = (&get, &op);
            let own = dir.join(format!("t{}", me % specs.len()));
            let h = std::thread::Builder::new().stack_size(1 << 20).spawn_scoped(sc, move || {
                let mut st = State::default();
                for r in asked {
                    let x = guard(|| st.exec(&op(me, r), get, &own)).and_then(|x| x).map(|_| ());
                    let _ = tell.send(x.map_err(|e| format!("thread {me}, operation {r}: {e}")));
                }
            });
            (ask, told, h.unwrap())
        };
        let go = |t: &(std::sync::mpsc::Sender<usize>, std::sync::mpsc::Receiver<Result<(), String>>, std::thread::ScopedJoinHandle<()>), r: usize| {
            t.0.send(r).map_err(|e| e.to_string())?;
            t.1.recv().map_err(|e| e.to_string())?
        };
        let first = start(0);
        let all = |t: &_| (0..rounds).try_for_each(|r| go(t, r));
        all(&first)?;
        if alive {
            let crowd: Vec<_> = (1..n).map(start).collect();
            for r in 0..rounds {
                for t in &crowd {
                    go(t, r)?;
                }
            }
            all(&first)?;
            all(&start(n))?;
        } else {
            for me in 1..n {
                let (ask, told, h) = start(me);
                for r in 0..rounds {
                    ask.send(r).map_err(|e| e.to_string())?;
                    told.recv().map_err(|e| e.to_string())??;
                }
                drop(ask);
                h.join().map_err(|_| "a thread ended by a panic")?;
            }
        }
        all(&first)?;
        Ok((n * rounds).to_string())
    })
}

/// All calls of one normalizer in a fresh thread of a fresh process under a given hash seed.
fn seeded(b: &HashMap<String, String>, spec: &Spec, texts: &[String], seed: u64, dir: &Path) -> Result<String, String> {
    let get = |s: &Spec, p: bool, t: &str| b.get(&Baseline::key(s, p, t)).cloned().ok_or_else(|| "no baseline".to_string());
    {
        HASH_SEED.store(seed, Relaxed);
        let r = std::thread::scope(|sc| {
            sc.spawn(|| {
                guard(|| {
                    let mut st = State::default();
                    st.exec(&Op::Build(0, spec.clone()), &get, dir)?;
                    for t in texts {
                        for p in [false, true] {
                            st.exec(&Op::Call(0, p, t.clone()), &get, dir)?;
                        }
                    }
                    Ok(String::new())
                })
                .unwrap_or_else(Err)
            })
            .join()
            .unwrap()
        });
        r
    }
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    let b = Baseline::new();
    let de = |k: &str| -> Value { case[k].clone() };
    match case["kind"].as_str().unwrap() {
        "history" => {
            let ops: Vec<Op> = serde_json::from_value(de("ops")).unwrap();
            learn_for(&b, &ops, dir)?;
            history(&b.copy(), &ops, dir).map(|_| ())
        }
        "threads" => {
            let seqs: Vec<Vec<Op>> = serde_json::from_value(de("threads")).unwrap();
            let turns: Vec<usize> = serde_json::from_value(de("turns")).unwrap();
            for s in &seqs {
                learn_for(&b, s, dir)?;
            }
            threaded(&b.copy(), &seqs, &turns, dir).map(|_| ())
        }
        "seed" => {
            let spec: Spec = serde_json::from_value(de("spec")).unwrap();
            let texts: Vec<String> = serde_json::from_value(de("texts")).unwrap();
            for t in &texts {
                b.learn(&spec, false, t, dir)?;
                b.learn(&spec, true, t, dir)?;
            }
            forked(|| seeded(&b.copy(), &spec, &texts, case["seed"].as_u64().unwrap(), dir)).map(|_| ())
        }
        "crowd" => {
            let specs: Vec<Spec> = serde_json::from_value(de("specs")).unwrap();
            let texts: Vec<String> = serde_json::from_value(de("texts")).unwrap();
            for (s, t) in specs.iter().flat_map(|s| texts.iter().map(move |t| (s, t))) {
                b.learn(s, false, t, dir)?;
                b.learn(s, true, t, dir)?;
            }
            forked(|| crowd(&b.copy(), &specs, &texts, case["n"].as_u64().unwrap() as usize, case["alive"].as_bool().unwrap(), dir)).map(|_| ())
        }
        "around" => {
            let a: Op2 = serde_json::from_value(de("first")).unwrap();
            let all: Vec<Op2> = serde_json::from_value(de("all")).unwrap();
            for o in &all {
                b.learn(&o.0, o.1, &o.2, dir)?;
            }
            history(&b.copy(), &around_ops(&a, &all), dir).map(|_| ())
        }
        "env" => {
            let calls: Vec<Op2> = serde_json::from_value(de("calls")).unwrap();
            for o in &calls {
                b.learn(&o.0, o.1, &o.2, dir)?;
            }
            in_env(&b.copy(), &calls, &case["env"], dir).map(|_| ())
        }
        "preempt" => {
            let sc: Scenario = serde_json::from_value(de("scenario")).unwrap();
            b.learn(&sc.a.0, sc.a.1, &sc.a.2, dir)?;
            b.learn(&sc.b.0, sc.b.1, &sc.b.2, dir)?;
            forked(|| preempted(&b.copy(), &sc, serde_json::from_value(case["cut"].clone()).unwrap(), case["twice"].as_bool().unwrap_or(false), (0, 1), dir)).map(|_| ())
        }
        "place" => {
            let (o, i): (Op2, Op2) = serde_json::from_value(de("calls")).unwrap();
            for o in [&o, &i] {
                b.learn(&o.0, o.1, &o.2, dir)?;
            }
            forked(|| {
                crate::p_route::install_logger();
                placed(&b.copy(), case["place"].as_u64().unwrap() as usize, &o, &i, dir)
            })
            .map(|_| ())
        }
        k => panic!("unknown kind {k}"),
    }
}

/// Where a call is made.
const PLACES: [&str; 6] = [
    "by the logger that another call asks whether debug logging is enabled",
    "by the logger that another call gives a message",
    "while a panic unwinds, after another call",
    "as a thread ends, by something older than the first call there",
    "as a thread ends, by something younger than the first call there",
    "by the logger, on a thread started for it",
];

/// `outer` is called first, or is in progress, when `inner` is called at that place.
fn placed(b: &HashMap<String, String>, place: usize, outer: &Op2, inner: &Op2, dir: &Path) -> Result<String, String> {
    use crate::p_route::{set_hook, with_debug};
    use std::cell::RefCell;
    use std::sync::Arc;
    let want = |o: &Op2| b.get(&Baseline::key(&o.0, o.1, &o.2)).cloned().ok_or_else(|| "no baseline".to_string());
    let (ow, iw) = (want(outer)?, want(inner)?);
    let make = |o: &Op2, n: &str| -> Result<Chanoma, String> {
        let d = dir.join(n);
        std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
        o.0.build(&d)
    };
    let (oc, ic) = (make(outer, "o")?, make(inner, "i")?);
    let bad: Arc<Mutex<Vec<String>>> = Arc::default();
    let calls = Arc::new(std::sync::atomic::AtomicU64::new(0));
    struct Late {
        call: Box<dyn FnMut()>,
    }
    impl Drop for Late {
        fn drop(&mut self) {
            (self.call)()
        }
    }
    thread_local! {
        static AT_END: RefCell<Option<Late>> = const { RefCell::new(None) };
    }
    let call = {
        let (bad, calls, inner) = (bad.clone(), calls.clone(), inner.clone());
        move |c: &Chanoma| {
            let got = outcome(c, inner.1, &inner.2);
            calls.fetch_add(1, Relaxed);
            if got != iw {
                bad.lock().unwrap().push(format!("{} on {}: {}", if inner.1 { "with positions" } else { "normalize" }, show(&inner.2), diff(&iw, &got)));
            }
        }
    };
    let check_outer = |got: String| {
        if got != ow {
            bad.lock().unwrap().push(format!("the call around it, on {}: {}", show(&outer.2), diff(&ow, &got)));
        }
    };
    match place {
        0 | 1 | 5 => {
            let asked = place == 0;
            let (again, dir2) = (inner.clone(), dir.join("i"));
            set_hook(Some(Box::new(move |a| {
                if place == 5 {
                    let (call, again, dir2) = (call.clone(), again.clone(), dir2.clone());
                    let _ = std::thread::spawn(move || call(&again.0.build(&dir2).expect("built before"))).join();
                } else if a == asked {
                    call(&ic)
                }
            })));
            let got = guard(|| with_debug(3, || outcome(&oc, outer.1, &outer.2)));
            set_hook(None);
            check_outer(got?);
        }
        2 => {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let _late = Late { call: Box::new(move || call(&ic)) };
                check_outer(outcome(&oc, outer.1, &outer.2));
                panic!("as planned");
            }));
            assert!(r.is_err());
            let got = guard(|| outcome(&oc, outer.1, &outer.2))?;
            check_outer(got);
        }
        _ => {
            let (oa, ob, da, db) = (outer.clone(), inner.clone(), dir.join("o"), dir.join("i"));
            let (bad2, ow2) = (bad.clone(), ow.clone());
            let t = std::thread::spawn(move || -> Result<(), String> {
                let (oc, ic) = (oa.0.build(&da)?, ob.0.build(&db)?);
                let mut late = Some(Late { call: Box::new(move || call(&ic)) });
                if place == 3 {
                    AT_END.with(|a| *a.borrow_mut() = late.take());
                }
                let got = outcome(&oc, oa.1, &oa.2);
                if got != ow2 {
                    bad2.lock().unwrap().push(diff(&ow2, &got));
                }
                if place == 4 {
                    AT_END.with(|a| *a.borrow_mut() = late.take());
                }
                Ok(())
            });
            t.join().map_err(|_| "a thread panicked".to_string())??;
        }
    }
    let bad = bad.lock().unwrap();
    match bad.first() {
        Some(e) => Err(format!("called {}: {e}", PLACES[place])),
        None => Ok(calls.load(Relaxed).to_string()),
    }
}

fn alone(o: &Op2, dir: &Path) -> Result<String, String> {
    Ok(outcome(&o.0.build(dir)?, o.1, &o.2))
}

/// (normalizer, with positions, text)
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op2(pub Spec, pub bool, pub String);

/// One call first in its process, then every other call, each followed by the first again.
fn around_ops(a: &Op2, all: &[Op2]) -> Vec<Op> {
    let mut ops: Vec<Op> = Vec::new();
    let mut specs: Vec<&Spec> = Vec::new();
    let mut slot = |ops: &mut Vec<Op>, s: &'_ Spec| -> usize {
        match specs.iter().position(|x| **x == *s) {
            Some(p) => p,
            None => {
                let s: &Spec = all.iter().map(|o| &o.0).find(|x| *x == s).unwrap();
                specs.push(s);
                ops.push(Op::Build(specs.len() - 1, s.clone()));
                specs.len() - 1
            }
        }
    };
    let sa = slot(&mut ops, &a.0);
    let first = Op::Call(sa, a.1, a.2.clone());
    ops.push(first.clone());
    for o in all {
        let s = slot(&mut ops, &o.0);
        ops.push(Op::Call(s, o.1, o.2.clone()));
        ops.push(first.clone());
    }
    ops
}

/// The same calls by a new process with another environment.
fn in_env(b: &HashMap<String, String>, calls: &[Op2], env: &Value, dir: &Path) -> Result<bool, String> {
    let d = dir.join("env");
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let f = d.join("calls.json");
    std::fs::write(&f, serde_json::to_string(calls).unwrap()).map_err(|e| e.to_string())?;
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("calls").arg(&f);
    for (k, v) in env["set"].as_object().unwrap() {
        c.env(k, v.as_str().unwrap());
    }
    if let Some(cwd) = env["cwd"].as_str() {
        c.current_dir(if cwd == "scratch" { d.as_path() } else { Path::new(cwd) });
    }
    let out = c.output().map_err(|e| e.to_string())?;
    let got: Vec<String> = serde_json::from_slice(&out.stdout).map_err(|_| format!("process ended with {}: {}", out.status, String::from_utf8_lossy(&out.stderr)))?;
    for (o, g) in calls.iter().zip(&got) {
        let want = b.get(&Baseline::key(&o.0, o.1, &o.2)).cloned().unwrap_or_default();
        if *g != want {
            return Err(format!("in environment {env}, on {}: {}", show(&o.2), diff(&want, g)));
        }
    }
    Ok(true)
}

/// `mc calls FILE`
pub fn calls_main(file: &str) {
    let calls: Vec<Op2> = serde_json::from_str(&std::fs::read_to_string(file).unwrap()).unwrap();
    let dir = Path::new(file).parent().unwrap().to_path_buf();
    let out: Vec<String> = calls.iter().map(|o| guard(|| o.0.build(&dir).map(|c| outcome(&c, o.1, &o.2))).unwrap_or_else(Err).unwrap_or_else(|e| e)).collect();
    println!("{}", serde_json::to_string(&out).unwrap());
}

/// Thread A runs `a` and is stopped once; thread B then runs `b` as far as it can.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub a: Op2,
    /// A also builds its normalizer within the preempted part.
    pub build_a: bool,
    pub b: Op2,
}

fn preempted(base: &HashMap<String, String>, sc: &Scenario, cut: sched::Cut, twice: bool, shard: (u64, u64), dir: &Path) -> Result<String, String> {
    let want = |o: &Op2| base.get(&Baseline::key(&o.0, o.1, &o.2)).cloned().ok_or_else(|| "no baseline".to_string());
    let (wa, wb) = (want(&sc.a)?, want(&sc.b)?);
    let (da, db) = (dir.join("a"), dir.join("b"));
    std::fs::create_dir_all(&da).map_err(|e| e.to_string())?;
    std::fs::create_dir_all(&db).map_err(|e| e.to_string())?;
    let r = (|| {
        let pre = if sc.build_a { None } else { Some(sc.a.0.build(&da)?) };
        let b = || {
            let c = sc.b.0.build(&db)?;
            sched::preemptible();
            Ok::<_, String>(outcome(&c, sc.b.1, &sc.b.2))
        };
        let mut b = || b().unwrap_or_else(|e| e);
        let mut a = || match &pre {
            Some(c) => outcome(c, sc.a.1, &sc.a.2),
            None => sc.a.0.build(&da).map(|c| outcome(&c, sc.a.1, &sc.a.2)).unwrap_or_else(|e| e),
        };
        let r = sched::explore(&mut a, &mut b, cut, twice, shard, &|ra, rb| {
            if ra != wa {
                return Err(format!("the preempted call: {}", diff(&wa, ra)));
            }
            if rb != wb {
                return Err(format!("the preempting call: {}", diff(&wb, rb)));
            }
            Ok(())
        });
        if std::env::var_os("MC_STATS").is_some() {
            eprintln!("{r:?}");
        }
        r.map(|s| serde_json::to_string(&s).unwrap())
    })();
    r
}

fn pr(v: &[(&str, &str)]) -> Pairs {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn specs() -> Vec<Spec> {
    let y = |steps: Vec<Step>, items: Pairs| Spec(vec![Part::Yaml { steps, items }]);
    vec![
        Spec(vec![Part::Neologdn]),
        Spec(vec![Part::Preset]),
        y(vec![Step::Lig(pr(&[("ab", "b"), ("bb", "a"), ("a", "ー"), ("ーb", "ab")]))], vec![]),
        Spec(vec![Part::Table(pr(&[("a", "あ"), ("a", "b"), ("ー", "a")]))]),
        y(vec![Step::Reduce('ー'), Step::Dotted], vec![]),
        y(vec![Step::Trim, Step::Elim(vec!['b', '~'])], pr(&[("Ａ", "a"), ("ｱ", "ア")])),
        y(vec![Step::Conv(vec![('a', 'b'), ('b', 'a'), ('あ', 'ー'), (' ', 'x'), ('ー', 'あ')])], vec![]),
        Spec(vec![Part::New]),
        Spec(vec![Part::Csv(pr(&[("a", "b"), ("b", "c")])), Part::Neologdn, Part::Preset]),
        y(vec![Step::Neologdn, Step::Lig(pr(&[("ハ゜", "b"), ("aa", "ab"), ("ba", "aa")]))], vec![]),
    ]
}

pub fn texts() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "b", "ー", "あ", "Ａ", " ", "~", "aa", "ab", "ba", "aー", "ーa", "ーー", "ーーー", " a", "a b", "a  b", "ハ゜", "ｱﾞ", "ー~ー", "bbab", "abab", "あ あ", "a\nb", "Ａ　Ａ", "a ", "aaaaaaaa", "aaaaaaab", "baaaaaaa"]
        .iter()
        .map(|s| s.to_string())
        .collect();
    let long = |c: &str, at: usize| (0..300).map(|i| if i == at { c.to_string() } else { "xー".to_string() }).collect::<String>();
    v.extend([long("Ａ", 0), long("Ａ", 150), long("Ａ", 299), long("b", 150)]);
    v
}

fn rr() -> Vec<Part> {
    vec![Part::Preset, Part::Neologdn, Part::Table(pr(&[("a", "あ"), ("b", "ー")]))]
}

pub fn run(ctx: &Ctx) {
    let sp = specs();
    let tx = texts();
    let b = Baseline::new();
    // Known before any stage uses the library in this process; in children only.
    let mut calls: Vec<Op2> = Vec::new();
    for s in &sp {
        for t in &tx {
            for p in [false, true] {
                calls.push(Op2(s.clone(), p, t.clone()));
            }
        }
    }
    ctx.explore_iso(
        "each call alone in a process of its own",
        calls.len() as u64,
        |i| json!({"prop": "C13", "kind": "around", "first": calls[i as usize], "all": [calls[i as usize]]}),
        |dir, i| alone(&calls[i as usize], dir),
        |_, i, r| {
            let o = &calls[i as usize];
            b.put(o, r);
            Ok(o.2 != r)
        },
    );
    // lifecycles
    let ls = [sp[0].clone(), sp[2].clone(), Spec(vec![Part::New]), Spec(vec![Part::Table(pr(&[("a", "ー"), ("ー", "b")]))])];
    let lt = ["aーbＡ", "ー~ー a", "bーーａ"];
    let mut lops: Vec<Op> = Vec::new();
    for slot in 0..2 {
        for s in &ls {
            lops.push(Op::Build(slot, s.clone()));
        }
        for p in rr() {
            lops.push(Op::Add(slot, p));
        }
        lops.push(Op::Drop(slot));
    }
    for (e, d) in [("csv", "a,b\n\"c"), ("yaml", "items: [1"), ("yaml", "modifiers:\n  ligature_translator:\n    ab: 1\n"), ("txt", "")] {
        lops.push(Op::BadLoad(e.into(), d.into()));
    }
    let depth = ctx.pick(3u32, 4);
    // every normalizer these histories can build
    {
        let mut reach: Vec<Spec> = ls.to_vec();
        let mut front = reach.clone();
        for _ in 0..depth {
            front = front.iter().flat_map(|s| rr().into_iter().map(|p| Spec([s.0.clone(), vec![p]].concat())).collect::<Vec<_>>()).collect();
            reach.extend(front.clone());
        }
        let all: Vec<Op2> = reach.iter().flat_map(|s| lt.iter().flat_map(|t| [false, true].map(|p| Op2(s.clone(), p, t.to_string()))).collect::<Vec<_>>()).collect();
        ctx.explore_iso(
            "every normalizer of the lifecycle histories, alone in a process",
            all.len() as u64,
            |i| json!({"prop": "C13", "kind": "around", "first": all[i as usize], "all": [all[i as usize]]}),
            |dir, i| alone(&all[i as usize], dir),
            |_, i, r| {
                b.put(&all[i as usize], r);
                Ok(all[i as usize].2 != r)
            },
        );
    }
    if ctx.failed() {
        return;
    }
    let base = b.copy();
    let base = &base;

    ctx.explore_iso(
        &format!("every call first in its process, then every one of {} calls, the first again after each", calls.len()),
        calls.len() as u64,
        |i| json!({"prop": "C13", "kind": "around", "first": calls[i as usize], "all": calls}),
        |dir, i| history_here(base, &around_ops(&calls[i as usize], &calls), dir),
        |w, _, _| {
            w.extra += 2 * calls.len() as u64;
            Ok(true)
        },
    );
    // short histories over two normalizers and a few texts, each in a process of its own
    let mut duo: Vec<(Spec, Vec<usize>)> = vec![
        (sp[0].clone(), vec![0, 1, 13, 16, 20, 9]),
        (sp[2].clone(), vec![1, 9, 10, 21, 22, 0]),
        (sp[4].clone(), vec![13, 14, 17, 18, 23, 1]),
        (sp[6].clone(), vec![1, 2, 8, 9, 16, 0]),
        (sp[5].clone(), vec![5, 15, 7, 24, 0, 1]),
    ];
    if !ctx.thorough {
        duo.truncate(4);
    }
    for d in 2..=ctx.pick(3u32, 4) {
        let k = 2 * 6 * 2u64;
        let n = k.pow(d);
        let mk = |id: usize, i: u64| -> Vec<Op> {
            let (s, ts) = &duo[id];
            let mut ops = vec![Op::Build(0, s.clone()), Op::Build(1, s.clone())];
            for x in mixed(i, &vec![k; d as usize]) {
                let m = mixed(x, &[2, 2, 6]);
                ops.push(Op::Call(m[0] as usize, m[1] == 1, tx[ts[m[2] as usize]].clone()));
            }
            ops
        };
        // by symmetry the first call goes to the first normalizer
        let n = n / 2;
        let nd = if d == 4 || (d == 3 && !ctx.thorough) { 2 } else { duo.len() } as u64;
        ctx.explore_iso(
            &format!("all histories of {d} calls on two normalizers of one configuration, {nd} configurations"),
            n * nd,
            |i| json!({"prop": "C13", "kind": "history", "ops": mk((i / n) as usize, i % n)}),
            |dir, i| history_here(base, &mk((i / n) as usize, i % n), dir),
            |_, _, r| Ok(r != "1"),
        );
    }
    // lifecycle histories
    for d in 1..=depth {
        let k = lops.len() as u64;
        let n = k.pow(d);
        let mk = |i: u64| -> Vec<Op> {
            let mut ops = vec![Op::Build(0, ls[0].clone()), Op::Build(1, ls[3].clone())];
            for x in mixed(i, &vec![k; d as usize]) {
                ops.push(lops[x as usize].clone());
                for s in 0..2 {
                    ops.push(Op::Call(s, x % 2 == 0, lt[(x % 3) as usize].to_string()));
                }
            }
            for s in 0..2 {
                for t in lt {
                    ops.push(Op::Call(s, s == 0, t.to_string()));
                }
            }
            ops
        };
        ctx.explore_iso(
            &format!("all histories of {d} builds, additions, drops and failing loads on two normalizers"),
            n,
            |i| json!({"prop": "C13", "kind": "history", "ops": mk(i)}),
            |dir, i| history_here(base, &mk(i), dir),
            |_, _, r| Ok(r != "1"),
        );
    }
    // twins: configurations of one shape with different contents, in one slot and in one file
    let y = |steps: Vec<Step>, items: Pairs| Spec(vec![Part::Yaml { steps, items }]);
    let twins: Vec<[Spec; 2]> = vec![
        [("a", "b"), ("b", "a")].map(|x| Spec(vec![Part::Table(pr(&[x]))])),
        [[("a", "ー"), ("b", "ー")], [("a", "ー"), ("ー", "b")]].map(|x| Spec(vec![Part::Csv(pr(&x))])),
        [[("a", "b")], [("b", "a")]].map(|x| y(vec![], pr(&x))),
        ['a', 'b'].map(|c| y(vec![Step::Reduce(c)], vec![])),
        ['a', 'b'].map(|c| y(vec![Step::Elim(vec![c])], vec![])),
        [('a', 'b'), ('b', 'a')].map(|c| y(vec![Step::Conv(vec![c])], vec![])),
        [("aa", "b"), ("bb", "a")].map(|c| y(vec![Step::Lig(pr(&[c]))], vec![])),
        [Step::Trim, Step::Dotted].map(|c| y(vec![c], vec![])),
        [Step::Neologdn, Step::Reduce('b')].map(|c| y(vec![c], vec![])),
        [Part::Preset, Part::Neologdn].map(|p| Spec(vec![p])),
    ];
    let tt = [" aabb  ーー", " bbaa  ーーｶﾞ"];
    let tcalls: Vec<Op2> = twins.iter().flatten().flat_map(|s| tt.iter().flat_map(move |t| [false, true].map(|p| Op2(s.clone(), p, t.to_string())))).collect();
    let tb = Baseline::new();
    ctx.explore_iso(
        "every normalizer of the twin histories, alone in a process",
        tcalls.len() as u64,
        |i| json!({"prop": "C13", "kind": "around", "first": tcalls[i as usize], "all": [tcalls[i as usize]]}),
        |dir, i| alone(&tcalls[i as usize], dir),
        |_, i, r| {
            tb.put(&tcalls[i as usize], r);
            Ok(tcalls[i as usize].2 != r)
        },
    );
    let tbase = tb.copy();
    let tbase = &tbase;
    for (texts, d) in [(2u64, ctx.pick(4u32, 5)), (1, ctx.pick(5, 7))] {
        let k = 2 + 2 * texts;
        let n = k.pow(d);
        let mk = |i: u64| -> Vec<Op> {
            let tw = &twins[(i / n) as usize];
            let mut ops = vec![Op::Build(0, tw[0].clone())];
            for x in mixed(i % n, &vec![k; d as usize]) {
                if x < 2 {
                    ops.push(Op::Drop(0));
                    ops.push(Op::Build(0, tw[x as usize].clone()));
                } else {
                    ops.push(Op::Call(0, x % 2 == 1, tt[(x as usize - 2) / 2].to_string()));
                }
            }
            for t in &tt[..texts as usize] {
                ops.push(Op::Call(0, d % 2 == 1, t.to_string()));
                ops.push(Op::Call(0, d % 2 == 0, t.to_string()));
            }
            ops
        };
        ctx.explore_iso(
            &format!("all histories of {d} replacements and calls on {texts} texts, for {} pairs of similar configurations in one file", twins.len()),
            n * twins.len() as u64,
            |i| json!({"prop": "C13", "kind": "history", "ops": mk(i)}),
            |dir, i| history_here(tbase, &mk(i), dir),
            |_, _, r| Ok(r != "1"),
        );
    }
    // texts that are easily taken for one another
    let fams = families();
    let fcalls: Vec<Vec<Op2>> = sp.iter().flat_map(|s| fams.iter().map(|f| f.iter().flat_map(|t| [false, true].map(|p| Op2(s.clone(), p, t.clone()))).collect())).collect();
    let fall: Vec<(usize, &Op2)> = fcalls.iter().enumerate().flat_map(|(k, f)| f.iter().map(move |o| (k, o))).collect();
    let fb = Baseline::new();
    ctx.explore_iso(
        "every call on related texts, alone in a process",
        fall.len() as u64,
        |i| json!({"prop": "C13", "kind": "around", "first": fall[i as usize].1, "all": [fall[i as usize].1]}),
        |dir, i| alone(fall[i as usize].1, dir),
        |_, i, r| {
            fb.put(fall[i as usize].1, r);
            Ok(fall[i as usize].1.2 != r)
        },
    );
    let fbase = fb.copy();
    let fbase = &fbase;
    ctx.explore_iso(
        "related texts: every call first in its process, then every one on a related text, the first again after each",
        fall.len() as u64,
        |i| json!({"prop": "C13", "kind": "around", "first": fall[i as usize].1, "all": fcalls[fall[i as usize].0]}),
        |dir, i| history_here(fbase, &around_ops(fall[i as usize].1, &fcalls[fall[i as usize].0]), dir),
        |w, i, _| {
            w.extra += 2 * fcalls[fall[i as usize].0].len() as u64;
            Ok(true)
        },
    );
    // texts of very different sizes after one another
    let sizes: Vec<usize> = ctx.pick(vec![33, 257, 1025, 4097, 65_537, 131_073], vec![9, 17, 33, 65, 129, 257, 513, 1025, 2049, 4097, 8193, 16_385, 65_537, 300_000, 1_048_577]);
    let sized = |n: usize, k: usize| -> String { ["aーb ＡＢ~ か゛", "漢a字あ", "\u{3000}ｱﾞｰa  b", "b"][k % 4].chars().cycle().take(n).collect() };
    let small = ["b aーー", "あ", ""];
    let pick = [0usize, 1, 2, 3, 4, 5, 6, 9];
    let calls_of = |s: &Spec| -> Vec<Op2> {
        let mut v: Vec<String> = small.iter().map(|t| t.to_string()).collect();
        for n in &sizes {
            v.extend((0..4).map(|k| sized(*n, k)));
        }
        v.into_iter().flat_map(|t| [false, true].map(|p| Op2(s.clone(), p, t.clone()))).collect()
    };
    let zcalls: Vec<Op2> = pick.iter().flat_map(|k| calls_of(&sp[*k])).collect();
    let zb = Baseline::new();
    ctx.explore_iso(
        "every call of the size histories, alone in a process",
        zcalls.len() as u64,
        |i| json!({"prop": "C13", "kind": "around", "first": zcalls[i as usize], "all": [zcalls[i as usize]]}),
        |dir, i| alone(&zcalls[i as usize], dir),
        |_, i, r| {
            zb.put(&zcalls[i as usize], r);
            Ok(zcalls[i as usize].2 != r)
        },
    );
    let zbase = zb.copy();
    let zbase = &zbase;
    let r = [sizes.len() as u64, pick.len() as u64, pick.len() as u64, 4, 4];
    let mk = |i: u64| {
        let m = mixed(i, &r);
        let (n, k) = (sizes[m[0] as usize], m[3] as usize);
        let (a, b) = (sp[pick[m[1] as usize]].clone(), sp[pick[m[2] as usize]].clone());
        let (p, q) = (m[4] & 1 == 1, m[4] & 2 == 2);
        let mut ops = vec![Op::Build(0, a), Op::Build(1, b), Op::Call(0, p, small[0].into()), Op::Call(0, p, sized(n, k))];
        for s in [0, 1, 1, 0] {
            ops.push(Op::Call(s, q, small[k % 3].into()));
        }
        ops.push(Op::Call(1, p, sized(n, k + 1)));
        ops.push(Op::Call(0, q, sized(n, k)));
        ops.push(Op::Call(1, q, small[(k + 1) % 3].into()));
        if m[0] > 0 {
            ops.push(Op::Call(0, p, sized(sizes[m[0] as usize - 1], k + 2)));
        }
        ops.push(Op::Call(0, q, small[0].into()));
        ops
    };
    ctx.explore_iso(
        &format!("short and long texts in turn: {} sizes, every pair of {} configurations, 4 texts, 4 combinations of interfaces", sizes.len(), pick.len()),
        r.iter().product(),
        |i| json!({"prop": "C13", "kind": "history", "ops": mk(i)}),
        |dir, i| history_here(zbase, &mk(i), dir),
        |_, _, r| Ok(r != "1"),
    );
    // long histories
    let lens: Vec<usize> = ctx.pick(vec![10, 100, 255, 256, 257, 1000, 1024, 4096, 10_000], vec![10, 64, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10_000, 65_536, 200_000]);
    let mk = |i: u64| {
        let m = mixed(i, &[lens.len() as u64, sp.len() as u64]);
        let s = &sp[m[1] as usize];
        let mut ops = vec![Op::Build(0, s.clone())];
        let all = |ops: &mut Vec<Op>, slot: usize| {
            for t in &tx {
                ops.push(Op::Call(slot, false, t.clone()));
                ops.push(Op::Call(slot, true, t.clone()));
            }
        };
        all(&mut ops, 0);
        ops.push(Op::Many(0, if m[1] < 2 || m[1] > 7 { lens[m[0] as usize].min(20_000) } else { lens[m[0] as usize] }));
        all(&mut ops, 0);
        ops.push(Op::Build(1, s.clone()));
        all(&mut ops, 1);
        ops
    };
    ctx.explore_iso(
        "all texts before and after n other calls",
        (lens.len() * sp.len()) as u64,
        |i| json!({"prop": "C13", "kind": "history", "ops": mk(i)}),
        |dir, i| history_here(base, &mk(i), dir),
            |_, _, r| Ok(r != "1"),
    );
    // many other normalizers, one after the other or at the same time
    let lens: Vec<usize> = ctx.pick(vec![1, 16, 64, 255, 256, 257, 1000, 2000], vec![1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10_000, 65_536]);
    let r = [lens.len() as u64, sp.len() as u64, 3, 2];
    let mk = |i: u64| {
        let m = mixed(i, &r);
        let s = &sp[m[1] as usize];
        let n = lens[m[0] as usize];
        let all = |ops: &mut Vec<Op>, slot: usize| {
            for t in &tx {
                ops.push(Op::Call(slot, false, t.clone()));
                ops.push(Op::Call(slot, true, t.clone()));
            }
        };
        let mut ops = vec![Op::Build(0, s.clone())];
        all(&mut ops, 0);
        ops.push(Op::Churn(n, m[2] as usize, m[3] == 1 && n < 5000));
        all(&mut ops, 0);
        ops.push(Op::Build(1, s.clone()));
        all(&mut ops, 1);
        all(&mut ops, 0);
        ops
    };
    ctx.explore_iso(
        "all texts before and after n other normalizers were built and used, dropped at once or kept",
        r.iter().product(),
        |i| json!({"prop": "C13", "kind": "history", "ops": mk(i)}),
        |dir, i| history_here(base, &mk(i), dir),
        |_, _, r| Ok(r != "1"),
    );
    // many threads
    let ns: Vec<usize> = ctx.pick(vec![2, 8, 16, 17, 33, 64, 65, 128, 129, 256, 257, 600, 1025], vec![2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 258, 511, 512, 513, 600, 1023, 1024, 1025, 2049, 4097]);
    let r = [ns.len() as u64, 2, ctx.pick(4, sp.len() as u64)];
    let mk = |i: u64| {
        let m = mixed(i, &r);
        // the normalizers of neighbouring threads are those of a rotation, or all the same
        let mut v = sp.clone();
        v.rotate_left(m[2] as usize);
        if m[2] % 2 == 1 {
            v.truncate(1);
        }
        (ns[m[0] as usize], m[1] == 1, v)
    };
    ctx.explore_iso(
        &format!("n threads, up to {}, one after another or all at the same time in turns, each with a normalizer of its own and all texts", ns.last().unwrap()),
        r.iter().product(),
        |i| {
            let (n, alive, v) = mk(i);
            json!({"prop": "C13", "kind": "crowd", "specs": v, "texts": tx, "n": n, "alive": alive})
        },
        |dir, i| {
            let (n, alive, v) = mk(i);
            crowd(base, &v, &tx, n, alive, dir)
        },
        |_, _, _| Ok(true),
    );
    // places
    let few = [1usize, 9, 14, 16, 20, 22, 30];
    let k = few.len() as u64;
    let r = [PLACES.len() as u64, sp.len() as u64, ctx.pick(4, sp.len() as u64), 2, 2, k, ctx.pick(1, k)];
    let mk = |i: u64| {
        let m = mixed(i, &r);
        let (a, c) = (few[m[5] as usize], few[(m[5] as usize * 3 + m[6] as usize + 4) % few.len()]);
        // the second normalizer is first one of the same configuration
        let other = [0, 3, 9, 4, 1, 2, 5, 6, 7, 8][m[2] as usize] + m[1] as usize;
        (m[0] as usize, Op2(sp[m[1] as usize].clone(), m[3] == 1, tx[a].clone()), Op2(sp[other % sp.len()].clone(), m[4] == 1, tx[c].clone()))
    };
    ctx.explore_iso(
        "every two calls, the second made by a logger in the middle of the first, while unwinding or as a thread ends",
        r.iter().product(),
        |i| {
            let (p, a, b) = mk(i);
            json!({"prop": "C13", "kind": "place", "place": p, "where": PLACES[p], "calls": [a, b]})
        },
        |dir, i| {
            let (p, a, b) = mk(i);
            if [0, 1, 5].contains(&p) {
                crate::p_route::install_logger();
            }
            placed(base, p, &a, &b, dir)
        },
        |_, _, r| Ok(r != "0"),
    );
    // hash seeds
    let seeds = ctx.pick(48u64, 1500);
    let mut orders = std::collections::HashSet::new();
    let get = |i: u64| (&sp[(i % sp.len() as u64) as usize], ctx.seed.wrapping_mul(7919).wrapping_add(i / sp.len() as u64 * 104729 + 1));
    ctx.explore_iso(
        &format!("{} normalizers x {seeds} hash seeds, each in a new thread of a new process", sp.len()),
        sp.len() as u64 * seeds,
        |i| json!({"prop": "C13", "kind": "seed", "spec": get(i).0, "texts": tx, "seed": get(i).1}),
        |dir, i| {
            let (s, seed) = get(i);
            seeded(base, s, &tx, seed, dir)
        },
        |_, _, _| Ok(true),
    );
    for i in 0..seeds {
        HASH_SEED.store(get(i * sp.len() as u64).1, Relaxed);
        let o: String = std::thread::spawn(|| ["ab", "bb", "a", "ーb"].iter().collect::<std::collections::HashSet<_>>().into_iter().map(|s| s.to_string()).collect::<Vec<_>>().join(" ")).join().unwrap();
        orders.insert(o);
    }
    ctx.count("hash_orders_of_4_keys_seen", orders.len() as u64);
    // environments
    let envs = [
        json!({"set": {"LANG": "C", "LC_ALL": "POSIX", "TZ": "Asia/Tokyo"}, "cwd": "/"}),
        json!({"set": {"LANG": "ja_JP.eucJP", "RUST_LOG": "trace", "RUST_BACKTRACE": "1"}, "cwd": "scratch"}),
        json!({"set": {"HOME": "/nonexistent", "CHANOMARC": "/nonexistent.yaml", "DEBUG": "1", "MC_HASH_SEED": "77"}, "cwd": "scratch"}),
        json!({"set": {"PATH": "", "USER": "nobody", "MC_HASH_SEED": "99991"}, "cwd": "/dev/shm"}),
    ];
    ctx.explore(
        "all calls in new processes under other environments and working directories",
        envs.len() as u64,
        |i| json!({"prop": "C13", "kind": "env", "env": envs[i as usize], "calls": calls}),
        |w, i| in_env(base, &calls, &envs[i as usize], &w.dir),
    );
    // threads, calls as atomic steps
    let tops = |v: usize| -> Vec<Op> {
        // operations of one thread; every thread starts by building
        match v {
            0 => vec![Op::Call(0, false, tx[20].clone()), Op::Call(0, true, tx[9].clone()), Op::Call(0, false, tx[1].clone())],
            _ => vec![Op::Call(0, true, tx[20].clone()), Op::Call(0, false, tx[10].clone()), Op::Build(0, sp[2].clone()), Op::Call(0, false, tx[0].clone())],
        }
    };
    let per = ctx.pick(2u64, 3);
    let starts = [sp[0].clone(), sp[2].clone(), sp[6].clone()];
    let nthreads = 3usize;
    // interleavings of (per+1) steps per thread
    let steps = per as usize + 1;
    let perms = interleavings(nthreads - 1, steps);
    let perms3 = interleavings(nthreads, 2);
    let c2 = (3u64 * 4u64.pow(per as u32)).pow(2);
    let seq = |x: u64| -> Vec<Op> {
        let mut rad = vec![3];
        rad.extend(vec![4; per as usize]);
        let m = mixed(x, &rad);
        let t = tops(1).into_iter().chain(tops(0)).collect::<Vec<_>>();
        let mut v = vec![Op::Build(0, starts[m[0] as usize].clone())];
        for k in &m[1..] {
            v.push(t[*k as usize].clone());
        }
        v
    };
    let stride = ctx.pick(3u64, 7);
    let half = 3 * 4u64.pow(per as u32);
    let mk = |i: u64| {
        let m = mixed(i, &[c2.div_ceil(stride), perms.len() as u64]);
        let x = mixed(m[0] * stride, &[half, half]);
        (vec![seq(x[0]), seq(x[1])], perms[m[1] as usize].clone())
    };
    ctx.explore_iso(
        &format!("2 threads, {steps} operations each, all {} interleavings", perms.len()),
        c2.div_ceil(stride) * perms.len() as u64,
        |i| {
            let (s, t) = mk(i);
            json!({"prop": "C13", "kind": "threads", "threads": s, "turns": t})
        },
        |dir, i| {
            let (s, t) = mk(i);
            threaded_here(base, &s, &t, dir)
        },
        |_, _, _| Ok(true),
    );
    let s3 = ctx.pick(4u64, 6);
    let mk = |i: u64| {
        let m = mixed(i, &[s3, s3, s3, perms3.len() as u64]);
        let one = |x: u64| {
            let y = mixed(x, &[3, 2]);
            vec![Op::Build(0, starts[y[0] as usize].clone()), Op::Call(0, y[1] == 1, tx[20].clone())]
        };
        (vec![one(m[0]), one(m[1]), one(m[2])], perms3[m[3] as usize].clone())
    };
    ctx.explore_iso(
        &format!("3 threads, 2 operations each, all {} interleavings", perms3.len()),
        s3.pow(3) * perms3.len() as u64,
        |i| {
            let (s, t) = mk(i);
            json!({"prop": "C13", "kind": "threads", "threads": s, "turns": t})
        },
        |dir, i| {
            let (s, t) = mk(i);
            threaded_here(base, &s, &t, dir)
        },
        |_, _, _| Ok(true),
    );
    preempt_stage(ctx, base, &sp, &tx);
    ctx.assume("normalizers are not shared between threads (the type does not allow it); each thread builds its own");
    ctx.assume("hash-map seeds reach the standard library through getrandom, which the checker answers");
}

fn preempt_stage(ctx: &Ctx, base: &HashMap<String, String>, sp: &[Spec], tx: &[String]) {
    let op = |s: usize, p: bool, t: usize| Op2(sp[s].clone(), p, tx[t].clone());
    let mut scs: Vec<Scenario> = Vec::new();
    for (s, ta, tb) in [(7, 9, 1), (3, 9, 10), (4, 14, 17), (6, 9, 10), (2, 9, 10), (5, 15, 9), (0, 20, 1), (1, 5, 1)] {
        for p in [false, true] {
            scs.push(Scenario { a: op(s, p, ta), build_a: false, b: op(s, p, tb) });
            if ctx.thorough {
                scs.push(Scenario { a: op(s, p, ta), build_a: false, b: op(s, !p, ta) });
                scs.push(Scenario { a: op(s, p, tb), build_a: false, b: op(0, p, ta) });
            }
        }
    }
    scs.push(Scenario { a: op(3, false, 9), build_a: true, b: op(3, false, 10) });
    if ctx.thorough {
        scs.push(Scenario { a: op(2, false, 9), build_a: true, b: op(4, false, 14) });
        scs.push(Scenario { a: op(1, false, 9), build_a: true, b: op(1, false, 5) });
    }
    let cut = ctx.pick(Cut::Calls, Cut::Every);
    let shards = ctx.pick(8u64, 64);
    let stats: Mutex<Vec<sched::Stats>> = Mutex::new(Vec::new());
    let cut_name = ctx.pick("before every call, return, atomic and static-data instruction of the library", "before every instruction of the library");
    let note = |w: &mut W, r: &str| -> Result<bool, String> {
        let s: sched::Stats = serde_json::from_str(r).map_err(|e| format!("{e}: {r}"))?;
        w.extra += s.schedules;
        let any = s.schedules > 0;
        stats.lock().unwrap().push(s);
        Ok(any)
    };
    ctx.explore_iso(
        &format!("{} pairs of calls, one preempted once by the other: {cut_name}", scs.len()),
        scs.len() as u64 * shards,
        |i| json!({"prop": "C13", "kind": "preempt", "scenario": scs[(i / shards) as usize], "cut": cut, "twice": false}),
        |dir, i| preempted(base, &scs[(i / shards) as usize], cut, false, (i % shards, shards), dir),
        |w, _, r| note(w, r),
    );
    // many pairs; only atomic instructions and static data can carry anything from one thread to the other
    let ta = ["a  b", "ーーー", "ー~ー", "bbab", "ｱﾞ", "あ あ", "ハ゜", "Ａ　Ａ"];
    let tb = ["a ", "ー", "ab", "a  b", "ハ゜", "Ａ　Ａ"];
    let mut many: Vec<Scenario> = Vec::new();
    for (pa, pb) in [(false, false), (true, true), (false, true), (true, false)].into_iter().take(ctx.pick(2, 4)) {
        for (s, big) in [0usize, 8, 9, 1, 2, 3, 4, 5, 6, 7].into_iter().map(|s| (s, [0, 8, 9].contains(&s) || s == 1 && (pa || pb))) {
            for (i, x) in ta.iter().enumerate() {
                for (j, y) in tb.iter().enumerate() {
                    // the large ones take many instructions
                    if ctx.thorough || !big || (!pa && s == 0 && i == j) {
                        many.push(Scenario { a: Op2(sp[s].clone(), pa, x.to_string()), build_a: false, b: Op2(sp[s].clone(), pb, y.to_string()) });
                    }
                }
            }
        }
    }
    ctx.explore_iso(
        &format!("{} pairs of calls, one preempted by the other, which may be preempted back: before every atomic and static-data instruction of both", many.len()),
        many.len() as u64,
        |i| json!({"prop": "C13", "kind": "preempt", "scenario": many[i as usize], "cut": Cut::Shared, "twice": true}),
        |dir, i| preempted(base, &many[i as usize], Cut::Shared, true, (0, 1), dir),
        |w, _, r| note(w, r),
    );
    let st = stats.into_inner().unwrap();
    ctx.count("preemption_schedules", st.iter().map(|s| s.schedules).sum());
    ctx.count("preemption_schedules_blocked_on_a_lock", st.iter().map(|s| s.blocked).sum());
    let left: u64 = st.iter().map(|s| s.left_out).sum();
    ctx.count("preemption_schedules_left_out", left);
    if left > 0 {
        ctx.exhaustive.store(false, Relaxed);
    }
    ctx.count("preemption_longest_call_instructions", st.iter().map(|s| s.instructions).max().unwrap_or(0));
    ctx.count("preemption_most_points_in_a_call", st.iter().map(|s| s.points).max().unwrap_or(0));
}

/// All orders in which `n` threads take `k` turns each.
fn interleavings(n: usize, k: usize) -> Vec<Vec<usize>> {
    fn go(left: &mut Vec<usize>, cur: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        if left.iter().all(|l| *l == 0) {
            out.push(cur.clone());
            return;
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                cur.push(t);
                go(left, cur, out);
                cur.pop();
                left[t] += 1;
            }
        }
    }
    let mut out = Vec::new();
    go(&mut vec![k; n], &mut Vec::new(), &mut out);
    out
}
