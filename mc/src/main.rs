//! mc: bounded-exhaustive checking of booink/chanoma.
//!
//!   mc check ID       supervise one check (VERIF_TIER, VERIF_SEED), write evidence, report
//!   mc run ID         the exploration itself (internal, started by check)
//!   mc replay FILE    judge one recorded case against the current tree

mod core;
mod fault;
mod model;
mod oracle;
mod p_env;
mod p_fault;
mod p_file;
mod named;
mod p_hist;
mod p_py;
mod p_route;
mod p_set;
mod p_table;
mod p_text;
mod sched;
mod rel;
mod spec;

use crate::core::*;
use serde_json::{json, Value};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::Ordering::*;
use std::time::{Duration, Instant};

/// The standard library seeds its hash maps from this call; answering it here makes map iteration
/// order a function of the seed the harness chose (and of how many maps the thread made before).
pub static HASH_SEED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0x1234_5678);

/// # Safety
/// Called by the standard library with a valid buffer.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    let mut x = HASH_SEED.load(Relaxed);
    for i in 0..len {
        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        *buf.add(i) = (x >> 33) as u8;
    }
    len as isize
}

pub const HANG_S: u64 = 45;

fn run_prop(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C01" | "C02" | "C03" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" => p_text::run(ctx),
        "C04" | "C05" | "C06" => p_route::run(ctx),
        "C13" => p_hist::run(ctx),
        "C14" | "C15" | "C16" => p_table::run(ctx),
        "C17" | "C18" | "C20" => p_file::run(ctx),
        "C19" | "C22" => p_env::run(ctx),
        "C21" => p_set::run(ctx),
        "C23" => p_py::run(ctx),
        "C24" => p_fault::run(ctx),
        p => panic!("unknown property {p}"),
    }
}

pub fn judge_case(case: &Value, dir: &Path) -> Result<(), String> {
    let prop = case["prop"].as_str().unwrap_or("");
    if case["kind"] == "fault" {
        return guard(|| p_fault::judge(case, dir)).unwrap_or_else(Err);
    }
    guard(|| match prop {
        "C01" | "C02" | "C03" | "C07" | "C08" | "C09" | "C10" | "C11" | "C12" => p_text::judge(case, dir),
        "C04" | "C05" | "C06" => p_route::judge(case, dir),
        "C13" => p_hist::judge(case, dir),
        "C14" | "C15" | "C16" => p_table::judge(case, dir),
        "C17" | "C18" | "C20" => p_file::judge(case, dir),
        "C19" | "C22" => p_env::judge(case, dir),
        "C21" => p_set::judge(case, dir),
        "C23" => p_py::judge(case, dir),
        p => panic!("unknown property {p}"),
    })
    .unwrap_or_else(Err)
}

fn scratch_base() -> PathBuf {
    let shm = Path::new("/dev/shm");
    if std::fs::write(shm.join(format!(".mc-probe-{}", std::process::id())), b"x").is_ok() {
        let _ = std::fs::remove_file(shm.join(format!(".mc-probe-{}", std::process::id())));
        shm.to_path_buf()
    } else {
        std::env::temp_dir()
    }
}

pub fn verif_dir() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn new_scratch(tag: &str) -> Scratch {
    let d = scratch_base().join(format!("mc-{tag}-{}", std::process::id()));
    std::fs::create_dir_all(&d).expect("scratch");
    Scratch(d.canonicalize().unwrap())
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    match a[1..] {
        ["check", id] => std::process::exit(check(id)),
        ["run", id] => {
            quiet_panics();
            let ctx = Ctx::new(id);
            run_prop(&ctx);
            if std::env::var("MC_PINPOINT").is_ok() {
                return;
            }
            let out = std::env::var("MC_OUT").unwrap();
            std::fs::write(out, ctx.finish().to_string()).unwrap();
        }
        ["calls", file] => {
            quiet_panics();
            if let Some(s) = std::env::var("MC_HASH_SEED").ok().and_then(|s| s.parse().ok()) {
                HASH_SEED.store(s, Relaxed);
            }
            p_hist::calls_main(file);
        }
        ["replay", file] => {
            let code = {
                let s = new_scratch("replay");
                quiet_panics();
                let v: Value = serde_json::from_str(&std::fs::read_to_string(file).expect("replay file")).expect("json");
                let r = judge_case(&v["case"], &s.0);
                match r {
                    Ok(()) => {
                        println!("holds: {}", v["case"]);
                        0
                    }
                    Err(m) => {
                        println!("violated: {m}");
                        1
                    }
                }
            };
            std::process::exit(code);
        }
        _ => {
            eprintln!("usage: mc check ID | mc replay FILE");
            std::process::exit(2);
        }
    }
}

enum End {
    Done(std::process::ExitStatus),
    Hang(u64, u64),
}

fn wait_watched(child: &mut std::process::Child, slots: &[Slot]) -> End {
    let mut last: Vec<(u64, Instant)> = slots.iter().map(|s| (s.seq.load(Relaxed), Instant::now())).collect();
    loop {
        if let Some(st) = child.try_wait().expect("wait") {
            return End::Done(st);
        }
        for (s, l) in slots.iter().zip(last.iter_mut()) {
            let q = s.seq.load(Acquire);
            if q != l.0 {
                *l = (q, Instant::now());
            } else if q % 2 == 1 && l.1.elapsed() > Duration::from_secs(HANG_S) {
                let r = End::Hang(s.stage.load(Relaxed), s.idx.load(Relaxed));
                let _ = child.kill();
                let _ = child.wait();
                return r;
            }
        }
        std::thread::sleep(Duration::from_millis(20));
    }
}

fn check(id: &str) -> i32 {
    let t0 = Instant::now();
    let verif = verif_dir();
    let tier = if std::env::var("VERIF_TIER").as_deref() == Ok("thorough") { "thorough" } else { "quick" };
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let scratch = new_scratch(id);
    let slots_path = scratch.0.join("slots");
    let slots = map_slots(slots_path.to_str().unwrap());
    let out = scratch.0.join("out.json");
    let exe = std::env::current_exe().unwrap();
    let known = verif.join("known_findings.json");
    let cmd = |pin: Option<String>| {
        let mut c = Command::new(&exe);
        c.args(["run", id])
            .env("VERIF_TIER", tier)
            .env("VERIF_SEED", seed.to_string())
            .env("MC_SCRATCH", &scratch.0)
            .env("MC_SLOTS", &slots_path)
            .env("MC_OUT", &out)
            .env("MC_KNOWN", &known)
            .env_remove("CHANOMARC")
            .stdin(Stdio::null());
        match pin {
            Some(p) => c.env("MC_PINPOINT", p),
            None => c.env_remove("MC_PINPOINT"),
        };
        c
    };
    let mut child = cmd(None).spawn().expect("spawn");
    let end = wait_watched(&mut child, slots);
    let replays = verif.join("replays");
    let _ = std::fs::create_dir_all(&replays);
    let evidence = verif.join("evidence");
    let _ = std::fs::create_dir_all(&evidence);
    let pinpoint = |stage: u64, idx: u64| -> Option<Value> {
        let o = cmd(Some(format!("{stage}:{idx}"))).stdout(Stdio::piped()).output().ok()?;
        serde_json::from_slice(&o.stdout).ok()
    };
    let replay_file = |case: &Value, msg: &str| -> (PathBuf, String) {
        let p = replays.join(format!("{id}.json"));
        let v = json!({"property": id, "case": case, "message": msg});
        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        // Judge it again in a fresh process.
        let mut c = Command::new(&exe).arg("replay").arg(&p).stdout(Stdio::null()).spawn().expect("spawn");
        let t = Instant::now();
        let verdict = loop {
            if let Some(st) = c.try_wait().unwrap() {
                break match st.code() {
                    Some(0) => "holds".to_string(),
                    Some(1) => "violated".to_string(),
                    Some(c) => format!("exit {c}"),
                    None => format!("{st}"),
                };
            }
            if t.elapsed() > Duration::from_secs(HANG_S) {
                let _ = c.kill();
                let _ = c.wait();
                break "hang".to_string();
            }
            std::thread::sleep(Duration::from_millis(10));
        };
        let v = json!({"property": id, "case": case, "message": msg, "judged_alone": verdict});
        std::fs::write(&p, serde_json::to_string_pretty(&v).unwrap()).unwrap();
        (p, verdict)
    };
    let mut result: Value = std::fs::read_to_string(&out)
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(Value::Null);
    let mut violation: Option<(PathBuf, String)> = None;
    match end {
        End::Hang(stage, idx) => {
            let Some(case) = pinpoint(stage, idx) else {
                eprintln!("check {id}: a case hung but could not be located");
                return 2;
            };
            let msg = format!("no result within {HANG_S} s");
            let (p, verdict) = replay_file(&case, &msg);
            if verdict == "holds" {
                eprintln!("check {id}: a case hung once and passed alone: {case}");
                return 2;
            }
            violation = Some((p, msg));
            result = json!({"coverage": {"evaluations": idx, "explanation": "stopped at a hanging case"}});
        }
        End::Done(st) if !st.success() || result.is_null() => {
            // The exploration died. A case that kills a fresh process as well is a violation.
            for s in slots {
                if s.seq.load(Relaxed) % 2 == 1 {
                    if let Some(case) = pinpoint(s.stage.load(Relaxed), s.idx.load(Relaxed)) {
                        let (p, verdict) = replay_file(&case, &format!("the process died: {st}"));
                        if verdict != "holds" {
                            violation = Some((p, format!("the process died: {st}")));
                            break;
                        }
                    }
                }
            }
            if violation.is_none() {
                eprintln!("check {id}: the exploration ended with {st}");
                return 2;
            }
            result = json!({"coverage": {"evaluations": 1, "explanation": "stopped at a case that ended the process"}});
        }
        End::Done(_) => {
            if !result["violation"].is_null() {
                let case = &result["violation"]["case"];
                let msg = result["violation"]["message"].as_str().unwrap_or("").to_string();
                let (p, _) = replay_file(case, &msg);
                violation = Some((p, msg));
            }
        }
    }
    let manifest: Value = std::fs::read_to_string(verif.join("MANIFEST.json"))
        .ok()
        .and_then(|s| serde_json::from_str(&s).ok())
        .unwrap_or(Value::Null);
    let level = manifest["checks"]
        .as_array()
        .and_then(|v| v.iter().find(|c| c["property"] == id))
        .and_then(|c| c["level"].as_str())
        .unwrap_or("exploration");
    let mut ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": level,
        "coverage": result["coverage"],
        "assumptions": if result["assumptions"].is_null() { json!([]) } else { result["assumptions"].clone() },
        "wall_s": t0.elapsed().as_millis() as f64 / 1000.0,
        "violations": if violation.is_some() { 1 } else { 0 },
    });
    ev["repo"] = json!(env!("CARGO_PKG_NAME"));
    ev.as_object_mut().unwrap().remove("repo");
    std::fs::write(evidence.join(format!("{id}.json")), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    for k in result["known"].as_array().cloned().unwrap_or_default() {
        println!("KNOWN-FINDING: property={id} {}", k.as_str().unwrap_or(""));
    }
    let cov = &result["coverage"];
    eprintln!(
        "{id} {tier}: {} executions, {:.1} s{}",
        cov["evaluations"],
        t0.elapsed().as_secs_f64(),
        cov["states"].as_u64().map(|s| format!(", {s} model states, {} transitions", cov["transitions"])).unwrap_or_default()
    );
    if let Some((p, msg)) = violation {
        println!("VIOLATION property={id} replay={}", p.display());
        println!("{msg}");
        return 1;
    }
    0
}
