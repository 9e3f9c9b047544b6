//! C23: the Python binding against the library, over histories of constructions and calls.
//! Every case runs in a Python process of its own and, for the expected answers, on the library
//! in a forked process with the same environment.

use crate::core::*;
use crate::spec::*;
use ::chanoma::characters_set::prelude::*;
use ::chanoma::corr::{Corr, Correspondence, Synthesized};
use ::chanoma::table::{Table, TableBuilder};
use ::chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::sync::Mutex;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum What {
    Corr(Pairs),
    Duck(Pairs),
    /// the items of a Correspondence, in another object
    Getter(Pairs),
    Set(usize),
    Bad(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Op {
    Table { slot: usize, preset: bool, csv: Option<usize>, yaml: Option<usize>, kw: bool },
    Add { slot: usize, what: What },
    Make { table: Option<usize>, neologdn: bool, preset: bool, rc: bool, configfile: Option<usize>, kw: bool },
    Swap,
    Drop(usize),
    Norm(Vec<String>),
    NormThread(Vec<String>),
    Surrogate,
    Count(usize),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Run {
    env: [usize; 3],
    ops: Vec<Op>,
}

const SETS: [&str; 5] = ["Alphabets", "Digits", "Punctuations", "Kanas", "CjkCompatibilities"];
const NBAD: usize = 13;

/// Paths given to the constructors.
const FILES: [&str; 21] = [
    "{f}/a.csv", "{f}/b.csv", "{f}/items.yaml", "{f}/steps.yaml", "{f}/neo.yml", "{f}/list.yaml", "rel.csv", "{f}/日本 語.csv",
    "{f}/empty.csv", "{f}/zero.csv", "{f}/zero.yaml", "{f}/bad.csv", "{f}/bad.yaml", "{f}/latin1.csv", "{f}/latin1.yaml",
    "{f}/missing.csv", "{f}/missing.yaml", "{f}/dir.csv", "{f}/plain.txt", "{f}/unknown.yaml", "",
];
const RC: [Option<&str>; 7] = [None, Some("{f}/b.csv"), Some("{f}/steps.yaml"), Some("{f}/bad.csv"), Some("{f}/missing.csv"), Some("./rel.csv"), Some("{f}/plain.txt")];
const HOMES: [&str; 3] = ["h0", "h1", "h2"];
const CWDS: [&str; 2] = ["c0", "c1"];

fn fixtures(root: &Path) {
    let f = root.join("f");
    let w = |p: &str, d: &[u8]| {
        let p = root.join(p);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, d).unwrap();
    };
    std::fs::create_dir_all(f.join("dir.csv")).unwrap();
    for d in HOMES.iter().chain(&CWDS) {
        std::fs::create_dir_all(root.join(d)).unwrap();
    }
    w("f/a.csv", "from,to\na,x\n１,一\n".as_bytes());
    w("f/b.csv", "from,to\na,b\nＡ,ａ\nｱ,あ\n".as_bytes());
    w("f/items.yaml", "items:\n  z: [b, ａ]\n  Ａ: [Ｂ]\n".as_bytes());
    w("f/steps.yaml", "modifiers:\n  trim:\n  consecutive_character_reducer: \"a\"\n  character_converter: {x: a}\nitems:\n  y: [a]\n".as_bytes());
    w("f/neo.yml", "modifiers:\n  neologdn:\n".as_bytes());
    w("f/list.yaml", "items:\n- from: a\n  to: ｱ\n- from: ー\n  to: '-'\n".as_bytes());
    w("c0/rel.csv", "from,to\na,c\n".as_bytes());
    w("c1/rel.csv", "from,to\na,d\nb,a\n".as_bytes());
    w("f/日本 語.csv", "from,to\na,日\n".as_bytes());
    w("f/empty.csv", b"from,to\n");
    w("f/zero.csv", b"");
    w("f/zero.yaml", b"");
    w("f/bad.csv", b"from,to\na\n");
    w("f/bad.yaml", b"items: [a\n");
    w("f/latin1.csv", b"from,to\na,\xe9\n");
    w("f/latin1.yaml", b"items:\n  \"\xe9\": [a]\n");
    w("f/plain.txt", b"from,to\na,b\n");
    w("f/unknown.yaml", b"modifiers:\n  no_such_modifier:\n");
    w("h1/.config/chanoma/chanomarc.csv", "from,to\na,h\nＡ,a\n".as_bytes());
    w("h1/.chanomarc.yml", "modifiers:\n  trim:\nitems:\n  i: [h]\n".as_bytes());
    w("h2/chanomarc.csv", b"from,to\na\n");
    w("c1/.chanomarc.yaml", "modifiers:\n  character_eliminator: [\"!\"]\nitems:\n  k: [i, b]\n".as_bytes());
}

fn path(root: &Path, s: &str) -> String {
    s.replace("{f}", root.join("f").to_str().unwrap())
}

impl Run {
    fn request(&self, root: &Path, here: bool) -> Value {
        let file = |f: &Option<usize>| f.map(|f| path(root, FILES[f]));
        let ops: Vec<Value> = self
            .ops
            .iter()
            .map(|o| match o {
                Op::Table { slot, preset, csv, yaml, kw } => json!(["table", slot, {"preset": preset, "csv": file(csv), "yaml": file(yaml)}, kw]),
                Op::Add { slot, what } => json!([
                    "add",
                    slot,
                    match what {
                        What::Corr(p) => json!(["corr", p]),
                        What::Duck(p) => json!(["duck", p]),
                        What::Getter(p) => json!(["tuple", p]),
                        What::Set(s) => json!(["set", SETS[*s]]),
                        What::Bad(b) => json!(["bad", b]),
                    }
                ]),
                Op::Make { table, neologdn, preset, rc, configfile, kw } => {
                    json!(["make", table, {"neologdn": neologdn, "preset": preset, "rc": rc, "configfile": file(configfile)}, kw])
                }
                Op::Swap => json!(["swap"]),
                Op::Drop(s) => json!(["drop", s]),
                Op::Norm(t) => json!(["norm", t]),
                Op::NormThread(t) => json!(["norm_thread", t]),
                Op::Surrogate => json!(["surrogate"]),
                Op::Count(s) => json!(["count", SETS[*s]]),
            })
            .collect();
        let mut r = json!({"ops": ops});
        if here {
            r["here"] = json!(true);
        } else {
            r["env"] = json!({"CHANOMARC": RC[self.env[0]].map(|p| path(root, p)), "HOME": root.join(HOMES[self.env[1]]).to_str().unwrap()});
            r["cwd"] = json!(root.join(CWDS[self.env[2]]).to_str().unwrap());
        }
        r
    }

    /// What the library does. Call in a process of its own unless `here`.
    fn expect(&self, root: &Path, here: bool) -> Vec<Value> {
        if !here {
            match RC[self.env[0]] {
                None => std::env::remove_var("CHANOMARC"),
                Some(p) => std::env::set_var("CHANOMARC", path(root, p)),
            }
            std::env::set_var("HOME", root.join(HOMES[self.env[1]]));
            std::env::set_current_dir(root.join(CWDS[self.env[2]])).unwrap();
        }
        let file = |f: usize| path(root, FILES[f]);
        let corr = |p: &Pairs| Correspondence::new(Synthesized::new(items_of(p)));
        let mut t = [Table::new(), Table::new()];
        let mut c: Vec<Chanoma> = vec![];
        let (ok, err) = (json!({"ok": null}), json!({"err": "OSError"}));
        self.ops
            .iter()
            .map(|o| match o {
                Op::Table { slot, preset, csv, yaml, .. } => {
                    let mut b = TableBuilder::new();
                    if *preset {
                        b.preset();
                    }
                    if let Some(f) = csv {
                        if b.add_from_csv(file(*f)).is_err() {
                            return err.clone();
                        }
                    }
                    if let Some(f) = yaml {
                        if b.add_from_yaml(file(*f)).is_err() {
                            return err.clone();
                        }
                    }
                    t[*slot] = b.build();
                    ok.clone()
                }
                Op::Add { slot, what } => {
                    let t = &mut t[*slot];
                    match what {
                        What::Corr(p) | What::Duck(p) | What::Getter(p) => t.add(&corr(p)),
                        What::Set(0) => t.add(&ALPHABETS),
                        What::Set(1) => t.add(&DIGITS),
                        What::Set(2) => t.add(&PUNCTUATIONS),
                        What::Set(3) => t.add(&KANAS),
                        What::Set(_) => t.add(&CJK_COMPATIBILITIES),
                        What::Bad(_) => return json!({"err": "any"}),
                    }
                    ok.clone()
                }
                Op::Make { table, neologdn, preset, rc, configfile, .. } => {
                    let base = if let Some(f) = configfile {
                        Chanoma::from_config_file(file(*f)).ok()
                    } else if *rc {
                        Chanoma::load_rc().ok()
                    } else {
                        Some(Chanoma::new())
                    };
                    let Some(mut n) = base else { return err.clone() };
                    if let Some(s) = table {
                        n.add_table(t[*s].clone());
                    }
                    if *preset {
                        n.use_preset();
                    }
                    if *neologdn {
                        n.use_neologdn();
                    }
                    c.push(n);
                    ok.clone()
                }
                Op::Swap => {
                    t.swap(0, 1);
                    ok.clone()
                }
                Op::Drop(s) => {
                    t[*s] = Table::new();
                    ok.clone()
                }
                Op::Norm(x) | Op::NormThread(x) => json!({"texts": c.iter().map(|c| x.iter().map(|x| c.normalize(x)).collect::<Vec<_>>()).collect::<Vec<_>>()}),
                Op::Surrogate => ok.clone(),
                Op::Count(s) => json!({"ok": match s { 0 => ALPHABETS.items(), 1 => DIGITS.items(), 2 => PUNCTUATIONS.items(), 3 => KANAS.items(), _ => CJK_COMPATIBILITIES.items() }.len()}),
            })
            .collect()
    }

    /// Whether the Python answers are the expected ones.
    fn compare(&self, exp: &[Value], got: &Value) -> Result<bool, String> {
        if let Some(d) = got.get("died") {
            return Err(format!("the Python process died (status {d})"));
        }
        let got = got.as_array().ok_or_else(|| format!("no answer: {got}"))?;
        if got.len() != exp.len() {
            return Err(format!("{} answers for {} calls", got.len(), exp.len()));
        }
        let mut nontrivial = false;
        for (i, (e, g)) in exp.iter().zip(got).enumerate() {
            if e["err"] == "any" {
                if g["err"].as_str().is_none_or(|x| x == "PanicException") {
                    return Err(format!("call {} ({:?}): expected an exception, got {g}", i + 1, self.ops[i]));
                }
                continue;
            }
            if let (Some(e), Some(g)) = (e["texts"].as_array(), g["texts"].as_array()) {
                for (n, (e, g)) in e.iter().zip(g).enumerate() {
                    let (e, g) = (e.as_array().unwrap(), g.as_array().unwrap());
                    let (Op::Norm(texts) | Op::NormThread(texts)) = &self.ops[i] else { unreachable!() };
                    for ((e, g), t) in e.iter().zip(g).zip(texts) {
                        if e != g {
                            return Err(format!(
                                "call {}: normalizer {} on {}: library {}",
                                i + 1,
                                n + 1,
                                show(t),
                                diff(e.as_str().unwrap(), g.as_str().unwrap_or("?")).replace("got", "Python")
                            ));
                        }
                        nontrivial |= e != t.as_str();
                    }
                }
                if e.len() != g.len() {
                    return Err(format!("call {}: {} normalizers instead of {}", i + 1, g.len(), e.len()));
                }
            } else if e != g {
                let op = format!("{:?}", self.ops[i]);
                return Err(format!("call {} ({}): expected {e}, got {}", i + 1, show(&op), show(&g.to_string())));
            }
            nontrivial |= !e["err"].is_null();
        }
        Ok(nontrivial)
    }
}

struct Py {
    child: Child,
    out: BufReader<std::process::ChildStdout>,
}

impl Py {
    fn start() -> Py {
        let verif = crate::verif_dir();
        let mut c = Command::new("/opt/vp/pyvenv/bin/python3");
        c.args(["-I", "-S", "-B"]).arg(verif.join("pyext/driver.py")).arg(verif.join(".build/pypkg"));
        c.stdin(Stdio::piped()).stdout(Stdio::piped());
        use std::os::unix::process::CommandExt;
        unsafe {
            c.pre_exec(|| {
                libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                Ok(())
            });
        }
        let mut child = c.spawn().expect("python");
        let out = BufReader::new(child.stdout.take().unwrap());
        Py { child, out }
    }
    fn ask(&mut self, req: &Value) -> Result<Value, String> {
        let mut s = req.to_string();
        s.push('\n');
        let i = self.child.stdin.as_mut().unwrap();
        i.write_all(s.as_bytes()).and_then(|_| i.flush()).map_err(|e| format!("the Python process died: {e}"))?;
        let mut line = String::new();
        self.out.read_line(&mut line).map_err(|e| e.to_string())?;
        serde_json::from_str(&line).map_err(|_| "the Python process died".into())
    }
}
impl Drop for Py {
    fn drop(&mut self) {
        drop(self.child.stdin.take());
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

const PROBES: [&str; 3] = [" ＡａＢ１２ｱｶ゛　！？〜~-−ーーaabxyzhi か゛q ", "a", "Ａ　ｱ１!"];
fn probes() -> Vec<String> {
    PROBES.iter().map(|s| s.to_string()).collect()
}
fn make(table: Option<usize>, neologdn: bool, preset: bool) -> Op {
    Op::Make { table, neologdn, preset, rc: false, configfile: None, kw: true }
}
fn pairs(v: &[(&str, &str)]) -> Pairs {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

/// The calls histories are made of.
fn alphabet() -> Vec<Op> {
    let table = |preset, csv, yaml| Op::Table { slot: 0, preset, csv, yaml, kw: true };
    let add = |what| Op::Add { slot: 0, what };
    let mk = |table, neologdn, preset, rc, configfile| Op::Make { table, neologdn, preset, rc, configfile, kw: true };
    vec![
        make(Some(0), false, false),
        add(What::Corr(pairs(&[("a", "y"), ("ｱ", "い")]))),
        table(true, None, None),
        table(false, Some(0), None),
        Op::Swap,
        add(What::Duck(pairs(&[("a", "b"), ("Ａ", "α"), ("", "x")]))),
        add(What::Bad(5)),
        add(What::Bad(9)),
        table(true, Some(0), Some(12)),
        table(false, Some(1), Some(2)),
        add(What::Set(0)),
        make(Some(0), true, true),
        mk(Some(0), false, false, false, Some(3)),
        mk(Some(0), false, true, false, Some(11)),
        mk(Some(0), false, false, true, None),
        mk(None, true, false, false, Some(0)),
        Op::Norm(probes()),
        Op::Drop(0),
        table(false, None, Some(15)),
        Op::Surrogate,
    ]
}

const STRS: [&str; 9] = ["a", "Ａ", "b", "", "ab", "\0", "𠮷", "か\u{3099}", " "];
const TOKS: &str = "aＡｶ゛か　 ~〜ー-１😀\u{3099}";

/// Sixteen normalizers: configuration file, table, preset, neologdn.
fn sixteen(k: usize) -> Vec<Op> {
    vec![
        Op::Table { slot: 0, preset: false, csv: Some(1), yaml: None, kw: true },
        Op::Make { table: (k & 1 == 1).then_some(0), neologdn: k & 2 != 0, preset: k & 4 != 0, rc: false, configfile: (k & 8 != 0).then_some(3), kw: true },
    ]
}

pub fn run(ctx: &Ctx) {
    let root: PathBuf = ctx.scratch.join("py");
    let root = &root;
    let mut pys: Vec<Mutex<Py>> = vec![];
    if std::env::var("MC_PINPOINT").is_err() {
        fixtures(root);
        pys = (0..ctx.threads).map(|_| Mutex::new(Py::start())).collect();
    }
    let pys = &pys;
    let go = |name: &str, n: u64, g: &(dyn Fn(u64) -> Run + Sync)| {
        ctx.explore_iso(
            name,
            n,
            |i| json!({"prop": "C23", "run": g(i)}),
            |_, i| Ok(json!(g(i).expect(root, false)).to_string()),
            |w, i, e| {
                let r = g(i);
                let exp: Vec<Value> = serde_json::from_str(e).unwrap();
                w.extra += r.ops.len() as u64;
                r.compare(&exp, &pys[w.no].lock().unwrap().ask(&r.request(root, false))?)
            },
        );
    };
    let every: String = (0..SCALARS).map(scalar).collect();
    let every = &every;
    // predefined sets
    go("predefined sets: each class, its number of entries and its effect on every character", 5 * 2, &|i| {
        let s = i as usize / 2;
        Run {
            env: [0; 3],
            ops: vec![
                Op::Count(s),
                Op::Add { slot: 0, what: What::Set(s) },
                make(Some(0), false, false),
                if i % 2 == 0 { Op::Norm(vec![every.clone()]) } else { Op::NormThread(vec![every.clone()]) },
            ],
        }
    });
    // Table(...)
    let opt = |x: u64| (x > 0).then(|| x as usize - 1);
    let nf = FILES.len() as u64 + 1;
    let r = [nf, nf, 2, 2];
    go("Table(preset, csv, yaml): every pair of files out of 21 or none, by position and by name; then an addition", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        Run {
            env: [0; 3],
            ops: vec![
                Op::Add { slot: 0, what: What::Corr(pairs(&[("z", "Z")])) },
                Op::Table { slot: 0, preset: m[2] == 1, csv: opt(m[0]), yaml: opt(m[1]), kw: m[3] == 1 },
                make(Some(0), false, false),
                Op::Add { slot: 0, what: What::Set(0) },
                make(Some(0), false, false),
                Op::Norm(probes()),
            ],
        }
    });
    // Chanoma(...)
    let tables = |k: u64| match k {
        0 => vec![],
        1 => vec![Op::Add { slot: 0, what: What::Corr(pairs(&[("a", "Ａ"), ("１", "2"), ("x", " ")])) }],
        2 => vec![Op::Table { slot: 0, preset: true, csv: Some(0), yaml: None, kw: true }],
        _ => vec![Op::Table { slot: 0, preset: false, csv: Some(1), yaml: Some(2), kw: true }],
    };
    let construct = |m: &[u64], rc: bool, env: [usize; 3]| {
        let mut ops = tables(m[0]);
        let mk = |neologdn, preset, rc, configfile, kw| Op::Make { table: (m[0] > 0).then_some(0), neologdn, preset, rc, configfile, kw };
        ops.push(mk(m[1] == 1, m[2] == 1, rc, opt(m[3]), m[4] == 1));
        // and the objects stay usable
        ops.push(mk(false, false, false, None, true));
        ops.push(Op::Norm(probes()));
        Run { env, ops }
    };
    let r = [4, 2, 2, nf, 2, 2];
    go("Chanoma(table, neologdn, preset, configfile): every combination", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        construct(&m, false, [(m[5] * 3) as usize, m[5] as usize, m[5] as usize])
    });
    let r = [4, 2, 2, if ctx.thorough { nf } else { 5 }, 2, 7, 3, 2];
    go("Chanoma(..., rc=True): every combination of 7 values of CHANOMARC, 3 homes and 2 current directories", r.iter().product(), &|i| {
        let mut m = mixed(i, &r);
        if !ctx.thorough {
            m[3] = [0, 4, 7, 12, 16][m[3] as usize];
        }
        construct(&m, true, [m[5] as usize, m[6] as usize, m[7] as usize])
    });
    // additions
    go("additions that are refused: 13 objects, before and after additions that are not", (NBAD * 4) as u64, &|i| {
        let (b, k) = (i as usize / 4, i % 4);
        let bad = Op::Add { slot: 0, what: What::Bad(b) };
        let good = Op::Add { slot: 0, what: What::Corr(pairs(&[("a", "b")])) };
        let mut ops = match k {
            0 => vec![bad],
            1 => vec![good, make(Some(0), false, false), bad],
            2 => vec![bad, good],
            _ => vec![Op::Table { slot: 0, preset: true, csv: None, yaml: None, kw: false }, bad.clone(), good, bad],
        };
        ops.extend([make(Some(0), false, false), Op::Norm(vec!["qaＡx".into()])]);
        Run { env: [0; 3], ops }
    });
    let n = STRS.len() as u64;
    let r = [n, n, n, n, 3];
    let all: String = STRS.concat();
    let all = &all;
    let item_probes: Vec<String> = STRS.iter().map(|s| s.to_string()).chain([all.clone(), all.chars().rev().collect()]).collect();
    let item_probes = &item_probes;
    go("additions: every two entries over 9 strings, in one correspondence, in two, or in an object of another class", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        let p = |a: u64, b: u64| (STRS[a as usize].to_string(), STRS[b as usize].to_string());
        let (x, y) = (p(m[0], m[1]), p(m[2], m[3]));
        let mut ops = match m[4] {
            0 => vec![Op::Add { slot: 0, what: What::Corr(vec![x, y]) }],
            1 => vec![Op::Add { slot: 0, what: What::Corr(vec![x]) }, Op::Add { slot: 0, what: What::Corr(vec![y]) }],
            _ => vec![Op::Add { slot: 0, what: What::Duck(vec![x]) }, Op::Add { slot: 0, what: What::Getter(vec![y]) }],
        };
        ops.extend([make(Some(0), false, false), Op::Norm(item_probes.clone())]);
        Run { env: [0; 3], ops }
    });
    // related entries, and tables of every structure and size
    let mut many: Vec<Pairs> = crate::rel::tables();
    if !ctx.thorough {
        many = many.into_iter().step_by(3).collect();
    }
    let shapes: Vec<Pairs> = (0..crate::rel::SHAPES).flat_map(|k| ctx.pick(vec![10usize, 255, 257, 1000], vec![10, 100, 255, 256, 257, 1000, 1025, 5000]).into_iter().map(move |n| crate::rel::shape(k, n))).collect();
    many.extend(shapes);
    let (many, spread) = (&many, ctx.pick(2u64, 3));
    go(&format!("additions: {} tables of related entries or of 10 structures, added in one, two or three parts", many.len()), many.len() as u64 * spread, &|i| {
        let t = &many[(i / spread) as usize];
        let parts = i % spread + 1;
        let mut probe: Vec<char> = t.iter().flat_map(|(a, b)| a.chars().take(1).chain(b.chars().take(1))).collect();
        probe.sort();
        probe.dedup();
        let probe: String = probe.into_iter().collect();
        let mut ops: Vec<Op> = Vec::new();
        for (k, c) in t.chunks(t.len().div_ceil(parts as usize)).enumerate() {
            let c = c.to_vec();
            ops.push(Op::Add { slot: 0, what: if k == 1 { What::Duck(c) } else { What::Corr(c) } });
        }
        ops.extend([make(Some(0), false, false), Op::Norm(vec![probe.clone(), probe.chars().rev().collect(), format!("{probe}{probe}")])]);
        Run { env: [0; 3], ops }
    });
    // histories
    let ops = alphabet();
    let ops = &ops;
    let k = ops.len() as u64;
    for len in 2..=ctx.pick(3, 4) {
        go(&format!("histories: all sequences of {len} of {k} calls, then every normalizer used in two threads"), k.pow(len), &|i| {
            let mut v: Vec<Op> = mixed(i, &vec![k; len as usize]).into_iter().map(|x| ops[x as usize].clone()).collect();
            v.extend([make(Some(0), false, false), make(Some(1), false, false), Op::Norm(probes()), Op::NormThread(probes())]);
            Run { env: [1, 1, 1], ops: v }
        });
    }
    // texts
    let batch = |name: &str, n: u64, configs: &[usize], text: &(dyn Fn(u64) -> String + Sync), per: u64| {
        let nb = n.div_ceil(per);
        let g = |i: u64| {
            let (c, b) = (configs[(i / nb) as usize], i % nb);
            let mut ops = sixteen(c);
            ops.push(Op::Norm((b * per..((b + 1) * per).min(n)).map(text).collect()));
            Run { env: [0; 3], ops }
        };
        ctx.explore(
            name,
            nb * configs.len() as u64,
            |i| json!({"prop": "C23", "run": g(i), "here": true}),
            |w, i| {
                let r = g(i);
                w.extra += per;
                r.compare(&r.expect(root, true), &pys[w.no].lock().unwrap().ask(&r.request(root, true))?)
            },
        );
    };
    let sixteen: Vec<usize> = (0..16).collect();
    let t = toks(TOKS);
    for len in 0..=ctx.pick(4, 5u32) {
        let n = (t.len() as u64).pow(len);
        batch(&format!("16 normalizers on all {n} texts of {len} symbols over {}", t.len()), n, &sixteen, &|i| nth_string(&t, len, i), 400);
    }
    batch("every character alone and between letters", SCALARS * 2, if ctx.thorough { &[7, 15, 0, 2, 5] } else { &[7] }, &|i| if i % 2 == 0 { scalar(i / 2).to_string() } else { format!("a{}b", scalar(i / 2)) }, 2000);
    batch("all characters in one text, and long texts", 5, &sixteen, &|i| match i {
        0 => every.clone(),
        1 => "ｶ゛ー".repeat(ctx.pick(20_000, 400_000)),
        2 => " a　".repeat(ctx.pick(20_000, 400_000)),
        3 => "\0".repeat(70_000),
        _ => "ＡＢＣ〜".repeat(ctx.pick(20_000, 400_000)),
    }, 1);
    ctx.assume("The expected answers come from the library itself (its own properties are C01 to C22).");
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    let r: Run = serde_json::from_value(case["run"].clone()).unwrap();
    let root = dir.join("py");
    fixtures(&root);
    let here = case["here"] == true;
    let mut py = Py::start();
    let e = forked(|| Ok(json!(r.expect(&root, here)).to_string()))?;
    let exp: Vec<Value> = serde_json::from_str(&e).unwrap();
    r.compare(&exp, &py.ask(&r.request(&root, here))?).map(|_| ())
}
