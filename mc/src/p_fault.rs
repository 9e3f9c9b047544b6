//! Loading while the file system is in the way: reads that return less than they were asked for,
//! calls that fail, and files replaced in the middle of a load (C24; stages of C17 C18 C19 C20).

use crate::core::*;
use crate::fault::{self, Act, Ev};
use ::chanoma::corr::{Correspondence, Item, Synthesized};
use ::chanoma::file::{modifiers_from_yaml_path, table_from_csv_path, table_from_yaml_path};
use ::chanoma::table::{Table, TableBuilder};
use ::chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::path::Path;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plan {
    /// reads return at most these many bytes, the last number over and over (0: no limit)
    Short(Vec<usize>),
    /// call `at` fails, and every one after it if it lasts; reads return at most `chunk` bytes
    Fail { at: usize, errno: i32, lasting: bool, chunk: usize },
    /// before each of these calls the file is replaced by its next version
    Swap { at: Vec<usize>, how: u8, chunk: usize },
}

type Segs = Vec<(String, usize)>;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Load {
    /// see `load`
    by: String,
    ext: String,
    /// versions of the file, of which a plan without `Swap` uses the first
    docs: Vec<Segs>,
    plan: Plan,
}

fn seg(s: &str) -> Segs {
    vec![(s.to_string(), 1)]
}

const PROBE: &str = "xyzwXYZWaabbああいいかかか  か゛ーー a b . xyzw";

fn table(t: Result<Table, ::chanoma::error::Error>) -> Result<String, String> {
    let t = t.map_err(|e| e.to_string())?;
    Ok(t.items().iter().map(|i| format!("{}\u{1}{}\u{2}", i.from, i.to)).collect())
}
fn whole(c: Chanoma) -> String {
    let r = c.normalize_with_positions(PROBE);
    let mut s = c.normalize(PROBE);
    for m in r.modified_records() {
        s.push('\u{1}');
        s.push_str(&m.text);
    }
    s
}

/// What a load says, by every public way to load a file.
fn load(by: &str, csv: bool, f: &Path) -> Result<String, String> {
    match by {
        "table" if csv => table(table_from_csv_path(f)),
        "table" => table(table_from_yaml_path(f)),
        "builder" if csv => table(TableBuilder::from_csv_path(f).map(|b| b.build())),
        "builder" => table(TableBuilder::from_yaml_path(f).map(|b| b.build())),
        "add" => {
            let mut b = TableBuilder::new();
            (if csv { b.add_from_csv(f).map(|_| ()) } else { b.add_from_yaml(f).map(|_| ()) }).map_err(|e| e.to_string())?;
            table(Ok(b.build()))
        }
        // into a table that has entries, one of them the file's: all or nothing
        "kept" => {
            let fresh = || {
                let mut b = TableBuilder::new();
                b.add_corr(&Correspondence::new(Synthesized::new(vec![Item::new("x", "A"), Item::new("か", "y"), Item::new("k", "K")])));
                b
            };
            let mut b = fresh();
            let r = if csv { b.add_from_csv(f).map(|_| ()) } else { b.add_from_yaml(f).map(|_| ()) };
            let t = table(Ok(b.build()));
            if r.is_err() && t != table(Ok(fresh().build())) {
                panic!("fails and leaves another table: {t:?}");
            }
            r.map_err(|e| e.to_string())?;
            t
        }
        "steps" => {
            let v = modifiers_from_yaml_path(f).map_err(|e| e.to_string())?;
            // a map shows its entries in any order
            Ok(v.iter()
                .map(|k| {
                    let mut c: Vec<char> = format!("{k:?}").chars().collect();
                    c.sort();
                    c.into_iter().collect::<String>() + "\u{1}"
                })
                .collect())
        }
        "config" => Chanoma::from_config_file(f).map(whole).map_err(|e| e.to_string()),
        // set up by `Load::run`
        "rc" | "home" | "all" => Chanoma::load_rc().map(whole).map_err(|e| e.to_string()),
        by => panic!("unknown loader {by}"),
    }
}

impl Load {
    fn process_wide(by: &str) -> bool {
        matches!(by, "rc" | "home" | "all")
    }

    fn check(&self, dir: &Path) -> Result<bool, String> {
        let csv = self.ext == "csv";
        let root = dir.join("f");
        let _ = std::fs::remove_dir_all(&root);
        let mk = |p: &Path| std::fs::create_dir_all(p).unwrap();
        let name = if matches!(self.by.as_str(), "home" | "all") { "chanomarc" } else { "doc" };
        let leaf = format!("{name}.{}", self.ext);
        // v0, v1, … hold the versions, and for `all` a second file that changes with the first
        for (k, d) in self.docs.iter().enumerate() {
            let v = root.join(format!("v{k}"));
            mk(&v);
            std::fs::write(v.join(&leaf), segs_text(d)).unwrap();
            if self.by == "all" {
                std::fs::write(v.join(".chanomarc.csv"), "h\n.,:\n").unwrap();
            }
        }
        let live = root.join("live");
        let how = if let Plan::Swap { how, .. } = self.plan { how } else { 0 };
        // the path given, and what a replacement does
        let put = |k: usize| match how {
            // the file under its name
            0 => {
                std::fs::copy(root.join(format!("v{k}")).join(&leaf), root.join("next")).unwrap();
                std::fs::rename(root.join("next"), live.join(&leaf)).unwrap();
            }
            // the link under its name
            1 => {
                std::os::unix::fs::symlink(root.join(format!("v{k}")).join(&leaf), root.join("next")).unwrap();
                std::fs::rename(root.join("next"), live.join(&leaf)).unwrap();
            }
            // the directory, itself a link
            _ => {
                std::os::unix::fs::symlink(root.join(format!("v{k}")), root.join("next")).unwrap();
                std::fs::rename(root.join("next"), &live).unwrap();
            }
        };
        if how < 2 {
            mk(&live);
            if self.by == "all" {
                std::fs::write(live.join(".chanomarc.csv"), "h\n.,:\n").unwrap();
            }
        }
        let f = live.join(&leaf);
        if Load::process_wide(&self.by) {
            mk(&root.join("cwd"));
            std::env::set_current_dir(root.join("cwd")).unwrap();
            if self.by == "rc" {
                std::env::set_var("HOME", root.join("cwd"));
                std::env::set_var("CHANOMARC", &f);
            } else {
                std::env::set_var("HOME", &live);
                std::env::remove_var("CHANOMARC");
            }
        }
        let mut alone = Vec::new();
        for k in 0..if matches!(self.plan, Plan::Swap { .. }) { self.docs.len() } else { 1 } {
            put(k);
            alone.push(guard(|| load(&self.by, csv, &f))?);
        }
        put(0);
        let mut n = 0;
        let mut reads = 0;
        let mut version = 0;
        let mut hit = false;
        let mut next = |ev: Ev| {
            let k = n;
            n += 1;
            let short = |c: usize| if c > 0 && matches!(ev, Ev::Read(_)) { Act::Short(c) } else { Act::Go };
            match &self.plan {
                Plan::Short(v) => {
                    if let Ev::Read(_) = ev {
                        reads += 1;
                        hit = true;
                        return short(v[(reads - 1).min(v.len() - 1)]);
                    }
                    Act::Go
                }
                Plan::Fail { at, errno, lasting, chunk } => {
                    if k == *at || (*lasting && k > *at) {
                        hit = true;
                        return Act::Fail(*errno);
                    }
                    short(*chunk)
                }
                Plan::Swap { at, chunk, .. } => {
                    if at.contains(&k) {
                        hit = true;
                        version += 1;
                        put(version);
                    }
                    short(*chunk)
                }
            }
        };
        let (got, _) = guard(|| fault::with(&root, &mut next, || load(&self.by, csv, &f))).map_err(|e| format!("the load {e}"))?;
        let said = |r: &Result<String, String>| match r {
            Ok(s) => format!("gives {}", show(s)),
            Err(e) => format!("fails ({e})"),
        };
        let allowed = match self.plan {
            Plan::Short(_) => got.is_ok() && got == alone[0],
            Plan::Fail { .. } => !hit && got == alone[0] || hit && (got.is_err() || got == alone[0]),
            Plan::Swap { .. } => alone.iter().any(|a| if a.is_ok() { *a == got } else { got.is_err() }),
        };
        if !allowed {
            return Err(match self.plan {
                Plan::Swap { .. } => format!(
                    "the load {}; of the versions of the file, loading each undisturbed {}",
                    said(&got),
                    alone.iter().map(said).collect::<Vec<_>>().join(", ")
                ),
                _ => format!("the load {}; undisturbed it {}", said(&got), said(&alone[0])),
            });
        }
        Ok(hit && alone.iter().any(|a| a.is_ok() && *a != alone[0]) || hit && alone.len() == 1)
    }
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    let l: Load = serde_json::from_value(case["load"].clone()).unwrap();
    if Load::process_wide(&l.by) {
        forked(|| l.check(dir).map(|b| b.to_string())).map(|_| ())
    } else {
        l.check(dir).map(|_| ())
    }
}

/// `g` is asked for the load of a case; None: there is no such case.
fn go(ctx: &Ctx, name: &str, iso: bool, n: u64, g: &(dyn Fn(u64) -> Load + Sync)) {
    let prop = ctx.prop.clone();
    let case = |i: u64| json!({"prop": prop, "kind": "fault", "load": g(i)});
    if iso {
        ctx.explore_iso(name, n, case, |d, i| g(i).check(d).map(|b| b.to_string()), |_, _, r| Ok(r == "true"));
    } else {
        ctx.explore(name, n, case, |w, i| g(i).check(&w.dir));
    }
}

fn docs(csv: bool) -> Vec<Segs> {
    let s = |v: &[(&str, usize)]| v.iter().map(|(t, n)| (t.to_string(), *n)).collect::<Segs>();
    if csv {
        vec![
            seg("h\nx,A\n"),
            seg("from,to\r\nx,\"A\"\r\n\r\nあ,😀"),
            seg("h,h\n\"x\n\",y,\"z\"\"\",Z\nい,\"\"\n\nw,W"),
            seg("h\n,\nx\n\"\"\na,か,b\n"),
            s(&[("h\n", 1), ("x,X\ny,Y\n", 1500), ("z,あ\nw,\"い\"\n", 1)]),
            s(&[("h\n", 1), ("\"", 1), ("あ\"\"\n", 4000), ("\",か,y\nz,Z", 1)]),
        ]
    } else {
        vec![
            seg("items:\n  A: x\n"),
            seg("modifiers:\n  trim:\nitems: {あ: [x, y]}"),
            seg("\u{feff}items:\r\n- {from: \"x\", to: 😀}\r\n"),
            seg("modifiers:\n  character_converter: {a: い, x: w}\n"),
            seg("---\nmodifiers: {trim: }\nitems: {Z: z}\n...\n"),
            seg("# x\n'items': {\"A\\u3042\": \"x\\ny\"} # 後"),
            s(&[("modifiers:\n  character_eliminator: [y", 1), (", y", 3000), ("]\n  trim:\nitems:\n  A: [x", 1), (", x", 3000), ("]\n  い: あ\n", 1)]),
        ]
    }
}

const BY_CSV: [&str; 4] = ["table", "builder", "add", "config"];
const BY_YAML: [&str; 5] = ["table", "builder", "add", "steps", "config"];

/// Reads that return less than asked for: C17 and C18.
pub fn short(ctx: &Ctx, csv: bool) {
    let ds = docs(csv);
    let by: &[&str] = if csv { &BY_CSV } else { &BY_YAML };
    let exts: &[&str] = if csv { &["csv"] } else { &["yaml", "yml"] };
    let sizes: Vec<usize> = (1..=64).chain([100, 1000, 4095, 4096, 4097, 8191, 8192, 8193]).collect();
    let of = |d: usize, l: u64, plan: Plan| Load { by: by[l as usize].into(), ext: exts[d % exts.len()].into(), docs: vec![ds[d].clone()], plan };
    let r = [sizes.len() as u64, ds.len() as u64, by.len() as u64];
    go(ctx, &format!("reads of at most n bytes, for {} n, {} documents, {} ways to load them", r[0], r[1], r[2]), false, r.iter().product(), &|i| {
        let m = mixed(i, &r);
        of(m[1] as usize, m[2], Plan::Short(vec![sizes[m[0] as usize]]))
    });
    // every way to cut the small documents in two, three (thorough: four)
    let small: Vec<(usize, u64)> = ds.iter().enumerate().map(|(k, d)| (k, segs_text(d).len() as u64)).filter(|x| x.1 < 80).collect();
    for (d, len) in small {
        for parts in 2..=ctx.pick(3, 4u32) {
            let k = parts as u64 - 1;
            let n = (1..=k).fold(1, |a, j| a * (len - k + j - 1) / j);
            // the i-th set of k cuts among 1..len
            let cuts = move |mut i: u64| {
                let mut v: Vec<usize> = Vec::new();
                let mut c = 1;
                for j in (1..=k).rev() {
                    loop {
                        // sets with c as their next member
                        let s = (1..j).fold(1, |a, q| a * (len - 1 - c - (j - 1) + q) / q);
                        if i < s {
                            break;
                        }
                        i -= s;
                        c += 1;
                    }
                    v.push(c as usize);
                    c += 1;
                }
                let mut sizes: Vec<usize> = v.iter().scan(0, |p, c| Some(c - std::mem::replace(p, *c))).collect();
                sizes.push(0);
                sizes
            };
            go(ctx, &format!("document {d}: every way to read it in {parts} parts"), false, n * by.len() as u64, &|i| {
                let m = mixed(i, &[n, by.len() as u64]);
                of(d, m[1], Plan::Short(cuts(m[0])))
            });
        }
    }
}

const ERRNOS: [i32; 22] = [
    libc::EIO, libc::EACCES, libc::EINTR, libc::EISDIR, libc::ENOMEM, libc::EMFILE, libc::EAGAIN, libc::ENOENT, libc::EPERM, libc::ENFILE, libc::ESTALE, libc::EINVAL, libc::ENXIO, libc::EBUSY, libc::ENODEV, libc::ENOTDIR, libc::ETXTBSY, libc::ELOOP,
    libc::ENAMETOOLONG, libc::EOVERFLOW, libc::ETIMEDOUT, libc::EBADF,
];

/// Calls that fail: C20, C19 for the files found by themselves, C14 for loads into a table.
pub fn failing(ctx: &Ctx) {
    let rc = ctx.prop == "C19";
    for csv in [true, false] {
        let ds = docs(csv);
        let by: &[&str] = match (rc, csv) {
            (true, _) => &["rc", "home", "all"],
            _ if ctx.prop == "C14" => &["kept"],
            (_, true) => &BY_CSV,
            _ => &BY_YAML,
        };
        let calls = ctx.pick(12u64, 40);
        let chunks: &[usize] = if ctx.thorough || !rc { &[0, 1, 5, 4096] } else { &[0, 5] };
        let r = [calls, ds.len() as u64, by.len() as u64, ERRNOS.len() as u64, chunks.len() as u64, 2];
        let n: u64 = r.iter().product();
        go(ctx, &format!("{}: each of the first {calls} calls fails, alone or with all that follow, {} errors, {} documents, {} ways to load them, {} sizes of reads", if csv { "CSV" } else { "YAML" }, r[3], r[1], r[2], r[4]), rc, n, &|i| {
            let m = mixed(i, &r);
            let mut errno = ERRNOS[m[3] as usize];
            let by = by[m[2] as usize];
            let lasting = m[5] == 1;
            // a call interrupted is made again, for ever if it must; and a file found by itself
            // that is gone was never there
            if errno == libc::EINTR && lasting || matches!(errno, libc::ENOENT | libc::ENOTDIR) && matches!(by, "home" | "all") {
                errno = libc::EIO;
            }
            Load { by: by.into(), ext: if csv { "csv" } else if m[1] % 2 == 0 { "yaml" } else { "yml" }.into(), docs: vec![ds[m[1] as usize].clone()], plan: Plan::Fail { at: m[0] as usize, errno, lasting, chunk: chunks[m[4] as usize] } }
        });
    }
}

// ---------------------------------------------------------------- C24

/// Versions of one file: any part of one beside any part of another shows.
fn versions(csv: bool) -> Vec<Segs> {
    let s = |v: &[(&str, usize)]| v.iter().map(|(t, n)| (t.to_string(), *n)).collect::<Segs>();
    if csv {
        vec![
            seg("h\nx,A\ny,A\n"),
            seg("h\nx,B\nz,B\n"),
            seg("h\n"),
            seg(""),
            s(&[("h\n", 1), ("x,C\n", 1), ("a,a\n", 5000), ("y,C\n", 1)]),
            s(&[("h\n", 1), ("x,D\n", 1), ("\"b\",b\n", 4000), ("z,D\n", 1)]),
            seg("h\nx,\"A\ny,A\u{0}"),
        ]
    } else {
        vec![
            seg("modifiers:\n  character_converter: {x: A}\nitems:\n  A: y\n"),
            seg("modifiers:\n  character_converter: {x: B}\nitems:\n  B: y\n"),
            seg("modifiers:\n  character_converter: {x: C}\n"),
            seg("items:\n  D: y\n"),
            seg("items: {E: [x, y]}\nmodifiers:\n  character_eliminator: [z]\n"),
            s(&[("modifiers:\n  character_eliminator: [x", 1), (", x", 3000), ("]\n  trim:\nitems:\n  F: [y", 1), (", y", 3000), ("]\n  G: z\n", 1)]),
            seg("\u{feff}modifiers:\n  character_converter: {x: K}\nitems:\n  L: y\n"),
            seg("{}"),
            // one section is wrong, then the other
            seg("modifiers:\n  character_converter: {x: H}\nitems: 1\n"),
            seg("modifiers:\n  nothing_like_it:\nitems:\n  I: y\n"),
            seg("modifiers: {"),
        ]
    }
}

pub fn run(ctx: &Ctx) {
    ctx.assume("A replacement is a rename over the file, over a link to it, or over a link to its directory; a file rewritten in place may be read half-written by any program.");
    for (csv, iso) in [(false, false), (true, false), (false, true), (true, true)] {
        let vs = versions(csv);
        let by: &[&str] = match (iso, csv) {
            (true, _) => &["rc", "home", "all"],
            (_, true) => &BY_CSV,
            _ => &BY_YAML,
        };
        let what = if csv { "CSV" } else { "YAML" };
        let ways = if iso { "by load_rc, three ways" } else { "by every function that takes a path" };
        let v = vs.len() as u64;
        let calls = ctx.pick(12u64, 40);
        let chunks = [0usize, 3, 1000];
        let of = |d: Vec<u64>, by: &str, ext: u64, plan: Plan| Load { by: by.into(), ext: if csv { "csv" } else if ext == 0 { "yaml" } else { "yml" }.into(), docs: d.iter().map(|k| vs[*k as usize].clone()).collect(), plan };
        let r = [calls, v, v, by.len() as u64, 3, 3];
        go(ctx, &format!("{what} loaded {ways}: replaced once, before each of the first {calls} calls, every two versions"), iso, r.iter().product(), &|i| {
            let m = mixed(i, &r);
            of(vec![m[1], m[2]], by[m[3] as usize], m[0] % 2, Plan::Swap { at: vec![m[0] as usize], how: m[4] as u8, chunk: chunks[m[5] as usize] })
        });
        // replaced twice: by a third version, or by the first again
        let some = ctx.pick(6u64, 12);
        let pairs: Vec<(u64, u64)> = (0..some).flat_map(|a| (a + 1..some).map(move |b| (a, b))).collect();
        let few = ctx.pick(5u64, v);
        let r = [pairs.len() as u64, few, few, few, by.len() as u64, 3];
        go(ctx, &format!("{what} loaded {ways}: replaced twice, before any two of the first {some} calls, every three of {few} versions"), iso, r.iter().product(), &|i| {
            let m = mixed(i, &r);
            let p = pairs[m[0] as usize];
            of(vec![m[1], m[2], m[3]], by[m[4] as usize], m[0] % 2, Plan::Swap { at: vec![p.0 as usize, p.1 as usize], how: m[5] as u8, chunk: 0 })
        });
    }
}

