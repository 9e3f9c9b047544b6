//! C19 C22: which configuration files are found, and what the command prints.

use crate::core::*;
use crate::p_route::{install_logger, with_debug};
use crate::p_table::target_exe;
use crate::spec::cq;
use ::chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::io::{Read, Write};
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

pub fn run(ctx: &Ctx) {
    if ctx.prop == "C19" {
        c19(ctx)
    } else {
        c22(ctx)
    }
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    if case["prop"] == "C19" {
        if let Some(v) = case.get("scenes") {
            let v: Vec<(bool, Scene)> = serde_json::from_value(v.clone()).unwrap();
            return check_all(&v, &forked(|| Ok(load_all(&v, dir)))?).map(|_| ());
        }
        let s: Scene = serde_json::from_value(case["scene"].clone()).unwrap();
        let got = forked(|| Ok(s.load(dir)))?;
        s.check(&got).map(|_| ())
    } else {
        let c: Cli = serde_json::from_value(case["cli"].clone()).unwrap();
        c.check(dir).map(|_| ())
    }
}

// ---------------------------------------------------------------- C19

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Kind {
    No,
    Good,
    Dir,
    Dangling,
    /// a link to a valid file under another name
    Link,
    LinkDir,
    Bad,
    /// a link to another candidate of this directory
    Peer,
    /// a link to the candidate of this name in the next directory
    Next,
    /// another name of another candidate of this directory
    Hard,
    /// a file of 0 bytes
    Empty,
    /// a file without entries
    Blank,
}
use Kind::*;
const KINDS: [Kind; 8] = [Good, Dir, Dangling, Link, LinkDir, Bad, Empty, Blank];

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Scene {
    layout: usize,
    /// by physical directory, then chanomarc / .chanomarc, then csv / yaml / yml
    kinds: Vec<Kind>,
    /// 0: CHANOMARC is not set
    rc: usize,
    decoys: Vec<usize>,
    debug: bool,
    /// the name of HOME (1), of the current directory (2) or of both (3) is ODD[odd.1]
    #[serde(default)]
    odd: (u8, usize),
    /// how the files say what they do (see `content`)
    #[serde(default)]
    style: u8,
}

/// Names of directories, which some handling of a path takes apart or stumbles over.
const ODD: [&[u8]; 40] = [
    b"*", b"?", b"[a-z]", b"h[", b"{a,b}", b"**", b"~", b"~root", b"$HOME", b"${HOME}", b"%h", b"%s%n", b"a b", b" ", b" a", b"a ", b"a\nb", b"\t", b"a\\b", b"\\", b"'a'", b"\"", b"`id`", b";x", b"#", b"a:b", b"-p", b"...", b"..a", b".h", b"h.csv", b"h.yaml", b"chanomarc.csv", b".chanomarc.yml", b"chanomarc", b"\xe6\x97\xa5\xe6\x9c\xac", b"e\xcc\x81", b"\xff", b"a\xe3\x81", b"LONG",
];
/// "LONG" stands for directories nested so deep that the path takes 3 800 bytes.
fn odd_name(k: usize, root: &Path) -> PathBuf {
    if ODD[k] == b"LONG" {
        let mut p = PathBuf::new();
        while root.as_os_str().len() + p.as_os_str().len() < 3500 {
            p.push("long ".repeat(40));
        }
        return p;
    }
    PathBuf::from(std::ffi::OsStr::from_bytes(ODD[k]))
}

const NAMES: [&str; 2] = ["chanomarc", ".chanomarc"];
const EXTS: [&str; 3] = ["csv", "yaml", "yml"];

/// The physical directory behind $HOME/.config/chanoma, $HOME and the current directory.
/// Physical 0 is h/.config/chanoma, 1 is h, 2 is c unless noted; None: does not exist.
const LAYOUTS: [(&str, [Option<usize>; 3]); 15] = [
    ("three directories", [Some(0), Some(1), Some(2)]),
    ("the current directory is HOME", [Some(0), Some(1), Some(1)]),
    ("the current directory is HOME/.config/chanoma", [Some(0), Some(1), Some(0)]),
    ("HOME/.config/chanoma is a link to HOME", [Some(1), Some(1), Some(2)]),
    ("HOME/.config/chanoma is a link to HOME, which is the current directory", [Some(1), Some(1), Some(1)]),
    ("HOME is a link to the current directory", [Some(0), Some(1), Some(1)]),
    ("HOME is spelled with dots and slashes, and is the current directory", [Some(0), Some(1), Some(1)]),
    ("HOME is '.'", [Some(0), Some(1), Some(1)]),
    ("HOME/.config/chanoma does not exist", [None, Some(1), Some(2)]),
    ("HOME does not exist", [None, None, Some(2)]),
    ("HOME/.config is a link", [Some(0), Some(1), Some(2)]),
    ("HOME/.config/chanoma is a file", [None, Some(1), Some(2)]),
    ("the current directory is below HOME", [Some(0), Some(1), Some(2)]),
    ("HOME/.config/chanoma is a link to the current directory", [Some(2), Some(1), Some(2)]),
    ("the current directory has been removed", [Some(0), Some(1), None]),
];

/// Ways to set CHANOMARC: 0 is "not set".
const RCS: [(&str, u8); 77] = [
    ("(not set)", 0),
    // 1: loads alone, 2: error, 3: not judged
    ("{root}/rc/ok.csv", 1),
    ("{root}/rc/ok.yaml", 1),
    ("{root}/rc/ok.yml", 1),
    ("rc-here.csv", 1),
    ("./../rc/./ok.yaml", 1),
    ("{root}/rc/link.csv", 1),
    ("{root}/rc/日本 語.csv", 1),
    ("{root}/rc/\u{fffd}.csv", 1), // stands for a name that is not UTF-8
    ("{root}/rc/two.yaml.csv", 1),
    ("{home}/chanomarc.csv", 1),
    ("{root}/rc/a*b?[c].csv", 1),
    ("{root}/rc/~$HOME %s{a,b}.yaml", 1),
    ("{root}/rc/.hidden.yml", 1),
    ("{root}/rc/-p.csv", 1),
    ("{root}/rc/a\nb.csv", 1),
    ("{root}/rc/d.csv/ok.csv", 1),
    ("{root}/rc/d.txt/ok.yml", 1),
    ("{root}/rc/ok.CSV", 2),
    ("{root}/rc/ok.Yaml", 2),
    ("{root}/rc/ok.csv.bak", 2),
    ("{root}/rc/ok.csv ", 2),
    ("{root}/rc/okcsv.", 2),
    ("{root}/rc/ok.yam", 2),
    ("{root}/rc/ok.yamll", 2),
    ("{root}/rc/*.csv", 2),
    ("{root}/rc/d.csv", 2),
    ("~/ok.csv", 2),
    ("{root}/rc/o\u{212a}.csv", 2),
    ("{root}/rc/missing.csv", 2),
    ("{root}/rc/missing.txt", 2),
    ("{root}/rc/dir.csv", 2),
    ("{root}/rc/linkdir.yaml", 2),
    ("{root}/rc/dangling.yaml", 2),
    ("{root}/rc/noext", 2),
    ("{root}/rc/csv", 2),
    ("{root}/rc/.csv", 2),
    ("{root}/rc/ok.txt", 2),
    ("{root}/rc/ok.json", 2),
    ("{root}/rc/fifo.csv", 2),
    ("{root}/rc/bad.csv", 2),
    ("{root}/rc/bad.yaml", 2),
    ("{root}/rc/ok.\u{fffd}", 2), // stands for an extension that is not UTF-8
    ("", 2),
    (".", 2),
    ("..", 2),
    ("/", 2),
    ("{root}/rc", 2),
    ("{root}/rc/..", 2),
    ("{root}/rc/ok.csv/", 2),
    (" {root}/rc/ok.csv", 2),
    ("{root}/rc/ok.csv:{root}/rc/ok.yaml", 2),
    // below the current directory
    ("~/lit.csv", 1),
    ("$HOME/lit.yaml", 1),
    ("${HOME}/lit.csv", 1),
    ("~root/lit.yml", 1),
    ("%h/lit.csv", 1),
    ("a:b/lit.csv", 1),
    ("%41.csv", 1),
    ("a\\b.csv", 1),
    ("'lit'.csv", 1),
    ("\"lit.csv\".csv", 1),
    ("file:lit.csv", 1),
    (" lit.csv", 1),
    ("lit.csv.yaml", 1),
    ("+lit.csv", 1),
    ("@lit.csv", 1),
    ("-.csv", 1),
    ("é.csv", 1),
    ("e\u{301}.csv", 1),
    // links to files whose own names say something else
    ("{root}/rc/to-noext.csv", 1),
    ("{root}/rc/to-txt.csv", 1),
    ("{root}/rc/to-csv.yaml", 1),
    ("{root}/rc/to-link.yml", 1),
    ("{root}/rc/to-d/ok.csv", 1),
    ("{root}/rc/to-csv.txt", 2),
    ("{root}/rc/to-csv", 2),
];

/// Files that must not be read.
const DECOYS: [&str; 16] = [
    "h/chanomarc",
    "h/.chanomarc",
    "h/chanomarc.json",
    "h/chanomarc.csv.bak",
    "h/.chanomarc.txt",
    "h/xchanomarc.csv",
    "h/chanoma.yaml",
    "h/.config/chanomarc.csv",
    "h/.config/chanoma.yaml",
    "h/.config/chanoma/config.yaml",
    "xdg/chanoma/chanomarc.csv",
    "xdg/chanomarc.yaml",
    "chanomarc.csv",
    ".chanomarc.yaml",
    "c/.config/chanoma/chanomarc.csv",
    "c/chanoma/chanomarc.yml",
];

const RC_FILE: usize = 18;
/// The rewriting done by file k: its effect shows which files were applied, in which order and
/// how often.
fn rules(k: usize) -> Vec<(char, char)> {
    let mut v = Vec::new();
    let at = |x: usize| char::from_u32(0x4e00 + x as u32).unwrap();
    for i in 0..=RC_FILE {
        for j in i + 1..=RC_FILE {
            let a = 4 * (i * (RC_FILE + 1) + j);
            if k == i {
                v.push((at(a), at(a + 1)));
            }
            if k == j {
                v.push((at(a), at(a + 3)));
                v.push((at(a + 1), at(a + 2)));
            }
        }
    }
    let e = 4 * (RC_FILE + 1) * (RC_FILE + 1) + 3 * k;
    v.push((at(e), at(e + 1)));
    v.push((at(e + 1), at(e + 2)));
    v
}
fn probe() -> String {
    let at = |x: usize| char::from_u32(0x4e00 + x as u32).unwrap();
    let mut s = String::new();
    for i in 0..=RC_FILE {
        for j in i + 1..=RC_FILE {
            s.push(at(4 * (i * (RC_FILE + 1) + j)));
        }
    }
    for k in 0..=RC_FILE {
        s.push(at(4 * (RC_FILE + 1) * (RC_FILE + 1) + 3 * k));
    }
    s
}
/// Style 0 has entries only. In YAML, style 1 has a step instead, 2 a step and entries, 4 a step of
/// another kind, 5 several steps. In style 3 every file is the same.
const STYLES: [&str; 6] = ["entries", "a character_converter", "a character_converter and entries", "one content for all files", "a ligature_translator and a character_converter or entries", "a character_converter, a ligature_translator and entries"];
fn content(k: usize, ext: &str, style: u8) -> String {
    let rules = match style {
        3 => (0..SAME).map(|i| (char::from_u32(0x4e00 + i).unwrap(), char::from_u32(0x4e01 + i).unwrap())).collect(),
        _ => rules(k),
    };
    let mut s = String::new();
    if ext == "csv" {
        s.push_str("from,to\n");
        for (a, b) in rules {
            s.push_str(&format!("{},{}\n", cq(&a.to_string()), cq(&b.to_string())));
        }
        return s;
    }
    // rules that follow one another stay together
    let n = rules.len();
    let part = |i: usize| -> usize {
        let chained = i + 2 >= n;
        let i = i.min(n - 2);
        match style {
            0 | 3 => 2,
            1 => 0,
            2 => [0, 2][(i + k) % 2],
            // a ligature translator applies them one after another
            4 if !chained => 1,
            5 if !chained => (i + k) % 3,
            _ => [0, 2][k % 2],
        }
    };
    for (p, name) in ["character_converter", "ligature_translator", ""].into_iter().enumerate() {
        let mine: Vec<_> = (0..n).filter(|i| part(*i) == p).map(|i| rules[i]).collect();
        if p == 2 {
            if !mine.is_empty() {
                s.push_str("items:\n");
            }
            for (a, b) in mine {
                s.push_str(&format!("- from: {a}\n  to: {b}\n"));
            }
        } else if !mine.is_empty() {
            if s.is_empty() {
                s.push_str("modifiers:\n");
            }
            s.push_str(&format!("  {name}:\n"));
            for (a, b) in mine {
                s.push_str(&format!("    {a}: {b}\n"));
            }
        }
    }
    s
}
/// In style 3, applications that can be told apart.
const SAME: u32 = 40;
fn bad(ext: &str) -> &'static [u8] {
    if ext == "csv" {
        b"from,to\na,b\n\xff,c\n"
    } else {
        b"items:\n  a: [b, 1]\n"
    }
}
fn applied(files: &[usize], style: u8) -> String {
    if style == 3 {
        return char::from_u32(0x4e00 + files.len() as u32).unwrap().to_string();
    }
    let mut s = probe();
    for k in files {
        let r: std::collections::HashMap<char, char> = rules(*k).into_iter().collect();
        s = s.chars().map(|c| *r.get(&c).unwrap_or(&c)).collect();
    }
    s
}
/// Which files, in which order, turn the probe into `s`, as far as it can be told.
fn explain(s: &str, style: u8) -> String {
    if style == 3 {
        return format!("{} of the same files", s.chars().next().map_or(0, |c| (c as i64) - 0x4e00));
    }
    let v: Vec<u32> = s.chars().map(|c| c as u32 - 0x4e00).collect();
    let n = v.len() - (RC_FILE + 1);
    let once: Vec<u32> = (0..=RC_FILE).map(|k| v[n + k] - (4 * (RC_FILE + 1) * (RC_FILE + 1) + 3 * k) as u32).collect();
    let mut here: Vec<usize> = (0..=RC_FILE).filter(|k| once[*k] > 0).collect();
    let mut rank = vec![0; RC_FILE + 1];
    let mut p = 0;
    for i in 0..=RC_FILE {
        for j in i + 1..=RC_FILE {
            match v[p] % 4 {
                2 => rank[j] += 1,
                3 if once[i] > 0 => rank[i] += 1,
                _ => {}
            }
            p += 1;
        }
    }
    here.sort_by_key(|k| rank[*k]);
    here.iter().map(|k| format!("{}{}", file_name(*k), if once[*k] > 1 { " (more than once)" } else { "" })).collect::<Vec<_>>().join(", ")
}
/// The candidate a link at candidate k leads to.
fn peer(k: usize, kind: Kind) -> usize {
    match kind {
        Next => (k + 6) % 18,
        _ => match k % 3 {
            0 if k % 6 < 3 => k + 3,
            0 => k - 3,
            1 => k + 1,
            _ => k - 1,
        },
    }
}
fn file_name(k: usize) -> String {
    if k == RC_FILE {
        return "CHANOMARC".into();
    }
    format!("{}/{}.{}", ["HOME/.config/chanoma", "HOME", "cwd"][k / 6], NAMES[k % 6 / 3], EXTS[k % 3])
}

impl Scene {
    fn rc_file(&self, root: &Path, home: &Path) -> Option<std::ffi::OsString> {
        if self.rc == 0 {
            return None;
        }
        let s = RCS[self.rc].0.replace("{root}", root.to_str().unwrap()).replace("{home}", home.to_str().unwrap());
        let b = s.as_bytes().split(|_| false).flat_map(|b| b.to_vec()).collect::<Vec<u8>>();
        let mut out = Vec::new();
        let mut i = 0;
        while i < b.len() {
            if b[i..].starts_with("\u{fffd}".as_bytes()) {
                out.push(0xff);
                i += 3;
            } else {
                out.push(b[i]);
                i += 1;
            }
        }
        Some(std::ffi::OsString::from_vec(out))
    }

    /// Sets the scene up below `dir`, in a process of its own, and loads.
    fn load(&self, dir: &Path) -> String {
        let root = dir.join("s");
        let _ = std::fs::remove_dir_all(&root);
        let mk = |p: &str| std::fs::create_dir_all(root.join(p)).unwrap();
        let link = |to: PathBuf, at: PathBuf| std::os::unix::fs::symlink(to, at).unwrap();
        mk("rc");
        mk("c");
        let (mut home, mut cwd) = (root.join("h"), root.join("c"));
        let mut phys = [root.join("h/.config/chanoma"), root.join("h"), root.join("c")];
        match self.layout {
            0 | 14 => mk("h/.config/chanoma"),
            1 => {
                mk("h/.config/chanoma");
                cwd = root.join("h");
            }
            2 => {
                mk("h/.config/chanoma");
                cwd = root.join("h/.config/chanoma");
            }
            3 | 4 => {
                mk("h/.config");
                link(root.join("h"), root.join("h/.config/chanoma"));
                if self.layout == 4 {
                    cwd = root.join("h");
                }
            }
            5 => {
                mk("real/.config/chanoma");
                link(root.join("real"), root.join("h"));
                phys = [root.join("real/.config/chanoma"), root.join("real"), root.join("c")];
                cwd = root.join("real");
            }
            6 => {
                mk("h/.config/chanoma");
                home = PathBuf::from(format!("{}/c/..//./h/", root.display()));
                cwd = root.join("h");
            }
            7 => {
                mk("h/.config/chanoma");
                home = PathBuf::from(".");
                cwd = root.join("h");
            }
            8 => mk("h/.config"),
            9 => {}
            10 => {
                mk("elsewhere/chanoma");
                mk("h");
                link(root.join("elsewhere"), root.join("h/.config"));
                phys[0] = root.join("elsewhere/chanoma");
            }
            11 => {
                mk("h/.config");
                std::fs::write(root.join("h/.config/chanoma"), "x").unwrap();
            }
            12 => {
                mk("h/.config/chanoma");
                mk("h/a/b");
                cwd = root.join("h/a/b");
                phys[2] = cwd.clone();
            }
            _ => {
                mk("h/.config");
                link(root.join("c"), root.join("h/.config/chanoma"));
            }
        }
        mk("store/d");
        for (k, kind) in self.kinds.iter().enumerate() {
            if *kind == No || !LAYOUTS[self.layout].1.contains(&Some(k / 6)) {
                continue;
            }
            let ext = EXTS[k % 3];
            let p = phys[k / 6].join(format!("{}.{ext}", NAMES[k % 6 / 3]));
            match kind {
                No => {}
                Good => std::fs::write(&p, content(k, ext, self.style)).unwrap(),
                Empty => std::fs::write(&p, "").unwrap(),
                Blank => std::fs::write(&p, if ext == "csv" { "from,to\n" } else { "items:\n" }).unwrap(),
                Bad => std::fs::write(&p, bad(ext)).unwrap(),
                Dir => std::fs::create_dir(&p).unwrap(),
                Dangling => link(root.join("store/nothing"), p),
                LinkDir => link(root.join("store/d"), p),
                Peer | Next => {
                    let j = peer(k, *kind);
                    link(phys[j / 6].join(format!("{}.{}", NAMES[j % 6 / 3], EXTS[j % 3])), p);
                }
                Hard => {}
                Link => {
                    let t = root.join(format!("store/{k}"));
                    std::fs::write(&t, content(k, ext, self.style)).unwrap();
                    link(t, p);
                }
            }
        }
        for (k, kind) in self.kinds.iter().enumerate() {
            if *kind == Hard && LAYOUTS[self.layout].1.contains(&Some(k / 6)) {
                let at = |j: usize| phys[j / 6].join(format!("{}.{}", NAMES[j % 6 / 3], EXTS[j % 3]));
                let _ = std::fs::hard_link(at(peer(k, Hard)), at(k));
            }
        }
        for d in &self.decoys {
            let p = root.join(DECOYS[*d]);
            if std::fs::create_dir_all(p.parent().unwrap()).is_ok() {
                let _ = std::fs::write(&p, bad(if p.extension().is_some_and(|e| e == "csv") { "csv" } else { "yaml" }));
            }
        }
        if self.rc > 0 {
            let rc = root.join("rc");
            let text = |ext: &str| content(RC_FILE, ext, self.style);
            for (f, e) in [("ok.csv", "csv"), ("ok.yaml", "yaml"), ("ok.yml", "yaml"), ("日本 語.csv", "csv"), ("two.yaml.csv", "csv"), ("noext", "csv"), ("csv", "csv"), (".csv", "csv"), ("ok.txt", "csv"), ("ok.json", "yaml")] {
                std::fs::write(rc.join(f), text(e)).unwrap();
            }
            std::fs::write(rc.join(std::ffi::OsStr::from_bytes(b"\xff.csv")), text("csv")).unwrap();
            std::fs::write(rc.join(std::ffi::OsStr::from_bytes(b"ok.\xff")), text("csv")).unwrap();
            std::fs::write(cwd.join("rc-here.csv"), text("csv")).unwrap();
            // found only by one who reads more into a path than its characters
            let _ = std::fs::write(cwd.join(&home).join("ok.csv"), text("csv"));
            let here = RCS[self.rc].0;
            if RCS[self.rc].1 == 1 && here != "rc-here.csv" && !here.starts_with("./") && !here.starts_with('{') {
                let f = cwd.join(here);
                std::fs::create_dir_all(f.parent().unwrap()).unwrap();
                std::fs::write(f, text(if here.ends_with("csv") { "csv" } else { "yaml" })).unwrap();
            }
            std::fs::write(rc.join("bad.csv"), bad("csv")).unwrap();
            std::fs::write(rc.join("bad.yaml"), bad("yaml")).unwrap();
            for n in ["a*b?[c].csv", "~$HOME %s{a,b}.yaml", ".hidden.yml", "-p.csv", "a\nb.csv", "ok.CSV", "ok.csv.bak", "ok.csv ", "okcsv.", "ok.yamll", "ok.yam"] {
                std::fs::write(rc.join(n), text(if n.ends_with(".yaml") || n.ends_with(".yml") { "yaml" } else { "csv" })).unwrap();
            }
            std::fs::write(rc.join("ok.Yaml"), text("yaml")).unwrap();
            for (d, n) in [("d.csv", "ok.csv"), ("d.txt", "ok.yml")] {
                std::fs::create_dir(rc.join(d)).unwrap();
                std::fs::write(rc.join(d).join(n), text(&n[3..])).unwrap();
            }
            std::fs::create_dir(rc.join("dir.csv")).unwrap();
            link(rc.join("dir.csv"), rc.join("linkdir.yaml"));
            link(rc.join("nothing"), rc.join("dangling.yaml"));
            link(rc.join("ok.csv"), rc.join("link.csv"));
            std::fs::write(rc.join("yaml-in.csv"), text("yaml")).unwrap();
            for (to, at) in [("noext", "to-noext.csv"), ("ok.txt", "to-txt.csv"), ("yaml-in.csv", "to-csv.yaml"), ("to-csv.yaml", "to-link.yml"), ("d.csv", "to-d"), ("ok.csv", "to-csv.txt"), ("ok.csv", "to-csv")] {
                link(rc.join(to), rc.join(at));
            }
            let f = std::ffi::CString::new(rc.join("fifo.csv").as_os_str().as_bytes()).unwrap();
            unsafe { libc::mkfifo(f.as_ptr(), 0o600) };
        }
        for (bit, old, at) in [(1, "h", "1"), (2, "c", "2")] {
            if self.odd.0 & bit > 0 {
                let new = root.join(at).join(odd_name(self.odd.1, &root));
                std::fs::create_dir_all(new.parent().unwrap()).unwrap();
                std::fs::rename(root.join(old), &new).unwrap();
                for p in [&mut home, &mut cwd] {
                    if let Ok(rest) = p.strip_prefix(root.join(old)).map(|r| r.to_path_buf()) {
                        *p = if rest.as_os_str().is_empty() { new.clone() } else { new.join(rest) };
                    }
                }
            }
        }
        // whether an empty YAML file is one without entries or an error is not judged here
        let f = root.join("rc/empty.yaml");
        std::fs::write(&f, "").unwrap();
        let empty = guard(|| Chanoma::from_config_file(&f).is_ok()).unwrap_or(false);
        std::fs::remove_file(f).unwrap();
        // only here, in a process of its own
        std::env::set_current_dir(&cwd).unwrap();
        if self.layout == 14 {
            std::fs::remove_dir_all(&cwd).unwrap();
        }
        std::env::set_var("HOME", &home);
        std::env::set_var("XDG_CONFIG_HOME", root.join("xdg"));
        std::env::set_var("PWD", "/nowhere");
        match self.rc_file(&root, &home) {
            Some(v) => std::env::set_var("CHANOMARC", v),
            None => std::env::remove_var("CHANOMARC"),
        }
        if self.debug {
            install_logger();
        }
        let r = guard(|| {
            let probe = if self.style == 3 { "\u{4e00}".to_string() } else { probe() };
            let go = || Chanoma::load_rc().map(|c| (c.normalize(&probe), c.normalize("zq")));
            if self.debug {
                with_debug(2, go)
            } else {
                go()
            }
        });
        let _ = std::env::set_current_dir(dir);
        let r = match r {
            Err(p) => format!("P{p}"),
            Ok(Err(e)) => format!("E{e}"),
            Ok(Ok((_, z))) if z != "zq" => format!("Pan unlisted text became {z:?}"),
            Ok(Ok((s, _))) => format!("N{s}"),
        };
        format!("{}{r}", if empty { '+' } else { '-' })
    }

    /// The candidate whose content is found at candidate k.
    fn at(&self, k: usize) -> (usize, Kind) {
        let mut j = k;
        for _ in 0..20 {
            match self.kinds[j] {
                kind @ (Peer | Next | Hard) => j = peer(j, kind),
                kind => return (j, kind),
            }
        }
        (k, Dangling)
    }

    /// What must be loaded; None for an error.
    fn expected(&self, empty: bool) -> Option<Vec<usize>> {
        if self.rc > 0 {
            return match RCS[self.rc] {
                (p, _) if p.starts_with("{home}") => match self.at(6) {
                    (j, Good | Link) => Some(vec![j]),
                    (_, Empty | Blank) => Some(vec![]),
                    _ => None,
                },
                (_, 1) => Some(vec![RC_FILE]),
                _ => None,
            };
        }
        let dirs = LAYOUTS[self.layout].1;
        let mut out = Vec::new();
        for (n, d) in dirs.iter().enumerate() {
            let Some(d) = d else { continue };
            if dirs[..n].contains(&Some(*d)) {
                continue;
            }
            for k in d * 6..d * 6 + 6 {
                match self.at(k) {
                    (j, Good | Link) => out.push(j),
                    (_, Bad) => return None,
                    // a link reads it as what the name of the link says
                    (_, Empty) if k % 3 > 0 && !empty => return None,
                    _ => {}
                }
            }
        }
        Some(out)
    }

    fn check(&self, got: &str) -> Result<bool, String> {
        let (empty, got) = got.split_at(1);
        let want = self.expected(empty == "+");
        let names = |v: &[usize]| v.iter().map(|k| file_name(*k)).collect::<Vec<_>>().join(", ");
        let odd = match self.odd.0 {
            0 => String::new(),
            n => format!(", {} named {:?}", ["", "HOME", "the current directory", "both"][n as usize], String::from_utf8_lossy(ODD[self.odd.1])),
        };
        let odd = if self.style > 0 { format!("{odd}, files with {}", STYLES[self.style as usize]) } else { odd };
        let at = format!("{}{odd}{}", LAYOUTS[self.layout].0, if self.rc > 0 { format!(", CHANOMARC={:?}", RCS[self.rc].0) } else { String::new() });
        match (got.split_at(1), want) {
            (("P", p), _) => Err(format!("{at}: {p}")),
            (("E", _), None) => Ok(true),
            (("E", e), Some(v)) => Err(format!("{at}: an error although [{}] should be loaded: {e}", names(&v))),
            ((_, s), None) => Err(format!("{at}: loading succeeds with [{}], an error was expected", explain(s, self.style))),
            ((_, s), Some(v)) => {
                if s != applied(&v, self.style) {
                    return Err(format!("{at}: loaded [{}], expected [{}]", explain(s, self.style), names(&v)));
                }
                Ok(!v.is_empty())
            }
        }
    }
}

/// Several loads in one process: the files, HOME, the current directory and CHANOMARC change in
/// between; those marked lie below another directory.
fn load_all(v: &[(bool, Scene)], dir: &Path) -> String {
    let there = dir.join("elsewhere");
    std::fs::create_dir_all(&there).unwrap();
    v.iter().map(|(e, s)| s.load(if *e { &there } else { dir })).collect::<Vec<_>>().join("\u{4}")
}
fn check_all(v: &[(bool, Scene)], got: &str) -> Result<bool, String> {
    let mut any = false;
    for (n, ((_, s), g)) in v.iter().zip(got.split('\u{4}')).enumerate() {
        any |= s.check(g).map_err(|e| format!("load {} of {} in one process: {e}", n + 1, v.len()))?;
    }
    Ok(any)
}

fn c19(ctx: &Ctx) {
    let go = |name: &str, n: u64, g: &(dyn Fn(u64) -> Scene + Sync)| {
        ctx.explore_iso(name, n, |i| json!({"prop": "C19", "scene": g(i), "layout": LAYOUTS[g(i).layout].0}), |dir, i| Ok(g(i).load(dir)), |_, i, r| g(i).check(r));
    };
    let scene = |layout: usize, kinds: Vec<Kind>| Scene { layout, kinds, rc: 0, decoys: vec![], debug: false, odd: (0, 0), style: 0 };
    let of = |m: u64| (0..18).map(|k| if m >> k & 1 == 1 { Good } else { No }).collect::<Vec<_>>();
    // subsets
    let mut sets: Vec<u64> = if ctx.thorough { (0..1 << 18).collect() } else {
        let mut v: Vec<u64> = (0..1u64 << 18).filter(|m| m.count_ones() <= 5 || m.count_ones() >= 14).collect();
        for d in 0..3u64 {
            for m in 0..64u64 {
                v.push(m << (6 * d));
                v.push(m << (6 * d) | (((1 << 18) - 1) & !(63 << (6 * d))));
            }
        }
        v
    };
    sets.sort_by_key(|m| (m.count_ones(), *m));
    sets.dedup();
    go(&format!("{} of the subsets of the 18 candidate files (thorough: all; quick: at most 5 present or at most 4 missing, or any in one directory)", sets.len()), sets.len() as u64, &|i| scene(0, of(sets[i as usize])));
    // layouts: subsets of the files of the directories that exist
    for l in 1..LAYOUTS.len() {
        let dirs = LAYOUTS[l].1;
        let bits: Vec<u64> = (0..18).filter(|k| dirs.contains(&Some(k / 6))).map(|k| k as u64).collect();
        let n = bits.len();
        let full = ctx.thorough && n <= 12;
        let mut sets: Vec<u64> = (0..1u64 << n).filter(|m| full || m.count_ones() <= 2 || m.count_ones() as usize >= n - 1 || (n == 12 && (m & 63 == 0 || m >> 6 == 0))).collect();
        sets.sort_by_key(|m| m.count_ones());
        go(&format!("{}: {} subsets of the {n} candidate files", LAYOUTS[l].0, sets.len()), sets.len() as u64, &|i| {
            let m = (0..n).map(|b| (sets[i as usize] >> b & 1) << bits[b]).sum();
            scene(l, of(m))
        });
    }
    // kinds of files
    for l in [0, 1, 3] {
        let r = [18, KINDS.len() as u64, 3];
        go(&format!("{}: each candidate of every kind (file, directory, dangling link, link to a file, link to a directory, invalid, empty, without entries), others missing, present or invalid", LAYOUTS[l].0), r.iter().product(), &|i| {
            let m = mixed(i, &r);
            let mut k = vec![[No, Good, Bad][m[2] as usize]; 18];
            k[m[0] as usize] = KINDS[m[1] as usize];
            scene(l, k)
        });
        let r = [18, 18, KINDS.len() as u64, KINDS.len() as u64, 2];
        if l == 0 || ctx.thorough {
            go(&format!("{}: every two candidates of every two kinds", LAYOUTS[l].0), r.iter().product(), &|i| {
                let m = mixed(i, &r);
                let mut k = vec![[No, Good][m[4] as usize]; 18];
                k[m[0] as usize] = KINDS[m[2] as usize];
                k[m[1] as usize] = KINDS[m[3] as usize];
                scene(l, k)
            });
        }
    }
    // candidates that are links to one another
    let base = [No, Good, Bad, Dir, Link];
    let r = [18, 18, 3, 3, 5];
    go("every two candidates that are links (symbolic: to a name in this directory, to this name in the next one; or hard) to others, which are missing, valid, invalid, directories or links", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        let mut k = vec![base[m[4] as usize]; 18];
        for (a, b) in [(m[0], m[2]), (m[1], m[3])] {
            let kind = [Peer, Next, Hard][b as usize];
            // a directory has one name, and a hard link needs a file
            if kind != Hard || !matches!(k[peer(a as usize, Hard)], Dir | Link | Peer | Next | Hard) {
                k[a as usize] = kind;
            }
        }
        for j in 0..18 {
            if k[j] == Hard && matches!(k[peer(j, Hard)], Peer | Next | Hard) {
                k[j] = Peer;
            }
        }
        scene(0, k)
    });
    // CHANOMARC
    let r = [RCS.len() as u64 - 1, 3, LAYOUTS.len() as u64, 2];
    go(&format!("CHANOMARC: {} values, with no, valid and invalid files to discover, in every layout, with and without debug logging", RCS.len() - 1), r.iter().product(), &|i| {
        let m = mixed(i, &r);
        let mut s = scene(m[2] as usize, vec![[No, Good, Bad][m[1] as usize]; 18]);
        s.rc = m[0] as usize + 1;
        // the candidate named by CHANOMARC needs a HOME with files
        if RCS[s.rc].0.starts_with("{home}") && s.layout == 9 {
            s.layout = 8;
        }
        // nothing relative to a current directory elsewhere
        if RCS[s.rc].0.starts_with("./") && !LAYOUTS[s.layout].1.contains(&Some(2)) || RCS[s.rc].0.starts_with("./") && s.layout == 12 {
            s.layout = 0;
        }
        // nothing relative to no directory
        if s.layout == 14 && RCS[s.rc].1 == 1 && !RCS[s.rc].0.starts_with('{') {
            s.layout = 0;
        }
        s.debug = m[3] == 1;
        s
    });
    // what the files say
    let pairs: Vec<u64> = (0..1u64 << 18).filter(|m| m.count_ones() <= if ctx.thorough { 3 } else { 2 } || m.count_ones() >= 17).collect();
    let r = [STYLES.len() as u64 - 1, if ctx.thorough { LAYOUTS.len() as u64 } else { 3 }, pairs.len() as u64];
    go("files with a step, with steps and entries, or all with one content: few present or few missing", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        let mut s = scene([0, 1, 3, 2, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14][m[1] as usize], of(pairs[m[2] as usize]));
        s.style = m[0] as u8 + 1;
        s
    });
    let r = [STYLES.len() as u64 - 1, 18, KINDS.len() as u64, 3];
    go("files with a step, with steps and entries, or all with one content: each candidate of every kind", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        let mut k = vec![[No, Good, Blank][m[3] as usize]; 18];
        k[m[1] as usize] = KINDS[m[2] as usize];
        let mut s = scene(0, k);
        s.style = m[0] as u8 + 1;
        s
    });
    // names of the directories
    let r = [ODD.len() as u64, 3, 3, 4];
    go("40 odd names of HOME, of the current directory or of both", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        let k = match m[3] {
            0 => vec![No; 18],
            1 => of(0b100001_010010_001100),
            2 => vec![Good; 18],
            _ => {
                let mut k = of(0b100001_010010_001100);
                k[[0, 7, 16][m[2] as usize]] = Bad;
                k
            }
        };
        let mut s = scene([0, 1, 2][m[2] as usize], k);
        s.odd = (m[1] as u8 + 1, m[0] as usize);
        s
    });
    // decoys
    let r = [DECOYS.len() as u64 + 1, 3, 3, 2];
    go("files that must not be read: each of 16 and all of them, invalid, beside no, some or all candidates", r.iter().product(), &|i| {
        let m = mixed(i, &r);
        let k = match m[1] {
            0 => vec![No; 18],
            1 => of(0b100001_010010_001100),
            _ => vec![Good; 18],
        };
        let mut s = scene([0, 1, 8][m[2] as usize], k);
        s.decoys = if m[0] == DECOYS.len() as u64 { (0..DECOYS.len()).collect() } else { vec![m[0] as usize] };
        s.debug = m[3] == 1;
        s
    });
    // several loads in one process
    let mut pool: Vec<Scene> = Vec::new();
    let rcs = [1usize, 2, 4, 5, RCS.iter().position(|r| r.0.ends_with("missing.csv")).unwrap(), RCS.iter().position(|r| r.0.ends_with("bad.yaml")).unwrap(), RCS.iter().position(|r| r.0.is_empty()).unwrap()];
    for l in [0usize, 1, 5, 9, 14] {
        for m in [0u64, 1, 1 << 6, 1 << 12, 0b100001_010010_001100, 0b011110_101101_110011, (1 << 18) - 1] {
            pool.push(scene(l, of(m)));
        }
        let mut k = of(0b100001_010010_001100);
        k[if l == 9 { 12 } else { 7 }] = Bad;
        pool.push(scene(l, k));
        if l < 2 {
            for rc in rcs {
                pool.push(Scene { rc, ..scene(l, of(0b000001_000010_000100)) });
            }
        }
    }
    let n = pool.len() as u64;
    let r = [n, n, 2, ctx.pick(1, 2)];
    let mk = |i: u64| -> Vec<(bool, Scene)> {
        let m = mixed(i, &r);
        let (a, b) = ((false, pool[m[0] as usize].clone()), (m[2] == 1, pool[m[1] as usize].clone()));
        let mut v = vec![a.clone(), b.clone(), a];
        if m[3] == 1 {
            v.push(b);
        }
        v
    };
    ctx.explore_iso(
        &format!("loads one after another in one process: every two of {n} scenes, the first again after the second, in the same directories or others"),
        r.iter().product(),
        |i| json!({"prop": "C19", "scenes": mk(i)}),
        |dir, i| Ok(load_all(&mk(i), dir)),
        |_, i, got| check_all(&mk(i), got),
    );
    ctx.assume("HOME is set (without it the directory comes from the password database)");
    ctx.assume("two candidate names that are links to the same file are two configuration files");
    crate::p_fault::failing(ctx);
}

// ---------------------------------------------------------------- C22

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cli {
    opts: Vec<String>,
    preset: bool,
    neologdn: bool,
    config: usize,
    /// 0 argument, 1 argument behind --, 2.. standard input
    route: usize,
    text: Vec<(String, usize)>,
    /// options behind the text
    after: bool,
    /// surroundings that must not matter
    #[serde(default)]
    around: Vec<Around>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum Around {
    /// other variables of the environment, by index
    Env(usize),
    /// the text is an argument and standard input has another one, by index
    Stdin(usize),
    /// standard output is a file with earlier content, a terminal, a socket
    File,
    Tty,
    Socket,
    /// standard error is where standard output goes, or is closed
    ErrTty,
    NoErr,
    /// the first line is followed by bytes that are not UTF-8
    Behind,
    /// the command runs from another directory than the one it was found in, by another name
    Name,
    /// standard output takes nothing: a full disk, a pipe nobody reads
    Full,
    Broken,
}
use Around::*;

const ENVS: [&[(&str, &str)]; 16] = [
    &[("RUST_LOG", "trace")],
    &[("RUST_LOG", "off")],
    &[("RUST_LOG", "chanoma=debug"), ("RUST_LOG_STYLE", "always")],
    &[("RUST_LOG", "not a level,=,")],
    &[("LANG", "C"), ("LC_ALL", "C"), ("LC_CTYPE", "POSIX")],
    &[("LANG", "tr_TR.UTF-8"), ("LC_ALL", "ja_JP.SJIS"), ("LANGUAGE", "ja")],
    &[("NO_COLOR", "1"), ("TERM", "dumb"), ("CLICOLOR_FORCE", "1")],
    &[("TERM", "xterm-256color"), ("COLUMNS", "10"), ("LINES", "2")],
    &[("RUST_BACKTRACE", "full"), ("RUST_LIB_BACKTRACE", "1")],
    &[("DEBUG", "1"), ("VERBOSE", "1"), ("CHANOMA_DEBUG", "1"), ("CHANOMA_LOG", "debug")],
    &[("CHANOMA", "x"), ("CHANOMA_PRESET", "1"), ("CHANOMA_NEOLOGDN", "1"), ("CHANOMARC_", "/none.csv"), ("chanomarc", "/none.csv"), ("CHANOMA_RC", "/none.csv")],
    &[("XDG_CONFIG_HOME", "/nonexistent"), ("XDG_CONFIG_DIRS", "/nonexistent"), ("APPDATA", "/nonexistent"), ("USERPROFILE", "/nonexistent")],
    &[("PWD", "/nonexistent"), ("OLDPWD", "/nonexistent"), ("PATH", ""), ("TMPDIR", "/nonexistent")],
    &[("PYTHONIOENCODING", "latin-1"), ("INPUT", "x"), ("TEXT", "x"), ("CI", "true")],
    &[("TZ", "Asia/Tokyo"), ("USER", "nobody"), ("LOGNAME", "nobody"), ("SHELL", "/bin/false")],
    &[("RUST_MIN_STACK", "65536"), ("MALLOC_ARENA_MAX", "1"), ("MALLOC_PERTURB_", "165")],
];
const OTHERS: [&str; 5] = ["b\n", "", "\n", "あＢ", "another\nline\n"];

extern "C" fn close_stderr() {
    unsafe { libc::close(2) };
}

const CONFIGS: [&str; 9] = ["none", "CHANOMARC csv", "CHANOMARC yaml", "HOME csv and cwd yaml", "CHANOMARC missing", "CHANOMARC invalid", "cwd invalid", "CHANOMARC directory", "CHANOMARC unsupported"];
// What follows the text on standard input.
const ENDS: [&str; 5] = ["\n", "", "\nsecond line\n", "\n\n", "\r\n"];

const CSV: &str = "from,to\n!,！\na,Ａ\nＢ,〜\n";
const YAML: &str = "modifiers:\n  ligature_translator: {か゛: ＝}\n  character_eliminator: [x]\nitems:\n  '！': ['!']\n  ー: [b]\n";

impl Cli {
    fn check(&self, dir: &Path) -> Result<bool, String> {
        let root = dir.join("cli");
        let _ = std::fs::remove_dir_all(&root);
        let (home, cwd) = (root.join("home"), root.join("cwd"));
        std::fs::create_dir_all(&home).unwrap();
        std::fs::create_dir_all(&cwd).unwrap();
        let put = |p: PathBuf, s: &str| {
            std::fs::write(&p, s).unwrap();
            p
        };
        let mut files = Vec::new();
        let mut rc = None;
        match self.config {
            1 => {
                files.push(put(root.join("rc.csv"), CSV));
                rc = files.first().cloned();
            }
            2 => {
                files.push(put(root.join("rc.yaml"), YAML));
                rc = files.first().cloned();
            }
            3 => {
                files.push(put(home.join(".chanomarc.csv"), CSV));
                files.push(put(cwd.join("chanomarc.yaml"), YAML));
            }
            4 => rc = Some(root.join("missing.csv")),
            5 => rc = Some(put(root.join("rc.yaml"), "items: [1]\n")),
            6 => {
                put(cwd.join("chanomarc.yml"), "modifiers: {unknown: 1}\n");
            }
            7 => rc = Some(root.clone()),
            8 => rc = Some(put(root.join("rc.txt"), CSV)),
            _ => {}
        }
        let fails = self.config >= 4;
        let text = segs_text(&self.text);
        let mut c = Command::new(target_exe("repo-cli"));
        c.env_clear().env("HOME", &home).current_dir(&cwd).stderr(Stdio::piped()).stdout(Stdio::piped());
        for a in &self.around {
            match a {
                Env(k) => {
                    c.envs(ENVS[*k].iter().cloned());
                }
                Name => {
                    use std::os::unix::process::CommandExt;
                    c.arg0("-p");
                }
                NoErr => {
                    use std::os::unix::process::CommandExt;
                    unsafe {
                        c.pre_exec(|| {
                            close_stderr();
                            Ok(())
                        });
                    }
                }
                _ => {}
            }
        }
        if let Some(rc) = rc {
            c.env("CHANOMARC", rc);
        }
        if !self.after {
            c.args(&self.opts);
        }
        match self.route {
            0 => {
                c.arg(&text);
            }
            1 => {
                if self.after {
                    c.args(&self.opts);
                }
                c.arg("--").arg(&text);
            }
            _ => {}
        }
        if self.after && self.route != 1 {
            c.args(&self.opts);
        }
        let mut input = None;
        if self.route >= 2 {
            let mut b = format!("{text}{}", ENDS[(self.route - 2) % ENDS.len()]).into_bytes();
            if self.around.contains(&Behind) {
                b.extend(b"\nx\xff\xe3\n\xf0\0");
            }
            input = Some(b);
            c.stdin(Stdio::piped());
        } else if let Some(k) = self.around.iter().find_map(|a| if let Stdin(k) = a { Some(*k) } else { None }) {
            input = Some(OTHERS[k].as_bytes().to_vec());
            c.stdin(Stdio::piped());
        } else {
            c.stdin(Stdio::null());
        }
        // other kinds of standard output
        let mut other: Option<Box<dyn Read + Send>> = None;
        let before = "earlier content\n";
        let file = root.join("out");
        if self.around.contains(&File) {
            std::fs::write(&file, before).unwrap();
            c.stdout(std::fs::OpenOptions::new().append(true).open(&file).unwrap());
        } else if self.around.contains(&Socket) {
            let (a, b) = std::os::unix::net::UnixStream::pair().map_err(|e| e.to_string())?;
            c.stdout(Stdio::from(std::os::fd::OwnedFd::from(b)));
            other = Some(Box::new(a));
        } else if self.around.contains(&Tty) || self.around.contains(&ErrTty) {
            use std::os::fd::FromRawFd;
            let (mut m, mut t) = (0, 0);
            unsafe {
                if libc::openpty(&mut m, &mut t, std::ptr::null_mut(), std::ptr::null(), std::ptr::null()) != 0 {
                    return Err("openpty failed".into());
                }
                let mut a: libc::termios = std::mem::zeroed();
                libc::tcgetattr(t, &mut a);
                libc::cfmakeraw(&mut a);
                libc::tcsetattr(t, libc::TCSANOW, &a);
                libc::fcntl(m, libc::F_SETFD, libc::FD_CLOEXEC);
                let t = std::os::fd::OwnedFd::from_raw_fd(t);
                if self.around.contains(&ErrTty) {
                    c.stderr(Stdio::from(t));
                    drop(std::fs::File::from_raw_fd(m));
                } else {
                    c.stdout(Stdio::from(t));
                    other = Some(Box::new(std::fs::File::from_raw_fd(m)));
                }
            }
        }
        let takes_nothing = self.around.contains(&Full) || self.around.contains(&Broken);
        if self.around.contains(&Full) {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?);
        } else if takes_nothing {
            let (r, w) = std::io::pipe().map_err(|e| e.to_string())?;
            drop(r);
            c.stdout(Stdio::from(std::os::fd::OwnedFd::from(w)));
        }
        let mut child = c.spawn().map_err(|e| e.to_string())?;
        let pipe = child.stdin.take();
        let slow = self.route >= 2 + ENDS.len();
        let writer = std::thread::spawn(move || {
            if let (Some(mut p), Some(b)) = (pipe, input) {
                let b = &b[..];
                if slow {
                    for x in b.chunks(1) {
                        let _ = p.write_all(x);
                        std::thread::sleep(std::time::Duration::from_millis(3));
                    }
                } else {
                    let _ = p.write_all(b);
                }
            }
        });
        drop(c);
        let err = child.stderr.take();
        let errs = std::thread::spawn(move || {
            let mut v = Vec::new();
            if let Some(mut err) = err {
                let _ = err.read_to_end(&mut v);
            }
            v
        });
        let mut out = Vec::new();
        if let Some(o) = child.stdout.take() {
            { o }.read_to_end(&mut out).map_err(|e| e.to_string())?;
        } else if let Some(mut o) = other {
            // a terminal ends with an error once the other side is closed
            let mut buf = [0; 4096];
            while let Ok(n) = o.read(&mut buf) {
                if n == 0 {
                    break;
                }
                out.extend(&buf[..n]);
            }
        }
        let st = child.wait().map_err(|e| e.to_string())?;
        writer.join().unwrap();
        errs.join().unwrap();
        let at = format!("options {:?}, configuration {:?}, text {} by route {}, surroundings {:?}", self.opts, CONFIGS[self.config], show(&text), self.route, self.around);
        if self.around.contains(&File) {
            out = std::fs::read(&file).map_err(|e| e.to_string())?;
            match out.strip_prefix(before.as_bytes()) {
                Some(o) => out = o.to_vec(),
                None => return Err(format!("{at}: the file that standard output is appended to has lost its content")),
            }
        }
        if fails {
            if st.success() || st.code().is_none() {
                return Err(format!("{at}: the configuration cannot be loaded, the command ends with {st}"));
            }
            if !out.is_empty() {
                return Err(format!("{at}: the configuration cannot be loaded, the command prints {:?}", String::from_utf8_lossy(&out)));
            }
            return Ok(true);
        }
        if takes_nothing {
            if st.success() {
                return Err(format!("{at}: the command ends with {st} although its result could not be written"));
            }
            return Ok(true);
        }
        let e = |e: ::chanoma::error::Error| e.to_string();
        let mut want = if self.route >= 2 && ENDS[(self.route - 2) % ENDS.len()].starts_with('\r') { format!("{text}\r") } else { text.clone() };
        if self.route >= 2 {
            want = want.split('\n').next().unwrap_or("").to_string();
        }
        if let Some(f) = files.first().filter(|_| files.len() == 2) {
            want = Chanoma::from_config_file(f).map_err(e)?.normalize(&want);
        }
        let mut lib = match files.last() {
            Some(f) => Chanoma::from_config_file(f).map_err(e)?,
            None => Chanoma::new(),
        };
        if self.preset {
            lib.use_preset();
        }
        if self.neologdn {
            lib.use_neologdn();
        }
        let plain = want.clone();
        want = lib.normalize(&want);
        let changed = plain != want;
        want.push('\n');
        if out != want.as_bytes() {
            return Err(format!("{at}: {}", diff(&want, &String::from_utf8_lossy(&out))));
        }
        if !st.success() {
            return Err(format!("{at}: the command ends with {st}"));
        }
        Ok(changed)
    }
}

fn c22(ctx: &Ctx) {
    // (arguments, preset, neologdn)
    let mut opts: Vec<(Vec<&str>, bool, bool)> = Vec::new();
    let flags = [["-d", "--debug"], ["-p", "--preset"], ["-n", "--neologdn"]];
    for m in 0..8usize {
        let on: Vec<usize> = (0..3).filter(|k| m >> k & 1 == 1).collect();
        // every order, short and long
        let k = on.len();
        let perms: Vec<Vec<usize>> = match k {
            0 => vec![vec![]],
            1 => vec![vec![0]],
            2 => vec![vec![0, 1], vec![1, 0]],
            _ => vec![vec![0, 1, 2], vec![0, 2, 1], vec![1, 0, 2], vec![1, 2, 0], vec![2, 0, 1], vec![2, 1, 0]],
        };
        for p in perms {
            for long in 0..2 {
                if long == 1 && k == 0 {
                    continue;
                }
                opts.push((p.iter().map(|j| flags[on[*j]][long]).collect(), m & 2 == 2, m & 4 == 4));
            }
        }
    }
    for (b, p, n) in [("-pn", true, true), ("-np", true, true), ("-dp", true, false), ("-nd", false, true), ("-dpn", true, true), ("-npd", true, true)] {
        opts.push((vec![b], p, n));
    }
    let texts: Vec<Vec<(String, usize)>> = [
        "", "a", " ", "  a  b c ", "ﾊﾝｶｸｶﾅは全角カタカナに変換されます", "！!ＢＡａab＝", "か゛x〜ー~ーb\tx", "検索 エンジン 自作 入門 を 買い ました!!!", "\t", "\u{3000}あ\u{3000}", "error: x", "\u{1f600}e\u{301}", "\u{2028}", "x\ry", "%s {} \\n \"'",
    ]
    .iter()
    .map(|t| vec![(t.to_string(), 1)])
    .chain([vec![("Ａー ".to_string(), 2000)], vec![("ｶﾞ!".to_string(), 20_000)]])
    .collect();
    let short = ctx.pick(9, texts.len());
    let case = |c: &Cli| json!({"prop": "C22", "cli": c});
    let cli = |o: usize, config: usize, route: usize, t: usize, after: bool| Cli {
        opts: opts[o].0.iter().map(|s| s.to_string()).collect(),
        preset: opts[o].1,
        neologdn: opts[o].2,
        config,
        route,
        text: if route < 2 && t == 16 { vec![("ｶﾞ!".to_string(), 9000)] } else { texts[t].clone() },
        after,
        around: vec![],
    };
    let r = [opts.len() as u64, 4, 2 + ENDS.len() as u64, 3];
    let g = |i: u64| {
        let m = mixed(i, &r);
        cli(m[0] as usize, m[1] as usize, m[2] as usize, [3, 5, 6][m[3] as usize], false)
    };
    ctx.explore("every set of options in every order and spelling, 4 configurations, argument or standard input with 5 endings, 3 texts", r.iter().product(), |i| case(&g(i)), |w, i| g(i).check(&w.dir));
    // one spelling per set of options, all texts
    let sets: Vec<usize> = (0..8).map(|m: usize| opts.iter().position(|(v, p, n)| v.len() == m.count_ones() as usize && (*p, *n) == (m & 2 == 2, m & 4 == 4) && (v.contains(&"-d") == (m & 1 == 1)) && v.iter().all(|x| x.len() == 2)).unwrap()).collect();
    let rt = [8, ctx.pick(2, 4), 2 + ENDS.len() as u64, texts.len() as u64];
    let gt = |i: u64| {
        let m = mixed(i, &rt);
        cli(sets[m[0] as usize], if ctx.thorough { m[1] as usize } else { [0, 3][m[1] as usize] }, m[2] as usize, m[3] as usize, false)
    };
    ctx.explore("every set of options, configurations, routes and 17 texts", rt.iter().product(), |i| case(&gt(i)), |w, i| gt(i).check(&w.dir));
    let ra = [opts.len() as u64, 2, 2];
    let ga = |i: u64| {
        let m = mixed(i, &ra);
        cli(m[0] as usize, [0, 3][m[1] as usize], m[2] as usize, 5, true)
    };
    ctx.explore("options behind the text, or before -- and the text", ra.iter().product(), |i| case(&ga(i)), |w, i| ga(i).check(&w.dir));
    let dash = ["-", "-p", "--preset", "-x", "--", "--help", "-V"];
    let rd = [8, dash.len() as u64, 2];
    let gd = |i: u64| {
        let m = mixed(i, &rd);
        let mut c = cli(sets[m[0] as usize], 0, if m[2] == 0 { 1 } else { 2 }, 0, false);
        c.text = vec![(dash[m[1] as usize].into(), 1)];
        c
    };
    ctx.explore("texts that look like options, behind -- or on standard input", rd.iter().product(), |i| case(&gd(i)), |w, i| gd(i).check(&w.dir));
    let rf = [opts.len() as u64, 5, 3, 2];
    let gf = |i: u64| {
        let m = mixed(i, &rf);
        cli(m[0] as usize, 4 + m[1] as usize, m[2] as usize, [0, 5][m[3] as usize], false)
    };
    ctx.explore("5 configurations that cannot be loaded", rf.iter().product(), |i| case(&gf(i)), |w, i| gf(i).check(&w.dir));
    let rs = [8, ENDS.len() as u64, short.min(9) as u64];
    let gs = |i: u64| {
        let m = mixed(i, &rs);
        cli(sets[m[0] as usize], 0, 2 + ENDS.len() + m[1] as usize, m[2] as usize, false)
    };
    ctx.explore("standard input arriving byte by byte", rs.iter().product(), |i| case(&gs(i)), |w, i| gs(i).check(&w.dir));
    // surroundings that must not matter
    let mut arounds: Vec<Around> = (0..ENVS.len()).map(Env).collect();
    arounds.extend((0..OTHERS.len()).map(Stdin));
    arounds.extend([File, Tty, Socket, ErrTty, NoErr, Behind, Name]);
    let rx = [8, 5, arounds.len() as u64, 2, 5];
    let gx = |i: u64| {
        let m = mixed(i, &rx);
        let a = arounds[m[2] as usize];
        let stdin = match a {
            Stdin(_) => false,
            Behind => true,
            _ => m[3] == 1,
        };
        let mut c = cli(sets[m[0] as usize], [0, 1, 2, 3, 5][m[1] as usize], if stdin { 2 } else { m[3] as usize }, [0, 3, 5, 6, 15][m[4] as usize], false);
        c.around = vec![a];
        if stdin && a == Behind && m[3] == 1 {
            c.route = 4;
        }
        c
    };
    ctx.explore("28 surroundings that must not matter: variables, another text on standard input, kinds of standard output and error", rx.iter().product(), |i| case(&gx(i)), |w, i| gx(i).check(&w.dir));
    let r2 = [8, 2, (arounds.len() * arounds.len()) as u64];
    let g2 = |i: u64| {
        let m = mixed(i, &r2);
        let (a, b) = (arounds[m[2] as usize / arounds.len()], arounds[m[2] as usize % arounds.len()]);
        let arg = matches!(a, Stdin(_)) || matches!(b, Stdin(_));
        let mut c = cli(sets[m[0] as usize], [1, 3][m[1] as usize], if arg { 0 } else { 2 }, 6, false);
        c.around = vec![a, b];
        c
    };
    let r3 = [8, 5, 2, 2, texts.len() as u64];
    let g3 = |i: u64| {
        let m = mixed(i, &r3);
        let mut c = cli(sets[m[0] as usize], [0, 1, 2, 3, 5][m[1] as usize], if m[2] == 0 { 0 } else { 2 }, m[4] as usize, false);
        c.around = vec![[Full, Broken][m[3] as usize]];
        c
    };
    ctx.explore("every set of options, 5 configurations, 2 routes, all texts, on a standard output that takes nothing", r3.iter().product(), |i| case(&g3(i)), |w, i| g3(i).check(&w.dir));
    if ctx.thorough {
        ctx.explore("every two of these surroundings", r2.iter().product(), |i| case(&g2(i)), |w, i| g2(i).check(&w.dir));
    }
    ctx.assume("the first line of standard input is valid UTF-8");
}
