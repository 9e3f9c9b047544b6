//! C14 C15 C16: tables as sets, and their round trips through exported files.

use crate::core::*;
use crate::rel;
use crate::spec::*;
use ::chanoma::characters_set::{alphabets::ALPHABETS, cjk_compatibilities::CJK_COMPATIBILITIES, digits::DIGITS, kanas::KANAS, punctuations::PUNCTUATIONS, ALL};
use ::chanoma::corr::{Corr, Correspondence, Item, Linear, Synthesized, Unification};
use ::chanoma::file::{to_csv_writer, to_serialized_corr};
use ::chanoma::table::{Origin, Table, TableBuilder};
use ::chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::Write;
use std::path::Path;
use std::sync::Mutex;

pub fn run(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C14" => c14(ctx),
        "C15" => c15(ctx),
        _ => c16(ctx),
    }
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    let de = |k: &str| case[k].clone();
    match case["kind"].as_str().unwrap() {
        "ops" => {
            let ops: Vec<TOp> = serde_json::from_value(de("ops")).unwrap();
            history(&ops, dir).map(|_| ())
        }
        "routes" => {
            let a: Vec<TOp> = serde_json::from_value(de("ops")).unwrap();
            let b: Vec<TOp> = serde_json::from_value(de("other")).unwrap();
            same_table(&a, &b, dir)
        }
        "csv" => csv_trip(&items_of(&serde_json::from_value(de("items")).unwrap()), dir).map(|_| ()),
        "yaml" => yaml_trip(&items_of(&serde_json::from_value(de("items")).unwrap()), dir).map(|_| ()),
        "sink" => {
            let t: Sink = serde_json::from_value(de("sink")).unwrap();
            sink_trip(&items_of(&serde_json::from_value(de("items")).unwrap()), &t, case["flush"].as_bool().unwrap()).map(|_| ())
        }
        "dump" => dump(&serde_json::from_value::<Vec<String>>(de("args")).unwrap(), case["stdout"].as_str().unwrap(), dir).map(|_| ()),
        k => panic!("unknown kind {k}"),
    }
}

pub type Set = BTreeSet<(String, String)>;
pub fn set_of(items: &[Item]) -> Set {
    items.iter().map(|i| (i.from.clone(), i.to.clone())).collect()
}
fn show_items(items: &[Item]) -> String {
    let v: Vec<String> = items.iter().take(12).map(|i| format!("{:?}>{:?}", i.from, i.to)).collect();
    format!("[{}]{}", v.join(" "), if items.len() > 12 { format!(" ({} entries)", items.len()) } else { String::new() })
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Rep {
    Table,
    Builder,
    Op,
    OpAssign,
    /// One entry at a time, as the constants of the predefined tables are declared.
    Linear,
    /// Entries with one target as one collection.
    Unif,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fmt {
    Csv,
    YamlMap,
    YamlList,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum TOp {
    /// A table given as it is (possibly with entries in any order, or twice).
    Raw(Pairs),
    /// A table loaded from a file.
    From(Fmt, Pairs),
    Add(Rep, Pairs),
    Remove(Rep, Pairs),
    Load(Fmt, Pairs),
    BadLoad(usize),
    /// 0 all, 1 digits, 2 punctuation, 3 letters, 4 kana, 5 squared characters
    AddSet(usize),
    RemoveSet(usize),
    /// Through Table::builder / TableBuilder::build.
    Rebuild,
    /// The table plus itself / minus itself.
    AddSelf,
    RemoveSelf,
    /// n entries numbered from k
    AddMany(usize, usize),
    RemoveMany(usize, usize),
    /// n entries of one structure (rel.rs)
    AddShape(usize, usize),
    RemoveShape(usize, usize),
}

fn stat(s: &str) -> &'static str {
    static I: Mutex<BTreeSet<&'static str>> = Mutex::new(BTreeSet::new());
    let mut g = I.lock().unwrap();
    if let Some(x) = g.get(s) {
        return x;
    }
    let x: &'static str = Box::leak(s.to_string().into_boxed_str());
    g.insert(x);
    x
}

fn document(fmt: Fmt, pairs: &Pairs) -> String {
    match fmt {
        Fmt::Csv => Part::Csv(pairs.clone()).document().unwrap().1,
        Fmt::YamlMap => Part::Yaml { steps: vec![], items: pairs.clone() }.document().unwrap().1,
        Fmt::YamlList => {
            let mut s = String::from("items:\n");
            for (a, b) in pairs {
                s.push_str(&format!("- from: {}\n  to: {}\n", yq(a), yq(b)));
            }
            if pairs.is_empty() {
                s = "items: []\n".into();
            }
            s
        }
    }
}

fn many(k: usize, n: usize) -> Pairs {
    (k..k + n).map(|i| (format!("f{i}"), format!("t{}", i % 7))).collect()
}

fn synth(p: &Pairs) -> Correspondence<Synthesized> {
    Correspondence::new(Synthesized::new(items_of(p)))
}

pub struct Real {
    pub table: Table,
    pub model: Set,
    /// every step so far was an addition to a table without entries
    added: bool,
}

/// Loads that must fail: the valid part of each must not get into the table.
const BAD: usize = 7;
fn bad_load(b: &mut TableBuilder, k: usize, dir: &Path) -> Result<(), String> {
    let f = |name: &str, data: &[u8]| {
        let p = dir.join(name);
        std::fs::write(&p, data).unwrap();
        p
    };
    let ok = match k {
        0 => b.add_from_csv(dir.join("missing.csv")).is_ok(),
        1 => b.add_from_yaml(dir.join("missing.yaml")).is_ok(),
        2 => b.add_from_csv(f("bad.csv", b"from,to\nq,Q\na,A\nr,\xff\ns,S\n")).is_ok(),
        3 => b.add_from_yaml(f("bad.yaml", b"items:\n  Q: q\n  A: [a, 1]\n")).is_ok(),
        4 => b.add_from_yaml(f("bad2.yaml", b"items:\n  Q: q\n  A: [a\n")).is_ok(),
        5 => b.add_from_yaml(f("bad3.yaml", b"items:\n- from: q\n  to: Q\n- from: r\n")).is_ok(),
        _ => b.add_from_csv(dir).is_ok(),
    };
    if ok {
        return Err(format!("failing load {k} reported success"));
    }
    Ok(())
}

fn apply<T: Corr>(t: &mut Table, rep: Rep, add: bool, c: &Correspondence<T>) {
    match (rep, add) {
        (Rep::Builder, true) => {
            let mut b = TableBuilder::from_table(t.clone());
            b.add_corr(c);
            *t = b.build();
        }
        (Rep::Builder, false) => {
            let mut b = TableBuilder::from_table(t.clone());
            b.remove_corr(c);
            *t = b.build();
        }
        (Rep::Op, true) => *t = Table::from_corr(t.corr() + c, Origin::New),
        (Rep::Op, false) => *t = Table::from_corr(t.corr() - c, Origin::New),
        (Rep::OpAssign, true) => {
            let mut x = t.corr();
            x += c;
            *t = Table::from_corr(x, Origin::New);
        }
        (Rep::OpAssign, false) => {
            let mut x = t.corr();
            x -= c;
            *t = Table::from_corr(x, Origin::New);
        }
        (_, true) => t.add(c),
        (_, false) => t.remove(c),
    }
}

fn set_corr(k: usize) -> Vec<Item> {
    match k {
        0 => ALL.items(),
        1 => DIGITS.items(),
        2 => PUNCTUATIONS.items(),
        3 => ALPHABETS.items(),
        4 => KANAS.items(),
        _ => CJK_COMPATIBILITIES.items(),
    }
}

fn apply_set(t: &mut Table, k: usize, add: bool) {
    macro_rules! go {
        ($c:expr) => {
            if add {
                t.add(&$c)
            } else {
                t.remove(&$c)
            }
        };
    }
    match k {
        0 if add => {
            let mut b = t.clone().builder();
            b.preset();
            *t = b.build();
        }
        0 => t.remove(&ALL),
        1 => go!(DIGITS),
        2 => go!(PUNCTUATIONS),
        3 => go!(ALPHABETS),
        4 => go!(KANAS),
        _ => go!(CJK_COMPATIBILITIES),
    }
}

impl Real {
    pub fn new() -> Real {
        Real { table: Table::new(), model: Set::new(), added: true }
    }
    /// Executes one operation on a copy, checks it against the model and that nothing else moved.
    pub fn step(&self, op: &TOp, dir: &Path) -> Result<Real, String> {
        let before = self.table.items();
        let mut t = self.table.clone();
        let mut model = self.model.clone();
        let mut added = self.added;
        let mut dedup = false;
        match op {
            TOp::Raw(p) => {
                t = Table::from_corr(synth(p), Origin::New);
                model = p.iter().cloned().collect();
                added = false;
            }
            TOp::From(fmt, p) => {
                let ext = if *fmt == Fmt::Csv { "csv" } else { "yaml" };
                let f = dir.join(format!("from.{ext}"));
                std::fs::write(&f, document(*fmt, p)).map_err(|e| e.to_string())?;
                let b = if *fmt == Fmt::Csv { TableBuilder::from_csv_path(&f) } else { TableBuilder::from_yaml_path(&f) };
                t = b.map_err(|e| format!("valid file rejected: {e}"))?.build();
                model = p.iter().cloned().collect();
                added = false;
            }
            TOp::Add(rep, p) | TOp::Remove(rep, p) => {
                let add = matches!(op, TOp::Add(..));
                match rep {
                    Rep::Linear => {
                        for (a, b) in p {
                            let c = Linear::new(stat(a), stat(b)).corr();
                            apply(&mut t, Rep::Table, add, &c);
                            if set_of(&c.items()) != [(a.clone(), b.clone())].into_iter().collect() {
                                return Err(format!("the operand ({a:?},{b:?}) holds {}", show_items(&c.items())));
                            }
                        }
                    }
                    Rep::Unif => {
                        let mut m: BTreeMap<&String, Vec<&'static str>> = BTreeMap::new();
                        for (a, b) in p {
                            m.entry(b).or_default().push(stat(a));
                        }
                        for (to, froms) in m {
                            let c = Unification::new(&froms, stat(to)).corr();
                            apply(&mut t, Rep::Table, add, &c);
                        }
                    }
                    _ => {
                        let c = synth(p);
                        let x = c.items();
                        apply(&mut t, *rep, add, &c);
                        if c.items() != x || x != items_of(p) {
                            return Err(format!("the operand {} became {}", show_items(&items_of(p)), show_items(&c.items())));
                        }
                    }
                }
                for e in p {
                    if add {
                        model.insert(e.clone());
                    } else {
                        model.remove(e);
                    }
                }
                dedup = add && (!p.is_empty() || matches!(rep, Rep::Table | Rep::Builder | Rep::Op | Rep::OpAssign));
            }
            TOp::Load(fmt, p) => {
                let ext = if *fmt == Fmt::Csv { "csv" } else { "yaml" };
                let f = dir.join(format!("load.{ext}"));
                std::fs::write(&f, document(*fmt, p)).map_err(|e| e.to_string())?;
                let mut b = TableBuilder::from_table(t);
                if *fmt == Fmt::Csv { b.add_from_csv(&f).map(|_| ()) } else { b.add_from_yaml(&f).map(|_| ()) }.map_err(|e| format!("valid file rejected: {e}"))?;
                t = b.build();
                model.extend(p.iter().cloned());
                dedup = true;
            }
            TOp::BadLoad(k) => {
                let mut b = TableBuilder::from_table(t);
                bad_load(&mut b, *k, dir)?;
                t = b.build();
                if t.items() != before {
                    return Err(format!("a failing load changed the table from {} to {}", show_items(&before), show_items(&t.items())));
                }
            }
            TOp::AddSet(k) => {
                model.extend(set_of(&set_corr(*k)));
                apply_set(&mut t, *k, true);
                dedup = true;
            }
            TOp::RemoveSet(k) => {
                for e in set_of(&set_corr(*k)) {
                    model.remove(&e);
                }
                apply_set(&mut t, *k, false);
            }
            TOp::Rebuild => t = t.builder().build(),
            TOp::AddSelf => {
                let c = t.corr();
                t.add(&c);
                dedup = true;
            }
            TOp::RemoveSelf => {
                let c = t.corr();
                t.remove(&c);
                model.clear();
            }
            TOp::AddMany(k, n) => {
                t.add(&synth(&many(*k, *n)));
                model.extend(many(*k, *n));
                dedup = true;
            }
            TOp::AddShape(k, n) => {
                let p = rel::shape(*k, *n);
                t.add(&synth(&p));
                model.extend(p);
                dedup = true;
            }
            TOp::RemoveShape(k, n) => {
                let p = rel::shape(*k, *n);
                t.remove(&synth(&p));
                for e in p {
                    model.remove(&e);
                }
            }
            TOp::RemoveMany(k, n) => {
                t.remove(&synth(&many(*k, *n)));
                for e in many(*k, *n) {
                    model.remove(&e);
                }
            }
        }
        let items = t.items();
        let got = set_of(&items);
        if got != model {
            let miss: Vec<_> = model.difference(&got).take(5).collect();
            let extra: Vec<_> = got.difference(&model).take(5).collect();
            return Err(format!("{}: missing {miss:?}, unexpected {extra:?}", show_op(op)));
        }
        if dedup && items.len() != model.len() {
            return Err(format!("{} leaves duplicates: {}", show_op(op), show_items(&items)));
        }
        if set_of(&t.corr().items()) != model {
            return Err(format!("after {} items() and corr() differ", show_op(op)));
        }
        if self.table.items() != before {
            return Err(format!("{} on a copy changed the original table", show_op(op)));
        }
        Ok(Real { table: t, model, added })
    }
}

fn show_op(op: &TOp) -> String {
    let s = format!("{op:?}");
    if s.chars().count() > 120 {
        s.chars().take(120).collect::<String>() + "..."
    } else {
        s
    }
}

fn history(ops: &[TOp], dir: &Path) -> Result<Real, String> {
    let mut r = Real::new();
    for (i, op) in ops.iter().enumerate() {
        r = r.step(op, dir).map_err(|e| format!("operation {i}: {e}"))?;
    }
    Ok(r)
}

fn same_table(a: &[TOp], b: &[TOp], dir: &Path) -> Result<(), String> {
    let (x, y) = (history(a, dir)?, history(b, dir)?);
    same(&x, &y)
}

fn same(x: &Real, y: &Real) -> Result<(), String> {
    if x.model == y.model && x.added && y.added && x.table.corr() != y.table.corr() {
        return Err(format!("two routes from an empty table to the same entries give different tables: {} and {}", show_items(&x.table.items()), show_items(&y.table.items())));
    }
    Ok(())
}

fn pairs(v: &[(&str, &str)]) -> Pairs {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn c14(ctx: &Ctx) {
    let mut uni = pairs(&[("a", "A"), ("a", "B"), ("b", "A"), ("A", "a"), ("aA", "")]);
    if ctx.thorough {
        uni.extend(pairs(&[("", "aA"), ("\u{e9}", "e")]));
    }
    let subs: Vec<Pairs> = (0..1usize << uni.len()).map(|m| (0..uni.len()).filter(|i| m >> i & 1 == 1).map(|i| uni[i].clone()).collect()).collect();
    let reps = [Rep::Table, Rep::Builder, Rep::Op, Rep::OpAssign, Rep::Linear, Rep::Unif];
    let mut ops: Vec<TOp> = Vec::new();
    for s in &subs {
        for r in reps {
            ops.push(TOp::Add(r, s.clone()));
            ops.push(TOp::Remove(r, s.clone()));
        }
        for f in [Fmt::Csv, Fmt::YamlMap, Fmt::YamlList] {
            ops.push(TOp::Load(f, s.clone()));
        }
    }
    ops.extend((0..BAD).map(TOp::BadLoad));
    ops.extend([TOp::Rebuild, TOp::AddSelf, TOp::RemoveSelf]);
    // Breadth-first search over the tables reached, a table being its entries in order.
    let mut starts: Vec<TOp> = vec![TOp::Rebuild];
    for s in &subs {
        let mut rev = s.clone();
        rev.reverse();
        for f in [Fmt::Csv, Fmt::YamlMap, Fmt::YamlList] {
            starts.push(TOp::From(f, rev.clone()));
        }
        starts.push(TOp::Raw(rev.clone()));
        if s.len() <= 2 {
            starts.push(TOp::Raw([rev.clone(), rev].concat()));
        }
    }
    type Key = (Vec<Item>, bool);
    let seen: Mutex<BTreeMap<Key, Vec<TOp>>> = Mutex::new(BTreeMap::new());
    let canon: Mutex<BTreeMap<Set, (Vec<Item>, Vec<TOp>)>> = Mutex::new(BTreeMap::new());
    let mut frontier: Vec<Vec<TOp>> = Vec::new();
    let visit = |path: &dyn Fn() -> Vec<TOp>, r: &Real, out: &Mutex<Vec<Vec<TOp>>>| -> Result<bool, String> {
        let k = (r.table.items(), r.added);
        if r.added {
            let mut c = canon.lock().unwrap();
            match c.get(&r.model) {
                Some((v, _)) if *v != k.0 => return Err(format!("two routes from an empty table to the same entries give different tables: {} and {}", show_items(v), show_items(&k.0))),
                Some(_) => {}
                None => {
                    c.insert(r.model.clone(), (k.0.clone(), path()));
                }
            }
        }
        let mut s = seen.lock().unwrap();
        if s.contains_key(&k) {
            return Ok(false);
        }
        let p = path();
        s.insert(k, p.clone());
        out.lock().unwrap().push(p);
        Ok(true)
    };
    let case = |p: Vec<TOp>| {
        // a disagreement between two routes is replayed with the route found first
        let c = canon.lock().unwrap();
        let mut m = Set::new();
        let mut add = true;
        for o in &p {
            match o {
                TOp::Add(_, v) | TOp::Load(_, v) => m.extend(v.iter().cloned()),
                TOp::Remove(_, v) => m.retain(|e| !v.contains(e)),
                TOp::RemoveSelf => m.clear(),
                TOp::Rebuild | TOp::BadLoad(_) | TOp::AddSelf => {}
                _ => add = false,
            }
        }
        match c.get(&m) {
            Some((_, other)) if add => json!({"prop": "C14", "kind": "routes", "ops": p, "other": other}),
            _ => json!({"prop": "C14", "kind": "ops", "ops": p}),
        }
    };
    let out = Mutex::new(Vec::new());
    ctx.explore(
        "initial tables: empty, given entry lists, loaded files",
        starts.len() as u64,
        |i| case(vec![starts[i as usize].clone()]),
        |w, i| {
            let o = &starts[i as usize];
            let r = Real::new().step(o, &w.dir)?;
            visit(&|| vec![o.clone()], &r, &out)
        },
    );
    frontier.append(&mut out.into_inner().unwrap());
    let mut transitions = 0u64;
    let mut level = 1;
    while !frontier.is_empty() && !ctx.failed() {
        frontier.sort_by_key(|p| serde_json::to_string(p).unwrap());
        let reals: Vec<Real> = {
            let d = ctx.scratch.join("bfs");
            std::fs::create_dir_all(&d).unwrap();
            frontier.iter().map(|p| history(p, &d).expect("replayed path")).collect()
        };
        let n = (frontier.len() * ops.len()) as u64;
        let out = Mutex::new(Vec::new());
        ctx.explore(
            &format!("level {level}: {} new tables x {} operations", frontier.len(), ops.len()),
            n,
            |i| case([frontier[i as usize / ops.len()].clone(), vec![ops[i as usize % ops.len()].clone()]].concat()),
            |w, i| {
                let (f, o) = (i as usize / ops.len(), &ops[i as usize % ops.len()]);
                let r = reals[f].step(o, &w.dir)?;
                visit(&|| [frontier[f].clone(), vec![o.clone()]].concat(), &r, &out)?;
                Ok(r.model != reals[f].model)
            },
        );
        transitions += n;
        frontier = out.into_inner().unwrap();
        level += 1;
    }
    ctx.count("states", seen.lock().unwrap().len() as u64);
    ctx.count("transitions", transitions);
    ctx.count("traces_validated_against_impl", transitions + starts.len() as u64);
    // sequences of operations on one builder, without merging states
    let few = pairs(&[("a", "A"), ("a", "B"), ("b", "A")]);
    let mut small: Vec<TOp> = Vec::new();
    for s in [vec![few[0].clone()], vec![few[1].clone(), few[2].clone()], vec![few[2].clone(), few[0].clone(), few[0].clone()]] {
        for r in [Rep::Table, Rep::Op, Rep::Linear] {
            small.push(TOp::Add(r, s.clone()));
            small.push(TOp::Remove(r, s.clone()));
        }
        small.push(TOp::Load(Fmt::Csv, s.clone()));
    }
    small.extend([TOp::Load(Fmt::YamlMap, vec![few[1].clone()]), TOp::BadLoad(2), TOp::BadLoad(3), TOp::AddSelf, TOp::RemoveSelf, TOp::AddSet(1), TOp::RemoveSet(1)]);
    let k = small.len() as u64;
    for d in 2..=ctx.pick(4u32, 5) {
        let mk = |i: u64| mixed(i, &vec![k; d as usize]).into_iter().map(|x| small[x as usize].clone()).collect::<Vec<_>>();
        ctx.explore(
            &format!("all sequences of {d} of {k} operations on one table"),
            k.pow(d),
            |i| json!({"prop": "C14", "kind": "ops", "ops": mk(i)}),
            |w, i| Ok(!history(&mk(i), &w.dir)?.model.is_empty()),
        );
    }
    // one builder kept alive through a sequence, failing loads in between
    ctx.explore(
        "one live builder through all sequences of 4 successful and failing calls",
        8u64.pow(4),
        |i| json!({"prop": "C14", "kind": "ops", "ops": live_ops(i)}),
        |w, i| live(i, &w.dir).map(|_| true),
    );
    // predefined sets
    let mut pre: Vec<TOp> = (0..6).map(TOp::AddSet).collect();
    pre.extend((0..6).map(TOp::RemoveSet));
    let kp = pre.len() as u64;
    let d = ctx.pick(2u32, 3);
    let mk = |i: u64| mixed(i, &vec![kp; d as usize]).into_iter().map(|x| pre[x as usize].clone()).collect::<Vec<_>>();
    ctx.explore(
        &format!("all sequences of {d} additions and removals of predefined sets"),
        kp.pow(d),
        |i| json!({"prop": "C14", "kind": "ops", "ops": mk(i)}),
        |w, i| Ok(!history(&mk(i), &w.dir)?.model.is_empty()),
    );
    // large tables
    let mut ns: Vec<usize> = (0..=40).collect();
    ns.extend([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 2000]);
    if ctx.thorough {
        ns.extend([4095, 4096, 4097, 10_000, 20_000]);
    }
    let mk = |i: u64| {
        let m = mixed(i, &[ns.len() as u64, 3]);
        let n = ns[m[0] as usize];
        match m[1] {
            0 => vec![TOp::AddMany(0, n), TOp::AddMany(n / 2, n), TOp::RemoveMany(n / 3, n / 2), TOp::AddSelf],
            1 => vec![TOp::AddMany(0, n), TOp::Remove(Rep::Table, many(n / 2, 1)), TOp::Add(Rep::Op, many(n / 2, 1)), TOp::Load(Fmt::Csv, many(n / 2, n.min(300)))],
            _ => vec![TOp::AddMany(0, 3), TOp::RemoveMany(1, n), TOp::AddMany(0, n), TOp::Load(Fmt::YamlMap, many(n, n.min(300))), TOp::RemoveMany(0, 2 * n)],
        }
    };
    ctx.explore(
        "large tables",
        ns.len() as u64 * 3,
        |i| json!({"prop": "C14", "kind": "ops", "ops": mk(i)}),
        |w, i| history(&mk(i), &w.dir).map(|_| true),
    );
    // the same entries by additions alone and by additions and removals
    let rs: Vec<usize> = ns.iter().copied().filter(|n| *n > 0 && *n <= ctx.pick(300, 2000)).collect();
    let mk = |i: u64| {
        let m = mixed(i, &[rs.len() as u64, 5, 3]);
        let n = rs[m[0] as usize];
        let (k, d) = [(0, 1), (n / 2, 1), (n / 3, n / 3), (n - 1, 1), (0, n / 2)][m[1] as usize];
        let rest = vec![TOp::AddMany(k + d, n - k - d), TOp::AddMany(0, k)];
        let a = match m[2] {
            0 => vec![TOp::AddMany(0, n), TOp::RemoveMany(k, d)],
            1 => vec![TOp::RemoveMany(k, d), TOp::AddMany(0, n), TOp::AddShape(m[1] as usize, n), TOp::RemoveMany(k, d), TOp::RemoveShape(m[1] as usize, n)],
            _ => [vec![TOp::AddMany(n, n), TOp::AddMany(0, n)], (k..k + d.min(40)).map(|j| TOp::RemoveMany(j, 1)).collect(), vec![TOp::RemoveMany(k, d), TOp::RemoveMany(n, n)]].concat(),
        };
        (a, rest)
    };
    ctx.explore(
        "large tables of the same entries, reached with and without removals",
        rs.len() as u64 * 15,
        |i| json!({"prop": "C14", "kind": "routes", "ops": mk(i).0, "other": mk(i).1}),
        |w, i| {
            let (a, b) = mk(i);
            let (x, y) = (history(&a, &w.dir)?, history(&b, &w.dir)?);
            if x.model != y.model {
                return Ok(false);
            }
            same(&x, &y).map(|_| true)
        },
    );
    // large tables of every structure
    if !ctx.thorough {
        ns.retain(|n| n % 4 == 1 || *n > 60);
        ns.push(5000);
    }
    let kinds = rel::SHAPES as u64;
    let mk = |i: u64| {
        let m = mixed(i, &[ns.len() as u64, kinds, 3]);
        let (n, k) = (ns[m[0] as usize], m[1] as usize);
        let part = |n: usize| rel::shape(k, n);
        match m[2] {
            0 => vec![TOp::AddShape(k, n), TOp::AddShape(k, n / 2), TOp::RemoveShape(k, n / 3), TOp::Add(Rep::Op, pairs(&[("new", "new")])), TOp::AddSelf, TOp::Rebuild],
            1 => vec![TOp::Add(Rep::Table, pairs(&[("new", "new"), ("f1", "new")])), TOp::AddShape(k, n), TOp::Remove(Rep::OpAssign, part(n / 2)), TOp::Load(Fmt::Csv, part(n)), TOp::RemoveSelf],
            _ => vec![TOp::From(Fmt::YamlList, part(n)), TOp::AddShape((k + 1) % rel::SHAPES, n), TOp::Load(Fmt::YamlMap, part(n / 2)), TOp::RemoveShape(k, n)],
        }
    };
    ctx.explore(
        &format!("large tables of {kinds} structures (one source, one target, two targets per source, identities, swaps, common beginnings, chains, numbers, case), 3 histories"),
        ns.len() as u64 * kinds * 3,
        |i| json!({"prop": "C14", "kind": "ops", "ops": mk(i)}),
        |w, i| history(&mk(i), &w.dir).map(|_| true),
    );
    // entries easily taken for one another
    let rt = rel::tables();
    let mk = |i: u64| {
        let m = mixed(i, &[rt.len() as u64, 5]);
        let t = &rt[m[0] as usize];
        let (first, rest) = (vec![t[0].clone()], t[1..].to_vec());
        match m[1] {
            0 => vec![TOp::Add(Rep::Table, t.clone()), TOp::Remove(Rep::Table, first.clone()), TOp::Add(Rep::Op, first)],
            1 => vec![TOp::Add(Rep::Linear, first.clone()), TOp::Load(Fmt::Csv, rest.clone()), TOp::Remove(Rep::Op, rest), TOp::Load(Fmt::YamlMap, t.clone())],
            2 => vec![TOp::From(Fmt::YamlList, t.clone()), TOp::AddSelf, TOp::Remove(Rep::OpAssign, first)],
            3 => vec![TOp::Add(Rep::Unif, t.clone()), TOp::Add(Rep::OpAssign, rest.clone()), TOp::Remove(Rep::Unif, rest), TOp::RemoveSelf],
            _ => vec![TOp::Raw(t.clone()), TOp::Remove(Rep::Builder, rest), TOp::Add(Rep::Builder, t.clone()), TOp::Rebuild],
        }
    };
    ctx.explore(
        &format!("{} tables of entries that some folding, trimming or truncation would make equal, 5 histories", rt.len()),
        rt.len() as u64 * 5,
        |i| json!({"prop": "C14", "kind": "ops", "ops": mk(i)}),
        |w, i| history(&mk(i), &w.dir).map(|_| true),
    );
    crate::p_fault::failing(ctx);
}

fn live_ops(i: u64) -> Vec<TOp> {
    mixed(i, &[8; 4])
        .into_iter()
        .map(|x| match x {
            0 => TOp::Add(Rep::Builder, pairs(&[("a", "A")])),
            1 => TOp::Remove(Rep::Builder, pairs(&[("a", "A")])),
            2 => TOp::Load(Fmt::Csv, pairs(&[("b", "B"), ("a", "A")])),
            3 => TOp::Load(Fmt::YamlMap, pairs(&[("c", "B"), ("a", "A")])),
            4 => TOp::BadLoad(2),
            5 => TOp::BadLoad(3),
            6 => TOp::BadLoad(5),
            _ => TOp::BadLoad(0),
        })
        .collect()
}

fn live(i: u64, dir: &Path) -> Result<(), String> {
    let mut b = TableBuilder::new();
    let mut m = Set::new();
    for op in live_ops(i) {
        match &op {
            TOp::Add(_, p) => {
                b.add_corr(&synth(p));
                m.extend(p.iter().cloned());
            }
            TOp::Remove(_, p) => {
                b.remove_corr(&synth(p));
                for e in p {
                    m.remove(e);
                }
            }
            TOp::Load(f, p) => {
                let path = dir.join(if *f == Fmt::Csv { "live.csv" } else { "live.yaml" });
                std::fs::write(&path, document(*f, p)).map_err(|e| e.to_string())?;
                if *f == Fmt::Csv { b.add_from_csv(&path).map(|_| ()) } else { b.add_from_yaml(&path).map(|_| ()) }.map_err(|e| format!("valid file rejected: {e}"))?;
                m.extend(p.iter().cloned());
            }
            TOp::BadLoad(k) => bad_load(&mut b, *k, dir)?,
            _ => {}
        }
    }
    let t = b.build();
    if set_of(&t.items()) != m {
        return Err(format!("one builder through {:?} holds {}", live_ops(i), show_items(&t.items())));
    }
    Ok(())
}

// ---------------------------------------------------------------- C15

fn csv_bytes(items: &[Item]) -> Result<Vec<u8>, String> {
    let c = Correspondence::new(Synthesized::new(items.to_vec()));
    to_csv_writer(&c, Vec::new()).into_inner().map_err(|e| format!("export failed: {e}"))
}

fn csv_trip(items: &[Item], dir: &Path) -> Result<bool, String> {
    let data = csv_bytes(items)?;
    let mut doc = b"from,to\n".to_vec();
    doc.extend(&data);
    let f = dir.join("trip.csv");
    std::fs::write(&f, &doc).map_err(|e| e.to_string())?;
    let t = TableBuilder::from_csv_path(&f).map_err(|e| format!("the export does not load: {e}: {:?}", String::from_utf8_lossy(&doc)))?.build();
    compare(items, &t.items(), &doc)
}

fn compare(items: &[Item], got: &[Item], doc: &[u8]) -> Result<bool, String> {
    let (want, got) = (set_of(items), set_of(got));
    if want != got {
        let miss: Vec<_> = want.difference(&got).take(4).collect();
        let extra: Vec<_> = got.difference(&want).take(4).collect();
        let d = String::from_utf8_lossy(doc);
        return Err(format!("after export and load: missing {miss:?}, unexpected {extra:?}; the file starts {:?}", d.chars().take(200).collect::<String>()));
    }
    Ok(!want.is_empty())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Dev {
    Short(usize),
    Interrupted,
    Error,
    Zero,
}

/// A sink that accepts everything except at the calls listed.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sink {
    pub devs: Vec<(usize, Dev)>,
    /// deviation of the flush calls
    pub flush_fails: bool,
}

struct SinkW<'a> {
    script: &'a Sink,
    call: usize,
    log: &'a std::cell::RefCell<(Vec<u8>, usize)>,
}

impl Write for SinkW<'_> {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        let n = self.call;
        self.call += 1;
        let mut l = self.log.borrow_mut();
        l.1 += 1;
        let take = match self.script.devs.iter().find(|(c, _)| *c == n).map(|(_, d)| d) {
            None => buf.len(),
            Some(Dev::Short(k)) => buf.len().min(if *k == 0 { buf.len() / 2 + 1 } else { *k }),
            Some(Dev::Interrupted) => return Err(std::io::Error::from(std::io::ErrorKind::Interrupted)),
            Some(Dev::Error) => return Err(std::io::Error::other("sink failed")),
            Some(Dev::Zero) => 0,
        };
        l.0.extend(&buf[..take]);
        Ok(take)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        if self.script.flush_fails {
            return Err(std::io::Error::other("flush failed"));
        }
        Ok(())
    }
}

/// The export reports success only if the sink got everything. Returns the number of write calls.
fn sink_trip(items: &[Item], script: &Sink, flush: bool) -> Result<(usize, bool), String> {
    let want = csv_bytes(items)?;
    let c = Correspondence::new(Synthesized::new(items.to_vec()));
    let log = std::cell::RefCell::new((Vec::new(), 0));
    let ok = guard(|| {
        let mut w = to_csv_writer(&c, SinkW { script, call: 0, log: &log });
        if flush {
            w.flush().is_ok()
        } else {
            w.into_inner().is_ok()
        }
    });
    let ok = ok == Ok(true);
    let l = log.into_inner();
    if ok && l.0 != want {
        return Err(format!("reported success but the sink has {} of {} bytes (or other bytes)", l.0.len(), want.len()));
    }
    let lost = script.flush_fails || script.devs.iter().any(|(c, d)| *c < l.1 && matches!(d, Dev::Error));
    if ok && lost {
        return Err("reported success although the sink failed".into());
    }
    Ok((l.1, ok))
}

fn big(n: usize) -> Vec<Item> {
    (0..n).map(|i| Item::new(format!("長い{i:05},\"x\""), format!("t{}", i % 9))).collect()
}

pub fn target_exe(name: &str) -> std::path::PathBuf {
    std::env::current_exe().unwrap().parent().unwrap().join(name)
}

/// The dump tool, its output used as a configuration as it is.
fn dump(args: &[String], stdout: &str, dir: &Path) -> Result<bool, String> {
    let out = dir.join("dump.out");
    let mut c = std::process::Command::new(target_exe("repo-output"));
    c.args(args).current_dir(dir).stderr(std::process::Stdio::null());
    match stdout {
        "file" => {
            c.stdout(std::fs::File::create(&out).map_err(|e| e.to_string())?);
        }
        "full" => {
            c.stdout(std::fs::OpenOptions::new().write(true).open("/dev/full").map_err(|e| e.to_string())?);
        }
        "closed" => {
            // a pipe nobody reads any more
            use std::os::unix::io::FromRawFd;
            let mut p = [0i32; 2];
            unsafe {
                libc::pipe2(p.as_mut_ptr(), libc::O_CLOEXEC);
                libc::close(p[0]);
                c.stdout(std::process::Stdio::from_raw_fd(p[1]));
            }
        }
        _ => {
            c.stdout(std::process::Stdio::piped());
        }
    }
    let mut child = c.spawn().map_err(|e| e.to_string())?;
    if stdout == "pipe" {
        // a slow reader
        use std::io::Read;
        let mut p = child.stdout.take().unwrap();
        let mut v = Vec::new();
        let mut b = [0u8; 1000];
        loop {
            let n = p.read(&mut b).map_err(|e| e.to_string())?;
            if n == 0 {
                break;
            }
            v.extend(&b[..n]);
        }
        std::fs::write(&out, v).map_err(|e| e.to_string())?;
    }
    let st = child.wait().map_err(|e| e.to_string())?;
    if stdout == "full" || stdout == "closed" {
        if st.success() {
            return Err("the dump exits successfully although its output could not be written".into());
        }
        return Ok(true);
    }
    if !st.success() {
        return Err(format!("the dump ends with {st}"));
    }
    let yaml = args.iter().any(|a| a.contains("yaml"));
    let f = dir.join(if yaml { "dump.yaml" } else { "dump.csv" });
    std::fs::rename(&out, &f).map_err(|e| e.to_string())?;
    let doc = std::fs::read(&f).map_err(|e| e.to_string())?;
    let mut b = TableBuilder::new();
    b.preset();
    let want = b.build().items();
    let t = if yaml { TableBuilder::from_yaml_path(&f) } else { TableBuilder::from_csv_path(&f) }.map_err(|e| format!("the dump does not load: {e}"))?.build();
    compare(&want, &t.items(), &doc)?;
    // and as a configuration
    let c = Chanoma::from_config_file(&f).map_err(|e| format!("the dump does not load as configuration: {e}"))?;
    let p = Chanoma::preset();
    for i in 0..0x10000u64 - 0x800 {
        let s = scalar(i).to_string();
        let (x, y) = (c.normalize(&s), p.normalize(&s));
        if x != y {
            return Err(format!("{s:?} becomes {x:?} with the dumped configuration, {y:?} with the preset"));
        }
    }
    Ok(true)
}

fn all_tables<F>(ctx: &Ctx, kind: &str, name: &str, strs: &[String], per: usize, f: F)
where
    F: Fn(&[Item], &Path) -> Result<bool, String> + Sync,
{
    // sets of `per` distinct entries over strs x strs
    let e = (strs.len() * strs.len()) as u64;
    let get = |i: u64| -> Option<Pairs> {
        let m = mixed(i, &vec![e; per]);
        if !m.windows(2).all(|w| w[0] < w[1]) {
            return None;
        }
        Some(
            m.iter()
                .map(|x| {
                    let y = mixed(*x, &[strs.len() as u64, strs.len() as u64]);
                    (strs[y[0] as usize].clone(), strs[y[1] as usize].clone())
                })
                .collect(),
        )
    };
    ctx.explore(
        &format!("{name}: all tables of {per} entries over {} strings (unordered; other index tuples are skipped)", strs.len()),
        e.pow(per as u32),
        |i| json!({"prop": ctx.prop, "kind": kind, "items": get(i)}),
        |w, i| match get(i) {
            Some(p) => f(&items_of(&p), &w.dir),
            None => Ok(false),
        },
    );
}

fn scalar_tables<F>(ctx: &Ctx, kind: &str, f: F)
where
    F: Fn(&[Item], &Path) -> Result<bool, String> + Sync,
{
    let per = 128u64;
    let n = SCALARS.div_ceil(per);
    let get = |i: u64| -> Pairs {
        let m = mixed(i, &[n, 4]);
        let cs: Vec<String> = (m[0] * per..((m[0] + 1) * per).min(SCALARS)).map(|k| scalar(k).to_string()).collect();
        match m[1] {
            0 => cs.iter().map(|c| (c.clone(), format!("t{}", c.chars().next().unwrap() as u32 % 5))).collect(),
            1 => cs.iter().map(|c| ("x".to_string(), c.clone())).collect(),
            2 => cs.iter().map(|c| (format!("a{c}"), format!("{c}{c}"))).collect(),
            _ => cs.iter().map(|c| (format!("{c}a"), format!("b{c}a"))).collect(),
        }
    };
    let k = if ctx.thorough { 4 } else { 2 };
    ctx.explore(
        &format!("every Unicode scalar value as source and target, {per} per table, {k} placements"),
        n * k,
        |i| json!({"prop": ctx.prop, "kind": kind, "items": get(i / k * 4 + i % k + (4 - k) * u64::from(i % k > 0))}),
        |w, i| f(&items_of(&get(i / k * 4 + i % k + (4 - k) * u64::from(i % k > 0))), &w.dir),
    );
}

/// Tables with a structure: many entries, and entries easily taken for one another.
fn structures<F>(ctx: &Ctx, kind: &str, f: F)
where
    F: Fn(&[Item], &Path) -> Result<bool, String> + Sync,
{
    let kinds = rel::SHAPES as u64;
    let ns: Vec<usize> = ctx.pick(vec![1, 2, 3, 4, 5, 8, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1024, 1025, 3000], (1..=300).chain([511, 512, 513, 1000, 1023, 1024, 1025, 4096, 10_000, 20_000]).collect());
    let get = |i: u64| {
        let m = mixed(i, &[ns.len() as u64, kinds]);
        rel::shape(m[1] as usize, ns[m[0] as usize])
    };
    ctx.explore(
        &format!("{} sizes of tables of {kinds} structures", ns.len()),
        ns.len() as u64 * kinds,
        |i| json!({"prop": ctx.prop, "kind": kind, "items": get(i)}),
        |w, i| f(&items_of(&get(i)), &w.dir),
    );
    let rt = rel::tables();
    ctx.explore(
        &format!("{} tables of entries that some folding, trimming or truncation would make equal", rt.len()),
        rt.len() as u64,
        |i| json!({"prop": ctx.prop, "kind": kind, "items": rt[i as usize]}),
        |w, i| f(&items_of(&rt[i as usize]), &w.dir),
    );
    // every character beside the characters close to it
    let per = 32u64;
    let n = SCALARS.div_ceil(per);
    let get = |i: u64| -> Pairs {
        let m = mixed(i, &[n, 2]);
        (m[0] * per..((m[0] + 1) * per).min(SCALARS))
            .map(scalar)
            .flat_map(|c| {
                let to = format!("t{}", c as u32);
                let src = m[1] == 0;
                let of = move |v: char| if src { (v.to_string(), to.clone()) } else { (to.clone(), format!("x{v}")) };
                rel::variants(c).into_iter().chain([c]).map(of).collect::<Vec<_>>()
            })
            .collect()
    };
    let step = ctx.pick(2, 1);
    ctx.explore(
        &format!("tables of characters beside those that share bits or a folding with them, {per} characters per table, every {step}th table"),
        n.div_ceil(step) * 2,
        |i| json!({"prop": ctx.prop, "kind": kind, "items": get(i / 2 * step * 2 + i % 2)}),
        |w, i| f(&items_of(&get(i / 2 * step * 2 + i % 2)), &w.dir),
    );
}

fn strings_over(t: &[&str], max: u32) -> Vec<String> {
    let t: Vec<String> = t.iter().map(|s| s.to_string()).collect();
    (0..=max).flat_map(|l| (0..(t.len() as u64).pow(l)).map(|i| nth_string(&t, l, i)).collect::<Vec<_>>()).collect()
}

fn c15(ctx: &Ctx) {
    let hostile = ["a", ",", "\"", "\n", "\r", " ", "あ", "\t", ";", "#", "'", "\\", "\u{feff}", "\0", "=", "\u{2028}"];
    all_tables(ctx, "csv", "CSV", &strings_over(&hostile, if ctx.thorough { 2 } else { 1 }), 1, csv_trip);
    all_tables(ctx, "csv", "CSV", &strings_over(&["a", ",", "\"", "\n", "\r", " "], 2), 1, csv_trip);
    all_tables(ctx, "csv", "CSV", &strings_over(&["\"", "\n", "\r", ","], ctx.pick(3, 4)), 1, csv_trip);
    all_tables(ctx, "csv", "CSV", &strings_over(&hostile[..ctx.pick(8, 12)], 1), 2, csv_trip);
    all_tables(ctx, "csv", "CSV", &strings_over(&["a", "\"", "\n"], 2)[..ctx.pick(7, 10)], 2, csv_trip);
    all_tables(ctx, "csv", "CSV", &strings_over(&["a", ",", "\n", "\r"], 1)[..ctx.pick(4, 5)], 3, csv_trip);
    scalar_tables(ctx, "csv", csv_trip);
    let ns: Vec<usize> = ctx.pick((0..=64).chain([100, 255, 256, 257, 1000, 5000]).collect(), (0..=600).chain([1000, 5000, 20_000, 70_000]).collect());
    ctx.explore(
        "tables of n entries",
        ns.len() as u64,
        |i| json!({"prop": "C15", "kind": "csv", "items": big(ns[i as usize]).iter().map(|x| (x.from.clone(), x.to.clone())).collect::<Vec<_>>()}),
        |w, i| csv_trip(&big(ns[i as usize]), &w.dir),
    );
    structures(ctx, "csv", csv_trip);
    for k in 0..6 {
        let it = set_corr(k);
        ctx.explore(
            &format!("predefined set {k}"),
            1,
            |_| json!({"prop": "C15", "kind": "csv", "items": it.iter().map(|x| (x.from.clone(), x.to.clone())).collect::<Vec<_>>()}),
            |w, _| csv_trip(&it, &w.dir),
        );
    }
    // faults of the sink
    let devs = [Dev::Short(1), Dev::Short(0), Dev::Short(7), Dev::Interrupted, Dev::Error, Dev::Zero];
    for n in [0usize, 1, 3, 300, 700, 1500] {
        let items = big(n);
        let calls = match sink_trip(&items, &Sink { devs: vec![], flush_fails: false }, false) {
            Ok((c, true)) => c,
            Ok((_, false)) => {
                ctx.fail(json!({"prop": "C15", "kind": "sink", "items": pairs_of(&items), "sink": Sink { devs: vec![], flush_fails: false }, "flush": false}), "the export fails on a sink that accepts everything".into());
                return;
            }
            Err(e) => {
                ctx.fail(json!({"prop": "C15", "kind": "sink", "items": pairs_of(&items), "sink": Sink { devs: vec![], flush_fails: false }, "flush": false}), e);
                return;
            }
        };
        // up to two deviations, at any calls (a short write adds calls)
        let k = calls as u64 + 3;
        let per = k * devs.len() as u64 + 1;
        let r = [per, per, 2, 2];
        let get = |i: u64| {
            let m = mixed(i, &r);
            let d = |x: u64| if x == 0 { None } else { Some((((x - 1) / devs.len() as u64) as usize, devs[((x - 1) % devs.len() as u64) as usize].clone())) };
            let (a, b) = (d(m[0]), d(m[1]));
            if let (Some(a), Some(b)) = (&a, &b) {
                if a.0 >= b.0 {
                    return None;
                }
            }
            if a.is_some() && b.is_none() {
                return None;
            }
            Some((Sink { devs: a.into_iter().chain(b).collect(), flush_fails: m[2] == 1 }, m[3] == 1))
        };
        ctx.explore(
            &format!("sink faults: export of {n} entries ({calls} writes), every placement of at most 2 short, interrupted, failing or empty writes, failing flush, both ways to finish"),
            r.iter().product(),
            |i| {
                let (s, f) = get(i).unwrap_or((Sink { devs: vec![], flush_fails: false }, false));
                json!({"prop": "C15", "kind": "sink", "items": pairs_of(&items), "sink": s, "flush": f})
            },
            |w, i| match get(i) {
                Some((s, f)) => {
                    let (c, ok) = sink_trip(&items, &s, f)?;
                    w.extra += 1;
                    Ok(!ok || s.devs.iter().any(|(k, _)| *k < c))
                }
                None => Ok(false),
            },
        );
    }
    let dumps: Vec<(Vec<&str>, &str)> = vec![(vec![], "file"), (vec!["-f", "csv"], "file"), (vec!["--format", "csv"], "file"), (vec!["-f", "csv"], "pipe"), (vec!["-f", "csv"], "full"), (vec![], "full"), (vec!["-f", "csv"], "closed")];
    ctx.explore(
        "the dump tool: ways to ask for CSV, sinks",
        dumps.len() as u64,
        |i| json!({"prop": "C15", "kind": "dump", "args": dumps[i as usize].0, "stdout": dumps[i as usize].1}),
        |w, i| dump(&dumps[i as usize].0.iter().map(|s| s.to_string()).collect::<Vec<_>>(), dumps[i as usize].1, &w.dir),
    );
    ctx.assume("a panic of the exporter on a failing sink counts as reporting the failure");
}

fn pairs_of(items: &[Item]) -> Pairs {
    items.iter().map(|i| (i.from.clone(), i.to.clone())).collect()
}

// ---------------------------------------------------------------- C16

fn yaml_trip(items: &[Item], dir: &Path) -> Result<bool, String> {
    let c = Correspondence::new(Synthesized::new(items.to_vec()));
    let doc = serde_yaml::to_string(&to_serialized_corr(&c)).map_err(|e| format!("export failed: {e}"))?;
    let f = dir.join("trip.yaml");
    std::fs::write(&f, &doc).map_err(|e| e.to_string())?;
    let t = TableBuilder::from_yaml_path(&f).map_err(|e| format!("the export does not load: {e}: {:?}", doc.chars().take(300).collect::<String>()))?.build();
    compare(items, &t.items(), doc.as_bytes())
}

pub fn yaml_words() -> Vec<String> {
    [
        "", "a", "true", "True", "TRUE", "false", "yes", "no", "on", "off", "y", "n", "null", "Null", "NULL", "~", "1", "01", "-1", "+1", "0b", "0o8", "+0x1f", "0x", "1.0", "1.", ".5", "1e3", "0x1F", "0o17", "0b1", "1_000", ".inf", "-.inf", ".nan", "NaN", "2001-01-01", "12:30", "<<", "=", "-", "--", "---", "...", "- a",
        "a: b", "a:", ": a", ":", "?", "? a", "a #b", "#", "# c", "'", "''", "\"", "\"a\"", "[", "]", "[a]", "{", "}", "{a: b}", ",", "a,b", "&a", "*a", "!t", "!!str a", "|", ">", "|-\n", "%", "%YAML 1.2", "@", "`", " ", " a", "a ", "  ", "\n", "a\nb", "\na", "a\n", "\n\n", "\t", "\ta", "a\t", "\r", "\r\n", "a\rb",
        "\u{85}", "\u{2028}", "\u{2029}", "\u{feff}", "\u{feff}a", "\u{a0}", "\0", "\u{7}", "\u{8}", "\u{b}", "\u{c}", "\u{1b}", "\u{7f}", "\u{80}", "\u{9f}", "\\", "\\n", "\\u0041", "あ", "゛", "😀", "\u{fffe}", "\u{ffff}", "\u{e000}", "\u{10ffff}", "items", "from", "to",
    ]
    .iter()
    .map(|s| s.to_string())
    .collect()
}

/// Strings serde_yaml writes without quotes although it reads them as numbers (a known finding).
fn radix_number(s: &str) -> bool {
    let t = s.strip_prefix(['+', '-']).unwrap_or(s);
    let radix = match t.get(..2) {
        Some("0b") => 2,
        Some("0o") => 8,
        Some("0x") if s.starts_with('+') => 16,
        _ => return false,
    };
    let d = t[2..].strip_prefix(['+', '-']).unwrap_or(&t[2..]);
    !d.is_empty() && d.chars().all(|c| c.is_digit(radix))
}

/// Targets are written as mapping keys; a key longer than this cannot be read back as one.
fn long_key(to: &str) -> bool {
    to.chars().count() > 500 && serde_yaml::to_string(to).is_ok_and(|d| d.trim_start_matches("---").trim_start_matches(['\n', ' ']).trim_end_matches('\n').chars().count() > 1024)
}

fn c16(ctx: &Ctx) {
    // Tables with an entry of a known class are judged again without these entries.
    let yaml_trip = |items: &[Item], dir: &Path| {
        let class = |i: &Item| match () {
            _ if radix_number(&i.from) || radix_number(&i.to) => Some("radix number"),
            _ if long_key(&i.to) => Some("long target"),
            _ => None,
        };
        match yaml_trip(items, dir) {
            Err(e) if items.iter().any(|i| class(i).is_some()) => {
                let rest: Vec<Item> = items.iter().filter(|i| class(i).is_none()).cloned().collect();
                yaml_trip(&rest, dir)?;
                for c in ["radix number", "long target"] {
                    if items.iter().any(|i| class(i) == Some(c)) {
                        ctx.known(c, e.clone())?;
                    }
                }
                Ok(true)
            }
            r => r,
        }
    };
    let w = yaml_words();
    all_tables(ctx, "yaml", "YAML words", &w, 1, yaml_trip);
    let chars = ["a", ":", " ", "-", "#", "'", "\"", "\n", "[", "{", ",", "?", "&", "!", "|", "1", "\\", "\t", "あ", "~"];
    let s2 = strings_over(&chars, 2);
    // every string against a fixed partner on the other side, then all pairs of shorter ones
    let s3 = strings_over(&chars, ctx.pick(3, 4));
    ctx.explore(
        &format!("YAML: each of {} strings as source and as target", s3.len()),
        s3.len() as u64 * 2,
        |i| json!({"prop": "C16", "kind": "yaml", "items": one(&s3, i)}),
        |w, i| yaml_trip(&items_of(&one(&s3, i)), &w.dir),
    );
    let s2 = if ctx.thorough { s2 } else { strings_over(&chars[..10], 2) };
    all_tables(ctx, "yaml", "YAML", &s2, 1, yaml_trip);
    all_tables(ctx, "yaml", "YAML", &["a", "", "~", "- a", "a: b", "\n", "1", " "].map(String::from)[..ctx.pick(6, 8)], 2, yaml_trip);
    all_tables(ctx, "yaml", "YAML", &["a", "", "1", "\n"].map(String::from)[..ctx.pick(3, 4)], 3, yaml_trip);
    scalar_tables(ctx, "yaml", yaml_trip);
    let ns: Vec<usize> = ctx.pick((0..=64).chain([100, 255, 256, 257, 1000, 5000]).collect(), (0..=300).chain([1000, 5000, 20_000, 70_000]).collect());
    ctx.explore(
        "tables of n entries",
        ns.len() as u64,
        |i| json!({"prop": "C16", "kind": "yaml", "items": pairs_of(&big(ns[i as usize]))}),
        |w, i| yaml_trip(&big(ns[i as usize]), &w.dir),
    );
    structures(ctx, "yaml", yaml_trip);
    // long strings
    let units = ["a", "あ ", "x: ", "\"", "\n", " -", "長い漢字、", "\t#"];
    let ls: Vec<usize> = ctx.pick(vec![10, 70, 79, 80, 81, 120, 127, 128, 129, 500, 1023, 1024, 1025, 3000], (1..=300).chain([1023, 1024, 1025, 2047, 2048, 2049, 9000]).collect());
    let get = |i: u64| {
        let m = mixed(i, &[ls.len() as u64, units.len() as u64, 2]);
        let s = units[m[1] as usize].repeat(ls[m[0] as usize]);
        if m[2] == 0 {
            vec![(s, "t".to_string())]
        } else {
            vec![("f".to_string(), s)]
        }
    };
    ctx.explore(
        "long strings",
        (ls.len() * units.len() * 2) as u64,
        |i| json!({"prop": "C16", "kind": "yaml", "items": get(i)}),
        |w, i| yaml_trip(&items_of(&get(i)), &w.dir),
    );
    for k in 0..6 {
        let it = set_corr(k);
        ctx.explore(
            &format!("predefined set {k}"),
            1,
            |_| json!({"prop": "C16", "kind": "yaml", "items": pairs_of(&it)}),
            |w, _| yaml_trip(&it, &w.dir),
        );
    }
    let dumps: Vec<(Vec<&str>, &str)> = vec![(vec!["-f", "yaml"], "file"), (vec!["--format", "yaml"], "file"), (vec!["--format=yaml"], "pipe"), (vec!["-f", "yaml"], "full"), (vec!["-f", "yaml"], "closed")];
    ctx.explore(
        "the dump tool: ways to ask for YAML, sinks",
        dumps.len() as u64,
        |i| json!({"prop": "C16", "kind": "dump", "args": dumps[i as usize].0, "stdout": dumps[i as usize].1}),
        |w, i| dump(&dumps[i as usize].0.iter().map(|s| s.to_string()).collect::<Vec<_>>(), dumps[i as usize].1, &w.dir),
    );
}

fn one(s: &[String], i: u64) -> Pairs {
    let x = s[(i / 2) as usize].clone();
    if i % 2 == 0 {
        vec![(x, "t".to_string())]
    } else {
        vec![("f".to_string(), x)]
    }
}
