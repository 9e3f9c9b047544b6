//! C21: the predefined tables against Unicode.

use crate::core::*;
use crate::named::{named, Named};
use ::chanoma::characters_set::prelude::*;
use ::chanoma::corr::{Corr, Correspondence, Item, Synthesized};
use ::chanoma::Table;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::OnceLock;

pub const TABLES: [&str; 6] = ["Digits", "Punctuations", "Alphabets", "Kanas", "CjkCompatibilities", "All"];

fn items(t: usize) -> Vec<Item> {
    match t {
        0 => DIGITS.items(),
        1 => PUNCTUATIONS.items(),
        2 => ALPHABETS.items(),
        3 => KANAS.items(),
        4 => CJK_COMPATIBILITIES.items(),
        _ => ALL.items(),
    }
}

/// The compatibility counterpart of every character that has one.
fn nfkc() -> &'static BTreeMap<char, String> {
    static M: OnceLock<BTreeMap<char, String>> = OnceLock::new();
    M.get_or_init(|| {
        let hex = |s: &str| char::from_u32(u32::from_str_radix(s, 16).unwrap()).unwrap();
        include_str!("nfkc.txt")
            .lines()
            .filter(|l| !l.starts_with('#'))
            .map(|l| {
                let (a, b) = l.split_once('\t').unwrap();
                (hex(a), b.split(' ').map(hex).collect())
            })
            .collect()
    })
}

/// What an entry for `c` may map to: the compatibility counterpart, up to the documented spellings.
fn accepted(c: char) -> Vec<String> {
    match c {
        '”' => return vec!["\"".into()],
        '’' => return vec!["'".into()],
        '〜' => return vec!["~".into()],
        _ => {}
    }
    let Some(n) = nfkc().get(&c) else { return vec![] };
    let mut v = vec![n.clone()];
    if ('\u{3300}'..='\u{33ff}').contains(&c) {
        v.push(n.replace('\u{2215}', "/"));
        v.push(n.replace('\u{3bc}', "\u{b5}"));
        match c {
            '㏍' => v.push("K.K.".into()),
            '㏗' => v.push("pH".into()),
            '㏙' => v.push("ppm".into()),
            _ => {}
        }
    }
    v
}

/// Whether table `t` must have an entry for `c`.
fn required(t: usize, c: char) -> bool {
    let r = |a: char, b: char| (a..=b).contains(&c);
    match t {
        0 => r('０', '９'),
        1 => (r('！', '～') && !c_alnum(c) && !matches!(c, '＂' | '＇' | '～')) || matches!(c, '”' | '’' | '〜'),
        2 => r('Ａ', 'Ｚ') || r('ａ', 'ｚ'),
        3 => r('ｦ', 'ｯ') || r('ｱ', 'ﾝ'),
        4 => r('\u{3300}', '\u{33ff}'),
        _ => (0..4).any(|t| required(t, c)),
    }
}
fn c_alnum(c: char) -> bool {
    ('０'..='９').contains(&c) || ('Ａ'..='Ｚ').contains(&c) || ('ａ'..='ｚ').contains(&c)
}

fn check_char(t: usize, c: char, map: &BTreeMap<String, Vec<String>>) -> Result<bool, String> {
    let mut buf = [0; 4];
    let name = TABLES[t];
    let found = map.get(&*c.encode_utf8(&mut buf)).map(|v| v.as_slice()).unwrap_or(&[]);
    match found {
        [] if required(t, c) => Err(format!("{name} has no entry for {c:?} (U+{:04X})", c as u32)),
        [] => Ok(false),
        [to] => {
            let ok = accepted(c);
            if ok.iter().any(|a| a == to) {
                Ok(true)
            } else {
                Err(format!("{name} maps {c:?} (U+{:04X}) to {to:?}, its counterpart is {ok:?}", c as u32))
            }
        }
        v => Err(format!("{name} gives {} results for {c:?}: {v:?}", v.len())),
    }
}
fn map_of(items: &[Item]) -> BTreeMap<String, Vec<String>> {
    let mut m: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for i in items {
        m.entry(i.from.clone()).or_default().push(i.to.clone());
    }
    m
}

/// The entries of a table that are not about one character.
fn check_shape(t: usize) -> Result<bool, String> {
    let v = items(t);
    for i in &v {
        if i.from.chars().count() != 1 {
            return Err(format!("{} has an entry for {:?}, which is not one character", TABLES[t], i.from));
        }
    }
    if items(t) != v {
        return Err(format!("{} lists other entries when asked again", TABLES[t]));
    }
    if t == 5 {
        let mut a: BTreeSet<Item> = (0..4).flat_map(items).collect();
        for i in &v {
            if !a.remove(i) {
                return Err(format!("All has {i:?}, which none of its four parts has"));
            }
        }
        if let Some(i) = a.first() {
            return Err(format!("All lacks {i:?}"));
        }
    }
    Ok(true)
}

fn check_named(n: &Named) -> Result<bool, String> {
    let it = (n.items)();
    let [i] = it.as_slice() else { return Err(format!("{} has {} entries", n.name, it.len())) };
    if i.from != n.from.to_string() {
        return Err(format!("{} maps {:?}, its name stands for {:?}", n.name, i.from, n.from));
    }
    if !accepted(n.from).contains(&i.to) {
        return Err(format!("{} maps {:?} to {:?}", n.name, i.from, i.to));
    }
    for (t, tn) in TABLES.iter().enumerate() {
        let want = *tn == n.table || (*tn == "All" && n.table != "CjkCompatibilities");
        let got = items(t).contains(i);
        if want && !got {
            return Err(format!("{tn} does not contain its entry {}", n.name));
        }
        let rest = match t {
            0 => (DIGITS - &one(i)).items(),
            1 => (PUNCTUATIONS - &one(i)).items(),
            2 => (ALPHABETS - &one(i)).items(),
            3 => (KANAS - &one(i)).items(),
            4 => (CJK_COMPATIBILITIES - &one(i)).items(),
            _ => (ALL - &one(i)).items(),
        };
        let exp: BTreeSet<Item> = items(t).into_iter().filter(|x| x != i).collect();
        if rest.iter().cloned().collect::<BTreeSet<_>>() != exp || rest.len() != exp.len() {
            return Err(format!("{tn} without {} has {} entries, expected {}", n.name, rest.len(), exp.len()));
        }
    }
    Ok(true)
}
fn one(i: &Item) -> Correspondence<Synthesized> {
    Synthesized::new(vec![i.clone()]).corr()
}

/// A sum and difference of the five tables, as operators and as table operations.
fn check_combination(ops: &[usize]) -> Result<bool, String> {
    let mut exp: BTreeSet<Item> = BTreeSet::new();
    let mut corr: Correspondence<Synthesized> = Synthesized::new(vec![]).corr();
    let mut table = Table::new();
    for &o in ops {
        let t = o % 5;
        if o < 5 {
            exp.extend(items(t));
            match t {
                0 => { corr += &DIGITS; table.add(&DIGITS) }
                1 => { corr += &PUNCTUATIONS; table.add(&PUNCTUATIONS) }
                2 => { corr += &ALPHABETS; table.add(&ALPHABETS) }
                3 => { corr += &KANAS; table.add(&KANAS) }
                _ => { corr += &CJK_COMPATIBILITIES; table.add(&CJK_COMPATIBILITIES) }
            }
        } else {
            for i in items(t) {
                exp.remove(&i);
            }
            match t {
                0 => { corr -= &DIGITS; table.remove(&DIGITS) }
                1 => { corr -= &PUNCTUATIONS; table.remove(&PUNCTUATIONS) }
                2 => { corr -= &ALPHABETS; table.remove(&ALPHABETS) }
                3 => { corr -= &KANAS; table.remove(&KANAS) }
                _ => { corr -= &CJK_COMPATIBILITIES; table.remove(&CJK_COMPATIBILITIES) }
            }
        }
    }
    for (what, got) in [("the sum", corr.items()), ("the table", table.items())] {
        let set: BTreeSet<Item> = got.iter().cloned().collect();
        if set != exp || got.len() != exp.len() {
            return Err(format!("{what} has {} entries ({} distinct), expected {}", got.len(), set.len(), exp.len()));
        }
        if let Some((f, v)) = map_of(&got).iter().find(|(_, v)| v.len() > 1) {
            return Err(format!("{what} gives several results for {f:?}: {v:?}"));
        }
    }
    Ok(!exp.is_empty())
}

fn nth_ops(len: u32, i: u64) -> Vec<usize> {
    mixed(i, &vec![10; len as usize]).into_iter().map(|x| x as usize).collect()
}

pub fn run(ctx: &Ctx) {
    let all = named();
    ctx.explore(
        "tables: every entry is about one character",
        6,
        |i| json!({"prop": "C21", "kind": "shape", "table": TABLES[i as usize]}),
        |_, i| check_shape(i as usize),
    );
    ctx.explore(
        "named entries: the character the name stands for, its counterpart, contained in its table",
        all.len() as u64,
        |i| json!({"prop": "C21", "kind": "named", "name": all[i as usize].name}),
        |_, i| check_named(&all[i as usize]),
    );
    for t in 0..6 {
        let map = map_of(&items(t));
        ctx.explore(
            &format!("{}: every character of Unicode", TABLES[t]),
            SCALARS,
            |i| json!({"prop": "C21", "kind": "char", "table": TABLES[t], "char": scalar(i).to_string()}),
            |_, i| check_char(t, scalar(i), &map),
        );
    }
    for len in 1..=ctx.pick(3, 5) {
        ctx.explore(
            &format!("sums and differences of {len} tables"),
            10u64.pow(len),
            |i| json!({"prop": "C21", "kind": "sum", "ops": nth_ops(len, i)}),
            |_, i| check_combination(&nth_ops(len, i)),
        );
    }
    ctx.assume("Compatibility counterparts are those of Unicode 15 (Python's unicodedata), committed as mc/src/nfkc.txt; the names are those public on the pinned tree (mc/src/named.rs).");
}

pub fn judge(case: &Value, _dir: &Path) -> Result<(), String> {
    let table = || TABLES.iter().position(|t| case["table"] == *t).unwrap();
    match case["kind"].as_str().unwrap() {
        "shape" => check_shape(table()),
        "named" => check_named(named().iter().find(|n| case["name"] == n.name).unwrap()),
        "char" => check_char(table(), case["char"].as_str().unwrap().chars().next().unwrap(), &map_of(&items(table()))),
        "sum" => check_combination(&serde_json::from_value::<Vec<usize>>(case["ops"].clone()).unwrap()),
        k => panic!("unknown kind {k}"),
    }
    .map(|_| ())
}
