//! C17 C18 C20: what configuration files mean, and which are refused.

use crate::core::*;
use crate::model::Pipe;
use crate::rel;
use crate::spec::*;
use ::chanoma::corr::Item;
use ::chanoma::file::{modifiers_from_yaml_path, table_from_csv_path, table_from_yaml_path};
use ::chanoma::table::{Table, TableBuilder};
use ::chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::path::{Path, PathBuf};

pub fn run(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C17" => c17(ctx),
        "C18" => c18(ctx),
        _ => c20(ctx),
    }
}

fn case_bytes(case: &Value) -> Vec<u8> {
    if let Some(h) = case["hex"].as_str() {
        return (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
    }
    case_text(case).into_bytes()
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    match case["kind"].as_str().unwrap() {
        "csv" => csv_doc(&case_text(case), dir).map(|_| ()),
        "via" => csv_via(case["src"].as_str().unwrap(), case["how"].as_u64().unwrap() as usize, dir).map(|_| ()),
        "yaml" => yaml_doc(&serde_json::from_value(case["doc"].clone()).unwrap(), 3, dir).map(|_| ()),
        "padded" => {
            let (n, kind, at, bom) = serde_json::from_value(case["of"].clone()).map_err(|e| e.to_string())?;
            padded(n, kind, at, bom, dir).map(|_| ())
        }
        "feature" => feature(case["n"].as_u64().unwrap() as usize, dir).map(|_| ()),
        "bytes" => bytes(&case_bytes(case), dir).map(|_| ()),
        "late" => bytes(&late(case["what"].as_u64().unwrap(), case["n"].as_u64().unwrap() as usize), dir).map(|_| ()),
        "tree" => tree(&serde_json::from_value(case["tree"].clone()).unwrap(), case["style"].as_u64().unwrap() as usize, dir).map(|_| ()),
        "name" => name(case["name"].as_str().unwrap(), dir).map(|_| ()),
        "path" => odd_path(case["n"].as_u64().unwrap(), dir).map(|_| ()),
        "nest" => forked(|| nest(case["what"].as_str().unwrap(), case["n"].as_u64().unwrap(), dir)).map(|_| ()),
        k => panic!("unknown kind {k}"),
    }
}

// ---------------------------------------------------------------- C17

/// Reads a well-formed document; None if it is not one.
fn csv_parse(doc: &str) -> Option<Vec<Vec<String>>> {
    let v: Vec<char> = doc.chars().collect();
    let mut i = 0;
    let mut rows = Vec::new();
    let eol = |i: usize| -> Option<usize> {
        match v.get(i) {
            Some('\n') => Some(1),
            Some('\r') if v.get(i + 1) == Some(&'\n') => Some(2),
            _ => None,
        }
    };
    while i < v.len() {
        if let Some(n) = eol(i) {
            if rows.is_empty() {
                return None;
            }
            i += n;
            continue;
        }
        let mut row = Vec::new();
        loop {
            let mut f = String::new();
            if v.get(i) == Some(&'"') {
                i += 1;
                loop {
                    match v.get(i)? {
                        '"' if v.get(i + 1) == Some(&'"') => {
                            f.push('"');
                            i += 2;
                        }
                        '"' => {
                            i += 1;
                            break;
                        }
                        c => {
                            f.push(*c);
                            i += 1;
                        }
                    }
                }
            } else {
                while i < v.len() && v[i] != ',' && eol(i).is_none() {
                    if v[i] == '"' || v[i] == '\r' {
                        return None;
                    }
                    f.push(v[i]);
                    i += 1;
                }
            }
            row.push(f);
            if i >= v.len() {
                break;
            }
            if let Some(n) = eol(i) {
                i += n;
                break;
            }
            if v[i] != ',' {
                return None;
            }
            i += 1;
        }
        if rows.is_empty() && row.iter().any(|f| f.contains(['\n', '\r'])) {
            return None;
        }
        rows.push(row);
    }
    Some(rows)
}

fn distinct(items: impl IntoIterator<Item = (String, String)>) -> Vec<(String, String)> {
    let mut seen = std::collections::HashSet::new();
    items.into_iter().filter(|e| seen.insert(e.clone())).collect()
}
fn entries(items: &[Item]) -> Vec<(String, String)> {
    distinct(items.iter().map(|i| (i.from.clone(), i.to.clone())))
}
fn same_entries(what: &str, want: &[(String, String)], got: &[(String, String)]) -> Result<(), String> {
    if want != got {
        let k = want.iter().zip(got).take_while(|(a, b)| a == b).count();
        return Err(format!(
            "{what}: {} entries, expected {}; entry {k} is {:?}, expected {:?}",
            got.len(),
            want.len(),
            got.get(k),
            want.get(k)
        ));
    }
    Ok(())
}

/// The character map of entries that all have one character on both sides and do not conflict.
fn char_map(want: &[(String, String)]) -> Option<HashMap<char, char>> {
    let mut m = HashMap::new();
    for (a, b) in want {
        let (mut x, mut y) = (a.chars(), b.chars());
        let (p, q) = (x.next()?, y.next()?);
        if x.next().is_some() || y.next().is_some() || m.insert(p, q).is_some_and(|o| o != q) {
            return None;
        }
    }
    Some(m)
}

fn csv_doc(doc: &str, dir: &Path) -> Result<bool, String> {
    csv_via(doc, 0, dir)
}

fn csv_via(doc: &str, how: usize, dir: &Path) -> Result<bool, String> {
    let Some(rows) = csv_parse(doc.strip_prefix('\u{feff}').unwrap_or(doc)) else { return Ok(false) };
    let want = distinct(rows.iter().skip(1).flat_map(|r| r[..r.len() - 1].iter().map(|f| (f.clone(), r[r.len() - 1].clone()))));
    let f = if how == 0 { dir.join("doc.csv") } else { placed(doc.as_bytes(), how, "csv", dir)? };
    if how == 0 {
        std::fs::write(&f, doc).map_err(|e| e.to_string())?;
    }
    let e = |e: ::chanoma::error::Error| format!("a well-formed file is rejected: {e}");
    same_entries("table_from_csv_path", &want, &entries(&table_from_csv_path(&f).map_err(e)?.items()))?;
    same_entries("TableBuilder::from_csv_path", &want, &entries(&TableBuilder::from_csv_path(&f).map_err(e)?.build().items()))?;
    let c = Chanoma::from_config_file(&f).map_err(e)?;
    if let Some(m) = char_map(&want) {
        let text: String = doc.chars().collect();
        let exp: String = text.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect();
        let got = c.normalize(&text);
        if got != exp {
            return Err(format!("normalizing the document itself with its own configuration: {}", diff(&exp, &got)));
        }
    }
    Ok(rows.len() > 1)
}

fn cell(s: &str, force: bool) -> String {
    if force || s.contains([',', '"', '\n', '\r']) {
        cq(s)
    } else {
        s.to_string()
    }
}

fn c17(ctx: &Ctx) {
    let toks: Vec<String> = ["a", "b", ",", "\"", "\n", "\r\n", "あ", " "].iter().map(|s| s.to_string()).collect();
    let case = |d: &str| json!({"prop": "C17", "kind": "csv", "text": d});
    for (h, n) in [("h\n", ctx.pick(6, 7)), ("from,to\r\n", ctx.pick(5, 6)), ("a,b", 5), ("\"a\",あ\n", 5), (",\n", 4), ("\u{feff}\"h, i\",x\n", 4), ("x,\"y, z\",\"\"\"\"", 4)] {
        ctx.strings(
            &format!("header {h:?} and any well-formed text (others are skipped)"),
            &toks,
            0..=n,
            |s| case(&format!("{h}{s}")),
            |w, s| csv_doc(&format!("{h}{s}"), &w.dir),
        );
    }
    // every byte class of the reader: quotes, separators and line ends around other bytes
    let t2: Vec<String> = ["a", "\"", "\"\"", ",", "\n", "\r", "\t", ";", "'", "\\", "#", "\0", "\u{feff}", "\u{85}", "\u{2028}"].iter().map(|s| s.to_string()).collect();
    ctx.strings("a quoted field with any content", &t2, 0..=ctx.pick(4, 5), |s| case(&format!("h\n\"{s}\",A\nb,B\n")), |w, s| csv_doc(&format!("h\n\"{s}\",A\nb,B\n"), &w.dir));
    ctx.strings("an unquoted row", &t2, 0..=ctx.pick(4, 5), |s| case(&format!("h\n{s}\nb,B")), |w, s| csv_doc(&format!("h\n{s}\nb,B"), &w.dir));
    // structure: rows x widths x quoting x line ends x blank lines x final newline
    let pool = ["a", "あ", "x,y", "p\"q", "m\nn", ""];
    let rows = |k: usize| -> Vec<Vec<&str>> {
        let mut out = Vec::new();
        for w in 1..=3u32 {
            for i in 0..(k as u64).pow(w) {
                out.push(mixed(i, &vec![k as u64; w as usize]).iter().map(|x| pool[*x as usize]).collect());
            }
        }
        out
    };
    let render = |rs: &[&Vec<&str>], style: u64| -> String {
        let m = mixed(style, &[2, 2, 2, 3]);
        let nl = if m[0] == 1 { "\r\n" } else { "\n" };
        let mut s = format!("from,to{nl}");
        for (i, r) in rs.iter().enumerate() {
            if m[3] == 1 || (m[3] == 2 && i > 0) {
                s.push_str(nl);
            }
            s.push_str(&r.iter().map(|c| cell(c, m[1] == 1 || (c.is_empty() && r.len() == 1))).collect::<Vec<_>>().join(","));
            if i + 1 < rs.len() || m[2] == 1 {
                s.push_str(nl);
            }
        }
        s
    };
    let r1 = rows(6);
    let g1 = |i: u64| {
        let m = mixed(i, &[r1.len() as u64, 24]);
        render(&[&r1[m[0] as usize]], m[1])
    };
    ctx.explore("one row: every row of 1 to 3 fields over 6 contents, 24 layouts", r1.len() as u64 * 24, |i| case(&g1(i)), |w, i| csv_doc(&g1(i), &w.dir));
    let r2 = rows(ctx.pick(4, 5));
    let g2 = |i: u64| {
        let m = mixed(i, &[r2.len() as u64, r2.len() as u64, 24]);
        render(&[&r2[m[0] as usize], &r2[m[1] as usize]], m[2])
    };
    ctx.explore(&format!("two rows: every pair of {} rows, 24 layouts", r2.len()), (r2.len() * r2.len()) as u64 * 24, |i| case(&g2(i)), |w, i| csv_doc(&g2(i), &w.dir));
    let r3 = rows(2);
    let nr = ctx.pick(3u32, 4);
    let g3 = |i: u64| {
        let m = mixed(i, &[(r3.len() as u64).pow(nr), 24]);
        let m2 = mixed(m[0], &vec![r3.len() as u64; nr as usize]);
        render(&m2.iter().map(|x| &r3[*x as usize]).collect::<Vec<_>>(), m[1])
    };
    ctx.explore(&format!("{nr} rows: every tuple of {} rows, 24 layouts", r3.len()), (r3.len() as u64).pow(nr) * 24, |i| case(&g3(i)), |w, i| csv_doc(&g3(i), &w.dir));
    // many rows out of few, repeated in every pattern
    let few: [&[&str]; 4] = [&["a", "A"], &["a", "B"], &["b", "a", "A"], &["A", "a"]];
    for n in 4..=ctx.pick(7u32, 9) {
        let g = |i: u64| render(&mixed(i, &vec![4; n as usize]).iter().map(|x| few[*x as usize].to_vec()).collect::<Vec<_>>().iter().collect::<Vec<_>>(), 4);
        ctx.explore(&format!("all sequences of {n} of 4 rows"), 4u64.pow(n), |i| case(&g(i)), |w, i| csv_doc(&g(i), &w.dir));
    }
    // fields easily taken for one another
    let rt = rel::tables();
    let g = |i: u64| {
        let m = mixed(i, &[rt.len() as u64, 24]);
        let rows: Vec<Vec<&str>> = rt[m[0] as usize].iter().map(|(a, b)| vec![a.as_str(), b.as_str()]).collect();
        let whole: Vec<&str> = rows.iter().map(|r| r[0]).chain([rows[0][1]]).collect();
        render(&rows.iter().chain([&whole]).collect::<Vec<_>>(), m[1])
    };
    ctx.explore(&format!("{} tables of fields that some folding, trimming or truncation would make equal, 24 layouts", rt.len()), rt.len() as u64 * 24, |i| case(&g(i)), |w, i| csv_doc(&g(i), &w.dir));
    // sizes
    let sizes: Vec<u64> = ctx.pick((1..=130).chain([255, 256, 257, 1000, 4096, 20_000]).collect(), (1..=1100).chain([4096, 20_000, 100_000]).collect());
    let wide = |i: u64| -> Vec<(String, usize)> {
        let m = mixed(i, &[sizes.len() as u64, 3]);
        let n = sizes[m[0] as usize] as usize;
        match m[1] {
            0 => vec![("h\n".into(), 1), ("あ,".into(), n), ("b,Z\n".into(), 1)],
            1 => vec![("h\n".into(), 1), ((0..n).map(|i| format!("f{i},t{}\n", i % 5)).collect(), 1)],
            _ => vec![("h\n".into(), 1), ((0..n).map(|i| format!("f{i},")).collect(), 1), ("t\nx,y".into(), 1)],
        }
    };
    ctx.explore("wide rows and many rows", sizes.len() as u64 * 3, |i| json!({"prop": "C17", "kind": "csv", "segs": wide(i)}), |w, i| csv_doc(&segs_text(&wide(i)), &w.dir));
    // the reader's buffer boundary falls on every position of every construct
    let bits = ["あ,い\n", "\"x\"\"y\",Z\r\n", "\"m\r\nn\",Q\n\r\n", "\r\n\r\na,b,c\r\n", "😀\n,\n\n"];
    let buf: Vec<u64> = ctx.pick(vec![8192], vec![1024, 2048, 4096, 8192, 16384, 65536]);
    let at = |i: u64| -> Vec<(String, usize)> {
        let m = mixed(i, &[buf.len() as u64, bits.len() as u64, 2, 24]);
        let n = (buf[m[0] as usize] - 20 + m[3]) as usize;
        // the rest of the field of padding and its target take 4 bytes, the header 2
        if m[2] == 0 {
            vec![("h\n".into(), 1), ("p".into(), n - 6), (",P\n".into(), 1), (bits[m[1] as usize].into(), 1), ("c,D\n".into(), 1)]
        } else {
            vec![("h\n".into(), 1), ("\"".into(), 1), ("あ\"\"".into(), (n - 6) / 5), ("p".into(), (n - 6) % 5), ("\",P\n".into(), 1), (bits[m[1] as usize].into(), 1), ("c,D".into(), 1)]
        }
    };
    ctx.explore(
        "constructs at every offset around buffer boundaries",
        buf.len() as u64 * bits.len() as u64 * 2 * 24,
        |i| json!({"prop": "C17", "kind": "csv", "segs": at(i)}),
        |w, i| csv_doc(&segs_text(&at(i)), &w.dir),
    );
    // long files
    let r = [BIG.len() as u64 - ctx.pick(3, 0), 3, 4, 3];
    let long = |i: u64| -> Vec<(String, usize)> {
        let m = mixed(i, &r);
        let n = BIG[m[0] as usize] + m[1] as usize - 1;
        let parts = ["h\n", "a,A\nあ,B\n", "c,C\nx,y,z\n"];
        let left = n - parts.iter().map(|p| p.len()).sum::<usize>();
        let mut v = Vec::new();
        for (k, p) in parts.iter().enumerate() {
            v.push((p.to_string(), 1));
            if k as u64 == m[3] {
                v.extend(match m[2] {
                    0 => vec![("\n".to_string(), left)],
                    1 => vec![("f,t\n".into(), left / 4), ("\n".into(), left % 4)],
                    2 => vec![("p".into(), left - 3), (",P\n".into(), 1)],
                    _ => vec![("\"".into(), 1), ("\n".into(), left - 5), ("\",P\n".into(), 1)],
                });
            }
        }
        v
    };
    ctx.explore("files of 4 KiB to 2 MiB (thorough: 16 MiB), one byte less, exactly and one more, padded with blank lines, rows, a long field or a field of many lines at each of 3 places", r.iter().product(), |i| json!({"prop": "C17", "kind": "csv", "segs": long(i)}), |w, i| csv_doc(&segs_text(&long(i)), &w.dir));
    // the path
    let via = |i: u64| (["h\na,A\nb,A\n", "\"h\"\r\n\"a\",\"あ\"\r\n", "h"][i as usize % 3], i as usize / 3);
    ctx.explore("a file under its own name or through a link to a file of another name", 12, |i| json!({"prop": "C17", "kind": "via", "src": via(i).0, "how": via(i).1}), |w, i| csv_via(via(i).0, via(i).1, &w.dir));
    // every character in a field
    let per = 256;
    let sc = |i: u64| {
        let m = mixed(i, &[SCALARS.div_ceil(per), 2]);
        let mut s = String::from("h\n");
        for k in m[0] * per..((m[0] + 1) * per).min(SCALARS) {
            let c = scalar(k);
            if matches!(c, '"' | '\r' | '\n' | ',') {
                continue;
            }
            s.push_str(&if m[1] == 0 { format!("{c},x{c}\n") } else { format!("\"{c}\",\"{c}{c}\",q\n") });
        }
        s
    };
    ctx.explore("every Unicode scalar value in quoted and unquoted fields, 256 per file", SCALARS.div_ceil(per) * 2, |i| case(&sc(i)), |w, i| csv_doc(&sc(i), &w.dir));
    crate::p_fault::short(ctx, true);
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
struct YDoc {
    steps: Vec<Step>,
    items: Pairs,
    /// 0 mapping to one source where there is one, 1 mapping to lists, 2 list of pairs
    spell: u8,
    flow: bool,
    /// 0 plain where possible, 1 single quotes where possible, 2 double quotes
    quote: u8,
    items_first: bool,
    /// 0 nothing, 1 ---, 2 comments everywhere
    lead: u8,
    crlf: bool,
    yml: bool,
}

fn scalar_text(s: &str, quote: u8, key: bool) -> String {
    let simple = |c: char| c.is_ascii_lowercase() || c.is_ascii_uppercase() || ('ぁ'..='ヶ').contains(&c) || c == 'ー' || c == '゛' || c == '゜' || ('Ａ'..='Ｚ').contains(&c);
    let reserved = ["y", "n", "yes", "no", "on", "off", "true", "false", "null"];
    let _ = key;
    if quote == 0 && !s.is_empty() && s.chars().all(simple) && !reserved.contains(&s.to_lowercase().as_str()) {
        return s.to_string();
    }
    if quote <= 1 && s.chars().all(|c| !c.is_control() && c != '\u{feff}' && !matches!(c, '\u{85}' | '\u{2028}' | '\u{2029}')) {
        return format!("'{}'", s.replace('\'', "''"));
    }
    yq(s)
}

impl YDoc {
    fn render(&self) -> String {
        let q = |s: &str| scalar_text(s, self.quote, false);
        let c = |c: &char| q(&c.to_string());
        let note = |s: &mut String| {
            if self.lead == 2 {
                s.push_str("# items: {x: y}\n");
            }
        };
        let mut head = String::new();
        let mut steps = String::new();
        let mut items = String::new();
        note(&mut head);
        if self.lead == 1 {
            head.push_str("---\n");
        }
        if !self.steps.is_empty() {
            steps.push_str("modifiers:\n");
            for st in &self.steps {
                note(&mut steps);
                let map = |steps: &mut String, name: &str, kv: Vec<(String, String)>| {
                    if self.flow {
                        let kv: Vec<String> = kv.iter().map(|(a, b)| format!("{a}: {b}")).collect();
                        steps.push_str(&format!("  {name}: {{{}}}\n", kv.join(", ")));
                    } else {
                        steps.push_str(&format!("  {name}:\n"));
                        for (a, b) in kv {
                            steps.push_str(&format!("    {a}: {b}\n"));
                        }
                    }
                };
                match st {
                    Step::Conv(m) => map(&mut steps, "character_converter", m.iter().map(|(a, b)| (c(a), c(b))).collect()),
                    Step::Lig(m) => map(&mut steps, "ligature_translator", m.iter().map(|(a, b)| (q(a), q(b))).collect()),
                    Step::Elim(v) if self.flow => steps.push_str(&format!("  character_eliminator: [{}]\n", v.iter().map(c).collect::<Vec<_>>().join(", "))),
                    Step::Elim(v) => {
                        steps.push_str("  character_eliminator:\n");
                        for x in v {
                            steps.push_str(&format!("    - {}\n", c(x)));
                        }
                    }
                    Step::Reduce(x) => steps.push_str(&format!("  consecutive_character_reducer: {}\n", c(x))),
                    s => steps.push_str(&s.yaml()),
                }
            }
        }
        let mut tos: Vec<&String> = Vec::new();
        for (_, t) in &self.items {
            if !tos.contains(&t) {
                tos.push(t);
            }
        }
        if !self.items.is_empty() {
            note(&mut items);
            if self.spell == 2 {
                if self.flow {
                    items.push_str(&format!("items: [{}]\n", self.items.iter().map(|(a, b)| format!("{{from: {}, to: {}}}", q(a), q(b))).collect::<Vec<_>>().join(", ")));
                } else {
                    items.push_str("items:\n");
                    for (i, (a, b)) in self.items.iter().enumerate() {
                        // in either order
                        if i % 2 == 0 {
                            items.push_str(&format!("  - from: {}\n    to: {}\n", q(a), q(b)));
                        } else {
                            items.push_str(&format!("  - to: {}\n    from: {}\n", q(b), q(a)));
                        }
                    }
                }
            } else {
                let mut parts = Vec::new();
                for t in tos {
                    let f: Vec<String> = self.items.iter().filter(|(_, b)| b == t).map(|(a, _)| q(a)).collect();
                    let v = if f.len() == 1 && self.spell == 0 {
                        format!(" {}", f[0])
                    } else if self.flow {
                        format!(" [{}]", f.join(", "))
                    } else {
                        f.iter().map(|x| format!("\n    - {x}")).collect()
                    };
                    parts.push((q(t), v));
                }
                if self.flow {
                    items.push_str(&format!("items: {{{}}}\n", parts.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(", ")));
                } else {
                    items.push_str("items:\n");
                    for (k, v) in parts {
                        items.push_str(&format!("  {k}:{v}\n"));
                    }
                }
            }
        }
        let s = if self.items_first { head + &items + &steps } else { head + &steps + &items };
        let s = if s.trim_matches(['-', '\n', ' ']).is_empty() || s.lines().all(|l| l.starts_with('#')) { s + "{}\n" } else { s };
        if self.crlf {
            s.replace('\n', "\r\n")
        } else {
            s
        }
    }
}

const Y_ALPHABET: [&str; 9] = ["a", "ー", "~", " ", "-", "か", "゛", "Ａ", "B"];

fn y_steps() -> Vec<Step> {
    vec![
        Step::Conv(vec![('a', 'ー'), ('-', ' '), ('B', '~')]),
        Step::Elim(vec!['~', 'z', 'A']),
        Step::Reduce('ー'),
        Step::Dotted,
        Step::Trim,
        Step::Lig(vec![("か゛".into(), "B".into()), ("ーa".into(), "-".into())]),
        Step::Neologdn,
    ]
}
fn y_items() -> Pairs {
    [("ー", "z"), ("B", " "), ("が", "z"), ("A", "-")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

thread_local! { static TEXTS: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) }; }

fn yaml_doc(d: &YDoc, len: u32, dir: &Path) -> Result<bool, String> {
    let f = dir.join(if d.yml { "doc.yml" } else { "doc.yaml" });
    let text = d.render();
    std::fs::write(&f, &text).map_err(|e| e.to_string())?;
    let e = |e: ::chanoma::error::Error| format!("a valid configuration is rejected: {e}: {:?}", text.chars().take(400).collect::<String>());
    let set = |v: Vec<(String, String)>| v.into_iter().collect::<std::collections::BTreeSet<_>>();
    let want = set(d.items.clone());
    for (what, t) in [("table_from_yaml_path", table_from_yaml_path(&f).map_err(e)?), ("TableBuilder::from_yaml_path", TableBuilder::from_yaml_path(&f).map_err(e)?.build())] {
        let got = set(entries(&t.items()));
        if got != want {
            return Err(format!("{what}: missing {:?}, unexpected {:?}", want.difference(&got).take(4).collect::<Vec<_>>(), got.difference(&want).take(4).collect::<Vec<_>>()));
        }
    }
    let n = modifiers_from_yaml_path(&f).map_err(e)?.len();
    if n != d.steps.len() {
        return Err(format!("{} steps are written, {n} are loaded", d.steps.len()));
    }
    let c = Chanoma::from_config_file(&f).map_err(e)?;
    let steps: Vec<Pipe> = d.steps.iter().map(|s| Pipe(s.machines())).collect();
    let table = char_map(&distinct(d.items.clone()));
    let mut changed = false;
    let mut on = |t: &str| -> Result<(), String> {
        let r = c.normalize_with_positions(t);
        let r = r.modified_records();
        let mut cur = t.to_string();
        for (k, s) in steps.iter().enumerate() {
            cur = s.run(&cur);
            match r.get(k) {
                Some(x) if x.text == cur => {}
                x => return Err(format!("on {}: step {k} gives {:?}, expected {cur:?}", show(t), x.map(|x| &x.text))),
            }
        }
        if let Some(m) = &table {
            cur = cur.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect();
            let got = c.normalize(t);
            if got != cur {
                return Err(format!("on {}: the result is {got:?}, expected {cur:?}", show(t)));
            }
            changed |= got != t;
        }
        if r.len() > d.steps.len() + 1 {
            return Err(format!("{} steps and a table give {} records", d.steps.len(), r.len()));
        }
        Ok(())
    };
    if d.steps.is_empty() {
        let t: String = d.items.iter().map(|(a, b)| format!("{a}{b}{a}.")).take(2000).collect();
        on(&t)?;
    } else {
        TEXTS.with(|v| {
            if v.borrow().is_empty() {
                let toks: Vec<String> = Y_ALPHABET.iter().map(|s| s.to_string()).collect();
                *v.borrow_mut() = (0..=3).flat_map(|l| (0..9u64.pow(l)).map(|i| nth_string(&toks, l, i)).collect::<Vec<_>>()).collect();
            }
            v.borrow().iter().filter(|t| t.chars().count() <= len as usize).try_for_each(|t| on(t))?;
            on("  か゛ー-~ーa a B Ａ~か゛ーa ー ー ")
        })?;
        // the members of the steps, in and against their order
        let members: Vec<String> = d
            .steps
            .iter()
            .flat_map(|s| match s {
                Step::Conv(m) => m.iter().map(|(a, _)| a.to_string()).collect(),
                Step::Elim(v) => v.iter().map(|c| c.to_string()).collect(),
                Step::Reduce(c) => vec![c.to_string()],
                Step::Lig(m) => m.iter().map(|(a, _)| a.clone()).collect(),
                _ => vec![],
            })
            .collect();
        if !members.is_empty() {
            on(&members.iter().map(|m| format!("{m}{m}.")).collect::<String>())?;
            on(&members.iter().rev().map(|m| format!("あ{m} {m}")).collect::<String>())?;
        }
    }
    Ok(changed)
}

/// Valid documents using YAML features, with the entries and steps they mean.
fn features() -> Vec<(&'static str, Vec<(&'static str, &'static str)>, Vec<Step>)> {
    let red = Step::Reduce;
    vec![
        ("{}", vec![], vec![]),
        ("items: {}\nmodifiers: {}\n", vec![], vec![]),
        ("items: []\n", vec![], vec![]),
        ("modifiers: {}\nitems: {A: a}", vec![("a", "A")], vec![]),
        ("items: {A: []}\nmodifiers: {trim: }", vec![], vec![Step::Trim]),
        ("items: {A: [], B: b}", vec![("b", "B")], vec![]),
        ("items:\n  A: &x [a, b]\n  B: *x\n", vec![("a", "A"), ("b", "A"), ("a", "B"), ("b", "B")], vec![]),
        ("items:\n- &p {from: a, to: A}\n- *p\n- {from: b, to: B}\n", vec![("a", "A"), ("b", "B")], vec![]),
        ("items:\n  A: |-\n    a\n  ? B\n  : - b\n    - c\n", vec![("a", "A"), ("b", "B"), ("c", "B")], vec![]),
        ("items:\n  A: >-\n    a\n", vec![("a", "A")], vec![]),
        ("items:\n  'A' : \"\\u3042\"\n  \"\\x42\": '\u{3044}'\n", vec![("あ", "A"), ("い", "B")], vec![]),
        ("%YAML 1.2\n---\nitems: {A: a}\n...\n", vec![("a", "A")], vec![]),
        ("--- {items: {A: a},\n  modifiers: {trim: ~, neologdn: null}}", vec![("a", "A")], vec![Step::Trim, Step::Neologdn]),
        ("\"modifiers\":\n  'consecutive_character_reducer': \"ー\"\n  \"trim\":\n\"items\":\n  A: a", vec![("a", "A")], vec![red('ー'), Step::Trim]),
        ("{\"items\": {\"A\": [\"a\", \"b\"]}, \"modifiers\": {\"character_eliminator\": [\"x\"], \"trim\": null}}", vec![("a", "A"), ("b", "A")], vec![Step::Elim(vec!['x']), Step::Trim]),
        ("{\"items\": [{\"from\": \"a\", \"to\": \"A\"}]}", vec![("a", "A")], vec![]),
        ("items: # comment\n  # comment\n  A: a # comment\n\n\n  B:\n\n  - b\n\n  # c\n  - c\n", vec![("a", "A"), ("b", "B"), ("c", "B")], vec![]),
        ("items:\n  \"1\": \"2\"\n  'true': '~'\n  \"null\": \"\\n\"\n", vec![("2", "1"), ("~", "true"), ("\n", "null")], vec![]),
        ("items:\n  A:\n  - a\n  - b\n  a:\n  - A\nmodifiers:\n  character_converter:\n    ? a\n    : ー\n  ligature_translator: {ab: c}\n", vec![("a", "A"), ("b", "A"), ("A", "a")], vec![Step::Conv(vec![('a', 'ー')]), Step::Lig(vec![("ab".into(), "c".into())])]),
        ("modifiers:\n  dotted_space_eliminator:\n  ligature_translator:\n    ハ゜: パ\n  consecutive_character_reducer: !!str ー\n", vec![], vec![Step::Dotted, Step::Lig(vec![("ハ゜".into(), "パ".into())]), red('ー')]),
        // the README's two examples
        ("items:\n  - from: \"a\"\n    to: \"A\"\n", vec![("a", "A")], vec![]),
        (
            "modifiers:\n  character_converter:\n    a: A\n    b: B\n  character_eliminator: [\"~\", ∼, ∾, 〜, 〰, ～]\n  consecutive_character_reducer: ー\n  dotted_space_eliminator:\n  ligature_translator:\n    ハ゜: パ\n  trim:\n  neologdn:\n",
            vec![],
            vec![
                Step::Conv(vec![('a', 'A'), ('b', 'B')]),
                Step::Elim(vec!['~', '∼', '∾', '〜', '〰', '～']),
                red('ー'),
                Step::Dotted,
                Step::Lig(vec![("ハ゜".into(), "パ".into())]),
                Step::Trim,
                Step::Neologdn,
            ],
        ),
    ]
}

/// The surroundings of a feature: 8 of the text, then without and with a byte order mark, then
/// how the path leads to the file.
const AROUND: usize = 8 * 2 * 4;

/// Puts the file of that text at the end of one of 4 kinds of paths.
fn placed(src: &[u8], how: usize, ext: &str, dir: &Path) -> Result<PathBuf, String> {
    let e = |e: std::io::Error| e.to_string();
    let f = dir.join(format!("feature.{ext}"));
    let _ = std::fs::remove_file(&f);
    let real = match how {
        0 => f.clone(),
        1 => dir.join("feature"),
        2 => dir.join(if ext == "csv" { "feature-real.yaml" } else { "feature-real.csv" }),
        _ => dir.join("feature-real.txt"),
    };
    if how > 0 {
        let _ = std::fs::remove_file(&real);
        std::os::unix::fs::symlink(&real, &f).map_err(e)?;
    }
    std::fs::write(&real, src).map_err(e)?;
    Ok(f)
}

/// Sizes of files which a buffer or a limit may have; the last three are for the thorough tier.
const BIG: [usize; 11] = [4096, 8192, 16_384, 32_768, 65_536, 131_072, 1 << 20, 1 << 21, 1 << 22, 10_000_000, 1 << 24];

fn feature(n: usize, dir: &Path) -> Result<bool, String> {
    let all = features();
    let (src, items, steps) = &all[n / AROUND];
    let (bom, how) = (n / 8 % 2 == 1, n / 16 % 4);
    let mut src = src.to_string();
    if n & 1 == 1 {
        src = src.replace('\n', "\r\n");
    }
    if n & 2 == 2 {
        src = format!("# head\n{src}");
        if src.contains("%YAML") {
            src = src.trim_start_matches("# head\n").into();
        }
    }
    if n & 4 == 4 {
        src.push_str(if src.ends_with('\n') { "\n\n# end" } else { "\n" });
        if src.contains("...") {
            src = src.replace("\n\n# end", "\n");
        }
    }
    if bom {
        src.insert(0, '\u{feff}');
    }
    let f = placed(src.as_bytes(), how, "yaml", dir)?;
    yaml_means(&f, &src, items, steps, 3)
}

/// A document of several kilobytes to megabytes, most of which is padding at one place.
fn padded(n: usize, kind: u64, at: u64, bom: bool, dir: &Path) -> Result<bool, String> {
    let unit = match kind {
        0 => "# あいう comment: [x, y] {z\n",
        1 => "\n",
        2 => "# one long line ",
        _ => "  - あいう\n",
    };
    let head: [&str; 6] = ["", "modifiers:\n  character_converter:\n    a: A\n", "  consecutive_character_reducer: ー\n", "items:\n  B:\n  - b\n", "  - x\n", "  C: ハ\n"];
    let total: usize = head.iter().map(|h| h.len()).sum();
    let mut src = String::with_capacity(n + 64);
    for (k, h) in head.iter().enumerate() {
        src.push_str(h);
        if k as u64 == at {
            let left = n.saturating_sub(total + if bom { 3 } else { 0 });
            let mut pad = unit.repeat(left / unit.len());
            match kind {
                // ends with a line of its own
                0 | 3 => pad.push_str(&"\n".repeat(left % unit.len())),
                1 => {}
                _ => {
                    pad.push_str(&"#".repeat(left % unit.len()));
                    if !pad.is_empty() {
                        pad.pop();
                        pad.push('\n');
                    }
                }
            }
            src.push_str(&pad);
        }
    }
    if bom {
        src.insert(0, '\u{feff}');
    }
    let f = placed(src.as_bytes(), 0, "yaml", dir)?;
    let mut items = vec![("b", "B"), ("x", "B"), ("ハ", "C")];
    if kind == 3 && src.contains(unit) {
        items.insert(1, ("あいう", "B"));
    }
    let steps = [Step::Conv(vec![('a', 'A')]), Step::Reduce('ー')];
    yaml_means(&f, &format!("{n} bytes, {unit:?} before what follows part {at}"), &items, &steps, 1)
}

fn yaml_means(f: &Path, src: &str, items: &[(&str, &str)], steps: &[Step], len: u32) -> Result<bool, String> {
    let e = |e: ::chanoma::error::Error| format!("a valid configuration is rejected: {e}: {src:?}");
    let want = distinct(items.iter().map(|(a, b)| (a.to_string(), b.to_string())));
    same_entries("table_from_yaml_path", &want, &entries(&table_from_yaml_path(f).map_err(e)?.items())).map_err(|m| format!("{m}: {src:?}"))?;
    let c = Chanoma::from_config_file(f).map_err(e)?;
    let toks: Vec<String> = ["a", "b", "A", " ", "ー", "~", "ハ", "゜", "x"].iter().map(|s| s.to_string()).collect();
    let pipe = Pipe(steps.iter().flat_map(|s| s.machines()).collect());
    let map = char_map(&want);
    for l in 0..=len {
        for i in 0..(toks.len() as u64).pow(l) {
            let t = nth_string(&toks, l, i);
            let mut exp = pipe.run(&t);
            if !want.is_empty() {
                let Some(m) = &map else { continue };
                exp = exp.chars().map(|c| *m.get(&c).unwrap_or(&c)).collect();
            }
            let got = c.normalize(&t);
            if got != exp {
                return Err(format!("{src:?} on {t:?}: {got:?}, expected {exp:?}"));
            }
        }
    }
    Ok(true)
}

/// Sequences of distinct elements of 0..n: how many of each length, and the i-th of them.
fn arrangements(n: u64, k: u64) -> u64 {
    (0..k).map(|j| n - j).product()
}
fn arrangement(n: usize, k: usize, mut i: u64) -> Vec<usize> {
    let mut left: Vec<usize> = (0..n).collect();
    let mut out = Vec::new();
    for j in 0..k {
        let rest = arrangements((n - j - 1) as u64, (k - j - 1) as u64);
        out.push(left.remove((i / rest) as usize));
        i %= rest;
    }
    out
}

/// The k-th of 80 000 ideographs.
fn han(k: u32) -> char {
    char::from_u32(if k < 20_000 { 0x4e00 + k } else { 0x20000 + k - 20_000 }).unwrap()
}

fn c18(ctx: &Ctx) {
    let case = |d: &YDoc| json!({"prop": "C18", "kind": "yaml", "doc": d, "rendered": d.render().chars().take(2000).collect::<String>()});
    let base = YDoc { steps: vec![], items: vec![], spell: 0, flow: false, quote: 0, items_first: false, lead: 0, crlf: false, yml: false };
    let all = y_steps();
    // every order of every set of steps
    for k in 0..=7usize {
        let n = arrangements(7, k as u64);
        let both = if k <= 4 || ctx.thorough { 2 } else { 1 };
        let g = |i: u64| {
            let m = mixed(i, &[n, both]);
            YDoc { steps: arrangement(7, k, m[0]).iter().map(|j| all[*j].clone()).collect(), items: if m[1] == 1 || both == 1 { y_items() } else { vec![] }, ..base.clone() }
        };
        let len = if k <= 3 { 3 } else { ctx.pick(2, 3) };
        ctx.explore(
            &format!("every order of every {k} of the 7 steps, {} entries; all texts of at most {len} symbols over {}", if both == 2 { "with and without" } else { "with" }, Y_ALPHABET.len()),
            n * both,
            |i| case(&g(i)),
            |w, i| yaml_doc(&g(i), len, &w.dir),
        );
    }
    // every spelling of the document
    let orders: Vec<Vec<usize>> = (0..=ctx.pick(2, 3)).flat_map(|k| (0..arrangements(7, k as u64)).map(move |i| arrangement(7, k, i))).chain([(0..7).collect(), (0..7).rev().collect()]).collect();
    let item_sets: Vec<Pairs> = vec![vec![], y_items()[..1].to_vec(), y_items(), vec![("ー".into(), "1".into()), ("~".into(), "1".into()), ("-".into(), "'".into())]];
    let r = [orders.len() as u64, item_sets.len() as u64, 3, 2, 3, 2, 3, 2, 2];
    let g = |i: u64| {
        let m = mixed(i, &r);
        YDoc {
            steps: orders[m[0] as usize].iter().map(|j| all[*j].clone()).collect(),
            items: item_sets[m[1] as usize].clone(),
            spell: m[2] as u8,
            flow: m[3] == 1,
            quote: m[4] as u8,
            items_first: m[5] == 1,
            lead: m[6] as u8,
            crlf: m[7] == 1,
            yml: m[8] == 1,
        }
    };
    ctx.explore("every layout (3 spellings of the entries, flow or block, 3 quotings, section order, 3 headings, line ends, extension) of every sequence of up to 2 (thorough 3) steps and both full ones, 4 sets of entries", r.iter().product(), |i| case(&g(i)), |w, i| yaml_doc(&g(i), 1, &w.dir));
    // entries: every set, every spelling
    let strs = ["a", "b", "あ", "x y", "", "1", "true", "~", "#", ":", "- a", "'", "\"", "{", "\n", "@", "か゛"];
    let es = strs.len() as u64;
    let r = [es, es, es, es, 3, 2, 3];
    let per2 = |i: u64| {
        let m = mixed(i, &r);
        let p = |k: usize| (strs[m[k] as usize].to_string(), strs[m[k + 1] as usize].to_string());
        YDoc { items: vec![p(0), p(2)], spell: m[4] as u8, flow: m[5] == 1, quote: m[6] as u8, ..base.clone() }
    };
    if ctx.thorough {
        ctx.explore("every two entries over 17 strings, 18 spellings", r.iter().product(), |i| case(&per2(i)), |w, i| yaml_doc(&per2(i), 0, &w.dir));
    }
    let r1 = [es, es, 3, 2, 3];
    let per1 = |i: u64| {
        let m = mixed(i, &r1);
        YDoc { items: vec![(strs[m[0] as usize].to_string(), strs[m[1] as usize].to_string())], spell: m[2] as u8, flow: m[3] == 1, quote: m[4] as u8, ..base.clone() }
    };
    ctx.explore("every entry over 17 strings, 18 spellings", r1.iter().product(), |i| case(&per1(i)), |w, i| yaml_doc(&per1(i), 0, &w.dir));
    let small = ["a", "b", "A", "あ"];
    let r3 = [4u64, 4, 4, 4, 4, 4, 3, 2];
    let per3 = |i: u64| {
        let m = mixed(i, &r3);
        let p = |k: usize| (small[m[k] as usize].to_string(), small[m[k + 1] as usize].to_string());
        YDoc { items: vec![p(0), p(2), p(4)], spell: m[6] as u8, flow: m[7] == 1, ..base.clone() }
    };
    ctx.explore("every three entries over 4 strings, 6 spellings", r3.iter().product(), |i| case(&per3(i)), |w, i| yaml_doc(&per3(i), 0, &w.dir));
    // many entries out of few, repeated in every pattern
    let few: Pairs = [("a", "A"), ("a", "B"), ("b", "A"), ("A", "a")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
    for n in 4..=ctx.pick(6u32, 8) {
        let g = |i: u64| {
            let m = mixed(i, &[4u64.pow(n), 3, 2]);
            YDoc { items: mixed(m[0], &vec![4; n as usize]).iter().map(|x| few[*x as usize].clone()).collect(), spell: m[1] as u8, flow: m[2] == 1, ..base.clone() }
        };
        ctx.explore(&format!("all sequences of {n} of 4 entries, 6 spellings"), 4u64.pow(n) * 6, |i| case(&g(i)), |w, i| yaml_doc(&g(i), 0, &w.dir));
    }
    // entries easily taken for one another
    let rt = rel::tables();
    let g = |i: u64| {
        let m = mixed(i, &[rt.len() as u64, 3, 2, 3]);
        YDoc { items: rt[m[0] as usize].clone(), spell: m[1] as u8, flow: m[2] == 1, quote: m[3] as u8, ..base.clone() }
    };
    ctx.explore(&format!("{} tables of entries that some folding, trimming or truncation would make equal, 18 spellings", rt.len()), rt.len() as u64 * 18, |i| case(&g(i)), |w, i| yaml_doc(&g(i), 0, &w.dir));
    // members of steps easily taken for one another
    let every = ctx.pick(16u64, 1);
    let g = |i: u64| {
        let m = mixed(i, &[SCALARS.div_ceil(every), 3]);
        let c = scalar(m[0] * every);
        let v: Vec<char> = rel::variants(c).into_iter().chain([c]).collect();
        let st = match m[1] {
            0 => Step::Conv(v.iter().enumerate().map(|(k, x)| (*x, char::from_u32(0x3041 + k as u32).unwrap())).collect()),
            1 => Step::Elim(v),
            _ => Step::Lig(v.iter().enumerate().map(|(k, x)| (format!("{x}゛"), k.to_string())).collect()),
        };
        let mut d = YDoc { steps: vec![st], quote: 2, flow: i % 2 == 0, ..base.clone() };
        if i % 3 == 0 {
            d.items = vec![(c.to_string(), "z".into())];
        }
        d
    };
    ctx.explore("steps whose members share bits or a folding, for a grid of Unicode scalar values", SCALARS.div_ceil(every) * 3, |i| case(&g(i)), |w, i| yaml_doc(&g(i), 1, &w.dir));
    // sizes
    let sizes: Vec<usize> = ctx.pick((0..=70).chain([127, 128, 129, 255, 256, 257, 1000]).collect(), (0..=600).chain([1000, 5000]).collect());
    let n_members = sizes.len();
    let sizes: Vec<usize> = sizes.into_iter().chain(ctx.pick(vec![3000, 8191, 10_000], vec![8191, 10_000, 32_768, 65_535, 65_536, 65_537, 80_000])).collect();
    let big = |i: u64| {
        let m = mixed(i, &[sizes.len() as u64, 3, 2, 2]);
        let n = sizes[m[0] as usize];
        YDoc {
            items: (0..n as u32).map(|k| (han(k).to_string(), if m[3] == 1 { "t".into() } else { han(85_000 - k).to_string() })).collect(),
            spell: m[1] as u8,
            flow: m[2] == 1,
            ..base.clone()
        }
    };
    ctx.explore("n entries with different or the same target, 6 spellings", sizes.len() as u64 * 12, |i| case(&big(i)), |w, i| yaml_doc(&big(i), 0, &w.dir));
    let bigs = |i: u64| {
        let m = mixed(i, &[sizes.len() as u64, 3, 2]);
        let n = sizes[m[0] as usize] as u32 + 1;
        let cs: Vec<char> = (0..n).map(han).collect();
        let st = match m[1] {
            0 => Step::Conv(cs.iter().map(|c| (*c, 'x')).chain([('a', 'ー')]).collect()),
            1 => Step::Elim(cs.iter().cloned().chain(['~']).collect()),
            _ => Step::Lig(cs.iter().map(|c| (format!("{c}゛"), "x".into())).chain([("か゛".into(), "B".into())]).collect()),
        };
        YDoc { steps: vec![st, Step::Trim], flow: m[2] == 1, ..base.clone() }
    };
    let members = ctx.pick(sizes.len(), n_members) as u64 * 6;
    ctx.explore("steps with n members", members, |i| case(&bigs(i)), |w, i| yaml_doc(&bigs(i), 1, &w.dir));
    let n = (features().len() * AROUND) as u64;
    ctx.explore("YAML features (anchors, block scalars, tags, flow JSON, directives, comments), 8 surroundings, without and with a byte order mark, directly and through links to files of other names", n, |i| json!({"prop": "C18", "kind": "feature", "n": i, "doc": features()[i as usize / AROUND].0}), |w, i| feature(i as usize, &w.dir));
    // padding
    let r = [BIG.len() as u64 - ctx.pick(3, 0), 3, 4, 6, 2];
    let pad = |i: u64| {
        let m = mixed(i, &r);
        // a list goes on only in the list
        let at = if m[2] == 3 { 3 } else { m[3] };
        (BIG[m[0] as usize] + m[1] as usize - 1, m[2], at, m[4] == 1)
    };
    ctx.explore("documents of 4 KiB to 2 MiB (thorough: 16 MiB), one byte less, exactly and one more, padded with comments, blank lines, one long line or members of a list at each of 6 places", r.iter().product(), |i| json!({"prop": "C18", "kind": "padded", "of": pad(i)}), |w, i| {
        let (n, kind, at, bom) = pad(i);
        padded(n, kind, at, bom, &w.dir)
    });
    ctx.assume("entries with more than one character on a side are compared as table contents only");
    crate::p_fault::short(ctx, false);
}

// ---------------------------------------------------------------- C20

const PROBE: &str = "aＡ か゛ーー~ｱ１ -\n あb";

/// All ways to load one document; returns whether each succeeded.
fn load_all(csv: bool, f: &Path) -> Result<[bool; 4], String> {
    let c = guard(|| Chanoma::from_config_file(f))?;
    if let Ok(c) = &c {
        guard(|| {
            c.normalize(PROBE);
            c.normalize("");
            c.normalize_with_positions(PROBE);
        })
        .map_err(|e| format!("loading succeeds, using the normalizer then {e}"))?;
    }
    let used = |t: Result<Table, ::chanoma::error::Error>| -> Result<bool, String> {
        let Ok(t) = t else { return Ok(false) };
        guard(|| Chanoma::from_table(t).normalize(PROBE)).map_err(|e| format!("loading succeeds, using the table then {e}"))?;
        Ok(true)
    };
    Ok(if csv {
        [c.is_ok(), used(guard(|| table_from_csv_path(f))?)?, used(guard(|| TableBuilder::from_csv_path(f).map(|b| b.build()))?)?, {
            let mut b = TableBuilder::new();
            guard(|| b.add_from_csv(f).is_ok())?
        }]
    } else {
        let m = guard(|| modifiers_from_yaml_path(f).is_ok())?;
        let t = used(guard(|| table_from_yaml_path(f))?)?;
        if c.is_ok() != (m && t) {
            return Err(format!("loading the configuration {}, its steps {} and its table {}", ok(c.is_ok()), ok(m), ok(t)));
        }
        [c.is_ok(), t, used(guard(|| TableBuilder::from_yaml_path(f).map(|b| b.build()))?)?, {
            let mut b = TableBuilder::new();
            guard(|| b.add_from_yaml(f).is_ok())?
        }]
    })
}
fn ok(b: bool) -> &'static str {
    if b {
        "succeeds"
    } else {
        "fails"
    }
}

fn bytes(b: &[u8], dir: &Path) -> Result<bool, String> {
    // as CSV
    let f = dir.join("raw.csv");
    std::fs::write(&f, b).map_err(|e| e.to_string())?;
    let r = load_all(true, &f).map_err(|e| format!("as CSV: {e}"))?;
    if r.iter().any(|x| *x != r[0]) {
        return Err(format!("as CSV: the ways to load the file disagree: {r:?}"));
    }
    // A data line that is not UTF-8; with quotes around, lines are not so easily told.
    let lines = b.strip_prefix(b"\xef\xbb\xbf").unwrap_or(b);
    let bad = !b.contains(&b'"') && lines.split(|c| *c == b'\n' || *c == b'\r').filter(|l| !l.is_empty()).skip(1).any(|l| std::str::from_utf8(l).is_err());
    if bad && r[0] {
        return Err("as CSV: a row that is not UTF-8 is accepted".into());
    }
    let mut nt = bad;
    // as YAML
    let f = dir.join("raw.yaml");
    std::fs::write(&f, b).map_err(|e| e.to_string())?;
    let r = load_all(false, &f).map_err(|e| format!("as YAML: {e}"))?;
    match serde_yaml::from_slice::<serde_yaml::Value>(b) {
        Err(e) if !e.to_string().contains("EOF while parsing") => {
            nt = true;
            if r.iter().any(|x| *x) {
                return Err(format!("as YAML: accepted, although it is not valid YAML: {e}"));
            }
        }
        Err(_) => {}
        Ok(v) => {
            let v = V::of(&v);
            let t = v.verdict();
            nt |= t == Verdict::Err;
            check_verdict(t, &v, &r)?;
        }
    }
    Ok(nt)
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum V {
    Null,
    Bool(bool),
    Int(i64),
    Float(String),
    Str(String),
    Seq(Vec<V>),
    Map(Vec<(V, V)>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Ok,
    Any,
    Err,
}
use Verdict as R;
fn both(a: R, b: R) -> R {
    match (a, b) {
        (R::Err, _) | (_, R::Err) => R::Err,
        (R::Any, _) | (_, R::Any) => R::Any,
        _ => R::Ok,
    }
}
fn every(i: impl IntoIterator<Item = R>) -> R {
    i.into_iter().fold(R::Ok, both)
}

fn s(x: &str) -> V {
    V::Str(x.into())
}

impl V {
    fn of(v: &serde_yaml::Value) -> V {
        use serde_yaml::Value as Y;
        match v {
            Y::Null => V::Null,
            Y::Bool(b) => V::Bool(*b),
            Y::Number(n) => n.as_i64().map(V::Int).unwrap_or_else(|| V::Float(n.to_string())),
            Y::String(s) => V::Str(s.clone()),
            Y::Sequence(v) => V::Seq(v.iter().map(V::of).collect()),
            Y::Mapping(m) => V::Map(m.iter().map(|(a, b)| (V::of(a), V::of(b))).collect()),
        }
    }
    fn flow(&self) -> String {
        match self {
            V::Null => "~".into(),
            V::Bool(b) => b.to_string(),
            V::Int(i) => i.to_string(),
            V::Float(s) => s.clone(),
            V::Str(s) => yq(s),
            V::Seq(v) => format!("[{}]", v.iter().map(|x| x.flow()).collect::<Vec<_>>().join(", ")),
            V::Map(m) => format!("{{{}}}", m.iter().map(|(a, b)| format!("? {} : {}", a.flow(), b.flow())).collect::<Vec<_>>().join(", ")),
        }
    }
    fn get(&self, k: &str) -> Option<&V> {
        match self {
            V::Map(m) => m.iter().find(|(a, _)| *a == s(k)).map(|(_, v)| v),
            _ => None,
        }
    }
    /// A string; one character is surely fine, an empty or longer one may be refused.
    fn string(&self) -> R {
        match self {
            V::Str(s) if s.chars().count() == 1 => R::Ok,
            V::Str(_) => R::Any,
            _ => R::Err,
        }
    }
    fn items(&self) -> R {
        match self {
            V::Null => R::Any,
            V::Seq(v) => every(v.iter().map(|p| match p {
                V::Map(m) => {
                    let side = |k: &str| p.get(k).map(|v| v.string()).unwrap_or(R::Err);
                    let more = if m.len() > 2 { R::Any } else { R::Ok };
                    both(both(side("from"), side("to")), more)
                }
                _ => R::Err,
            })),
            V::Map(m) => every(m.iter().map(|(k, v)| {
                both(
                    k.string(),
                    match v {
                        V::Seq(v) => every(v.iter().map(|x| x.string())),
                        v => v.string(),
                    },
                )
            })),
            _ => R::Err,
        }
    }
    fn step(k: &V, v: &V) -> R {
        let V::Str(k) = k else { return R::Err };
        match (k.as_str(), v) {
            ("trim" | "neologdn" | "dotted_space_eliminator", V::Null) => R::Ok,
            ("trim" | "neologdn" | "dotted_space_eliminator", _) => R::Err,
            ("consecutive_character_reducer", v) => v.string(),
            // eliminating nothing may be refused
            ("character_eliminator", V::Seq(v)) if v.is_empty() => R::Any,
            ("character_eliminator", V::Seq(v)) => every(v.iter().map(|x| x.string())),
            ("character_converter" | "ligature_translator", V::Map(m)) if m.is_empty() => R::Any,
            ("character_converter" | "ligature_translator", V::Map(m)) => every(m.iter().map(|(a, b)| both(a.string(), b.string()))),
            _ => R::Err,
        }
    }
    fn steps(&self) -> R {
        match self {
            V::Null => R::Any,
            V::Map(m) => every(m.iter().map(|(k, v)| V::step(k, v))),
            _ => R::Err,
        }
    }
    fn verdict(&self) -> R {
        let V::Map(m) = self else { return R::Any };
        let items = self.get("items").map(|v| v.items()).unwrap_or(R::Ok);
        let steps = self.get("modifiers").map(|v| v.steps()).unwrap_or(R::Ok);
        let rest = if m.iter().any(|(k, _)| *k != s("items") && *k != s("modifiers")) { R::Any } else { R::Ok };
        both(both(items, steps), rest)
    }
}

/// r: as configuration, and three ways to load the table alone.
fn check_verdict(t: R, v: &V, r: &[bool; 4]) -> Result<(), String> {
    let items = v.get("items").map(|v| v.items()).unwrap_or(R::Ok);
    let show = || v.flow().chars().take(300).collect::<String>();
    match t {
        R::Err if r[0] => return Err(format!("accepted, although a value has the wrong type or a step is unknown: {}", show())),
        R::Ok if !r[0] => return Err(format!("refused, although it is valid: {}", show())),
        _ => {}
    }
    match items {
        R::Err if r[1..].iter().any(|x| *x) => Err(format!("its table loads, although a value under items has the wrong type: {}", show())),
        R::Ok if matches!(v, V::Map(_)) && t == R::Ok && !r[1..].iter().all(|x| *x) => Err(format!("its table does not load, although it is valid: {}", show())),
        _ => Ok(()),
    }
}

fn tree(v: &V, style: usize, dir: &Path) -> Result<bool, String> {
    let f = dir.join(if style & 1 == 1 { "tree.yml" } else { "tree.yaml" });
    let doc = if style & 2 == 2 { block(v) } else { v.flow() };
    std::fs::write(&f, &doc).map_err(|e| e.to_string())?;
    let r = load_all(false, &f).map_err(|e| format!("{e}: {:?}", doc.chars().take(300).collect::<String>()))?;
    let t = v.verdict();
    check_verdict(t, v, &r)?;
    Ok(t == R::Err)
}

/// The outer two levels in block style.
fn block(v: &V) -> String {
    let V::Map(m) = v else { return v.flow() };
    let mut o = String::new();
    for (k, v) in m {
        o.push_str(&format!("{}:", k.flow()));
        match v {
            V::Map(m) if !m.is_empty() => {
                o.push('\n');
                for (k, v) in m {
                    o.push_str(&format!("  ? {}\n  : {}\n", k.flow(), v.flow()));
                }
            }
            V::Seq(s) if !s.is_empty() => {
                o.push('\n');
                for x in s {
                    o.push_str(&format!("- {}\n", x.flow()));
                }
            }
            v => o.push_str(&format!(" {}\n", v.flow())),
        }
    }
    o
}

/// An extension as a user may write it, on its own and at the end of a path.
fn extension(n: &str) -> Result<(), String> {
    use chanoma::file_extension::FileExtension;
    let kind = |e: &str| match e {
        "csv" => Some(FileExtension::Csv),
        "yaml" | "yml" => Some(FileExtension::Yaml),
        _ => None,
    };
    let bare = n.strip_prefix('.').unwrap_or(n);
    if kind(&bare.to_lowercase()).is_some() == kind(bare).is_some() {
        let got = guard(|| n.parse::<FileExtension>().ok())?;
        if got != kind(bare) {
            return Err(format!("the extension {n:?} is taken for {got:?}"));
        }
        if let Some(e) = got {
            let t = e.to_string();
            if t.parse::<FileExtension>().ok() != Some(e) {
                return Err(format!("the extension {n:?} is written as {t:?}, which names another one"));
            }
        }
    }
    let ext = n.rfind('.').filter(|i| *i > 0).map(|i| &n[i + 1..]).unwrap_or("");
    if kind(&ext.to_lowercase()).is_some() == kind(ext).is_some() {
        let got = guard(|| FileExtension::from_path(Path::new("some.csv/d").join(n)).ok())?;
        if got != kind(ext) {
            return Err(format!("the extension of {n:?} is taken for {got:?}"));
        }
    }
    Ok(())
}

/// A file of this name with a valid, empty configuration.
fn name(n: &str, dir: &Path) -> Result<bool, String> {
    if !n.contains('/') && n != ".." {
        extension(n)?;
    }
    if n.is_empty() || n.contains('/') || n == "." || n == ".." {
        return Ok(false);
    }
    let f = dir.join(n);
    std::fs::write(&f, "{}").map_err(|e| e.to_string())?;
    let r = guard(|| Chanoma::from_config_file(&f).map(|_| ()));
    std::fs::remove_file(&f).map_err(|e| e.to_string())?;
    let r = r?;
    // the part behind the last dot, if something is before it
    let ext = n.rfind('.').filter(|i| *i > 0).map(|i| &n[i + 1..]);
    match ext {
        Some("csv" | "yaml" | "yml") => r.map(|_| true).map_err(|e| format!("{n:?} is refused: {e}")),
        Some(e) if ["csv", "yaml", "yml"].contains(&e.to_lowercase().as_str()) => Ok(false),
        _ if r.is_ok() => Err(format!("{n:?} is accepted although its extension is not supported")),
        _ => Ok(true),
    }
}

const ODD: u64 = 26;
fn odd_path(n: u64, dir: &Path) -> Result<bool, String> {
    use std::os::unix::ffi::OsStrExt;
    let d = dir.join("odd");
    let _ = std::fs::remove_dir_all(&d);
    std::fs::create_dir_all(&d).map_err(|e| e.to_string())?;
    let os = |b: &[u8]| d.join(std::ffi::OsStr::from_bytes(b));
    let good = |p: PathBuf| -> PathBuf {
        std::fs::write(&p, "{}").unwrap();
        p
    };
    let link = |to: &str, at: &str| -> PathBuf {
        let p = d.join(at);
        std::os::unix::fs::symlink(to, &p).unwrap();
        p
    };
    // (path, must fail, must succeed)
    let (p, want) = match n {
        0 => (d.join("missing.csv"), R::Err),
        1 => (d.join("missing.yaml"), R::Err),
        2 | 3 => {
            let p = d.join(["dir.csv", "dir.yaml"][n as usize - 2]);
            std::fs::create_dir(&p).unwrap();
            (p, R::Err)
        }
        4 => (link("nowhere.csv", "dangling.csv"), R::Err),
        5 => (link("loop.yaml", "loop.yaml"), R::Err),
        6 => {
            good(d.join("target.csv"));
            (link("target.csv", "link.csv"), R::Ok)
        }
        7 => {
            good(d.join("target"));
            (link("target", "link.yaml"), R::Ok)
        }
        8 => {
            good(d.join("target.csv"));
            (link("target.csv", "link"), R::Err)
        }
        9 => (good(d.join("f.csv")).join("x.csv"), R::Err),
        10 => (PathBuf::from(""), R::Err),
        11 => (PathBuf::from("."), R::Err),
        12 => (PathBuf::from(".."), R::Err),
        13 => (PathBuf::from("/"), R::Err),
        14 => (os(b"nul\0.csv"), R::Err),
        15 => (os(b"nul.yaml\0"), R::Err),
        16 => (good(os(b"x.cs\xff")), R::Err),
        17 => (good(os(b"x.\xff\xfe")), R::Err),
        18 => (good(os(b"\xff\xfe.csv")), R::Ok),
        19 => (good(os("日本語 \n.yaml".as_bytes())), R::Ok),
        20 => (d.join(format!("{}.csv", "x".repeat(300))), R::Err),
        21 => (d.join(format!("{}x.yaml", "y/".repeat(3000))), R::Err),
        22 => (link("/proc/self/mem", "mem.csv"), R::Err),
        23 => (link("/proc/self/mem", "mem.yaml"), R::Err),
        24 => (link("/dev/null", "null.csv"), R::Any),
        _ => (PathBuf::from(format!("{}/./../odd/a.yml", good(d.join("a.yml")).parent().unwrap().display())), R::Ok),
    };
    let r = guard(|| Chanoma::from_config_file(&p).map(|_| ()))?;
    if want == R::Err || want == R::Ok {
        let ext = p.extension().and_then(|e| e.to_str()).unwrap_or("");
        let t = match ext {
            "csv" => Some(guard(|| (table_from_csv_path(&p).is_ok(), TableBuilder::from_csv_path(&p).is_ok()))?),
            "yaml" | "yml" => Some(guard(|| (table_from_yaml_path(&p).is_ok(), TableBuilder::from_yaml_path(&p).is_ok()))?),
            _ => None,
        };
        let good = want == R::Ok;
        if r.is_ok() != good || t.is_some_and(|t| t != (good, good)) {
            return Err(format!("path {n} ({:?}): loading {}, tables {t:?}; expected that it {}", p.to_string_lossy().chars().take(80).collect::<String>(), ok(r.is_ok()), ok(good)));
        }
    }
    Ok(want == R::Err)
}

const NESTS: [&str; 9] = ["- ", "[", "{a: ", "? ", "- ? ", "[[1],", "aliases", "indent", "closed["];
fn nest(what: &str, n: u64, dir: &Path) -> Result<String, String> {
    let n = n as usize;
    let mut d = match what {
        "aliases" => {
            let mut s = "a0: &a0 [x, x]\n".to_string();
            for i in 1..n {
                s.push_str(&format!("a{i}: &a{i} [*a{0}, *a{0}, *a{0}, *a{0}]\n", i - 1));
            }
            s
        }
        "indent" => (0..n.min(5000)).map(|i| format!("{}a:\n", " ".repeat(i))).collect(),
        "closed[" => "[".repeat(n) + &"]".repeat(n),
        w => w.repeat(n) + "a",
    };
    if what != "aliases" {
        d = format!("items:\n  a: b\nother:\n {}", d.replace('\n', "\n "));
    }
    // A file of a few lines must not need more than this.
    unsafe {
        let lim = |r, n| libc::setrlimit(r, &libc::rlimit { rlim_cur: n, rlim_max: n });
        lim(libc::RLIMIT_CPU, 3);
        lim(libc::RLIMIT_AS, 3 << 30);
        lim(libc::RLIMIT_CORE, 0);
        libc::close(2);
        libc::open(c"/dev/null".as_ptr(), libc::O_WRONLY);
    }
    let f = dir.join("nest.yaml");
    std::fs::write(&f, d).map_err(|e| e.to_string())?;
    let r = guard(|| Chanoma::from_config_file(&f).map(|c| c.normalize(PROBE)))?;
    Ok(ok(r.is_ok()).into())
}

const LATE: u64 = 19;
/// A document that is wrong in one place only, about `n` bytes away from its other end.
fn late(what: u64, n: usize) -> Vec<u8> {
    let mut b: Vec<u8> = Vec::new();
    let until = |b: &mut Vec<u8>, n: usize, f: &dyn Fn(usize) -> String| {
        let mut k = 0;
        while b.len() < n {
            b.extend(f(k).bytes());
            k += 1;
        }
    };
    let row = |k: usize| format!("f{k},t{k}\n");
    let entry = |k: usize| format!("- from: f{k}\n  to: t{k}\n");
    let map = |k: usize| format!("  t{k}: [f{k}, g{k}]\n");
    let member = |k: usize| format!("  - {}\n", han(k as u32 % 80_000));
    let conv = |k: usize| format!("    {}: x\n", han(k as u32 % 80_000));
    let lig = |k: usize| format!("    f{k}: t{k}\n");
    match what {
        0 => {
            b.extend(b"h\n");
            until(&mut b, n, &row);
            b.extend(b"x,\xff\n");
        }
        1 => {
            b.extend(b"h\nx,\xff\n");
            until(&mut b, n, &row);
        }
        2 => {
            b.extend(b"h\n");
            until(&mut b, n / 2, &row);
            b.extend(b"\xe3\x81,x\n");
            until(&mut b, n, &row);
        }
        3 => {
            b.extend(b"items:\n");
            until(&mut b, n, &entry);
            b.extend(b"- from: x\n  to: [7]\n");
        }
        4 => {
            b.extend(b"items:\n");
            until(&mut b, n, &map);
            b.extend(b"  x: [7]\n");
        }
        5 => {
            b.extend(b"items:\n");
            until(&mut b, n, &map);
            b.extend(b"modifiers:\n  trin:\n");
        }
        6 => {
            b.extend(b"modifiers:\n  trin:\nitems:\n");
            until(&mut b, n, &map);
        }
        7 => {
            b.extend(b"modifiers:\n  character_eliminator:\n");
            until(&mut b, n.min(800_000), &member);
            b.extend(b"  - 7\n");
        }
        8 => {
            b.extend(b"modifiers:\n  character_converter:\n");
            until(&mut b, n.min(800_000), &conv);
            b.extend(b"    a: 7\n");
        }
        9 => {
            b.extend(b"modifiers:\n  ligature_translator:\n");
            until(&mut b, n, &lig);
            b.extend(b"    a: 7\n");
        }
        10..=13 => {
            b.extend(b"items:\n");
            until(&mut b, n, &map);
            b.extend(match what {
                10 => &b"  x: [\n"[..],
                11 => b"  x: [\xff]\n",
                12 => b"  \"x: [y]\n",
                _ => b"---\nitems: {}\n",
            });
        }
        14 => {
            until(&mut b, n, &|_| "# a comment of some length\n".into());
            b.extend(b"items: {a: [7]}\n");
        }
        15 => {
            b.extend(b"items: {a: [7]}\n");
            until(&mut b, n, &|_| "# a comment of some length\n".into());
        }
        16 => {
            b.extend(b"h\n");
            until(&mut b, n, &|_| "\u{3042}".into());
            b.extend(b"\xff,x\n");
        }
        17 => {
            b.extend(b"items:\n");
            until(&mut b, n, &map);
            b.extend(b"items:\n  x: [y]\n");
        }
        _ => {
            b.extend(b"items:\n  x: [y]\n");
            until(&mut b, n, &|_| "\n".into());
            b.extend(b"modifiers: 7\n");
        }
    }
    b
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn atoms() -> Vec<V> {
    vec![V::Null, V::Bool(true), V::Int(1), V::Float("-2.5".into()), s(""), s("a"), s("ab"), s("あ")]
}

fn c20(ctx: &Ctx) {
    let bcase = |b: &[u8]| match std::str::from_utf8(b) {
        Ok(t) => json!({"prop": "C20", "kind": "bytes", "text": t}),
        Err(_) => json!({"prop": "C20", "kind": "bytes", "hex": hex(b)}),
    };
    // every byte string, alone and inside documents
    let ctxs: [(&[u8], &[u8]); 5] = [(b"", b""), (b"a,b\n", b"\n"), (b"items:\n  ", b"\n"), (b"items: {a: ", b"}"), (b"modifiers:\n  ", b":")];
    for (k, (pre, post)) in ctxs.iter().enumerate() {
        for len in 0..=(if k == 0 { ctx.pick(2, 3) } else { 2 }) {
            let g = |i: u64| {
                let mut b = pre.to_vec();
                b.extend(mixed(i, &vec![256; len]).iter().map(|x| *x as u8));
                b.extend(*post);
                b
            };
            ctx.explore(&format!("all byte strings of length {len} between {:?} and {:?}", String::from_utf8_lossy(pre), String::from_utf8_lossy(post)), 256u64.pow(len as u32), |i| bcase(&g(i)), |w, i| bytes(&g(i), &w.dir));
        }
    }
    let tok: Vec<String> = ["items", "modifiers", ":", " ", "\n", "-", "a", "[", "]", "{", "}", ",", "&a", "*a", "!", "|", "\"", "'", "#", "trim", "\t", "? ", "1"].iter().map(|s| s.to_string()).collect();
    ctx.strings("YAML symbols", &tok, 0..=ctx.pick(4, 5), |t| bcase(t.as_bytes()), |w, t| bytes(t.as_bytes(), &w.dir));
    for (pre, post, n) in [("items:", "", 4), ("items: {a: b}\nmodifiers:\n  character_converter:", "", 3), ("modifiers:\n  trim:", "\nitems:\n- from: a\n  to: b\n", 3), ("modifiers:\n", "", 4)] {
        let n = if ctx.thorough { n } else { 3 };
        ctx.strings(&format!("YAML symbols between {pre:?} and {post:?}"), &tok, 0..=n, |t| bcase(format!("{pre}{t}{post}").as_bytes()), |w, t| bytes(format!("{pre}{t}{post}").as_bytes(), &w.dir));
    }
    let ct: Vec<&[u8]> = vec![b"a", b",", b"\"", b"\n", b"\r", b"\xff", b"\xe3\x81", "あ".as_bytes(), b"\0", b"\xef\xbb\xbf"];
    for len in 0..=ctx.pick(5u32, 6) {
        let g = |i: u64| mixed(i, &vec![ct.len() as u64; len as usize]).iter().flat_map(|x| ct[*x as usize].to_vec()).collect::<Vec<u8>>();
        ctx.explore(&format!("all texts of {len} CSV symbols over {} (malformed UTF-8 included)", ct.len()), (ct.len() as u64).pow(len), |i| bcase(&g(i)), |w, i| bytes(&g(i), &w.dir));
    }
    // value trees
    let tcase = |v: &V, st: usize| json!({"prop": "C20", "kind": "tree", "tree": v, "style": st, "rendered": v.flow().chars().take(500).collect::<String>()});
    let a = atoms();
    let mut l1: Vec<V> = a.clone();
    l1.push(V::Seq(vec![]));
    l1.push(V::Map(vec![]));
    for x in &a {
        l1.push(V::Seq(vec![x.clone()]));
        l1.push(V::Seq(vec![s("a"), x.clone()]));
        l1.push(V::Seq(vec![x.clone(), s("a")]));
        for y in &a {
            l1.push(V::Map(vec![(x.clone(), y.clone())]));
            l1.push(V::Map(vec![(s("from"), x.clone()), (s("to"), y.clone())]));
        }
        l1.push(V::Map(vec![(s("a"), s("b")), (x.clone(), s("c"))]));
        l1.push(V::Map(vec![(s("b"), s("b")), (s("c"), x.clone())]));
        l1.push(V::Map(vec![(s("from"), x.clone())]));
        l1.push(V::Map(vec![(s("to"), x.clone())]));
        l1.push(V::Map(vec![(s("from"), s("a")), (s("to"), s("b")), (s("more"), x.clone())]));
    }
    // duplicate keys mean different things to different readers
    l1.retain(|v| !matches!(v, V::Map(m) if m.len() > 1 && m.iter().enumerate().any(|(i, (k, _))| m[..i].iter().any(|(o, _)| o == k))));
    let n1 = l1.len() as u64;
    // level 2: one or two level-1 values in a list, one pair in a mapping
    let l2 = |i: u64| -> V {
        if i < n1 {
            return l1[i as usize].clone();
        }
        let i = i - n1;
        if i < n1 {
            return V::Seq(vec![l1[i as usize].clone()]);
        }
        let i = i - n1;
        let m = mixed(i, &[2, n1, n1]);
        if m[0] == 0 {
            V::Seq(vec![l1[m[1] as usize].clone(), l1[m[2] as usize].clone()])
        } else {
            V::Map(vec![(l1[m[1] as usize].clone(), l1[m[2] as usize].clone())])
        }
    };
    let n2 = 2 * n1 + 2 * n1 * n1;
    let steps = ["character_converter", "character_eliminator", "consecutive_character_reducer", "ligature_translator", "dotted_space_eliminator", "trim", "neologdn", "unknown", "", "Trim", "items"];
    let good_items = V::Map(vec![(s("x"), V::Seq(vec![s("y")]))]);
    let good_steps = V::Map(vec![(s("trim"), V::Null)]);
    let at_items = |i: u64| V::Map(vec![(s("items"), l2(i))]);
    ctx.explore(&format!("items: all {n2} values of depth 2"), n2 * 2, |i| tcase(&at_items(i / 2), (i % 2 * 2) as usize), |w, i| tree(&at_items(i / 2), (i % 2 * 2) as usize, &w.dir));
    let at = |i: u64| {
        let m = mixed(i, &[2, n1 * 2, 3]);
        let v = if m[1] < n1 { l1[m[1] as usize].clone() } else { V::Seq(vec![l1[(m[1] - n1) as usize].clone()]) };
        let (k, other) = if m[0] == 0 { ("items", (s("modifiers"), good_steps.clone())) } else { ("modifiers", (s("items"), good_items.clone())) };
        V::Map(match m[2] {
            0 => vec![(s(k), v)],
            1 => vec![(s(k), v), other],
            _ => vec![other, (s(k), v)],
        })
    };
    ctx.explore("each section with all values of depth 1, alone, before and after a valid other section", 2 * n1 * 2 * 3, |i| tcase(&at(i), 2), |w, i| tree(&at(i), 2, &w.dir));
    // one step with any value; and the same behind or before a valid step
    let n2s = if ctx.thorough { n2 } else { 2 * n1 };
    let st = |i: u64| {
        let m = mixed(i, &[steps.len() as u64, n2s, 3]);
        let p = (s(steps[m[0] as usize]), l2(m[1]));
        let g = (s("consecutive_character_reducer"), s("x"));
        let g = if g.0 == p.0 { (s("trim"), V::Null) } else { g };
        V::Map(vec![(
            s("modifiers"),
            V::Map(match m[2] {
                0 => vec![p],
                1 => vec![p, g],
                _ => vec![g, p],
            }),
        )])
    };
    ctx.explore("each step (and unknown ones) with all values, alone, before and after a valid step", steps.len() as u64 * n2s * 3, |i| tcase(&st(i), 1), |w, i| tree(&st(i), 1, &w.dir));
    let kt = |i: u64| {
        let m = mixed(i, &[n1, a.len() as u64]);
        V::Map(vec![(s("modifiers"), V::Map(vec![(l1[m[0] as usize].clone(), a[m[1] as usize].clone())]))])
    };
    ctx.explore("steps named by any value", n1 * a.len() as u64, |i| tcase(&kt(i), 0), |w, i| tree(&kt(i), 0, &w.dir));
    let root = |i: u64| if i < n1 { l1[i as usize].clone() } else { V::Map(vec![(l1[(i - n1) as usize].clone(), s("a")), (s("items"), V::Map(vec![(s("A"), V::Int(1))]))]) };
    ctx.explore("any value as the whole document, any additional key", n1 * 2, |i| tcase(&root(i), 0), |w, i| tree(&root(i), 0, &w.dir));
    // the wrong value among many right ones
    let ns: Vec<u64> = ctx.pick((1..=40).chain([100, 300]).collect(), (1..=150).chain([1000, 3000]).collect());
    let tot: u64 = ns.iter().sum();
    let locate = |mut i: u64| {
        for n in &ns {
            if i < *n {
                return (*n, i);
            }
            i -= n;
        }
        unreachable!()
    };
    let among = |i: u64| {
        let m = mixed(i, &[tot, 7]);
        let (n, k) = locate(m[0]);
        let c = |j: u64| V::Str(char::from_u32(0x4e00 + j as u32).unwrap().to_string());
        let bad = V::Int(7);
        let one = |j: u64| if j == k { bad.clone() } else { c(j) };
        let sec = |n: &str, v: V| V::Map(vec![(s(n), v)]);
        match m[1] {
            0 => sec("items", V::Map((0..n).map(|j| (one(j), s("x"))).collect())),
            1 => sec("items", V::Map((0..n).map(|j| (c(j), one(j))).collect())),
            2 => sec("items", V::Map(vec![(s("x"), V::Seq((0..n).map(one).collect()))])),
            3 => sec("items", V::Seq((0..n).map(|j| V::Map(vec![(s("from"), c(j)), (s("to"), one(j))])).collect())),
            4 => sec("modifiers", V::Map(vec![(s("character_eliminator"), V::Seq((0..n).map(one).collect()))])),
            5 => sec("modifiers", V::Map(vec![(s("character_converter"), V::Map((0..n).map(|j| (c(j), one(j))).collect()))])),
            _ => sec("modifiers", V::Map(vec![(s("ligature_translator"), V::Map((0..n).map(|j| (one(j), s("x"))).collect()))])),
        }
    };
    ctx.explore("one wrong value at every place among n right ones, 7 sections", tot * 7, |i| tcase(&among(i), 0), |w, i| tree(&among(i), 0, &w.dir));
    let csv_at = |i: u64| {
        let m = mixed(i, &[tot, 2]);
        let (n, k) = locate(m[0]);
        let mut b = b"h\n".to_vec();
        for j in 0..n {
            b.extend(format!("f{j},t{j}").bytes());
            if j == k {
                b.extend(if m[1] == 0 { &b"\xff"[..] } else { &b"\xe3\x81"[..] });
            }
            b.push(b'\n');
        }
        b
    };
    ctx.explore("one row that is not UTF-8 at every place among n rows", tot * 2, |i| bcase(&csv_at(i)), |w, i| bytes(&csv_at(i), &w.dir));
    // names and paths
    let nt: Vec<String> = ["", ".", "c", "s", "v", "x"].iter().skip(1).map(|s| s.to_string()).collect();
    ctx.strings("file names", &nt, 1..=ctx.pick(6, 7), |t| json!({"prop": "C20", "kind": "name", "name": t}), |w, t| name(t, &w.dir));
    let nt: Vec<String> = [".", "yaml", "yml", "csv", "YAML", "y", " ", "a", "json", "あ", "\n"].iter().map(|s| s.to_string()).collect();
    ctx.strings("file names", &nt, 1..=ctx.pick(4, 5), |t| json!({"prop": "C20", "kind": "name", "name": t}), |w, t| name(t, &w.dir));
    // characters of every width at every byte offset, around every length
    let wide = |c: u64, off: u64, n: u64| "a".repeat(off as usize) + &["a", "é", "あ", "𠮷"][c as usize].repeat(n as usize);
    let ln = |i: u64| {
        let m = mixed(i, &[4, 4, 250, 4]);
        let t: String = wide(m[0], m[1], m[2]);
        let t = match m[3] {
            0 => format!("f.{t}"),
            1 => format!("{t}.csv"),
            2 => format!("f.csv{t}"),
            _ => format!(".{t}"),
        };
        if t.len() <= 255 { t } else { "f.csv".to_string() }
    };
    ctx.explore("file names and extensions of every length, with characters of 1 to 4 bytes at every offset", 4 * 4 * 250 * 4, |i| json!({"prop": "C20", "kind": "name", "name": ln(i)}), |w, i| name(&ln(i), &w.dir));
    let lmax = ctx.pick(150, 1100);
    let lt = |i: u64| {
        let m = mixed(i, &[4, 4, lmax, 9]);
        let t = s(&wide(m[0], m[1], m[2]));
        let sec = |n: &str, v: V| V::Map(vec![(s(n), v)]);
        match m[3] {
            0 => sec("modifiers", V::Map(vec![(t, V::Null)])),
            1 => sec("modifiers", V::Map(vec![(s("trim"), V::Null), (t, s("x"))])),
            2 => sec("modifiers", V::Map(vec![(s("character_converter"), t)])),
            3 => sec("modifiers", V::Map(vec![(s("character_eliminator"), t)])),
            4 => sec("modifiers", V::Map(vec![(s("consecutive_character_reducer"), V::Seq(vec![s("a"), t]))])),
            5 => sec("modifiers", V::Map(vec![(s("ligature_translator"), V::Map(vec![(t, V::Int(1))]))])),
            6 => sec("items", t),
            7 => sec("items", V::Map(vec![(t.clone(), V::Seq(vec![t, V::Bool(true)]))])),
            _ => sec("items", V::Seq(vec![V::Map(vec![(s("from"), t)])])),
        }
    };
    ctx.explore("strings of every length, with characters of 1 to 4 bytes at every offset, in 9 wrong places", 4 * 4 * lmax * 9, |i| tcase(&lt(i), 0), |w, i| tree(&lt(i), 0, &w.dir));
    let lc = |i: u64| {
        let m = mixed(i, &[4, 4, lmax, 5]);
        let t = wide(m[0], m[1], m[2]).into_bytes();
        let mut b = if m[3] == 4 { vec![] } else { b"h\nA,B\n".to_vec() };
        match m[3] {
            0 => b.extend([&t[..], b",\xff\n"].concat()),
            1 => b.extend([&b"\"a"[..], &t, b"\xe3\",x\n"].concat()),
            2 => b.extend([&b"x,"[..], &t, b"\x80"].concat()),
            3 => b.extend([&b"\""[..], &t, b"\n"].concat()),
            _ => b.extend([&b"items: {x: "[..], &t, b"\xff}\n"].concat()),
        }
        b
    };
    ctx.explore("text of every length before a malformed byte, in 5 places", 4 * 4 * lmax * 5, |i| bcase(&lc(i)), |w, i| bytes(&lc(i), &w.dir));
    let ns: Vec<usize> = ctx.pick(vec![3000, 4096, 8192, 9000, 20_000, 66_000, 140_000, 1_100_000], vec![3000, 4096, 8192, 9000, 20_000, 66_000, 140_000, 300_000, 1_100_000, 2_200_000, 5_000_000, 17_000_000]);
    let bnd = |i: u64| {
        let m = mixed(i, &[ns.len() as u64, LATE]);
        (m[1], ns[m[0] as usize])
    };
    ctx.explore("long documents with one fault at one end or in the middle", ns.len() as u64 * LATE, |i| json!({"prop": "C20", "kind": "late", "what": bnd(i).0, "n": bnd(i).1}), |w, i| bytes(&late(bnd(i).0, bnd(i).1), &w.dir));
    ctx.explore("odd paths: missing, directories, links, loops, no UTF-8, NUL, too long, failing reads", ODD, |i| json!({"prop": "C20", "kind": "path", "n": i}), |w, i| odd_path(i, &w.dir));
    // nesting, each in a process of its own
    let ns: Vec<u64> = ctx.pick((1..=8).chain([40, 60, 100, 127, 128, 129, 200, 1000, 5000, 20_000, 100_000]).collect(), (1..=300).chain([1000, 2000, 5000, 10_000, 20_000, 50_000, 100_000, 1_000_000]).collect());
    let nn = ns.len() as u64;
    let get = |i: u64| {
        let m = mixed(i, &[NESTS.len() as u64, nn]);
        (NESTS[m[0] as usize], ns[m[1] as usize])
    };
    ctx.explore_res(
        "nested and repeated values, each judged in a process of its own",
        nn * NESTS.len() as u64,
        |i| json!({"prop": "C20", "kind": "nest", "what": get(i).0, "n": get(i).1}),
        |dir, i| nest(get(i).0, get(i).1, dir),
        |_, i, r| {
            let (what, n) = get(i);
            match r {
                Ok(_) => Ok(true),
                Err(e) if what == "aliases" && n >= 11 => ctx.known("alias expansion", e),
                Err(e) if ["- ", "? ", "- ? "].contains(&what) && n >= 5000 => ctx.known("deep nesting", e),
                Err(e) => Err(e),
            }
        },
    );
    crate::p_fault::failing(ctx);
}
