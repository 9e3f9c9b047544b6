//! C04 C05 C06: the routes to a result agree, steps run in order, positions locate the changes.

use crate::core::*;
use crate::p_text::{huge_sizes, variety_texts, with_norm};
use crate::rel;
use crate::spec::*;
use ::chanoma::Chanoma;
use serde_json::{json, Value};
use std::cell::Cell;
use std::path::Path;

// ---- the logger: whether debug is enabled is decided per thread, per call
thread_local! {
    static DEBUG: Cell<u8> = const { Cell::new(0) };
    static LOGGED: Cell<u64> = const { Cell::new(0) };
}
/// What the logger does when it is asked (true) or given a message (false), except in the middle
/// of doing it.
pub type Hook = Box<dyn Fn(bool)>;
thread_local! {
    static HOOK: std::cell::RefCell<Option<Hook>> = const { std::cell::RefCell::new(None) };
}
pub fn set_hook(h: Option<Hook>) {
    HOOK.with(|k| *k.borrow_mut() = h);
}
fn hook(asked: bool) {
    if DEBUG.with(|d| d.get()) > 2 {
        let level = DEBUG.with(|d| d.replace(2));
        HOOK.with(|k| {
            if let Some(f) = &*k.borrow() {
                f(asked)
            }
        });
        DEBUG.with(|d| d.set(level));
    }
}
struct Gate;
impl log::Log for Gate {
    fn enabled(&self, m: &log::Metadata) -> bool {
        let d = DEBUG.with(|d| d.get());
        hook(true);
        d > 0 && (m.level() <= log::Level::Debug)
    }
    fn log(&self, r: &log::Record) {
        if DEBUG.with(|d| d.get()) > 0 && r.level() <= log::Level::Debug {
            LOGGED.with(|l| l.set(l.get() + 1));
            hook(false);
            if DEBUG.with(|d| d.get()) > 1 {
                std::hint::black_box(format!("{}", r.args()));
            }
        }
    }
    fn flush(&self) {}
}
static GATE: Gate = Gate;
pub fn install_logger() {
    let _ = log::set_logger(&GATE);
    log::set_max_level(log::LevelFilter::Trace);
}
/// Runs `f` with debug logging enabled (2: every message is formatted as well).
pub fn with_debug<R>(level: u8, f: impl FnOnce() -> R) -> R {
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            DEBUG.with(|d| d.set(0));
        }
    }
    let _r = Reset;
    DEBUG.with(|d| d.set(level));
    f()
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    install_logger();
    if case["kind"] == "chain" {
        return chain(case["n"].as_u64().expect("n") as usize, dir).map(|_| ());
    }
    if let Some(t) = case["labels"].as_str() {
        return labelled(t, dir).map(|_| ());
    }
    let spec: Spec = serde_json::from_value(case["spec"].clone()).expect("spec");
    let text = case_text(case);
    match case["prop"].as_str().unwrap() {
        "C04" => agree(&spec.build(dir)?, &text, 2).map(|_| ()),
        "C05" => ordered(&spec, &text, dir).map(|_| ()),
        _ => located(&spec, &spec.build(dir)?, &text).map(|_| ()),
    }
}

/// C04
fn agree(c: &Chanoma, text: &str, debug: u8) -> Result<bool, String> {
    let plain = c.normalize(text);
    let pos = c.normalize_with_positions(text);
    if pos.text() != plain {
        return Err(format!("normalize and normalize_with_positions differ on {}: {}", show(text), diff(&plain, pos.text())));
    }
    let before = LOGGED.with(|l| l.get());
    let logged = with_debug(debug, || c.normalize(text));
    if logged != plain {
        return Err(format!("normalize with debug logging differs on {}: {}", show(text), diff(&plain, &logged)));
    }
    let logged = with_debug(debug, || c.normalize_with_positions(text).text().to_string());
    if logged != plain {
        return Err(format!("normalize_with_positions with debug logging differs on {}: {}", show(text), diff(&plain, &logged)));
    }
    let _ = before;
    if pos.modified_records().is_empty() && plain != text {
        return Err(format!("no step is configured but {} became {}", show(text), show(&plain)));
    }
    Ok(plain != text)
}

thread_local! { static PARTS: std::cell::RefCell<Vec<(Spec, Chanoma)>> = const { std::cell::RefCell::new(Vec::new()) }; }
/// Runs `f` on a normalizer of `spec`, built once per worker.
fn with_part<R>(spec: &Spec, dir: &Path, f: impl FnOnce(&Chanoma) -> R) -> Result<R, String> {
    let at = PARTS.with(|p| p.borrow().iter().position(|(s, _)| s == spec));
    let at = match at {
        Some(at) => at,
        None => {
            let c = spec.build(dir)?;
            PARTS.with(|p| {
                p.borrow_mut().push((spec.clone(), c));
                p.borrow().len() - 1
            })
        }
    };
    PARTS.with(|p| Ok(f(&p.borrow()[at].1)))
}

/// The name a record gives its step: the first word of its kind.
fn label(kind: &impl std::fmt::Debug) -> String {
    struct Head(String);
    impl std::fmt::Write for Head {
        fn write_str(&mut self, s: &str) -> std::fmt::Result {
            let n = s.find(|c: char| !c.is_alphanumeric() && c != '_').unwrap_or(s.len());
            self.0.push_str(&s[..n]);
            if n < s.len() {
                Err(std::fmt::Error)
            } else {
                Ok(())
            }
        }
    }
    let mut h = Head(String::new());
    let _ = std::fmt::Write::write_fmt(&mut h, format_args!("{kind:?}"));
    h.0
}
macro_rules! named {
    ($m:expr) => {
        $m.modified_records().iter().map(|r| (label(&r.kind), r.text.clone())).collect::<Vec<(String, String)>>()
    };
}

/// C05: each kind of step (the first record of a file with just that step) is named in one way on every text, and no two in the same way.
fn labelled(text: &str, dir: &Path) -> Result<bool, String> {
    let mut seen: Vec<(String, Step)> = Vec::new();
    for s in all_steps() {
        let c = Spec::step(s.clone());
        let (a, b) = with_part(&c, dir, |c| (named!(c.normalize_with_positions(text)), named!(c.normalize_with_positions(""))))?;
        if a.is_empty() || b.is_empty() || a[0].0 != b[0].0 {
            return Err(format!("{s:?} is recorded as {a:?} on {} and as {b:?} on an empty text", show(text)));
        }
        if let Some((n, o)) = seen.iter().find(|x| x.0 == a[0].0) {
            return Err(format!("on {} the records of {s:?} and {o:?} both name the step {n}", show(text)));
        }
        seen.push((a[0].0.clone(), s));
    }
    Ok(true)
}

/// C05: the composed normalizer against its parts run one after the other.
fn ordered(spec: &Spec, text: &str, dir: &Path) -> Result<bool, String> {
    let mut cur = text.to_string();
    let mut records: Vec<(String, String)> = Vec::new();
    let mut whole = spec.0[0].construct(dir)?;
    let mut changed = 0;
    for (k, part) in spec.0.iter().enumerate() {
        if k > 0 {
            part.add_to(&mut whole);
        }
        let alone = if k == 0 || part.document().is_some() { Spec(vec![part.clone()]) } else { Spec(vec![Part::New, part.clone()]) };
        let (r, next) = with_part(&alone, dir, |c| (c.normalize_with_positions(&cur), c.normalize(&cur)))?;
        let texts = named!(r);
        match part {
            Part::New => {
                if !texts.is_empty() {
                    return Err("an empty normalizer records a step".into());
                }
            }
            Part::Yaml { steps, items } => {
                // the file's own steps, each alone, in the order written
                let mut t = cur.clone();
                if texts.len() < steps.len() {
                    return Err(format!("{} steps but {} records", steps.len(), texts.len()));
                }
                for (i, s) in steps.iter().enumerate() {
                    let one;
                    (t, one) = with_part(&Spec::step(s.clone()), dir, |c| (c.normalize(&t), named!(c.normalize_with_positions(&t))))?;
                    if texts[i].1 != t {
                        return Err(format!("record {i} of {} is {} but that step alone gives {}", show(&cur), show(&texts[i].1), show(&t)));
                    }
                    if one.first().map(|o| &o.0) != Some(&texts[i].0) {
                        return Err(format!("record {i} of {} names the step {} but that step alone is recorded as {one:?}", show(&cur), texts[i].0));
                    }
                }
                if !items.is_empty() {
                    t = with_part(&Spec(vec![Part::Table(items.clone())]), dir, |c| c.normalize(&t))?;
                }
                let last = texts.last().map_or(&cur, |l| &l.1);
                if last != &t {
                    return Err(format!("the configuration gives {} for {}, its steps one by one {}", show(last), show(&cur), show(&t)));
                }
            }
            _ => {
                if texts.len() != 1 {
                    return Err(format!("{part:?} records {} steps", texts.len()));
                }
            }
        }
        if let Some((_, l)) = texts.last() {
            if l != &next {
                return Err(format!("the last record of {part:?} is {} but its output {}", show(l), show(&next)));
            }
        }
        if next != cur {
            changed += 1;
        }
        cur = next;
        records.extend(texts);
        let got = whole.normalize(text);
        if got != cur {
            return Err(format!("with {} parts, {} gives {}, the parts one by one {}", k + 1, show(text), show(&got), show(&cur)));
        }
        let got = whole.normalize_with_positions(text);
        let got = named!(got);
        if got != records {
            return Err(format!("with {} parts, {} is recorded as {:?}, the parts one by one as {:?}", k + 1, show(text), got, records));
        }
    }
    Ok(changed > 0)
}

/// One table of a chain: it moves the marker one place on and leaves everything else.
fn link(k: usize) -> Pairs {
    let c = |i: usize| char::from_u32(0x4e00 + (i % 5000) as u32).unwrap().to_string();
    vec![(c(k), c(k + 1)), (c(k + 2), c(k + 2))]
}
/// C05: n tables one after the other, each moving a marker by one.
fn chain(n: usize, dir: &Path) -> Result<bool, String> {
    let c = Spec((0..n).map(|k| Part::Table(link(k))).collect()).build(dir)?;
    let at = |k: usize| char::from_u32(0x4e00 + (k % 5000) as u32).unwrap();
    for start in [0, 1, n / 2, n - 1] {
        let text = format!("x{}y", at(start));
        // the marker is carried from `start` to the end, again and again once the chain wraps
        let mut m = at(start);
        let mut texts = Vec::new();
        for k in 0..n {
            if m == at(k) {
                m = at(k + 1);
            }
            texts.push(format!("x{m}y"));
        }
        let got = c.normalize(&text);
        if got != texts[n - 1] {
            return Err(format!("{n} additions give {} for {}, not {}", show(&got), show(&text), show(&texts[n - 1])));
        }
        let got = c.normalize_with_positions(&text);
        let got: Vec<String> = got.modified_records().iter().map(|r| r.text.clone()).collect();
        if got != texts {
            let k = got.iter().zip(&texts).take_while(|(a, b)| a == b).count();
            return Err(format!("{n} additions record {} steps for {}; the first wrong one is {k}", got.len(), show(&text)));
        }
    }
    Ok(true)
}

/// C06: which records promise positions, by the specification.
fn located(spec: &Spec, c: &Chanoma, text: &str) -> Result<bool, String> {
    let m = c.normalize_with_positions(text);
    let recs = m.modified_records();
    let mut promised: Vec<bool> = Vec::new();
    for p in &spec.0 {
        match p {
            Part::New => {}
            Part::Neologdn => promised.push(false),
            Part::Yaml { steps, .. } => {
                promised.extend(steps.iter().map(|s| matches!(s, Step::Conv(_) | Step::Reduce(_) | Step::Trim)));
                // the substitution table of the file
                if spec.0.len() == 1 && recs.len() == promised.len() + 1 {
                    promised.push(true);
                }
            }
            _ => promised.push(true),
        }
    }
    let mut input = text;
    let mut any = false;
    for (i, r) in recs.iter().enumerate() {
        if promised.get(i) == Some(&true) {
            let chars: Vec<char> = input.chars().collect();
            let starts: Vec<usize> = input.char_indices().map(|c| c.0).collect();
            let mut spans: Vec<(usize, usize, &str)> = Vec::new();
            for p in &r.positions {
                let got = p.index.checked_add(p.length).and_then(|e| input.get(p.index..e));
                if got != Some(p.from.as_str()) {
                    return Err(format!("step {i} on {}: bytes {}+{} of its input are {:?}, recorded {:?}", show(input), p.index, p.length, got, p.from));
                }
                let e = p.utf8_index.saturating_add(p.utf8_length);
                let got: Option<String> = chars.get(p.utf8_index..e).map(|c| c.iter().collect());
                if got.as_deref() != Some(p.from.as_str()) {
                    return Err(format!("step {i} on {}: characters {}+{} of its input are {:?}, recorded {:?}", show(input), p.utf8_index, p.utf8_length, got, p.from));
                }
                let before = starts.partition_point(|s| *s < p.index);
                if before != p.utf8_index {
                    return Err(format!("step {i} on {}: byte {} is character {before}, recorded {}", show(input), p.index, p.utf8_index));
                }
                spans.push((p.index, p.length, p.to.as_str()));
            }
            spans.sort();
            let mut out = String::new();
            let mut at = 0;
            for (s, l, to) in &spans {
                if *s < at {
                    return Err(format!("step {i} on {}: recorded spans overlap at byte {s}", show(input)));
                }
                out.push_str(&input[at..*s]);
                out.push_str(to);
                at = s + l;
            }
            out.push_str(&input[at..]);
            if out != r.text {
                return Err(format!("step {i} on {}: substituting the recorded spans gives {}, the step's output is {}", show(input), show(&out), show(&r.text)));
            }
            any |= !spans.is_empty();
        }
        input = &r.text;
    }
    Ok(any)
}

fn pr(v: &[(&str, &str)]) -> Pairs {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

fn all_steps() -> Vec<Step> {
    vec![
        Step::Conv(vec![('a', 'あ'), ('あ', 'b'), ('😀', ' ')]),
        Step::Elim(vec!['b', 'ー', '~']),
        Step::Reduce('ー'),
        Step::Dotted,
        Step::Trim,
        Step::Lig(pr(&[("ハ゜", "パ"), ("bb", "ー")])),
        Step::Neologdn,
    ]
}

/// Every configuration file of at most `n` distinct steps in every order, with and without items.
fn yamls(n: usize, with_items: bool) -> Vec<Part> {
    let st = all_steps();
    let mut v = Vec::new();
    let mut cur: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..=n {
        for c in &cur {
            let steps: Vec<Step> = c.iter().map(|i| st[*i].clone()).collect();
            v.push(Part::Yaml { steps: steps.clone(), items: vec![] });
            if with_items {
                v.push(Part::Yaml { steps, items: pr(&[("b", "ー"), ("パ", "a"), ("あ", " ")]) });
            }
        }
        cur = cur
            .iter()
            .flat_map(|c| (0..st.len()).filter(|i| !c.contains(i)).map(|i| [c.clone(), vec![i]].concat()).collect::<Vec<_>>())
            .collect();
    }
    v
}

pub fn run(ctx: &Ctx) {
    install_logger();
    match ctx.prop.as_str() {
        "C04" => c04(ctx),
        "C05" => c05(ctx),
        _ => c06(ctx),
    }
}

fn spec_texts(ctx: &Ctx, name: &str, specs: &[Spec], alpha: &[String], lens: std::ops::RangeInclusive<u32>, f: impl Fn(&Spec, &Chanoma, &str) -> Result<bool, String> + Sync) {
    for len in lens {
        let k = (alpha.len() as u64).pow(len);
        let n = specs.len() as u64;
        ctx.explore(
            &format!("{name}: {n} normalizers x all {k} texts of {len} symbols over {}", alpha.len()),
            n * k,
            |i| json!({"prop": ctx.prop, "spec": specs[(i / k) as usize], "text": nth_string(alpha, len, i % k)}),
            |w, i| {
                let id = (i / k) as usize;
                with_norm(w, id, &specs[id], |c| f(&specs[id], c, &nth_string(alpha, len, i % k)))?
            },
        );
    }
}

fn spec_segs(ctx: &Ctx, name: &str, specs: &[Spec], n: u64, segs: impl Fn(u64) -> Vec<(String, usize)> + Sync, f: impl Fn(&Spec, &Chanoma, &str) -> Result<bool, String> + Sync) {
    let k = specs.len() as u64;
    ctx.explore(
        &format!("{name}: {k} normalizers x {n} texts"),
        n * k,
        |i| json!({"prop": ctx.prop, "spec": specs[(i % k) as usize], "segs": segs(i / k)}),
        |w, i| {
            let id = (i % k) as usize;
            with_norm(w, id, &specs[id], |c| f(&specs[id], c, &segs_text(&segs(i / k))))?
        },
    );
}

fn scalar_texts(i: u64) -> Vec<(String, usize)> {
    let m = mixed(i, &[SCALARS, 4]);
    let c = scalar(m[0]).to_string();
    match m[1] {
        0 => vec![(c, 1)],
        1 => vec![(c, 2), ("a".into(), 1)],
        2 => vec![("あ ".into(), 1), (c, 1), (" ー".into(), 1)],
        _ => vec![("ハ".into(), 1), (c, 1), ("゜".into(), 1)],
    }
}

fn pump_texts(max: u64, big: bool) -> (u64, impl Fn(u64) -> Vec<(String, usize)> + Sync) {
    let units = ["a", "あ", " ", "ー", "Ａ", "ｱ", "😀", "ー~", "ハ゜", "b ", "漢", "aあ"];
    let ctxs = [("", ""), ("a", "b"), ("あ", "あ"), (" ", " "), ("ー", "😀"), ("漢ーー", " ")];
    let mut ns: Vec<usize> = (1..=max as usize).collect();
    ns.extend([255, 256, 257]);
    if big {
        ns.extend([1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]);
    }
    let r = [ns.len() as u64, units.len() as u64, ctxs.len() as u64];
    (r.iter().product(), move |i| {
        let m = mixed(i, &r);
        let (a, b) = ctxs[m[2] as usize];
        vec![(a.to_string(), 1), (units[m[1] as usize].to_string(), ns[m[0] as usize]), (b.to_string(), 1)]
    })
}

fn position_texts(max: u64) -> (u64, impl Fn(u64) -> Vec<(String, usize)> + Sync) {
    let f = ["漢", "a", " ", "ー", "😀"];
    let s = ["a", "あ", " ", "ー", "ーー", "Ａ", "ｱ", "  ", "😀", "ハ゜"];
    let r = [max + 1, max + 1, f.len() as u64, s.len() as u64];
    (r.iter().product(), move |i| {
        let m = mixed(i, &r);
        let x = f[m[2] as usize].to_string();
        vec![(x.clone(), m[0] as usize), (s[m[3] as usize].to_string(), 1), (x, m[1] as usize)]
    })
}

/// Texts of many distinct characters, of every scalar value, and of very many repetitions.
fn wide(ctx: &Ctx, specs: &[Spec], frame: &str, probes: &[&str], units: &[&str], f: impl Fn(&Spec, &Chanoma, &str) -> Result<bool, String> + Sync + Copy) {
    let frames = vec![(String::new(), frame.to_string()), (frame.to_string(), String::new())];
    let (n, t) = variety_texts(ctx.thorough, frames[..ctx.pick(1, 2)].to_vec(), probes.iter().map(|p| p.to_string()).collect());
    let all = move |i: u64| match i {
        0 => (0..SCALARS).map(scalar).collect(),
        1 => (0..SCALARS).rev().map(scalar).collect(),
        i => t(i - 2),
    };
    spec_segs(ctx, "texts of up to thousands of distinct characters, and of every scalar value", specs, n + 2, |i| vec![(all(i), 1)], f);
    let ns = huge_sizes(ctx.thorough);
    let ns: Vec<usize> = ns.into_iter().filter(|n| *n < 10_000_000).collect();
    let r = [ns.len() as u64, units.len() as u64, 2];
    let segs = |i: u64| {
        let m = mixed(i, &r);
        let (a, b) = &frames[m[2] as usize];
        vec![(a.clone(), 1), (units[m[1] as usize].to_string(), ns[m[0] as usize]), (b.clone(), 1)]
    };
    spec_segs(ctx, "very many repetitions", specs, r.iter().product(), segs, f);
}

fn c04(ctx: &Ctx) {
    let f = |_: &Spec, c: &Chanoma, t: &str| agree(c, t, 1);
    let t1 = pr(&[("a", "あ"), ("あ", "a"), ("ー", " ")]);
    let mut specs = vec![
        Spec(vec![Part::New]),
        Spec(vec![Part::Preset]),
        Spec(vec![Part::Neologdn]),
        Spec(vec![Part::Table(t1.clone())]),
        Spec(vec![Part::Table(vec![])]),
        Spec(vec![Part::Csv(t1.clone())]),
        Spec(vec![Part::New, Part::Neologdn, Part::Preset]),
        Spec(vec![Part::Preset, Part::Table(t1.clone()), Part::Neologdn]),
    ];
    let basic = specs.len();
    specs.extend(yamls(1, true).into_iter().map(|p| Spec(vec![p])));
    let single = specs.len();
    specs.extend(yamls(ctx.pick(2, 3), false).into_iter().map(|p| Spec(vec![p])));
    let alpha = toks("aあ ーbＡ~ハ゜😀");
    spec_texts(ctx, "routes", &specs[..single], &alpha, 0..=ctx.pick(4, 5), f);
    spec_texts(ctx, "routes, composed configurations", &specs[single..], &alpha, 0..=3, f);
    spec_texts(ctx, "routes", &specs[2..3], &toks("Ａ \u{3000}ー━~ハﾊ゛゜漢"), 5..=ctx.pick(5, 6), f);
    spec_segs(ctx, "every Unicode scalar value in 4 contexts", &specs[..4], SCALARS * ctx.pick(1, 4), |i| scalar_texts(if ctx.thorough { i } else { i * 4 + 2 }), f);
    spec_segs(ctx, "every Unicode scalar value in 4 contexts", &specs[basic..single].iter().step_by(2).cloned().collect::<Vec<_>>(), ctx.pick(SCALARS / 16, SCALARS) * 4, scalar_texts, f);
    let (n, t) = pump_texts(ctx.pick(40, 700), ctx.thorough);
    spec_segs(ctx, "repetitions", &specs[..single], n, t, f);
    let (n, t) = pump_texts(0, true);
    spec_segs(ctx, "long repetitions", &specs[1..4], n, t, f);
    let (n, t) = position_texts(ctx.pick(24, 60));
    spec_segs(ctx, "one symbol at every position", &specs[..single], n, t, f);
    let mut few = specs[1..4].to_vec();
    few.extend(specs[basic..single].iter().filter(|s| matches!(&s.0[0], Part::Yaml { items, .. } if items.is_empty())).cloned());
    wide(ctx, &few, "Ａー━~ﾊ゜ aあ b", &["a ", "ー゜"], &["Ａ", "ー", "a あ", "ハ゜b"], f);
    // tables of every structure, and chains of additions
    let mut deep: Vec<Spec> = Vec::new();
    for k in 0..rel::SHAPES {
        for n in [2usize, 100, 257, 1000] {
            deep.push(Spec(vec![Part::Table(rel::shape(k, n))]));
            deep.push(Spec(vec![Part::Neologdn, Part::Table(rel::shape(k, n)), Part::Preset]));
        }
    }
    for n in [10usize, 31, 32, 33, 64, 65, 100, 257] {
        deep.push(Spec((0..n).map(|i| Part::Table(pr(&[("a", "あ"), ("あ", "b"), ("b", "a")][i % 3..]))).collect()));
        deep.push(Spec((0..n).map(|i| [Part::Preset, Part::Neologdn, Part::Table(pr(&[("a", "あ")]))][i % 3].clone()).collect()));
    }
    spec_texts(ctx, "large tables and long chains", &deep, &toks("aあfx一Ａー "), 0..=ctx.pick(3, 4), f);
    // with every log message really formatted
    spec_texts(ctx, "routes, log messages formatted", &specs, &toks("aー Ａ"), 0..=2, |_, c, t| agree(c, t, 2));
    ctx.assume("debug logging is enabled through the log crate's global logger, per call");
}

fn c05(ctx: &Ctx) {
    let t1 = pr(&[("a", "あ"), ("Ａ", "b")]);
    let t2 = pr(&[("あ", "Ａ"), ("b", "ー")]);
    let mut bases = vec![
        Part::New,
        Part::Preset,
        Part::Neologdn,
        Part::Table(t1.clone()),
        Part::Table(t2.clone()),
        Part::Csv(t1.clone()),
        Part::Csv(t2.clone()),
        Part::Csv(vec![]),
    ];
    let small = bases.len();
    bases.extend(yamls(2, true));
    let adds = [Part::Preset, Part::Neologdn, Part::Table(t1), Part::Table(t2)];
    let mut seqs: Vec<Vec<Part>> = vec![vec![]];
    let mut all = vec![vec![]];
    for _ in 0..4 {
        seqs = seqs.iter().flat_map(|s| adds.iter().map(|a| [s.clone(), vec![a.clone()]].concat()).collect::<Vec<_>>()).collect();
        all.extend(seqs.clone());
    }
    let spec = |b: usize, a: usize| Spec([vec![bases[b].clone()], all[a].clone()].concat());
    let texts: Vec<String> = ["", "a", "Ａ", "aあbＡー", "ーあ~ー", " a あ b  Ａ ", "ハ゜ーーb", "Ａ～ーｱ゛a"].iter().map(|s| s.to_string()).collect();
    let mut texts = texts;
    let hand = texts.len();
    for len in 1..=ctx.pick(2, 3) {
        let al = toks("aあbＡー ");
        for i in 0..(al.len() as u64).pow(len) {
            texts.push(nth_string(&al, len, i));
        }
    }
    let plans = [
        ("every base x every sequence of up to 3 additions", 0..small, 1 + 4 + 16 + 64, texts.len()),
        ("every base x every sequence of up to 4 additions", 0..small, all.len(), ctx.pick(hand, texts.len())),
        ("every configuration of up to 2 steps x every sequence of up to 2 additions", small..bases.len(), 1 + 4 + 16, ctx.pick(hand, texts.len())),
    ];
    for (name, bs, na, nt) in plans {
        let r = [na as u64, bs.len() as u64, nt as u64];
        let get = |i: u64| {
            let m = mixed(i, &r);
            (spec(bs.start + m[1] as usize, m[0] as usize), &texts[m[2] as usize])
        };
        ctx.explore(
            &format!("{name} x {nt} texts, normalizing after each addition"),
            r.iter().product(),
            |i| {
                let (s, t) = get(i);
                json!({"prop": "C05", "spec": s, "text": t})
            },
            |w, i| {
                let (s, t) = get(i);
                ordered(&s, t, &w.dir)
            },
        );
    }
    // the kinds the records name
    let al = toks("aあ ーbＡ~゜");
    let mut lt = vec![String::new()];
    for len in 1..=ctx.pick(3, 5) {
        lt.extend((0..(al.len() as u64).pow(len)).map(|i| nth_string(&al, len, i)));
    }
    ctx.explore(
        &format!("the step named by each of the 7 kinds of record on {} texts", lt.len()),
        lt.len() as u64,
        |i| json!({"prop": "C05", "labels": lt[i as usize]}),
        |w, i| labelled(&lt[i as usize], &w.dir),
    );
    // configurations of many steps in every order
    let many: Vec<Spec> = yamls(ctx.pick(3, 4), true).into_iter().map(|p| Spec(vec![p])).collect();
    let tx = ["aあ ーbＡ~ハ゜😀 ", " bbー ーaハ゜゜", "Ａ b～a"];
    ctx.explore(
        "configurations of steps in every order",
        (many.len() * tx.len()) as u64,
        |i| json!({"prop": "C05", "spec": many[i as usize / tx.len()], "text": tx[i as usize % tx.len()]}),
        |w, i| ordered(&many[i as usize / tx.len()], tx[i as usize % tx.len()], &w.dir),
    );
    // tables that do nothing, tables of every size, and additions repeated
    let shapes: Vec<Part> = (0..rel::SHAPES).flat_map(|k| [1usize, 2, 20, 255, 256, 257, 1000].map(|n| Part::Table(rel::shape(k, n)))).collect();
    let idle = [Part::Table(vec![]), Part::Table(pr(&[("a", "a"), ("あ", "あ")])), Part::Table(pr(&[("a", "あ"), ("あ", "a")]))];
    let mut odd: Vec<Spec> = Vec::new();
    for b in &bases[..small] {
        for x in &shapes {
            odd.push(Spec(vec![b.clone(), x.clone()]));
            odd.push(Spec(vec![b.clone(), x.clone(), x.clone(), Part::Preset]));
        }
        for x in &idle {
            for y in idle.iter().chain(&adds) {
                for z in idle.iter().chain(&adds) {
                    odd.push(Spec(vec![b.clone(), x.clone(), y.clone(), z.clone()]));
                    odd.push(Spec(vec![b.clone(), y.clone(), x.clone(), z.clone(), x.clone()]));
                }
            }
        }
    }
    let tx = ["aあfＡbxー一kKo3 ", "あああa", "か゛ ーーabc"];
    ctx.explore(
        "additions of empty, identical, inverse and large tables",
        (odd.len() * tx.len()) as u64,
        |i| json!({"prop": "C05", "spec": odd[i as usize / tx.len()], "text": tx[i as usize % tx.len()]}),
        |w, i| ordered(&odd[i as usize / tx.len()], tx[i as usize % tx.len()], &w.dir),
    );
    // long chains of additions: swaps and rotations, so that one lost, doubled or moved step shows
    let rot = |k: usize| {
        let ch = ["a", "b", "c", "d", "e"];
        Part::Table((0..5).filter(|i| *i != k % 5).map(|i| (ch[i].to_string(), ch[(i + 1 + k) % 5].to_string())).collect())
    };
    let n = ctx.pick(40u64, 120);
    let long = |i: u64| Spec([vec![Part::New], (0..=i as usize).map(|k| if k % 7 == 6 { Part::Preset } else { rot(k) }).collect()].concat());
    ctx.explore(
        "chains of 1 to n additions",
        n,
        |i| json!({"prop": "C05", "spec": long(i), "text": "abcdeＡ"}),
        |w, i| ordered(&long(i), "abcdeＡ", &w.dir),
    );
    // chains long enough for any counter of steps, judged at the end
    let ns = [128usize, 255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025];
    let ns: Vec<usize> = if ctx.thorough { ns.into_iter().chain([4096, 10_000, 65_535, 65_536, 65_537]).collect() } else { ns.to_vec() };
    ctx.explore(
        "chains of many additions",
        ns.len() as u64,
        |i| json!({"prop": "C05", "kind": "chain", "n": ns[i as usize]}),
        |w, i| chain(ns[i as usize], &w.dir),
    );
}

fn c06(ctx: &Ctx) {
    let f = |s: &Spec, c: &Chanoma, t: &str| located(s, c, t);
    let convs: Vec<Vec<(char, char)>> = vec![
        vec![('a', 'あ')],
        vec![('あ', 'a')],
        vec![('a', 'あ'), ('あ', '😀'), ('😀', 'a')],
        vec![('é', 'a'), ('a', 'a'), (' ', 'ー')],
    ];
    let reds = ['a', 'é', 'あ', '😀', ' '];
    let mut specs: Vec<Spec> = vec![Spec::step(Step::Trim), Spec(vec![Part::Preset])];
    specs.extend(reds.iter().map(|c| Spec::step(Step::Reduce(*c))));
    specs.extend(convs.iter().map(|m| Spec::step(Step::Conv(m.clone()))));
    for m in &convs {
        let p: Pairs = m.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        specs.push(Spec(vec![Part::Table(p.clone())]));
        specs.push(Spec(vec![Part::Csv(p.clone())]));
        specs.push(Spec(vec![Part::Yaml { steps: vec![Step::Trim], items: p }]));
    }
    let singles = specs.len();
    specs.extend(yamls(ctx.pick(2, 3), true).into_iter().map(|p| Spec(vec![p])));
    specs.push(Spec(vec![Part::Neologdn, Part::Preset, Part::Table(pr(&[("a", "あ")]))]));
    let alpha = toks("aéあ😀 ");
    spec_texts(ctx, "positions", &specs[..singles], &alpha, 0..=ctx.pick(6, 8), f);
    spec_texts(ctx, "positions in composed normalizers", &specs[singles..], &toks("aあ ーbＡ~ハ゜😀"), 0..=ctx.pick(3, 4), f);
    spec_texts(ctx, "positions of the preset", &specs[1..2], &toks("Ａｱ\u{3000}a漢”"), 0..=ctx.pick(6, 7), f);
    spec_segs(ctx, "every Unicode scalar value in 4 contexts", &specs[..singles].iter().step_by(3).cloned().collect::<Vec<_>>(), SCALARS * 4, scalar_texts, f);
    let (n, t) = pump_texts(ctx.pick(60, 700), ctx.thorough);
    spec_segs(ctx, "repetitions", &specs[..singles], n, t, f);
    let (n, t) = pump_texts(0, true);
    spec_segs(ctx, "long repetitions", &specs[..3], n, t, f);
    let (n, t) = position_texts(ctx.pick(40, 90));
    spec_segs(ctx, "one symbol at every position", &specs[..singles], n, t, f);
    wide(ctx, &specs[..singles], "aあ😀 éé  aa", &["a", " ", "あ", "  "], &["a", " ", "éé", "aあ"], f);
    // the configured character is every scalar value
    let stride = ctx.pick(8, 1);
    let sp = |i: u64| {
        let m = mixed(i, &[SCALARS.div_ceil(stride), 2]);
        let c = scalar(m[0] * stride);
        let s = if m[1] == 0 { Step::Reduce(c) } else { Step::Conv(vec![(c, '漢')]) };
        let near: String = rel::variants(c).into_iter().flat_map(|v| [v, v, c]).collect();
        (Spec::step(s), format!("{c}{c}xあ{c}é{c}{c}{c}{near}"))
    };
    ctx.explore(
        "a grid of scalar values as the configured character",
        SCALARS.div_ceil(stride) * 2,
        |i| {
            let (s, t) = sp(i);
            json!({"prop": "C06", "spec": s, "text": t})
        },
        |w, i| {
            let (s, t) = sp(i);
            located(&s, &s.build(&w.dir)?, &t)
        },
    );
}
