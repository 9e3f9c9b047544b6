//! C01 C02 C03 C07 C08 C09 C10 C11 C12: what a step or a normalizer does to a text.

use crate::core::*;
use crate::model::{characterize, idempotent, reach, Pipe};
use crate::oracle;
use crate::rel;
use crate::spec::*;
use ::chanoma::Chanoma;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::path::Path;

thread_local! { static CACHE: RefCell<Vec<(usize, Chanoma)>> = const { RefCell::new(Vec::new()) }; }

/// One normalizer per worker thread and specification; never shared between threads.
pub fn with_norm<R>(w: &W, id: usize, spec: &Spec, f: impl FnOnce(&Chanoma) -> R) -> Result<R, String> {
    let found = CACHE.with(|c| c.borrow().iter().position(|(i, _)| *i == id));
    let pos = match found {
        Some(p) => p,
        None => {
            let n = spec.build(&w.dir)?;
            CACHE.with(|c| {
                let mut c = c.borrow_mut();
                c.push((id, n));
                c.len() - 1
            })
        }
    };
    CACHE.with(|c| Ok(f(&c.borrow()[pos].1)))
}

pub fn judge(case: &Value, dir: &Path) -> Result<(), String> {
    let prop = case["prop"].as_str().unwrap();
    let spec: Spec = serde_json::from_value(case["spec"].clone()).expect("spec");
    if prop == "C12" && case["kind"] == "same" {
        let text = case_text(case);
        let first = spec.build(dir)?.normalize(&text);
        for _ in 0..200 {
            let again = spec.build(dir)?.normalize(&text);
            if again != first {
                return Err(format!("two loads of one configuration differ on {}: {} and {}", show(&text), show(&first), show(&again)));
            }
        }
        return Ok(());
    }
    let c = spec.build(dir)?;
    verdict(prop, &c, &spec.pipe(), &case_text(case)).map(|_| ())
}

/// The property on one text. Ok(true) if the text is changed by the normalizer.
pub fn verdict(prop: &str, c: &Chanoma, pipe: &Pipe, text: &str) -> Result<bool, String> {
    let out = c.normalize(text);
    if prop == "C02" {
        if let Some(m) = oracle::abnormal(&out) {
            return Err(format!("neologdn({}) = {} {m}", show(text), show(&out)));
        }
        let again = c.normalize(&out);
        if again != out {
            return Err(format!("neologdn is not idempotent on {}: {}", show(text), diff(&out, &again)));
        }
        return Ok(out != text);
    }
    let exp = pipe.run(text);
    if out != exp {
        return Err(format!("on {}: {}", show(text), diff(&exp, &out)));
    }
    if prop == "C03" {
        let again = c.normalize(&out);
        if again != out {
            return Err(format!("preset is not idempotent on {}: {}", show(text), diff(&out, &again)));
        }
    }
    Ok(out != text)
}

/// Texts of n distinct characters: consecutive scalar values from several blocks, both ways, plain
/// or with a probe after each of them.
pub fn variety_texts(thorough: bool, frames: Vec<(String, String)>, probes: Vec<String>) -> (u64, impl Fn(u64) -> String + Sync) {
    const BASES: [u32; 7] = [0x4E00, 0x21, 0x3041, 0xAC00, 0xFF01, 0x1F300, 0x20000];
    let mut ns: Vec<usize> = (1..=40).collect();
    for b in [64usize, 100, 128, 200, 256, 300, 400, 500, 512, 1000, 1024, 2000, 2048, 4096] {
        ns.extend([b - 1, b, b + 1]);
    }
    if thorough {
        ns.extend([8191, 8192, 8193, 10_000, 16_384, 20_000, 32_768, 65_535, 65_536, 65_537, 100_000]);
    }
    let r = [ns.len() as u64, 7, 2, probes.len() as u64 + 1, frames.len() as u64];
    (r.iter().product(), move |i| {
        let m = mixed(i, &r);
        let mut cs: Vec<char> = (BASES[m[1] as usize]..).filter_map(char::from_u32).take(ns[m[0] as usize]).collect();
        if m[2] == 1 {
            cs.reverse();
        }
        let (a, b) = &frames[m[4] as usize];
        let mut t = a.clone();
        for c in cs {
            t.push(c);
            if m[3] > 0 {
                t.push_str(&probes[m[3] as usize - 1]);
            }
        }
        t.push_str(b);
        t
    })
}

/// Numbers of repetitions far beyond any buffer.
pub fn huge_sizes(thorough: bool) -> Vec<usize> {
    if thorough {
        vec![99_999, 100_001, 131_071, 131_072, 131_073, 262_145, 524_289, 999_999, 1_048_575, 1_048_576, 1_048_577, 4_194_305, 16_777_217]
    } else {
        vec![99_999, 131_073, 1_048_577]
    }
}

struct Subject<'a> {
    ctx: &'a Ctx,
    specs: Vec<Spec>,
    pipes: Vec<Pipe>,
}

impl<'a> Subject<'a> {
    fn new(ctx: &'a Ctx, specs: Vec<Spec>) -> Self {
        let pipes = specs.iter().map(|s| s.pipe()).collect();
        Subject { ctx, specs, pipes }
    }
    fn one(&self, w: &mut W, id: usize, text: &str) -> Result<bool, String> {
        let pipe = &self.pipes[id];
        with_norm(w, id, &self.specs[id], |c| verdict(&self.ctx.prop, c, pipe, text))?
    }
    fn case(&self, id: usize, text: &str) -> Value {
        json!({"prop": self.ctx.prop, "kind": "text", "spec": self.specs[id], "text": text})
    }
    fn case_segs(&self, id: usize, segs: &[(String, usize)]) -> Value {
        json!({"prop": self.ctx.prop, "kind": "text", "spec": self.specs[id], "segs": segs})
    }

    /// All texts over `alphabet` up to `depth`, for every specification.
    fn exhaustive(&self, alphabet: &[String], depth: u32) {
        let n = self.specs.len() as u64;
        for len in 0..=depth {
            let k = (alphabet.len() as u64).pow(len);
            self.ctx.explore(
                &format!("{n} normalizers x all {k} texts of {len} symbols over {}", alphabet.len()),
                n * k,
                |i| self.case((i / k) as usize, &nth_string(alphabet, len, i % k)),
                |w, i| self.one(w, (i / k) as usize, &nth_string(alphabet, len, i % k)),
            );
        }
    }

    /// Every Unicode scalar value in every context.
    fn scalars(&self, contexts: &[(&str, &str)], stride: u64) {
        let n = self.specs.len() as u64;
        let k = contexts.len() as u64;
        let total = SCALARS.div_ceil(stride);
        let text = |i: u64| {
            let m = mixed(i, &[total, n, k]);
            let c = scalar(m[0] * stride);
            let (a, b) = contexts[m[2] as usize];
            (m[1] as usize, format!("{}{}", a.replace('\u{1}', &c.to_string()), {
                let mut t = c.to_string();
                t.push_str(&b.replace('\u{1}', &c.to_string()));
                t
            }))
        };
        self.ctx.explore(
            &format!("{total} Unicode scalar values x {n} normalizers x {k} contexts"),
            total * n * k,
            |i| {
                let (id, t) = text(i);
                self.case(id, &t)
            },
            |w, i| {
                let (id, t) = text(i);
                self.one(w, id, &t)
            },
        );
    }

    /// pre unit^n post, for all n up to `max` and around the sizes where counters and buffers turn.
    fn pumped(&self, units: &[String], ctxs: &[(String, String)], max: usize) {
        let mut ns: Vec<usize> = (1..=max).collect();
        for b in [1024usize, 2048, 4096, 8192, 16384, 32768, 65536] {
            ns.extend([b - 1, b, b + 1]);
        }
        ns.retain(|n| *n <= max || self.ctx.thorough || *n < 5000 || *n > 60000);
        let r = [ns.len() as u64, self.specs.len() as u64, units.len() as u64, ctxs.len() as u64];
        let segs = |i: u64| {
            let m = mixed(i, &r);
            let (a, b) = &ctxs[m[3] as usize];
            (m[1] as usize, vec![(a.clone(), 1usize), (units[m[2] as usize].clone(), ns[m[0] as usize]), (b.clone(), 1)])
        };
        self.ctx.explore(
            &format!("repetitions 1..={max} and powers of two to 65537 of {} units in {} contexts, {} normalizers", r[2], r[3], r[1]),
            r.iter().product(),
            |i| {
                let (id, s) = segs(i);
                self.case_segs(id, &s)
            },
            |w, i| {
                let (id, s) = segs(i);
                self.one(w, id, &segs_text(&s))
            },
        );
    }

    /// One symbol at every position of otherwise uniform texts.
    fn positioned(&self, fillers: &[String], symbols: &[String], max: usize) {
        let m = max as u64 + 1;
        let r = [self.specs.len() as u64, m, m, fillers.len() as u64, symbols.len() as u64];
        let segs = |i: u64| {
            let d = mixed(i, &r);
            let f = &fillers[d[3] as usize];
            (d[0] as usize, vec![(f.clone(), d[1] as usize), (symbols[d[4] as usize].clone(), 1), (f.clone(), d[2] as usize)])
        };
        self.ctx.explore(
            &format!("{} symbols at every position of texts of up to 2x{max} of {} fillers, {} normalizers", r[4], r[3], r[0]),
            r.iter().product(),
            |i| {
                let (id, s) = segs(i);
                self.case_segs(id, &s)
            },
            |w, i| {
                let (id, s) = segs(i);
                self.one(w, id, &segs_text(&s))
            },
        );
    }

    fn variety(&self, frames: &[(String, String)], probes: &[String]) {
        let (n, texts) = variety_texts(self.ctx.thorough, frames.to_vec(), probes.to_vec());
        let r = [n, self.specs.len() as u64];
        let text = |i: u64| {
            let m = mixed(i, &r);
            (m[1] as usize, texts(m[0]))
        };
        self.ctx.explore(
            &format!("{n} texts of distinct characters from 7 blocks, both ways, {} probes, {} frames, {} normalizers", probes.len(), frames.len(), r[1]),
            r.iter().product(),
            |i| {
                let (id, t) = text(i);
                self.case(id, &t)
            },
            |w, i| {
                let (id, t) = text(i);
                self.one(w, id, &t)
            },
        );
        // every scalar value in one text
        let n = self.specs.len() as u64;
        let whole = |i: u64| {
            let m = mixed(i, &[n, 2]);
            let cs = (0..SCALARS).map(scalar);
            let t: String = if m[1] == 1 { cs.rev().collect() } else { cs.collect() };
            (m[0] as usize, t)
        };
        self.ctx.explore(
            &format!("one text of every Unicode scalar value, both ways, {n} normalizers"),
            n * 2,
            |i| {
                let (id, t) = whole(i);
                self.case(id, &t)
            },
            |w, i| {
                let (id, t) = whole(i);
                self.one(w, id, &t)
            },
        );
    }

    /// pre unit^n post for sizes far beyond any buffer.
    fn huge(&self, units: &[String], ctxs: &[(String, String)]) {
        let ns = huge_sizes(self.ctx.thorough);
        let r = [ns.len() as u64, self.specs.len() as u64, units.len() as u64, ctxs.len() as u64];
        let segs = |i: u64| {
            let m = mixed(i, &r);
            let (a, b) = &ctxs[m[3] as usize];
            (m[1] as usize, vec![(a.clone(), 1usize), (units[m[2] as usize].clone(), ns[m[0] as usize]), (b.clone(), 1)])
        };
        self.ctx.explore(
            &format!("up to {} repetitions of {} units in {} contexts, {} normalizers", ns[ns.len() - 1], r[2], r[3], r[1]),
            r.iter().product(),
            |i| {
                let (id, s) = segs(i);
                self.case_segs(id, &s)
            },
            |w, i| {
                let (id, s) = segs(i);
                self.one(w, id, &segs_text(&s))
            },
        );
    }

    /// Explores the reference machine's state graph over the class alphabet, then runs the
    /// conformance suite access(state) . all words of length <= extra . distinguishing suffix on
    /// the implementation.
    fn model(&self, id: usize, alphabet: &[char], cap: usize, extra: u32) {
        let p = &self.pipes[id];
        let g = reach(p, alphabet, cap);
        let (ws, equiv) = characterize(p, &g, alphabet, 2);
        if !g.complete {
            self.ctx.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
        }
        self.ctx.count("states", g.states.len() as u64);
        self.ctx.count("transitions", g.transitions);
        let mid: Vec<String> = alphabet.iter().map(|c| c.to_string()).collect();
        for len in 0..=extra {
            let r = [g.access.len() as u64, (mid.len() as u64).pow(len), ws.len() as u64];
            let text = |i: u64| {
                let m = mixed(i, &r);
                let mut t: String = g.access[m[0] as usize].iter().collect();
                t.push_str(&nth_string(&mid, len, m[1]));
                t.extend(&ws[m[2] as usize]);
                t
            };
            self.ctx.explore(
                &format!(
                    "conformance: {} model states ({}; {equiv} indistinguishable pairs) x words of {len} over {} classes x {} distinguishing suffixes",
                    g.states.len(),
                    if g.complete { "all reachable" } else { "capped" },
                    mid.len(),
                    ws.len()
                ),
                r.iter().product(),
                |i| self.case(id, &text(i)),
                |w, i| self.one(w, id, &text(i)),
            );
        }
    }
}

fn s(v: &[&str]) -> Vec<String> {
    v.iter().map(|x| x.to_string()).collect()
}
fn cx(v: &[(&str, &str)]) -> Vec<(String, String)> {
    v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect()
}

pub fn run(ctx: &Ctx) {
    match ctx.prop.as_str() {
        "C01" | "C02" => neologdn(ctx),
        "C03" => preset(ctx),
        "C07" => converter(ctx),
        "C08" => eliminator(ctx),
        "C09" => reducer(ctx),
        "C10" => dotted(ctx),
        "C11" => trim(ctx),
        "C12" => ligature(ctx),
        _ => unreachable!(),
    }
    let n = {
        // every text judged was run on the implementation
        ctx.evaluations()
    };
    ctx.count("traces_validated_against_impl", n);
    ctx.assume("the reference rules in mc/src/oracle.rs and mc/src/model.rs are the documented ones");
    ctx.assume("texts longer than the stated bounds behave as the explored ones of the same machine state");
}

/// Representatives of every class of characters the neologdn rules tell apart.
const NEO_CLASSES: &str = "Ａb9 \u{3000}ー━-－~〜ハﾊカか゛゜漢＝！😀\n\tﾞ";
const NEO_CORE: &str = "Ａ \u{3000}ー━~ハﾊ゛゜漢";

fn neologdn(ctx: &Ctx) {
    let sub = Subject::new(ctx, vec![Spec(vec![Part::Neologdn])]);
    let classes: Vec<char> = NEO_CLASSES.chars().collect();
    let core: Vec<char> = NEO_CORE.chars().collect();
    if ctx.prop == "C02" {
        let r = idempotent(&sub.pipes[0], &classes, 200_000);
        ctx.count("states", r.states);
        ctx.count("transitions", r.transitions);
        if !r.bounded {
            ctx.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
        }
        if let Some(ce) = r.counterexample {
            let t: String = ce.iter().collect();
            ctx.sample(json!({"model_counterexample": t}));
            panic!("the reference model itself is not idempotent on {t:?}");
        }
        ctx.sample(json!({"model": "product of the reference machine with itself", "states": r.states, "transitions": r.transitions, "complete": r.bounded}));
    }
    sub.exhaustive(&toks(NEO_CLASSES), ctx.pick(4, 5));
    sub.exhaustive(&toks(NEO_CORE), ctx.pick(6, 7));
    sub.model(0, &core, 10_000, ctx.pick(2, 3));
    sub.scalars(
        &[("", ""), ("a ", " a"), ("ー", "ー"), ("", "゛"), ("", "゜"), ("ハ", "゛"), ("", "\u{1}"), ("a~", "~a")],
        1,
    );
    // every kana with every mark, in contexts
    let kana: Vec<String> = ('\u{3041}'..='\u{30FF}').chain('\u{FF61}'..='\u{FF9F}').map(|c| c.to_string()).collect();
    let marks = s(&["゛", "゜", "ﾞ", "ﾟ", "\u{3099}", "\u{309A}", "ー", "゛゛", "゛゜", "゜゛", "~゛", " ゛", "ー゛"]);
    let pre = s(&["", "カ", "a", "ー", "か゛"]);
    let post = s(&["", "゛", "a", "ハ゜", " "]);
    let r = [kana.len() as u64, marks.len() as u64, pre.len() as u64, post.len() as u64];
    let text = |i: u64| {
        let m = mixed(i, &r);
        format!("{}{}{}{}", pre[m[2] as usize], kana[m[0] as usize], marks[m[1] as usize], post[m[3] as usize])
    };
    ctx.explore(
        "every kana x mark x context",
        r.iter().product(),
        |i| sub.case(0, &text(i)),
        |w, i| sub.one(w, 0, &text(i)),
    );
    // every ordered pair of the characters some rule names
    let mut named: Vec<char> = oracle::neologdn_map().into_iter().flat_map(|(a, b)| [a, b]).collect();
    named.extend(oracle::TILDES.chars());
    named.extend("゛゜＝ﾞﾟ漢éß😀\u{200B}\u{A0}\r\n\t".chars());
    named.extend(oracle::voiced_pairs().iter().flat_map(|(a, b)| format!("{a}{b}").chars().collect::<Vec<_>>()));
    named.sort();
    named.dedup();
    let named: Vec<String> = named.into_iter().map(|c| c.to_string()).collect();
    sub.exhaustive(&named, 2);
    let units = s(&["Ａ", " ", "\u{3000}", "ー", "━", "~", "ハ", "ﾊ", "゛", "漢", "か゛", "ー ", "~ー", "a ", " a", "ﾊ゜", "ー~", "あ゛", "-", "😀"]);
    sub.pumped(
        &units,
        &cx(&[("", ""), ("a", "a"), ("ー", "ー"), ("漢", "漢"), ("ハ", "゛")]),
        ctx.pick(300, 700),
    );
    let syms = toks(NEO_CLASSES);
    sub.positioned(&s(&["漢", "a", "ー", "ハ"]), &syms, ctx.pick(40, 70));
    sub.positioned(&s(&["漢", "a"]), &s(&["ー~ー", "カ゛", "a  b", "ﾊ゜", "ー ー"]), ctx.pick(130, 300));
    sub.variety(&cx(&[("", ""), ("Ａ", "Ａ ー━~ﾊ゜ａ  ｂ")]), &s(&["Ａ", "゛", " ", "ー━"]));
    sub.huge(&s(&["Ａ", "か゛a", "ー ~"]), &cx(&[("", "Ａー━~ﾊ゜")]));
}

fn preset(ctx: &Ctx) {
    let sub = Subject::new(ctx, vec![Spec(vec![Part::Preset]), Spec(vec![Part::New, Part::Preset])]);
    let classes = "Ａｚ９！”〜￥\u{3000} ｱﾞｰ｡ｯ＂＇～a漢ア😀";
    let cl: Vec<char> = classes.chars().collect();
    sub.model(0, &cl, 100, 3);
    sub.scalars(&[("", ""), ("ａ", "ｂ"), ("", "\u{1}"), ("a\u{1}", "")], 1);
    sub.exhaustive(&toks(classes), ctx.pick(3, 4));
    let mut named: Vec<char> = oracle::preset_map().into_iter().flat_map(|(a, b)| [a, b]).collect();
    named.extend(oracle::NOT_FULLWIDTH);
    named.extend("ｰﾞﾟ漢é😀\n".chars());
    named.sort();
    named.dedup();
    let named: Vec<String> = named.into_iter().map(|c| c.to_string()).collect();
    sub.exhaustive(&named, 2);
    sub.exhaustive(&toks("Ａ１ｱ\u{3000}a漢"), ctx.pick(6, 8));
    sub.pumped(
        &s(&["Ａ", "ｱ", "\u{3000}", "漢", "a", "Ａa", "ｱ漢Ａ", "😀"]),
        &cx(&[("", ""), ("a", "Ａ"), ("漢", "ｱ")]),
        ctx.pick(300, 1100),
    );
    sub.positioned(&s(&["漢", "Ａ", "a", "ｱ"]), &toks(classes), ctx.pick(40, 80));
    sub.variety(&cx(&[("", ""), ("Ａ", "Ａｱ\u{3000}ﾞａ")]), &s(&["Ａ", "ｱ", "a"]));
    sub.huge(&s(&["Ａ", "漢ｱ"]), &cx(&[("", "Ｂｱ\u{3000}b")]));
}

/// The ways a table of single characters reaches a normalizer.
fn routes(t: Pairs) -> Vec<Spec> {
    vec![
        Spec(vec![Part::Table(t.clone())]),
        Spec(vec![Part::New, Part::Table(t.clone())]),
        Spec(vec![Part::Csv(t.clone())]),
        Spec(vec![Part::Yaml { steps: vec![], items: t.clone() }]),
        Spec(vec![Part::Yaml {
            steps: vec![Step::Conv(
                t.iter()
                    .filter(|(a, b)| !a.is_empty() && !b.is_empty())
                    .map(|(a, b)| (a.chars().next().unwrap(), b.chars().next().unwrap()))
                    .collect(),
            )],
            items: vec![],
        }]),
    ]
}

fn converter(ctx: &Ctx) {
    // every partial map from 4 sources of 1..4 bytes into the sources and two fresh characters
    let src = ['a', 'é', 'あ', '😀'];
    let dst = ['a', 'é', 'あ', '😀', 'Z'];
    let mut tables: Vec<Pairs> = Vec::new();
    for i in 0..6u64.pow(4) {
        let m = mixed(i, &[6, 6, 6, 6]);
        let t: Pairs = (0..4)
            .filter(|k| m[*k] > 0)
            .map(|k| (src[k].to_string(), dst[m[k] as usize - 1].to_string()))
            .collect();
        tables.push(t);
    }
    tables.sort_by_key(|t| t.len());
    let specs: Vec<Spec> = tables.iter().flat_map(|t| routes(t.clone())).collect();
    let sub = Subject::new(ctx, specs);
    let alpha: Vec<String> = "aéあ😀Zb".chars().map(|c| c.to_string()).collect();
    for id in (0..sub.specs.len()).step_by(5) {
        let g = reach(&sub.pipes[id], &src, 10);
        ctx.count("states", g.states.len() as u64);
        ctx.count("transitions", g.transitions);
    }
    sub.exhaustive(&alpha, ctx.pick(2, 3));
    let direct = Subject::new(ctx, tables.iter().map(|t| Spec(vec![Part::Table(t.clone())])).collect());
    direct.exhaustive(&alpha, ctx.pick(4, 5));
    // entries with an empty side have no effect, wherever they stand
    let extra = [("", "A"), ("a", ""), ("", ""), ("b", "")];
    let mut with_empty = Vec::new();
    for t in tables.iter().filter(|t| t.len() <= 2) {
        for e in extra {
            for pos in 0..=t.len() {
                let mut t = t.clone();
                if e.0 == "a" && t.iter().any(|(a, _)| a == "a") {
                    continue;
                }
                t.insert(pos, (e.0.to_string(), e.1.to_string()));
                with_empty.extend(routes(t).into_iter().take(4));
            }
        }
    }
    Subject::new(ctx, with_empty).exhaustive(&alpha, 2);
    // every scalar value as a source and as a target
    let n = SCALARS;
    let stride = ctx.pick(1u64, 1);
    let spec = |i: u64| {
        let c = scalar((i / 2) * stride).to_string();
        let p = if i % 2 == 0 { (c, "Z".to_string()) } else { ("b".to_string(), c) };
        let near: String = rel::variants(scalar((i / 2) * stride)).into_iter().collect();
        (Spec(vec![Part::Table(vec![p.clone()])]), format!("{0}a{1}{0}b漢{0}{0}{near}", p.0, p.1))
    };
    ctx.explore(
        "every Unicode scalar value as the source and as the target of a table",
        n / stride * 2,
        |i| {
            let (sp, t) = spec(i);
            json!({"prop": "C07", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = spec(i);
            verdict("C07", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    // two sources that are easily taken for one another
    let near = |i: u64| {
        let c = scalar(i / 2);
        let v = rel::variants(c);
        let all: Pairs = v.iter().enumerate().map(|(k, x)| (x.to_string(), char::from_u32(0x3041 + k as u32).unwrap().to_string())).collect();
        let t: Pairs = if i % 2 == 0 { std::iter::once((c.to_string(), "Z".to_string())).chain(all).collect() } else { all };
        let text: String = v.iter().chain([&c]).chain(v.iter().rev()).chain([&c, &c]).collect();
        (Spec(vec![Part::Table(t)]), text)
    };
    ctx.explore(
        "every Unicode scalar value beside the characters that share bits or a folding with it, in the table and not",
        SCALARS * 2,
        |i| {
            let (sp, t) = near(i);
            json!({"prop": "C07", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = near(i);
            verdict("C07", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    let file = |i: u64| {
        let m = mixed(i, &[SCALARS.div_ceil(ctx.pick(64, 4)), 4]);
        let c = scalar(m[0] * ctx.pick(64, 4)).to_string();
        let p = if m[1] % 2 == 0 { (c, "Z".to_string()) } else { ("b".to_string(), c) };
        let part = if m[1] < 2 { Part::Csv(vec![p.clone()]) } else { Part::Yaml { steps: vec![], items: vec![p.clone()] } };
        (Spec(vec![part]), format!("{0}a{1}{0}b漢{0}{0}", p.0, p.1))
    };
    ctx.explore(
        "a grid of scalar values as source and target through CSV and YAML",
        SCALARS.div_ceil(ctx.pick(64, 4)) * 4,
        |i| {
            let (sp, t) = file(i);
            json!({"prop": "C07", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = file(i);
            verdict("C07", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    // tables of many entries, chains and cycles of every length up to n
    let chain = |n: u64, kind: u64| -> Pairs {
        let ch = |k: u64| char::from_u32(0x4E00 + k as u32).unwrap().to_string();
        (0..n)
            .map(|k| match kind {
                0 => (ch(k), ch(k + 1)),
                1 => (ch(k), ch((k + 1) % n)),
                2 => (ch(k), "x".to_string()),
                _ => (ch(k), ch(n - 1 - k)),
            })
            .collect()
    };
    let max = ctx.pick(150u64, 600);
    let mk = |i: u64| {
        let m = mixed(i, &[max, 4, 3]);
        let t = chain(m[0] + 1, m[1]);
        let part = match m[2] {
            0 => Part::Table(t.clone()),
            1 => Part::Csv(t.clone()),
            _ => Part::Yaml { steps: vec![], items: t.clone() },
        };
        let mut text: String = t.iter().map(|p| p.0.as_str()).collect();
        text.push_str("aあ");
        text.extend(t.iter().rev().map(|p| p.1.as_str()));
        (Spec(vec![part]), text)
    };
    ctx.explore(
        "chains, cycles, collapses and reversals of every size through every route",
        max * 12,
        |i| {
            let (sp, t) = mk(i);
            json!({"prop": "C07", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = mk(i);
            verdict("C07", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    let swap: Pairs = vec![("a".into(), "あ".into()), ("あ".into(), "a".into()), ("😀".into(), "a".into())];
    let sw = Subject::new(ctx, vec![Spec(vec![Part::Table(swap)])]);
    sw.pumped(&s(&["a", "あ", "😀", "b", "aあ", "b😀"]), &cx(&[("", ""), ("a", "あ"), ("b", "b")]), ctx.pick(300, 1100));
    sw.positioned(&s(&["b", "a", "あ"]), &s(&["a", "あ", "😀", "b"]), ctx.pick(60, 130));
    sw.variety(&cx(&[("", ""), ("a", "aあ😀b")]), &s(&["a", "あ", "b"]));
    sw.huge(&s(&["a", "あb"]), &cx(&[("b", "あ")]));
    // tables of very many entries
    let sizes: Vec<u64> = ctx.pick(
        vec![1000, 1025, 4097, 16_385, 65_535, 65_537, 131_073],
        vec![1000, 1023, 1024, 1025, 4096, 4097, 8193, 16_384, 16_385, 32_767, 32_769, 65_535, 65_536, 65_537, 100_000, 131_073, 262_145, 1_000_000],
    );
    let large = |i: u64| {
        let m = mixed(i, &[sizes.len() as u64, 3, 2]);
        let n = sizes[m[0] as usize];
        // the sources are n consecutive scalar values and stand in the table in this order or its reverse
        let mut t: Pairs = (0..n).map(|k| (scalar(k + 0x80).to_string(), scalar((k * 7 + 0x3041) % SCALARS).to_string())).collect();
        if m[2] == 1 {
            t.reverse();
        }
        let mut text: String = t.iter().map(|p| p.0.as_str()).collect();
        text.push_str("aZ");
        let part = match m[1] {
            0 => Part::Table(t),
            1 => Part::Csv(t),
            _ => Part::Yaml { steps: vec![], items: t },
        };
        (Spec(vec![part]), text)
    };
    let routes = 3;
    ctx.explore(
        &format!("tables of {} sizes up to {} entries through every route, both orders", sizes.len(), sizes[sizes.len() - 1]),
        sizes.len() as u64 * routes * 2,
        |i| {
            let (sp, t) = large(i);
            json!({"prop": "C07", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = large(i);
            verdict("C07", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
}

fn eliminator(ctx: &Ctx) {
    let cs = ['a', ' ', 'é', 'あ', '😀', '~'];
    let mut specs = Vec::new();
    for m in 0..(1u32 << cs.len()) {
        let v: Vec<char> = cs.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|(_, c)| *c).collect();
        specs.push(v);
    }
    specs.sort_by_key(|v| v.len());
    let specs: Vec<Spec> = specs.into_iter().map(|v| Spec::step(Step::Elim(v))).collect();
    let sub = Subject::new(ctx, specs);
    let alpha: Vec<String> = "a éあ😀~bA".chars().map(|c| c.to_string()).collect();
    for p in &sub.pipes {
        let g = reach(p, &cs, 10);
        ctx.count("states", g.states.len() as u64);
        ctx.count("transitions", g.transitions);
    }
    sub.exhaustive(&alpha, ctx.pick(4, 5));
    let all = |i: u64, stride: u64| {
        let c = scalar(i * stride);
        let near: String = rel::variants(c).into_iter().collect();
        (Spec::step(Step::Elim(vec![c])), format!("{c}x{c}{c}あ{near}{c}"))
    };
    let stride = ctx.pick(8, 1);
    ctx.explore(
        "a grid of Unicode scalar values as the configured character",
        SCALARS.div_ceil(stride),
        |i| {
            let (sp, t) = all(i, stride);
            json!({"prop": "C08", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = all(i, stride);
            verdict("C08", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    let few = Subject::new(ctx, vec![Spec::step(Step::Elim(vec!['a', 'あ', '😀'])), Spec::step(Step::Elim("~∼∾〜〰～".chars().collect()))]);
    few.scalars(&[("", ""), ("a", "あ"), ("b~", "~"), ("", "\u{1}")], 1);
    few.pumped(&s(&["a", "あ", "b", "ab", "~", "b~", "😀漢"]), &cx(&[("", ""), ("b", "a"), ("~", "b")]), ctx.pick(300, 1100));
    few.positioned(&s(&["b", "a", "漢", "~"]), &s(&["a", "あ", "😀", "b", "～", "〜"]), ctx.pick(60, 130));
    few.variety(&cx(&[("", ""), ("a", "aあ😀~b")]), &s(&["a", "～", "b"]));
    few.huge(&s(&["a", "あb", "~漢"]), &cx(&[("b", "あ~b")]));
    // sets of every size
    let big = |i: u64| {
        let v: Vec<char> = (0..=i as u32).map(|k| char::from_u32(0x3041 + k).unwrap()).collect();
        let t: String = (0..=i as u32 + 2).map(|k| char::from_u32(0x3041 + k).unwrap()).chain("xあ".chars()).collect();
        (Spec::step(Step::Elim(v)), t)
    };
    let n = ctx.pick(700, 3000);
    ctx.explore(
        "sets of every size",
        n,
        |i| {
            let (sp, t) = big(i);
            json!({"prop": "C08", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = big(i);
            verdict("C08", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
}

fn reducer(ctx: &Ctx) {
    let cs = ['a', 'ー', ' ', 'é', '😀', '漢', '\n', '\0'];
    let sub = Subject::new(ctx, cs.iter().map(|c| Spec::step(Step::Reduce(*c))).collect());
    let alpha: Vec<String> = "aーé😀 b".chars().map(|c| c.to_string()).collect();
    for id in 0..cs.len() {
        sub.model(id, &[cs[id], 'x', 'あ'], 10, ctx.pick(8, 10));
    }
    sub.exhaustive(&alpha, ctx.pick(6, 7));
    sub.exhaustive(&toks("aー"), ctx.pick(14, 18));
    let all = |i: u64, stride: u64| {
        let c = scalar(i * stride);
        let d = char::from_u32(c as u32 ^ 1).unwrap_or('x');
        let near: String = rel::variants(c).into_iter().flat_map(|v| [v, v, c]).collect();
        (Spec::step(Step::Reduce(c)), format!("{c}{c}x{c}{c}{c}あ{d}{d}{c}{d}{c}{c}{near}"))
    };
    let stride = ctx.pick(8, 1);
    ctx.explore(
        "a grid of Unicode scalar values as the configured character",
        SCALARS.div_ceil(stride),
        |i| {
            let (sp, t) = all(i, stride);
            json!({"prop": "C09", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = all(i, stride);
            verdict("C09", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    let two = Subject::new(ctx, vec![Spec::step(Step::Reduce('ー')), Spec::step(Step::Reduce('a'))]);
    two.scalars(&[("ー", "ー"), ("a", "a"), ("\u{1}", ""), ("ーー", "aa")], 1);
    two.pumped(
        &s(&["ー", "a", "b", "ーb", "aa漢", "ーー"]),
        &cx(&[("", ""), ("b", "b"), ("ー", "ー"), ("a漢", "aa"), ("ーーb", "bー")]),
        ctx.pick(700, 1100),
    );
    two.positioned(&s(&["ー", "a", "b", "漢"]), &s(&["ー", "a", "ーー", "b", "😀"]), ctx.pick(100, 270));
    two.variety(&cx(&[("", ""), ("ーー", "ーーaab")]), &s(&["ーー", "aa", "b"]));
    two.huge(&s(&["ー", "b", "ab"]), &cx(&[("b", "ーーaab")]));
}

fn dotted(ctx: &Ctx) {
    let sub = Subject::new(ctx, vec![Spec::step(Step::Dotted)]);
    let classes: Vec<char> = "aZ5 -あ\u{3000}\t\u{A0}Ａé_😀".chars().collect();
    sub.model(0, &classes, 100, ctx.pick(4, 5));
    sub.exhaustive(&classes.iter().map(|c| c.to_string()).collect::<Vec<_>>(), ctx.pick(5, 6));
    sub.exhaustive(&toks("a あ"), ctx.pick(12, 14));
    sub.exhaustive(&toks("aZ5 ."), ctx.pick(8, 9));
    sub.scalars(&[("", ""), (" ", " "), ("a ", " a"), ("a", " a"), ("a ", "a"), ("", " a"), ("a ", ""), ("a  ", "  a"), ("あ ", " あ"), ("", " \u{1}")], 1);
    sub.pumped(
        &s(&[" ", "a", " a", "a ", "あ ", "a  ", "-", "あ"]),
        &cx(&[("", ""), ("a", "a"), ("a ", " a"), ("あ", "a"), ("a", "あ"), ("-", "5"), (" ", " ")]),
        ctx.pick(700, 1100),
    );
    sub.positioned(&s(&[" ", "a", "あ", "a "]), &s(&[" ", "  ", "a", "あ", "-", "\t", "a b"]), ctx.pick(100, 270));
    sub.variety(&cx(&[("", ""), ("a b", " a b ")]), &s(&[" ", " a", "a "]));
    sub.huge(&s(&[" ", "a", "a b "]), &cx(&[("a", "a b"), ("あ", " b c")]));
    // all pairs of ASCII characters around a space run
    ctx.explore(
        "all pairs of ASCII characters around 0 to 3 spaces",
        128 * 128 * 4,
        |i| sub.case(0, &ascii_pair(i)),
        |w, i| sub.one(w, 0, &ascii_pair(i)),
    );
}

fn ascii_pair(i: u64) -> String {
    let m = mixed(i, &[128, 128, 4]);
    format!("{}{}{}", m[0] as u8 as char, " ".repeat(m[2] as usize), m[1] as u8 as char)
}

fn trim(ctx: &Ctx) {
    let sub = Subject::new(ctx, vec![Spec::step(Step::Trim)]);
    let classes: Vec<char> = "a あ\u{3000}\t\n\r\u{A0}😀\u{200B}".chars().collect();
    sub.model(0, &classes, ctx.pick(60, 200), ctx.pick(3, 4));
    sub.exhaustive(&classes.iter().map(|c| c.to_string()).collect::<Vec<_>>(), ctx.pick(6, 7));
    sub.exhaustive(&toks(" aあ"), ctx.pick(12, 14));
    sub.scalars(&[("", ""), (" ", " "), ("  a", "a  "), ("", " "), (" ", ""), (" \u{1} ", " \u{1} "), ("a ", " a")], 1);
    sub.pumped(
        &s(&[" ", "a", " a", "あ ", "\t", "\u{3000}"]),
        &cx(&[("", ""), ("a", "a"), (" ", " "), ("a", ""), ("", "あ"), (" \t", "\t "), ("\u{3000}", "\u{3000}")]),
        ctx.pick(700, 1100),
    );
    sub.positioned(&s(&[" ", "a", "\t"]), &s(&[" ", "a", "あ", "\t", "a b", "\n"]), ctx.pick(130, 300));
    sub.variety(&cx(&[("", ""), (" ", " "), (" a", "b ")]), &s(&[" ", "\u{3000}"]));
    sub.huge(&s(&[" ", "a", "あ "]), &cx(&[("", ""), (" ", "a ")]));
}

/// All sets of up to three sequences over a small alphabet that do not overlap one another.
fn ligature_sets(three: bool) -> Vec<Pairs> {
    let letters = ["a", "b", "あ"];
    let mut keys: Vec<String> = Vec::new();
    for len in 1..=3u32 {
        for i in 0..3u64.pow(len) {
            keys.push(nth_string(&letters.map(String::from), len, i));
        }
    }
    let clash = |x: &str, y: &str| {
        let (x, y): (Vec<char>, Vec<char>) = (x.chars().collect(), y.chars().collect());
        let sub = |p: &[char], q: &[char]| q.windows(p.len()).any(|w| w == p);
        let border = |p: &[char], q: &[char]| (1..p.len().min(q.len())).any(|n| p[p.len() - n..] == q[..n]);
        (x.len() <= y.len() && sub(&x, &y)) || (y.len() <= x.len() && sub(&y, &x)) || border(&x, &y) || border(&y, &x)
    };
    let mut v: Vec<Pairs> = vec![vec![]];
    for k in &keys {
        for to in ["X", "Yé", "", "漢字X"] {
            v.push(vec![(k.clone(), to.to_string())]);
        }
    }
    for (i, k) in keys.iter().enumerate() {
        for l in &keys[i + 1..] {
            if !clash(k, l) {
                for (t, u) in [("X", "Yé"), ("Yé", "X"), ("X", "X")] {
                    v.push(vec![(k.clone(), t.into()), (l.clone(), u.into())]);
                }
            }
        }
    }
    if three {
        for (i, k) in keys.iter().enumerate() {
            for (j, l) in keys.iter().enumerate().skip(i + 1) {
                for m in &keys[j + 1..] {
                    if !clash(k, l) && !clash(k, m) && !clash(l, m) {
                        v.push(vec![(k.clone(), "X".into()), (l.clone(), "Yé".into()), (m.clone(), "漢".into())]);
                    }
                }
            }
        }
    }
    v
}

fn ligature(ctx: &Ctx) {
    let sets = ligature_sets(true);
    let sub = Subject::new(ctx, sets.iter().map(|p| Spec::step(Step::Lig(p.clone()))).collect());
    let alpha = s(&["a", "b", "あ", "X", "c"]);
    for p in &sub.pipes {
        let g = reach(p, &['a', 'b', 'あ', 'X', 'c'], 1000);
        ctx.count("states", g.states.len() as u64);
        ctx.count("transitions", g.transitions);
    }
    sub.exhaustive(&alpha, ctx.pick(6, 7));
    // the kana sequences of the documentation, all scalars around them
    let kana = Subject::new(ctx, vec![Spec::step(Step::Lig(oracle::voiced_pairs())), Spec::step(Step::Lig(vec![("ハ゜".into(), "パ".into())]))]);
    kana.exhaustive(&toks("ハカか゛゜漢パ"), ctx.pick(6, 7));
    kana.scalars(&[("", "゛"), ("", "゜"), ("ハ", "゜"), ("ハ゜", "ハ゜")], 1);
    kana.pumped(&s(&["ハ゜", "ハ", "゜", "か゛", "漢", "ハ゜漢"]), &cx(&[("", ""), ("ハ", "゜"), ("漢", "ハ゜")]), ctx.pick(300, 1100));
    kana.positioned(&s(&["漢", "ハ", "゜"]), &s(&["ハ゜", "か゛", "ハ", "゜"]), ctx.pick(60, 130));
    kana.variety(&cx(&[("", ""), ("ハ゜", "ハ゜か゛")]), &s(&["ハ゜", "゛", "漢"]));
    kana.huge(&s(&["ハ゜", "漢"]), &cx(&[("か゛", "ハ゜か゛")]));
    // sequences of every character, beside those that are easily taken for it
    let near = |i: u64| {
        let m = mixed(i, &[SCALARS.div_ceil(ctx.pick(8, 1)), 3]);
        let c = scalar(m[0] * ctx.pick(8, 1));
        let v = rel::variants(c);
        let key = |x: char| match m[1] {
            0 => format!("{x}"),
            1 => format!("{x}゛"),
            _ => format!("a{x}"),
        };
        let text: String = v.iter().chain([&c]).chain(v.iter().rev()).map(|x| key(*x) + "x").collect();
        (Spec::step(Step::Lig(vec![(key(c), "Z".into())])), text)
    };
    ctx.explore(
        "sequences with each of a grid of Unicode scalar values, on texts of the characters that share bits or a folding with it",
        SCALARS.div_ceil(ctx.pick(8, 1)) * 3,
        |i| {
            let (sp, t) = near(i);
            json!({"prop": "C12", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = near(i);
            verdict("C12", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    // one sequence of every length, its prefixes, and texts that break off inside it
    let long = |i: u64| {
        let m = mixed(i, &[ctx.pick(300, 2000), 4, 3]);
        let n = m[0] as usize + 1;
        let key: String = match m[1] {
            0 => (0x4E00..).filter_map(char::from_u32).take(n).collect(),
            1 => "a".repeat(n - 1) + "b",
            2 => "あ".repeat(n),
            _ => "aあ".chars().cycle().take(n - 1).chain(['😀']).collect(),
        };
        let to = match m[2] {
            0 => "X".to_string(),
            1 => String::new(),
            _ => "長".repeat(n + 1),
        };
        let cut: String = key.chars().take(n - 1).collect();
        let text = format!("{key}x{cut}x{key}{key}y{cut}");
        (Spec::step(Step::Lig(vec![(key, to)])), text)
    };
    ctx.explore(
        "one sequence of every length, four shapes, three replacements",
        ctx.pick(300, 2000) * 12,
        |i| {
            let (sp, t) = long(i);
            json!({"prop": "C12", "kind": "text", "spec": sp, "text": t})
        },
        |w, i| {
            let (sp, t) = long(i);
            verdict("C12", &sp.build(&w.dir)?, &sp.pipe(), &t)
        },
    );
    // whatever the set: every load of one configuration gives the same result
    let keys = s(&["a", "b", "ab", "ba", "aa", "aba", "abc", "bb"]);
    let tos = s(&["b", "a", "", "ab", "c", "ba"]);
    let texts = s(&["abab", "aabba", "abcab", "baab", "aaa", "bbb", "cabab", "abbaabc"]);
    let (k, t) = (keys.len() as u64, tos.len() as u64);
    let mut confs: Vec<Pairs> = Vec::new();
    for i in 0..k {
        for j in i + 1..k {
            for x in 0..t * t {
                confs.push(vec![
                    (keys[i as usize].clone(), tos[(x / t) as usize].clone()),
                    (keys[j as usize].clone(), tos[(x % t) as usize].clone()),
                ]);
            }
        }
    }
    let step = ctx.pick(7, 1);
    for i in 0..k {
        for j in i + 1..k {
            for l in j + 1..k {
                for x in (0..t * t * t).step_by(step) {
                    let m = mixed(x, &[t, t, t]);
                    confs.push(vec![
                        (keys[i as usize].clone(), tos[m[0] as usize].clone()),
                        (keys[j as usize].clone(), tos[m[1] as usize].clone()),
                        (keys[l as usize].clone(), tos[m[2] as usize].clone()),
                    ]);
                }
            }
        }
    }
    let loads = 24;
    let orders = std::sync::Mutex::new(std::collections::HashSet::new());
    ctx.explore(
        &format!("determinism: {} overlapping or chained sets, {loads} loads each under different hash seeds", confs.len()),
        confs.len() as u64,
        |i| {
            // the judge of this case repeats it over many loads
            json!({"prop": "C12", "kind": "same", "spec": Spec::step(Step::Lig(confs[i as usize].clone())), "text": texts.join("|")})
        },
        |w, i| {
            let spec = Spec::step(Step::Lig(confs[i as usize].clone()));
            let text = texts.join("|");
            let first = spec.build(&w.dir)?;
            let out = first.normalize(&text);
            for n in 0..loads {
                let c = spec.build(&w.dir)?;
                let o = c.normalize(&text);
                w.extra += 1;
                if o != out {
                    return Err(format!("load {n} of one configuration gives {o:?}, an earlier one {out:?}, for {text:?}"));
                }
                if i % 97 == 0 {
                    let m = c.normalize_with_positions("");
                    if let Some(r) = m.modified_records().first() {
                        orders.lock().unwrap().insert(format!("{:?}", r.kind));
                    }
                }
            }
            Ok(out != text)
        },
    );
    let o = orders.lock().unwrap().len();
    ctx.sample(json!({"distinct_map_orders_observed": o}));
}
