//! Strings and characters that are easily taken for one another, and tables with a structure.

use crate::spec::Pairs;
use std::collections::BTreeSet;

/// Characters that share a part of their encoding or a folding with `c`.
pub fn variants(c: char) -> Vec<char> {
    let n = c as u32;
    let mut v: BTreeSet<char> = [
        n ^ 1,
        n ^ 0x20,
        n ^ 0x80,
        n ^ 0x100,
        n & 0x7f,
        n & 0xff,
        n & 0xfff,
        n & 0xffff,
        n | 0x10000,
        n + 0x100,
        n + 0x10000,
        n + 0xfee0,
        n.wrapping_sub(0xfee0),
        n + 0x60,
        n.wrapping_sub(0x60),
        (n & 0xffff).swap_bytes() >> 16,
        n + 1,
        n.wrapping_sub(1),
    ]
    .into_iter()
    .filter_map(char::from_u32)
    .collect();
    for s in [c.to_lowercase().collect::<Vec<_>>(), c.to_uppercase().collect()] {
        v.extend(s);
    }
    v.remove(&c);
    v.into_iter().collect()
}

/// Pairs of different strings that some folding, trimming or truncation makes equal.
pub fn related() -> Vec<(String, String)> {
    let mut v: BTreeSet<(String, String)> = BTreeSet::new();
    let bases = ["a", "Ａ", "あ", "か", "ハ", "ｱ", "é", "1", "ー", "ab", "か゛", "Ab c", "漢字", "ǆ", "0", "abcdefgh", "abcdefghijklmnopqrstuvwxyz012345", "一二三四五六七八"];
    for b in bases {
        let cs: Vec<char> = b.chars().collect();
        let map = |f: &dyn Fn(char) -> char| cs.iter().map(|c| f(*c)).collect::<String>();
        let off = |d: i64| map(&|c: char| char::from_u32((c as i64 + d).max(0) as u32).unwrap_or(c));
        let mut xs = vec![b.to_uppercase(), b.to_lowercase(), off(0xfee0), off(-0xfee0), off(0x60), off(-0x60), off(1), cs.iter().rev().collect(), b.repeat(2), cs[..1].iter().collect(), cs[..cs.len() - 1].iter().collect(), cs[1..].iter().collect()];
        for (p, q) in [
            ("", " "), (" ", ""), ("", "\u{3000}"), ("", "\n"), ("", "\r"), ("", "\t"), ("", "\0"), ("", "\u{301}"), ("", "\u{3099}"), ("", "\u{200b}"), ("", "\u{fe0f}"), ("\u{feff}", ""), ("\"", "\""), ("'", "'"), ("", "x"), ("x", ""), ("", ","), ("", "#"), ("0", ""), ("", ".0"), ("+", ""), ("-", ""),
        ] {
            xs.push(format!("{p}{b}{q}"));
        }
        // the last, the first and a middle character differ
        for k in [0, cs.len() / 2, cs.len() - 1] {
            let mut c = cs.clone();
            c[k] = '異';
            xs.push(c.into_iter().collect());
        }
        for x in xs {
            if x != b {
                v.insert((b.to_string(), x));
            }
        }
    }
    for (a, b) in [
        ("が", "か\u{3099}"), ("が", "か゛"), ("é", "e\u{301}"), ("ﬁ", "fi"), ("１", "1"), ("㍍", "メートル"), ("ß", "SS"), ("ß", "ss"), ("İ", "i"), ("ı", "i"), ("Σ", "ς"), ("σ", "ς"), ("K", "k"), ("Å", "Å"), ("Å", "A\u{30a}"), ("true", "True"), ("true", "yes"), ("null", "~"), ("", "~"), ("", "null"), ("", " "), ("", "\0"), ("1", "1.0"), ("1e3", "1000"), ("0x10", "16"), ("-0", "0"),
        ("ab", "ba"), ("abc", "acb"), ("a,b", "a\",\"b"), ("a\nb", "a\r\nb"), ("a b", "a  b"), ("a\\", "a"), ("\\n", "\n"), ("～", "〜"), ("－", "−"), ("ー", "－"), ("゛", "\u{3099}"), ("Aa", "BB"), ("ｶﾞ", "ガ"), ("、", "､"),
    ] {
        v.insert((a.into(), b.into()));
    }
    v.into_iter().collect()
}

/// Small tables of related entries.
pub fn tables() -> Vec<Pairs> {
    let mut out = Vec::new();
    for (x, y) in related() {
        let e = |a: &str, b: &str| (a.to_string(), b.to_string());
        out.push(vec![e(&x, "T"), e(&y, "T")]);
        out.push(vec![e("F", &x), e("F", &y)]);
        out.push(vec![e(&x, &y), e(&y, &x)]);
        out.push(vec![e(&x, "T"), e(&y, "U"), e(&x, "U")]);
        out.push(vec![e(&x, &x), e(&y, &x), e(&y, &y)]);
        out.push(vec![e("m", "n"), e(&y, "T"), e("o", "T"), e(&x, "T"), e("F", &x), e("F", "p"), e("F", &y)]);
    }
    out
}

pub const SHAPES: usize = 10;
/// n entries of one structure.
pub fn shape(kind: usize, n: usize) -> Pairs {
    let han = |k: usize| char::from_u32(0x4e00 + k as u32).unwrap_or('x').to_string();
    (0..n)
        .map(|i| match kind {
            0 => (format!("f{i}"), format!("t{}", i % 7)),
            1 => ("one source".to_string(), format!("t{i}")),
            2 => (format!("f{i}"), "one target".to_string()),
            3 => (format!("f{}", i / 2), format!("t{}", i % 2)),
            4 => (format!("f{i}"), format!("f{i}")),
            5 => (format!("x{}", i ^ 1), format!("x{i}")),
            6 => (format!("a long common beginning of all entries {i}"), format!("another long common beginning {}", i / 3)),
            7 => (han(i), han(i + 1)),
            8 => (i.to_string(), (n - i).to_string()),
            _ => (format!("{}{}", if i % 2 == 0 { "k" } else { "K" }, i / 2), format!("{}t", if i % 3 == 0 { " " } else { "" })),
        })
        .collect()
}
