//! The rules as documented, written out independently of the code under test.

use crate::model::{Pipe, M};
use std::collections::HashMap;

/// Full-width forms of ASCII that the punctuation table does not take from U+FF01..U+FF5E.
pub const NOT_FULLWIDTH: [char; 3] = ['\u{FF02}', '\u{FF07}', '\u{FF5E}'];

pub const HALF_KANA: &str = "ｦｧｨｩｪｫｬｭｮｯｱｲｳｴｵｶｷｸｹｺｻｼｽｾｿﾀﾁﾂﾃﾄﾅﾆﾇﾈﾉﾊﾋﾌﾍﾎﾏﾐﾑﾒﾓﾔﾕﾖﾗﾘﾙﾚﾛﾜﾝ";
pub const FULL_KANA: &str = "ヲァィゥェォャュョッアイウエオカキクケコサシスセソタチツテトナニヌネノハヒフヘホマミムメモヤユヨラリルレロワン";
pub const HALF_KANA_PUNCT: &str = "｡｢｣､･";
pub const FULL_KANA_PUNCT: &str = "。「」、・";

pub const TILDES: &str = "~∼∾〜〰～";
pub const LONG_VOWELS: &str = "﹣ｰ—―─━";
pub const HYPHENS: &str = "˗֊‐‑‒–⁃⁻₋−－";

const VOICED_BASE: &str = "かきくけこさしすせそたちつてとはひふへほうカキクケコサシスセソタチツテトハヒフヘホウ";
const VOICED: &str = "がぎぐげござじずぜぞだぢづでどばびぶべぼゔガギグゲゴザジズゼゾダヂヅデドバビブベボヴ";
const SEMI_BASE: &str = "はひふへほハヒフヘホ";
const SEMI: &str = "ぱぴぷぺぽパピプペポ";

pub fn alphabet_pairs() -> Vec<(char, char)> {
    ('Ａ'..='Ｚ').chain('ａ'..='ｚ').map(|c| (c, half(c))).collect()
}
pub fn digit_pairs() -> Vec<(char, char)> {
    ('０'..='９').map(|c| (c, half(c))).collect()
}
pub fn punctuation_pairs() -> Vec<(char, char)> {
    let mut v: Vec<(char, char)> = ('\u{FF01}'..='\u{FF5E}')
        .filter(|c| !half(*c).is_ascii_alphanumeric() && !NOT_FULLWIDTH.contains(c))
        .map(|c| (c, half(c)))
        .collect();
    v.extend([('”', '"'), ('’', '\''), ('〜', '~'), ('￥', '¥')]);
    v
}
pub fn kana_pairs() -> Vec<(char, char)> {
    let mut v: Vec<(char, char)> = HALF_KANA.chars().zip(FULL_KANA.chars()).collect();
    v.extend(HALF_KANA_PUNCT.chars().zip(FULL_KANA_PUNCT.chars()));
    v.push(('\u{3000}', ' '));
    v
}

fn half(c: char) -> char {
    char::from_u32(c as u32 - 0xFEE0).unwrap()
}

pub fn preset_map() -> HashMap<char, char> {
    let mut m = HashMap::new();
    for (a, b) in alphabet_pairs().into_iter().chain(digit_pairs()).chain(punctuation_pairs()).chain(kana_pairs()) {
        assert!(m.insert(a, b).is_none());
    }
    m
}

pub fn neologdn_map() -> HashMap<char, char> {
    let mut m = preset_map();
    m.remove(&'＝');
    for c in LONG_VOWELS.chars() {
        m.insert(c, 'ー');
    }
    for c in HYPHENS.chars() {
        m.insert(c, '-');
    }
    m
}

pub fn voiced_pairs() -> Vec<(String, String)> {
    let mut v = Vec::new();
    for (b, c) in VOICED_BASE.chars().zip(VOICED.chars()) {
        v.push((format!("{b}゛"), c.to_string()));
    }
    for (b, c) in SEMI_BASE.chars().zip(SEMI.chars()) {
        v.push((format!("{b}゜"), c.to_string()));
    }
    v
}

pub fn neologdn() -> Pipe {
    Pipe(vec![
        M::Map(neologdn_map()),
        M::Dotted,
        M::Elim(TILDES.chars().collect()),
        M::Reduce('ー'),
        M::seq(&voiced_pairs()),
    ])
}

pub fn preset() -> Pipe {
    Pipe(vec![M::Map(preset_map())])
}

/// The normal form of C02: returns what is wrong with `s` as an output of neologdn.
pub fn abnormal(s: &str) -> Option<String> {
    let v: Vec<char> = s.chars().collect();
    let voiced = voiced_set();
    for (i, c) in v.iter().enumerate() {
        if TILDES.contains(*c) {
            return Some(format!("contains the tilde look-alike {c:?}"));
        }
        if ('０'..='９').contains(c) || ('Ａ'..='Ｚ').contains(c) || ('ａ'..='ｚ').contains(c) {
            return Some(format!("contains the full-width {c:?}"));
        }
        if *c == '\u{3000}' {
            return Some("contains an ideographic space".into());
        }
        if *c == ' ' {
            let l = i > 0 && v[i - 1].is_ascii_alphanumeric();
            let r = i + 1 < v.len() && v[i + 1].is_ascii_alphanumeric();
            if !l || !r {
                return Some(format!("has a space not between ASCII alphanumerics at char {i}"));
            }
        }
        if i > 0 {
            if *c == 'ー' && v[i - 1] == 'ー' {
                return Some(format!("has two adjacent 'ー' at char {i}"));
            }
            if (*c == '゛' || *c == '゜') && voiced.contains(&(v[i - 1], *c)) {
                return Some(format!("has an uncomposed {}{} at char {i}", v[i - 1], c));
            }
        }
    }
    None
}

fn voiced_set() -> &'static std::collections::HashSet<(char, char)> {
    static S: std::sync::OnceLock<std::collections::HashSet<(char, char)>> = std::sync::OnceLock::new();
    S.get_or_init(|| {
        voiced_pairs()
            .into_iter()
            .map(|(k, _)| {
                let mut c = k.chars();
                (c.next().unwrap(), c.next().unwrap())
            })
            .collect()
    })
}
