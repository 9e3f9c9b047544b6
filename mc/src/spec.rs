//! A description of a normalizer that can be built with the real library, run on the reference
//! machines and written into a replay file.

use crate::model::{Pipe, M};
use crate::oracle;
use ::chanoma::corr::{Correspondence, Item, Synthesized};
use ::chanoma::table::{Origin, Table};
use ::chanoma::Chanoma;
use serde::{Deserialize, Serialize};
use std::path::Path;

pub type Pairs = Vec<(String, String)>;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Step {
    Conv(Vec<(char, char)>),
    Elim(Vec<char>),
    Reduce(char),
    Dotted,
    Trim,
    Lig(Pairs),
    Neologdn,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Part {
    New,
    Preset,
    Neologdn,
    Table(Pairs),
    Csv(Pairs),
    Yaml { steps: Vec<Step>, items: Pairs },
}

/// A base constructor followed by additions.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Spec(pub Vec<Part>);

pub fn yq(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        let raw = c >= '\u{a1}' && !c.is_whitespace() && c != '\u{feff}' && c as u32 & 0xfffe != 0xfffe;
        // some are written as escapes
        if c.is_ascii_alphanumeric() || raw && c as u32 % 11 != 0 {
            o.push(c);
        } else {
            o.push_str(&format!("\\U{:08X}", c as u32));
        }
    }
    o.push('"');
    o
}

pub fn cq(s: &str) -> String {
    format!("\"{}\"", s.replace('"', "\"\""))
}

impl Step {
    pub fn yaml(&self) -> String {
        match self {
            Step::Conv(m) => {
                let kv: Vec<String> = m
                    .iter()
                    .map(|(a, b)| format!("{}: {}", yq(&a.to_string()), yq(&b.to_string())))
                    .collect();
                format!("  character_converter: {{{}}}\n", kv.join(", "))
            }
            Step::Elim(v) => {
                let v: Vec<String> = v.iter().map(|c| yq(&c.to_string())).collect();
                format!("  character_eliminator: [{}]\n", v.join(", "))
            }
            Step::Reduce(c) => format!("  consecutive_character_reducer: {}\n", yq(&c.to_string())),
            Step::Dotted => "  dotted_space_eliminator:\n".into(),
            Step::Trim => "  trim:\n".into(),
            Step::Lig(m) => {
                // YAML limits an implicit key to 1024 characters
                let key = |a: &str| if a.chars().count() < 100 { yq(a) } else { format!("? {} ", yq(a)) };
                let kv: Vec<String> = m.iter().map(|(a, b)| format!("{}: {}", key(a), yq(b))).collect();
                format!("  ligature_translator: {{{}}}\n", kv.join(", "))
            }
            Step::Neologdn => "  neologdn:\n".into(),
        }
    }

    pub fn machines(&self) -> Vec<M> {
        match self {
            Step::Conv(m) => vec![M::Map(m.iter().cloned().collect())],
            Step::Elim(v) => vec![M::Elim(v.iter().cloned().collect())],
            Step::Reduce(c) => vec![M::Reduce(*c)],
            Step::Dotted => vec![M::Dotted],
            Step::Trim => vec![M::Trim],
            Step::Lig(m) => vec![M::seq(m)],
            Step::Neologdn => oracle::neologdn().0,
        }
    }
}

pub fn items_of(pairs: &Pairs) -> Vec<Item> {
    pairs.iter().map(|(a, b)| Item::new(a.clone(), b.clone())).collect()
}

pub fn table_of(pairs: &Pairs) -> Table {
    Table::from_corr(Correspondence::new(Synthesized::new(items_of(pairs))), Origin::New)
}

fn table_machine(pairs: &Pairs) -> Vec<M> {
    vec![M::Map(
        pairs
            .iter()
            .filter(|(a, b)| !a.is_empty() && !b.is_empty())
            .map(|(a, b)| (a.chars().next().unwrap(), b.chars().next().unwrap()))
            .collect(),
    )]
}

impl Part {
    pub fn document(&self) -> Option<(&'static str, String)> {
        match self {
            Part::Csv(p) => {
                let mut s = String::from("from,to\n");
                for (a, b) in p {
                    s.push_str(&format!("{},{}\n", cq(a), cq(b)));
                }
                Some(("csv", s))
            }
            Part::Yaml { steps, items } => {
                let mut s = String::from("---\n");
                if !steps.is_empty() {
                    s.push_str("modifiers:\n");
                    for st in steps {
                        s.push_str(&st.yaml());
                    }
                }
                if !items.is_empty() {
                    s.push_str("items:\n");
                    let mut order: Vec<(&String, Vec<String>)> = Vec::new();
                    let mut at: std::collections::HashMap<&String, usize> = Default::default();
                    for (a, b) in items {
                        let k = *at.entry(b).or_insert_with(|| {
                            order.push((b, vec![]));
                            order.len() - 1
                        });
                        order[k].1.push(yq(a));
                    }
                    for (t, f) in order {
                        s.push_str(&format!("  {}: [{}]\n", yq(t), f.join(", ")));
                    }
                }
                Some(("yaml", s))
            }
            _ => None,
        }
    }

    pub fn machines(&self) -> Vec<M> {
        match self {
            Part::New => vec![],
            Part::Preset => oracle::preset().0,
            Part::Neologdn => oracle::neologdn().0,
            Part::Table(p) | Part::Csv(p) => table_machine(p),
            Part::Yaml { steps, items } => {
                let mut v: Vec<M> = steps.iter().flat_map(|s| s.machines()).collect();
                v.extend(table_machine(items));
                v
            }
        }
    }

    pub fn construct(&self, dir: &Path) -> Result<Chanoma, String> {
        Ok(match self {
            Part::New => Chanoma::new(),
            Part::Preset => Chanoma::preset(),
            Part::Neologdn => Chanoma::neologdn(),
            Part::Table(p) => Chanoma::from_table(table_of(p)),
            Part::Csv(_) | Part::Yaml { .. } => {
                let (ext, doc) = self.document().unwrap();
                let path = dir.join(format!("part.{ext}"));
                std::fs::write(&path, &doc).map_err(|e| e.to_string())?;
                Chanoma::from_config_file(&path).map_err(|e| format!("valid configuration rejected: {e}: {doc:?}"))?
            }
        })
    }

    pub fn add_to(&self, c: &mut Chanoma) {
        match self {
            Part::Preset => {
                c.use_preset();
            }
            Part::Neologdn => {
                c.use_neologdn();
            }
            Part::Table(p) => {
                c.add_table(table_of(p));
            }
            p => panic!("{p:?} cannot be added"),
        }
    }
}

impl Spec {
    pub fn step(s: Step) -> Spec {
        Spec(vec![Part::Yaml { steps: vec![s], items: vec![] }])
    }
    pub fn build(&self, dir: &Path) -> Result<Chanoma, String> {
        let mut c = self.0[0].construct(dir)?;
        for p in &self.0[1..] {
            p.add_to(&mut c);
        }
        Ok(c)
    }
    pub fn pipe(&self) -> Pipe {
        Pipe(self.0.iter().flat_map(|p| p.machines()).collect())
    }
}
