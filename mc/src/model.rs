//! Reference machines. Every step is a character transducer (a Mealy machine with an end-of-text
//! output); a normalizer is a pipeline of them. The same `step`/`flush` functions are used to run
//! a text and to explore the reachable states of a pipeline.

use std::collections::{BTreeSet, HashMap, HashSet, VecDeque};

#[derive(Clone, Debug)]
pub enum M {
    /// Character to character.
    Map(HashMap<char, char>),
    /// Delete the members.
    Elim(HashSet<char>),
    /// Collapse runs of one character.
    Reduce(char),
    /// One space between ASCII alphanumerics, none elsewhere.
    Dotted,
    /// Strip spaces at both ends.
    Trim,
    /// Replace sequences, leftmost first. Only for sets that do not overlap one another.
    Seq { keys: Vec<(Vec<char>, Vec<char>)>, prefixes: HashSet<Vec<char>> },
}

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub enum St {
    U,
    B(bool),
    D(bool, bool),
    T(bool, u32),
    P(Vec<char>),
}

impl M {
    pub fn seq(keys: &[(String, String)]) -> M {
        let keys: Vec<(Vec<char>, Vec<char>)> =
            keys.iter().map(|(a, b)| (a.chars().collect(), b.chars().collect())).collect();
        let mut prefixes = HashSet::new();
        for (k, _) in &keys {
            for n in 0..k.len() {
                prefixes.insert(k[..n].to_vec());
            }
        }
        M::Seq { keys, prefixes }
    }

    pub fn init(&self) -> St {
        match self {
            M::Map(_) | M::Elim(_) => St::U,
            M::Reduce(_) => St::B(false),
            M::Dotted => St::D(false, false),
            M::Trim => St::T(false, 0),
            M::Seq { .. } => St::P(Vec::new()),
        }
    }

    pub fn step(&self, st: &mut St, c: char, out: &mut Vec<char>) {
        match (self, st) {
            (M::Map(m), _) => out.push(*m.get(&c).unwrap_or(&c)),
            (M::Elim(s), _) => {
                if !s.contains(&c) {
                    out.push(c)
                }
            }
            (M::Reduce(r), St::B(in_run)) => {
                if c != *r || !*in_run {
                    out.push(c);
                }
                *in_run = c == *r;
            }
            // D(the last character other than a space is an ASCII alphanumeric, spaces follow it)
            (M::Dotted, St::D(alnum, spaces)) => {
                if c == ' ' {
                    *spaces = *alnum;
                } else {
                    if *spaces && c.is_ascii_alphanumeric() {
                        out.push(' ');
                    }
                    out.push(c);
                    *alnum = c.is_ascii_alphanumeric();
                    *spaces = false;
                }
            }
            // T(something was kept already, spaces seen since)
            (M::Trim, St::T(body, spaces)) => {
                if c == ' ' {
                    if *body {
                        *spaces += 1;
                    }
                } else {
                    out.extend(std::iter::repeat(' ').take(*spaces as usize));
                    out.push(c);
                    *body = true;
                    *spaces = 0;
                }
            }
            (M::Seq { keys, prefixes }, St::P(pend)) => {
                pend.push(c);
                loop {
                    if let Some((_, to)) = keys.iter().find(|(k, _)| k == pend) {
                        out.extend(to);
                        pend.clear();
                        return;
                    }
                    if pend.is_empty() || prefixes.contains(pend) {
                        return;
                    }
                    out.push(pend.remove(0));
                }
            }
            _ => unreachable!(),
        }
    }

    pub fn flush(&self, st: &St, out: &mut Vec<char>) {
        if let (M::Seq { .. }, St::P(p)) = (self, st) {
            out.extend(p);
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct Pipe(pub Vec<M>);

impl Pipe {
    pub fn run(&self, text: &str) -> String {
        let mut cur: Vec<char> = text.chars().collect();
        for m in &self.0 {
            let mut out = Vec::with_capacity(cur.len());
            let mut st = m.init();
            for c in cur {
                m.step(&mut st, c, &mut out);
            }
            m.flush(&st, &mut out);
            cur = out;
        }
        cur.into_iter().collect()
    }

    pub fn init(&self) -> Vec<St> {
        self.0.iter().map(|m| m.init()).collect()
    }

    /// One input character through the whole pipeline.
    pub fn step(&self, st: &mut [St], c: char) -> Vec<char> {
        let mut cur = vec![c];
        for (m, s) in self.0.iter().zip(st.iter_mut()) {
            let mut out = Vec::new();
            for c in cur {
                m.step(s, c, &mut out);
            }
            cur = out;
        }
        cur
    }

    pub fn flush(&self, st: &[St]) -> Vec<char> {
        let mut st = st.to_vec();
        let mut cur: Vec<char> = Vec::new();
        for (m, s) in self.0.iter().zip(st.iter_mut()) {
            let mut out = Vec::new();
            for c in cur {
                m.step(s, c, &mut out);
            }
            m.flush(s, &mut out);
            cur = out;
        }
        cur
    }

    fn feed(&self, st: &mut [St], text: &[char]) -> Vec<char> {
        text.iter().flat_map(|c| self.step(st, *c)).collect()
    }
}

/// The explored state graph of a pipeline over an alphabet.
pub struct Graph {
    pub states: Vec<Vec<St>>,
    pub access: Vec<Vec<char>>,
    pub transitions: u64,
    pub complete: bool,
}

/// Breadth-first search of the reachable states. Trimming counts pending spaces without bound, so
/// the search stops at `cap` states and says so.
pub fn reach(p: &Pipe, alphabet: &[char], cap: usize) -> Graph {
    let mut seen: HashMap<Vec<St>, usize> = HashMap::new();
    let mut g = Graph { states: vec![p.init()], access: vec![vec![]], transitions: 0, complete: true };
    seen.insert(p.init(), 0);
    let mut q = VecDeque::from([0usize]);
    while let Some(i) = q.pop_front() {
        for c in alphabet {
            let mut s = g.states[i].clone();
            p.step(&mut s, *c);
            g.transitions += 1;
            if !seen.contains_key(&s) {
                if g.states.len() >= cap {
                    g.complete = false;
                    continue;
                }
                seen.insert(s.clone(), g.states.len());
                let mut a = g.access[i].clone();
                a.push(*c);
                g.states.push(s);
                g.access.push(a);
                q.push_back(g.states.len() - 1);
            }
        }
    }
    g
}

/// A set of suffixes that tells apart every two reachable states that any suffix of at most
/// `maxlen` symbols tells apart, and the number of pairs left equivalent.
pub fn characterize(p: &Pipe, g: &Graph, alphabet: &[char], maxlen: u32) -> (Vec<Vec<char>>, usize) {
    let mut suffixes: Vec<Vec<char>> = vec![vec![]];
    let mut layer: Vec<Vec<char>> = vec![vec![]];
    for _ in 0..maxlen {
        let mut next = Vec::new();
        for w in &layer {
            for c in alphabet {
                let mut v = w.clone();
                v.push(*c);
                next.push(v);
            }
        }
        suffixes.extend(next.iter().cloned());
        layer = next;
    }
    // partition refinement by observed outputs
    let mut class: Vec<usize> = vec![0; g.states.len()];
    let mut chosen = vec![];
    for w in suffixes {
        let sig: Vec<Vec<char>> = g
            .states
            .iter()
            .map(|s| {
                let mut s = s.clone();
                let mut o = p.feed(&mut s, &w);
                o.extend(p.flush(&s));
                o
            })
            .collect();
        let before = class.iter().collect::<BTreeSet<_>>().len();
        let mut ids: HashMap<(usize, &Vec<char>), usize> = HashMap::new();
        let new: Vec<usize> = class
            .iter()
            .zip(sig.iter())
            .map(|(c, s)| {
                let n = ids.len();
                *ids.entry((*c, s)).or_insert(n)
            })
            .collect();
        let after = new.iter().collect::<BTreeSet<_>>().len();
        if after > before {
            chosen.push(w);
            class = new;
        }
    }
    let mut per: HashMap<usize, usize> = HashMap::new();
    for c in class {
        *per.entry(c).or_default() += 1;
    }
    let equiv = per.values().map(|n| n * (n - 1) / 2).sum();
    if chosen.is_empty() {
        chosen.push(vec![]);
    }
    (chosen, equiv)
}

/// Result of checking idempotence of a pipeline on the model itself.
pub struct Idem {
    pub states: u64,
    pub transitions: u64,
    pub counterexample: Option<Vec<char>>,
    pub bounded: bool,
}

/// Explores the product of the pipeline with a second copy reading its output: a product state is
/// (state of the first, state of the second, the text by which one output is ahead of the other).
/// If the search ends with every reachable end-of-text output agreeing, running the pipeline twice
/// equals running it once for every text over the alphabet, of any length.
pub fn idempotent(p: &Pipe, alphabet: &[char], cap: usize) -> Idem {
    // lag: what the first copy has written and the second has not yet confirmed
    type S = (Vec<St>, Vec<St>, Vec<char>);
    let start: S = (p.init(), p.init(), vec![]);
    let mut seen: HashMap<S, Vec<char>> = HashMap::new();
    seen.insert(start.clone(), vec![]);
    let mut q = VecDeque::from([start]);
    let mut r = Idem { states: 0, transitions: 0, counterexample: None, bounded: true };
    while let Some(s) = q.pop_front() {
        r.states += 1;
        let path = seen[&s].clone();
        // end of text here
        let (a, b, lag) = &s;
        let tail = p.flush(a);
        let mut lag2 = lag.clone();
        lag2.extend(&tail);
        let mut b2 = b.clone();
        let mut o = p.feed(&mut b2, &tail);
        o.extend(p.flush(&b2));
        if o != lag2 {
            r.counterexample = Some(path);
            return r;
        }
        for c in alphabet {
            r.transitions += 1;
            let (mut a, mut b, mut lag) = s.clone();
            let o1 = p.step(&mut a, *c);
            lag.extend(&o1);
            let o2 = p.feed(&mut b, &o1);
            if o2.len() > lag.len() || o2 != lag[..o2.len()] {
                let mut path = path.clone();
                path.push(*c);
                r.counterexample = Some(path);
                return r;
            }
            lag.drain(..o2.len());
            let n = (a, b, lag);
            if !seen.contains_key(&n) {
                if seen.len() >= cap {
                    r.bounded = false;
                    continue;
                }
                let mut path = path.clone();
                path.push(*c);
                seen.insert(n.clone(), path);
                q.push_back(n);
            }
        }
    }
    r
}
