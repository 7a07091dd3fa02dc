//! Reference models, written from the documentation and kept independent of the code under test.

use std::collections::BTreeSet;

/// Unicode White_Space, listed here rather than taken from the standard library.
pub const WHITE: [char; 25] = [
    '\u{9}', '\u{a}', '\u{b}', '\u{c}', '\u{d}', ' ', '\u{85}', '\u{a0}', '\u{1680}', '\u{2000}', '\u{2001}', '\u{2002}', '\u{2003}', '\u{2004}',
    '\u{2005}', '\u{2006}', '\u{2007}', '\u{2008}', '\u{2009}', '\u{200a}', '\u{2028}', '\u{2029}', '\u{202f}', '\u{205f}', '\u{3000}',
];

pub const OPERATORS: [char; 7] = ['<', '>', '-', '+', '(', ')', ';'];

pub fn is_white(c: char) -> bool {
    WHITE.contains(&c)
}

pub fn is_operator(c: char) -> bool {
    OPERATORS.contains(&c)
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Class {
    White,
    Op,
    Word,
}

fn class(c: char) -> Class {
    if is_white(c) {
        Class::White
    } else if is_operator(c) {
        Class::Op
    } else {
        Class::Word
    }
}

/// The tokens of a text as byte ranges: maximal runs of operator characters, and maximal runs of
/// characters that are neither operators nor white space.
pub fn tokens(text: &str) -> Vec<(usize, usize)> {
    let mut out: Vec<(usize, usize)> = Vec::new();
    let mut last = Class::White;
    for (i, c) in text.char_indices() {
        let k = class(c);
        if k != Class::White {
            if k == last {
                out.last_mut().unwrap().1 = i + c.len_utf8();
            } else {
                out.push((i, i + c.len_utf8()));
            }
        }
        last = k;
    }
    out
}

/// The symbols of a symbol string, or an error when it holds a token that is not a symbol.
pub fn parse_string(text: &str) -> Result<Vec<String>, String> {
    let mut out = Vec::new();
    for (a, b) in tokens(text) {
        match &text[a..b] {
            ";" => break,
            t @ ("->" | "<" | ">") => return Err(t.to_string()),
            t => out.push(t.to_string()),
        }
    }
    Ok(out)
}

/// A rule over symbols numbered by the case.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Rule {
    pub pre: Vec<usize>,
    pub target: usize,
    pub post: Vec<usize>,
    /// The alternatives in the order they were added, each with the probability as written.
    pub bodies: Vec<(Option<String>, Vec<usize>)>,
}

impl Rule {
    pub fn same_head(&self, o: &Rule) -> bool {
        self.pre == o.pre && self.target == o.target && self.post == o.post
    }
    pub fn matches(&self, s: &[usize], i: usize) -> bool {
        if i >= s.len() || s[i] != self.target {
            return false;
        }
        if self.pre.len() > i || self.post.len() > s.len() - i - 1 {
            return false;
        }
        for k in 0..self.pre.len() {
            if s[i - self.pre.len() + k] != self.pre[k] {
                return false;
            }
        }
        for k in 0..self.post.len() {
            if s[i + 1 + k] != self.post[k] {
                return false;
            }
        }
        true
    }
}

/// Index of the rule that rewrites position `i`.
pub fn rule_for(rules: &[Rule], s: &[usize], i: usize) -> Option<usize> {
    (0..rules.len()).find(|r| rules[*r].matches(s, i))
}

/// One parallel step with rules that have one alternative each.
pub fn step(rules: &[Rule], s: &[usize]) -> Vec<usize> {
    let mut out = Vec::with_capacity(s.len());
    for i in 0..s.len() {
        match rule_for(rules, s, i) {
            Some(r) => out.extend_from_slice(&rules[r].bodies[0].1),
            None => out.push(s[i]),
        }
    }
    out
}

/// Whether `out` is a possible result of one step of rules with alternatives.
pub fn possible_step(rules: &[Rule], s: &[usize], out: &[usize]) -> bool {
    let mut at: BTreeSet<usize> = BTreeSet::from([0]);
    for i in 0..s.len() {
        let mut next = BTreeSet::new();
        match rule_for(rules, s, i) {
            None => {
                for p in &at {
                    if out.get(*p) == Some(&s[i]) {
                        next.insert(p + 1);
                    }
                }
            }
            Some(r) => {
                for (_, b) in &rules[r].bodies {
                    for p in &at {
                        if out.len() >= p + b.len() && out[*p..p + b.len()] == b[..] {
                            next.insert(p + b.len());
                        }
                    }
                }
            }
        }
        if next.is_empty() {
            return false;
        }
        at = next;
    }
    at.contains(&out.len())
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Seg {
    pub from: (f64, f64),
    pub to: (f64, f64),
    /// The segment starts where the one before it ended, with no Move and no `]` in between.
    pub joined: bool,
}

/// The unit direction after `turns` counterclockwise turns of `delta` degrees, starting upwards.
pub fn heading(turns: i64, delta: f64) -> (f64, f64) {
    let deg = (turns as f64 * delta) % 360.0;
    let quarter = deg / 90.0;
    if quarter == quarter.trunc() {
        return match (quarter as i64).rem_euclid(4) {
            0 => (0.0, 1.0),
            1 => (-1.0, 0.0),
            2 => (0.0, -1.0),
            _ => (1.0, 0.0),
        };
    }
    let r = deg * std::f64::consts::PI / 180.0;
    (-r.sin(), r.cos())
}

/// The turtle: heading is kept as a whole number of turns. `Err` when a `]` has no `[`.
pub fn turtle<'a>(commands: impl Iterator<Item = &'a str>, delta: f64, unit: f64) -> Result<Vec<Seg>, ()> {
    let mut pos = (0.0f64, 0.0f64);
    let mut turns: i64 = 0;
    let mut stack = Vec::new();
    let mut out: Vec<Seg> = Vec::new();
    let mut joined = false;
    for c in commands {
        match c {
            "Forward" | "Move" => {
                let h = heading(turns, delta);
                let to = (pos.0 + unit * h.0, pos.1 + unit * h.1);
                if c == "Forward" {
                    out.push(Seg { from: pos, to, joined });
                    joined = true;
                } else {
                    joined = false;
                }
                pos = to;
            }
            "+" => turns += 1,
            "-" => turns -= 1,
            "[" => stack.push((pos, turns)),
            "]" => {
                (pos, turns) = stack.pop().ok_or(())?;
                joined = false;
            }
            _ => {}
        }
    }
    Ok(out)
}

pub fn close(a: f64, b: f64, tol: f64) -> bool {
    a.is_finite() && b.is_finite() && (a - b).abs() <= tol
}
