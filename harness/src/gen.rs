//! Generators shared by the properties.

use crate::model::{is_operator, is_white, Rule, WHITE};
use engine::{sut, Fail, Src, R};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};

const PLAIN: [&str; 14] = ["A", "B", "C", "F", "X", "Forward", "Move", "[", "]", "a", "surname", "G", "S", "|"];
const ODD: [&str; 30] = [
    "é", "Rüther", "日本", "🌱", "𝔉", "ß", "İ", "ſ", "Ω", "ñ", "n\u{303}", "\u{200b}", "\u{feff}x", "x\u{200d}y", "\u{0}", "\u{7f}", "_", "A'", "\"", "&", "\\", "/", "!", "^", "$1",
    "F.G", "a:b", "{", "~", "%",
];

/// A symbol name without white space, operator characters, '#', '='.
pub fn name(s: &mut Src) -> String {
    match s.weighted(&[50, 20, 12, 12, 4, 2, 3]) {
        0 => s.pick(&PLAIN).to_string(),
        1 => {
            let n = s.range(1, 4);
            (0..n).map(|_| *s.pick(&['A', 'B', 'a', 'b', 'é', '1', '_', 'Z', 'e', '0'])).collect::<String>().trim_start_matches(|c: char| c.is_ascii_digit()).to_string() + "q"
        }
        2 => s.pick(&ODD).to_string(),
        3 => {
            let mut o = String::new();
            let n = s.range(1, 5);
            for _ in 0..n {
                o.push(any_word_char(s));
            }
            format!("N{o}")
        }
        4 => {
            // Long names.
            let n = s.range(20, 300);
            let c = *s.pick(&['L', 'é', '日', 'm']);
            let mut o: String = std::iter::repeat(c).take(n).collect();
            o.push_str(&s.below(100).to_string());
            o
        }
        5 => {
            let p = s.pick(&PLAIN).to_string();
            format!("{p}{}", s.below(100000))
        }
        // A text that the code under test mentions.
        _ => {
            let w: String = s.literal_word().chars().filter(|c| !is_white(*c) && !is_operator(*c) && !"#=:".contains(*c)).collect();
            match s.weighted(&[5, 1, 1]) {
                0 if !w.is_empty() => w,
                1 => format!("w{w}"),
                _ => format!("{w}w"),
            }
        }
    }
}

pub fn any_word_char(s: &mut Src) -> char {
    for _ in 0..20 {
        let c = any_char(s);
        if !is_white(c) && !is_operator(c) && c != '#' && c != '=' {
            return c;
        }
    }
    'w'
}

pub fn any_char(s: &mut Src) -> char {
    let v = match s.weighted(&[40, 20, 15, 15, 10]) {
        0 => 0x20 + s.draw(0x5f) as u32,
        1 => s.draw(0x100) as u32,
        2 => s.draw(0x800) as u32,
        3 => s.draw(0x1_0000) as u32,
        _ => s.draw(0x11_0000) as u32,
    };
    char::from_u32(v).unwrap_or('\u{fffd}')
}

pub fn white_char(s: &mut Src) -> char {
    match s.weighted(&[6, 2, 3]) {
        0 => ' ',
        1 => *s.pick(&['\t', '\n', '\r']),
        _ => *s.pick(&WHITE),
    }
}

/// White space that is also white space to an ASCII splitter, within one line.
pub fn blank(s: &mut Src, min: usize) -> String {
    let n = min + s.weighted(&[8, 2, 1, 1]);
    (0..n).map(|_| *s.pick(&[' ', ' ', ' ', '\t'])).collect()
}

pub fn white(s: &mut Src, min: usize) -> String {
    let n = min + s.weighted(&[8, 3, 1, 1]);
    (0..n).map(|_| white_char(s)).collect()
}

pub const OPS: [&str; 14] = ["+", "-", "(", ")", "--", "++", "+-", "-->", ";;", ")(", "((", "<<", ">>", "->>"];

/// An alphabet of `n` different names.
pub fn alphabet(s: &mut Src, n: usize) -> Vec<String> {
    let mut v: Vec<String> = Vec::new();
    let mut tries = 0;
    // Sometimes all names are made of the same few pieces, so that run together they look alike.
    let pieces = match s.weighted(&[10, 2]) {
        0 => None,
        _ => Some(*s.pick(&[["A", "B"], ["a", "A"], ["F", "f1"], ["é", "e"], ["[", "]"], ["x", "|"], ["1", "q"], ["e\u{301}", "é"]])),
    };
    while v.len() < n {
        let mut c = if tries >= 4 * n {
            format!("S{}z{tries}", v.len())
        } else if let Some(p) = pieces {
            let k = s.range(1, 3);
            (0..k).map(|_| *s.pick(&p)).collect()
        } else {
            name(s)
        };
        tries += 1;
        // Body texts that start with a number state a probability.
        if c.parse::<f32>().is_ok() {
            c.push('q');
        }
        if !v.contains(&c) {
            v.push(c);
        }
    }
    v
}

pub fn word(s: &mut Src, alpha: usize, min: usize, max: usize) -> Vec<usize> {
    let n = s.len(min, max);
    // A periodic word makes long contexts match.
    if n > 6 && s.chance(1, 3) {
        let p = s.range(1, 3);
        let base: Vec<usize> = (0..p).map(|_| s.below(alpha)).collect();
        let mut w: Vec<usize> = (0..n).map(|i| base[i % p]).collect();
        let flips = s.below(3);
        for _ in 0..flips {
            let i = s.below(n);
            w[i] = s.below(alpha);
        }
        return w;
    }
    (0..n).map(|_| s.below(alpha)).collect()
}

/// A head, with contexts mostly taken from the text so that they match somewhere.
pub fn head(s: &mut Src, alpha: usize, axiom: &[usize], max_ctx: usize) -> (Vec<usize>, usize, Vec<usize>) {
    let kind = s.weighted(&[45, 18, 18, 19]);
    if kind == 0 || (axiom.is_empty() && s.bool()) {
        return (vec![], s.below(alpha), vec![]);
    }
    let from_text = !axiom.is_empty() && s.chance(3, 4);
    let at = if from_text { s.below(axiom.len()) } else { 0 };
    let target = if from_text { axiom[at] } else { s.below(alpha) };
    let mut pre = vec![];
    let mut post = vec![];
    if kind == 1 || kind == 3 {
        let n = s.small(1, max_ctx);
        pre = if from_text { axiom[at.saturating_sub(n)..at].to_vec() } else { (0..n).map(|_| s.below(alpha)).collect() };
        if pre.len() < n && s.chance(1, 3) {
            pre.insert(0, s.below(alpha));
        }
    }
    if kind == 2 || kind == 3 {
        let n = s.small(1, max_ctx);
        post = if from_text { axiom[at + 1..(at + 1 + n).min(axiom.len())].to_vec() } else { (0..n).map(|_| s.below(alpha)).collect() };
        if post.len() < n && s.chance(1, 3) {
            post.push(s.below(alpha));
        }
    }
    // Sometimes spoil one symbol.
    if s.chance(1, 8) {
        if !pre.is_empty() && s.bool() {
            let i = s.below(pre.len());
            pre[i] = s.below(alpha);
        } else if !post.is_empty() {
            let i = s.below(post.len());
            post[i] = s.below(alpha);
        }
    }
    (pre, target, post)
}

/// Rules with different heads and one alternative each.
pub fn det_rules(s: &mut Src, alpha: usize, axiom: &[usize], max_rules: usize, max_body: usize, ctx: usize) -> Vec<Rule> {
    let n = s.small(0, max_rules);
    let mut v: Vec<Rule> = Vec::new();
    for _ in 0..n {
        let (pre, target, post) = if ctx == 0 { (vec![], s.below(alpha), vec![]) } else { head(s, alpha, axiom, ctx) };
        let nb = s.weighted(&[3, 3, 4, 3, 1]).min(max_body);
        let body = (0..nb).map(|_| s.below(alpha)).collect();
        let r = Rule { pre, target, post, bodies: vec![(None, body)] };
        if !v.iter().any(|o| o.same_head(&r)) {
            v.push(r);
        }
    }
    v
}

/// A length around and beyond 65536, where narrow counters wrap, or below.
pub fn huge_len(s: &mut Src) -> usize {
    match s.weighted(&[3, 2, 4, 1]) {
        0 => s.range(65_400, 67_000),
        1 => s.range(2_000, 65_000),
        2 => s.range(71_000, 150_000),
        _ => s.range(150_000, 300_000),
    }
}

pub fn show_word(names: &[String], w: &[usize]) -> String {
    w.iter().map(|i| names[*i].as_str()).collect::<Vec<_>>().join(" ")
}

pub fn rule_text(names: &[String], r: &Rule, body: usize) -> String {
    let mut t = String::new();
    if !r.pre.is_empty() {
        t.push_str(&show_word(names, &r.pre));
        t.push_str(" < ");
    }
    t.push_str(&names[r.target]);
    if !r.post.is_empty() {
        t.push_str(" > ");
        t.push_str(&show_word(names, &r.post));
    }
    t.push_str(" -> ");
    let (c, b) = &r.bodies[body];
    if let Some(c) = c {
        t.push_str(c);
        t.push(' ');
    }
    t.push_str(&show_word(names, b));
    t
}

pub fn show_rules(names: &[String], rules: &[Rule]) -> String {
    let mut v = Vec::new();
    for r in rules {
        for b in 0..r.bodies.len() {
            v.push(rule_text(names, r, b));
        }
    }
    v.join(" ; ")
}

/// The symbols of a case, known to the code under test.
pub struct Symbols {
    pub names: Vec<String>,
    pub syms: Vec<Symbol>,
}

impl Symbols {
    pub fn new(names: Vec<String>) -> R<Symbols> {
        let mut syms = Vec::new();
        for n in &names {
            match sut("Symbol::build", || Symbol::build(n))? {
                Ok(x) => syms.push(x),
                Err(e) => return Err(Fail::Violation(format!("symbol name {n:?} was refused: {e}"))),
            }
        }
        Ok(Symbols { names, syms })
    }
    pub fn string(&self, w: &[usize]) -> ProductionString {
        ProductionString::from(w.iter().map(|i| self.syms[*i]).collect::<Vec<_>>())
    }
    /// The word a string stands for.
    pub fn word(&self, p: &ProductionString) -> R<Vec<usize>> {
        let mut out = Vec::with_capacity(p.len());
        for x in p.symbols() {
            match self.syms.iter().position(|y| y == x) {
                Some(i) => out.push(i),
                None => return Err(Fail::Violation(format!("the string holds the symbol {x}, which is not in the alphabet"))),
            }
        }
        Ok(out)
    }
    pub fn head(&self, r: &Rule) -> R<ProductionHead> {
        let pre = if r.pre.is_empty() { None } else { Some(self.string(&r.pre)) };
        let post = if r.post.is_empty() { None } else { Some(self.string(&r.post)) };
        ProductionHead::build(pre, self.syms[r.target], post).map_err(|e| Fail::Violation(format!("a rule head was refused: {e}")))
    }
    /// A production built without parsing; `body` selects the alternative.
    pub fn production(&self, r: &Rule, body: usize) -> R<Production> {
        let (c, b) = &r.bodies[body];
        let string = self.string(b);
        let body = match c {
            None => ProductionBody::new(string),
            Some(c) => {
                let v: f32 = c.parse().map_err(|_| Fail::Harness(format!("bad probability {c}")))?;
                sut("ProductionBody::try_with_chance", || ProductionBody::try_with_chance(v, string))?.map_err(|e| Fail::Violation(format!("probability {c} was refused: {e}")))?
            }
        };
        Ok(Production::new(self.head(r)?, body))
    }
    /// Adds alternative `body` of the rule, by text, as an owned text, or as a built production.
    pub fn add<P: ProductionStore>(&self, store: &P, r: &Rule, body: usize, how: usize) -> R<Production> {
        let text = rule_text(&self.names, r, body);
        let res = match how {
            0 => sut("add_production", || store.add_production(text.as_str()))?,
            1 => sut("add_production", || store.add_production(text.clone()))?,
            _ => {
                let p = self.production(r, body)?;
                sut("add_production", || store.add_production(p))?
            }
        };
        res.map_err(|e| Fail::Violation(format!("the rule {text:?} was refused: {e}")))
    }
    pub fn system(&self, rules: &[Rule], how: usize) -> R<System> {
        let system = System::new();
        for r in rules {
            for b in 0..r.bodies.len() {
                self.add(&system, r, b, how)?;
            }
        }
        Ok(system)
    }
    pub fn productions(&self, rules: &[Rule]) -> R<Vec<Production>> {
        let mut v = Vec::new();
        for r in rules {
            let mut p = self.production(r, 0)?;
            for b in 1..r.bodies.len() {
                let q = self.production(r, b)?;
                if b % 2 == 0 {
                    p.merge(q);
                } else {
                    p.add_body(q.all_bodies()[0].clone());
                }
            }
            v.push(p);
        }
        Ok(v)
    }
}
