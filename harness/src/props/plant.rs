//! P22: plant files.

use crate::gen::{self, Symbols};
use crate::model::{self, Rule};
use crate::props::{svg, turtle};
use engine::*;
use rusty_systems::interpretation::abop::parser::{parse, parse_file};
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::prelude::*;
use std::collections::BTreeSet;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P22",
        rule: "A system (iteration count, angle, starting string and 1-12 rule lines over the drawing vocabulary and other symbols, with contexts, alternatives and probabilities) is written down as a plant file with random line order, spacing, comments, line ends, \
               key spellings, repeated and absent settings, and parsed from a text or a file ('long': up to 2000 rules, 70000 lines, lines of 100 kB; 'many-rules': up to 66200 rules); what comes back is compared with the system, rule by rule and by deriving. 'corrupt' applies one fault that must be rejected. Non-trivial: the file has a \
               comment, a repeated or absent setting, a context or an alternative; every corruption counts.",
        assumptions: &["within a line, white space is blanks and tabs", "symbol names do not contain '=' or '#'", "the starting string is not empty"],
        phases: vec![
            Phase { name: "wellformed", kind: Kind::Random, quick: 600_000, thorough: 9_000_000, f: p22_wellformed },
            Phase { name: "corrupt", kind: Kind::Random, quick: 600_000, thorough: 9_000_000, f: p22_corrupt },
            Phase { name: "long", kind: Kind::Random, quick: 400, thorough: 6_000, f: p22_long },
            Phase { name: "files", kind: Kind::Random, quick: 40_000, thorough: 450_000, f: p22_files },
            Phase { name: "many-rules", kind: Kind::Random, quick: 8, thorough: 80, f: p22_many },
        ],
    }]
}

/// A system as a user thinks of it.
pub struct Spec {
    /// Names, starting with the drawing vocabulary.
    pub names: Vec<String>,
    pub n: Option<(String, usize)>,
    pub delta: Option<(String, f32)>,
    pub axiom: Vec<usize>,
    pub rules: Vec<Rule>,
    /// The rule lines in the order they are written.
    pub lines: Vec<(usize, usize)>,
}

impl Spec {
    pub fn n(&self) -> usize {
        self.n.as_ref().map(|n| n.1).unwrap_or(2)
    }
    pub fn delta(&self) -> f32 {
        self.delta.as_ref().map(|d| d.1).unwrap_or(5.0)
    }
}

pub fn number(s: &mut Src) -> (String, usize) {
    let v = match s.weighted(&[6, 2, 1]) {
        0 => s.below(8),
        1 => s.below(1000),
        _ => *s.pick(&[usize::MAX, u32::MAX as usize, 1 << 33, 1_000_000_007]),
    };
    (if s.chance(1, 12) { format!("0{v}") } else { format!("{v}") }, v)
}

pub fn decimal(s: &mut Src) -> (String, f32) {
    let t = match s.weighted(&[5, 4, 3, 2]) {
        0 => s.pick(&["22.5", "90", "25.7", "20", "0", "-90", "60.0", "360", "5", "5.0", "-22.5"]).to_string(),
        1 => format!("{:.2}", s.irange(-36000, 36000) as f64 / 100.0),
        2 => format!("{}", turtle::angle(s)),
        _ => s.pick(&["1e2", "2.25e1", ".5", "7.", "-0", "1e-5", "12345.678", "0.1", "1E1", "3e38", "1e-40"]).to_string(),
    };
    let v = t.parse::<f64>().unwrap() as f32;
    (t, v)
}

pub fn spec(s: &mut Src, max_lines: usize, stochastic: bool) -> Spec {
    let mut names: Vec<String> = turtle::COMMANDS.iter().map(|c| c.to_string()).collect();
    let extra = s.below(5);
    for _ in 0..extra {
        let mut c = gen::name(s);
        if c.parse::<f32>().is_ok() {
            c.push('q');
        }
        if !names.contains(&c) && !c.starts_with("initial:") {
            names.push(c);
        }
    }
    let k = names.len();
    let axiom = {
        let a = gen::word(s, k, 1, 12);
        if a.is_empty() { vec![0] } else { a }
    };
    let mut rules: Vec<Rule> = Vec::new();
    let mut lines = Vec::new();
    let n = s.small(1, max_lines);
    let mut left: Vec<u64> = Vec::new();
    for _ in 0..n {
        let (pre, target, post) = if !rules.is_empty() && stochastic && s.chance(1, 3) {
            let r = s.pick(&rules);
            (r.pre.clone(), r.target, r.post.clone())
        } else {
            gen::head(s, k, &axiom, 3)
        };
        let nb = s.small(0, 8);
        let body: Vec<usize> = (0..nb).map(|_| s.below(k)).collect();
        let at = rules.iter().position(|r| r.pre == pre && r.target == target && r.post == post);
        if at.is_some() && !stochastic {
            continue;
        }
        let at = at.unwrap_or_else(|| {
            rules.push(Rule { pre, target, post, bodies: vec![] });
            left.push(1000);
            rules.len() - 1
        });
        let chance = if stochastic && s.chance(1, 3) && left[at] >= 500 {
            let t = 1 + s.draw(left[at] / 2);
            left[at] -= t;
            Some(format!("0.{t:03}"))
        } else {
            None
        };
        // A rule whose alternatives all state a probability may fall short of one; that is P11's
        // business.
        lines.push((at, rules[at].bodies.len()));
        rules[at].bodies.push((chance, body));
    }
    Spec { names, n: None, delta: None, axiom, rules, lines }
}

#[derive(Clone, Copy, PartialEq)]
pub enum LineKind {
    Blank,
    N,
    Delta,
    Initial,
    Rule,
    Bad,
}

fn comment(s: &mut Src) -> String {
    match s.below(4) {
        0 => String::from("#"),
        1 => s.pick(&["# n = 9", "# delta = 1", "# initial: Move", "#X -> X X", "## This is plant 5 in fig. 1.24", "# = : -> < > ; #"]).to_string(),
        _ => {
            let n = s.below(12);
            let t: String = (0..n).map(|_| gen::any_char(s)).filter(|c| *c != '\n' && *c != '\r').collect();
            format!("#{t}")
        }
    }
}

fn spaced(s: &mut Src, text: &str) -> String {
    let mut t = gen::blank(s, 0);
    for w in text.split(' ') {
        t.push_str(w);
        t.push_str(&gen::blank(s, 1));
    }
    t.pop();
    t
}

/// The lines of a plant file, without line ends.
pub fn layout(s: &mut Src, p: &Spec) -> Vec<(LineKind, String)> {
    let mut v: Vec<(LineKind, String)> = p.lines.iter().map(|(r, b)| (LineKind::Rule, spaced(s, &gen::rule_text(&p.names, &p.rules[*r], *b)))).collect();
    // Settings go anywhere; of several, the last counts.
    let mut settings: Vec<(LineKind, Vec<String>)> = Vec::new();
    let set = |s: &mut Src, key: &str, value: &str| format!("{}{key}{}={}{value}{}", gen::blank(s, 0), gen::blank(s, 0), gen::blank(s, 0), gen::blank(s, 0));
    if let Some((t, _)) = &p.n {
        let mut l = Vec::new();
        if s.chance(1, 5) {
            let d = number(s).0;
            let key = *s.pick(&["n", "N"]);
            l.push(set(s, key, &d));
        }
        let key = *s.pick(&["n", "N"]);
        l.push(set(s, key, t));
        settings.push((LineKind::N, l));
    }
    if let Some((t, _)) = &p.delta {
        let mut l = Vec::new();
        if s.chance(1, 5) {
            let d = decimal(s).0;
            let key = *s.pick(&["delta", "d", "D", "∂"]);
            l.push(set(s, key, &d));
        }
        let key = *s.pick(&["delta", "d", "D", "∂"]);
        l.push(set(s, key, t));
        settings.push((LineKind::Delta, l));
    }
    {
        let mut l = Vec::new();
        if s.chance(1, 5) {
            l.push(format!("{}initial:{}{}", gen::blank(s, 0), gen::blank(s, 0), gen::show_word(&p.names, &[s.below(7)])));
        }
        let w = spaced(s, &gen::show_word(&p.names, &p.axiom));
        l.push(format!("{}initial:{w}{}", gen::blank(s, 0), gen::blank(s, 0)));
        settings.push((LineKind::Initial, l));
    }
    for (kind, l) in settings {
        let mut from = 0;
        for t in l {
            let at = if s.bool() { from } else { s.range(from, v.len()) };
            v.insert(at, (kind, t));
            from = at + 1;
        }
    }
    let blanks = s.weighted(&[6, 3, 2, 1]);
    for _ in 0..blanks {
        let at = s.range(0, v.len());
        let t = if s.bool() { gen::blank(s, 0) } else { format!("{}{}", gen::blank(s, 0), comment(s)) };
        v.insert(at, (LineKind::Blank, t));
    }
    for l in v.iter_mut() {
        if s.chance(1, 5) {
            let c = comment(s);
            let b = gen::blank(s, 0);
            l.1.push_str(&b);
            l.1.push_str(&c);
        }
    }
    v
}

pub fn join(s: &mut Src, lines: &[(LineKind, String)]) -> String {
    let ends = s.weighted(&[4, 3, 2]);
    let mut t = String::new();
    for (i, (_, l)) in lines.iter().enumerate() {
        t.push_str(l);
        if i + 1 == lines.len() && s.bool() {
            break;
        }
        t.push_str(match ends {
            0 => "\n",
            1 => "\r\n",
            _ => *s.pick(&["\n", "\r\n"]),
        });
    }
    t
}

fn full_spec(s: &mut Src) -> Spec {
    let mut p = spec(s, 12, true);
    p.n = s.chance(3, 4).then(|| number(s));
    p.delta = s.chance(3, 4).then(|| decimal(s));
    p
}

type Parsed = (AbopTurtleInterpretation, System, ProductionString);

fn check(s: &mut Src, p: &Spec, text: &str, got: &Parsed) -> R {
    let shown = clip(text, 800);
    let (i, system, axiom) = got;
    ensure!(i.n() == p.n(), "{shown:?}: n is {} instead of {}", i.n(), p.n());
    ensure!(i.run_settings().max_iterations == p.n(), "{shown:?}: the run settings say {} iterations instead of {}", i.run_settings().max_iterations, p.n());
    let (d, w) = (i.delta() as f64, p.delta() as f64);
    ensure!((d - w).abs() <= 2e-7 * w.abs() + 1e-44, "{shown:?}: delta is {d} instead of {w}");
    let sy = Symbols::new(p.names.clone())?;
    let a = sy.word(axiom).map_err(|e| match e {
        Fail::Violation(m) => Fail::Violation(format!("{shown:?}: starting string: {m}")),
        e => e,
    })?;
    ensure!(a == p.axiom, "{shown:?}: the starting string is {:?}", gen::show_word(&p.names, &a));
    let mut symbols: BTreeSet<usize> = (0..7).collect();
    for r in &p.rules {
        symbols.extend(r.pre.iter().chain([&r.target]).chain(r.post.iter()).chain(r.bodies.iter().flat_map(|b| &b.1)));
    }
    let least = symbols.len();
    symbols.extend(&p.axiom);
    let len = system.symbol_len();
    ensure!(len >= least && len <= symbols.len(), "{shown:?}: the system has {len} symbols instead of {least}");
    ensure!(system.production_len() == p.rules.len(), "{shown:?}: the system has {} rules instead of {}", system.production_len(), p.rules.len());
    // What the rules do.
    let string = axiom.clone();
    if let Ok(out) = sut("derive_once", || system.derive_once(string))? {
        let out = sy.word(&out)?;
        ensure!(model::possible_step(&p.rules, &p.axiom, &out), "{shown:?}: {:?} becomes {:?}", gen::show_word(&p.names, &p.axiom), gen::show_word(&p.names, &out));
    }
    // What the rules are: adding one more alternative tells all of them.
    let marker = vec![p.names.len() - 1, 0, 5, 5, 0, 3, 2];
    for r in &p.rules {
        let m = Rule { bodies: vec![(None, marker.clone())], ..r.clone() };
        let all = sy.add(system, &m, 0, s.below(3))?;
        let bodies = all.all_bodies();
        ensure!(bodies.len() == r.bodies.len() + 1, "{shown:?}: the rule for {:?} has {} alternatives instead of {}", gen::rule_text(&p.names, &m, 0), bodies.len() - 1, r.bodies.len());
        for (b, (c, w)) in bodies.iter().zip(&r.bodies) {
            let g = sy.word(b.string())?;
            ensure!(g == *w, "{shown:?}: an alternative is {:?} instead of {:?}", gen::show_word(&p.names, &g), gen::show_word(&p.names, w));
            let want = c.as_ref().map(|c| c.parse::<f32>().unwrap());
            let have = b.chance().is_user_set().then(|| b.chance().unwrap_or(-1.0));
            ensure!(have == want, "{shown:?}: the alternative {:?} has probability {have:?}, expected {want:?}", gen::show_word(&p.names, w));
        }
    }
    ensure!(system.production_len() == p.rules.len(), "{shown:?}: the heads of the rules are not those written");
    Ok(())
}

fn describe(p: &Spec, lines: &[(LineKind, String)], text: &str, ctx: &mut Ctx) {
    ctx.case(text);
    let count = |k| lines.iter().filter(|l| l.0 == k).count();
    ctx.label_if(text.contains('#'), "comments");
    ctx.label_if(count(LineKind::N) > 1 || count(LineKind::Delta) > 1 || count(LineKind::Initial) > 1, "repeated setting");
    ctx.label_if(p.n.is_none() || p.delta.is_none(), "absent setting");
    ctx.label_if(p.rules.iter().any(|r| r.bodies.len() > 1), "alternatives");
    ctx.label_if(p.rules.iter().any(|r| !r.pre.is_empty() || !r.post.is_empty()), "contexts");
    ctx.label_if(text.contains("\r\n"), "CR LF");
    ctx.nontrivial = ctx.labels.iter().any(|l| *l != "CR LF");
}

fn p22_wellformed(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = full_spec(s);
    let lines = layout(s, &p);
    let text = join(s, &lines);
    describe(&p, &lines, &text, ctx);
    let got = sut("parse", || parse(&text))?.map_err(|e| Fail::Violation(format!("{:?} was rejected: {e}", clip(&text, 800))))?;
    check(s, &p, &text, &got)
}

/// Very many rules, each with a head of its own.
fn p22_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = if s.chance(1, 4) { s.range(65_530, 66_200) } else { s.range(2_000, 20_000) };
    let step = s.range(1, n - 1);
    let empty = s.range(2, 50);
    let body = |r: usize| if r % empty == 0 { vec![] } else { vec![r, (r + step) % n] };
    let mut text = String::from("n = 1\n");
    for r in 0..n {
        let b: Vec<String> = body(r).iter().map(|i| format!("hs{i}")).collect();
        text.push_str(&format!("hs{r} -> {}{}\n", b.join(" "), if r % 97 == 0 { " # a comment" } else { "" }));
    }
    let at: Vec<usize> = (0..12).map(|j| if j < 8 { n - 1 - s.below(n / 10) } else { s.below(n) }).collect();
    let axiom: Vec<String> = at.iter().map(|r| format!("hs{r}")).collect();
    text.push_str(&format!("initial: {}", axiom.join(" ")));
    ctx.case(format!("{n} rules, {step} apart, each {empty}th without a body"));
    ctx.nontrivial = true;
    ctx.label_if(n > 65_536, "more than 65536 rules");
    let what = ctx.case.clone();
    let (i, system, start) = sut("parse", || parse(&text))?.map_err(|e| Fail::Violation(format!("{what}: rejected: {e}")))?;
    ensure!(i.n() == 1, "{what}: n is {}", i.n());
    ensure!(start.len() == at.len(), "{what}: the starting string is {start}");
    let rules = sut("production_len", || system.production_len())?;
    ensure!(rules == n, "{what}: the system has {rules} rules");
    let out = sut("derive", || system.derive(start.clone(), i.run_settings()))?.map_err(|e| Fail::Violation(format!("{what}: {e}")))?;
    let want: Vec<String> = at.iter().flat_map(|r| body(*r)).map(|i| format!("hs{i}")).collect();
    let got: Vec<String> = out.symbols().iter().map(|x| x.name().unwrap_or_default()).collect();
    ensure!(got == want, "{what}: {start} becomes {out}");
    Ok(())
}

/// Many rules, long lines, long comments and very many lines without meaning.
fn p22_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut p = full_spec(s);
    // The marker rule of `check` ends in the last name.
    let most = *s.pick(&[0, 20, 300, 2_000]);
    let more = s.range(0, most);
    let first = p.names.len();
    p.names.extend((0..more).map(|i| format!("P{i}")));
    for i in 0..more {
        let nb = s.weighted(&[1, 3, 3, 2]);
        let body = (0..nb).map(|_| s.below(p.names.len())).collect();
        p.lines.push((p.rules.len(), 0));
        p.rules.push(Rule { pre: vec![], target: first + i, post: vec![], bodies: vec![(None, body)] });
    }
    // Alternatives far from their heads.
    for _ in 0..s.below(6) {
        let r = s.below(p.rules.len());
        let body = vec![s.below(p.names.len()), s.below(p.names.len())];
        p.lines.push((r, p.rules[r].bodies.len()));
        p.rules[r].bodies.push((None, body));
    }
    if s.chance(1, 3) {
        let n = s.range(100, 30_000);
        let few: Vec<usize> = (0..s.range(1, 9)).map(|_| s.below(p.names.len())).collect();
        let r = s.below(p.rules.len());
        let b = s.below(p.rules[r].bodies.len());
        p.rules[r].bodies[b].1 = (0..n).map(|i| few[(i + i / 40) % few.len()]).collect();
    }
    if s.chance(1, 3) {
        let n = s.range(100, 3_000);
        let few: Vec<usize> = (0..s.range(1, 9)).map(|_| s.below(p.names.len())).collect();
        p.axiom = (0..n).map(|i| few[(i + i / 40) % few.len()]).collect();
    }
    let mut lines = layout(s, &p);
    if s.chance(1, 3) {
        let at = s.below(lines.len() + 1);
        let n = if s.bool() { s.range(100, 5_000) } else { s.range(65_000, 70_000) };
        let c = *s.pick(&["", " ", "# n = 3", "#", "\t#\t"]);
        lines.splice(at..at, (0..n).map(|_| (LineKind::Blank, c.to_string())));
    }
    if s.chance(1, 3) {
        let at = s.below(lines.len());
        let n = s.range(100, 100_000);
        let c = *s.pick(&[" ", "#", "é", "x "]);
        lines[at].1.push_str(&format!(" #{}", c.repeat(n)));
    }
    let text = join(s, &lines);
    describe(&p, &lines, &text, ctx);
    ctx.case(format!("{} bytes, {} lines, {} rules, hash {:x}", text.len(), lines.len(), p.rules.len(), hash64(text.as_bytes())));
    ctx.nontrivial = true;
    let got = if s.bool() {
        sut("parse", || parse(&text))?
    } else {
        let dir = svg::scratch()?;
        let file = dir.join("long.plant");
        std::fs::write(&file, &text).map_err(|e| Fail::Harness(e.to_string()))?;
        let got = sut("parse_file", || parse_file(&file))?;
        let _ = std::fs::remove_dir_all(&dir);
        got
    };
    let got = got.map_err(|e| Fail::Violation(format!("{} was rejected: {e}", ctx.case)))?;
    check(s, &p, &text, &got)
}

const BAD_COUNTS: [&str; 15] = ["", "-1", "1.5", "x", "1 2", "99999999999999999999999", "0x10", "1_000", "٣", "nan", "inf", "1e3", "six", "5 = 5", "--5"];
const BAD_ANGLES: [&str; 20] = ["", "x", "1,5", "1 2", "22.5deg", "--1", "nan", "NaN", "-nan", "inf", "-inf", "infinity", "+Infinity", "1e39", "-1e39", "1e400", "22.5°", "0x1", "5 = 5", "1e"];
const BAD_SETTINGS: [&str; 12] = ["m = 5", "angle = 90", "iterations = 4", "nn = 2", "dd = 2", " = 5", "=", "delta2 = 4", "initial = X", "X -> A = B", "n n = 4", "initial: X = 2"];
const BAD_RULES: [&str; 13] = ["X", "X X", "-> X", "X X -> Y", "< -> X", "X < -> Y", "X - > Y", "X → Y", "X -> 1.5 A", "X -> -0.5 A", "A < B C -> X", "A B > C -> X", "initial X"];

/// A plant text that must be rejected, and why.
pub fn corrupt(s: &mut Src, p: &Spec) -> (&'static str, String) {
    let mut lines = layout(s, p);
    let what = match s.below(7) {
        0 => {
            lines.retain(|l| l.0 != LineKind::Rule);
            "no rule"
        }
        1 => {
            lines.retain(|l| l.0 != LineKind::Initial);
            "no starting string"
        }
        k => {
            let (what, text) = match k {
                2 => ("malformed iteration count", format!("{} = {}", s.pick(&["n", "N"]), s.pick(&BAD_COUNTS))),
                3 | 4 => ("malformed angle", format!("{} = {}", s.pick(&["delta", "d", "D", "∂"]), s.pick(&BAD_ANGLES))),
                5 => ("unknown setting", s.pick(&BAD_SETTINGS).to_string()),
                _ => ("malformed rule", s.pick(&BAD_RULES).to_string()),
            };
            let at = s.range(0, lines.len());
            let mut t = format!("{}{text}{}", gen::blank(s, 0), gen::blank(s, 0));
            if s.chance(1, 5) {
                t.push_str(&comment(s));
            }
            if s.bool() && at < lines.len() && (k == 6) == (lines[at].0 == LineKind::Rule) && lines[at].0 != LineKind::Initial {
                lines[at] = (LineKind::Bad, t);
            } else {
                lines.insert(at, (LineKind::Bad, t));
            }
            what
        }
    };
    (what, join(s, &lines))
}

fn p22_corrupt(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = full_spec(s);
    let (what, text) = corrupt(s, &p);
    ctx.case(format!("{what}: {text}"));
    ctx.label(what);
    ctx.nontrivial = true;
    let r = sut("parse", || parse(&text).map(|_| ()))?;
    ensure!(r.is_err(), "a file with a fault ({what}) is accepted: {:?}", clip(&text, 800));
    Ok(())
}

fn p22_files(s: &mut Src, ctx: &mut Ctx) -> R {
    let io = |e: std::io::Error| Fail::Harness(e.to_string());
    let dir = svg::scratch()?;
    let file = dir.join(*s.pick(&["a.plant", "b", "é 日.txt", "x.svg"]));
    let p = full_spec(s);
    let lines = layout(s, &p);
    let text = join(s, &lines);
    describe(&p, &lines, &text, ctx);
    match s.weighted(&[6, 1, 1, 1, 1]) {
        0 => {
            std::fs::write(&file, &text).map_err(io)?;
            let got = match s.below(5) {
                0 => sut("parse_file", || parse_file(&file))?,
                1 => sut("parse_file", || parse_file(file.to_str().unwrap()))?,
                2 => sut("parse_file", || parse_file(file.clone()))?,
                3 => {
                    ctx.label("through a link");
                    let link = dir.join("link");
                    std::os::unix::fs::symlink(&file, &link).map_err(io)?;
                    sut("parse_file", || parse_file(&link))?
                }
                // A pipe, as a shell's <( ) hands it over; what is written fits into it.
                _ => {
                    ctx.label("from a pipe");
                    let (reader, mut writer) = std::io::pipe().map_err(io)?;
                    std::io::Write::write_all(&mut writer, &text.as_bytes()[..text.len().min(60_000)]).map_err(io)?;
                    drop(writer);
                    let name = format!("/proc/self/fd/{}", std::os::fd::AsRawFd::as_raw_fd(&reader));
                    let got = sut("parse_file", || parse_file(name))?;
                    drop(reader);
                    if text.len() > 60_000 {
                        return Err(Fail::Discard);
                    }
                    got
                }
            }
            .map_err(|e| Fail::Violation(format!("a file with {:?} was rejected: {e}", clip(&text, 800))))?;
            check(s, &p, &text, &got)?;
            ensure!(std::fs::read(&file).map_err(io)? == text.as_bytes(), "parsing changed the file");
        }
        k => {
            let what = match k {
                1 => "missing file",
                2 => {
                    std::fs::create_dir(&file).map_err(io)?;
                    "directory"
                }
                3 => {
                    let mut b = text.clone().into_bytes();
                    let at = s.range(0, b.len());
                    b.insert(at, *s.pick(&[0xff, 0xc0, 0xfe]));
                    std::fs::write(&file, b).map_err(io)?;
                    "invalid UTF-8"
                }
                _ => {
                    let (what, text) = corrupt(s, &p);
                    std::fs::write(&file, text).map_err(io)?;
                    what
                }
            };
            ctx.case(format!("{what}: {}", ctx.case));
            ctx.label(what);
            ctx.nontrivial = true;
            let r = sut("parse_file", || parse_file(&file).map(|_| ()))?;
            ensure!(r.is_err(), "{what}: parsing succeeded");
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
