//! P31: results depend on nothing but the arguments.

use crate::gen::{self, Symbols};
use crate::model::{self, Rule};
use crate::props::{geometry, svg, turtle};
use engine::*;
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};
use rusty_systems::interpretation::abop::{parser, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::parser::parse_prod_string;
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::iterator::SymbolIterable;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system;
use std::collections::BTreeSet;
use std::sync::Barrier;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P31",
        rule: "A few systems with different symbols and rules, and a history of calls (parsing strings, rules and plants, matching, deriving, drawing, SVGs, bounds, rotations) most of which differ in one ingredient from an earlier one (another angle, size, system, \
               position, count, replacement, one symbol, the order) or repeat it, on the same thread or a new one, with symbols and rules added to the systems in between; every result is compared with the reference. 'threads' makes such calls \
               from 2-5 threads at once. Non-trivial: at least two calls are related to earlier ones of another argument.",
        assumptions: &["interleavings of 'threads' are those the machine produces"],
        phases: vec![
            Phase { name: "history", kind: Kind::Random, quick: 150_000, thorough: 2_500_000, f: history },
            Phase { name: "threads", kind: Kind::Random, quick: 15_000, thorough: 250_000, f: threads },
        ],
    }]
}

type Pts = Vec<Vec<(f64, f64)>>;

struct World {
    sy: Symbols,
    systems: Vec<System>,
    rules: Vec<Vec<Rule>>,
    known: Vec<BTreeSet<usize>>,
    unit: f64,
}

#[derive(Clone, Debug)]
enum Call {
    Text(String),
    Rule(Rule),
    Matches(Rule, Vec<usize>, usize),
    Derive { system: usize, word: Vec<usize>, n: usize, how: usize },
    Draw { system: usize, word: Vec<usize>, delta: f32 },
    Svg { system: usize, word: Vec<usize>, delta: f32, w: usize, h: usize },
    Bounds(Pts),
    Rotate((f64, f64), f64),
    Plant { n: usize, delta: f32, word: Vec<usize>, rules: Vec<Rule> },
}

enum Out {
    Word(Result<Vec<Option<String>>, String>),
    Bool(bool),
    Drawing(Result<Pts, String>),
    Svg(Result<(Pts, String), String>),
    Bounds(Option<BoundingBox>),
    Vector(f64, f64),
    Plant(Result<(usize, f32, Vec<Option<String>>, Vec<Option<String>>), String>),
}

fn names(p: &ProductionString) -> Vec<Option<String>> {
    p.iter().map(|x| x.name()).collect()
}

fn plant_text(w: &World, n: usize, delta: f32, word: &[usize], rules: &[Rule]) -> String {
    let mut t = format!("n = {n}\ndelta = {delta}\ninitial: {}\n", gen::show_word(&w.sy.names, word));
    for r in rules {
        t.push_str(&gen::rule_text(&w.sy.names, r, 0));
        t.push('\n');
    }
    t
}

/// What the library gives.
fn exec(w: &World, c: &Call) -> R<Out> {
    let pts = |v: Vec<Path>| -> Pts { v.into_iter().map(|p| p.iter().map(|q| (q.x(), q.y())).collect()).collect() };
    Ok(match c {
        Call::Text(t) => Out::Word(parse_prod_string(t).map(|p| names(&p)).map_err(|e| e.to_string())),
        Call::Rule(r) => {
            let t = gen::rule_text(&w.sy.names, r, 0);
            Out::Word(Production::try_from(t.as_str()).map(|p| p.all_symbols_iter().map(|x| x.name()).collect()).map_err(|e| e.to_string()))
        }
        Call::Matches(r, word, i) => Out::Bool(w.sy.production(r, 0)?.matches(&w.sy.string(word), *i)),
        Call::Derive { system, word, n, how } => {
            let s = w.sy.string(word);
            let r = match how {
                0 if *n == 1 => w.systems[*system].derive_once(s),
                1 => system::derive(s, &w.sy.productions(&w.rules[*system])?, RunSettings::for_max_iterations(*n)),
                _ => w.systems[*system].derive(s, RunSettings::for_max_iterations(*n)),
            };
            Out::Word(r.map(|p| names(&p)).map_err(|e| e.to_string()))
        }
        Call::Draw { system, word, delta } => {
            let t = AbopTurtleInterpretation::new(1, *delta);
            Out::Drawing(t.interpret(&w.systems[*system], &w.sy.string(word)).map(pts).map_err(|e| e.to_string()))
        }
        Call::Svg { system, word, delta, w: width, h } => {
            let t = AbopTurtleInterpretation::new(1, *delta);
            let string = w.sy.string(word);
            let s = SvgPathInterpretation::new_with(*width, *h, t.clone());
            let v = s.interpret(&w.systems[*system], &string).map(|v| v.to_svg()).map_err(|e| e.to_string());
            Out::Svg(match (t.interpret(&w.systems[*system], &string), v) {
                (Ok(p), Ok(v)) => Ok((pts(p), v)),
                (Err(_), Err(e)) => Err(e),
                (Ok(_), Err(e)) => violated!("the turtle draws, its SVG fails: {e}"),
                (Err(e), Ok(_)) => violated!("the turtle fails ({e}), its SVG does not"),
            })
        }
        Call::Bounds(d) => Out::Bounds(d.iter().map(|p| p.iter().map(|(x, y)| Point::new(*x, *y)).collect::<Path>()).collect::<Vec<Path>>().bounds()),
        Call::Rotate(v, deg) => {
            let r = Vector::new(v.0, v.1).rotate(*deg);
            Out::Vector(r.x(), r.y())
        }
        Call::Plant { n, delta, word, rules } => Out::Plant(
            parser::parse(&plant_text(w, *n, *delta, word, rules))
                .and_then(|(i, system, axiom)| Ok((i.n(), i.delta(), names(&axiom), names(&system.derive_once(axiom.clone())?))))
                .map_err(|e| e.to_string()),
        ),
    })
}

/// Compares it with what it must be.
fn check(w: &World, c: &Call, out: &Out, log: &str) -> R {
    let what = || format!("{} as the last of: {}", clip(&format!("{c:?}"), 400), clip(log, 1500));
    let full = |word: &[usize]| -> Vec<Option<String>> { word.iter().map(|i| Some(w.sy.names[*i].clone())).collect() };
    let cmds = |system: usize, word: &[usize]| -> Vec<String> {
        word.iter().map(|i| if w.known[system].contains(i) { w.sy.names[*i].clone() } else { "other".into() }).collect()
    };
    match (c, out) {
        (Call::Text(t), Out::Word(r)) => match (model::parse_string(t), r) {
            (Ok(want), Ok(got)) => ensure!(*got == want.iter().map(|x| Some(x.clone())).collect::<Vec<_>>(), "{}: gives {got:?}", what()),
            (Err(_), Err(_)) => {}
            (_, r) => violated!("{}: gives {r:?}", what()),
        },
        (Call::Rule(r), Out::Word(got)) => {
            let mut want = r.pre.clone();
            want.push(r.target);
            want.extend(&r.post);
            want.extend(&r.bodies[0].1);
            ensure!(got.as_ref() == Ok(&full(&want)), "{}: gives {got:?}", what());
        }
        (Call::Matches(r, word, i), Out::Bool(b)) => ensure!(*b == r.matches(word, *i), "{}: gives {b}", what()),
        (Call::Derive { system, word, n, .. }, Out::Word(got)) => {
            let mut want = word.clone();
            for _ in 0..*n {
                want = model::step(&w.rules[*system], &want);
            }
            ensure!(got.as_ref() == Ok(&full(&want)), "{}: gives {}, expected {}", what(), clip(&format!("{got:?}"), 300), clip(&gen::show_word(&w.sy.names, &want), 300));
        }
        (Call::Draw { system, word, delta }, Out::Drawing(got)) => {
            let cmds = cmds(*system, word);
            match (model::turtle(cmds.iter().map(|x| x.as_str()), *delta as f64, w.unit), got) {
                (Ok(want), Ok(got)) => turtle::compare(&what(), &segments(got), &want, w.unit, word.len())?,
                (Err(()), Err(_)) => {}
                (want, got) => violated!("{}: gives {}, expected {}", what(), clip(&format!("{got:?}"), 300), clip(&format!("{want:?}"), 300)),
            }
        }
        (Call::Svg { system, word, delta, w: width, h }, Out::Svg(got)) => {
            let cmds = cmds(*system, word);
            match (model::turtle(cmds.iter().map(|x| x.as_str()), *delta as f64, w.unit), got) {
                (Ok(want), Ok((d, text))) => {
                    turtle::compare(&what(), &segments(d), &want, w.unit, word.len())?;
                    svg::check_fit(&what(), text, d, *width, *h, 2)?;
                }
                (Err(()), Err(_)) => {}
                (want, got) => violated!("{}: gives {}, expected {}", what(), clip(&format!("{got:?}"), 300), clip(&format!("{want:?}"), 300)),
            }
        }
        (Call::Bounds(d), Out::Bounds(b)) => {
            let all: Vec<(f64, f64)> = d.iter().flatten().copied().collect();
            match b {
                None => ensure!(all.is_empty(), "{}: gives no bounds", what()),
                Some(b) => {
                    ensure!(!all.is_empty(), "{}: gives {b:?}", what());
                    geometry::check_box(&what(), b, &all)?;
                }
            }
        }
        (Call::Rotate(v, deg), Out::Vector(x, y)) => {
            let (a, b) = model::heading(1, *deg);
            // (a, b) is (-sin, cos).
            let want = (v.0 * b + v.1 * a, v.1 * b - v.0 * a);
            let tol = 1e-9 * (v.0.abs() + v.1.abs());
            ensure!(model::close(*x, want.0, tol) && model::close(*y, want.1, tol), "{}: gives ({x}, {y}), expected {want:?}", what());
        }
        (Call::Plant { n, delta, word, rules }, Out::Plant(got)) => match got {
            Err(e) => violated!("{}: fails: {e}", what()),
            Ok((gn, gd, axiom, once)) => {
                ensure!(gn == n && (gd - delta).abs() <= 2e-7 * delta.abs() + 1e-44, "{}: gives n {gn} and angle {gd}", what());
                ensure!(*axiom == full(word), "{}: starts with {axiom:?}", what());
                let want = full(&model::step(rules, word));
                ensure!(*once == want, "{}: derives to {once:?}, expected {want:?}", what());
            }
        },
        _ => return Err(Fail::Harness("another kind of result".into())),
    }
    Ok(())
}

fn segments(d: &Pts) -> Vec<model::Seg> {
    d.iter().flat_map(|p| p.windows(2).enumerate().map(|(i, w)| model::Seg { from: w[0], to: w[1], joined: i > 0 })).collect()
}

fn world(s: &mut Src) -> R<World> {
    let mut names: Vec<String> = turtle::COMMANDS.iter().map(|x| x.to_string()).collect();
    let more = s.range(0, 3);
    for n in gen::alphabet(s, more) {
        if !names.contains(&n) {
            names.push(n);
        }
    }
    let k = names.len();
    let sy = Symbols::new(names)?;
    let full = sut("system", AbopTurtleInterpretation::system)?.map_err(|e| Fail::Violation(e.to_string()))?;
    let unit = turtle::unit(&full)?;
    let mut w = World { sy, systems: vec![full], rules: vec![vec![]], known: vec![(0..7).collect()], unit };
    let count = s.range(1, 3);
    for _ in 0..count {
        w.systems.push(System::new());
        w.rules.push(vec![]);
        w.known.push(BTreeSet::new());
    }
    for i in 0..w.systems.len() {
        for c in 0..k {
            if i > 0 && s.chance(3, 4) {
                add_symbol(&mut w, i, c)?;
            }
        }
        let n = s.small(0, 6);
        let axiom = gen::word(s, k, 1, 8);
        for r in gen::det_rules(s, k, &axiom, n, 3, 2) {
            let how = s.below(3);
            add_rule(&mut w, i, r, how)?;
        }
    }
    Ok(w)
}

fn add_symbol(w: &mut World, i: usize, c: usize) -> R {
    sut("add_symbol", || w.systems[i].add_symbol(w.sy.names[c].as_str()))?.map_err(|e| Fail::Violation(format!("a symbol was refused: {e}")))?;
    w.known[i].insert(c);
    Ok(())
}

fn add_rule(w: &mut World, i: usize, r: Rule, how: usize) -> R {
    if w.rules[i].iter().any(|o| o.same_head(&r)) {
        return Ok(());
    }
    w.sy.add(&w.systems[i], &r, 0, how)?;
    w.known[i].extend(r.pre.iter().chain([&r.target]).chain(&r.post).chain(&r.bodies[0].1));
    w.rules[i].push(r);
    Ok(())
}

fn change_word(s: &mut Src, k: usize, w: &mut Vec<usize>) {
    match s.below(6) {
        0 if !w.is_empty() => {
            let i = s.below(w.len());
            w[i] = s.below(k);
        }
        1 if w.len() >= 2 => {
            let i = s.below(w.len() - 1);
            w.swap(i, i + 1);
        }
        2 => {
            w.pop();
        }
        3 => w.reverse(),
        4 => {
            let i = s.below(w.len() + 1);
            w.insert(i, s.below(k));
        }
        _ => w.push(s.below(k)),
    }
}

fn fresh(s: &mut Src, w: &World) -> Call {
    let k = w.sy.names.len();
    let system = s.below(w.systems.len());
    let most = if s.chance(1, 30) { 400 } else { 24 };
    let word = gen::word(s, k, 0, most);
    match s.below(9) {
        0 => {
            let mut t = String::new();
            for i in &word {
                t.push_str(&w.sy.names[*i]);
                t.push_str(&gen::white(s, 1));
            }
            if s.chance(1, 10) {
                t.push_str(*s.pick(&gen::OPS));
            }
            Call::Text(t)
        }
        c @ (1 | 2) => {
            let (pre, target, post) = gen::head(s, k, &word, 4);
            let body = gen::word(s, k, 0, 6);
            let r = Rule { pre, target, post, bodies: vec![(None, body)] };
            if c == 1 {
                return Call::Rule(r);
            }
            let i = s.below(word.len() + 2);
            Call::Matches(r, word, i)
        }
        3 | 4 => Call::Derive { system, word, n: s.range(0, 3), how: s.below(3) },
        5 => Call::Draw { system, word, delta: turtle::angle(s) },
        6 => Call::Svg { system, word, delta: turtle::angle(s), w: s.range(1, 1000), h: s.range(1, 1000) },
        7 => {
            if s.bool() {
                let n = s.range(0, 4);
                Call::Bounds((0..n).map(|_| (0..s.small(0, 12)).map(|_| (s.irange(-99, 99) as f64 / 4.0, s.irange(-99, 99) as f64 / 4.0)).collect()).collect())
            } else {
                Call::Rotate((s.irange(-99, 99) as f64, s.irange(-99, 99) as f64), turtle::angle(s) as f64)
            }
        }
        _ => {
            let mut word = word;
            word.truncate(60);
            if word.is_empty() {
                word.push(0);
            }
            let mut rules = gen::det_rules(s, k, &word, 4, 3, 2);
            if rules.is_empty() {
                rules.push(Rule { pre: vec![], target: 0, post: vec![], bodies: vec![(None, vec![0, 0])] });
            }
            Call::Plant { n: s.range(0, 9), delta: turtle::angle(s), word, rules }
        }
    }
}

/// A call that differs in one thing.
fn related(s: &mut Src, w: &World, c: &Call) -> Call {
    let k = w.sy.names.len();
    let mut c = c.clone();
    let head = |s: &mut Src, r: &mut Rule| match s.below(4) {
        0 => r.target = s.below(k),
        1 => change_word(s, k, &mut r.pre),
        2 => change_word(s, k, &mut r.post),
        _ => change_word(s, k, &mut r.bodies[0].1),
    };
    match &mut c {
        Call::Text(t) => {
            let mut parts: Vec<&str> = t.split_whitespace().collect();
            match s.below(3) {
                0 => parts.reverse(),
                1 => {
                    parts.pop();
                }
                _ => parts.push(&w.sy.names[s.below(k)]),
            }
            *t = parts.join(" ");
        }
        Call::Rule(r) => head(s, r),
        Call::Matches(r, word, i) => match s.below(3) {
            0 => head(s, r),
            1 => change_word(s, k, word),
            _ => *i = s.below(word.len() + 2),
        },
        Call::Derive { system, word, n, how } => match s.below(4) {
            0 => *system = s.below(w.systems.len()),
            1 => change_word(s, k, word),
            2 => *n = s.range(0, 3),
            _ => *how = s.below(3),
        },
        Call::Draw { system, word, delta } => match s.below(3) {
            0 => *system = s.below(w.systems.len()),
            1 => change_word(s, k, word),
            _ => *delta = turtle::angle(s),
        },
        Call::Svg { system, word, delta, w: width, h } => match s.below(5) {
            0 => *system = s.below(w.systems.len()),
            1 => change_word(s, k, word),
            2 => *delta = turtle::angle(s),
            3 => *width = s.range(1, 1000),
            _ => *h = s.range(1, 1000),
        },
        Call::Bounds(d) => match s.below(3) {
            0 => d.reverse(),
            1 => {
                d.pop();
            }
            _ => d.iter_mut().flatten().for_each(|p| p.0 += 7.0),
        },
        Call::Rotate(v, deg) => match s.below(3) {
            0 => v.0 = s.irange(-99, 99) as f64,
            1 => v.1 = s.irange(-99, 99) as f64,
            _ => *deg = turtle::angle(s) as f64,
        },
        Call::Plant { n, delta, word, rules } => match s.below(4) {
            0 => *n = s.range(0, 9),
            1 => *delta = turtle::angle(s),
            2 => {
                change_word(s, k, word);
                if word.is_empty() {
                    word.push(s.below(k));
                }
            }
            _ => {
                let i = s.below(rules.len());
                change_word(s, k, &mut rules[i].bodies[0].1);
            }
        },
    }
    c
}

/// Fresh, related or repeated; and whether it is related.
fn next(s: &mut Src, w: &World, earlier: &[Call]) -> (Call, bool) {
    if earlier.is_empty() {
        return (fresh(s, w), false);
    }
    match s.weighted(&[3, 6, 3]) {
        0 => (fresh(s, w), false),
        1 => {
            let from = s.pick(earlier).clone();
            (related(s, w, &from), true)
        }
        _ => (s.pick(earlier).clone(), false),
    }
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = world(s)?;
    let n = s.len(1, 60);
    let mut calls: Vec<Call> = Vec::new();
    let mut log = format!("names {:?}", w.sy.names);
    for (i, r) in w.rules.iter().enumerate() {
        log.push_str(&format!("; system {i}: {} and symbols {:?}", gen::show_rules(&w.sy.names, r), w.known[i]));
    }
    let mut relatives = 0;
    for _ in 0..n {
        if s.chance(1, 6) {
            let i = s.below(w.systems.len());
            let k = w.sy.names.len();
            if s.chance(1, 3) {
                let c = s.below(k);
                log.push_str(&format!("; add symbol {c} to {i}"));
                ctx.case(log.clone());
                add_symbol(&mut w, i, c)?;
            } else {
                let (pre, target, post) = gen::head(s, k, &[], 2);
                let r = Rule { pre, target, post, bodies: vec![(None, gen::word(s, k, 0, 3))] };
                log.push_str(&format!("; add {} to {i}", gen::show_rules(&w.sy.names, &[r.clone()])));
                ctx.case(log.clone());
                let how = s.below(3);
                add_rule(&mut w, i, r, how)?;
            }
            continue;
        }
        let (c, rel) = next(s, &w, &calls);
        relatives += rel as usize;
        log.push_str(&format!("; {c:?}"));
        ctx.case(log.clone());
        let out = if s.chance(1, 20) {
            let w = &w;
            let c = &c;
            match std::thread::scope(|sc| sc.spawn(move || exec(w, c).map_err(|e| e)).join()) {
                Ok(o) => o?,
                Err(_) => violated!("{}: a call on a new thread panicked: {}", clip(&log, 1500), last_panic()),
            }
        } else {
            sut("a call", || exec(&w, &c))??
        };
        check(&w, &c, &out, &log)?;
        calls.push(c);
    }
    ctx.nontrivial = relatives >= 2;
    Ok(())
}

fn threads(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = world(s)?;
    let t = s.range(2, 5);
    let mut earlier: Vec<Call> = Vec::new();
    let mut plans: Vec<Vec<Call>> = vec![vec![]; t];
    let mut relatives = 0;
    for p in plans.iter_mut() {
        let n = s.range(1, 10);
        for _ in 0..n {
            let (c, rel) = next(s, &w, &earlier);
            relatives += rel as usize;
            earlier.push(c.clone());
            p.push(c);
        }
    }
    let rounds = s.range(1, 4);
    let mut log = format!("names {:?}", w.sy.names);
    for (i, r) in w.rules.iter().enumerate() {
        log.push_str(&format!("; system {i}: {} and symbols {:?}", gen::show_rules(&w.sy.names, r), w.known[i]));
    }
    for (i, p) in plans.iter().enumerate() {
        log.push_str(&format!("; thread {i}, {rounds} times: {p:?}"));
    }
    ctx.case(log.clone());
    ctx.nontrivial = relatives >= 2;
    let gate = Barrier::new(t);
    let outs: Vec<std::result::Result<R<Vec<Vec<Out>>>, ()>> = std::thread::scope(|sc| {
        let hs: Vec<_> = plans
            .iter()
            .map(|p| {
                let (w, gate) = (&w, &gate);
                sc.spawn(move || {
                    gate.wait();
                    (0..rounds).map(|_| p.iter().map(|c| exec(w, c)).collect::<R<Vec<Out>>>()).collect::<R<Vec<Vec<Out>>>>()
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().map_err(|_| ())).collect()
    });
    for (i, (o, p)) in outs.into_iter().zip(&plans).enumerate() {
        match o {
            Err(()) => violated!("{}: thread {i} panicked: {}", clip(&log, 1500), last_panic()),
            Ok(o) => {
                for round in o? {
                    for (c, out) in p.iter().zip(&round) {
                        check(&w, c, out, &log)?;
                    }
                }
            }
        }
    }
    Ok(())
}
