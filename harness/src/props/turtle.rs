//! P16, P17: the turtle.

use crate::gen;
use crate::model;
use engine::*;
use rusty_systems::geometry::Path;
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{SvgElement, SvgPathInterpretation};
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use std::cell::RefCell;
use std::collections::HashSet;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P16",
            rule: "Command strings with balanced brackets (nested up to 60 deep, up to 4000 symbols; some up to 100000 deep or 600000 symbols) and symbols that draw nothing, with angles that are exact quarter turns, usual plant angles, negative, tiny, above 360 or arbitrary; the drawn \
                   segments and their joints are compared with a turtle that keeps its heading as a whole number of turns. Non-trivial: at least two Forward and a turn, branch or Move between drawn segments.",
            assumptions: &["positions are compared within 1e-9 of a step, plus 2e-12 for each command, per command", "angles up to 100000 degrees"],
            phases: vec![
                Phase { name: "random", kind: Kind::Random, quick: 1_200_000, thorough: 15_000_000, f: p16_random },
                Phase { name: "enumerate-6", kind: Kind::Walk, quick: 3_000_000, thorough: 40_000_000, f: p16_enumerate },
                Phase { name: "long", kind: Kind::Random, quick: 12_000, thorough: 120_000, f: p16_long },
                Phase { name: "deep", kind: Kind::Random, quick: 300, thorough: 4_000, f: p16_deep },
                Phase { name: "huge", kind: Kind::Random, quick: 64, thorough: 960, f: p16_huge },
            ],
        },
        Prop {
            id: "P17",
            rule: "Arbitrary command strings (brackets unbalanced in most), collections of symbols that lack any of the commands (a System, a RefCell set, a store of one's own), any angle including NaN and infinities, any canvas size including 0, \
                   through the turtle and the SVG interpretation. Non-trivial: a bracket does not match, a command is missing, or the angle is not finite.",
            assumptions: &["a collection lacks a command if its get_symbol does not find it"],
            phases: vec![
                Phase { name: "random", kind: Kind::Random, quick: 1_500_000, thorough: 18_000_000, f: p17_random },
                Phase { name: "enumerate", kind: Kind::Walk, quick: 4_000_000, thorough: 40_000_000, f: p17_enumerate },
                Phase { name: "deep", kind: Kind::Random, quick: 300, thorough: 4_000, f: p17_deep },
            ],
        },
    ]
}

pub const COMMANDS: [&str; 7] = ["Forward", "Move", "+", "-", "[", "]", "X"];

pub fn angle(s: &mut Src) -> f32 {
    match s.weighted(&[40, 60, 30, 30, 20, 20, 4]) {
        6 => Some(s.literal_float() as f32).filter(|v| (1e-6..1e5).contains(&v.abs())).unwrap_or(1.0),
        0 => *s.pick(&[90.0, 0.0, 180.0, 270.0, 360.0, -90.0, 450.0]),
        1 => *s.pick(&[22.5, 25.7, 20.0, 60.0, 45.0, 5.0, 30.0, 120.0, 72.0, 36.0]),
        2 => s.irange(-3600, 3600) as f32 / 10.0,
        3 => s.irange(-36_000_000, 36_000_000) as f32 / 1e5,
        4 => s.irange(-100_000, 100_000) as f32,
        _ => s.irange(-1000, 1000) as f32 * 1e-6,
    }
}

fn other_symbol(s: &mut Src) -> &'static str {
    s.pick(&["X", "A", "forward", "FORWARD", "F", "Forwards", "move", "++", "+-", "[[", "]]", "|", "é", "{", "--"])
}

/// Commands with balanced brackets.
pub fn balanced(s: &mut Src, max: usize, deep: bool) -> Vec<&'static str> {
    let n = s.len(0, max);
    let mut v = Vec::new();
    let mut depth = 0usize;
    let push_weight = if deep { 12 } else { 5 };
    for _ in 0..n {
        match s.weighted(&[24, 5, 8, 8, push_weight, 6, 4]) {
            0 => v.push("Forward"),
            1 => v.push("Move"),
            2 => v.push("+"),
            3 => v.push("-"),
            4 => {
                if depth < 60 {
                    v.push("[");
                    depth += 1;
                }
            }
            5 => {
                if depth > 0 {
                    v.push("]");
                    depth -= 1;
                }
            }
            _ => v.push(other_symbol(s)),
        }
    }
    // Branches need not be closed at the end.
    while depth > 0 && s.chance(3, 4) {
        v.push("]");
        depth -= 1;
    }
    v
}

pub fn string_of(cmds: &[&str]) -> R<ProductionString> {
    let mut p = ProductionString::new();
    for c in cmds {
        p.push_symbol(Symbol::build(c).map_err(|e| Fail::Violation(e.to_string()))?);
    }
    Ok(p)
}

/// The length of one step, from the drawing of a single Forward.
pub fn unit(store: &System) -> R<f64> {
    let f = string_of(&["Forward"])?;
    let t = AbopTurtleInterpretation::new(1, 0.0);
    let paths = sut("interpret", || t.interpret(store, &f))?.map_err(|e| Fail::Violation(format!("'Forward' is refused: {e}")))?;
    let segs = segments(&paths);
    ensure!(segs.len() == 1, "'Forward' draws {} segments", segs.len());
    let (a, b) = (segs[0].from, segs[0].to);
    ensure!(a == (0.0, 0.0), "'Forward' starts at {a:?}");
    ensure!(b.0.abs() < 1e-9 && b.1.is_finite() && b.1 > 0.0, "'Forward' ends at {b:?}, which is not straight up");
    Ok(b.1)
}

pub fn segments(paths: &[Path]) -> Vec<model::Seg> {
    let mut out = Vec::new();
    for p in paths {
        let pts: Vec<(f64, f64)> = p.iter().map(|p| (p.x(), p.y())).collect();
        for (i, w) in pts.windows(2).enumerate() {
            out.push(model::Seg { from: w[0], to: w[1], joined: i > 0 });
        }
    }
    out
}

pub fn compare(what: &str, got: &[model::Seg], want: &[model::Seg], unit: f64, steps: usize) -> R {
    ensure!(got.len() == want.len(), "{what}: {} segments are drawn, expected {}", got.len(), want.len());
    let tol = (1e-9 + 2e-12 * steps as f64) * unit * (1.0 + steps as f64);
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        let near = |a: (f64, f64), b: (f64, f64)| model::close(a.0, b.0, tol) && model::close(a.1, b.1, tol);
        ensure!(near(g.from, w.from) && near(g.to, w.to), "{what}: segment {i} goes from {:?} to {:?}, expected {:?} to {:?}", g.from, g.to, w.from, w.to);
        ensure!(g.joined || !w.joined, "{what}: segment {i} is not joined to the one before it");
    }
    Ok(())
}

fn draw_and_compare(s: &mut Src, small: bool, cmds: &[&'static str], delta: f32, ctx: &mut Ctx) -> R {
    let shown = clip(&cmds.join(" "), 700);
    ctx.case(format!("{delta} degrees: {}", cmds.join(" ")));
    let system = sut("system", AbopTurtleInterpretation::system)?.map_err(|e| Fail::Violation(e.to_string()))?;
    let u = unit(&system)?;
    let string = string_of(cmds)?;
    let n = if small { 3 } else { s.below(10) };
    let t = AbopTurtleInterpretation::new(n, delta);
    ensure!(t.n() == n && t.delta() == delta && t.run_settings().max_iterations == n, "the interpretation reports {} iterations and {} degrees instead of {n} and {delta}", t.n(), t.delta());
    let paths = match s.below(3) {
        0 => {
            let own: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
            for c in COMMANDS {
                own.add_symbol(c).map_err(|e| Fail::Violation(e.to_string()))?;
            }
            sut("interpret", || t.interpret(&own, &string))?
        }
        1 if delta == 22.5 => sut("default_interpret", || AbopTurtleInterpretation::default_interpret(&system, &string))?,
        _ => sut("interpret", || t.interpret(&system, &string))?,
    }
    .map_err(|e| Fail::Violation(format!("{delta} degrees, {shown:?}: {e}")))?;
    let want = model::turtle(cmds.iter().copied(), delta as f64 % 360.0, u).map_err(|_| Fail::Harness("brackets do not match".into()))?;
    compare(&format!("{delta} degrees, {shown:?}"), &segments(&paths), &want, u, cmds.len())?;
    let turned = cmds.iter().any(|c| matches!(*c, "+" | "-" | "[" | "Move"));
    ctx.nontrivial = want.len() >= 2 && turned;
    ctx.label_if(cmds.contains(&"["), "branch");
    ctx.label_if(cmds.contains(&"Move"), "move");
    ctx.label_if(cmds.len() > 100, "> 100 symbols");
    ctx.label_if(delta < 0.0, "negative angle");
    Ok(())
}

fn p16_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let cmds = balanced(s, 200, false);
    let d = angle(s);
    draw_and_compare(s, false, &cmds, d, ctx)
}

fn p16_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cmds = Vec::new();
    let n = s.range(2, 12);
    for _ in 0..n {
        let deep = s.bool();
        let part = balanced(s, 120, deep);
        let k = s.range(1, 8);
        for _ in 0..k {
            if cmds.len() < 4000 {
                cmds.extend(part.iter().copied());
            }
        }
    }
    let d = angle(s);
    draw_and_compare(s, false, &cmds, d, ctx)
}

/// Branches within branches, up to a hundred thousand deep, most of them closed again.
fn deep(s: &mut Src) -> Vec<&'static str> {
    let limit = match s.weighted(&[6, 3, 1]) {
        0 => 400,
        1 => 5_000,
        _ => 100_000,
    };
    let depth = s.range(1, limit);
    let mut v = Vec::new();
    let down = s.range(1, 4);
    let kinds: Vec<&'static str> = (0..down).map(|_| *s.pick(&["Forward", "Move", "+", "-", "X", "Forward"])).collect();
    let up: &'static str = *s.pick(&["Forward", "-", "X", "Move"]);
    let draw_up = s.chance(1, 2);
    let (enter, leave) = (s.range(1, 50), s.range(1, 50));
    for i in 0..depth {
        v.push("[");
        if i % enter == 0 {
            v.push(kinds[(i / enter) % down]);
        }
    }
    v.push("Forward");
    let close = match s.below(3) {
        0 => depth,
        1 => s.below(depth + 1),
        _ => depth - s.below(depth.min(3) + 1),
    };
    for i in 0..close {
        v.push("]");
        if draw_up && i % leave == 0 {
            v.push(up);
        }
    }
    v.push("Forward");
    v
}

fn p16_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let cmds = deep(s);
    let d = angle(s);
    let r = draw_and_compare(s, false, &cmds, d, ctx);
    ctx.case = clip(&ctx.case, 200);
    r
}

/// One short part very many times: many segments in one path, many paths, many turns.
fn p16_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut part: Vec<&'static str> = match s.below(8) {
        0 => vec!["Forward"],
        1 => vec!["Forward", "+"],
        2 => vec!["-", "Forward"],
        3 => vec!["[", "Forward", "]"],
        4 => vec!["[", "+", "Forward", "]", "Forward"],
        5 => vec!["Move", "Forward"],
        6 => vec!["+", "+", "-"],
        _ => balanced(s, 12, false),
    };
    let open = part.iter().filter(|c| **c == "[").count() - part.iter().filter(|c| **c == "]").count();
    part.extend(std::iter::repeat("]").take(open));
    let times = gen::huge_len(s).min(600_000 / part.len().max(1));
    let (before, after) = (balanced(s, 6, false), balanced(s, 6, false));
    let mut cmds = before;
    for _ in 0..times {
        cmds.extend(&part);
    }
    cmds.push("Forward");
    cmds.extend(after);
    let d = angle(s);
    let r = draw_and_compare(s, false, &cmds, d, ctx);
    ctx.case(format!("{d} degrees: {} times {}, {} commands in all", times, part.join(" "), cmds.len()));
    ctx.label_if(times > 65_536, "more than 65536 times");
    r
}

fn p16_enumerate(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = *s.pick(&[90.0, 22.5, -60.0]);
    let mut cmds = Vec::new();
    let mut depth = 0;
    for _ in 0..6 {
        let v = s.below(8);
        if v == 7 {
            continue;
        }
        let c = COMMANDS[v];
        if c == "[" {
            depth += 1;
        }
        if c == "]" {
            if depth == 0 {
                return Err(Fail::Discard);
            }
            depth -= 1;
        }
        cmds.push(c);
    }
    draw_and_compare(s, true, &cmds, d, ctx)
}

// ---------------------------------------------------------------------------------------- P17

/// A store over a list of names.
struct Own(Vec<Symbol>);

impl SymbolStore for Own {
    fn add_symbol<S>(&self, symbol: S) -> rusty_systems::Result<Symbol>
    where
        S: TryInto<Symbol>,
        S::Error: Into<Error>,
    {
        symbol.try_into().map_err(Into::into)
    }
    fn get_symbol(&self, name: &str) -> Option<Symbol> {
        self.0.iter().copied().find(|x| x.name().as_deref() == Some(name))
    }
}

fn p17_check(s: &mut Src, small: bool, known: &[&'static str], cmds: &[&'static str], delta: f32, ctx: &mut Ctx) -> R {
    let string = string_of(cmds)?;
    let what = format!("{delta} degrees, commands {known:?}, {:?}", clip(&cmds.join(" "), 600));
    ctx.case(format!("{delta} {known:?} {}", cmds.join(" ")));
    let full = AbopTurtleInterpretation::system().map_err(|e| Fail::Violation(e.to_string()))?;
    let u = unit(&full)?;
    let want = model::turtle(cmds.iter().copied().filter(|c| known.contains(c)), if delta.is_finite() { delta as f64 % 360.0 } else { 0.0 }, u);
    let missing = COMMANDS[..6].iter().any(|c| !known.contains(c));
    ctx.nontrivial = want.is_err() || missing || !delta.is_finite();
    ctx.label_if(want.is_err(), "unmatched ]");
    ctx.label_if(missing, "commands missing");
    ctx.label_if(want.as_ref().is_ok_and(|w| w.is_empty()), "nothing drawn");
    let t = AbopTurtleInterpretation::new(2, delta);
    let system = System::new();
    let cell: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    let mut own = Own(vec![]);
    for c in known {
        system.add_symbol(*c).map_err(|e| Fail::Violation(e.to_string()))?;
        cell.add_symbol(*c).map_err(|e| Fail::Violation(e.to_string()))?;
        own.0.push(Symbol::build(c).unwrap());
    }
    let which = s.below(3);
    let r = sut(&what, || match which {
        0 => t.interpret(&system, &string),
        1 => t.interpret(&cell, &string),
        _ => t.interpret(&own, &string),
    })?;
    match (&r, &want) {
        (Ok(_), Err(_)) => violated!("{what}: a ']' without '[' is not reported"),
        (Ok(paths), Ok(w)) => {
            if delta.is_finite() {
                compare(&what, &segments(paths), w, u, cmds.len())?;
            }
        }
        (Err(e), Err(_)) => ensure!(!e.to_string().trim().is_empty(), "{what}: the error has no message"),
        (Err(e), Ok(_)) => {
            ensure!(!e.to_string().trim().is_empty(), "{what}: the error has no message");
            ensure!(!delta.is_finite(), "{what}: refused: {e}");
        }
    }
    let (w, h) = match if small { 3 + s.below(2) } else { s.below(4) } {
        4 => (100, 0),
        3 if small => (100, 80),
        0 => (0, s.below(3)),
        1 => (s.below(3), 0),
        _ => (s.range(1, 2000), s.range(1, 2000)),
    };
    let svg: AbopSvgInterpretation = SvgPathInterpretation::new_with(w, h, t);
    let r = sut(&format!("{what} as SVG {w}x{h}"), || match which {
        0 => svg.interpret(&system, &string).map(|x| x.to_svg()),
        1 => svg.interpret(&cell, &string).map(|x| x.to_svg()),
        _ => svg.interpret(&own, &string).map(|x| x.to_svg()),
    })?;
    match (r, want) {
        (Ok(_), Err(_)) => violated!("{what}: a ']' without '[' is not reported by the SVG interpretation"),
        (Ok(t), _) => ensure!(!t.is_empty(), "{what}: the SVG is empty"),
        (Err(e), w) => {
            ensure!(!e.to_string().trim().is_empty(), "{what}: the error has no message");
            ensure!(w.is_err() || !delta.is_finite(), "{what}: the SVG interpretation refuses: {e}");
        }
    }
    Ok(())
}

fn p17_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let delta = match s.weighted(&[8, 1, 1]) {
        0 => angle(s),
        1 => *s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY]),
        _ => *s.pick(&[f32::MAX, f32::MIN_POSITIVE, -0.0, 1e-45]),
    };
    // Large angles make headings that depend on rounding; only refusals and crashes count there.
    let delta = if delta.abs() > 1e6 { f32::INFINITY } else { delta };
    let mut known: Vec<&'static str> = COMMANDS.to_vec();
    if s.bool() {
        known.retain(|_| s.chance(2, 3));
    }
    let mut cmds = balanced(s, 150, true);
    let faults = s.below(3);
    for _ in 0..faults {
        let at = s.below(cmds.len() + 1);
        cmds.insert(at, if s.chance(3, 4) { "]" } else { "[" });
    }
    p17_check(s, false, &known, &cmds, delta, ctx)
}

fn p17_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut cmds = deep(s);
    let extra = s.below(3);
    for _ in 0..extra {
        cmds.push("]");
    }
    let d = angle(s);
    let mut known: Vec<&'static str> = COMMANDS.to_vec();
    if s.chance(1, 3) {
        known.retain(|_| s.chance(2, 3));
    }
    let r = p17_check(s, false, &known, &cmds, d, ctx);
    ctx.case = clip(&ctx.case, 200);
    r
}

fn p17_enumerate(s: &mut Src, ctx: &mut Ctx) -> R {
    // Strings of up to 4 commands with every collection of Forward, Move, -, [ and ].
    let mut cmds = Vec::new();
    for _ in 0..4 {
        let v = s.below(7);
        if v < 6 {
            cmds.push(["Forward", "]", "[", "Move", "-", "X"][v]);
        }
    }
    let mut known = Vec::new();
    for c in ["Forward", "]", "[", "Move", "-"] {
        if !s.bool() {
            known.push(c);
        }
    }
    known.push("+");
    p17_check(s, true, &known, &cmds, 90.0, ctx)
}
