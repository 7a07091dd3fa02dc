//! P18, P19, P26: SVG.

use crate::props::turtle;
use crate::{model, xml};
use engine::*;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::AbopTurtleInterpretation;
use rusty_systems::interpretation::svg::{Svg, SvgCircle, SvgDecorations, SvgElement, SvgPath, SvgPathInterpretation, SvgScale, SvgTransformEl, SvgTranslate};
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use std::path::PathBuf;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P18",
            rule: "Drawings (1-12 paths of 1-40 points at positions and scales from 1e-3 to 1e6, flat and point-like ones included; a few of up to 80000 paths or 300000 points) supplied by an interpretation of one's own, and turtle drawings, on canvases from 1 to 5000 in any \
                   proportion. The SVG text is read back and its transforms applied; every point is compared with an independent fit. Non-trivial: at least two distinct points and an aspect ratio of the drawing that differs from the canvas's.",
            assumptions: &["points are compared within 1e-6 of the canvas plus rounding of the coordinates", "the extent of a drawing is at least 1e-6 of its distance from the origin, or zero"],
            phases: vec![
                Phase { name: "drawings", kind: Kind::Random, quick: 300_000, thorough: 12_000_000, f: p18_drawings },
                Phase { name: "turtle", kind: Kind::Random, quick: 80_000, thorough: 2_400_000, f: p18_turtle },
                Phase { name: "large", kind: Kind::Random, quick: 800, thorough: 24_000, f: p18_large },
                Phase { name: "huge", kind: Kind::Random, quick: 40, thorough: 600, f: p18_huge },
            ],
        },
        Prop {
            id: "P19",
            rule: "Drawings of any finite points (empty ones, empty paths, single points, repeated points, flat ones, magnitudes from 1e-300 to 1e300), any canvas including 0, single paths, circles and decorations; the text is read by a strict \
                   XML reader and every number must be finite. Invalid radii must be refused. Non-trivial: the drawing is degenerate (no points, no width or no height), has extreme magnitudes, or the case is a circle.",
            assumptions: &["coordinates up to 1e300, so that sums of two do not overflow", "decoration texts hold no characters XML forbids outright"],
            phases: vec![
                Phase { name: "drawings", kind: Kind::Random, quick: 1_250_000, thorough: 18_000_000, f: p19_drawings },
                Phase { name: "elements", kind: Kind::Random, quick: 500_000, thorough: 6_000_000, f: p19_elements },
            ],
        },
        Prop {
            id: "P26",
            rule: "Drawings of up to 20000 (a few: 150000) points are saved over no file, a shorter, longer or equally long existing file, through relative names and symbolic links, several times; the directory is compared before and after. Saving into a missing directory, \
                   onto a directory, below a file, onto a full device, or under a limit that lets only the first part of it be written must be reported. Non-trivial: the target existed before with other contents, or the save must fail.",
            assumptions: &["a full device is a symbolic link to /dev/full", "the limit is RLIMIT_FSIZE with SIGXFSZ ignored"],
            phases: vec![Phase { name: "save", kind: Kind::Random, quick: 96_000, thorough: 960_000, f: p26_save }],
        },
    ]
}

/// An interpretation that gives the drawing it holds.
#[derive(Debug, Default, Clone)]
pub struct Canned(pub Vec<Path>);

impl Interpretation for Canned {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> {
        Ok(System::new())
    }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> {
        Ok(self.0.clone())
    }
    fn run_settings(&self) -> RunSettings {
        RunSettings::for_max_iterations(self.0.len())
    }
}

type Pts = Vec<Vec<(f64, f64)>>;

fn to_paths(d: &Pts) -> Vec<Path> {
    d.iter().map(|p| p.iter().map(|(x, y)| Point::new(*x, *y)).collect()).collect()
}

pub fn svg_of(d: &Pts, w: usize, h: usize) -> R<Svg> {
    let i = SvgPathInterpretation::new_with(w, h, Canned(to_paths(d)));
    ensure!(i.width() == w && i.height() == h, "the interpretation reports {}x{} instead of {w}x{h}", i.width(), i.height());
    ensure!(i.run_settings().max_iterations == d.len(), "the SVG interpretation does not use the run settings of the interpretation it is built on");
    let sys = System::new();
    let shown = clip(&format!("{d:?}"), 500);
    sut(&format!("the SVG of {shown} on {w}x{h}"), || i.interpret(&sys, &ProductionString::new()))?.map_err(|e| Fail::Violation(format!("the drawing {shown} is refused: {e}")))
}

/// Where an independent fit puts every point, and the tolerance.
pub fn fit(d: &Pts, w: usize, h: usize) -> (Pts, f64) {
    let all: Vec<(f64, f64)> = d.iter().flatten().copied().collect();
    let min = |f: fn(&(f64, f64)) -> f64| all.iter().map(f).fold(f64::INFINITY, f64::min);
    let max = |f: fn(&(f64, f64)) -> f64| all.iter().map(f).fold(f64::NEG_INFINITY, f64::max);
    let (x0, x1, y0, y1) = (min(|p| p.0), max(|p| p.0), min(|p| p.1), max(|p| p.1));
    let (w, h) = (w as f64, h as f64);
    let mut scale = f64::INFINITY;
    if x1 > x0 {
        scale = scale.min(w / (x1 - x0));
    }
    if y1 > y0 {
        scale = scale.min(h / (y1 - y0));
    }
    if !scale.is_finite() {
        scale = 1.0;
    }
    let (cx, cy) = (x0 / 2.0 + x1 / 2.0, y0 / 2.0 + y1 / 2.0);
    let out = d.iter().map(|p| p.iter().map(|(x, y)| (w / 2.0 + scale * (x - cx), h / 2.0 - scale * (y - cy))).collect()).collect();
    let mag = all.iter().map(|p| p.0.abs().max(p.1.abs())).fold(0.0, f64::max);
    (out, 1e-9 * w.max(h) + 1e-13 * mag * scale + 1e-9)
}

/// Compares the text of an SVG with the fit of a drawing. Paths of less than `least` points are
/// ignored on both sides.
pub fn check_fit(what: &str, text: &str, d: &Pts, w: usize, h: usize, least: usize) -> R {
    let e = match xml::check_svg(text) {
        Ok(e) => e,
        Err(m) => violated!("{what}: the SVG is not well-formed: {m}"),
    };
    let size = (e.attr("width").and_then(|v| v.parse::<f64>().ok()), e.attr("height").and_then(|v| v.parse::<f64>().ok()));
    ensure!(size == (Some(w as f64), Some(h as f64)), "{what}: the SVG is {size:?} instead of {w}x{h}");
    let got = match xml::polylines(&e) {
        Ok(g) => g,
        Err(m) => violated!("{what}: {m}"),
    };
    if let Some(why) = xml::not_a_line(&e) {
        violated!("{what}: a path is not drawn as a line: {why}");
    }
    let got: Pts = got.into_iter().filter(|p| p.len() >= least).collect();
    let (want, tol) = fit(d, w, h);
    let want: Pts = want.into_iter().filter(|p| p.len() >= least).collect();
    ensure!(got.len() == want.len(), "{what}: the SVG holds {} paths, expected {}", got.len(), want.len());
    for (i, (g, x)) in got.iter().zip(&want).enumerate() {
        ensure!(g.len() == x.len(), "{what}: path {i} has {} points, expected {}", g.len(), x.len());
        for (j, (a, b)) in g.iter().zip(x).enumerate() {
            ensure!(model::close(a.0, b.0, tol) && model::close(a.1, b.1, tol), "{what}: point {j} of path {i} is shown at {a:?}, expected {b:?}");
            let inside = |v: f64, hi: usize| v >= -tol && v <= hi as f64 + tol;
            ensure!(inside(a.0, w) && inside(a.1, h), "{what}: point {j} of path {i} is shown outside the canvas at {a:?}");
        }
    }
    Ok(())
}

fn coordinate(s: &mut Src, style: usize, size: f64) -> f64 {
    let v = match style {
        0 => s.irange(-20, 20) as f64,
        1 => s.irange(-1_000_000, 1_000_000) as f64 / 1000.0,
        // Numbers that the code under test mentions, as they are.
        3 => return Some(s.literal_float()).filter(|v| (1e-3..1e6).contains(&v.abs())).unwrap_or(0.0),
        _ => s.irange(-(1 << 40), 1 << 40) as f64 / (1u64 << 36) as f64,
    };
    v * size
}

pub fn drawing(s: &mut Src, paths: usize, points: usize) -> Pts {
    let style = s.weighted(&[8, 8, 8, 1]);
    let size = match s.weighted(&[7, 2]) {
        0 => *s.pick(&[1.0, 5.0, 1e-3, 0.1, 1e3, 1e6, 0.37]),
        _ => 10f64.powi(s.irange(-200, 200) as i32),
    };
    let offset = match s.weighted(&[5, 2, 2]) {
        _ if style == 3 => (0.0, 0.0),
        0 => (0.0, 0.0),
        1 => (size * s.irange(-1000, 1000) as f64, size * s.irange(-1000, 1000) as f64),
        _ => (size * s.irange(-30, 30) as f64, 0.0),
    };
    let flat = s.weighted(&[10, 1, 1, 1]);
    let n = s.small(1, paths);
    let mut v: Pts = Vec::new();
    for _ in 0..n {
        let k = s.small(1, points);
        let p = (0..k)
            .map(|_| {
                let (x, y) = (coordinate(s, style, size), coordinate(s, style, size));
                (if flat & 1 == 1 { offset.0 } else { x + offset.0 }, if flat & 2 == 2 { offset.1 } else { y + offset.1 })
            })
            .collect();
        v.push(p);
    }
    v
}

pub fn canvas(s: &mut Src) -> (usize, usize) {
    match s.weighted(&[4, 4, 4, 4, 1, 1]) {
        0 => (500, 500),
        1 => (s.range(1, 5000), s.range(1, 5000)),
        2 => (s.range(1, 20), s.range(1, 20)),
        3 => (s.range(100, 1000), s.range(100, 1000)),
        4 => (10usize.pow(s.range(0, 14) as u32) * s.range(1, 9), 10usize.pow(s.range(0, 14) as u32) * s.range(1, 9)),
        _ => (s.range(0, 3), s.range(0, 3)),
    }
}

fn extents(d: &Pts) -> (f64, f64) {
    let all: Vec<(f64, f64)> = d.iter().flatten().copied().collect();
    let span = |f: fn(&(f64, f64)) -> f64| all.iter().map(f).fold(f64::NEG_INFINITY, f64::max) - all.iter().map(f).fold(f64::INFINITY, f64::min);
    (span(|p| p.0), span(|p| p.1))
}

fn p18_drawings(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = drawing(s, 12, 40);
    let (w, h) = canvas(s);
    let (ex, ey) = extents(&d);
    ctx.case(format!("{w}x{h} {d:?}"));
    ctx.nontrivial = (ex > 0.0 || ey > 0.0) && (ex * h as f64 - ey * w as f64).abs() > 1e-9 * (ex * h as f64);
    ctx.label(match (ex > 0.0, ey > 0.0) {
        (true, true) if ex / ey > w as f64 / h as f64 => "wider than the canvas",
        (true, true) => "taller than the canvas",
        (false, false) => "one point",
        _ => "flat",
    });
    ctx.label_if(d.len() > 1, "several paths");
    let svg = svg_of(&d, w, h)?;
    let text = sut("to_svg", || svg.to_svg())?;
    check_fit(&clip(&ctx.case, 600), &text, &d, w, h, 1)
}

fn p18_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut d = Vec::new();
    let n = s.range(1, 300);
    for _ in 0..n {
        d.extend(drawing(s, 3, 400));
    }
    // One scale for all.
    let (ex, ey) = extents(&d);
    let (w, h) = canvas(s);
    ctx.case(format!("{w}x{h}: {} paths, {ex} by {ey}, hash {:x}", d.len(), hash64(format!("{d:?}").as_bytes())));
    ctx.nontrivial = true;
    let svg = svg_of(&d, w, h)?;
    let text = sut("to_svg", || svg.to_svg())?;
    check_fit(&ctx.case, &text, &d, w, h, 1)
}

/// Drawings of very many paths or very long ones; the coordinates follow from a few drawn numbers.
pub fn huge(s: &mut Src, most: usize) -> Pts {
    let few: Vec<(f64, f64)> = (0..s.range(2, 40)).map(|_| (s.irange(-5_000, 5_000) as f64 / 8.0, s.irange(-5_000, 5_000) as f64 / 8.0)).collect();
    let total = s.range(most / 10, most);
    let mut d: Pts = Vec::new();
    let (a, b) = (s.range(1, 7), s.range(1, 1000));
    let point = |i: usize| few[(i * a + i / b) % few.len()];
    match s.below(3) {
        0 => d.push((0..total).map(point).collect()),
        1 => d.extend((0..total / 4).map(|i| vec![point(i), point(i + 1)])),
        _ => {
            let mut i = 0;
            while i < total {
                let k = s.range(1, total);
                d.push((i..i + k).map(point).collect());
                i += k;
            }
        }
    }
    d
}

fn p18_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let d = huge(s, 300_000);
    let (w, h) = canvas(s);
    let (ex, ey) = extents(&d);
    ctx.case(format!("{w}x{h}: {} paths, {} points, {ex} by {ey}", d.len(), d.iter().map(|p| p.len()).sum::<usize>()));
    ctx.nontrivial = true;
    let svg = svg_of(&d, w, h)?;
    let text = sut("to_svg", || svg.to_svg())?;
    check_fit(&ctx.case, &text, &d, w, h, 1)
}

fn p18_turtle(s: &mut Src, ctx: &mut Ctx) -> R {
    let cmds = turtle::balanced(s, 150, false);
    let delta = turtle::angle(s);
    let (w, h) = canvas(s);
    ctx.case(format!("{w}x{h} {delta} {}", cmds.join(" ")));
    let system = AbopTurtleInterpretation::system().map_err(|e| Fail::Violation(e.to_string()))?;
    let string = turtle::string_of(&cmds)?;
    let t = AbopTurtleInterpretation::new(3, delta);
    let paths = sut("interpret", || t.interpret(&system, &string))?.map_err(|e| Fail::Violation(e.to_string()))?;
    let d: Pts = paths.iter().map(|p| p.iter().map(|q| (q.x(), q.y())).collect()).collect();
    ctx.nontrivial = d.iter().map(|p| p.len()).sum::<usize>() >= 3;
    if d.iter().all(|p| p.is_empty()) {
        return Err(Fail::Discard);
    }
    let (ex, ey) = extents(&d);
    // Widths that are nothing but rounding errors.
    if (ex > 0.0 && ex < 1e-6) || (ey > 0.0 && ey < 1e-6) {
        ctx.label("width from rounding only");
        if ex.max(ey) < 1e-6 {
            return Err(Fail::Discard);
        }
    }
    let i = SvgPathInterpretation::new_with(w, h, t);
    ensure!(i.run_settings().max_iterations == 3, "the SVG interpretation derives {} times instead of 3", i.run_settings().max_iterations);
    let svg = sut("svg", || i.interpret(&system, &string))?.map_err(|e| Fail::Violation(e.to_string()))?;
    let text = sut("to_svg", || svg.to_svg())?;
    check_fit(&clip(&ctx.case, 600), &text, &d, w, h, 1)
}

// ---------------------------------------------------------------------------------------- P19

fn extreme(s: &mut Src) -> f64 {
    match s.weighted(&[6, 4, 3, 2, 2]) {
        0 => s.irange(-10, 10) as f64,
        1 => *s.pick(&[0.0, -0.0, 1e300, -1e300, 1e-300, -1e-300, 5e-324, 1e16, 0.1, 1e-5, 123456789.125, f64::MIN_POSITIVE]),
        2 => s.irange(-1000, 1000) as f64 * 10f64.powi(s.irange(-290, 290) as i32),
        3 => f64::from_bits(s.draw(1 << 62)).clamp(-1e300, 1e300),
        _ => s.irange(-1_000_000, 1_000_000) as f64 / 997.0,
    }
}

fn p19_drawings(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.weighted(&[20, 60, 40, 20, 10, 1]) {
        5 => s.range(5, 300),
        n => n,
    };
    let pool: Vec<f64> = {
        let k = s.range(1, 3);
        (0..k).map(|_| extreme(s)).collect()
    };
    let pooled = s.bool();
    let mut d: Pts = Vec::new();
    for _ in 0..n {
        let k = match s.weighted(&[20, 40, 40, 20, 10, 1]) {
            5 => s.range(5, 60),
            k => k,
        };
        d.push(
            (0..k)
                .map(|_| if pooled { (*s.pick(&pool), *s.pick(&pool)) } else { (extreme(s), extreme(s)) })
                .map(|p| if p.0.is_nan() || p.1.is_nan() { (0.0, 0.0) } else { p })
                .collect(),
        );
    }
    let (w, h) = match s.below(4) {
        0 => (s.below(3), s.below(3)),
        1 => (usize::MAX >> s.below(64), 1 + s.below(1000)),
        _ => canvas(s),
    };
    let (ex, ey) = extents(&d);
    ctx.case(format!("{w}x{h} {d:?}"));
    let degenerate = !(ex > 0.0 && ey > 0.0);
    let big = d.iter().flatten().any(|p| p.0.abs() > 1e15 || p.1.abs() > 1e15);
    ctx.nontrivial = degenerate || big || w == 0 || h == 0;
    ctx.label_if(d.iter().all(|p| p.is_empty()), "no points");
    ctx.label_if(ex == 0.0 && ey == 0.0, "one place");
    ctx.label_if(degenerate, "no width or no height");
    ctx.label_if(big, "huge coordinates");
    ctx.label_if(w == 0 || h == 0, "canvas without area");
    let svg = svg_of(&d, w, h)?;
    let text = sut("to_svg", || svg.to_svg())?;
    if let Err(m) = xml::check_svg(&text) {
        violated!("{}: {m} in {:?}", clip(&ctx.case, 500), clip(&text, 500));
    }
    Ok(())
}

fn colour(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 2]) {
        0 => s.pick(&["black", "none", "#ff00aa", "rgb(1, 2, 3)", "url(#g)", ""]).to_string(),
        1 => s.pick(&["\"", "a&b", "<", ">", "'", "&amp;", "a\"b", "\"/><x y=\"", "é"]).to_string(),
        _ => {
            let n = s.below(5);
            (0..n).map(|_| *s.pick(&['a', '"', '&', '<', '>', '\'', ' ', ';', '#', '日'])).collect()
        }
    }
}

fn p19_elements(s: &mut Src, ctx: &mut Ctx) -> R {
    let wrap = |t: &str| format!("<svg>{t}</svg>");
    match s.below(4) {
        0 => {
            let k = if s.chance(1, 50) { s.range(12, 2_000) } else { s.small(0, 12) };
            let p: Vec<(f64, f64)> = (0..k).map(|_| (extreme(s), extreme(s))).map(|p| if p.0.is_nan() || p.1.is_nan() { (0.0, 0.0) } else { p }).collect();
            ctx.case(format!("path {p:?}"));
            ctx.label("path");
            ctx.nontrivial = true;
            let e = SvgPath::from(to_paths(&vec![p.clone()]).remove(0));
            let text = sut("to_svg", || e.to_svg())?;
            let e = match xml::check_svg(&wrap(&text)) {
                Ok(e) => e,
                Err(m) => violated!("{}: {m} in {:?}", clip(&ctx.case, 400), clip(&text, 400)),
            };
            let lines = xml::polylines(&e).map_err(Fail::Violation)?;
            let want: Pts = if p.is_empty() { vec![] } else { vec![p] };
            ensure!(lines == want, "{}: the path text {:?} describes other points", clip(&ctx.case, 400), clip(&text, 400));
        }
        1 => {
            let radius = match s.below(3) {
                0 => *s.pick(&[0.0, -0.0, 1.0, -1.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -1e-300, 1e-300, 1e300]),
                1 => s.irange(-100, 1000) as f64 / 7.0,
                _ => extreme(s),
            };
            let (x, y) = (extreme(s), extreme(s));
            let (x, y) = if x.is_nan() || y.is_nan() { (0.0, 0.0) } else { (x, y) };
            ctx.case(format!("circle {x} {y} {radius}"));
            ctx.label("circle");
            ctx.nontrivial = true;
            let valid = radius.is_finite() && radius >= 0.0;
            match sut("SvgCircle::build", || SvgCircle::build(Point::new(x, y), radius))? {
                Err(e) => {
                    ensure!(!valid, "{}: refused: {e}", ctx.case);
                    ctx.label("refused");
                }
                Ok(mut c) => {
                    ensure!(valid, "{}: accepted", ctx.case);
                    if s.bool() {
                        c.decorations = SvgDecorations { fill: s.bool().then(|| colour(s)), stroke: s.bool().then(|| colour(s)), stroke_width: s.bool().then(|| s.irange(0, 1000) as f32 / 8.0) };
                    }
                    let text = sut("to_svg", || c.to_svg())?;
                    let e = match xml::check_svg(&wrap(&text)) {
                        Ok(e) => e,
                        Err(m) => violated!("{} {:?}: {m} in {:?}", ctx.case, c.decorations, clip(&text, 400)),
                    };
                    let k = &e.children[0];
                    let get = |n: &str| k.attr(n).and_then(|v| v.parse::<f64>().ok());
                    ensure!(k.name == "circle" && get("cx") == Some(x) && get("cy") == Some(y) && get("r") == Some(radius), "{}: the text is {text:?}", ctx.case);
                    ensure!(k.attr("fill") == c.decorations.fill.as_deref() && k.attr("stroke") == c.decorations.stroke.as_deref(), "{} {:?}: the text is {text:?}", ctx.case, c.decorations);
                }
            }
        }
        2 => {
            let d = SvgDecorations { fill: s.bool().then(|| colour(s)), stroke: s.bool().then(|| colour(s)), stroke_width: s.bool().then(|| s.irange(0, 1000) as f32 / 8.0) };
            ctx.case(format!("{d:?}"));
            ctx.label("decorations");
            ctx.nontrivial = d.fill.is_some() || d.stroke.is_some();
            let text = sut("to_attr_string", || d.to_attr_string())?;
            match xml::check_svg(&format!("<svg {text}/>")) {
                Ok(e) => {
                    ensure!(e.attr("fill") == d.fill.as_deref() && e.attr("stroke") == d.stroke.as_deref(), "{d:?} is written as {text:?}");
                    ensure!(e.attr("stroke-width").and_then(|w| w.parse().ok()) == d.stroke_width, "{d:?} is written as {text:?}");
                }
                Err(m) => violated!("{d:?}: {m} in {text:?}"),
            }
        }
        _ => {
            // What needs no input.
            ctx.case("defaults");
            ctx.label("defaults");
            for t in [Svg::default().to_svg(), wrap(&SvgCircle::default().to_svg())] {
                if let Err(m) = xml::check_svg(&t) {
                    violated!("a default element: {m} in {t:?}");
                }
            }
            for t in [SvgScale::default().to_transform(), SvgTranslate::default().to_transform()] {
                if let Err(m) = xml::transforms(&t) {
                    violated!("a default transform: {m} in {t:?}");
                }
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P26

pub fn scratch() -> R<PathBuf> {
    let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|| std::env::temp_dir().join(format!("verif-scratch-{}", std::process::id())));
    let dir = base.join("case");
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).map_err(|e| Fail::Harness(format!("cannot create {}: {e}", dir.display())))?;
    Ok(dir)
}

/// Every file below a directory with its contents (links by their target).
pub fn snapshot(dir: &std::path::Path) -> std::collections::BTreeMap<PathBuf, Vec<u8>> {
    let mut m = std::collections::BTreeMap::new();
    let mut todo = vec![dir.to_path_buf()];
    while let Some(d) = todo.pop() {
        for e in std::fs::read_dir(&d).into_iter().flatten().flatten() {
            let p = e.path();
            match e.file_type() {
                Ok(t) if t.is_symlink() => {
                    m.insert(p.clone(), format!("-> {:?}", std::fs::read_link(&p).ok()).into_bytes());
                }
                Ok(t) if t.is_dir() => {
                    m.insert(p.clone(), b"dir".to_vec());
                    todo.push(p);
                }
                _ => {
                    m.insert(p.clone(), std::fs::read(&p).unwrap_or_else(|_| b"unreadable".to_vec()));
                }
            }
        }
    }
    m
}

/// A file next to another, with a name that a careless program might use for its own purposes.
pub fn neighbour(s: &mut Src, of: &std::path::Path) -> PathBuf {
    let text = |o: Option<&std::ffi::OsStr>| o.unwrap_or_default().to_string_lossy().to_string();
    let (file, stem) = (text(of.file_name()), text(of.file_stem()));
    let end = *s.pick(&["tmp", "temp", "bak", "old", "new", "part", "orig", "lock", "swp", "out", "1", "partial", "backup", "svg"]);
    of.with_file_name(match s.below(6) {
        0 => format!("{stem}.{end}"),
        1 => format!("{file}.{end}"),
        2 => format!(".{file}.{end}"),
        3 => format!(".{file}"),
        4 => format!("{file}~"),
        _ => end.to_string(),
    })
}

/// While it lives, this process cannot make a file longer than so many bytes.
struct FileSizeLimit([u64; 2]);

extern "C" {
    fn setrlimit(resource: i32, rlim: *const [u64; 2]) -> i32;
    fn getrlimit(resource: i32, rlim: *mut [u64; 2]) -> i32;
    fn signal(signum: i32, handler: usize) -> usize;
}

impl FileSizeLimit {
    const FSIZE: i32 = 1;
    fn new(n: usize) -> Self {
        let mut old = [u64::MAX; 2];
        unsafe {
            // SIGXFSZ: ignored, so that the write fails instead.
            signal(25, 1);
            getrlimit(Self::FSIZE, &mut old);
            setrlimit(Self::FSIZE, &[n as u64, old[1]]);
        }
        FileSizeLimit(old)
    }
}

impl Drop for FileSizeLimit {
    fn drop(&mut self) {
        unsafe {
            setrlimit(Self::FSIZE, &self.0);
        }
    }
}

fn p26_save(s: &mut Src, ctx: &mut Ctx) -> R {
    let io = |e: std::io::Error| Fail::Harness(e.to_string());
    let dir = scratch()?;
    let big = s.chance(1, 20);
    let d = if s.chance(1, 600) {
        huge(s, 150_000)
    } else if big {
        drawing(s, 40, 500)
    } else {
        drawing(s, 5, 30)
    };
    let (w, h) = canvas(s);
    let svg = if s.chance(1, 20) { Svg::default() } else { svg_of(&d, w, h)? };
    let text = sut("to_svg", || svg.to_svg())?;
    std::fs::write(dir.join("bystander.svg"), "keep me").map_err(io)?;
    std::fs::create_dir(dir.join("sub")).map_err(io)?;
    let name = *s.pick(&["a.svg", "b", "c.txt", "sub/d.svg", "é 日.svg", ".hidden", "e.SVG"]);
    let target = dir.join(name);
    let what = s.below(10);
    let mut expect_fail = false;
    let mut limit = None;
    let mut written = target.clone();
    let state = match what {
        0 => "no file",
        1 => {
            std::fs::write(&target, "x").map_err(io)?;
            "shorter file"
        }
        2 | 3 => {
            let n = text.len() + s.range(1, 5000);
            std::fs::write(&target, "<old/>".repeat(n / 6 + 1)).map_err(io)?;
            "longer file"
        }
        4 => {
            let real = dir.join("sub").join("real");
            std::fs::write(&real, "old contents ".repeat(500)).map_err(io)?;
            std::os::unix::fs::symlink(&real, &target).map_err(io)?;
            written = real;
            "symbolic link"
        }
        5 => {
            expect_fail = true;
            std::os::unix::fs::symlink("/dev/full", &target).map_err(io)?;
            "full device"
        }
        6 => {
            expect_fail = true;
            "missing directory"
        }
        8 => {
            // The file there is as long as the new one, and differs from it in one byte or in most.
            let mut old = text.clone().into_bytes();
            let at = s.below(old.len());
            match s.below(3) {
                0 => old[at] ^= 1,
                1 => old[at..].fill(b' '),
                _ => old.reverse(),
            }
            std::fs::write(&target, &old).map_err(io)?;
            if s.bool() {
                // Written long ago.
                let t = std::time::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000_000);
                std::fs::File::options().write(true).open(&target).and_then(|f| f.set_modified(t)).map_err(io)?;
            }
            "file of the same length"
        }
        9 => {
            // Only the first part of the text can be written.
            expect_fail = true;
            if s.bool() {
                std::fs::write(&target, "x").map_err(io)?;
            }
            limit = Some(match s.below(3) {
                0 => text.len() - 1,
                1 => s.below(text.len().min(9_000)),
                _ => s.below(text.len()),
            });
            "a limit on the size of files"
        }
        _ => {
            expect_fail = true;
            "directory"
        }
    };
    let path = match what {
        6 => dir.join("missing").join(name),
        7 => {
            if s.bool() {
                dir.join("sub")
            } else {
                dir.join("bystander.svg").join("x.svg")
            }
        }
        _ => target.clone(),
    };
    let mut near = Vec::new();
    for _ in 0..s.below(4) {
        let f = neighbour(s, &target);
        if std::fs::symlink_metadata(&f).is_err() && f != target {
            std::fs::write(&f, "not yours").map_err(io)?;
            near.push(f.file_name().unwrap_or_default().to_string_lossy().to_string());
        }
    }
    ctx.case(format!("{state}: {name} next to {near:?}, {} bytes, hash {:x}", text.len(), hash64(text.as_bytes())));
    ctx.label(state);
    ctx.label_if(text.len() > 100_000, "more than 100 kB");
    ctx.label_if(text.len() > 1_000_000, "more than 1 MB");
    ctx.nontrivial = what > 0;
    let mut want = snapshot(&dir);
    let repeat = if s.chance(1, 6) { 2 } else { 1 };
    for _ in 0..repeat {
        let way = s.below(3);
        let r = {
            let _guard = limit.map(FileSizeLimit::new);
            match way {
                0 => sut("save_file", || svg.save_file(&path))?,
                1 => sut("save_file", || svg.save_file(path.to_str().unwrap()))?,
                _ => sut("save_file", || svg.save_file(path.clone()))?,
            }
        };
        match r {
            Ok(()) => ensure!(!expect_fail, "{}: saving succeeded", ctx.case),
            Err(e) => ensure!(expect_fail, "{}: saving failed: {e}", ctx.case),
        }
    }
    if !expect_fail {
        want.insert(written.clone(), text.clone().into_bytes());
    }
    let mut got = snapshot(&dir);
    if limit.is_some() {
        // What there is of the file that could not be written is open.
        got.remove(&written);
        want.remove(&written);
    }
    if got.get(&written) != want.get(&written) {
        let g = got.get(&written).map(|v| v.len());
        violated!("{}: the file holds {g:?} bytes, which are not the SVG's {}", ctx.case, text.len());
    }
    let names = |m: &std::collections::BTreeMap<PathBuf, Vec<u8>>| m.keys().map(|p| p.strip_prefix(&dir).unwrap().display().to_string()).collect::<Vec<_>>();
    ensure!(got == want, "{}: other files changed: {:?} instead of {:?}", ctx.case, names(&got), names(&want));
    let _ = std::fs::remove_dir_all(&dir);
    Ok(())
}
