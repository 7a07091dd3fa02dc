//! P20, P21: bounds, points and vectors.

use crate::gen;
use crate::model::close;
use engine::*;
use rusty_systems::geometry::{BoundingBox, Bounds, Path, Point, Vector};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P20",
            rule: "Lists of 0-10 paths of 0-60 points (some of up to 500, a few of up to 300000, or up to 300000 paths) with integer, decimal and widely scaled coordinates, all on one side of the axes in half of them; bounds of each path and of the list are compared with minima, maxima and mean \
                   computed independently, then points are shuffled, divided into other paths, interspersed with empty paths, and moved. Non-trivial: at least two distinct points.",
            assumptions: &["finite coordinates; the mean and moved boxes within 1e-9 of the largest coordinate"],
            phases: vec![
                Phase { name: "random", kind: Kind::Random, quick: 1_500_000, thorough: 18_000_000, f: p20_random },
                Phase { name: "large", kind: Kind::Random, quick: 1_800, thorough: 18_000, f: p20_large },
                Phase { name: "huge", kind: Kind::Random, quick: 60, thorough: 900, f: p20_huge },
            ],
        },
        Prop {
            id: "P21",
            rule: "Random points, vectors, divisors and angles (quarter turns and angles next to them, whole degrees, arbitrary and negative ones from 1e-12 to 1e12 degrees; coordinates from 1e-100 to 1e100); every operator and conversion is compared coordinate by coordinate, and \
                   rotation with the rotation matrix and its algebraic laws. Non-trivial: no coordinate is zero and the angle is not a multiple of 360.",
            assumptions: &["rotation within 2e-13 of the length, plus 1e-15 of the length per degree"],
            phases: vec![Phase { name: "random", kind: Kind::Random, quick: 8_000_000, thorough: 90_000_000, f: p21_random }],
        },
    ]
}

fn coord(s: &mut Src, style: usize) -> f64 {
    match style {
        0 => s.irange(-20, 20) as f64,
        1 => s.irange(-1_000_000, 1_000_000) as f64 / 997.0,
        2 => s.irange(1, 5000) as f64 / 8.0,
        3 => -(s.irange(1, 5000) as f64) / 8.0,
        4 => s.irange(-1000, 1000) as f64 * 10f64.powi(s.irange(-12, 12) as i32),
        6 => Some(s.literal_float()).filter(|v| v.abs() < 1e15).unwrap_or(1.0),
        _ => s.irange(-1000, 1000) as f64 * 1e100,
    }
}

fn path(p: &[(f64, f64)]) -> Path {
    p.iter().map(|(x, y)| Point::new(*x, *y)).collect()
}

pub fn check_box(what: &str, b: &BoundingBox, pts: &[(f64, f64)]) -> R {
    let min = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::INFINITY, f64::min);
    let max = |f: fn(&(f64, f64)) -> f64| pts.iter().map(f).fold(f64::NEG_INFINITY, f64::max);
    let (x0, x1, y0, y1) = (min(|p| p.0), max(|p| p.0), min(|p| p.1), max(|p| p.1));
    ensure!(
        b.min_x == x0 && b.max_x == x1 && b.min_y == y0 && b.max_y == y1,
        "{what}: the box is x {}..{}, y {}..{}, expected x {x0}..{x1}, y {y0}..{y1}",
        b.min_x,
        b.max_x,
        b.min_y,
        b.max_y
    );
    let mag = x0.abs().max(x1.abs()).max(y0.abs()).max(y1.abs());
    // The absolute part is for numbers that are too small to be halved.
    let tol = 1e-12 * mag + 1e-300;
    ensure!(close(b.width(), x1 - x0, tol) && close(b.height(), y1 - y0, tol), "{what}: the box is {} by {}, expected {} by {}", b.width(), b.height(), x1 - x0, y1 - y0);
    let c = b.center();
    ensure!(close(c.x(), x0 / 2.0 + x1 / 2.0, tol) && close(c.y(), y0 / 2.0 + y1 / 2.0, tol), "{what}: the box has its center at {c}");
    let n = pts.len() as f64;
    // Mean by pairwise sums of the parts.
    let mean = |f: fn(&(f64, f64)) -> f64| pts.iter().map(|p| f(p) / n).sum::<f64>();
    let (mx, my) = (mean(|p| p.0), mean(|p| p.1));
    let tol = 1e-9 * mag + 1e-300;
    ensure!(close(b.com.x(), mx, tol) && close(b.com.y(), my, tol), "{what}: the center of mass is {}, expected ({mx},{my})", b.com);
    Ok(())
}

fn bounds_case(s: &mut Src, d: Vec<Vec<(f64, f64)>>, ctx: &mut Ctx) -> R {
    let what = clip(&format!("{d:?}"), 500);
    let all: Vec<(f64, f64)> = d.iter().flatten().copied().collect();
    ctx.nontrivial = all.len() >= 2 && all.iter().any(|p| *p != all[0]);
    ctx.label_if(all.is_empty(), "no points");
    ctx.label_if(d.iter().any(|p| p.is_empty()), "an empty path");
    ctx.label_if(d.len() > 1, "several paths");
    for p in &d {
        let b = sut("Path::bounds", || path(p).bounds())?;
        match b {
            None => ensure!(p.is_empty(), "a path with {} points has no bounds", p.len()),
            Some(b) => {
                ensure!(!p.is_empty(), "a path without points has the bounds {b:?}");
                check_box(&format!("path {}", clip(&format!("{p:?}"), 400)), &b, p)?;
            }
        }
    }
    let list: Vec<Path> = d.iter().map(|p| path(p)).collect();
    let b = match sut("Vec<Path>::bounds", || list.bounds())? {
        None => {
            ensure!(all.is_empty(), "paths with {} points have no bounds: {what}", all.len());
            return Ok(());
        }
        Some(b) => b,
    };
    ensure!(!all.is_empty(), "paths without points have the bounds {b:?}");
    check_box(&format!("paths {what}"), &b, &all)?;
    // Other orders and divisions.
    let mut shuffled = all.clone();
    for i in (1..shuffled.len()).rev() {
        shuffled.swap(i, s.below(i + 1));
    }
    let mut parts: Vec<Path> = Vec::new();
    let mut rest = &shuffled[..];
    while !rest.is_empty() {
        if s.chance(1, 5) {
            parts.push(Path::new());
        }
        let k = s.range(1, rest.len());
        parts.push(path(&rest[..k]));
        rest = &rest[k..];
    }
    if s.chance(1, 3) {
        parts.push(Path::new());
    }
    let b2 = match sut("bounds", || parts.bounds())? {
        Some(b) => b,
        None => violated!("paths with points have no bounds: {what}"),
    };
    check_box(&format!("shuffled into {} paths: {what}", parts.len()), &b2, &all)?;
    let one = match sut("bounds", || path(&shuffled).bounds())? {
        Some(b) => b,
        None => violated!("a path with points has no bounds: {what}"),
    };
    check_box(&format!("as one path: {what}"), &one, &all)?;
    // Moved.
    let v = (coord(s, 1), coord(s, 1));
    let moved: Vec<Path> = list.iter().map(|p| p.clone() + Vector::new(v.0, v.1)).collect();
    let b3 = match sut("bounds", || moved.bounds())? {
        Some(b) => b,
        None => violated!("moved paths have no bounds: {what}"),
    };
    let mag = all.iter().flat_map(|p| [p.0.abs(), p.1.abs()]).fold(v.0.abs().max(v.1.abs()), f64::max);
    let tol = 1e-9 * mag + 1e-300;
    let ok = close(b3.min_x, b.min_x + v.0, tol)
        && close(b3.max_x, b.max_x + v.0, tol)
        && close(b3.min_y, b.min_y + v.1, tol)
        && close(b3.max_y, b.max_y + v.1, tol)
        && close(b3.com.x(), b.com.x() + v.0, tol)
        && close(b3.com.y(), b.com.y() + v.1, tol);
    ensure!(ok, "moving {what} by {v:?} changes the bounds from {b:?} to {b3:?}");
    Ok(())
}

fn p20_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.small(0, 10);
    let (sx, sy) = (s.below(7), s.below(7));
    let d: Vec<Vec<(f64, f64)>> = (0..n)
        .map(|_| {
            let k = s.small(0, 60);
            (0..k).map(|_| (coord(s, sx), coord(s, sy))).collect()
        })
        .collect();
    ctx.case(format!("{d:?}"));
    bounds_case(s, d, ctx)
}

fn p20_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.range(1, 40);
    let (sx, sy) = (s.below(5), s.below(5));
    let d: Vec<Vec<(f64, f64)>> = (0..n)
        .map(|_| {
            let k = s.range(0, 500);
            (0..k).map(|_| (coord(s, sx), coord(s, sy))).collect()
        })
        .collect();
    ctx.case(format!("{n} paths, hash {:x}", hash64(format!("{d:?}").as_bytes())));
    bounds_case(s, d, ctx)
}

/// A few very long paths, among others of any length. The coordinates follow from a few drawn numbers.
fn p20_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let many = s.chance(1, 3);
    let n = if many { gen::huge_len(s) } else { s.range(1, 4) };
    let (sx, sy) = (s.below(4), s.below(4));
    // Coordinates may grow along the way, so that what comes last counts.
    let slope = if s.bool() { 0.0 } else { s.irange(-8, 8) as f64 / 64.0 };
    if many {
        let few: Vec<(f64, f64)> = (0..s.range(1, 40)).map(|_| (coord(s, sx), coord(s, sy))).collect();
        let (a, most) = (s.range(1, 7), s.range(1, 4));
        let d = (0..n).map(|i| (0..if i % 5 == 0 { i % most } else { most }).map(|j| few[(i * a + j) % few.len()]).map(|p| (p.0 + slope * i as f64, p.1 - slope * i as f64)).collect()).collect();
        return huge_bounds(d, ctx);
    }
    let d: Vec<Vec<(f64, f64)>> = (0..n)
        .map(|_| {
            let k = match s.below(3) {
                0 => s.range(0, 100),
                1 => s.range(60_000, 70_000),
                _ => s.range(1, 300_000),
            };
            let few: Vec<(f64, f64)> = (0..s.range(1, 40)).map(|_| (coord(s, sx), coord(s, sy))).collect();
            let (a, b) = (s.below(7), s.range(1, 1000));
            (0..k).map(|i| few[(i * (a + 1) + i / b) % few.len()]).enumerate().map(|(i, p)| (p.0 + slope * i as f64, p.1 - slope * i as f64)).collect()
        })
        .collect();
    huge_bounds(d, ctx)
}

fn huge_bounds(d: Vec<Vec<(f64, f64)>>, ctx: &mut Ctx) -> R {
    ctx.label_if(d.len() > 65_536, "more than 65536 paths");
    ctx.case(format!("{} paths of {:?}... points, hash {:x}", d.len(), d.iter().take(5).map(|p| p.len()).collect::<Vec<_>>(), hash64(format!("{d:?}").as_bytes())));
    ctx.nontrivial = true;
    let mut all = Vec::new();
    for p in &d {
        match sut("Path::bounds", || path(p).bounds())? {
            None => ensure!(p.is_empty(), "a path with {} points has no bounds", p.len()),
            Some(b) => {
                ensure!(!p.is_empty(), "a path without points has the bounds {b:?}");
                check_box(&format!("path of {} points", p.len()), &b, p)?;
            }
        }
        all.extend(p.iter().copied());
    }
    let list: Vec<Path> = d.iter().map(|p| path(p)).collect();
    match sut("Vec<Path>::bounds", || list.bounds())? {
        None => ensure!(all.is_empty(), "paths with {} points have no bounds", all.len()),
        Some(b) => {
            ensure!(!all.is_empty(), "paths without points have the bounds {b:?}");
            check_box(&format!("paths of {} points", all.len()), &b, &all)?;
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P21

fn number(s: &mut Src) -> f64 {
    match s.weighted(&[50, 50, 30, 10, 3]) {
        0 => s.irange(-20, 20) as f64,
        1 => s.irange(-1_000_000_000, 1_000_000_000) as f64 / 9973.0,
        2 => s.irange(-1000, 1000) as f64 * 10f64.powi(s.irange(-97, 97) as i32),
        3 => *s.pick(&[0.0, -0.0, 1.0, -1.0, 0.5, 1e100, 1e-100]),
        _ => Some(s.literal_float()).filter(|v| (1e-100..1e100).contains(&v.abs())).unwrap_or(1.0),
    }
}

fn degrees(s: &mut Src) -> f64 {
    match s.weighted(&[30, 40, 40, 10, 20, 20, 4]) {
        0 => 90.0 * s.irange(-8, 8) as f64,
        1 => s.irange(-720, 720) as f64,
        2 => s.irange(-400_000_000, 400_000_000) as f64 / 1e6,
        3 => s.irange(-1_000_000_000, 1_000_000_000) as f64 / 1e3,
        // Very small and very large ones, and ones next to a quarter turn.
        4 => s.irange(-1000, 1000) as f64 * 10f64.powi(s.irange(-12, 9) as i32),
        6 => Some(s.literal_float()).filter(|v| (1e-12..1e12).contains(&v.abs())).unwrap_or(1.0),
        _ => 90.0 * s.irange(-8, 8) as f64 + s.irange(-1000, 1000) as f64 * 10f64.powi(s.irange(-11, -3) as i32),
    }
}

fn p21_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let (a, b) = ((number(s), number(s)), (number(s), number(s)));
    let d = degrees(s);
    let d2 = degrees(s);
    let k = {
        let k = number(s);
        if k == 0.0 {
            3.0
        } else {
            k
        }
    };
    ctx.case(format!("{a:?} {b:?} / {k}, {d} and {d2} degrees"));
    ctx.nontrivial = a.0 != 0.0 && a.1 != 0.0 && d % 360.0 != 0.0;
    let what = ctx.case.clone();
    let (p, q) = (Point::new(a.0, a.1), Point::new(b.0, b.1));
    let (u, v) = (Vector::new(a.0, a.1), Vector::new(b.0, b.1));
    let pt = |p: Point| (p.x(), p.y());
    let vc = |p: Vector| (p.x(), p.y());
    ensure!(pt(p) == a && vc(v) == b, "{what}: coordinates are not kept");
    let sum = (a.0 + b.0, a.1 + b.1);
    let dif = (a.0 - b.0, a.1 - b.1);
    ensure!(pt(p + q) == sum && pt(p + v) == sum && vc(u + v) == sum, "{what}: sums are {} {} {}, expected {sum:?}", p + q, p + v, u + v);
    ensure!(pt(p - q) == dif && pt(p - v) == dif && vc(u - v) == dif, "{what}: differences are {} {} {}, expected {dif:?}", p - q, p - v, u - v);
    ensure!(pt(-p) == (-a.0, -a.1) && vc(-u) == (-a.0, -a.1), "{what}: the negatives are {} and {}", -p, -u);
    let div = pt(p / k);
    let near = |x: f64, y: f64| close(x, y, 1e-12 * y.abs());
    ensure!(near(div.0, a.0 / k) && near(div.1, a.1 / k), "{what}: the quotient is {div:?}");
    ensure!(vc(Vector::from(p)) == a && pt(Point::from(u)) == a, "{what}: a conversion changes coordinates");
    ensure!(pt(Point::from(Vector::from(p))) == a && p == Point::from(u) && (p == q) == (a == b) && (u == v) == (a == b), "{what}: equality or conversion");
    ensure!(p.to_string() == format!("({},{})", a.0, a.1) && u.to_string() == format!("({},{})", a.0, a.1), "{what}: displayed as {p} and {u}");
    let mag = a.0.abs().max(a.1.abs()).max(b.0.abs()).max(b.1.abs());
    let back = pt((p + v) - v);
    ensure!(close(back.0, a.0, 1e-12 * mag) && close(back.1, a.1, 1e-12 * mag), "{what}: adding and subtracting gives {back:?}");
    ensure!(pt(-(-p)) == a && vc(-(-u)) == a, "{what}: negating twice");

    // The length.
    let m = a.0.abs().max(a.1.abs());
    let norm = if m == 0.0 { 0.0 } else { m * ((a.0 / m).powi(2) + (a.1 / m).powi(2)).sqrt() };
    ensure!(close(u.norm(), norm, 1e-12 * norm), "{what}: the length of {u} is {}, expected {norm}", u.norm());
    ensure!(close((-u).norm(), norm, 1e-12 * norm), "{what}: the length of {} is {}", -u, (-u).norm());

    // Rotation.
    let tol = |d: f64, n: f64| (2e-13 + 1e-15 * d.abs()) * n;
    let matrix = |d: f64, v: (f64, f64)| {
        let r = d % 360.0;
        let (c, s) = match (r / 90.0) as i64 {
            q if r == q as f64 * 90.0 => [(1.0, 0.0), (0.0, 1.0), (-1.0, 0.0), (0.0, -1.0)][q.rem_euclid(4) as usize],
            _ => {
                let t = r / 180.0 * std::f64::consts::PI;
                (t.cos(), t.sin())
            }
        };
        (c * v.0 - s * v.1, s * v.0 + c * v.1)
    };
    let vnear = |x: Vector, y: (f64, f64), t: f64| close(x.x(), y.0, t) && close(x.y(), y.1, t);
    let r = u.rotate(d);
    ensure!(vnear(r, matrix(d, a), tol(d, norm)), "{what}: {u} turned by {d} degrees is {r}, expected {:?}", matrix(d, a));
    ensure!(close(r.norm(), norm, tol(d, norm)), "{what}: turning changes the length from {norm} to {}", r.norm());
    let rr = r.rotate(d2);
    ensure!(vnear(rr, vc(u.rotate(d + d2)), tol(d.abs() + d2.abs(), norm)), "{what}: turning {u} by {d} and {d2} gives {rr}, turning by the sum {}", u.rotate(d + d2));
    ensure!(vnear(r.rotate(-d), a, tol(d, norm)), "{what}: turning {u} by {d} and back gives {}", r.rotate(-d));
    ensure!(vnear(u.rotate(0.0), a, 0.0) || norm == 0.0, "{what}: turning by 0 gives {}", u.rotate(0.0));
    let lin = (u + v).rotate(d);
    let nsum = norm.max(v.norm());
    ensure!(vnear(lin, vc(u.rotate(d) + v.rotate(d)), 2.0 * tol(d, nsum)), "{what}: turning the sum by {d} gives {lin}, the sum of the turned is {}", u.rotate(d) + v.rotate(d));
    ensure!(vc(Vector::up()) == (0.0, 1.0) && vc(Vector::down()) == (0.0, -1.0) && vc(Vector::zero()) == (0.0, 0.0) && pt(Point::zero()) == (0.0, 0.0), "a constant is wrong");
    ensure!(Vector::default() == Vector::zero() && Point::default() == Point::zero(), "a default is wrong");
    Ok(())
}
