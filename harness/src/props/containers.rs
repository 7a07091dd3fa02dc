//! P27: strings and paths as sequences.

use crate::gen::{self, Symbols};
use engine::*;
use rusty_systems::geometry::{Path, Point, Vector};
use rusty_systems::prelude::*;
use rusty_systems::symbols::iterator::SymbolIterable;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P27",
        rule: "Strings and paths are built in every way (empty, pushed, collected, from one element, from a vector, parsed, moved) up to 5000 elements (in the 'huge' phases 300000) and compared with a plain list: length, emptiness, every index, first element, every way of \
               iterating forwards, equality and hashes against a second string that differs in nothing, one element, order or length; 'pairs' takes all pairs of strings of up to four of five symbols with consecutive codes. Non-trivial: at least two elements, not all the same.",
        assumptions: &[],
        phases: vec![
            Phase { name: "strings", kind: Kind::Random, quick: 1_000_000, thorough: 15_000_000, f: strings },
            Phase { name: "pairs", kind: Kind::Walk, quick: 4_000_000, thorough: 4_000_000, f: pairs },
            Phase { name: "paths", kind: Kind::Random, quick: 1_000_000, thorough: 15_000_000, f: paths },
            Phase { name: "huge-strings", kind: Kind::Random, quick: 200, thorough: 3_000, f: huge_strings },
            Phase { name: "huge-paths", kind: Kind::Random, quick: 120, thorough: 1_800, f: huge_paths },
        ],
    }]
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

fn strings(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 6);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 0, 5000);
    check_string(s, &sy, w, ctx)
}

fn huge_strings(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 6);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let n = gen::huge_len(s);
    let (p, q) = (s.range(1, 40), s.range(1, 1000));
    let w: Vec<usize> = (0..n).map(|i| (i * p + i / q) % k).collect();
    let r = check_string(s, &sy, w, ctx);
    ctx.case(format!("{n} symbols ({p}, {q}) of {}", sy.names.join(" ")));
    ctx.label_if(n > 65_536, "more than 65536 elements");
    r
}

fn check_string(s: &mut Src, sy: &Symbols, w: Vec<usize>, ctx: &mut Ctx) -> R {
    let syms: Vec<Symbol> = w.iter().map(|i| sy.syms[*i]).collect();
    ctx.case(gen::show_word(&sy.names, &w));
    ctx.nontrivial = w.len() >= 2 && w.iter().any(|i| *i != w[0]);
    let how = s.below(5);
    let p = sut("building a string", || match how {
        0 => {
            let mut p = ProductionString::new();
            for x in &syms {
                p.push_symbol(*x);
            }
            p
        }
        1 => ProductionString::from(syms.clone()),
        2 if syms.len() == 1 => ProductionString::from(syms[0]),
        3 if syms.is_empty() => ProductionString::default(),
        4 => {
            let cut = syms.len() / 2;
            let mut p = ProductionString::from(syms[..cut].to_vec());
            for x in &syms[cut..] {
                p.push_symbol(*x);
            }
            p
        }
        _ => {
            let mut p = ProductionString::empty();
            for x in &syms {
                p.push_symbol(*x);
            }
            p
        }
    })?;
    let what = clip(&ctx.case, 300);
    ensure!(p.len() == syms.len() && p.is_empty() == syms.is_empty(), "[{what}]: length {} and emptiness {}", p.len(), p.is_empty());
    ensure!(p.symbols() == &syms, "[{what}]: symbols() differs");
    ensure!(p.iter().copied().collect::<Vec<_>>() == syms, "[{what}]: iter() differs");
    let mut by_ref = Vec::new();
    for x in &p {
        by_ref.push(x);
    }
    ensure!(by_ref == syms, "[{what}]: iterating over a reference differs");
    ensure!(p.clone().into_iter().collect::<Vec<_>>() == syms, "[{what}]: into_iter() differs");
    ensure!(p.all_symbols::<Vec<Symbol>>() == syms && p.all_symbols_iter().count() == syms.len(), "[{what}]: all_symbols() differs");
    ensure!(p.all_symbols::<HashSet<Symbol>>() == syms.iter().copied().collect(), "[{what}]: the set of symbols differs");
    for (i, x) in syms.iter().enumerate() {
        ensure!(sut("index", || p[i])? == *x, "[{what}]: index {i} differs");
    }
    ensure!(sut_may_panic(|| p[syms.len()]).is_err(), "[{what}]: an index past the end gives a symbol");
    // Another string.
    let mut other = syms.clone();
    let change = s.below(6);
    match change {
        0 if !other.is_empty() => {
            let i = s.below(other.len());
            other[i] = *s.pick(&sy.syms);
        }
        1 if other.len() >= 2 => {
            let i = s.below(other.len() - 1);
            other.swap(i, i + 1);
        }
        2 => {
            other.pop();
        }
        3 => other.push(*s.pick(&sy.syms)),
        4 => other.reverse(),
        _ => {}
    }
    let q = ProductionString::from(other.clone());
    let same = other == syms;
    ensure!((p == q) == same && (q == p) == same && (p != q) != same, "[{what}] and [{}] are equal: {}", clip(&q.to_string(), 300), p == q);
    ensure!(!same || hash_of(&p) == hash_of(&q), "[{what}]: equal strings with different hashes");
    ctx.label(if same { "equal" } else { "different" });
    // A copy is independent.
    let mut c = p.clone();
    c.push_symbol(sy.syms[0]);
    ensure!(p.len() == syms.len() && c.len() == syms.len() + 1 && c != p, "[{what}]: pushing onto a copy");
    Ok(())
}

/// Two strings of up to four symbols over six symbols whose codes follow one another.
fn pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    thread_local! {
        static SYMS: Vec<Symbol> = (0..6).map(|i| Symbol::build(format!("pair{i}")).expect("a symbol")).collect();
    }
    let a: Vec<usize> = (0..4).map(|_| s.below(6)).filter(|x| *x > 0).collect();
    let b: Vec<usize> = (0..4).map(|_| s.below(6)).filter(|x| *x > 0).collect();
    ctx.case(format!("{a:?} {b:?}"));
    ctx.nontrivial = a.len() >= 2 && b.len() >= 2;
    SYMS.with(|syms| {
        let x = ProductionString::from(a.iter().map(|i| syms[*i]).collect::<Vec<_>>());
        let y = ProductionString::from(b.iter().map(|i| syms[*i]).collect::<Vec<_>>());
        let same = a == b;
        ensure!((x == y) == same && (x != y) != same, "[{x}] and [{y}] are equal: {}", x == y);
        ensure!(!same || hash_of(&x) == hash_of(&y), "[{x}] has two hashes");
        Ok(())
    })
}

fn paths(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.len(0, 3000);
    let style = s.below(3);
    let num = |s: &mut Src| match style {
        0 => s.irange(-5, 5) as f64,
        1 => s.irange(-1_000_000, 1_000_000) as f64 / 7.0,
        _ => s.irange(-1000, 1000) as f64 * 10f64.powi(s.irange(-20, 20) as i32),
    };
    let pts: Vec<(f64, f64)> = (0..n).map(|_| (num(s), num(s))).collect();
    let v = (num(s), num(s));
    check_path(s, pts, v, ctx)
}

fn huge_paths(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = gen::huge_len(s);
    let (p, q) = (s.range(1, 9_999), s.range(1, 100_000));
    let pts: Vec<(f64, f64)> = (0..n).map(|i| ((i * p % 10_007) as f64 / 8.0, (i / q) as f64 - 3.0)).collect();
    let v = (s.irange(-50, 50) as f64, s.irange(1, 50) as f64);
    let r = check_path(s, pts, v, ctx);
    ctx.case(format!("{n} points ({p}, {q}) + {v:?}"));
    ctx.label_if(n > 65_536, "more than 65536 elements");
    r
}

fn check_path(s: &mut Src, pts: Vec<(f64, f64)>, v: (f64, f64), ctx: &mut Ctx) -> R {
    let n = pts.len();
    ctx.case(format!("{pts:?} + {v:?}"));
    ctx.nontrivial = n >= 2 && pts.iter().any(|p| *p != pts[0]);
    let what = clip(&ctx.case, 300);
    let how = s.below(8);
    // An iterator may announce fewer points than it has, or say nothing.
    let cut = s.range(0, n);
    let p: Path = sut("building a path", || match how {
        4 => pts[..cut].iter().chain(pts[cut..].iter().filter(|p| p.0.is_finite())).map(|(x, y)| Point::new(*x, *y)).collect(),
        5 => {
            let mut i = 0;
            std::iter::from_fn(|| {
                i += 1;
                pts.get(i - 1).map(|(x, y)| Point::new(*x, *y))
            })
            .collect()
        }
        6 => pts.chunks(3).flat_map(|c| c.iter().map(|(x, y)| Point::new(*x, *y))).collect(),
        7 => pts.iter().filter(|p| p.0.is_finite()).map(|(x, y)| Point::new(*x, *y)).collect(),
        0 => pts.iter().map(|(x, y)| Point::new(*x, *y)).collect(),
        1 => {
            let mut p = Path::new();
            for (x, y) in &pts {
                p.push(Point::new(*x, *y));
            }
            p
        }
        2 => {
            let mut p = Path::default();
            for (x, y) in &pts {
                p.push(Vector::new(*x, *y));
            }
            p
        }
        _ => {
            let cut = n / 3;
            let mut p: Path = pts[..cut].iter().map(|(x, y)| Point::new(*x, *y)).collect();
            for (x, y) in &pts[cut..] {
                p.push(Point::new(*x, *y));
            }
            p
        }
    })?;
    let pt = |p: &Point| (p.x(), p.y());
    ensure!(p.len() == n && p.is_empty() == (n == 0), "{what}: length {} and emptiness {}", p.len(), p.is_empty());
    ensure!(p.iter().map(pt).collect::<Vec<_>>() == pts, "{what}: iter() differs");
    ensure!(p.clone().into_iter().map(|x| pt(&x)).collect::<Vec<_>>() == pts, "{what}: into_iter() differs");
    ensure!(p.get_start().map(pt) == pts.first().copied(), "{what}: the start is {:?}", p.get_start());
    for (i, x) in pts.iter().enumerate() {
        ensure!(p.get(i).map(pt) == Some(*x) && pt(&sut("index", || p[i])?) == *x, "{what}: index {i} differs");
    }
    ensure!(p.get(n).is_none() && p.get(usize::MAX).is_none(), "{what}: there is a point past the end");
    ensure!(sut_may_panic(|| p[n]).is_err(), "{what}: an index past the end gives a point");
    let moved = sut("moving a path", || p.clone() + Vector::new(v.0, v.1))?;
    let want: Vec<(f64, f64)> = pts.iter().map(|x| (x.0 + v.0, x.1 + v.1)).collect();
    ensure!(moved.iter().map(pt).collect::<Vec<_>>() == want, "{what}: moving gives {}", clip(&format!("{moved:?}"), 300));
    ensure!(p.iter().map(pt).collect::<Vec<_>>() == pts, "{what}: moving a copy changed the path");
    Ok(())
}
