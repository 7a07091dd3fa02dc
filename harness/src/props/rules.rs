//! P28: the identity of rules. P29: interpretations and their settings. P30: errors.

use crate::gen::{self, Symbols};
use crate::model::Rule;
use crate::props::turtle;
use engine::*;
use rusty_systems::error::ErrorKind;
use rusty_systems::geometry::{Path, Point};
use rusty_systems::interpretation::abop::{AbopSvgInterpretation, AbopTurtleInterpretation};
use rusty_systems::interpretation::svg::{Svg, SvgElement, SvgPathInterpretation};
use rusty_systems::interpretation::NullInterpretation;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::SymbolStore;
use std::cell::RefCell;
use std::collections::hash_map::{DefaultHasher, RandomState};
use std::collections::{HashMap, HashSet};
use std::error::Error as _;
use std::hash::{BuildHasher, Hash, Hasher};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P28",
            rule: "Pairs of rules made in every way (text, built, added to a store) with heads that are the same, differ in one symbol, in where the contexts are divided, in the order or in the length, and with any replacements; equality both ways, \
                   hashes under two hash functions, sets and maps keyed by rules and heads are compared with the equality of (left, target, right); histories of extending and merging are compared with a list of alternatives. 'huge' has contexts of up to 300000 symbols and as many alternatives. 'pairs' takes all pairs \
                   of heads with contexts of up to two of two symbols. Non-trivial: the heads are equal with different replacements, or differ although they consist of the same symbols; a history with at least two extensions.",
            assumptions: &["an absent and an empty context are not compared with each other"],
            phases: vec![
                Phase { name: "pairs", kind: Kind::Walk, quick: 100_000, thorough: 100_000, f: p28_pairs },
                Phase { name: "related", kind: Kind::Random, quick: 400_000, thorough: 6_000_000, f: p28_related },
                Phase { name: "sets", kind: Kind::Random, quick: 60_000, thorough: 1_000_000, f: p28_sets },
                Phase { name: "extend", kind: Kind::Random, quick: 300_000, thorough: 4_000_000, f: p28_extend },
                Phase { name: "huge", kind: Kind::Random, quick: 96, thorough: 1_400, f: p28_huge },
            ],
        },
        Prop {
            id: "P29",
            rule: "Turtles with any iteration count and angle; SVG interpretations of any size around turtles and around an interpretation of one's own whose drawing depends on its setting, the symbols and the string, which fails for some strings; \
                   systems made for interpretations before, between and after additions to earlier ones. Non-trivial: the settings differ from the defaults and the string has at least two symbols.",
            assumptions: &[],
            phases: vec![
                Phase { name: "settings", kind: Kind::Random, quick: 400_000, thorough: 5_000_000, f: p29_settings },
                Phase { name: "wrapped", kind: Kind::Random, quick: 300_000, thorough: 4_000_000, f: p29_wrapped },
                Phase { name: "systems", kind: Kind::Random, quick: 100_000, thorough: 1_500_000, f: p29_systems },
            ],
        },
        Prop {
            id: "P30",
            rule: "Errors of every kind with any message, made by every constructor and from I/O errors (of the system and of one's own), number errors and poisoned locks, some with 300000 characters; copied, boxed, passed through '?'. What they display and their cause are compared \
                   with what they were made from. 'stores' hands errors of one's own to the library and takes them back. Non-trivial: the message is not empty and not plain ASCII, or there is a cause.",
            assumptions: &[],
            phases: vec![
                Phase { name: "made", kind: Kind::Random, quick: 500_000, thorough: 5_000_000, f: p30_made },
                Phase { name: "stores", kind: Kind::Random, quick: 200_000, thorough: 2_000_000, f: p30_stores },
                Phase { name: "long", kind: Kind::Random, quick: 400, thorough: 4_000, f: p30_long },
            ],
        },
    ]
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

type Head = (Vec<usize>, usize, Vec<usize>);

fn rule(h: &Head, bodies: Vec<(Option<String>, Vec<usize>)>) -> Rule {
    Rule { pre: h.0.clone(), target: h.1, post: h.2.clone(), bodies }
}

/// A production with one alternative, made in one of several ways.
fn make(sy: &Symbols, h: &Head, body: (Option<String>, Vec<usize>), how: usize) -> R<Production> {
    let r = rule(h, vec![body]);
    match how {
        0 => sy.production(&r, 0),
        1 => {
            let t = gen::rule_text(&sy.names, &r, 0);
            sut("parsing a rule", || Production::try_from(t.as_str()))?.map_err(|e| Fail::Violation(format!("the rule {t:?} was refused: {e}")))
        }
        2 => sy.add(&System::new(), &r, 0, 0),
        3 => sy.add(&RefCell::new(Vec::<Production>::new()), &r, 0, 2),
        _ => Ok(sy.production(&r, 0)?.clone()),
    }
}

fn body(s: &mut Src, k: usize) -> (Option<String>, Vec<usize>) {
    let c = if s.chance(1, 3) { Some(format!("0.{}", s.range(1, 9))) } else { None };
    (c, gen::word(s, k, 0, 6))
}

fn compare(sy: &Symbols, a: &Production, ha: &Head, b: &Production, hb: &Head) -> R {
    let same = ha == hb;
    let show = |h: &Head| format!("[{} < {} > {}]", gen::show_word(&sy.names, &h.0), sy.names[h.1], gen::show_word(&sy.names, &h.2));
    let what = || format!("rules with the heads {} and {}", show(ha), show(hb));
    let (eq, ne) = sut("comparing rules", || ((a == b, b == a), (a != b, b != a)))?;
    ensure!(eq == (same, same) && ne == (!same, !same), "{}: equal {eq:?}, different {ne:?}", what());
    let (eq, ne) = sut("comparing heads", || ((a.head() == b.head(), b.head() == a.head()), (a.head() != b.head(), b.head() != a.head())))?;
    ensure!(eq == (same, same) && ne == (!same, !same), "{}: heads equal {eq:?}, different {ne:?}", what());
    if same {
        ensure!(hash_of(a) == hash_of(b), "{}: equal rules have different hashes", what());
        ensure!(hash_of(a.head()) == hash_of(b.head()), "{}: equal heads have different hashes", what());
        let st = RandomState::new();
        ensure!(st.hash_one(a) == st.hash_one(b), "{}: equal rules have different hashes", what());
    }
    for (p, h) in [(a, ha), (b, hb)] {
        let list = |x: Option<&ProductionString>| x.map(|y| y.symbols().clone()).unwrap_or_default();
        let want = |w: &[usize]| w.iter().map(|i| sy.syms[*i]).collect::<Vec<_>>();
        ensure!(
            list(p.head().pre_context()) == want(&h.0) && *p.head().target() == sy.syms[h.1] && list(p.head().post_context()) == want(&h.2),
            "{}: a head reads {:?}",
            what(),
            p.head()
        );
    }
    // One system holds one rule or two.
    let system = System::new();
    sut("add_production", || system.add_production(a.clone()))?.map_err(|e| Fail::Violation(format!("{}: refused: {e}", what())))?;
    sut("add_production", || system.add_production(b.clone()))?.map_err(|e| Fail::Violation(format!("{}: refused: {e}", what())))?;
    ensure!(system.production_len() == if same { 1 } else { 2 }, "{}: a system given both has {} rules", what(), system.production_len());
    Ok(())
}

fn small_head(i: usize) -> Head {
    let ctx = [vec![], vec![0], vec![1], vec![0, 0], vec![0, 1], vec![1, 0], vec![1, 1]];
    (ctx[i % 7].clone(), (i / 7) % 2, ctx[(i / 14) % 7].clone())
}

fn p28_pairs(s: &mut Src, ctx: &mut Ctx) -> R {
    thread_local! {
        static SY: Symbols = Symbols::new(vec!["P28a".into(), "P28b".into()]).unwrap_or_else(|_| panic!("symbols"));
    }
    let (i, j, how) = (s.below(98), s.below(98), s.below(2));
    let (ha, hb) = (small_head(i), small_head(j));
    ctx.case(format!("{ha:?} {hb:?} {how}"));
    ctx.nontrivial = i == j || !ha.0.is_empty() || !hb.0.is_empty();
    SY.with(|sy| {
        let a = make(sy, &ha, (None, vec![0]), how)?;
        let b = make(sy, &hb, (None, vec![1, 0]), 1 - how)?;
        compare(sy, &a, &ha, &b, &hb)
    })
}

/// A head like the given one.
fn relative(s: &mut Src, h: &Head, k: usize) -> (Head, &'static str) {
    let mut o = h.clone();
    let what = match s.below(11) {
        0 | 1 => "same",
        2 => {
            o.1 = s.below(k);
            "target"
        }
        3 => {
            std::mem::swap(&mut o.0, &mut o.2);
            "contexts swapped"
        }
        4 => {
            o.0.reverse();
            "left reversed"
        }
        5 => {
            o.2.reverse();
            "right reversed"
        }
        6 => {
            // The same symbols in a row, with another one as the target.
            let mut all = o.0.clone();
            all.push(o.1);
            all.extend(&o.2);
            let t = s.below(all.len());
            o = (all[..t].to_vec(), all[t], all[t + 1..].to_vec());
            "divided elsewhere"
        }
        7 => {
            if !o.0.is_empty() {
                let i = s.below(o.0.len());
                o.0[i] = s.below(k);
            }
            "left symbol"
        }
        8 => {
            if !o.2.is_empty() {
                let i = s.below(o.2.len());
                o.2[i] = s.below(k);
            }
            "right symbol"
        }
        9 => {
            if s.bool() {
                if s.bool() {
                    o.0.pop();
                } else if !o.0.is_empty() {
                    o.0.remove(0);
                }
            } else if s.bool() {
                o.2.pop();
            } else if !o.2.is_empty() {
                o.2.remove(0);
            }
            "shorter"
        }
        _ => {
            let x = s.below(k);
            match s.below(4) {
                0 => o.0.push(x),
                1 => o.0.insert(0, x),
                2 => o.2.push(x),
                _ => o.2.insert(0, x),
            }
            "longer"
        }
    };
    (o, what)
}

fn first_head(s: &mut Src, k: usize) -> Head {
    let max = if s.chance(1, 20) { 200 } else { 5 };
    (gen::word(s, k, 0, max), s.below(k), gen::word(s, k, 0, max))
}

fn p28_related(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 4);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let ha = first_head(s, k);
    let (hb, how) = relative(s, &ha, k);
    let (ba, bb) = (body(s, k), body(s, k));
    ctx.case(format!("{} ; {}", gen::show_rules(&sy.names, &[rule(&ha, vec![ba.clone()])]), gen::show_rules(&sy.names, &[rule(&hb, vec![bb.clone()])])));
    ctx.label(how);
    ctx.label(if ha == hb { "equal" } else { "different" });
    let mut flat: [Vec<usize>; 2] = [&ha, &hb].map(|h| h.0.iter().chain([&h.1]).chain(&h.2).copied().collect());
    flat.iter_mut().for_each(|v| v.sort());
    ctx.nontrivial = if ha == hb { ba.1 != bb.1 } else { flat[0] == flat[1] };
    let a = make(&sy, &ha, ba, s.below(5))?;
    let b = make(&sy, &hb, bb, s.below(5))?;
    compare(&sy, &a, &ha, &b, &hb)
}

fn p28_sets(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 3);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let n = s.len(1, 40);
    let mut heads: Vec<Head> = vec![first_head(s, k)];
    for _ in 1..n {
        let from = s.pick(&heads).clone();
        heads.push(relative(s, &from, k).0);
    }
    let mut set: HashSet<Production> = HashSet::new();
    let mut by_head: HashMap<ProductionHead, usize> = HashMap::new();
    let mut model: HashSet<Head> = HashSet::new();
    let mut counts: HashMap<Head, usize> = HashMap::new();
    let mut text = String::new();
    for h in &heads {
        let b = body(s, k);
        let how = s.below(5);
        text.push_str(&gen::show_rules(&sy.names, &[rule(h, vec![b.clone()])]));
        text.push_str("; ");
        ctx.case(text.clone());
        let p = make(&sy, h, b, how)?;
        let what = clip(&text, 600);
        let known = sut("looking up a rule in a set", || set.contains(&p))?;
        ensure!(known == model.contains(h), "{what}: a set of rules has the last one: {known}");
        *sut("a map keyed by heads", || by_head.entry(p.head().clone()))?.or_insert(0) += 1;
        *counts.entry(h.clone()).or_insert(0) += 1;
        let new = sut("adding a rule to a set", || set.insert(p.clone()))?;
        ensure!(new == model.insert(h.clone()), "{what}: adding the last rule to a set: {new}");
        ensure!(by_head.get(p.head()) == counts.get(h), "{what}: a map by head counts {:?}", by_head.get(p.head()));
    }
    ctx.nontrivial = model.len() >= 2 && model.len() < heads.len();
    ensure!(set.len() == model.len() && by_head.len() == model.len(), "{}: {} rules in a set and {} heads in a map, expected {}", clip(&text, 600), set.len(), by_head.len(), model.len());
    Ok(())
}

/// Rules with very long contexts that may differ in one place, or with very many alternatives.
fn p28_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 5);
    let sy = Symbols::new((0..k).map(|i| format!("H{i}")).collect())?;
    let n = gen::huge_len(s);
    ctx.label_if(n > 65_536, "more than 65536");
    ctx.nontrivial = true;
    let (p, q) = (s.range(1, 7), s.range(1, 500));
    if s.bool() {
        let long: Vec<usize> = (0..n).map(|i| (i * p + i / q) % k).collect();
        let t = s.below(k);
        let ha: Head = if s.bool() { (long, t, vec![0]) } else { (vec![], t, long) };
        let mut hb = ha.clone();
        let c = if hb.0.is_empty() { &mut hb.2 } else { &mut hb.0 };
        match s.below(5) {
            0 | 1 => {
                let i = *s.pick(&[0, n - 1, n - 2, n / 2, 65_535.min(n - 1), 65_536.min(n - 1)]);
                c[i] = (c[i] + s.range(1, k - 1)) % k;
            }
            2 => {
                c.pop();
            }
            3 => c.push(0),
            _ => {}
        }
        ctx.case(format!("heads with {} < {} > {} and {} < {} > {} symbols ({p}, {q}), equal: {}", ha.0.len(), ha.1, ha.2.len(), hb.0.len(), hb.1, hb.2.len(), ha == hb));
        let a = make(&sy, &ha, (None, vec![0]), 0)?;
        let b = make(&sy, &hb, (None, vec![1, 0]), s.below(2))?;
        return compare(&sy, &a, &ha, &b, &hb).map_err(|e| match e {
            Fail::Violation(m) => Fail::Violation(clip(&m, 1_000)),
            e => e,
        });
    }
    let h: Head = (vec![0], 1, vec![]);
    let word = |i: usize| -> Vec<usize> { (0..i % p).map(|j| (i + j * q) % k).collect() };
    let stated = |i: usize| i % q == 0;
    let make_body = |i: usize| -> R<ProductionBody> {
        let string = sy.string(&word(i));
        if !stated(i) {
            return Ok(ProductionBody::new(string));
        }
        ProductionBody::try_with_chance(1e-7, string).map_err(|e| Fail::Violation(format!("a probability was refused: {e}")))
    };
    let mut rule = Production::new(sy.head(&rule(&h, vec![]))?, make_body(0)?);
    // One at a time, or in parts that are merged.
    let part = *s.pick(&[1, 1, 7, 1_000, 70_000]);
    let mut i = 1;
    while i < n {
        if part == 1 {
            rule.add_body(make_body(i)?);
            i += 1;
            continue;
        }
        let mut o = Production::new(rule.head().clone(), make_body(i)?);
        for j in i + 1..(i + part).min(n) {
            o.add_body(make_body(j)?);
        }
        i += part;
        rule.merge(o);
    }
    ctx.case(format!("{n} alternatives ({p}, {q}), added {part} at a time"));
    let what = ctx.case.clone();
    let rule = if s.bool() { rule.clone() } else { rule };
    ensure!(rule.all_bodies().len() == n, "{what}: the rule has {}", rule.all_bodies().len());
    for (i, b) in rule.all_bodies().iter().enumerate() {
        let same = b.string() == &sy.string(&word(i)) && b.chance().is_user_set() == stated(i);
        ensure!(same, "{what}: alternative {i} is {:?} [{}]", b.chance(), b.string());
    }
    Ok(())
}

fn p28_extend(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 4);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let h = first_head(s, k);
    let first = body(s, k);
    let mut model = vec![first.clone()];
    let mut p = make(&sy, &h, first, s.below(5))?;
    let original = p.clone();
    let most = if s.chance(1, 50) { 2000 } else { 12 };
    let steps = s.len(0, most);
    let mut log = gen::show_rules(&sy.names, &[rule(&h, vec![model[0].clone()])]);
    for _ in 0..steps {
        let new_body = |s: &mut Src| -> R<(ProductionBody, (Option<String>, Vec<usize>))> {
            let (c, w) = body(s, k);
            let string = sy.string(&w);
            Ok((
                match &c {
                    None if w.is_empty() && s.bool() => ProductionBody::empty(),
                    None => ProductionBody::new(string),
                    Some(c) => {
                        let v: f32 = c.parse().map_err(|_| Fail::Harness("probability".into()))?;
                        ProductionBody::try_with_chance(v, string).map_err(|e| Fail::Violation(format!("probability {c} was refused: {e}")))?
                    }
                },
                (c, w),
            ))
        };
        match s.below(3) {
            0 => {
                let (b, m) = new_body(s)?;
                log.push_str(&format!("; alternative {:?} {}", m.0, gen::show_word(&sy.names, &m.1)));
                sut("add_body", || p.add_body(b))?;
                model.push(m);
            }
            1 => {
                // Merging a rule, of the same head or of another.
                let oh = if s.bool() { h.clone() } else { relative(s, &h, k).0 };
                let n = s.small(1, 4);
                let mut o: Option<Production> = None;
                for _ in 0..n {
                    let (b, m) = new_body(s)?;
                    log.push_str(&format!("; merged {:?} {}", m.0, gen::show_word(&sy.names, &m.1)));
                    model.push(m);
                    match &mut o {
                        None => o = Some(Production::new(sy.head(&rule(&oh, vec![]))?, b)),
                        Some(x) => x.add_body(b),
                    }
                }
                let o = o.ok_or(Fail::Harness("no rule".into()))?;
                sut("merge", || p.merge(o))?;
            }
            _ => {
                // A copy is a rule of its own.
                let mut c = p.clone();
                let (b, _) = new_body(s)?;
                sut("add_body", || c.add_body(b))?;
                ensure!(c == p && c.all_bodies().len() == model.len() + 1, "{}: extending a copy gives {} alternatives", clip(&log, 600), c.all_bodies().len());
            }
        }
    }
    ctx.case(log.clone());
    ctx.nontrivial = model.len() >= 3;
    let what = clip(&log, 600);
    let all = p.all_bodies();
    ensure!(all.len() == model.len(), "{what}: {} alternatives, expected {}", all.len(), model.len());
    for (i, (b, (c, w))) in all.iter().zip(&model).enumerate() {
        ensure!(sy.word(b.string())? == *w && b.len() == w.len() && b.is_empty() == w.is_empty(), "{what}: alternative {i} is [{}]", b.string());
        ensure!(
            b.chance().is_user_set() == c.is_some() && b.chance().is_derived() == c.is_none(),
            "{what}: the probability of alternative {i} is {:?}, expected {c:?}",
            b.chance()
        );
        if let Some(c) = c {
            let want: f32 = c.parse().map_err(|_| Fail::Harness("probability".into()))?;
            ensure!(b.chance().unwrap_or(-1.0) == want, "{what}: the probability of alternative {i} is {:?}, expected {c}", b.chance());
        }
    }
    ensure!(p == original && original.all_bodies().len() == 1 && hash_of(&p) == hash_of(&original), "{what}: extending a rule changes its identity or its original");
    compare(&sy, &p, &h, &original, &h)
}

// P29

fn count(s: &mut Src) -> usize {
    match s.weighted(&[6, 2, 1, 1]) {
        0 => s.range(0, 12),
        1 => s.range(0, 100_000),
        2 => *s.pick(&[usize::MAX, usize::MAX - 1, u32::MAX as usize, u32::MAX as usize + 1, 255, 256, 65535, 65536, i64::MAX as usize]),
        _ => s.draw(u64::MAX) as usize,
    }
}

fn any_angle(s: &mut Src) -> f32 {
    if s.chance(1, 10) {
        *s.pick(&[f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX, f32::MIN_POSITIVE, -0.0, 1e-40])
    } else {
        turtle::angle(s)
    }
}

const COMMANDS: [&str; 7] = turtle::COMMANDS;

fn p29_settings(s: &mut Src, ctx: &mut Ctx) -> R {
    let (n, delta) = (count(s), any_angle(s));
    let (w, h) = (count(s), count(s));
    ctx.case(format!("n {n}, angle {delta}, size {w} x {h}"));
    let what = ctx.case.clone();
    let t = sut("AbopTurtleInterpretation::new", || AbopTurtleInterpretation::new(n, delta))?;
    ensure!(t.n() == n && t.delta().to_bits() == delta.to_bits(), "{what}: the turtle says n {} and angle {}", t.n(), t.delta());
    ensure!(sut("run_settings", || t.run_settings())?.max_iterations == n, "{what}: the turtle's settings run {} iterations", t.run_settings().max_iterations);
    let svg = sut("SvgPathInterpretation::new_with", || SvgPathInterpretation::new_with(w, h, t.clone()))?;
    ensure!(svg.width() == w && svg.height() == h, "{what}: the SVG interpretation is {} x {}", svg.width(), svg.height());
    ensure!(svg.run_settings().max_iterations == n, "{what}: the SVG interpretation runs {} iterations", svg.run_settings().max_iterations);
    let plain: AbopSvgInterpretation = sut("SvgPathInterpretation::new", || SvgPathInterpretation::new(w, h))?;
    ensure!(plain.width() == w && plain.height() == h, "{what}: the plain SVG interpretation is {} x {}", plain.width(), plain.height());
    let base = AbopTurtleInterpretation::default();
    ensure!(
        plain.run_settings().max_iterations == base.n() && base.run_settings().max_iterations == base.n() && AbopSvgInterpretation::default().run_settings().max_iterations == base.n(),
        "{what}: the default interpretations run different numbers of iterations"
    );
    ensure!(RunSettings::for_max_iterations(n).max_iterations == n && RunSettings::from(n).max_iterations == n, "{what}: settings for {n} iterations say otherwise");
    ensure!(NullInterpretation::default().run_settings().max_iterations == RunSettings::default().max_iterations, "{what}: the settings of the empty interpretation are not the default");
    // Deriving with the settings is n steps.
    let steps = s.range(0, 6);
    let k = s.range(1, 3);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let axiom = gen::word(s, k, 0, 6);
    let rules = gen::det_rules(s, k, &axiom, 4, 2, 1);
    let system = sy.system(&rules, 2)?;
    let mut want = axiom.clone();
    for _ in 0..steps {
        want = crate::model::step(&rules, &want);
    }
    ctx.nontrivial = n != base.n() && axiom.len() >= 2;
    let how = s.below(2);
    let settings = if how == 0 { AbopTurtleInterpretation::new(steps, delta).run_settings() } else { SvgPathInterpretation::new_with(w, h, AbopTurtleInterpretation::new(steps, delta)).run_settings() };
    let got = sut("derive", || system.derive(sy.string(&axiom), settings))?.map_err(|e| Fail::Violation(format!("{what}: deriving fails: {e}")))?;
    ensure!(
        sy.word(&got)? == want,
        "{what}: [{}] with {} derives to [{}] with the settings of a turtle of {steps} iterations, expected [{}]",
        gen::show_word(&sy.names, &axiom),
        gen::show_rules(&sy.names, &rules),
        clip(&got.to_string(), 300),
        clip(&gen::show_word(&sy.names, &want), 300)
    );
    Ok(())
}

/// An interpretation of one's own: a path for each symbol, a point in it for each command of the symbols that it is.
#[derive(Debug, Clone, Default)]
struct Own {
    n: usize,
    step: i64,
    fails: Option<(Refuses, u8, String)>,
}

/// The strings that an interpretation refuses.
#[derive(Debug, Clone)]
enum Refuses {
    With(Symbol),
    Length(usize),
    Shorter(usize),
    Longer(usize),
    All,
}

impl Refuses {
    fn refuses(&self, p: &ProductionString) -> bool {
        match self {
            Refuses::With(x) => p.iter().any(|y| y == x),
            Refuses::Length(n) => p.len() == *n,
            Refuses::Shorter(n) => p.len() < *n,
            Refuses::Longer(n) => p.len() > *n,
            Refuses::All => true,
        }
    }
}

impl Interpretation for Own {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> {
        let s = System::new();
        s.add_symbol("Own 29".replace(' ', "").as_str())?;
        Ok(s)
    }
    fn interpret<S: SymbolStore>(&self, symbols: &S, string: &ProductionString) -> rusty_systems::Result<Vec<Path>> {
        let mut v = Vec::new();
        if let Some((when, kind, msg)) = &self.fails {
            if when.refuses(string) {
                return Err(match kind {
                    0 => Error::execution(msg),
                    1 => Error::general(msg),
                    2 => Error::definition(msg),
                    3 => Error::parse_error(msg),
                    4 => std::io::Error::other(msg.clone()).into(),
                    _ => Error::new(rusty_systems::error::ErrorKind::Duplicate, msg),
                });
            }
        }
        for (i, x) in string.iter().enumerate() {
            let known = COMMANDS.iter().position(|c| symbols.get_symbol(c) == Some(*x)).map_or(-1, |j| j as i64);
            let mut p = Path::new();
            p.push(Point::new(i as f64, known as f64));
            p.push(Point::new((i as i64 + self.step) as f64, x.code() as f64));
            v.push(p);
        }
        Ok(v)
    }
    fn run_settings(&self) -> RunSettings {
        RunSettings::for_max_iterations(self.n)
    }
}

/// Gives a drawing, whatever it is asked.
#[derive(Debug, Clone, Default)]
struct Given(Vec<Vec<(f64, f64)>>);

impl Interpretation for Given {
    type Item = Vec<Path>;
    fn system() -> rusty_systems::Result<System> {
        Ok(System::new())
    }
    fn interpret<S: SymbolStore>(&self, _: &S, _: &ProductionString) -> rusty_systems::Result<Vec<Path>> {
        Ok(self.0.iter().map(|p| p.iter().map(|(x, y)| Point::new(*x, *y)).collect()).collect())
    }
}

fn p29_wrapped(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut names: Vec<String> = COMMANDS.iter().map(|x| x.to_string()).collect();
    names.push("P29other".into());
    let sy = Symbols::new(names)?;
    let system = System::new();
    for (i, x) in sy.syms.iter().enumerate() {
        if i == 0 || !s.chance(1, 8) {
            system.add_symbol(*x).map_err(|e| Fail::Violation(format!("a symbol was refused: {e}")))?;
        }
    }
    let word = gen::word(s, 8, 0, 40);
    let string = sy.string(&word);
    let (w, h) = (s.range(0, 3000), s.range(0, 3000));
    let fails = if s.chance(1, 4) {
        let len = word.len();
        let when = match s.below(5) {
            0 => Refuses::With(*s.pick(&sy.syms)),
            1 => Refuses::Length(len),
            2 => Refuses::Shorter(s.range(0, 3)),
            3 => Refuses::Longer(s.range(0, 30)),
            _ => Refuses::All,
        };
        Some((when, s.below(6) as u8, format!("no {}", gen::name(s))))
    } else {
        None
    };
    let own = Own { n: count(s), step: s.irange(-5, 50), fails };
    let kind = s.below(2);
    let (n, delta) = (s.range(0, 9), turtle::angle(s));
    ctx.case(format!("[{}] {w} x {h}, {}", gen::show_word(&sy.names, &word), if kind == 0 { format!("{own:?}") } else { format!("turtle {delta}") }));
    ctx.nontrivial = word.len() >= 2;
    let what = clip(&ctx.case, 500);
    let (direct, wrapped, default_direct, default_wrapped): (rusty_systems::Result<Vec<Path>>, rusty_systems::Result<Svg>, _, _) = if kind == 0 {
        let svg = SvgPathInterpretation::new_with(w, h, own.clone());
        ensure!(svg.run_settings().max_iterations == own.n, "{what}: runs {} iterations", svg.run_settings().max_iterations);
        (
            own.interpret(&system, &string),
            sut("interpret", || svg.interpret(&system, &string))?,
            (Own::default().interpret(&system, &string), sut("default_interpret", || Own::default_interpret(&system, &string))?),
            (
                sut("interpret", || SvgPathInterpretation::<Own>::default().interpret(&system, &string))?,
                sut("default_interpret", || SvgPathInterpretation::<Own>::default_interpret(&system, &string))?,
            ),
        )
    } else {
        let t = AbopTurtleInterpretation::new(n, delta);
        let svg = SvgPathInterpretation::new_with(w, h, t.clone());
        (
            sut("interpret", || t.interpret(&system, &string))?,
            sut("interpret", || svg.interpret(&system, &string))?,
            (
                sut("interpret", || AbopTurtleInterpretation::default().interpret(&system, &string))?,
                sut("default_interpret", || AbopTurtleInterpretation::default_interpret(&system, &string))?,
            ),
            (sut("interpret", || AbopSvgInterpretation::default().interpret(&system, &string))?, sut("default_interpret", || AbopSvgInterpretation::default_interpret(&system, &string))?),
        )
    };
    let pts = |v: &[Path]| -> Vec<Vec<(f64, f64)>> { v.iter().map(|p| p.iter().map(|q| (q.x(), q.y())).collect()).collect() };
    let text = |v: &Svg| sut("to_svg", || v.to_svg());
    match (&direct, &wrapped) {
        (Ok(d), Ok(v)) => {
            ctx.label("drawn");
            // The SVG of the same drawing, given directly.
            let svg = SvgPathInterpretation::new_with(w, h, Given(pts(d)));
            let want = sut("interpret", || svg.interpret(&system, &string))?.map_err(|e| Fail::Violation(format!("{what}: the drawing given directly is refused: {e}")))?;
            let (got, want) = (text(v)?, text(&want)?);
            ensure!(got == want, "{what}: the SVG is {}, and that of the same drawing given directly {}", clip(&got, 600), clip(&want, 600));
        }
        (Err(d), Err(v)) => {
            ctx.label("refused");
            ensure!(v.to_string().contains(&d.to_string()), "{what}: the interpretation fails with {d:?}, the SVG with {v:?}");
        }
        (Ok(_), Err(e)) => violated!("{what}: the drawing is made, its SVG fails: {e}"),
        (Err(e), Ok(v)) => violated!("{what}: the interpretation fails ({e}), but there is an SVG: {}", clip(&v.to_svg(), 300)),
    }
    match default_direct {
        (Ok(a), Ok(b)) => ensure!(pts(&a) == pts(&b), "{what}: default_interpret draws {}, the default interpretation {}", clip(&format!("{b:?}"), 300), clip(&format!("{a:?}"), 300)),
        (Err(a), Err(b)) => ensure!(a.to_string() == b.to_string(), "{what}: default_interpret fails with {b}, the default interpretation with {a}"),
        (a, b) => violated!("{what}: default_interpret gives {}, the default interpretation {}", clip(&format!("{b:?}"), 300), clip(&format!("{a:?}"), 300)),
    }
    match default_wrapped {
        (Ok(a), Ok(b)) => {
            let (a, b) = (text(&a)?, text(&b)?);
            ensure!(a == b, "{what}: default_interpret gives the SVG {}, the default interpretation {}", clip(&b, 300), clip(&a, 300));
        }
        (Err(a), Err(b)) => ensure!(a.to_string() == b.to_string(), "{what}: default_interpret fails with {b}, the default interpretation with {a}"),
        (a, b) => violated!("{what}: default_interpret gives {}, the default interpretation {}", clip(&format!("{b:?}"), 300), clip(&format!("{a:?}"), 300)),
    }
    sut("interpret", || NullInterpretation::default().interpret(&system, &string))?.map_err(|e| Fail::Violation(format!("{what}: the empty interpretation fails: {e}")))?;
    Ok(())
}

fn p29_systems(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 5);
    let mut names = gen::alphabet(s, k);
    names.retain(|n| !COMMANDS.contains(&n.as_str()));
    let n = s.len(1, 8);
    let mut kept: Vec<(System, usize, HashSet<String>, usize)> = Vec::new();
    let mut log = String::new();
    let mut added = 0;
    for _ in 0..n {
        let kind = s.below(4);
        log.push_str(["turtle; ", "svg; ", "own; ", "none; "][kind]);
        ctx.case(log.clone());
        let system = match kind {
            0 => sut("system", AbopTurtleInterpretation::system)?,
            1 => sut("system", AbopSvgInterpretation::system)?,
            2 => sut("system", SvgPathInterpretation::<Own>::system)?,
            _ => sut("system", NullInterpretation::system)?,
        }
        .map_err(|e| Fail::Violation(format!("{log}: no system: {e}")))?;
        let vocabulary: HashSet<String> = match kind {
            0 | 1 => COMMANDS.iter().map(|x| x.to_string()).collect(),
            2 => ["Own29".to_string()].into(),
            _ => HashSet::new(),
        };
        kept.push((system, kind, vocabulary, 0));
        // Additions to one of the systems.
        let more = s.small(0, 3);
        for _ in 0..more {
            let i = s.below(kept.len());
            let (sys, _, set, rules) = &mut kept[i];
            if names.is_empty() {
                break;
            }
            added += 1;
            let name = s.pick(&names).clone();
            log.push_str(&format!("add {name} to {i}; "));
            if s.bool() {
                sys.add_symbol(name.as_str()).map_err(|e| Fail::Violation(format!("{log}: refused: {e}")))?;
            } else {
                let fresh = format!("P29r{}", *rules);
                sys.add_production(format!("{fresh} -> {name} Forward")).map_err(|e| Fail::Violation(format!("{log}: refused: {e}")))?;
                set.insert(fresh);
                set.insert("Forward".to_string());
                *rules += 1;
            }
            set.insert(name);
        }
        for (i, (sys, _, set, rules)) in kept.iter().enumerate() {
            let what = clip(&log, 600);
            ensure!(sys.symbol_len() == set.len(), "{what}: system {i} has {} symbols, expected {}", sys.symbol_len(), set.len());
            ensure!(sys.production_len() == *rules, "{what}: system {i} has {} rules, expected {rules}", sys.production_len());
            for name in COMMANDS.iter().map(|x| x.to_string()).chain(names.iter().cloned()).chain(["Own29".to_string()]) {
                let got = sut("get_symbol", || sys.get_symbol(&name))?;
                ensure!(got.is_some() == set.contains(&name), "{what}: system {i} finds {name:?}: {}", got.is_some());
            }
        }
    }
    ctx.case(log);
    ctx.nontrivial = kept.len() >= 2 && added > 0;
    Ok(())
}

// P30

fn message(s: &mut Src) -> String {
    match s.weighted(&[3, 4, 2, 1]) {
        0 => gen::name(s),
        1 => {
            let n = s.small(0, 30);
            (0..n).map(|_| gen::any_char(s)).collect()
        }
        2 => {
            let n = s.range(1, 4);
            (0..n).map(|_| format!("{}{}", gen::name(s), gen::white(s, 0))).collect()
        }
        _ => {
            let n = s.range(100, 20_000);
            let t = gen::name(s);
            t.chars().cycle().take(n).collect()
        }
    }
}

fn p30_made(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = message(s);
    p30_check(s, m, ctx)
}

fn p30_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = gen::huge_len(s);
    let t = gen::name(s);
    let r = p30_check(s, t.chars().cycle().take(n).chain("the end".chars()).collect(), ctx);
    ctx.case(format!("{} ... of {n} characters", clip(&ctx.case, 100)));
    ctx.nontrivial = true;
    r
}

fn p30_check(s: &mut Src, m: String, ctx: &mut Ctx) -> R {
    let how = s.below(12);
    ctx.case(format!("{how} {m:?}"));
    let what = clip(&ctx.case, 300);
    ctx.nontrivial = (!m.is_empty() && !m.is_ascii()) || (6..=10).contains(&how);
    // What the error must display, and its cause.
    let (e, want, cause): (Error, String, Option<String>) = match how {
        0 => (sut("Error::general", || Error::general(&m))?, m.clone(), None),
        1 => (sut("Error::parse_error", || Error::parse_error(m.clone()))?, m.clone(), None),
        2 => (sut("Error::execution", || Error::execution(m.as_str()))?, m.clone(), None),
        3 => (sut("Error::definition", || Error::definition(&m))?, m.clone(), None),
        4 | 5 => {
            let kind = s.pick(&[ErrorKind::General, ErrorKind::Parse, ErrorKind::Definitions, ErrorKind::Duplicate, ErrorKind::Execution, ErrorKind::Locking, ErrorKind::Io, ErrorKind::Infallible]).clone();
            (sut("Error::new", || Error::new(kind, &m))?, m.clone(), None)
        }
        6 => {
            let code = s.range(1, 140) as i32;
            let io = std::io::Error::from_raw_os_error(code);
            let t = io.to_string();
            (sut("Error::from", || Error::from(io))?, t.clone(), Some(t))
        }
        7 => {
            let kinds = [std::io::ErrorKind::NotFound, std::io::ErrorKind::Other, std::io::ErrorKind::InvalidData, std::io::ErrorKind::UnexpectedEof];
            let io = std::io::Error::new(*s.pick(&kinds), m.clone());
            (sut("Error::from", || Error::from(io))?, m.clone(), Some(m.clone()))
        }
        8 => {
            let bad = *s.pick(&["", "x", "-", "-1", "1.0", "999999999999999999999999", "１"]);
            let n = bad.parse::<u8>().err().ok_or(Fail::Harness("a number".into()))?;
            let t = n.to_string();
            (sut("Error::from", || Error::from(n))?, t.clone(), Some(t))
        }
        9 => {
            let bad = *s.pick(&["", "x", "-", "1,0", "0x1", "１"]);
            let n = bad.parse::<f32>().err().ok_or(Fail::Harness("a number".into()))?;
            let t = n.to_string();
            (sut("Error::from", || Error::from(n))?, t.clone(), Some(t))
        }
        10 => {
            let p = std::sync::PoisonError::new(m.clone());
            let t = p.to_string();
            (sut("Error::from", || Error::from(p))?, t, None)
        }
        _ => {
            let e = sut("Error::default", Error::default)?;
            let t = e.to_string();
            ensure!(!t.is_empty(), "an unspecified error displays nothing");
            (e, t, None)
        }
    };
    for (e, who) in [(e.clone(), "a copy of it"), (e, "it")] {
        let got = sut("displaying an error", || e.to_string())?;
        ensure!(got.contains(&want), "error {what}: {who} displays {:?}, expected {:?}", clip(&got, 300), clip(&want, 300));
        let source = sut("the cause of an error", || e.source().map(|x| x.to_string()))?;
        if how != 10 {
            ensure!(source == cause, "error {what}: the cause of {who} is {source:?}, expected {cause:?}");
        }
        let boxed: Box<dyn std::error::Error> = Box::new(e);
        ensure!(boxed.to_string() == got, "error {what}: boxed it displays {:?}", clip(&boxed.to_string(), 300));
        ensure!(!format!("{boxed:?}").is_empty(), "error {what}: nothing for debugging");
    }
    Ok(())
}

/// Something that is to become a rule or symbol and fails with an error of its own.
struct Bad(String);
struct Mine(String);

impl From<Mine> for Error {
    fn from(m: Mine) -> Error {
        Error::general(m.0)
    }
}

impl TryFrom<Bad> for Production {
    type Error = Mine;
    fn try_from(b: Bad) -> Result<Production, Mine> {
        Err(Mine(b.0))
    }
}

impl TryFrom<Bad> for Symbol {
    type Error = Mine;
    fn try_from(b: Bad) -> Result<Symbol, Mine> {
        Err(Mine(b.0))
    }
}

fn p30_stores(s: &mut Src, ctx: &mut Ctx) -> R {
    let m = message(s);
    let how = s.below(4);
    ctx.case(format!("{how} {m:?}"));
    ctx.nontrivial = !m.is_empty();
    let what = clip(&ctx.case, 300);
    let system = System::new();
    let rules = RefCell::new(Vec::<Production>::new());
    let set = RefCell::new(HashSet::<u32>::new());
    system.add_production("P30a -> P30b").map_err(|e| Fail::Violation(format!("refused: {e}")))?;
    let e = match how {
        0 => sut("add_production", || system.add_production(Bad(m.clone())).map(|_| ()))?,
        1 => sut("add_symbol", || system.add_symbol(Bad(m.clone())).map(|_| ()))?,
        2 => sut("add_production", || rules.add_production(Bad(m.clone())).map(|_| ()))?,
        _ => sut("add_symbol", || set.add_symbol(Bad(m.clone())).map(|_| ()))?,
    };
    match e {
        Ok(()) => violated!("{what}: something that is no rule or symbol was accepted"),
        Err(e) => ensure!(e.to_string() == m, "{what}: the error reads {:?}", clip(&e.to_string(), 300)),
    }
    ensure!(system.symbol_len() == 2 && system.production_len() == 1 && rules.borrow().is_empty() && set.borrow().is_empty(), "{what}: a refused addition changed something");
    // The store still works.
    let p = sut("add_production", || system.add_production("P30a -> P30c"))?.map_err(|e| Fail::Violation(format!("{what}: afterwards a rule is refused: {e}")))?;
    ensure!(p.all_bodies().len() == 2 && system.symbol_len() == 3, "{what}: afterwards a rule has {} alternatives", p.all_bodies().len());
    Ok(())
}
