//! P07, P08, P09: matching and rewriting without random choice.

use crate::gen::{self, Symbols};
use crate::model::{self, Rule};
use engine::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::system;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P07",
            rule: "Heads (left and right context of 0-2 symbols, absent or present but empty, over two symbols), strings of up to 4 symbols and indices up to two past the end are enumerated completely; \
                   random heads take contexts of up to 1000 symbols from the text around a position, sometimes spoiled in one place, and every position of the string and indices far outside are asked; 'huge' has strings of up to 200000 symbols and contexts of up to 100000, 'far' contexts of up to 300000 symbols that differ from the text in one place or none. Random rule lists are looked up with find_matching. \
                   Non-trivial: the head has a context and the position is inside the string (enumeration), or some position matches and some other with the same target does not (random).",
            assumptions: &[],
            phases: vec![
                Phase { name: "enumerate", kind: Kind::Walk, quick: 4_000_000, thorough: 40_000_000, f: p07_enumerate },
                Phase { name: "random", kind: Kind::Random, quick: 2_000_000, thorough: 20_000_000, f: p07_random },
                Phase { name: "find-matching", kind: Kind::Random, quick: 800_000, thorough: 8_000_000, f: p07_find },
                Phase { name: "huge", kind: Kind::Random, quick: 240, thorough: 2_400, f: p07_huge },
                Phase { name: "far", kind: Kind::Random, quick: 160, thorough: 1_600, f: p07_far },
            ],
        },
        Prop {
            id: "P08",
            rule: "Rule sets (0-8 rules with different heads, contexts mostly taken from the text, empty to 4-symbol replacements, the same symbols in several overlapping heads) and a string of up to 3000 symbols (a few: 600 rules, 200000 symbols; or up to 300000 rules handed to the free functions); one step through \
                   System::derive_once, System::derive with one iteration and the free functions, with rules added as text, owned text or built values, is compared with a reference rewriter. A small space is enumerated. \
                   Non-trivial: at least one position is rewritten and, where two rules match one position, their replacements differ.",
            assumptions: &["rules with different heads, as System stores them"],
            phases: vec![
                Phase { name: "enumerate", kind: Kind::Walk, quick: 3_000_000, thorough: 40_000_000, f: p08_enumerate },
                Phase { name: "random", kind: Kind::Random, quick: 750_000, thorough: 18_000_000, f: p08_random },
                Phase { name: "large", kind: Kind::Random, quick: 1_800, thorough: 36_000, f: p08_large },
                Phase { name: "huge", kind: Kind::Random, quick: 80, thorough: 1_200, f: p08_huge },
                Phase { name: "many-rules", kind: Kind::Random, quick: 48, thorough: 720, f: p08_many },
            ],
        },
        Prop {
            id: "P09",
            rule: "A rule set without alternatives and a string; the n-fold derivation is compared with a reference rewriter, with n single steps, with a+b splits, with a repetition, with a second system, with the free functions and (context-free rules) \
                   with the concatenation of the derivations of its parts. Growth is bounded by stopping the reference at 30000 symbols (in a few cases 12 million); a few cases have up to 150000 iterations. Non-trivial: n is at least 2 and two successive strings of the derivation differ.",
            assumptions: &["derivations that stay below 12 million symbols"],
            phases: vec![
                Phase { name: "random", kind: Kind::Random, quick: 630_000, thorough: 6_300_000, f: p09_random },
                Phase { name: "many-iterations", kind: Kind::Random, quick: 21_000, thorough: 210_000, f: p09_many },
                Phase { name: "large", kind: Kind::Random, quick: 2_100, thorough: 21_000, f: p09_large },
                Phase { name: "endless", kind: Kind::Random, quick: 48, thorough: 720, f: p09_endless },
                Phase { name: "huge", kind: Kind::Random, quick: 32, thorough: 320, f: p09_huge },
            ],
        },
    ]
}

fn two() -> R<Symbols> {
    Symbols::new(vec!["A".into(), "B".into()])
}

// ---------------------------------------------------------------------------------------- P07

/// Context number 0..8: absent, empty, A, B, AA, AB, BA, BB.
fn small_ctx(s: &mut Src) -> Option<Vec<usize>> {
    match s.below(8) {
        0 => None,
        1 => Some(vec![]),
        2 => Some(vec![0]),
        3 => Some(vec![1]),
        n => Some(vec![(n - 4) / 2, (n - 4) % 2]),
    }
}

fn build_head(sy: &Symbols, pre: &Option<Vec<usize>>, target: usize, post: &Option<Vec<usize>>) -> R<ProductionHead> {
    let f = |c: &Option<Vec<usize>>| c.as_ref().map(|w| sy.string(w));
    let (a, b) = (f(pre), f(post));
    sut("ProductionHead::build", || ProductionHead::build(a, sy.syms[target], b))?.map_err(|e| Fail::Violation(format!("a rule head was refused: {e}")))
}

fn as_rule(pre: &Option<Vec<usize>>, target: usize, post: &Option<Vec<usize>>) -> Rule {
    Rule { pre: pre.clone().unwrap_or_default(), target, post: post.clone().unwrap_or_default(), bodies: vec![(None, vec![])] }
}

fn p07_ask(sy: &Symbols, head: &ProductionHead, rule: &Rule, string: &ProductionString, w: &[usize], i: usize, by_rule: bool) -> R<bool> {
    let got = if by_rule {
        let p = Production::new(head.clone(), ProductionBody::empty());
        sut("matches", || p.matches(string, i))
    } else {
        sut("matches", || head.matches(string, i))
    };
    let show = || format!("{:?} at index {i} of {:?}", gen::rule_text(&sy.names, rule, 0), clip(&gen::show_word(&sy.names, w), 400));
    let got = match got {
        Ok(g) => g,
        Err(Fail::Violation(m)) => violated!("{}: {m}", show()),
        Err(e) => return Err(e),
    };
    let want = rule.matches(w, i);
    ensure!(got == want, "{} matches: {got}, expected {want}", show());
    if i < w.len() {
        // Each context on its own.
        let pre = i >= rule.pre.len() && w[i - rule.pre.len()..i] == rule.pre[..];
        let post = w[i + 1..].starts_with(&rule.post);
        let got = sut("pre_matches", || head.pre_matches(string, i))?;
        ensure!(got == pre, "{}: the left context matches: {got}, expected {pre}", show());
        let got = sut("post_matches", || head.post_matches(string, i))?;
        ensure!(got == post, "{}: the right context matches: {got}, expected {post}", show());
    }
    Ok(want)
}

fn p07_enumerate(s: &mut Src, ctx: &mut Ctx) -> R {
    let pre = small_ctx(s);
    let post = small_ctx(s);
    let target = s.below(2);
    let n = s.below(5);
    let i = s.below(n + 2);
    let mut w = Vec::new();
    for _ in 0..n {
        w.push(s.below(2));
    }
    let sy = two()?;
    let head = build_head(&sy, &pre, target, &post)?;
    let rule = as_rule(&pre, target, &post);
    ctx.case(format!("{pre:?} {target} {post:?} on {w:?} at {i}"));
    ctx.nontrivial = i < n && !(rule.pre.is_empty() && rule.post.is_empty());
    let by_rule = s.bool();
    let m = p07_ask(&sy, &head, &rule, &sy.string(&w), &w, i, by_rule)?;
    ctx.label(if m { "match" } else { "no match" });
    ctx.label_if(i >= n, "outside the string");
    Ok(())
}

fn p07_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 4);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 0, 2500);
    let max = if w.len() > 64 { 1000 } else { 12 };
    let (pre, target, post) = gen::head(s, k, &w, max);
    let opt = |s: &mut Src, v: &Vec<usize>| if v.is_empty() && s.bool() { None } else { Some(v.clone()) };
    let (pre, post) = (opt(s, &pre), opt(s, &post));
    let head = build_head(&sy, &pre, target, &post)?;
    let rule = as_rule(&pre, target, &post);
    let string = sy.string(&w);
    ctx.case(format!("{} on {:?}", gen::rule_text(&sy.names, &rule, 0), gen::show_word(&sy.names, &w)));
    let mut yes = 0;
    let mut no = 0;
    // All positions of short strings; in long ones those around candidates and the ends.
    let step = 1 + w.len() / 200;
    let mut idx: Vec<usize> = (0..w.len()).step_by(step).collect();
    idx.extend([0, 1, rule.pre.len(), rule.pre.len() + 1, w.len().saturating_sub(1), w.len().saturating_sub(rule.post.len()), w.len().saturating_sub(rule.post.len() + 1), w.len(), w.len() + 1]);
    if let Some(c) = (0..w.len()).find(|i| rule.matches(&w, *i)) {
        idx.extend([c, c.saturating_sub(1), c + 1]);
    }
    idx.extend([usize::MAX, usize::MAX - 1, w.len() + s.below(1000)]);
    idx.sort();
    idx.dedup();
    for i in idx {
        let m = p07_ask(&sy, &head, &rule, &string, &w, i, i % 2 == 0)?;
        if i < w.len() && w[i] == target {
            if m {
                yes += 1
            } else {
                no += 1
            }
        }
        ctx.inner += 1;
    }
    ctx.nontrivial = yes > 0 && no > 0;
    ctx.label_if(yes > 0, "matches somewhere");
    ctx.label_if(rule.pre.len() > 12 || rule.post.len() > 12, "context longer than 12");
    ctx.label_if(!rule.pre.is_empty() && !rule.post.is_empty(), "both contexts");
    Ok(())
}

fn p07_find(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 4);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 0, 60);
    let rules = gen::det_rules(s, k, &w, 12, 3, 4);
    let prods = sy.productions(&rules)?;
    let string = sy.string(&w);
    ctx.case(format!("{} on {:?}", gen::show_rules(&sy.names, &rules), gen::show_word(&sy.names, &w)));
    let mut several = false;
    for i in 0..w.len() + 2 {
        let got = sut("find_matching", || system::find_matching(&prods, &string, i))?;
        let want = model::rule_for(&rules, &w, i);
        several |= rules.iter().filter(|r| r.matches(&w, i)).count() > 1;
        let got = got.map(|p| prods.iter().position(|q| std::ptr::eq(p, q)).or_else(|| prods.iter().position(|q| q == p)).unwrap_or(usize::MAX));
        ensure!(got == want, "at index {i} of {:?} the rules {} give rule {got:?}, expected {want:?}", gen::show_word(&sy.names, &w), gen::show_rules(&sy.names, &rules));
    }
    ctx.nontrivial = several;
    Ok(())
}

/// A long word that repeats a few symbols, spoiled in a few places.
fn long_word(s: &mut Src, k: usize, max: usize) -> Vec<usize> {
    let n = match s.below(3) {
        0 => s.range(60_000, 70_000).min(max),
        _ => s.range(1_000, max),
    };
    let p = s.range(1, 12);
    let base: Vec<usize> = (0..p).map(|_| s.below(k)).collect();
    let mut w: Vec<usize> = (0..n).map(|i| base[i % p]).collect();
    let flips = s.below(6);
    for _ in 0..flips {
        let i = s.below(n);
        w[i] = s.below(k);
    }
    w
}

fn p07_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 4);
    let sy = Symbols::new((0..k).map(|i| format!("H{i}")).collect())?;
    let w = long_word(s, k, 200_000);
    let at = s.below(w.len());
    let size = |s: &mut Src| match s.below(4) {
        0 => s.below(3),
        1 => s.range(200, 1_000),
        2 => s.range(65_500, 65_600),
        _ => s.below(100_000),
    };
    let (a, b) = (size(s), size(s));
    let mut pre = w[at.saturating_sub(a)..at].to_vec();
    let mut post = w[at + 1..(at + 1 + b).min(w.len())].to_vec();
    if s.chance(1, 3) {
        let c = if s.bool() { &mut pre } else { &mut post };
        if !c.is_empty() {
            let i = *s.pick(&[0, c.len() - 1, c.len() / 2, c.len() / 3]);
            c[i] = s.below(k);
        }
    }
    let (pre, post) = (Some(pre), Some(post));
    let rule = as_rule(&pre, w[at], &post);
    let head = build_head(&sy, &pre, w[at], &post)?;
    let string = sy.string(&w);
    ctx.case(format!("contexts of {} and {} symbols on {} symbols at {at}, hash {:x}", rule.pre.len(), rule.post.len(), w.len(), hash64(format!("{rule:?}{w:?}").as_bytes())));
    let mut idx = vec![at, at + 1, at.wrapping_sub(1), 0, w.len() - 1, w.len(), usize::MAX, at & 0xffff, at + 65_536];
    for _ in 0..12 {
        idx.push(s.below(w.len()));
    }
    let mut yes = false;
    for i in idx {
        yes |= p07_ask(&sy, &head, &rule, &string, &w, i, i % 2 == 0)?;
        ctx.inner += 1;
    }
    ctx.nontrivial = rule.pre.len() + rule.post.len() > 256;
    ctx.label_if(yes, "matches somewhere");
    Ok(())
}

/// One very long context that matches, or fails in one place only.
fn p07_far(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 4);
    let sy = Symbols::new((0..k).map(|i| format!("H{i}")).collect())?;
    let n = gen::huge_len(s);
    let p = s.range(1, 5);
    let base: Vec<usize> = (0..p).map(|_| s.below(k)).collect();
    let (before, after) = (s.below(4), s.below(4));
    let w: Vec<usize> = (0..before + n + 1 + after).map(|i| base[i % p]).collect();
    let left = s.bool();
    let at = if left { before + n } else { before };
    let mut c = if left { w[before..at].to_vec() } else { w[at + 1..at + 1 + n].to_vec() };
    // The places are counted from the target outwards.
    let place = match s.weighted(&[2, 3, 2, 2]) {
        0 => None,
        1 => Some(n - 1 - s.below(3)),
        2 => Some(*s.pick(&[65_535, 65_536, 65_534, 32_768, 65_537])).filter(|x| *x < n),
        _ => Some(s.below(n)),
    };
    if let Some(x) = place {
        let i = if left { n - 1 - x } else { x };
        c[i] = (c[i] + s.range(1, k - 1)) % k;
    }
    let (pre, post) = if left { (Some(c), None) } else { (None, Some(c)) };
    let rule = as_rule(&pre, w[at], &post);
    let head = build_head(&sy, &pre, w[at], &post)?;
    let string = sy.string(&w);
    ctx.case(format!("a {} context of {n} symbols that differs at {place:?}, on {} symbols of period {p}, target at {at}, hash {:x}", if left { "left" } else { "right" }, w.len(), hash64(format!("{rule:?}{w:?}").as_bytes())));
    let mut yes = false;
    for i in [at, at.wrapping_sub(1), at + 1, at.wrapping_sub(p), at + p] {
        yes |= p07_ask(&sy, &head, &rule, &string, &w, i, i % 2 == 0)?;
        ctx.inner += 1;
    }
    ctx.nontrivial = place.is_some() || yes;
    ctx.label_if(yes, "matches somewhere");
    ctx.label_if(place.map_or(false, |x| x > 65_535), "differs beyond 65535 symbols");
    Ok(())
}

// ---------------------------------------------------------------------------------------- P08

fn single_step(s: &mut Src, sy: &Symbols, rules: &[Rule], w: &[usize], ctx: &mut Ctx) -> R {
    let want = model::step(rules, w);
    let start = sy.string(w);
    let how_added = s.below(3);
    let system = sy.system(rules, how_added)?;
    let prods = sy.productions(rules)?;
    let describe = |w: &[usize]| clip(&gen::show_word(&sy.names, w), 500);
    let route = s.below(4);
    let got = match route {
        0 => sut("System::derive_once", || system.derive_once(start.clone()))?,
        1 => sut("System::derive", || system.derive(start.clone(), RunSettings::for_max_iterations(1)))?,
        2 => sut("derive_once", || system::derive_once(start.clone(), &prods))?,
        _ => sut("derive", || system::derive(start.clone(), &prods, RunSettings::from(1)))?,
    };
    let got = match got {
        Ok(g) => sy.word(&g)?,
        Err(e) => violated!("one step on {:?} with {} failed: {e}", describe(w), gen::show_rules(&sy.names, rules)),
    };
    ensure!(
        got == want,
        "one step (way {route}) on {:?} with {} gives {:?}, expected {:?}",
        describe(w),
        gen::show_rules(&sy.names, rules),
        describe(&got),
        describe(&want)
    );
    let fired = (0..w.len()).filter(|i| model::rule_for(rules, w, *i).is_some()).count();
    let contested = (0..w.len().min(500)).any(|i| {
        let m: Vec<_> = rules.iter().filter(|r| r.matches(w, i)).collect();
        m.len() > 1 && m[1..].iter().any(|r| r.bodies[0].1 != m[0].bodies[0].1)
    });
    ctx.nontrivial = fired > 0;
    ctx.label_if(fired > 0, "some position rewritten");
    ctx.label_if(fired < w.len(), "some position kept");
    ctx.label_if(contested, "several rules match one position");
    ctx.label_if(want.is_empty() && !w.is_empty(), "everything deleted");
    ctx.label_if(rules.iter().any(|r| !r.pre.is_empty() || !r.post.is_empty()), "context rule");
    Ok(())
}

fn p08_enumerate(s: &mut Src, ctx: &mut Ctx) -> R {
    // Two rules over two symbols with contexts of at most one symbol and replacements of at most two.
    let sy = two()?;
    let mut rules: Vec<Rule> = Vec::new();
    let bodies: [&[usize]; 4] = [&[], &[1], &[0, 1], &[1, 0]];
    let c = |s: &mut Src| match s.below(3) {
        0 => vec![],
        n => vec![n - 1],
    };
    for _ in 0..2 {
        let pre = c(s);
        let post = c(s);
        let target = s.below(2);
        let body = bodies[s.below(4)].to_vec();
        rules.push(Rule { pre, target, post, bodies: vec![(None, body)] });
    }
    let n = s.below(5);
    let w: Vec<usize> = (0..n).map(|_| s.below(2)).collect();
    if rules[0].same_head(&rules[1]) {
        return Err(Fail::Discard);
    }
    ctx.case(format!("{} on {w:?}", gen::show_rules(&sy.names, &rules)));
    single_step(s, &sy, &rules, &w, ctx)
}

fn p08_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 5);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 0, 300);
    let rules = gen::det_rules(s, k, &w, 8, 4, 5);
    ctx.case(format!("{} on {:?}", gen::show_rules(&sy.names, &rules), gen::show_word(&sy.names, &w)));
    single_step(s, &sy, &rules, &w, ctx)
}

fn p08_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 60);
    let names = (0..k).map(|i| format!("L{i}")).collect();
    let sy = Symbols::new(names)?;
    let n = s.range(800, 3000);
    let p = s.range(1, 40);
    let base: Vec<usize> = (0..p).map(|_| s.below(k)).collect();
    let w: Vec<usize> = if s.bool() { (0..n).map(|i| base[i % p]).collect() } else { (0..n).map(|_| s.below(k)).collect() };
    let count = s.range(1, 80);
    let mut rules: Vec<Rule> = Vec::new();
    for _ in 0..count {
        let (pre, target, post) = gen::head(s, k, &w, 70);
        let nb = s.small(0, 300);
        let r = Rule { pre, target, post, bodies: vec![(None, (0..nb).map(|_| s.below(k)).collect())] };
        if !rules.iter().any(|o| o.same_head(&r)) {
            rules.push(r);
        }
    }
    ctx.case(format!("{} rules on {} symbols, hash {:x}", rules.len(), w.len(), hash64(format!("{rules:?}{w:?}").as_bytes())));
    single_step(s, &sy, &rules, &w, ctx)
}

fn p08_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = if s.bool() { s.range(2, 6) } else { s.range(250, 700) };
    let sy = Symbols::new((0..k).map(|i| format!("L{i}")).collect())?;
    let count = if s.bool() { s.range(1, 8) } else { s.range(200, 600) };
    let max = if s.chance(1, 3) { 20_000 } else { 200_000 };
    let w = if count > 8 { (0..s.range(500, 3000)).map(|_| s.below(k)).collect() } else { long_word(s, k, max) };
    let mut rules: Vec<Rule> = Vec::new();
    for _ in 0..count {
        // A context costs time in proportion to the position, for every position.
        let (mut pre, target, post) = gen::head(s, k, &w, 300);
        if w.len() > 20_000 || (w.len() > 3_000 && count > 3) {
            pre.clear();
        }
        let nb = if count > 8 || s.chance(3, 4) { s.below(4) } else { s.range(100, 1_000) };
        let r = Rule { pre, target, post, bodies: vec![(None, (0..nb).map(|_| s.below(k)).collect())] };
        if !rules.iter().any(|o| o.same_head(&r)) {
            rules.push(r);
        }
    }
    ctx.case(format!("{} rules on {} symbols, hash {:x}", rules.len(), w.len(), hash64(format!("{rules:?}{w:?}").as_bytes())));
    if w.iter().filter(|x| rules.iter().any(|r| r.target == **x && r.bodies[0].1.len() > 50)).count() > 3_000 {
        return Err(Fail::Discard);
    }
    single_step(s, &sy, &rules, &w, ctx)
}

/// Very many rules, as a list for the free functions; the reference is a table.
fn p08_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = gen::huge_len(s);
    // Each pair (left context, target) has its own rule; some targets also have one without context, which comes later.
    let k = (n as f64).sqrt() as usize + 1;
    let sy = Symbols::new((0..k).map(|i| format!("M{i}")).collect())?;
    let step = s.range(1, 50);
    let number = |pre: usize, target: usize| (pre * k + target + step) % (k * k);
    let body = |r: usize| vec![sy.syms[r % k], sy.syms[(r / k) % k]];
    let mut rules = Vec::with_capacity(n + k);
    let mut numbered: Vec<(usize, Vec<usize>, usize)> = Vec::with_capacity(n);
    for pre in 0..k {
        for target in 0..k {
            numbered.push((number(pre, target), vec![pre], target));
        }
    }
    numbered.sort();
    numbered.truncate(n);
    let free = s.bool();
    for (r, pre, target) in &numbered {
        let head = ProductionHead::build(Some(sy.string(pre)), sy.syms[*target], None).map_err(|e| Fail::Violation(format!("a rule head was refused: {e}")))?;
        rules.push(Production::new(head, ProductionBody::new(ProductionString::from(body(*r)))));
    }
    if free {
        for t in (0..k).step_by(2) {
            rules.push(Production::new(ProductionHead::build(None, sy.syms[t], None).map_err(|e| Fail::Violation(format!("a rule head was refused: {e}")))?, ProductionBody::empty()));
        }
    }
    // A text whose pairs ask for rules all over the list, often the last ones.
    let len = s.range(6, 20);
    let mut w: Vec<usize> = vec![s.below(k)];
    while w.len() < len {
        if s.bool() {
            let (_, pre, target) = &numbered[n - 1 - s.below((n / 8).max(1)).min(n - 1)];
            w.push(pre[0]);
            w.push(*target);
        } else {
            w.push(s.below(k));
        }
    }
    let mut want = Vec::new();
    let mut late = 0;
    for (i, t) in w.iter().enumerate() {
        let r = if i > 0 { Some(number(w[i - 1], *t)).filter(|r| *r < n) } else { None };
        match r {
            Some(r) => {
                late = late.max(r);
                want.extend(body(r));
            }
            None if free && t % 2 == 0 => {}
            None => want.push(sy.syms[*t]),
        }
    }
    ctx.case(format!("{} rules on {w:?}, order shifted by {step}", rules.len()));
    ctx.nontrivial = late > 1_000;
    ctx.label_if(late > 65_536, "a rule beyond 65536 is the one that matches");
    let string = sy.string(&w);
    let got = if s.bool() {
        sut("derive_once", || system::derive_once(string.clone(), &rules))?
    } else {
        sut("derive", || system::derive(string.clone(), &rules, RunSettings::for_max_iterations(1)))?
    };
    let got = match got {
        Ok(g) => g,
        Err(e) => violated!("one step with {} rules on {w:?} failed: {e}", rules.len()),
    };
    ensure!(got == ProductionString::from(want.clone()), "one step with {} rules on {w:?} gives {got}, expected {}", rules.len(), ProductionString::from(want));
    // The lookup gives the first rule that matches, when two match.
    for _ in 0..6 {
        let i = s.below(w.len());
        let got = sut("find_matching", || system::find_matching(&rules, &string, i))?.map(|p| rules.iter().position(|q| std::ptr::eq(p, q)).unwrap_or(usize::MAX));
        let pair = if i > 0 { Some(number(w[i - 1], w[i])).filter(|r| *r < n) } else { None };
        let want = pair.or(if free && w[i] % 2 == 0 { Some(n + w[i] / 2) } else { None });
        ensure!(got == want, "with {} rules index {i} of {w:?} gives rule {got:?}, expected {want:?}", rules.len());
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P09

/// The strings of a derivation, stopped before one would be longer than `cap`.
fn history(rules: &[Rule], w: &[usize], n: usize, cap: usize) -> Vec<Vec<usize>> {
    let mut v = vec![w.to_vec()];
    for _ in 0..n {
        let next = model::step(rules, v.last().unwrap());
        if next.len() > cap {
            break;
        }
        v.push(next);
    }
    v
}

fn multi_step(s: &mut Src, sy: &Symbols, rules: &[Rule], w: &[usize], max_n: usize, cap: usize, ctx: &mut Ctx) -> R {
    let n = s.range(0, max_n);
    let hist = history(rules, w, n, cap);
    let n = hist.len() - 1;
    let want = &hist[n];
    ctx.case(format!("n={n} {} on {:?}", gen::show_rules(&sy.names, rules), gen::show_word(&sy.names, w)));
    ctx.nontrivial = n >= 2 && hist.windows(2).any(|p| p[0] != p[1]);
    ctx.label_if(n == 0, "zero iterations");
    ctx.label_if(n >= 10, ">= 10 iterations");
    ctx.label_if(want.len() > 1000, "result longer than 1000");
    ctx.label_if(want.is_empty() && !w.is_empty(), "dies out");

    let start = sy.string(w);
    let how = s.below(3);
    let system = sy.system(rules, how)?;
    let prods = sy.productions(rules)?;
    let settings = |k: usize, v: usize| if v == 0 { RunSettings::for_max_iterations(k) } else { RunSettings::from(k) };
    let run = |what: &str, r: rusty_systems::Result<ProductionString>| -> R<Vec<usize>> {
        match r {
            Ok(g) => sy.word(&g),
            Err(e) => Err(Fail::Violation(format!("{what} on {:?} with {} failed: {e}", clip(&gen::show_word(&sy.names, w), 400), gen::show_rules(&sy.names, rules)))),
        }
    };
    let bad = |what: String, got: &Vec<usize>| -> R {
        Err(Fail::Violation(format!(
            "{what} on {:?} with {} gives {:?}, expected {:?}",
            clip(&gen::show_word(&sy.names, w), 400),
            gen::show_rules(&sy.names, rules),
            clip(&gen::show_word(&sy.names, got), 400),
            clip(&gen::show_word(&sy.names, want), 400)
        )))
    };

    let v = s.below(2);
    let whole = run("derive", sut("System::derive", || system.derive(start.clone(), settings(n, v)))?)?;
    if &whole != want {
        return bad(format!("{n} iterations"), &whole);
    }
    // One step at a time, through the system.
    let mut cur = start.clone();
    for i in 0..n {
        cur = match sut("System::derive_once", || system.derive_once(cur.clone()))? {
            Ok(x) => x,
            Err(e) => violated!("step {i} failed: {e}"),
        };
    }
    let stepped = run("steps", Ok(cur))?;
    if &stepped != want {
        return bad(format!("{n} single steps"), &stepped);
    }
    // a + b
    let a = s.range(0, n);
    let first = sut("System::derive", || system.derive(start.clone(), settings(a, 1 - v)))?.map_err(|e| Fail::Violation(format!("{a} iterations failed: {e}")))?;
    let split = run("the rest", sut("System::derive", || system.derive(first, settings(n - a, v)))?)?;
    if &split != want {
        return bad(format!("{a} and then {} iterations", n - a), &split);
    }
    // The free function, another system, and a repetition.
    let free = run("free derive", sut("derive", || system::derive(start.clone(), &prods, settings(n, v)))?)?;
    if &free != want {
        return bad(format!("the free function with {n} iterations"), &free);
    }
    let other = sy.system(rules, (how + 1) % 3)?;
    other.add_production("Elsewhere9 -> Elsewhere9 Elsewhere9").map_err(|e| Fail::Violation(e.to_string()))?;
    let second = run("derive", sut("System::derive", || other.derive(start.clone(), settings(n, v)))?)?;
    if &second != want && !sy.names.iter().any(|n| n == "Elsewhere9") {
        return bad(format!("another system with {n} iterations"), &second);
    }
    let again = run("derive", sut("System::derive", || system.derive(start.clone(), settings(n, v)))?)?;
    if &again != want {
        return bad(format!("a repetition with {n} iterations"), &again);
    }
    ensure!(sy.word(&start)? == w, "deriving changed its input");
    // Concatenation.
    if rules.iter().all(|r| r.pre.is_empty() && r.post.is_empty()) {
        ctx.label("context-free");
        let cut = s.range(0, w.len());
        let l = run("left part", sut("System::derive", || system.derive(sy.string(&w[..cut]), settings(n, v)))?)?;
        let r = run("right part", sut("System::derive", || system.derive(sy.string(&w[cut..]), settings(n, v)))?)?;
        let both: Vec<usize> = l.into_iter().chain(r).collect();
        if &both != want {
            return bad(format!("{n} iterations of the parts before and after {cut}"), &both);
        }
    }
    ctx.inner = n as u64;
    Ok(())
}

fn p09_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 5);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 0, 60);
    let c = if s.bool() { 0 } else { 4 };
    let rules = gen::det_rules(s, k, &w, 6, 4, c);
    multi_step(s, &sy, &rules, &w, 8, 1500, ctx)
}

/// Bounded growth, so that many iterations stay small: signals that travel through the string.
fn p09_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 5);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 1, 40);
    let mut rules = gen::det_rules(s, k, &w, 6, 1, 3);
    for r in &mut rules {
        if r.bodies[0].1.is_empty() && s.chance(2, 3) {
            r.bodies[0].1.push(s.below(k));
        }
    }
    multi_step(s, &sy, &rules, &w, 300, 200, ctx)
}

fn p09_large(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 4);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 1, 10);
    let c = if s.chance(2, 3) { 0 } else { 3 };
    let mut rules = gen::det_rules(s, k, &w, 5, 4, c);
    // Make some symbol grow.
    let grow = Rule { pre: vec![], target: w[0], post: vec![], bodies: vec![(None, vec![w[0], s.below(k), w[0]])] };
    if !rules.iter().any(|r| r.same_head(&grow)) {
        rules.push(grow);
    }
    multi_step(s, &sy, &rules, &w, 16, 30_000, ctx)
}

/// Very many iterations of a few symbols that keep changing.
fn p09_endless(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 40);
    let sy = Symbols::new((0..k).map(|i| format!("E{i}")).collect())?;
    let w: Vec<usize> = (0..s.range(1, 3)).map(|_| s.below(k)).collect();
    // Cycles of different lengths.
    let cut = s.range(1, k);
    let rules: Vec<Rule> = (0..k)
        .map(|i| {
            let to = if i + 1 == cut { 0 } else if i + 1 == k { cut % k } else { i + 1 };
            Rule { pre: vec![], target: i, post: vec![], bodies: vec![(None, vec![to])] }
        })
        .collect();
    let n = if s.bool() { s.range(65_000, 66_000) } else { s.range(1_000, 150_000) };
    ctx.case(format!("n={n} cycles of {cut} and {} from {w:?}", k - cut));
    ctx.nontrivial = true;
    let step = |x: usize| rules[x].bodies[0].1[0];
    let want: Vec<usize> = w.iter().map(|x| (0..n).fold(*x, |x, _| step(x))).collect();
    let how = s.below(3);
    let system = sy.system(&rules, how)?;
    let prods = sy.productions(&rules)?;
    let start = sy.string(&w);
    let a = s.range(0, n);
    let show = |r: rusty_systems::Result<ProductionString>| -> R<Vec<usize>> { sy.word(&r.map_err(|e| Fail::Violation(e.to_string()))?) };
    let whole = show(sut("System::derive", || system.derive(start.clone(), RunSettings::for_max_iterations(n)))?)?;
    ensure!(whole == want, "{n} iterations on {w:?} give {whole:?}, expected {want:?}, with {}", gen::show_rules(&sy.names, &rules));
    let first = sut("derive", || system::derive(start.clone(), &prods, RunSettings::for_max_iterations(a)))?.map_err(|e| Fail::Violation(e.to_string()))?;
    let split = show(sut("System::derive", || system.derive(first, RunSettings::from(n - a)))?)?;
    ensure!(split == want, "{a} and then {} iterations on {w:?} give {split:?}, expected {want:?}, with {}", n - a, gen::show_rules(&sy.names, &rules));
    ctx.inner = 2 * n as u64;
    Ok(())
}

fn p09_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 4);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 1, 6);
    let mut rules: Vec<Rule> = Vec::new();
    for target in 0..k {
        let nb = s.range(1, 4);
        rules.push(Rule { pre: vec![], target, post: vec![], bodies: vec![(None, (0..nb).map(|_| s.below(k)).collect())] });
    }
    if s.bool() {
        // A context costs time in proportion to the position, for every position.
        let (_, target, post) = gen::head(s, k, &w, 2);
        let r = Rule { pre: vec![], target, post, bodies: vec![(None, vec![s.below(k)])] };
        if !rules.iter().any(|o| o.same_head(&r)) {
            rules.insert(0, r);
        }
    }
    let hist = history(&rules, &w, 30, if rules.iter().any(|r| !r.post.is_empty()) { 200_000 } else { 12_000_000 });
    let n = hist.len() - 1;
    let want = &hist[n];
    ctx.case(format!("n={n} to {} symbols: {} on {:?}", want.len(), gen::show_rules(&sy.names, &rules), gen::show_word(&sy.names, &w)));
    ctx.nontrivial = want.len() > 60_000;
    ctx.label_if(want.len() > 1_000_000, "more than a million symbols");
    let system = sy.system(&rules, 0)?;
    let got = sut("System::derive", || system.derive(sy.string(&w), RunSettings::for_max_iterations(n)))?.map_err(|e| Fail::Violation(e.to_string()))?;
    let got = sy.word(&got)?;
    ensure!(&got == want, "{}: the result has {} symbols and differs from the expected {} first at {:?}", ctx.case, got.len(), want.len(), got.iter().zip(want).position(|(a, b)| a != b));
    let last = sut("System::derive_once", || system.derive_once(sy.string(&hist[n.saturating_sub(1)])))?.map_err(|e| Fail::Violation(e.to_string()))?;
    ensure!(n == 0 || &sy.word(&last)? == want, "{}: the last step alone gives {} symbols, expected {}", ctx.case, last.len(), want.len());
    Ok(())
}
