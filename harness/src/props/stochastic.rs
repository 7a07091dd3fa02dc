//! P10, P11: rules with alternatives.

use crate::gen::{self, Symbols};
use crate::model::{self, Rule};
use engine::*;
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody};
use rusty_systems::system;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P10",
            rule: "A rule with 2-6 (some: 60) alternatives (some of them equal or empty, some with contexts) and random stated, missing and left-over probabilities is sampled through one long string, many short runs, many steps of one derivation, several threads, \
                   Production::body and several rules at once; and rules that replace symbols by one another or themselves are run for several steps, where the outcome must follow the product of their probabilities. Every alternative's count and every joint count of two choices (neighbouring positions, positions at distances up to 60000, same position of successive runs, successive steps, different rules, different \
                   threads) is held against its binomial tail bound; whole runs, threads and processes must not repeat one another. Non-trivial: two alternatives have a probability of at least 0.01. 'rare' counts alternatives of 5 to 3000 parts of a million in 12 million choices each; 'many' has rules with up to 300000 alternatives, 'crumbs' as many of a few parts in a hundred million. inner_evaluations counts sampled choices.",
            assumptions: &[
                "choices come from the operating system's randomness, so the samples differ from run to run; a count is flagged only when its probability under the property is below 2e-15 (Chernoff bound), a repetition only below 2^-100",
                "a probability may be off by 2e-7 (32-bit arithmetic)",
            ],
            phases: vec![
                Phase { name: "sample", kind: Kind::Random, quick: 19_200, thorough: 192_000, f: p10_sample },
                Phase { name: "deep-sample", kind: Kind::Random, quick: 384, thorough: 3_840, f: p10_deep },
                Phase { name: "chain", kind: Kind::Random, quick: 2_400, thorough: 24_000, f: p10_chain },
                Phase { name: "rare", kind: Kind::Random, quick: 96, thorough: 960, f: p10_rare },
                Phase { name: "processes", kind: Kind::Random, quick: 24, thorough: 400, f: p10_processes },
                Phase { name: "many", kind: Kind::Random, quick: 24, thorough: 240, f: p10_many },
                Phase { name: "crumbs", kind: Kind::Random, quick: 8, thorough: 80, f: p10_crumbs },
            ],
        },
        Prop {
            id: "P11",
            rule: "Rule sets with contexts and 1-8 alternatives each (some with up to 400, a few 5000), stated probabilities written as decimals whose exact sum is known; one or a few steps on a random string. With a sum of at most 1 the step \
                   must succeed and its result must be one the rules allow (checked by a set-of-positions matcher); with a sum of at least 1.01 it must fail exactly if such a rule is used. \
                   Non-trivial: a rule with at least two alternatives rewrites some position.",
            assumptions: &["sums strictly between 1 and 1.01 are left open"],
            phases: vec![
                Phase { name: "random", kind: Kind::Random, quick: 600_000, thorough: 15_000_000, f: p11_random },
                Phase { name: "many-alternatives", kind: Kind::Random, quick: 12_000, thorough: 300_000, f: p11_many },
                Phase { name: "single", kind: Kind::Random, quick: 60_000, thorough: 1_200_000, f: p11_single },
            ],
        },
    ]
}

// ---------------------------------------------------------------------------------------- P10

/// Upper bound of ln P(count at least as extreme) for a binomial.
fn tail(count: u64, n: u64, p: f64) -> f64 {
    if n == 0 {
        return 0.0;
    }
    let q = count as f64 / n as f64;
    // A probability may be off by a rounding error; take the kindest value in that range.
    let lo = (p - 2e-7).max(0.0);
    let hi = (p + 2e-7).min(1.0);
    let p = q.clamp(lo, hi);
    let t = |a: f64, b: f64| if a == 0.0 { 0.0 } else { a * (a / b).ln() };
    let kl = t(q, p) + t(1.0 - q, 1.0 - p);
    -(n as f64) * kl.max(0.0)
}

const LIMIT: f64 = -34.5;

fn check_marginals(what: &str, rule: &str, seq: &[u8], p: &[f64]) -> R {
    for (i, pi) in p.iter().enumerate() {
        let c = seq.iter().filter(|x| **x as usize == i).count() as u64;
        let t = tail(c, seq.len() as u64, *pi);
        ensure!(t > LIMIT, "{rule}: {what}: alternative {} of {} has probability {pi} and was chosen {c} times out of {} (probability below e^{t:.0})", i + 1, p.len(), seq.len());
    }
    Ok(())
}

fn check_pairs(what: &str, rule: &str, pairs: &[(u8, u8)], p: &[f64], q: &[f64]) -> R {
    let mut counts = vec![0u64; 1 << 16];
    for x in pairs {
        counts[(x.0 as usize) << 8 | x.1 as usize] += 1;
    }
    for (i, pi) in p.iter().enumerate() {
        for (j, qj) in q.iter().enumerate() {
            let c = counts[i << 8 | j];
            let t = tail(c, pairs.len() as u64, pi * qj);
            ensure!(
                t > LIMIT,
                "{rule}: {what}: alternatives {} and {} should meet with probability {:.6} and met {c} times out of {} (probability below e^{t:.0})",
                i + 1,
                j + 1,
                pi * qj,
                pairs.len()
            );
        }
    }
    Ok(())
}

/// Disjoint pairs at a distance.
fn pairs_at(seq: &[u8], lag: usize) -> Vec<(u8, u8)> {
    let mut v = Vec::new();
    let mut i = 0;
    while i + 2 * lag <= seq.len() {
        for k in 0..lag {
            v.push((seq[i + k], seq[i + k + lag]));
        }
        i += 2 * lag;
    }
    v
}

/// Agreement of the choices at every distance up to `max`; for long sequences at those up to 600 and at others, some
/// powers of two and ten among them.
fn check_distances(what: &str, rule: &str, seq: &[u8], p: &[f64], max: usize) -> R {
    let q: f64 = p.iter().map(|x| x * x).sum();
    let top = max.min(seq.len() / 2);
    let skip = if seq.len() > 10_000 { 1 + top / 400 } else { 1 };
    let offset = seq.first().copied().unwrap_or(0) as usize + seq.get(1).copied().unwrap_or(0) as usize * 3;
    let round = |lag: usize| lag.is_power_of_two() || (lag + 1).is_power_of_two() || lag % 1_000 == 0;
    for lag in (1..=top).filter(|lag| *lag <= 600 || (lag + offset) % skip == 0 || round(*lag)) {
        let (mut same, mut n) = (0u64, 0u64);
        for block in seq.chunks_exact(2 * lag) {
            let (a, b) = block.split_at(lag);
            same += a.iter().zip(b).map(|(x, y)| (x == y) as u32).sum::<u32>() as u64;
            n += lag as u64;
        }
        let t = tail(same, n, q.min(1.0));
        ensure!(t > LIMIT, "{rule}: {what}: choices {lag} apart should agree with probability {q:.6} and agree {same} times out of {n} (probability below e^{t:.0})");
    }
    Ok(())
}

fn entropy2(p: &[f64]) -> f64 {
    -p.iter().map(|x| x * x).sum::<f64>().log2()
}

/// Probabilities of `k` alternatives in thousandths (None: not stated) that sum to at most 1000.
fn thousandths(s: &mut Src, k: usize) -> Vec<Option<u64>> {
    let mut left = 1000u64;
    let mut v = Vec::new();
    let full = s.chance(1, 3);
    for i in 0..k {
        if s.chance(1, 3) || left == 0 {
            v.push(None);
            continue;
        }
        let c = if full && i + 1 == k {
            left
        } else {
            match s.below(4) {
                0 => *s.pick(&[100, 200, 250, 300, 500]),
                1 => 1 + s.draw(left),
                2 => 1 + s.draw(20),
                _ => 1 + left / 2,
            }
        }
        .min(left);
        left -= c;
        v.push(Some(c));
    }
    v
}

fn decimal(t: u64) -> String {
    if t >= 1000 {
        format!("{}.{:03}", t / 1000, t % 1000)
    } else {
        format!("0.{t:03}")
    }
}

fn expected(c: &[Option<u64>]) -> Vec<f64> {
    let total: u64 = c.iter().flatten().sum();
    let left = (1000 - total) as f64 / 1000.0;
    let unset = c.iter().filter(|x| x.is_none()).count();
    let mut p: Vec<f64> = c.iter().map(|x| x.map(|v| v as f64 / 1000.0).unwrap_or(left / unset as f64)).collect();
    if unset == 0 {
        *p.last_mut().unwrap() += left;
    }
    p
}

struct Dice {
    rules: Vec<Rule>,
    p: Vec<Vec<f64>>,
    sy: Symbols,
    text: String,
}

/// Rules `T<i> -> <alternatives>`, each alternative ending in a symbol of its own. With `keep`, the
/// target survives: `T -> T a`.
fn dice(s: &mut Src, n: usize, keep: bool) -> R<Dice> {
    let mut names: Vec<String> = (0..n).map(|i| format!("T{i}")).collect();
    let mut rules = Vec::new();
    let mut p = Vec::new();
    for t in 0..n {
        let k = if s.chance(1, 12) { s.range(7, 60) } else { s.range(2, 6) };
        let c = thousandths(s, k);
        let mut ps = expected(&c);
        let same = s.chance(1, 6);
        let mut bodies: Vec<(Option<String>, Vec<usize>)> = Vec::new();
        for (i, c) in c.iter().enumerate() {
            // Sometimes two alternatives put the same in place; they count as the first of them.
            if same && i > 0 && s.chance(1, 2) {
                let j = s.below(i);
                let b = bodies[j].1.clone();
                let first = bodies.iter().position(|x| x.1 == b).unwrap();
                ps[first] += ps[i];
                ps[i] = 0.0;
                bodies.push((c.map(decimal), b));
                continue;
            }
            let sym = names.len();
            names.push(format!("t{t}a{i}"));
            bodies.push((c.map(decimal), if keep { vec![t, sym] } else { vec![sym] }));
        }
        p.push(ps);
        rules.push(Rule { pre: vec![], target: t, post: vec![], bodies });
    }
    if n == 2 && s.bool() {
        // The two stand side by side, the first one first.
        rules[0].post = vec![1];
        rules[1].pre = vec![0];
    }
    let sy = Symbols::new(names)?;
    let text = gen::show_rules(&sy.names, &rules);
    Ok(Dice { rules, p, sy, text })
}

impl Dice {
    /// The alternative that produced this symbol, with its rule.
    fn decode(&self, sym: &Symbol) -> R<(usize, u8)> {
        for (t, r) in self.rules.iter().enumerate() {
            for (i, (_, b)) in r.bodies.iter().enumerate() {
                if self.sy.syms[*b.last().unwrap()] == *sym {
                    return Ok((t, i as u8));
                }
            }
        }
        Err(Fail::Violation(format!("{}: the result holds the symbol {sym}", self.text)))
    }
    fn decode_all(&self, p: &ProductionString, want: usize) -> R<Vec<u8>> {
        let v: R<Vec<u8>> = p.symbols().iter().map(|x| self.decode(x).map(|d| d.1)).collect();
        let v = v?;
        ensure!(v.len() == want, "{}: {want} symbols became {}", self.text, v.len());
        Ok(v)
    }
    fn fail(&self, e: rusty_systems::error::Error) -> Fail {
        Fail::Violation(format!("{}: the derivation failed: {e}", self.text))
    }
}

/// Alternatives that are hardly ever chosen: a few of the parts of a million, and something large.
fn p10_rare(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 5);
    let big = s.below(k);
    // In parts of a million.
    let rare: Vec<u64> = (0..k).map(|_| s.pick(&[1, 1, 10, 10, 100]) * s.range(5, 30) as u64).collect();
    let others: u64 = rare.iter().enumerate().filter(|x| x.0 != big).map(|x| x.1).sum();
    let stated = s.bool();
    let left = if s.bool() { rare[(big + 1) % k] } else { 0 };
    let mut p: Option<Production> = None;
    let mut want = Vec::new();
    let mut text = String::from("T ->");
    for i in 0..k {
        let (chance, share) = if i != big {
            (Some(rare[i]), rare[i])
        } else if stated {
            // What is left over goes to the last one.
            (Some(1_000_000 - others - left), 1_000_000 - others - left)
        } else {
            (None, 1_000_000 - others)
        };
        let written = chance.map(|c| format!("0.{c:06}"));
        let body = "R ".repeat(i);
        let line = format!("{} {body}", written.as_deref().unwrap_or(""));
        text.push_str(&format!(" {} |", line.trim()));
        let q = sut("parse_production", || rusty_systems::parser::parse_production(&format!("T -> {line}")))?.map_err(|e| Fail::Violation(format!("{line:?} was rejected: {e}")))?;
        match &mut p {
            None => p = Some(q),
            Some(p) => p.merge(q),
        }
        want.push(share as f64 / 1e6);
    }
    if stated {
        want[k - 1] += left as f64 / 1e6;
    }
    ctx.case(text.clone());
    ctx.nontrivial = true;
    let p = p.unwrap();
    let n = 12_000_000u64;
    let mut counts = vec![0u64; k];
    let runs = sut("Production::body", || {
        for _ in 0..n {
            counts[p.body()?.len()] += 1;
        }
        Ok::<(), Error>(())
    })?;
    runs.map_err(|e| Fail::Violation(format!("{text}: {e}")))?;
    ctx.inner = n;
    for (i, w) in want.iter().enumerate() {
        let t = tail(counts[i], n, *w);
        ensure!(t > LIMIT, "{text}: alternative {} has probability {w} and was chosen {} times out of {n} (probability below e^{t:.0})", i + 1, counts[i]);
    }
    Ok(())
}

/// Counts, in groups of neighbours, which alternatives of a rule are chosen.
fn p10_groups(ctx: &mut Ctx, text: &str, bodies: Vec<(Option<f32>, usize)>, p: &[f64], n: u64) -> R {
    let names: Vec<String> = std::iter::once("T".to_string()).chain((0..p.len()).map(|i| format!("g{i}"))).collect();
    let sy = Symbols::new(names)?;
    let head = sy.head(&Rule { pre: vec![], target: 0, post: vec![], bodies: vec![] })?;
    let mut rule: Option<Production> = None;
    for (chance, group) in bodies {
        let string = ProductionString::from(sy.syms[1 + group]);
        let b = match chance {
            None => ProductionBody::new(string),
            Some(c) => ProductionBody::try_with_chance(c, string).map_err(|e| Fail::Violation(format!("probability {c} was refused: {e}")))?,
        };
        match &mut rule {
            None => rule = Some(Production::new(head.clone(), b)),
            Some(r) => r.add_body(b),
        }
    }
    let rule = rule.ok_or(Fail::Harness("no alternative".into()))?;
    let mut counts = vec![0u64; p.len()];
    for _ in 0..n {
        let b = sut("Production::body", || rule.body())?.map_err(|e| Fail::Violation(format!("{text}: {e}")))?;
        let i = sy.syms.iter().position(|x| *x == b.string()[0]).ok_or(Fail::Violation(format!("{text}: the result holds another symbol")))?;
        ensure!(i > 0, "{text}: the target is among the results");
        counts[i - 1] += 1;
    }
    ctx.inner = n;
    for (i, w) in p.iter().enumerate() {
        let t = tail(counts[i], n, *w);
        ensure!(t > LIMIT, "{text}: group {} of {} has probability {w} and was chosen {} times out of {n} (probability below e^{t:.0})", i + 1, p.len(), counts[i]);
    }
    Ok(())
}

/// Very many alternatives of one probability.
fn p10_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = gen::huge_len(s);
    let groups = s.range(2, 12);
    // Some of the last alternatives may state theirs: together a half.
    let stated = *s.pick(&[0, 0, 1, 10, 1_000]);
    let plain = k - stated;
    let c = 0.5 / stated as f32;
    let rest = if stated == 0 { 1.0 } else { 0.5 };
    let mut p = vec![0.0; groups + 1];
    let bodies: Vec<(Option<f32>, usize)> = (0..k)
        .map(|i| {
            if i < plain {
                let g = i * groups / plain;
                p[g] += rest / plain as f64;
                (None, g)
            } else {
                p[groups] += 0.5 / stated as f64;
                (Some(c), groups)
            }
        })
        .collect();
    if stated == 0 {
        p.pop();
    }
    let text = format!("a rule with {k} alternatives, the last {stated} of which state a probability of {c}");
    ctx.case(format!("{text}, in {groups} groups"));
    ctx.nontrivial = true;
    ctx.label_if(k > 65_536, "more than 65536 alternatives");
    p10_groups(ctx, &text, bodies, &p, 2_000)
}

/// Something large, then very many alternatives with hardly any probability, whose sum is not negligible, then the rest.
fn p10_crumbs(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(360_000, 400_000);
    let big = s.range(50, 90) as f32 / 100.0;
    let crumb = s.range(24, 28) as f32 * 1e-9;
    let mut bodies = vec![(Some(big), 0)];
    bodies.extend((0..k).map(|_| (Some(crumb), 1)));
    bodies.push((None, 2));
    let crumbs = k as f64 * crumb as f64;
    let p = [big as f64, crumbs, 1.0 - big as f64 - crumbs];
    let text = format!("a rule with probabilities {big}, {k} times {crumb}, and an alternative for the rest");
    ctx.case(text.clone());
    ctx.nontrivial = true;
    p10_groups(ctx, &text, bodies, &p, 5_000)
}

fn p10_sample(s: &mut Src, ctx: &mut Ctx) -> R {
    p10_run(s, ctx, 3_000)
}

fn p10_deep(s: &mut Src, ctx: &mut Ctx) -> R {
    p10_run(s, ctx, 120_000)
}

fn p10_run(s: &mut Src, ctx: &mut Ctx, budget: usize) -> R {
    let mode = s.below(7);
    let d = dice(s, if mode == 5 { 2 } else { 1 }, mode == 2)?;
    let p = &d.p[0];
    let how = s.below(3);
    let system = d.sy.system(&d.rules, how)?;
    ctx.nontrivial = d.p.iter().all(|p| p.iter().filter(|x| **x >= 0.01).count() >= 2);
    let lag = s.range(2, 9);
    let text = &d.text;
    match mode {
        0 | 4 => {
            ctx.label("one long string");
            ctx.case(format!("{text}: {budget} choices in one step, lag {lag}"));
            let seq: Vec<u8> = if mode == 0 {
                let out = sut("derive_once", || system.derive_once(d.sy.string(&vec![0; budget])))?.map_err(|e| d.fail(e))?;
                d.decode_all(&out, budget)?
            } else {
                // Directly through the rule.
                let prods: Vec<Production> = d.sy.productions(&d.rules)?;
                let mut v = Vec::with_capacity(budget);
                for _ in 0..budget {
                    let b = sut("body", || prods[0].body().cloned())?.map_err(|e| d.fail(e))?;
                    v.push(d.decode(&b.string()[0])?.1);
                }
                v
            };
            check_marginals("one step", text, &seq, p)?;
            check_pairs("neighbours", text, &pairs_at(&seq, 1), p, p)?;
            check_pairs("neighbours at a distance", text, &pairs_at(&seq, lag), p, p)?;
            check_distances("one step", text, &seq, p, 60_000)?;
            ctx.inner = budget as u64;
        }
        6 => {
            // One of the alternatives removes the symbol.
            ctx.label("an empty alternative");
            let (gone, sep) = (s.below(p.len()), Symbol::build("separator").unwrap());
            let mut rules = d.rules.clone();
            let keep: Vec<usize> = rules[0].bodies[gone].1.clone();
            for b in rules[0].bodies.iter_mut().filter(|b| b.1 == keep) {
                b.1.clear();
            }
            let first = d.rules[0].bodies.iter().position(|b| b.1 == keep).unwrap() as u8;
            let text = gen::show_rules(&d.sy.names, &rules);
            let n = budget / 2;
            ctx.case(format!("{text}: {n} choices with an empty alternative"));
            let system = d.sy.system(&rules, how)?;
            let start = ProductionString::from((0..2 * n).map(|i| if i % 2 == 0 { d.sy.syms[0] } else { sep }).collect::<Vec<_>>());
            let out = sut("derive_once", || system.derive_once(start))?.map_err(|e| d.fail(e))?;
            let mut seq = Vec::with_capacity(n);
            let mut last = first;
            for x in out.symbols() {
                if *x == sep {
                    seq.push(last);
                    last = first;
                } else {
                    ensure!(last == first, "{text}: a symbol was replaced by two");
                    last = d.decode(x)?.1;
                }
            }
            ensure!(seq.len() == n, "{text}: of {n} symbols no rule applies to, {} are left", seq.len());
            check_marginals("one step", &text, &seq, p)?;
            check_distances("one step", &text, &seq, p, 500)?;
            ctx.inner = n as u64;
        }
        1 => {
            ctx.label("many short runs");
            let len = s.range(1, 4);
            let runs = budget / len;
            ctx.case(format!("{text}: {runs} runs of {len}"));
            let start = d.sy.string(&vec![0; len]);
            let mut at: Vec<Vec<u8>> = vec![Vec::new(); len];
            for _ in 0..runs {
                let out = sut("derive", || system.derive(start.clone(), RunSettings::for_max_iterations(1)))?.map_err(|e| d.fail(e))?;
                for (i, x) in d.decode_all(&out, len)?.into_iter().enumerate() {
                    at[i].push(x);
                }
            }
            for (i, seq) in at.iter().enumerate() {
                check_marginals(&format!("position {i} of {runs} runs"), text, seq, p)?;
                check_pairs("successive runs", text, &pairs_at(seq, 1), p, p)?;
                check_distances("runs", text, seq, p, 1_000)?;
                for other in &at[..i] {
                    let pairs: Vec<_> = other.iter().copied().zip(seq.iter().copied()).collect();
                    check_pairs("two positions of one run", text, &pairs, p, p)?;
                }
            }
            ctx.inner = (runs * len) as u64;
        }
        2 => {
            ctx.label("many steps");
            let n = if budget > 10_000 { 1200 } else { 300 };
            let k = s.range(1, 4);
            ctx.case(format!("{text}: {n} steps of {k} symbols"));
            let mut steps: Vec<u8> = Vec::new();
            let mut cols: Vec<Vec<u8>> = Vec::new();
            for _ in 0..k {
                // T c_n ... c_1
                let out = sut("derive", || system.derive(d.sy.string(&[0]), RunSettings::for_max_iterations(n)))?.map_err(|e| d.fail(e))?;
                ensure!(out.len() == n + 1, "{text}: {n} steps from T0 gave {} symbols", out.len());
                let col: R<Vec<u8>> = out.symbols()[1..].iter().map(|x| d.decode(x).map(|y| y.1)).collect();
                let col = col?;
                steps.extend(&col);
                cols.push(col);
            }
            check_marginals("steps of one derivation", text, &steps, p)?;
            for c in &cols {
                check_pairs("successive steps", text, &pairs_at(c, 1), p, p)?;
                check_distances("steps", text, c, p, 1_000)?;
            }
            for w in cols.windows(2) {
                ensure!((n as f64) * entropy2(p) < 100.0 || w[0] != w[1], "{text}: two derivations of {n} steps made the same choices");
                let pairs: Vec<_> = w[0].iter().copied().zip(w[1].iter().copied()).collect();
                check_pairs("the same step of two derivations", text, &pairs, p, p)?;
            }
            ctx.inner = (n * k) as u64;
        }
        3 => {
            ctx.label("threads");
            let threads = s.range(2, 6);
            let each = budget / threads;
            ctx.case(format!("{text}: {threads} threads of {each}"));
            let shared = &system;
            let start = d.sy.string(&vec![0; each]);
            let outs: Vec<std::result::Result<ProductionString, String>> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..threads)
                    .map(|_| {
                        let start = start.clone();
                        sc.spawn(move || shared.derive_once(start).map_err(|e| e.to_string()))
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(format!("the thread panicked: {}", last_panic())))).collect()
            });
            let mut seqs = Vec::new();
            for o in outs {
                match o {
                    Ok(o) => seqs.push(d.decode_all(&o, each)?),
                    Err(e) => violated!("{text}: {e}"),
                }
            }
            for q in &seqs {
                check_marginals("one thread", text, q, p)?;
                check_distances("one thread", text, q, p, 1_000)?;
            }
            for w in seqs.windows(2) {
                ensure!((each as f64) * entropy2(p) < 100.0 || w[0] != w[1], "{text}: two threads made the same {each} choices");
                let pairs: Vec<_> = w[0].iter().copied().zip(w[1].iter().copied()).collect();
                check_pairs("the same position in two threads", text, &pairs, p, p)?;
            }
            ctx.inner = (threads * each) as u64;
        }
        _ => {
            ctx.label("two rules");
            let n = budget / 2;
            ctx.case(format!("{text}: {n} times two rules"));
            let w: Vec<usize> = (0..2 * n).map(|i| i % 2).collect();
            let prods = d.sy.productions(&d.rules)?;
            let out = sut("derive_once", || system::derive_once(d.sy.string(&w), &prods))?.map_err(|e| d.fail(e))?;
            ensure!(out.len() == 2 * n, "{text}: {} symbols became {}", 2 * n, out.len());
            let mut seqs: [Vec<u8>; 2] = [vec![], vec![]];
            for (i, x) in out.symbols().iter().enumerate() {
                let (t, c) = d.decode(x)?;
                ensure!(t == i % 2, "{text}: position {i} was rewritten by the other rule");
                seqs[t].push(c);
            }
            check_marginals("first rule", text, &seqs[0], &d.p[0])?;
            check_marginals("second rule", text, &seqs[1], &d.p[1])?;
            let pairs: Vec<_> = seqs[0].iter().copied().zip(seqs[1].iter().copied()).collect();
            check_pairs("two rules side by side", text, &pairs, &d.p[0], &d.p[1])?;
            check_pairs("neighbours of the first rule", text, &pairs_at(&seqs[0], 1), &d.p[0], &d.p[0])?;
            ctx.inner = 2 * n as u64;
        }
    }
    Ok(())
}

/// Every symbol is replaced by one of a few, possibly by itself, over several steps: where it ends up follows the
/// product of the rules' probabilities, and two symbols of one string do not depend on one another.
fn p10_chain(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 4);
    let names: Vec<String> = (0..k).map(|i| format!("S{i}")).collect();
    let mut rules = Vec::new();
    let mut m = vec![vec![0.0f64; k]; k];
    for t in 0..k {
        if s.chance(1, 6) {
            // No rule: the symbol stays.
            m[t][t] = 1.0;
            continue;
        }
        let n = if s.chance(1, 5) { 1 } else { s.range(2, 4) };
        let c = if n == 1 { vec![None] } else { thousandths(s, n) };
        let ps = expected(&c);
        let mut bodies = Vec::new();
        for i in 0..n {
            let to = if s.chance(1, 3) { t } else { s.below(k) };
            m[t][to] += ps[i];
            bodies.push((c[i].map(decimal), vec![to]));
        }
        rules.push(Rule { pre: vec![], target: t, post: vec![], bodies });
    }
    let sy = Symbols::new(names)?;
    let text = gen::show_rules(&sy.names, &rules);
    let how = s.below(3);
    let system = sy.system(&rules, how)?;
    let len = match s.below(4) {
        0 => 1,
        1 => s.range(20, 200),
        _ => s.range(2, 3),
    };
    let start: Vec<usize> = (0..len).map(|_| s.below(k)).collect();
    let n = s.range(1, 12);
    let runs = (3_000 / len).max(20);
    ctx.case(format!("{text}: {runs} runs of {n} steps from {}", clip(&gen::show_word(&sy.names, &start), 60)));
    ctx.label(if len > 3 { "a long string" } else { "a short string" });
    ctx.label_if(n >= 2, "two steps or more");
    let mut want = vec![vec![0.0f64; k]; k];
    for (t, row) in want.iter_mut().enumerate() {
        row[t] = 1.0;
        for _ in 0..n {
            let mut next = vec![0.0; k];
            for (a, pa) in row.iter().enumerate() {
                for (b, x) in next.iter_mut().enumerate() {
                    *x += pa * m[a][b];
                }
            }
            *row = next;
        }
        // The kindest value within rounding is taken below; sums of products may leave [0, 1] by a rounding error.
        row.iter_mut().for_each(|x| *x = x.clamp(0.0, 1.0));
    }
    ctx.nontrivial = n >= 2 && start.iter().any(|t| want[*t].iter().filter(|p| **p >= 0.01).count() >= 2);
    let mut by_state: Vec<Vec<u8>> = vec![Vec::new(); k];
    let mut at: Vec<Vec<u8>> = vec![Vec::new(); len];
    for _ in 0..runs {
        let axiom = sy.string(&start);
        let out = sut("derive", || system.derive(axiom, RunSettings::for_max_iterations(n)))?
            .map_err(|e| Fail::Violation(format!("{text}: the derivation failed: {e}")))?;
        let w = sy.word(&out)?;
        ensure!(w.len() == len, "{text}: {len} symbols became {}", w.len());
        for (i, x) in w.iter().enumerate() {
            by_state[start[i]].push(*x as u8);
            at[i].push(*x as u8);
        }
    }
    for t in 0..k {
        check_marginals(&format!("{n} steps from S{t}, counting states as alternatives"), &text, &by_state[t], &want[t])?;
    }
    for i in 1..len.min(4) {
        let pairs: Vec<_> = at[0].iter().copied().zip(at[i].iter().copied()).collect();
        check_pairs(&format!("positions 0 and {i} after {n} steps, counting states as alternatives"), &text, &pairs, &want[start[0]], &want[start[i]])?;
    }
    check_pairs(
        &format!("successive runs of {n} steps, counting states as alternatives"),
        &text,
        &pairs_at(&at[0], 1),
        &want[start[0]],
        &want[start[0]],
    )?;
    ctx.inner = (runs * len * n) as u64;
    Ok(())
}

/// Prints choices made by a fresh process.
pub fn print_sample() {
    let system = System::new();
    for b in ["a", "b", "c", "d"] {
        system.add_production(format!("T -> {b}")).expect("rule");
    }
    let t = Symbol::build("T").unwrap();
    let out = system.derive_once(ProductionString::from(vec![t; 400])).expect("derivation");
    println!("{}", out.to_string().replace(' ', ""));
}

fn p10_processes(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.range(2, 4);
    let exe = std::env::current_exe().map_err(|e| Fail::Harness(e.to_string()))?;
    let mut seen: Vec<String> = Vec::new();
    for _ in 0..n {
        let out = std::process::Command::new(&exe).arg("p10-sample").output().map_err(|e| Fail::Harness(e.to_string()))?;
        let t = String::from_utf8_lossy(&out.stdout).trim().to_string();
        ensure!(out.status.success() && t.len() == 400, "a process that derives 400 symbols ended with {:?} and {:?}", out.status, clip(&t, 100));
        ensure!(!seen.contains(&t), "two processes made the same 400 choices");
        seen.push(t);
    }
    let seq: Vec<u8> = seen.concat().bytes().map(|b| b - b'a').collect();
    check_marginals("first steps of processes", "T -> a|b|c|d", &seq, &[0.25; 4])?;
    for w in seen.windows(2) {
        let pairs: Vec<(u8, u8)> = w[0].bytes().zip(w[1].bytes()).map(|(a, b)| (a - b'a', b - b'a')).collect();
        check_pairs("the same position in two processes", "T -> a|b|c|d", &pairs, &[0.25; 4], &[0.25; 4])?;
    }
    ctx.case(format!("{n} processes {:?}", clip(&seen[0], 20)));
    ctx.nontrivial = true;
    ctx.inner = 400 * n as u64;
    Ok(())
}

// ---------------------------------------------------------------------------------------- P11

/// Probabilities in parts of 10^digits with a known sum: at most one, or clearly more.
fn stated(s: &mut Src, k: usize, over: bool, exact: bool) -> (Vec<Option<String>>, u64, u64) {
    let digits = s.range(1, 6) as u32;
    let one = 10u64.pow(digits);
    let show = |v: u64| format!("{}.{:0w$}", v / one, v % one, w = digits as usize);
    let mut parts: Vec<u64> = Vec::new();
    if over {
        loop {
            let sum: u64 = parts.iter().sum();
            if parts.len() >= 2 && sum * 100 >= one * 101 && (parts.len() >= k || s.bool()) {
                break;
            }
            parts.push(if parts.len() >= k { one } else { 1 + s.draw(one) });
        }
    } else {
        // Equal shares, or random cuts.
        let n = s.range(0, k);
        if n > 0 && s.bool() && one / n as u64 >= 1 {
            parts = vec![one / n as u64; n];
            if exact {
                parts[n - 1] += one - parts.iter().sum::<u64>();
            }
        } else {
            let mut left = one;
            for i in 0..n {
                if left == 0 {
                    break;
                }
                let v = if i + 1 == n && exact { left } else { 1 + s.draw((left / 2).max(1)) };
                parts.push(v);
                left -= v;
            }
        }
    }
    let sum = parts.iter().sum();
    let mut v: Vec<Option<String>> = parts.into_iter().map(|p| Some(show(p))).collect();
    while v.len() < k {
        let at = s.below(v.len() + 1);
        v.insert(at, None);
    }
    (v, sum, one)
}

fn random_rules(s: &mut Src, alpha: usize, w: &[usize], max: usize) -> (Vec<Rule>, Vec<bool>) {
    let n = s.range(1, max);
    let mut rules: Vec<Rule> = Vec::new();
    let mut over = Vec::new();
    for _ in 0..n {
        let (pre, target, post) = gen::head(s, alpha, w, 3);
        let k = s.small(1, 8);
        let is_over = k >= 2 && s.chance(1, 12);
        let exact = s.bool();
        let (chances, ..) = stated(s, k, is_over, exact);
        let bodies = chances
            .into_iter()
            .map(|c| {
                let nb = s.weighted(&[2, 4, 4, 2, 1]);
                (c, (0..nb).map(|_| s.below(alpha)).collect())
            })
            .collect();
        let r = Rule { pre, target, post, bodies };
        if !rules.iter().any(|o| o.same_head(&r)) {
            rules.push(r);
            over.push(is_over);
        }
    }
    (rules, over)
}

fn p11_check(s: &mut Src, sy: &Symbols, rules: &[Rule], over: &[bool], w: &[usize], ctx: &mut Ctx) -> R {
    let how = s.below(3);
    let system = sy.system(rules, how)?;
    let used: Vec<usize> = (0..w.len()).filter_map(|i| model::rule_for(rules, w, i)).collect();
    let must_fail = used.iter().any(|r| over[*r]);
    ctx.nontrivial = used.iter().any(|r| rules[*r].bodies.len() >= 2);
    ctx.label(if must_fail { "probabilities above 1 used" } else { "usable" });
    ctx.label_if(!must_fail && over.iter().any(|x| *x), "probabilities above 1 not used");
    let prods;
    let route = s.below(3);
    let start = sy.string(w);
    let res = match route {
        0 => sut("System::derive_once", || system.derive_once(start))?,
        1 => sut("System::derive", || system.derive(start, RunSettings::for_max_iterations(1)))?,
        _ => {
            prods = sy.productions(rules)?;
            sut("derive_once", || system::derive_once(start, &prods))?
        }
    };
    let show = || format!("{} on {:?}", clip(&gen::show_rules(&sy.names, rules), 900), clip(&gen::show_word(&sy.names, w), 300));
    match res {
        Ok(out) => {
            ensure!(!must_fail, "{}: the step succeeded although probabilities of a rule it uses add up to more than 1", show());
            let out = sy.word(&out)?;
            ensure!(model::possible_step(rules, w, &out), "{}: the result {:?} is not one the rules allow", show(), clip(&gen::show_word(&sy.names, &out), 300));
        }
        Err(e) => ensure!(must_fail, "{}: the step failed: {e}", show()),
    }
    Ok(())
}

fn p11_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 5);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 0, 40);
    let (rules, over) = random_rules(s, k, &w, 4);
    ctx.case(format!("{} on {:?}", gen::show_rules(&sy.names, &rules), gen::show_word(&sy.names, &w)));
    p11_check(s, &sy, &rules, &over, &w, ctx)?;
    // A few more steps on whatever comes out.
    if !over.iter().any(|o| *o) && s.chance(1, 4) {
        let how = s.below(3);
        let system = sy.system(&rules, how)?;
        let mut cur = w.clone();
        for _ in 0..3 {
            if cur.len() > 400 {
                break;
            }
            let out = sut("derive_once", || system.derive_once(sy.string(&cur)))?.map_err(|e| Fail::Violation(format!("{}: a later step failed: {e}", ctx.case)))?;
            let out = sy.word(&out)?;
            ensure!(model::possible_step(&rules, &cur, &out), "{}: the step from {:?} to {:?} is not one the rules allow", ctx.case, gen::show_word(&sy.names, &cur), gen::show_word(&sy.names, &out));
            cur = out;
        }
        ctx.label("several steps");
    }
    Ok(())
}

fn p11_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = if s.chance(1, 60) { s.range(400, 5_000) } else { s.range(2, 400) };
    let names: Vec<String> = std::iter::once("T".to_string()).chain((0..k).map(|i| format!("b{i}"))).collect();
    let sy = Symbols::new(names)?;
    let over = s.chance(1, 8);
    let exact = s.chance(3, 4);
    let (chances, sum, one) = stated(s, k, over, exact);
    ctx.label_if(sum == one, "sum exactly 1");
    let n = chances.len();
    let bodies = chances.into_iter().enumerate().map(|(i, c)| (c, vec![1 + i.min(k - 1)])).collect();
    let rules = vec![Rule { pre: vec![], target: 0, post: vec![], bodies }];
    let w = vec![0; s.range(1, 10)];
    ctx.case(format!("{n} alternatives, sum {sum}/{one}: {}", gen::show_rules(&sy.names, &rules)));
    p11_check(s, &sy, &rules, &[over], &w, ctx)
}

/// A rule with a single alternative always applies, whatever its probability.
fn p11_single(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 4);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let w = gen::word(s, k, 1, 300);
    let mut rules = gen::det_rules(s, k, &w, 5, 4, 3);
    for r in &mut rules {
        if s.chance(4, 5) {
            r.bodies[0].0 = Some(s.pick(&["0.001", "0.5", "1", "1e-20", "0.01", "0.000001"]).to_string());
        }
    }
    ctx.case(format!("{} on {:?}", gen::show_rules(&sy.names, &rules), gen::show_word(&sy.names, &w)));
    let how = s.below(3);
    let system = sy.system(&rules, how)?;
    let out = sut("derive_once", || system.derive_once(sy.string(&w)))?.map_err(|e| Fail::Violation(format!("{}: the step failed: {e}", ctx.case)))?;
    let (got, want) = (sy.word(&out)?, model::step(&rules, &w));
    ensure!(got == want, "{} gives {:?}, expected {:?}", clip(&ctx.case, 500), clip(&gen::show_word(&sy.names, &got), 300), clip(&gen::show_word(&sy.names, &want), 300));
    ctx.nontrivial = got != w;
    Ok(())
}
