//! P12, P25: what systems and user-supplied collections hold.

use crate::gen::{self, Symbols};
use crate::model::{self, Rule};
use engine::*;
use rusty_systems::parser::{self, parse_and_add_production};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody, ProductionHead};
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system;
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap, HashSet};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P12",
            rule: "A history of up to 150 operations on one to three systems (add symbols and rules by text, owned text and value; rejected symbols and rules; look-ups of present, absent and blank names; derivations; counts) is run in step \
                   with a model of each system, and counts, every look-up of the alphabet and returned rules are compared after every step; large systems have up to 300000 symbols or 66200 rules. Non-trivial: a rule head is added at least twice and a rejected addition or a look-up of an absent name occurs.",
            assumptions: &["an empty context written as '< A' or 'A >' is not used: whether it is the same head as 'A' is left open"],
            phases: vec![
                Phase { name: "history", kind: Kind::Random, quick: 600_000, thorough: 6_000_000, f: p12_history },
                Phase { name: "many-rules", kind: Kind::Random, quick: 2_000, thorough: 20_000, f: p12_many },
                Phase { name: "huge-symbols", kind: Kind::Random, quick: 32, thorough: 480, f: p12_huge_symbols },
                Phase { name: "huge-rules", kind: Kind::Random, quick: 8, thorough: 80, f: p12_huge_rules },
            ],
        },
        Prop {
            id: "P25",
            rule: "A history of additions of accepted and rejected rules and symbols to the RefCell collections, to a user-written store and to a store that refuses some symbols, compared with a model after every step; then the collected \
                   rules (distinct heads) and a System with the same rules derive the same strings (the many phase: up to 2000 rules over up to 3000 symbols, compared at the end; the huge phase: up to 300000 rules or symbols). Non-trivial: at least two accepted rules and one rejected one.",
            assumptions: &["single-threaded use, as RefCell requires"],
            phases: vec![
                Phase { name: "history", kind: Kind::Random, quick: 1_000_000, thorough: 10_000_000, f: p25_history },
                Phase { name: "many", kind: Kind::Random, quick: 1_500, thorough: 20_000, f: p25_many },
                Phase { name: "huge", kind: Kind::Random, quick: 48, thorough: 720, f: p25_huge },
            ],
        },
    ]
}

// ---------------------------------------------------------------------------------------- P12

#[derive(Default)]
struct Model {
    symbols: BTreeSet<usize>,
    rules: Vec<Rule>,
}

impl Model {
    fn add(&mut self, r: &Rule) {
        self.symbols.extend(r.pre.iter().chain(&r.post).copied());
        self.symbols.insert(r.target);
        for (_, b) in &r.bodies {
            self.symbols.extend(b.iter().copied());
        }
        match self.rules.iter_mut().find(|o| o.same_head(r)) {
            Some(o) => o.bodies.extend(r.bodies.iter().cloned()),
            None => self.rules.push(r.clone()),
        }
    }
}

fn check_rule(sy: &Symbols, got: &Production, want: &Rule, log: &str) -> R {
    let w = |p: Option<&ProductionString>| -> R<Vec<usize>> { p.map(|p| sy.word(p)).unwrap_or(Ok(vec![])) };
    let h = got.head();
    let same = w(h.pre_context())? == want.pre && w(h.post_context())? == want.post && *h.target() == sy.syms[want.target];
    ensure!(same, "{log}: the returned rule has another head");
    ensure!(got.all_bodies().len() == want.bodies.len(), "{log}: the returned rule has {} alternatives, expected {}", got.all_bodies().len(), want.bodies.len());
    for (b, (c, body)) in got.all_bodies().iter().zip(&want.bodies) {
        ensure!(sy.word(b.string())? == *body, "{log}: the returned rule has the alternative [{}], expected {:?}", b.string(), gen::show_word(&sy.names, body));
        let c: Option<f32> = c.as_ref().map(|c| c.parse().unwrap());
        ensure!(b.chance().is_user_set() == c.is_some(), "{log}: an alternative's probability is stated: {}", b.chance().is_user_set());
        if let Some(c) = c {
            ensure!(b.chance().unwrap_or(-1.0) == c, "{log}: an alternative has probability {}, expected {c}", b.chance().unwrap_or(-1.0));
        }
    }
    Ok(())
}

fn check_state(sy: &Symbols, system: &System, m: &Model, log: &str) -> R {
    let (n, k) = (sut("symbol_len", || system.symbol_len())?, sut("production_len", || system.production_len())?);
    ensure!(n == m.symbols.len(), "{log}: the system counts {n} symbols, expected {}", m.symbols.len());
    ensure!(k == m.rules.len(), "{log}: the system counts {k} rules, expected {}", m.rules.len());
    for (i, name) in sy.names.iter().enumerate() {
        let got = sut("get_symbol", || system.get_symbol(name))?;
        match got {
            Some(x) => {
                ensure!(m.symbols.contains(&i), "{log}: the symbol {name:?} was never added and is found");
                ensure!(x == sy.syms[i], "{log}: looking up {name:?} gives the symbol {x}");
            }
            None => ensure!(!m.symbols.contains(&i), "{log}: the symbol {name:?} was added and is not found"),
        }
    }
    Ok(())
}

const REJECTED: [&str; 12] = ["", "   ", "A", "A B", "-> A", "A B -> C", "< -> A", "A -> 2 B", "A -> -0.5 B", "A < B C > D -> E", "> A -> B", "A -> 1.5"];

/// A text that is no rule, often close to one that is there.
fn rejected_text(s: &mut Src, sy: &Symbols, rules: &[Rule], k: usize) -> String {
    if s.chance(1, 3) {
        return s.pick(&REJECTED).to_string();
    }
    let mut r = random_rule(s, k);
    if !rules.is_empty() && s.bool() {
        let o = s.pick(rules).clone();
        (r.pre, r.target, r.post) = (o.pre, o.target, o.post);
    }
    match s.below(3) {
        0 => {
            r.bodies[0].0 = Some(s.pick(&["1.5", "0", "-0.1", "NaN", "2", "-0", "1e9"]).to_string());
            gen::rule_text(&sy.names, &r, 0)
        }
        1 => {
            let extra = s.pick(&sy.names).clone();
            format!("{} {extra} {} -> {}", if r.pre.is_empty() { String::new() } else { gen::show_word(&sy.names, &r.pre) + " <" }, sy.names[r.target], gen::show_word(&sy.names, &r.bodies[0].1))
        }
        _ => {
            r.bodies[0].0 = None;
            let t = gen::rule_text(&sy.names, &r, 0);
            t.replacen("->", *s.pick(&["-", ">", "=", ""]), 1)
        }
    }
}

fn random_rule(s: &mut Src, k: usize) -> Rule {
    let c = |s: &mut Src, k: usize| {
        let n = s.weighted(&[36, 12, 6, 1, 1]);
        (0..n).map(|_| s.below(k)).collect::<Vec<_>>()
    };
    let (pre, post) = (c(s, k), c(s, k));
    let nb = s.weighted(&[2, 4, 3, 2, 1]);
    let chance = if s.chance(1, 4) { Some(s.pick(&["0.1", "0.2", "0.05"]).to_string()) } else { None };
    Rule { pre, target: s.below(k), post, bodies: vec![(chance, (0..nb).map(|_| s.below(k)).collect())] }
}

fn p12_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 7);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let count = s.range(1, 3);
    let systems: Vec<System> = (0..count).map(|i| if i % 2 == 0 { System::new() } else { System::default() }).collect();
    let mut models: Vec<Model> = (0..count).map(|_| Model::default()).collect();
    let steps = s.len(1, 150);
    // Few heads with many alternatives, at times.
    let again = if s.chance(1, 4) { 17 } else { 8 };
    let mut log = String::new();
    let (mut repeated, mut rejected) = (false, false);
    let mut words: Vec<Vec<usize>> = Vec::new();
    for _ in 0..steps {
        let at = s.below(count);
        let (system, m) = (&systems[at], &mut models[at]);
        log.push_str(&format!("{at}:"));
        match s.weighted(&[12, 40, 10, 12, 10]) {
            0 => {
                let i = s.below(k);
                let n = &sy.names[i];
                let padded = format!("{}{n}{}", gen::white(s, 0), gen::white(s, 0));
                log.push_str(&format!("symbol {padded:?}; "));
                let how = s.below(3);
                let r = match how {
                    0 => sut("add_symbol", || system.add_symbol(padded.as_str()))?,
                    1 => sut("add_symbol", || system.add_symbol(padded.clone()))?,
                    _ => sut("add_symbol", || system.add_symbol(sy.syms[i]))?,
                };
                match r {
                    Ok(x) => ensure!(x == sy.syms[i], "{log}: adding the symbol {n:?} returned {x}"),
                    Err(e) => violated!("{log}: the symbol {n:?} was refused: {e}"),
                }
                m.symbols.insert(i);
            }
            1 => {
                let mut r = random_rule(s, k);
                // Often a head that is there already.
                if !m.rules.is_empty() && s.chance(again, 20) {
                    let o = s.pick(&m.rules).clone();
                    (r.pre, r.target, r.post) = (o.pre, o.target, o.post);
                }
                let text = gen::rule_text(&sy.names, &r, 0);
                log.push_str(&format!("{text:?}; "));
                repeated |= m.rules.iter().any(|o| o.same_head(&r));
                let how = s.below(4);
                let got = if how == 3 {
                    sut("parse_and_add_production", || parse_and_add_production(system, system, &text))?.map_err(|e| Fail::Violation(format!("{log}: refused: {e}")))?
                } else {
                    sy.add(system, &r, 0, how)?
                };
                m.add(&r);
                let want = m.rules.iter().find(|o| o.same_head(&r)).unwrap();
                check_rule(&sy, &got, want, &log)?;
            }
            2 => {
                rejected = true;
                let t = rejected_text(s, &sy, &m.rules, k);
                let how = s.below(4);
                log.push_str(&format!("reject {t:?}; "));
                let ok = match how {
                    0 => sut("add_production", || system.add_production(t.as_str()).is_ok())?,
                    1 => sut("add_production", || system.add_production(t.clone()).is_ok())?,
                    2 => sut("parse_and_add_production", || parse_and_add_production(system, system, &t).is_ok())?,
                    _ => {
                        let b = gen::white(s, 0);
                        sut("add_symbol", || system.add_symbol(b.as_str()).is_ok())?
                    }
                };
                ensure!(!ok, "{log}: this was accepted");
            }
            3 => {
                rejected = true;
                let n = match s.below(4) {
                    0 => gen::white(s, 0),
                    1 => format!("absent{}", s.draw(1 << 40)),
                    _ => s.pick(&sy.names).clone(),
                };
                log.push_str(&format!("find {n:?}; "));
                let got = sut("get_symbol", || system.get_symbol(&n))?;
                let want = sy.names.iter().position(|x| x == n.trim()).filter(|i| m.symbols.contains(i));
                ensure!(got.is_some() == want.is_some(), "{log}: found: {}", got.is_some());
            }
            _ => {
                let w = if !words.is_empty() && s.bool() { s.pick(&words).clone() } else { gen::word(s, k, 0, 12) };
                words.push(w.clone());
                log.push_str(&format!("derive {:?}; ", gen::show_word(&sy.names, &w)));
                if m.rules.iter().all(|r| r.bodies.len() == 1) && s.bool() {
                    let n = s.range(0, 3);
                    let mut want = w.clone();
                    for _ in 0..n {
                        want = model::step(&m.rules, &want);
                    }
                    let out = sut("derive", || system.derive(sy.string(&w), RunSettings::for_max_iterations(n)))?.map_err(|e| Fail::Violation(format!("{log}: failed: {e}")))?;
                    ensure!(sy.word(&out)? == want, "{log}: {n} iterations derived {:?}", clip(&out.to_string(), 300));
                }
                let res = sut("derive_once", || system.derive_once(sy.string(&w)))?;
                let too_much = |r: &Rule| r.bodies.len() > 1 && r.bodies.iter().flat_map(|b| &b.0).map(|c| c.parse::<f64>().unwrap()).sum::<f64>() > 0.999;
                if !m.rules.iter().any(too_much) {
                    let out = res.map_err(|e| Fail::Violation(format!("{log}: failed: {e}")))?;
                    let out = sy.word(&out)?;
                    ensure!(model::possible_step(&m.rules, &w, &out), "{log}: derived {:?}", gen::show_word(&sy.names, &out));
                }
            }
        }
        for i in 0..count {
            check_state(&sy, &systems[i], &models[i], &log)?;
        }
    }
    ctx.case(log);
    ctx.nontrivial = repeated && rejected;
    ctx.label_if(count > 1, "several systems");
    ctx.label_if(models.iter().any(|m| m.rules.len() >= 8), ">= 8 rules");
    Ok(())
}

/// Many heads, many alternatives of one head.
fn p12_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let top = *s.pick(&[600, 600, 2500]);
    let n = s.range(50, top);
    if s.bool() {
        return p12_many_once(s, ctx, n);
    }
    let sy = Symbols::new((0..n).map(|i| format!("R{i}")).collect())?;
    let alternatives = s.range(2, 120);
    let system = System::new();
    let mut m = Model::default();
    ctx.case(format!("{n} heads, one with {alternatives} alternatives, salt {}", s.draw(1 << 20)));
    for i in 0..n {
        let ctx_len = s.below(3);
        let r = Rule { pre: (0..ctx_len).map(|_| s.below(n)).collect(), target: i, post: vec![], bodies: vec![(None, vec![s.below(n), i])] };
        let h = s.below(3);
        let got = sy.add(&system, &r, 0, h)?;
        m.add(&r);
        check_rule(&sy, &got, m.rules.iter().find(|o| o.same_head(&r)).unwrap(), "many heads")?;
    }
    let pick = s.below(n);
    for j in 0..alternatives {
        let mut r = m.rules[pick].clone();
        r.bodies = vec![(None, vec![(pick + j) % n])];
        let h = s.below(3);
        let got = sy.add(&system, &r, 0, h)?;
        m.add(&r);
        check_rule(&sy, &got, &m.rules[pick], "many alternatives")?;
    }
    check_state(&sy, &system, &m, "at the end")?;
    ctx.nontrivial = true;
    ctx.inner = (n + alternatives) as u64;
    Ok(())
}

/// Many symbols or rules, each added once and counted at once.
fn p12_many_once(s: &mut Src, ctx: &mut Ctx, n: usize) -> R {
    let sy = Symbols::new((0..n).map(|i| format!("R{i}")).collect())?;
    let system = System::new();
    let mut m = Model::default();
    let kind = s.below(3);
    let salt = s.draw(1 << 20) as usize;
    ctx.case(format!("{n} times {}, salt {salt}", ["a symbol", "a rule", "a rule with a context"][kind]));
    for i in 0..n {
        if kind == 0 {
            let got = sut("add_symbol", || system.add_symbol(sy.syms[i]))?.map_err(|e| Fail::Violation(format!("symbol {i} was refused: {e}")))?;
            ensure!(got == sy.syms[i], "adding a symbol returned {got}");
            m.symbols.insert(i);
        } else {
            let pre = if kind == 2 { vec![(i * 7 + salt) % n] } else { vec![] };
            let r = Rule { pre, target: i, post: vec![], bodies: vec![(None, vec![])] };
            let how = s.below(3);
            let got = sy.add(&system, &r, 0, how)?;
            check_rule(&sy, &got, &r, "each head once")?;
            m.add(&r);
        }
        let (a, b) = (sut("symbol_len", || system.symbol_len())?, sut("production_len", || system.production_len())?);
        ensure!(a == m.symbols.len() && b == m.rules.len(), "after {} additions of {} the system counts {a} symbols and {b} rules, expected {} and {}", i + 1, ["a symbol", "a rule", "a rule with a context"][kind], m.symbols.len(), m.rules.len());
    }
    check_state(&sy, &system, &m, "at the end")?;
    if kind > 0 {
        let w: Vec<usize> = (0..n).map(|i| (i * 7 + salt) % n).collect();
        let out = sut("derive_once", || system.derive_once(sy.string(&w)))?.map_err(|e| Fail::Violation(format!("failed: {e}")))?;
        ensure!(sy.word(&out)? == model::step(&m.rules, &w), "a step with {n} rules derived another string");
    }
    ctx.nontrivial = true;
    ctx.inner = n as u64;
    Ok(())
}

/// A system with very many symbols, some added more than once.
fn p12_huge_symbols(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = gen::huge_len(s);
    let (every, first) = (s.range(2, 50), s.below(1000));
    let system = System::new();
    ctx.case(format!("{n} symbols from number {first}, each {every}th twice"));
    ctx.nontrivial = true;
    ctx.label_if(n > 65_536, "more than 65536 symbols");
    let mut added = Vec::with_capacity(n);
    for i in 0..n {
        let name = format!("hs{}", first + i);
        let times = 1 + (i % every == 0) as usize;
        for t in 0..times {
            let got = if t == 0 { sut("add_symbol", || system.add_symbol(name.as_str()))? } else { sut("add_symbol", || system.add_symbol(added[i]))? };
            let got = got.map_err(|e| Fail::Violation(format!("symbol {name:?} was refused as number {i}: {e}")))?;
            if t == 0 {
                added.push(got);
            }
            ensure!(got == added[i], "adding {name:?} again gives {got}");
        }
        let count = sut("symbol_len", || system.symbol_len())?;
        ensure!(count == i + 1, "after {} symbols the system counts {count}", i + 1);
    }
    for j in 0..2_000 {
        let i = if j < 20 { n - 1 - j } else { s.below(n) };
        let got = sut("get_symbol", || system.get_symbol(&format!("hs{}", first + i)))?;
        ensure!(got == Some(added[i]), "of {n} symbols number {i} is looked up as {got:?}");
    }
    let got = sut("get_symbol", || system.get_symbol(&format!("hs{}", first + n)))?;
    ensure!(got.is_none(), "a symbol that was not added is found");
    Ok(())
}

/// A system with very many rules, some of them given alternatives later.
fn p12_huge_rules(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = match s.below(4) {
        0 => s.range(65_530, 66_200),
        1 => s.range(20_000, 30_000),
        _ => s.range(3_000, 20_000),
    };
    let step = s.range(1, n - 1);
    ctx.case(format!("{n} rules, {step} apart"));
    ctx.nontrivial = true;
    ctx.label_if(n > 65_536, "more than 65536 rules");
    let fail = |e: Error| Fail::Violation(e.to_string());
    let mut syms = Vec::with_capacity(n);
    for i in 0..n {
        syms.push(sut("Symbol::build", || Symbol::build(format!("hs{i}")))?.map_err(fail)?);
    }
    let system = System::new();
    let body = |r: usize| ProductionString::from(vec![syms[r], syms[(r + step) % n]]);
    let make = |r: usize, b: ProductionString| -> R<Production> { Ok(Production::new(ProductionHead::build(None, syms[r], None).map_err(fail)?, ProductionBody::new(b))) };
    let check = |got: &Production, r: usize, bodies: &[ProductionString]| -> R {
        let same = got.head().pre_context().map_or(true, |c| c.is_empty()) && got.head().post_context().map_or(true, |c| c.is_empty()) && *got.head().target() == syms[r];
        ensure!(same, "of {n} rules number {r} is returned with another head");
        ensure!(got.all_bodies().iter().map(|b| b.string()).eq(bodies.iter()), "of {n} rules number {r} is returned with {} alternatives, expected {}, or others", got.all_bodies().len(), bodies.len());
        Ok(())
    };
    for r in 0..n {
        let p = make(r, body(r))?;
        let got = sut("add_production", || system.add_production(p))?.map_err(|e| Fail::Violation(format!("rule {r} was refused: {e}")))?;
        check(&got, r, &[body(r)])?;
        if r % 100 == 0 || r + 100 > n || (65_500..65_600).contains(&r) {
            let count = sut("production_len", || system.production_len())?;
            ensure!(count == r + 1, "after {} rules the system counts {count}", r + 1);
        }
    }
    // Alternatives for some of them, most of them late.
    let mut more: HashMap<usize, Vec<ProductionString>> = HashMap::new();
    for j in 0..60 {
        let r = if j < 30 { n - 1 - s.below(n / 10) } else { s.below(n) };
        let new = ProductionString::from(vec![syms[j], syms[r]]);
        let bodies = more.entry(r).or_insert_with(|| vec![body(r)]);
        bodies.push(new.clone());
        let got = if s.bool() {
            sut("add_production", || system.add_production(format!("hs{r} -> hs{j} hs{r}")))?
        } else {
            let p = make(r, new)?;
            sut("add_production", || system.add_production(p))?
        };
        check(&got.map_err(|e| Fail::Violation(format!("an alternative for rule {r} was refused: {e}")))?, r, bodies)?;
    }
    let count = sut("production_len", || system.production_len())?;
    ensure!(count == n, "alternatives for existing rules make the system count {count} rules instead of {n}");
    let symbols = sut("symbol_len", || system.symbol_len())?;
    ensure!(symbols == n, "the system counts {symbols} symbols instead of {n}");
    // A step with the last rules.
    let at: Vec<usize> = (0..20).map(|_| n - 1 - s.below(n / 10)).collect();
    let string = ProductionString::from(at.iter().map(|r| syms[*r]).collect::<Vec<_>>());
    let out = sut("derive_once", || system.derive_once(string))?.map_err(|e| Fail::Violation(format!("failed: {e}")))?;
    ensure!(out.len() == 2 * at.len(), "a step with {n} rules on {at:?} gives {out}");
    for (i, r) in at.iter().enumerate() {
        let pair = ProductionString::from(vec![out[2 * i], out[2 * i + 1]]);
        let ok = more.get(r).map_or(pair == body(*r), |b| b.contains(&pair));
        ensure!(ok, "a step with {n} rules on {at:?} gives {out}");
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------- P25

/// A user's own store: keeps symbols in a list, may refuse one.
#[derive(Default)]
struct Own {
    symbols: RefCell<Vec<Symbol>>,
    rules: RefCell<Vec<Production>>,
    refuse: Option<Symbol>,
    refuse_rules: bool,
}

impl SymbolStore for Own {
    fn add_symbol<S>(&self, symbol: S) -> rusty_systems::Result<Symbol>
    where
        S: TryInto<Symbol>,
        S::Error: Into<Error>,
    {
        let x = symbol.try_into().map_err(Into::into)?;
        if Some(x) == self.refuse {
            return Err(Error::general("refused by the store"));
        }
        let mut v = self.symbols.borrow_mut();
        if !v.contains(&x) {
            v.push(x);
        }
        Ok(x)
    }
    fn get_symbol(&self, name: &str) -> Option<Symbol> {
        self.symbols.borrow().iter().copied().find(|x| x.name().as_deref() == Some(name))
    }
}

impl ProductionStore for Own {
    fn add_production<P>(&self, production: P) -> rusty_systems::Result<Production>
    where
        P: TryInto<Production>,
        P::Error: Into<Error>,
    {
        let p = production.try_into().map_err(Into::into)?;
        if self.refuse_rules {
            return Err(Error::general("refused by the store"));
        }
        self.rules.borrow_mut().push(p.clone());
        Ok(p)
    }
}

fn p25_history(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(1, 6);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let symbols: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    let rules: RefCell<Vec<Production>> = RefCell::new(Vec::new());
    let mut own = Own::default();
    let use_own = s.chance(1, 3);
    if use_own && s.chance(1, 3) {
        own.refuse = Some(*s.pick(&sy.syms));
    }
    own.refuse_rules = use_own && s.chance(1, 10);
    let mut want_symbols: BTreeSet<usize> = BTreeSet::new();
    let mut want_rules: Vec<Rule> = Vec::new();
    let distinct = s.bool();
    let steps = s.len(1, 200);
    let mut log = format!("own store {use_own}: ");
    let (mut ok, mut bad) = (0, 0);
    for _ in 0..steps {
        match s.weighted(&[60, 20, 10, 10]) {
            0 => {
                let r = random_rule(s, k);
                if distinct && want_rules.iter().any(|o| o.same_head(&r)) {
                    continue;
                }
                let text = gen::rule_text(&sy.names, &r, 0);
                log.push_str(&format!("{text:?}; "));
                let res = if use_own {
                    sut("parse_and_add_production", || parse_and_add_production(&own, &own, &text))?
                } else {
                    match s.below(3) {
                        0 => {
                            // By hand: the symbols, then the rule.
                            for i in r.pre.iter().chain(&r.post).chain([&r.target]).chain(&r.bodies[0].1) {
                                sut("add_symbol", || symbols.add_symbol(sy.names[*i].as_str()))?.map_err(|e| Fail::Violation(e.to_string()))?;
                            }
                            let h = s.below(3);
                            Ok(sy.add(&rules, &r, 0, h)?)
                        }
                        _ => sut("parse_and_add_production", || parse_and_add_production(&symbols, &rules, &text))?,
                    }
                };
                let mut used = r.pre.iter().chain(&r.post).chain([&r.target]).chain(&r.bodies[0].1);
                let refused = own.refuse_rules || own.refuse.is_some_and(|x| used.any(|i| sy.syms[*i] == x));
                drop(used);
                match res {
                    Ok(p) => {
                        ensure!(!refused, "{log}: the store refused this and the addition succeeded");
                        check_rule(&sy, &p, &r, &log)?;
                        want_symbols.extend(r.pre.iter().chain(&r.post).chain([&r.target]).chain(&r.bodies[0].1).copied());
                        want_rules.push(r);
                        ok += 1;
                    }
                    Err(e) => {
                        ensure!(refused, "{log}: refused: {e}");
                        // What a user's store keeps of a rule that it refuses is its own affair.
                        ctx.label("refused by the store");
                        own.symbols.borrow_mut().clear();
                        for i in &want_symbols {
                            own.symbols.borrow_mut().push(sy.syms[*i]);
                        }
                    }
                }
            }
            1 => {
                let t = rejected_text(s, &sy, &want_rules, k);
                log.push_str(&format!("reject {t:?}; "));
                let r = if use_own { sut("parse_and_add_production", || parse_and_add_production(&own, &own, &t).is_ok())? } else { sut("parse_and_add_production", || parse_and_add_production(&symbols, &rules, &t).is_ok())? };
                ensure!(!r, "{log}: this was accepted");
                bad += 1;
            }
            2 => {
                let b = gen::white(s, 0);
                log.push_str(&format!("symbol {b:?}; "));
                ensure!(sut("add_symbol", || symbols.add_symbol(b.as_str()).is_err())?, "{log}: a blank symbol was accepted");
                let r = sut("add_production", || rules.add_production("A B").is_err())?;
                ensure!(r, "{log}: a rule without an arrow was accepted");
            }
            _ => {
                let i = s.below(k);
                let padded = format!("{}{}", gen::white(s, 0), sy.names[i]);
                log.push_str(&format!("find {padded:?}; "));
                let got = sut("get_symbol", || symbols.get_symbol(&padded))?;
                let want = !use_own && want_symbols.contains(&i);
                ensure!(got == if want { Some(sy.syms[i]) } else { None }, "{log}: found {got:?}");
            }
        }
        // Compare.
        if use_own {
            let v = own.symbols.borrow();
            ensure!(v.len() == want_symbols.len() && want_symbols.iter().all(|i| v.contains(&sy.syms[*i])), "{log}: the store holds {} symbols, expected {}", v.len(), want_symbols.len());
            let v = own.rules.borrow();
            ensure!(v.len() == want_rules.len(), "{log}: the store holds {} rules, expected {}", v.len(), want_rules.len());
            for (p, r) in v.iter().zip(&want_rules) {
                check_rule(&sy, p, r, &log)?;
            }
        } else {
            let v = symbols.borrow();
            ensure!(v.len() == want_symbols.len() && want_symbols.iter().all(|i| v.contains(&sy.syms[*i].code())), "{log}: the collection holds {} symbols, expected {}", v.len(), want_symbols.len());
            for (i, n) in sy.names.iter().enumerate() {
                let got = sut("get_symbol", || symbols.get_symbol(n))?;
                ensure!(got.is_some() == want_symbols.contains(&i), "{log}: {n:?} is found: {}", got.is_some());
            }
            let v = rules.borrow();
            ensure!(v.len() == want_rules.len(), "{log}: the collection holds {} rules, expected {}", v.len(), want_rules.len());
            for (p, r) in v.iter().zip(&want_rules) {
                check_rule(&sy, p, r, &log)?;
            }
        }
    }
    ctx.nontrivial = ok >= 2 && bad >= 1;
    let all_distinct = (0..want_rules.len()).all(|i| (0..i).all(|j| !want_rules[i].same_head(&want_rules[j])));
    if all_distinct {
        ctx.label("derived");
        let w = gen::word(s, k, 0, 30);
        let n = s.range(0, 3);
        let builtin = System::new();
        for r in &want_rules {
            sut("add_production", || builtin.add_production(parser::parse_production(&gen::rule_text(&sy.names, r, 0))?))?.map_err(|e| Fail::Violation(e.to_string()))?;
        }
        let mut word = w.clone();
        for _ in 0..n {
            word = model::step(&want_rules, &word);
            if word.len() > 3000 {
                return Ok(());
            }
        }
        let prods = if use_own { own.rules.borrow().clone() } else { rules.borrow().clone() };
        let a = sut("derive", || system::derive(sy.string(&w), &prods, RunSettings::for_max_iterations(n)))?.map_err(|e| Fail::Violation(format!("{log}: {e}")))?;
        let b = sut("System::derive", || builtin.derive(sy.string(&w), RunSettings::for_max_iterations(n)))?.map_err(|e| Fail::Violation(format!("{log}: {e}")))?;
        ensure!(a == b, "{log}: {n} iterations on {:?} give [{}] with the collected rules and [{}] with a system", gen::show_word(&sy.names, &w), clip(&a.to_string(), 300), clip(&b.to_string(), 300));
        ensure!(sy.word(&a)? == word, "{log}: {n} iterations on {:?} give [{}]", gen::show_word(&sy.names, &w), clip(&a.to_string(), 300));
    }
    ctx.case(log);
    Ok(())
}

/// Large collections.
fn p25_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = if s.chance(1, 3) { s.range(100, 3000) } else { s.len(2, 3000) };
    let sy = Symbols::new((0..k).map(|i| format!("n{i}{}", if i % 7 == 3 { "é" } else { "" })).collect())?;
    let symbols: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    let list: RefCell<Vec<Production>> = RefCell::new(Vec::new());
    let own = Own::default();
    let use_own = s.chance(1, 4);
    let n = if s.chance(1, 3) { s.range(100, 2000) } else { s.len(1, 2000) };
    let mut seen: HashSet<(Vec<usize>, usize, Vec<usize>)> = HashSet::new();
    let mut want: Vec<Rule> = Vec::new();
    let mut used: BTreeSet<usize> = BTreeSet::new();
    let long = s.chance(1, 10);
    let mut rejected = 0;
    for i in 0..n {
        let side = |s: &mut Src| -> Vec<usize> {
            let n = if s.chance(2, 3) { 0 } else { s.range(1, 4) };
            (0..n).map(|_| s.below(k)).collect()
        };
        let nb = if long && i < 3 { s.range(0, 20_000) } else { s.small(0, 12) };
        let r = Rule { pre: side(s), target: s.below(k), post: side(s), bodies: vec![(None, (0..nb).map(|_| s.below(k)).collect())] };
        if !seen.insert((r.pre.clone(), r.target, r.post.clone())) {
            continue;
        }
        let text = gen::rule_text(&sy.names, &r, 0);
        let p = if use_own { sut("parse_and_add_production", || parse_and_add_production(&own, &own, &text))? } else { sut("parse_and_add_production", || parse_and_add_production(&symbols, &list, &text))? };
        let p = match p {
            Ok(p) => p,
            Err(e) => violated!("rule {i}, {:?}: refused: {e}", clip(&text, 200)),
        };
        check_rule(&sy, &p, &r, "returned")?;
        used.extend(r.pre.iter().chain(&r.post).chain([&r.target]).chain(&r.bodies[0].1).copied());
        want.push(r);
        if s.chance(1, 20) {
            let t = rejected_text(s, &sy, &want, k);
            let ok = if use_own { sut("parse_and_add_production", || parse_and_add_production(&own, &own, &t).is_ok())? } else { sut("parse_and_add_production", || parse_and_add_production(&symbols, &list, &t).is_ok())? };
            ensure!(!ok, "after {} rules: {t:?} was accepted", want.len());
            rejected += 1;
        }
    }
    ctx.case(format!("{} rules over {k} symbols, {rejected} rejected, own store {use_own}", want.len()));
    ctx.nontrivial = want.len() >= 2 && rejected >= 1;
    ctx.label_if(want.len() > 100, "more than 100 rules");
    ctx.label_if(want.len() > 1000, "more than 1000 rules");
    let what = ctx.case.clone();
    let prods = if use_own { own.rules.borrow().clone() } else { list.borrow().clone() };
    ensure!(prods.len() == want.len(), "{what}: the collection holds {} rules", prods.len());
    for (p, r) in prods.iter().zip(&want) {
        check_rule(&sy, p, r, &what)?;
    }
    let held: HashSet<u32> = if use_own { own.symbols.borrow().iter().map(|s| s.code()).collect() } else { symbols.borrow().clone() };
    let expect: HashSet<u32> = used.iter().map(|i| sy.syms[*i].code()).collect();
    ensure!(held == expect, "{what}: the collection holds {} symbols instead of {}", held.len(), expect.len());
    if use_own {
        ensure!(own.symbols.borrow().len() == held.len(), "{what}: a symbol was stored twice");
    }
    for i in 0..k.min(300) {
        if !use_own {
            let got = sut("get_symbol", || symbols.get_symbol(&sy.names[i]))?;
            ensure!(got == used.contains(&i).then_some(sy.syms[i]), "{what}: look-up of {:?} gives {got:?}", sy.names[i]);
        }
    }
    // The same rules in a system.
    let builtin = System::new();
    for r in &want {
        sy.add(&builtin, r, 0, 0)?;
    }
    let mut word: Vec<usize> = (0..s.range(0, 300)).map(|_| if want.is_empty() || s.bool() { s.below(k) } else { s.pick(&want).target }).collect();
    let w = word.clone();
    let n = s.range(0, 3);
    let mut done = 0;
    while done < n {
        let next = model::step(&want, &word);
        if next.len() > 3000 {
            break;
        }
        word = next;
        done += 1;
    }
    let a = sut("derive", || system::derive(sy.string(&w), &prods, RunSettings::for_max_iterations(done)))?.map_err(|e| Fail::Violation(format!("{what}: {e}")))?;
    let b = sut("System::derive", || builtin.derive(sy.string(&w), RunSettings::for_max_iterations(done)))?.map_err(|e| Fail::Violation(format!("{what}: {e}")))?;
    ensure!(a == b, "{what}: {done} iterations give [{}] with the collected rules and [{}] with a system", clip(&a.to_string(), 300), clip(&b.to_string(), 300));
    ensure!(sy.word(&a)? == word, "{what}: {done} iterations give [{}] instead of [{}]", clip(&a.to_string(), 300), clip(&gen::show_word(&sy.names, &word), 300));
    Ok(())
}

/// Collections of very many symbols or rules.
fn p25_huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = gen::huge_len(s);
    ctx.nontrivial = true;
    ctx.label_if(n > 65_536, "more than 65536");
    if s.bool() {
        ctx.case(format!("{n} symbols"));
        let symbols: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
        let mut added = Vec::with_capacity(n);
        for i in 0..n {
            let x = sut("add_symbol", || symbols.add_symbol(format!("hs{i}")))?.map_err(|e| Fail::Violation(format!("symbol {i} was refused: {e}")))?;
            added.push(x);
        }
        let held = symbols.borrow().len();
        ensure!(held == n, "a collection given {n} symbols holds {held}");
        for j in 0..2_000 {
            let i = if j < 20 { n - 1 - j } else { s.below(n) };
            let got = sut("get_symbol", || symbols.get_symbol(&format!("hs{i}")))?;
            ensure!(got == Some(added[i]), "of {n} symbols number {i} is looked up as {got:?}");
        }
        ensure!(sut("get_symbol", || symbols.get_symbol(&format!("hs{n}")))?.is_none(), "a symbol that was not added is found");
        return Ok(());
    }
    let k = s.range(2, 300);
    let step = s.range(1, k);
    let sy = Symbols::new((0..k).map(|i| format!("R{i}")).collect())?;
    let by_text = s.range(2, 100);
    ctx.case(format!("{n} rules over {k} symbols, {step} apart, each {by_text}th from a text"));
    let rule = |r: usize| Rule { pre: if r % 3 == 0 { vec![] } else { vec![r / k % k] }, target: r * step % k, post: if r % 5 == 0 { vec![r % 7 % k] } else { vec![] }, bodies: vec![(None, vec![r % k; r % 4])] };
    let symbols: RefCell<HashSet<u32>> = RefCell::new(HashSet::new());
    let list: RefCell<Vec<Production>> = RefCell::new(Vec::new());
    for r in 0..n {
        let x = rule(r);
        let got = if r % by_text == 0 {
            let t = gen::rule_text(&sy.names, &x, 0);
            sut("parse_and_add_production", || parse_and_add_production(&symbols, &list, &t))?.map_err(|e| Fail::Violation(format!("rule {r} was refused: {e}")))?
        } else {
            sy.add(&list, &x, 0, 2)?
        };
        check_rule(&sy, &got, &x, "returned")?;
    }
    let v = list.borrow();
    ensure!(v.len() == n, "a collection given {n} rules holds {}", v.len());
    for (r, p) in v.iter().enumerate() {
        check_rule(&sy, p, &rule(r), "collected")?;
    }
    Ok(())
}
