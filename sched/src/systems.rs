//! P13: one system used from several threads.

use crate::run::*;
use engine::*;
use rusty_systems::prelude::*;
use rusty_systems::symbols::{get_code, SymbolStore};
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P13",
        rule: "Two to four threads run short programs of rule additions, symbol additions, look-ups, counts and derivations on one system, under a schedule chosen at every operation on its locks: drawn at random, or enumerated with at most two \
               preemptions. The history of rule additions, rule counts and derivations must fit some sequential order that respects which call ended before another began (searched exhaustively against a model of the rule list); symbol operations must lie \
               between what was certainly there and what can have been there. Non-trivial: at least one thread was interrupted where it could have gone on, one thread adds a rule, and another thread adds a rule, counts or derives.",
        assumptions: &[
            "scheduling points are the operations of std::sync (locks, one-time initialisation, atomics), executed in a sequentially consistent order",
            "the enumerated phases cover at most two preemptions of small fixed programs",
            "rules are added and applied as in a single thread, which other properties decide",
        ],
        phases: vec![
            Phase { name: "two preemptions, two threads", kind: Kind::Enumerate, quick: 150_000, thorough: 400_000, f: enumerated2 },
            Phase { name: "two preemptions, three threads", kind: Kind::Enumerate, quick: 80_000, thorough: 1_000_000, f: enumerated3 },
            Phase { name: "random schedules", kind: Kind::Random, quick: 80_000, thorough: 6_000_000, f: random },
            Phase { name: "real threads", kind: Kind::Random, quick: 8_000, thorough: 300_000, f: real },
        ],
    }]
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

/// Names are numbers here: 0..4 the alphabet, 4.. the marker of rule n-4.
type Name = usize;
const ALPHABET: usize = 3;

#[derive(Clone, Debug, PartialEq)]
struct Rule {
    pre: Option<Name>,
    target: Name,
    post: Option<Name>,
    body: Vec<Name>,
}

impl Rule {
    fn names(&self) -> Vec<Name> {
        let mut v = vec![self.target];
        v.extend(self.pre);
        v.extend(self.post);
        v.extend(&self.body);
        v
    }
    fn head(&self) -> (Option<Name>, Name, Option<Name>) {
        (self.pre, self.target, self.post)
    }
}

#[derive(Clone, Debug)]
enum Op {
    Rule(usize),
    Symbol(Name),
    Look(Name),
    Symbols,
    Count,
    Once(Vec<Name>),
    Derive(Vec<Name>, usize),
}

/// The names as short texts, for descriptions.
fn show(n: Name) -> String {
    if n < ALPHABET {
        ["a", "b", "c"][n].to_string()
    } else {
        format!("m{}", n - ALPHABET)
    }
}

fn show_all(v: &[Name]) -> String {
    v.iter().map(|n| show(*n)).collect::<Vec<_>>().join(" ")
}

fn show_rule(r: &Rule) -> String {
    format!(
        "{}{}{} -> {}",
        r.pre.map(|p| format!("{} < ", show(p))).unwrap_or_default(),
        show(r.target),
        r.post.map(|p| format!(" > {}", show(p))).unwrap_or_default(),
        show_all(&r.body)
    )
}

fn show_op(o: &Op, rules: &[Rule]) -> String {
    match o {
        Op::Rule(i) => format!("add '{}'", show_rule(&rules[*i])),
        Op::Symbol(n) => format!("add symbol {}", show(*n)),
        Op::Look(n) => format!("look up {}", show(*n)),
        Op::Symbols => "count symbols".into(),
        Op::Count => "count rules".into(),
        Op::Once(s) => format!("derive_once '{}'", show_all(s)),
        Op::Derive(s, n) => format!("derive '{}' {n} times", show_all(s)),
    }
}

#[derive(Clone, Debug)]
enum Out {
    /// Head and bodies, as codes.
    Production(Vec<u32>, Vec<Vec<u32>>),
    Code(u32),
    Found(Option<u32>),
    Number(usize),
    String(Vec<u32>),
    Error(String),
}

struct Program {
    /// The last of them may be there only to fill the system beforehand.
    rules: Vec<Rule>,
    fillers: usize,
    initial: Vec<Op>,
    threads: Vec<Vec<Op>>,
}

fn program(s: &mut Src, small: Option<usize>) -> Program {
    let n = s.range(1, 4);
    let rules: Vec<Rule> = (0..n)
        .map(|i| {
            let ctx = s.weighted(&[6, 1, 1]);
            let len = s.below(3);
            let mut body: Vec<Name> = (0..len).map(|_| s.below(ALPHABET)).collect();
            if !s.chance(1, 4) {
                let at = s.below(body.len() + 1);
                body.insert(at, ALPHABET + i);
            }
            Rule { pre: (ctx == 1).then(|| s.below(ALPHABET)), target: s.below(ALPHABET), post: (ctx == 2).then(|| s.below(ALPHABET)), body }
        })
        .collect();
    let op = |s: &mut Src| -> Op {
        match s.weighted(&[6, 1, 3, 1, 3, 3, 2]) {
            0 => Op::Rule(s.below(n)),
            1 => Op::Symbol(s.below(ALPHABET + n)),
            2 => {
                if s.bool() {
                    Op::Look(ALPHABET + s.below(n))
                } else {
                    Op::Look(s.below(ALPHABET))
                }
            }
            3 => Op::Symbols,
            4 => Op::Count,
            5 => {
                let len = s.range(1, 3);
                Op::Once((0..len).map(|_| s.below(ALPHABET)).collect())
            }
            _ => {
                let len = s.range(1, 2);
                let times = s.range(1, 3);
                Op::Derive((0..len).map(|_| s.below(ALPHABET)).collect(), times)
            }
        }
    };
    let k = s.below(2);
    let mut initial: Vec<Op> = (0..k).map(|_| Op::Rule(s.below(n))).collect();
    let mut rules = rules;
    let fillers = if small.is_none() && s.chance(1, 6) { s.range(2, 30) } else { 0 };
    for i in n..n + fillers {
        // Rewrites its marker to nothing or to itself; no other rule makes it.
        let own = ALPHABET + i;
        rules.push(Rule { pre: None, target: own, post: None, body: if i % 2 == 0 { vec![own] } else { vec![] } });
        let at = if i % 3 == 0 { 0 } else { initial.len() };
        initial.insert(at, Op::Rule(i));
    }
    let t = small.unwrap_or_else(|| 2 + s.weighted(&[5, 4, 1]));
    let max = if small.is_some() { 2 } else { 3 };
    let mut threads: Vec<Vec<Op>> = (0..t)
        .map(|_| {
            let k = s.range(1, max);
            (0..k).map(|_| op(s)).collect()
        })
        .collect();
    if s.bool() {
        // Someone sees a rule, then looks for its symbols.
        let r = s.below(n);
        threads[0].insert(0, Op::Rule(r));
        let see = if s.bool() { Op::Once(vec![rules[r].target]) } else { Op::Count };
        threads[1].insert(0, Op::Look(*s.pick(&rules[r].names())));
        threads[1].insert(0, see);
    }
    Program { rules, fillers, initial, threads }
}

fn perform(system: &System, op: &Op, rules: &[Rule], names: &[String]) -> Out {
    let text = |v: &[Name]| v.iter().map(|n| names[*n].as_str()).collect::<Vec<_>>().join(" ");
    let string = |v: &[Name]| rusty_systems::parser::parse_prod_string(&text(v));
    let codes = |p: &ProductionString| p.symbols().iter().map(|s| s.code()).collect::<Vec<u32>>();
    match op {
        Op::Rule(i) => {
            let r = &rules[*i];
            let t = format!(
                "{}{}{} -> {}",
                r.pre.map(|p| format!("{} < ", names[p])).unwrap_or_default(),
                names[r.target],
                r.post.map(|p| format!(" > {}", names[p])).unwrap_or_default(),
                text(&r.body)
            );
            match system.add_production(t.as_str()) {
                Ok(p) => {
                    let mut head = Vec::new();
                    head.extend(p.head().pre_context().map(codes).unwrap_or_default());
                    head.push(u32::MAX);
                    head.push(p.head().target().code());
                    head.push(u32::MAX);
                    head.extend(p.head().post_context().map(codes).unwrap_or_default());
                    Out::Production(head, p.all_bodies().iter().map(|b| codes(b.string())).collect())
                }
                Err(e) => Out::Error(e.to_string()),
            }
        }
        Op::Symbol(n) => match system.add_symbol(names[*n].as_str()) {
            Ok(s) => Out::Code(s.code()),
            Err(e) => Out::Error(e.to_string()),
        },
        Op::Look(n) => Out::Found(system.get_symbol(&names[*n]).map(|s| s.code())),
        Op::Symbols => Out::Number(system.symbol_len()),
        Op::Count => Out::Number(system.production_len()),
        Op::Once(v) => match string(v).and_then(|s| system.derive_once(s)) {
            Ok(p) => Out::String(codes(&p)),
            Err(e) => Out::Error(e.to_string()),
        },
        Op::Derive(v, n) => match string(v).and_then(|s| system.derive(s, RunSettings::for_max_iterations(*n))) {
            Ok(p) => Out::String(codes(&p)),
            Err(e) => Out::Error(e.to_string()),
        },
    }
}

/// The model: heads in order of addition, each with its bodies.
#[derive(Clone, Default, PartialEq, Eq, Hash)]
struct Model(Vec<((Option<Name>, Name, Option<Name>), Vec<Vec<Name>>)>);

const MANY: usize = 3000;

impl Model {
    fn add(&mut self, r: &Rule) {
        match self.0.iter_mut().find(|x| x.0 == r.head()) {
            Some(x) => x.1.push(r.body.clone()),
            None => self.0.push((r.head(), vec![r.body.clone()])),
        }
    }
    fn bodies(&self, s: &[Name], i: usize) -> Option<&Vec<Vec<Name>>> {
        self.0
            .iter()
            .find(|((pre, t, post), _)| {
                *t == s[i] && pre.is_none_or(|p| i > 0 && s[i - 1] == p) && post.is_none_or(|p| i + 1 < s.len() && s[i + 1] == p)
            })
            .map(|x| &x.1)
    }
    /// All strings one step can give; None if there are too many to list.
    fn step(&self, s: &[Name]) -> Option<HashSet<Vec<Name>>> {
        let mut set: HashSet<Vec<Name>> = HashSet::from([Vec::new()]);
        for i in 0..s.len() {
            let one = vec![vec![s[i]]];
            let bodies = self.bodies(s, i).unwrap_or(&one);
            let mut next = HashSet::new();
            for p in &set {
                for b in bodies {
                    let mut q = p.clone();
                    q.extend(b);
                    next.insert(q);
                }
            }
            if next.len() > MANY {
                return None;
            }
            set = next;
        }
        Some(set)
    }
    fn can_derive(&self, s: &[Name], n: usize, to: &[Name]) -> bool {
        let mut set: HashSet<Vec<Name>> = HashSet::from([s.to_vec()]);
        for _ in 0..n {
            let mut next = HashSet::new();
            for x in &set {
                match self.step(x) {
                    None => return true,
                    Some(v) => next.extend(v),
                }
            }
            if next.len() > MANY {
                return true;
            }
            set = next;
        }
        set.contains(to)
    }
}

/// A finished call in terms of names.
#[derive(Clone, Debug)]
enum Seen {
    /// The bodies of the returned production, sorted.
    Rule(usize, Vec<Vec<Name>>),
    Count(usize),
    Derived(Vec<Name>, usize, Vec<Name>),
}

struct Call {
    start: u64,
    end: u64,
    seen: Seen,
}

/// Searches a sequential order of the calls that respects real time and explains every result.
fn linearizable(calls: &[Call], rules: &[Rule]) -> bool {
    fn go(calls: &[Call], rules: &[Rule], done: u64, m: &Model, failed: &mut HashSet<(u64, Model)>) -> bool {
        if done == (1u64 << calls.len()) - 1 {
            return true;
        }
        if failed.contains(&(done, m.clone())) {
            return false;
        }
        let first_end = (0..calls.len()).filter(|i| done & (1 << i) == 0).map(|i| calls[i].end).min().unwrap();
        for (i, c) in calls.iter().enumerate() {
            // Only a call that began before every other open call ended can be next.
            if done & (1 << i) != 0 || c.start > first_end {
                continue;
            }
            let next = match &c.seen {
                Seen::Rule(r, bodies) => {
                    let mut n = m.clone();
                    n.add(&rules[*r]);
                    let mut b = n.0.iter().find(|x| x.0 == rules[*r].head()).unwrap().1.clone();
                    b.sort();
                    if b != *bodies {
                        continue;
                    }
                    Some(n)
                }
                Seen::Count(k) => {
                    if m.0.len() != *k {
                        continue;
                    }
                    None
                }
                Seen::Derived(s, n, to) => {
                    if !m.can_derive(s, *n, to) {
                        continue;
                    }
                    None
                }
            };
            if go(calls, rules, done | (1 << i), next.as_ref().unwrap_or(m), failed) {
                return true;
            }
        }
        failed.insert((done, m.clone()));
        false
    }
    go(calls, rules, 0, &Model::default(), &mut HashSet::new())
}

fn case(s: &mut Src, ctx: &mut Ctx, p: Program, strategy: impl FnOnce(&mut Src, usize) -> (Strategy, bool)) -> R {
    let serial = SERIAL.fetch_add(1, Ordering::SeqCst);
    let Program { rules, fillers, initial, threads } = p;
    let names: Vec<String> = (0..ALPHABET + rules.len()).map(|n| format!("p{serial}{}", show(n))).collect();
    sut("Symbol::build", || Symbol::build("warm").map(|s| s.name()).map_err(|e| e.to_string()))?.map_err(Fail::Violation)?;
    let strategy = strategy(s, threads.len());
    let how = format!("{:?}{}", strategy.0, if strategy.1 { ", waiting writers first" } else { "" });

    let system = Arc::new(System::new());
    let (rules, names) = (Arc::new(rules), Arc::new(names));
    let history: History<Op, Out> = History::new();
    let mut text = String::new();
    for o in &initial {
        let _ = write!(text, "first {}; ", show_op(o, &rules));
        sut("the first additions", || history.call(9, o.clone(), |o| perform(&system, o, &rules, &names)))?;
    }
    for (t, p) in threads.iter().enumerate() {
        let _ = write!(text, "{}: {}; ", letter(t), p.iter().map(|o| show_op(o, &rules)).collect::<Vec<_>>().join(", "));
    }
    let bodies: Vec<Body> = threads
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, ops)| {
            let (system, rules, names, history) = (system.clone(), rules.clone(), names.clone(), history.clone());
            Box::new(move || {
                for o in ops {
                    history.call(t, o, |o| perform(&system, o, &rules, &names));
                }
            }) as Body
        })
        .collect();
    ctx.case(format!("{text}{how}"));
    let ran = run(s, strategy, bodies)?;
    ctx.case(format!("{text}{how}; ran {}", ran.trace));
    ctx.inner = ran.steps;

    // Afterwards, everything is counted and looked at once more.
    let mut last: Vec<Op> = vec![Op::Count, Op::Symbols];
    last.extend((0..names.len()).map(Op::Look));
    for n in 0..ALPHABET {
        last.push(Op::Once(vec![n]));
    }
    for r in 0..rules.len() - fillers {
        // Returns all the bodies collected for the head.
        last.push(Op::Rule(r));
    }
    last.push(Op::Count);
    for o in last {
        sut("a call after the threads ended", || history.call(9, o, |o| perform(&system, o, &rules, &names)))?;
    }
    let events = history.take();

    let mut name_of: BTreeMap<u32, Name> = BTreeMap::new();
    for (i, n) in names.iter().enumerate() {
        match sut("get_code", || get_code(n).map_err(|e| e.to_string()))? {
            Ok(c) => name_of.insert(c, i),
            Err(e) => violated!("no symbol for {n:?}: {e}"),
        };
    }
    let who = |t: usize| if t == 9 { String::from("before or after the threads") } else { format!("thread {}", letter(t)) };
    let mut story = String::new();
    for e in &events {
        let _ = write!(story, "\n  {}..{} {}: {} = {:?}", e.start, e.end, who(e.thread), show_op(&e.op, &rules), e.out);
    }
    let named = |v: &[u32]| -> R<Vec<Name>> {
        v.iter()
            .map(|c| match name_of.get(c) {
                Some(n) => Ok(*n),
                None => Err(Fail::Violation(format!("a result has the symbol {c}, which nobody gave:{story}"))),
            })
            .collect()
    };

    // Translate the results.
    let mut calls: Vec<Call> = Vec::new();
    // When a name may first have been in the system, and from when on it must be.
    let mut may = vec![u64::MAX; names.len()];
    let mut must = vec![u64::MAX; names.len()];
    for e in &events {
        match &e.op {
            Op::Rule(r) => {
                for n in rules[*r].names() {
                    may[n] = may[n].min(e.start);
                    must[n] = must[n].min(e.end);
                }
            }
            Op::Symbol(n) => {
                may[*n] = may[*n].min(e.start);
                must[*n] = must[*n].min(e.end);
            }
            _ => {}
        }
    }
    // A visible rule makes its symbols visible. Its marker gives it away.
    let reveal = |must: &mut Vec<u64>, seen: &[Name], end: u64| {
        for n in seen {
            if *n >= ALPHABET {
                for x in rules[*n - ALPHABET].names() {
                    must[x] = must[x].min(end);
                }
            }
        }
    };
    for e in &events {
        let w = who(e.thread);
        let seen = match (&e.op, &e.out) {
            (_, Out::Error(m)) => violated!("{w}: {} failed: {m}{story}", show_op(&e.op, &rules)),
            (Op::Rule(r), Out::Production(head, bodies)) => {
                let rule = &rules[*r];
                let mut want = Vec::new();
                want.extend(rule.pre.map(|n| get(&name_of, n)));
                want.push(u32::MAX);
                want.push(get(&name_of, rule.target));
                want.push(u32::MAX);
                want.extend(rule.post.map(|n| get(&name_of, n)));
                ensure!(*head == want, "{w}: adding '{}' returned another rule{story}", show_rule(rule));
                let mut b = Vec::new();
                for x in bodies {
                    let x = named(x)?;
                    reveal(&mut must, &x, e.end);
                    b.push(x);
                }
                b.sort();
                Some(Seen::Rule(*r, b))
            }
            (Op::Count, Out::Number(n)) => {
                // If every rule that can be there is there, so are the symbols of the heads.
                let heads: HashSet<_> = events.iter().filter(|x| x.start < e.end).filter_map(|x| if let Op::Rule(r) = &x.op { Some(rules[*r].head()) } else { None }).collect();
                if *n >= heads.len() {
                    for (a, b, c) in heads {
                        for x in a.into_iter().chain([b]).chain(c) {
                            must[x] = must[x].min(e.end);
                        }
                    }
                }
                Some(Seen::Count(*n))
            }
            (Op::Once(v), Out::String(to)) => {
                let to = named(to)?;
                reveal(&mut must, &to, e.end);
                Some(Seen::Derived(v.clone(), 1, to))
            }
            (Op::Derive(v, n), Out::String(to)) => {
                let to = named(to)?;
                reveal(&mut must, &to, e.end);
                Some(Seen::Derived(v.clone(), *n, to))
            }
            (Op::Look(n), Out::Found(Some(c))) => {
                ensure!(name_of.get(c) == Some(n), "{w}: looking up {} gave the symbol {c}{story}", show(*n));
                must[*n] = must[*n].min(e.end);
                None
            }
            (Op::Symbol(n), Out::Code(c)) => {
                ensure!(name_of.get(c) == Some(n), "{w}: adding {} gave the symbol {c}{story}", show(*n));
                None
            }
            _ => None,
        };
        if let Some(seen) = seen {
            calls.push(Call { start: e.start, end: e.end, seen });
        }
    }
    for e in &events {
        let w = who(e.thread);
        match (&e.op, &e.out) {
            (Op::Look(n), Out::Found(f)) => {
                ensure!(f.is_some() || e.start <= must[*n], "{w}: {} is missing, although it was added, or a rule with it was visible, before the look-up{story}", show(*n));
                ensure!(f.is_none() || e.end >= may[*n], "{w}: {} was found before anyone added it{story}", show(*n));
            }
            (Op::Symbols, Out::Number(k)) => {
                let lo = must.iter().filter(|m| **m < e.start).count();
                let hi = may.iter().filter(|m| **m < e.end).count();
                ensure!((lo..=hi).contains(k), "{w}: {k} symbols counted where there must have been {lo} to {hi}{story}");
            }
            _ => {}
        }
    }
    if calls.len() > 62 {
        return Err(Fail::Harness("too many calls to search".into()));
    }
    ensure!(linearizable(&calls, &rules), "no sequential order of the calls explains their results (threads ran in the order {}):{story}", ran.trace);

    let adders: Vec<usize> = (0..threads.len()).filter(|t| threads[*t].iter().any(|o| matches!(o, Op::Rule(_)))).collect();
    let other = (0..threads.len()).any(|t| adders.iter().any(|a| *a != t) && threads[t].iter().any(|o| matches!(o, Op::Rule(_) | Op::Count | Op::Once(_) | Op::Derive(..))));
    ctx.nontrivial = ran.preemptions > 0 && other;
    ctx.label_if(ran.preemptions > 0, "preempted");
    ctx.label_if(ran.preemptions > 2, "preempted more than twice");
    ctx.label_if(adders.len() > 1, "rules added from two threads");
    ctx.label_if(threads.len() > 2, "more than two threads");
    let overlap = calls.iter().enumerate().any(|(i, a)| calls.iter().skip(i + 1).any(|b| a.start < b.end && b.start < a.end));
    ctx.label_if(overlap, "overlapping calls");
    ctx.label_if(fillers > 0, "a system with more rules");
    Ok(())
}

fn get(name_of: &BTreeMap<u32, Name>, n: Name) -> u32 {
    name_of.iter().find(|(_, x)| **x == n).map(|(c, _)| *c).unwrap()
}

fn enumerated2(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(40);
    let p = program(&mut Src::random(0x5013 + k), Some(2));
    case(s, ctx, p, |s, n| preempt_strategy(s, n, 40))
}

fn enumerated3(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(20);
    let p = program(&mut Src::random(0x15013 + k), Some(3));
    case(s, ctx, p, |s, n| preempt_strategy(s, n, 40))
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = program(s, None);
    case(s, ctx, p, |s, _| random_strategy(s))
}

fn real(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = program(s, None);
    case(s, ctx, p, |_, _| real_threads())
}
