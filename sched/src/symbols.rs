//! P02: symbols asked for from several threads.

use crate::run::*;
use engine::*;
use rusty_systems::prelude::*;
use rusty_systems::symbols::{get_code, get_name};
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P02",
        rule: "Two to four threads ask for symbols by overlapping names in several ways (directly, through conversions, through parsed strings) and look up the names of the codes that any of them was given so far, under a schedule chosen at every \
               operation on the registers' locks, one-time initialisations and atomic counters: drawn at random, or enumerated with at most two preemptions; also with the first use in a process, in a process per case. Non-trivial: at least one thread was \
               interrupted where it could have gone on, and two threads ask for one name or one looks up a code another thread was given.",
        assumptions: &[
            "scheduling points are the operations of std::sync (locks, one-time initialisation, atomics), executed in a sequentially consistent order",
            "the enumerated phases cover at most two preemptions of small fixed programs",
        ],
        phases: vec![
            Phase { name: "two preemptions, two threads", kind: Kind::Enumerate, quick: 200_000, thorough: 200_000, f: enumerated2 },
            Phase { name: "two preemptions, three threads", kind: Kind::Enumerate, quick: 100_000, thorough: 600_000, f: enumerated3 },
            Phase { name: "random schedules", kind: Kind::Random, quick: 80_000, thorough: 6_000_000, f: random },
            Phase { name: "real threads", kind: Kind::Random, quick: 8_000, thorough: 300_000, f: real },
            Phase { name: "first use", kind: Kind::Fresh, quick: 1_200, thorough: 60_000, f: fresh },
        ],
    }]
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug)]
enum Op {
    /// Ask for the symbol of a name: (name index, way).
    Ask(usize, usize),
    /// Look up the name of the code last given to this thread (false) or to any thread (true).
    Name { anyone: bool, way: usize },
    /// Look up a code that nobody may have been given yet: this much above the largest known.
    Guess(u32),
    /// Ask for several names in one string.
    Parse(Vec<usize>),
}

#[derive(Clone, Debug)]
enum Out {
    Codes(Vec<(usize, Result<u32, String>)>),
    Name(u32, Option<usize>, Option<String>),
    Nothing,
}

fn op(s: &mut Src, names: usize) -> Op {
    match s.weighted(&[5, 4, 1, 2]) {
        0 => Op::Ask(s.below(names), s.below(6)),
        1 => Op::Name { anyone: s.bool(), way: s.below(4) },
        2 => Op::Guess(s.below(3) as u32),
        _ => {
            let n = s.range(1, 3);
            Op::Parse((0..n).map(|_| s.below(names)).collect())
        }
    }
}

/// The programs: for every thread its operations.
fn programs(s: &mut Src, small: Option<usize>) -> (usize, Vec<Vec<Op>>) {
    let names = s.range(1, 3);
    let threads = small.unwrap_or_else(|| 2 + s.weighted(&[5, 4, 2]));
    let max = if small.is_some() { 2 } else { 4 };
    let p = (0..threads)
        .map(|_| {
            let n = s.range(1, max);
            let mut ops: Vec<Op> = (0..n).map(|_| op(s, names)).collect();
            if s.bool() {
                // Ask, then look at once.
                ops.insert(0, Op::Ask(s.below(names), s.below(6)));
                ops.insert(1, Op::Name { anyone: false, way: s.below(4) });
            }
            ops
        })
        .collect();
    (names, p)
}

fn ask(name: &str, way: usize) -> Result<u32, String> {
    let e = |e: Error| e.to_string();
    match way {
        0 => Symbol::build(name).map(|s| s.code()).map_err(e),
        1 => get_code(name).map_err(e),
        2 => Symbol::build(format!("  {name}\t")).map(|s| s.code()).map_err(e),
        3 => Symbol::try_from(name).map(|s| s.code()).map_err(e),
        4 => Symbol::try_from(name.to_string()).map(|s| s.code()).map_err(e),
        _ => get_code(&format!("\n{name}")).map_err(e),
    }
}

fn name_of(code: u32, way: usize) -> Option<String> {
    match way {
        0 => get_name(code),
        1 => Symbol::from_code(code).name(),
        2 => Some(Symbol::from_code(code).to_string()),
        _ => Some(ProductionString::from(vec![Symbol::from_code(code)]).to_string()),
    }
}

fn case(s: &mut Src, ctx: &mut Ctx, names_n: usize, programs: Vec<Vec<Op>>, strategy: impl FnOnce(&mut Src, usize) -> (Strategy, bool), warm: bool) -> R {
    let serial = SERIAL.fetch_add(1, Ordering::SeqCst);
    let names: Arc<Vec<String>> = Arc::new((0..names_n).map(|i| format!("s{serial}x{i}")).collect());
    if warm {
        sut("Symbol::build", || Symbol::build("warm").map(|s| s.name()).map_err(|e| e.to_string()))?.map_err(Fail::Violation)?;
    }
    let threads = programs.len();
    let strategy = strategy(s, threads);
    let how = format!("{:?}{}", strategy.0, if strategy.1 { ", waiting writers first" } else { "" });
    // What was handed out so far: (code, name index).
    let given: Arc<Mutex<Vec<(u32, usize)>>> = Arc::new(Mutex::new(Vec::new()));
    let history: History<Op, Out> = History::new();
    let mut text = String::new();
    for (t, p) in programs.iter().enumerate() {
        let _ = write!(text, "{}: {p:?}; ", letter(t));
    }
    let bodies: Vec<Body> = programs
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, ops)| {
            let (names, given, history) = (names.clone(), given.clone(), history.clone());
            Box::new(move || {
                let mut mine: Option<(u32, usize)> = None;
                for o in ops {
                    history.call(t, o, |o| match o {
                        Op::Ask(i, way) => {
                            let r = ask(&names[*i], *way);
                            if let Ok(c) = r {
                                given.lock().unwrap().push((c, *i));
                                mine = Some((c, *i));
                            }
                            Out::Codes(vec![(*i, r)])
                        }
                        Op::Parse(list) => {
                            let text = list.iter().map(|i| names[*i].as_str()).collect::<Vec<_>>().join(" ");
                            match rusty_systems::parser::parse_prod_string(&text) {
                                Ok(p) => {
                                    let codes: Vec<u32> = p.symbols().iter().map(|s| s.code()).collect();
                                    if codes.len() != list.len() {
                                        return Out::Codes(vec![(list[0], Err(format!("{text:?} parsed to {} symbols", codes.len())))]);
                                    }
                                    let mut g = given.lock().unwrap();
                                    for (c, i) in codes.iter().zip(list) {
                                        g.push((*c, *i));
                                        mine = Some((*c, *i));
                                    }
                                    Out::Codes(list.iter().copied().zip(codes.into_iter().map(Ok)).collect())
                                }
                                Err(e) => Out::Codes(vec![(list[0], Err(e.to_string()))]),
                            }
                        }
                        Op::Name { anyone, way } => {
                            let what = if *anyone { given.lock().unwrap().last().copied() } else { mine };
                            match what {
                                Some((c, i)) => Out::Name(c, Some(i), name_of(c, *way)),
                                None => Out::Nothing,
                            }
                        }
                        Op::Guess(d) => {
                            let c = given.lock().unwrap().iter().map(|g| g.0).max();
                            match c.and_then(|c| c.checked_add(1 + d)) {
                                Some(c) => Out::Name(c, None, get_name(c)),
                                None => Out::Nothing,
                            }
                        }
                    });
                }
            }) as Body
        })
        .collect();
    ctx.case(format!("{text}{how}"));
    let ran = run(s, strategy, bodies)?;
    ctx.case(format!("{text}{how}; ran {}", ran.trace));
    ctx.inner = ran.steps;
    let events = history.take();

    let mut of: BTreeMap<usize, u32> = BTreeMap::new();
    let mut by_thread: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
    let mut shared = false;
    for e in &events {
        let t = letter(e.thread);
        if let Out::Codes(list) = &e.out {
            for (i, r) in list {
                let c = match r {
                    Ok(c) => *c,
                    Err(m) => violated!("thread {t}: asking for {:?} failed: {m} (threads ran in the order {})", names[*i], ran.trace),
                };
                match of.get(i) {
                    Some(d) => ensure!(*d == c, "{:?} has the symbols {d} and {c} (threads ran in the order {})", names[*i], ran.trace),
                    None => {
                        if let Some((j, _)) = of.iter().find(|(_, d)| **d == c) {
                            violated!("{:?} and {:?} both have the symbol {c} (threads ran in the order {})", names[*j], names[*i], ran.trace);
                        }
                        of.insert(*i, c);
                    }
                }
                let v = by_thread.entry(*i).or_default();
                if !v.contains(&e.thread) {
                    v.push(e.thread);
                }
                shared |= v.len() > 1;
            }
        }
    }
    for e in &events {
        let t = letter(e.thread);
        if let Out::Name(c, Some(i), n) = &e.out {
            ensure!(n.as_deref() == Some(names[*i].as_str()), "thread {t}: the name of symbol {c}, already handed out for {:?}, is {n:?} (threads ran in the order {})", names[*i], ran.trace);
            shared |= matches!(e.op, Op::Name { anyone: true, .. });
        }
    }
    // Afterwards.
    for (i, c) in &of {
        let again = sut("get_code", || get_code(&names[*i]).map_err(|e| e.to_string()))?;
        ensure!(again == Ok(*c), "{:?} had the symbol {c} and afterwards has {again:?}", names[*i]);
        let n = sut("get_name", || get_name(*c))?;
        ensure!(n.as_deref() == Some(names[*i].as_str()), "afterwards the name of symbol {c} is {n:?} instead of {:?}", names[*i]);
    }
    for e in &events {
        if let Out::Name(c, None, Some(n)) = &e.out {
            let back = sut("get_code", || get_code(n).map_err(|e| e.to_string()))?;
            ensure!(back == Ok(*c), "code {c} was reported to have the name {n:?}, whose symbol is {back:?}");
        }
    }
    ctx.nontrivial = ran.preemptions > 0 && shared;
    ctx.label_if(ran.preemptions > 0, "preempted");
    ctx.label_if(ran.preemptions > 2, "preempted more than twice");
    ctx.label_if(shared, "one name or code from two threads");
    ctx.label_if(threads > 2, "more than two threads");
    Ok(())
}

fn enumerated2(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(40);
    let (names, p) = programs(&mut Src::random(0x5002 + k), Some(2));
    case(s, ctx, names, p, |s, n| preempt_strategy(s, n, 30), true)
}

fn enumerated3(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(24);
    let (names, p) = programs(&mut Src::random(0x15002 + k), Some(3));
    case(s, ctx, names, p, |s, n| preempt_strategy(s, n, 30), true)
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let (names, p) = programs(s, None);
    case(s, ctx, names, p, |s, _| random_strategy(s), true)
}

fn real(s: &mut Src, ctx: &mut Ctx) -> R {
    let (names, p) = programs(s, None);
    case(s, ctx, names, p, |_, _| real_threads(), true)
}

fn fresh(s: &mut Src, ctx: &mut Ctx) -> R {
    let (names, p) = programs(s, None);
    case(s, ctx, names, p, |s, n| if s.bool() { preempt_strategy(s, n, 16) } else { random_strategy(s) }, false)
}
