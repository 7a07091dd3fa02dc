//! P15: families registered and created from several threads.

use crate::run::*;
use engine::*;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::{self, TryIntoFamily};
use std::collections::BTreeSet;
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P15",
        rule: "Two to four threads register families (both ways), get or create them and look them up (also by making systems of them) over one or two names, every family with contents that tell who declared it, under a schedule chosen at every operation on \
               the registry's lock and one-time initialisation: drawn at random, or enumerated with at most two preemptions; also with the first use in a process, in a process per case. Per name the history must fit a sequential order that respects real \
               time (searched exhaustively). Non-trivial: at least one thread was interrupted where it could have gone on, and two threads register or get-or-create one name.",
        assumptions: &[
            "scheduling points are the operations of std::sync (locks, one-time initialisation, atomics), executed in a sequentially consistent order",
            "the enumerated phases cover at most two preemptions of small fixed programs",
            "creation functions do not use the registry themselves and give the family the name it is asked for",
        ],
        phases: vec![
            Phase { name: "two preemptions, two threads", kind: Kind::Enumerate, quick: 200_000, thorough: 200_000, f: enumerated2 },
            Phase { name: "two preemptions, three threads", kind: Kind::Enumerate, quick: 100_000, thorough: 600_000, f: enumerated3 },
            Phase { name: "random schedules", kind: Kind::Random, quick: 80_000, thorough: 6_000_000, f: random },
            Phase { name: "real threads", kind: Kind::Random, quick: 8_000, thorough: 300_000, f: real },
            Phase { name: "first use", kind: Kind::Fresh, quick: 1_200, thorough: 60_000, f: fresh },
        ],
    }]
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Copy, Debug, PartialEq)]
enum Way {
    /// `Builder::register`
    Define,
    /// `register` of a finished family
    Register,
    GetOrInit,
    Get,
    Exists,
    /// `into_family` of the name
    Into,
    /// A system made of the family.
    System,
}

impl Way {
    fn makes(self) -> bool {
        matches!(self, Way::Define | Way::Register | Way::GetOrInit)
    }
}

#[derive(Clone, Debug)]
struct Op {
    way: Way,
    name: usize,
    /// Tells who declared the family.
    id: usize,
}

/// A family as a caller sees it.
#[derive(Clone, Debug)]
struct Fam {
    /// Kept, so that no other family can be at its address.
    family: Arc<SystemFamily>,
    name: String,
    terminals: BTreeSet<String>,
    productions: BTreeSet<String>,
}

#[derive(Clone, Debug)]
enum Out {
    Family(Fam),
    None,
    Exists(bool),
    /// Which of the (name, id) declarations' symbols the system has, and how many symbols.
    System(Vec<String>, usize),
    Refused(String),
}

fn look(family: Arc<SystemFamily>) -> Out {
    Out::Family(Fam {
        name: family.name().clone(),
        terminals: family.terminals().map(|s| format!("{} {:?}", s.name, s.description)).collect(),
        productions: family.productions().map(|s| format!("{} {:?}", s.name, s.description)).collect(),
        family,
    })
}

const T: usize = 2;

/// The contents of declaration `id`: its terminals and productions.
fn contents(serial: u64, id: usize) -> (Vec<String>, Vec<String>) {
    ((0..T).map(|k| format!("f{serial}d{id}t{k}")).collect(), vec![format!("f{serial}d{id}p")])
}

fn builder(serial: u64, id: usize) -> family::Builder {
    let (t, p) = contents(serial, id);
    let mut b = SystemFamily::define();
    for (k, n) in t.iter().enumerate() {
        let d = format!("of {id}");
        b = b.with_terminal(n.as_str(), if k == 0 { Some(d.as_str()) } else { None });
    }
    for n in &p {
        b = b.with_production(n.as_str(), None);
    }
    b
}

fn seen(serial: u64, id: usize) -> (BTreeSet<String>, BTreeSet<String>) {
    let (t, p) = contents(serial, id);
    (
        t.iter().enumerate().map(|(k, n)| format!("{n} {:?}", if k == 0 { Some(format!("of {id}")) } else { None })).collect(),
        p.iter().map(|n| format!("{n} {:?}", None::<String>)).collect(),
    )
}

fn programs(s: &mut Src, small: Option<usize>) -> (usize, Vec<Vec<Op>>) {
    let names = 1 + s.weighted(&[3, 1]);
    let threads = small.unwrap_or_else(|| 2 + s.weighted(&[5, 4, 2]));
    let max = if small.is_some() { 2 } else { 4 };
    let mut id = 0;
    let p = (0..threads)
        .map(|_| {
            let n = s.range(1, max);
            (0..n)
                .map(|k| {
                    if k == 0 && s.chance(2, 3) {
                        id += 1;
                        return Op { way: *s.pick(&[Way::GetOrInit, Way::Define, Way::Register]), name: 0, id };
                    }
                    let way = *s.pick(&[Way::GetOrInit, Way::Define, Way::Register, Way::Get, Way::Into, Way::Exists, Way::System, Way::GetOrInit]);
                    id += 1;
                    Op { way, name: s.below(names), id }
                })
                .collect()
        })
        .collect();
    (names, p)
}

fn show(o: &Op) -> String {
    let n = ['x', 'y'][o.name];
    match o.way {
        Way::Define => format!("define {n} as {}", o.id),
        Way::Register => format!("register {n} as {}", o.id),
        Way::GetOrInit => format!("get {n} or create {}", o.id),
        Way::Get => format!("get {n}"),
        Way::Exists => format!("does {n} exist"),
        Way::Into => format!("into_family {n}"),
        Way::System => format!("system of {n}"),
    }
}

fn perform(o: &Op, serial: u64, names: &[String], created: &Mutex<Vec<(usize, usize)>>, ids: usize) -> Out {
    let name = names[o.name].as_str();
    let e = |e: Error| Out::Refused(e.to_string());
    match o.way {
        Way::Define => builder(serial, o.id).register(name).map(look).unwrap_or_else(e),
        Way::Register => match builder(serial, o.id).build(name) {
            Ok(f) => family::register(f).map(look).unwrap_or_else(e),
            Err(x) => e(x),
        },
        Way::GetOrInit => look(family::get_or_init_family(name, || {
            vstd::ctl::point();
            created.lock().unwrap().push((o.name, o.id));
            builder(serial, o.id).build(name).expect("family")
        })),
        Way::Get => family::get_family(name).map(look).unwrap_or(Out::None),
        Way::Exists => Out::Exists(family::family_exists(name)),
        Way::Into => match name.into_family() {
            Ok(f) => look(f),
            Err(_) => Out::None,
        },
        Way::System => match System::of_family(name) {
            Ok(s) => {
                let mut v = Vec::new();
                for id in 1..=ids {
                    let (t, p) = contents(serial, id);
                    v.extend(t.into_iter().chain(p).filter(|n| s.get_symbol(n).is_some()));
                }
                Out::System(v, s.symbol_len())
            }
            Err(_) => Out::None,
        },
    }
}

/// What one call on one name says: who declared the family it saw (None: there was none), and
/// whether it took effect itself.
#[derive(Clone, Copy, Debug)]
struct Call {
    start: u64,
    end: u64,
    way: Way,
    id: usize,
    saw: Option<usize>,
    refused: bool,
}

fn linearizable(calls: &[Call]) -> bool {
    fn go(calls: &[Call], done: u64, state: Option<usize>, failed: &mut std::collections::HashSet<(u64, Option<usize>)>) -> bool {
        if done == (1u64 << calls.len()) - 1 {
            return true;
        }
        if failed.contains(&(done, state)) {
            return false;
        }
        let first_end = (0..calls.len()).filter(|i| done & (1 << i) == 0).map(|i| calls[i].end).min().unwrap();
        for (i, c) in calls.iter().enumerate() {
            if done & (1 << i) != 0 || c.start > first_end {
                continue;
            }
            let next = match (c.way, state) {
                (Way::Define | Way::Register, None) => {
                    if c.refused || c.saw != Some(c.id) {
                        continue;
                    }
                    Some(c.id)
                }
                (Way::Define | Way::Register, Some(w)) => {
                    if !c.refused {
                        continue;
                    }
                    Some(w)
                }
                (Way::GetOrInit, None) => {
                    if c.saw != Some(c.id) {
                        continue;
                    }
                    Some(c.id)
                }
                (_, st) => {
                    if c.saw != st {
                        continue;
                    }
                    st
                }
            };
            if go(calls, done | (1 << i), next, failed) {
                return true;
            }
        }
        failed.insert((done, state));
        false
    }
    go(calls, 0, None, &mut std::collections::HashSet::new())
}

fn case(s: &mut Src, ctx: &mut Ctx, (names_n, programs): (usize, Vec<Vec<Op>>), strategy: impl FnOnce(&mut Src, usize) -> (Strategy, bool), warm: bool) -> R {
    let serial = SERIAL.fetch_add(1, Ordering::SeqCst);
    let names: Arc<Vec<String>> = Arc::new((0..names_n).map(|i| format!("family {serial} {}", ['x', 'y'][i])).collect());
    if warm {
        sut("get_family", || (family::get_family("warm").is_some(), Symbol::build("warm").map(|s| s.name()).is_ok()))?;
    }
    let strategy = strategy(s, programs.len());
    let how = format!("{:?}{}", strategy.0, if strategy.1 { ", waiting writers first" } else { "" });
    let ids = programs.iter().flatten().count();
    let created: Arc<Mutex<Vec<(usize, usize)>>> = Arc::default();
    let history: History<Op, Out> = History::new();
    let mut text = String::new();
    for (t, p) in programs.iter().enumerate() {
        let _ = write!(text, "{}: {}; ", letter(t), p.iter().map(show).collect::<Vec<_>>().join(", "));
    }
    let bodies: Vec<Body> = programs
        .iter()
        .cloned()
        .enumerate()
        .map(|(t, ops)| {
            let (names, created, history) = (names.clone(), created.clone(), history.clone());
            Box::new(move || {
                for o in ops {
                    history.call(t, o, |o| perform(o, serial, &names, &created, ids));
                }
            }) as Body
        })
        .collect();
    ctx.case(format!("{text}{how}"));
    let ran = run(s, strategy, bodies)?;
    ctx.case(format!("{text}{how}; ran {}", ran.trace));
    ctx.inner = ran.steps;
    // Afterwards.
    for name in 0..names_n {
        for way in [Way::Get, Way::Exists, Way::System] {
            sut("a look-up after the threads ended", || history.call(9, Op { way, name, id: 0 }, |o| perform(o, serial, &names, &created, ids)))?;
        }
    }
    let events = history.take();
    let created = created.lock().unwrap().clone();
    let who = |t: usize| if t == 9 { String::from("afterwards") } else { format!("thread {}", letter(t)) };
    let mut story = String::new();
    for e in &events {
        let out = match &e.out {
            Out::Family(f) => format!("family {:?} with {:?} and {:?}", f.name, f.terminals, f.productions),
            o => format!("{o:?}"),
        };
        let _ = write!(story, "\n  {}..{} {}: {} = {out}", e.start, e.end, who(e.thread), show(&e.op));
    }
    story = format!(" (threads ran in the order {}):{story}", ran.trace);
    let declared: Vec<(BTreeSet<String>, BTreeSet<String>)> = (0..=ids).map(|i| seen(serial, i)).collect();

    for (name, full) in names.iter().enumerate() {
        let mut calls = Vec::new();
        let mut address: Option<*const SystemFamily> = None;
        for e in events.iter().filter(|e| e.op.name == name) {
            let w = who(e.thread);
            let mut refused = false;
            let saw = match &e.out {
                Out::Family(f) => {
                    ensure!(f.name == *full, "{w}: {} returned a family named {:?}{story}", show(&e.op), f.name);
                    let id = (1..=ids).find(|i| declared[*i].0 == f.terminals && declared[*i].1 == f.productions);
                    let Some(id) = id else {
                        violated!("{w}: {} returned a family that is nobody's whole declaration{story}", show(&e.op));
                    };
                    let a = Arc::as_ptr(&f.family);
                    ensure!(address.is_none_or(|x| x == a), "{w}: {} returned another object than an earlier successful call{story}", show(&e.op));
                    address = Some(a);
                    Some(id)
                }
                Out::None => None,
                Out::Exists(b) => {
                    // Says whether there is one, not which: take the one that is there.
                    if *b {
                        events.iter().filter(|x| x.op.name == name).find_map(|x| match &x.out {
                            Out::Family(f) => (1..=ids).find(|i| declared[*i].0 == f.terminals && declared[*i].1 == f.productions),
                            _ => None,
                        })
                    } else {
                        None
                    }
                }
                Out::System(list, len) => {
                    let id = (1..=ids).find(|i| {
                        let (mut t, p) = contents(serial, *i);
                        t.extend(p);
                        t == *list
                    });
                    ensure!(id.is_some() && *len == list.len(), "{w}: the system has {len} symbols, among them {list:?}: not one whole declaration{story}");
                    id
                }
                Out::Refused(_) => {
                    refused = true;
                    None
                }
            };
            if let (Out::Exists(true), None) = (&e.out, saw) {
                violated!("{w}: the family exists, but no call ever gets it{story}");
            }
            calls.push(Call { start: e.start, end: e.end, way: e.op.way, id: e.op.id, saw, refused });
        }
        let n = created.iter().filter(|c| c.0 == name).count();
        ensure!(n <= 1, "creation functions ran {n} times for {full:?}{story}");
        if let Some(c) = calls.iter().find(|c| c.refused && !matches!(c.way, Way::Define | Way::Register)) {
            return Err(Fail::Harness(format!("refused: {c:?}")));
        }
        let wins = calls.iter().filter(|c| matches!(c.way, Way::Define | Way::Register) && !c.refused).count();
        ensure!(wins <= 1, "{wins} registrations of {full:?} succeeded{story}");
        ensure!(linearizable(&calls), "no sequential order of the calls on {full:?} explains their results{story}");
    }
    let contended = (0..names_n).any(|n| programs.iter().filter(|p| p.iter().any(|o| o.name == n && o.way.makes())).count() > 1);
    ctx.nontrivial = ran.preemptions > 0 && contended;
    ctx.label_if(ran.preemptions > 0, "preempted");
    ctx.label_if(ran.preemptions > 2, "preempted more than twice");
    ctx.label_if(contended, "one name made by two threads");
    ctx.label_if(programs.len() > 2, "more than two threads");
    ctx.label_if(!created.is_empty(), "a creation function ran");
    ctx.label_if(events.iter().any(|e| matches!(e.out, Out::Refused(_))), "a registration was refused");
    Ok(())
}

fn enumerated2(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(40);
    let p = programs(&mut Src::random(0x5015 + k), Some(2));
    case(s, ctx, p, |s, n| preempt_strategy(s, n, 30), true)
}

fn enumerated3(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.draw(24);
    let p = programs(&mut Src::random(0x15015 + k), Some(3));
    case(s, ctx, p, |s, n| preempt_strategy(s, n, 30), true)
}

fn random(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = programs(s, None);
    case(s, ctx, p, |s, _| random_strategy(s), true)
}

fn real(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = programs(s, None);
    case(s, ctx, p, |_, _| real_threads(), true)
}

fn fresh(s: &mut Src, ctx: &mut Ctx) -> R {
    let p = programs(s, None);
    case(s, ctx, p, |s, n| if s.bool() { preempt_strategy(s, n, 16) } else { random_strategy(s) }, false)
}
