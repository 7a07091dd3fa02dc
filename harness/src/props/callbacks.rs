//! P32: code of the user's that the library calls.

use crate::gen::{self, Symbols};
use crate::model::{self, Rule};
use engine::*;
use rusty_systems::parser::parse_and_add_production;
use rusty_systems::prelude::*;
use rusty_systems::productions::Production;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P32",
        rule: "Histories of additions of symbols and rules, to a System or to RefCell collections, whose arguments are types of one's own: their conversion (or the conversion of their error) first makes further calls on the same store, on the same \
               thread or another one, up to three conversions deep, and then succeeds, fails with a message or panics; panics are caught right outside of the call or further out. Lookups, counts and derivations are compared with a model \
               after every call. Non-trivial: a conversion made calls of its own and some conversion failed or panicked.",
        assumptions: &["a panic that the library raises itself is always a violation"],
        phases: vec![Phase { name: "history", kind: Kind::Random, quick: 600_000, thorough: 12_000_000, f: history }],
    }]
}

/// How a conversion ends.
#[derive(Clone, Debug, PartialEq)]
enum End {
    Ok,
    Err(String),
    /// The error cannot be converted to one of the library's: that conversion panics.
    BadErr(u64),
    Panic(u64),
}

#[derive(Clone, Debug)]
enum Act {
    Symbol { sym: usize, by: u8, pre: Vec<Act>, mid: Vec<Act>, end: End, catch: bool },
    Rule { rule: usize, by: u8, pre: Vec<Act>, mid: Vec<Act>, end: End, catch: bool },
    Text(usize),
    BadText(u8),
    Get(usize),
    Count,
    Derive(Vec<usize>, usize),
    /// The same from another thread.
    Thread(Box<Act>),
}

enum Store {
    System(System),
    Cells(RefCell<HashSet<u32>>, RefCell<Vec<Production>>),
}

#[derive(Default)]
struct Model {
    symbols: BTreeSet<usize>,
    /// In the order of addition; `bodies` counts the additions of each.
    rules: Vec<usize>,
    bodies: BTreeMap<usize, usize>,
}

struct World {
    sy: Symbols,
    rules: Vec<Rule>,
    store: Store,
    model: RefCell<Model>,
    failed: RefCell<Option<Fail>>,
    log: RefCell<String>,
    depth: Cell<usize>,
    deepest: Cell<usize>,
    ends: Cell<usize>,
}

/// What panics on purpose carries.
struct Marker(u64);

impl World {
    fn system(&self) -> Option<&System> {
        match &self.store {
            Store::System(s) => Some(s),
            Store::Cells(..) => None,
        }
    }
    fn note(&self, t: &str) {
        let mut l = self.log.borrow_mut();
        if l.len() < 3_000 {
            l.push_str(t);
        }
    }
    fn wrong(&self, m: String) {
        let log = clip(&self.log.borrow(), 1_500);
        self.failed.borrow_mut().get_or_insert(Fail::Violation(format!("{m}; after: {log}")));
    }
    fn is_system(&self) -> bool {
        self.system().is_some()
    }

    fn all(&self, acts: &[Act]) {
        self.depth.set(self.depth.get() + 1);
        if !acts.is_empty() {
            self.deepest.set(self.deepest.get().max(self.depth.get()));
        }
        for a in acts {
            if self.failed.borrow().is_some() {
                break;
            }
            self.run(a);
        }
        self.depth.set(self.depth.get() - 1);
    }

    /// The calls of a conversion, and then its end.
    fn convert<T>(&self, pre: &[Act], end: &End, value: impl FnOnce() -> T) -> Result<T, OwnError<'_>> {
        let d = self.depth.get();
        self.all(pre);
        self.depth.set(d);
        if *end != End::Ok {
            self.ends.set(self.ends.get() + 1);
        }
        match end {
            End::Ok => Ok(value()),
            End::Panic(n) => resume_unwind(Box::new(Marker(*n))),
            _ => Err(OwnError { world: self, mid: &[], end: end.clone() }),
        }
    }

    /// Makes a call whose conversion ends in a known way. None: it panicked on purpose.
    fn call<T>(&self, what: &str, end: &End, catch: bool, f: impl FnOnce() -> rusty_systems::Result<T>) -> Option<rusty_systems::Result<T>> {
        let depth = self.depth.get();
        match catch_unwind(AssertUnwindSafe(f)) {
            Ok(r) => {
                match (&r, end) {
                    (Ok(_), End::Ok) => {}
                    (Err(e), End::Err(m)) => {
                        if !e.to_string().contains(m.as_str()) {
                            self.wrong(format!("{what} fails with {:?} when the conversion says {m:?}", e.to_string()));
                        }
                    }
                    // A panic below that was let through counts as this one's own.
                    (r, _) => self.wrong(format!("{what} returns {:?}, but the conversion ends with {end:?}", r.as_ref().map(|_| ()).map_err(|e| e.to_string()))),
                }
                Some(r)
            }
            Err(p) => {
                self.depth.set(depth);
                match p.downcast::<Marker>() {
                    Ok(m) => {
                        if catch {
                            None
                        } else {
                            resume_unwind(m)
                        }
                    }
                    Err(_) => {
                        self.wrong(format!("{what} panicked: {}", last_panic()));
                        None
                    }
                }
            }
        }
    }

    fn run(&self, act: &Act) {
        match act {
            Act::Symbol { sym, by, pre, mid, end, catch } => {
                self.note(&format!("{}{}(", ["", "read "][(*by == 1) as usize], self.sy.names[*sym]));
                let value = Conv { world: self, pre, mid, end: end.clone(), index: *sym };
                let r = self.call("add_symbol", end, *catch, || match (&self.store, by) {
                    (_, 1) => Symbol::build(AsText { world: self, value: &value, first: Cell::new(true) }),
                    (Store::System(s), _) => s.add_symbol(value),
                    (Store::Cells(s, _), _) => s.add_symbol(value),
                });
                self.note(&format!(") {end:?}; "));
                if let Some(Ok(x)) = r {
                    if x != self.sy.syms[*sym] {
                        self.wrong(format!("adding {:?} returns {x}", self.sy.names[*sym]));
                    }
                    if *by != 1 {
                        self.model.borrow_mut().symbols.insert(*sym);
                    }
                }
            }
            Act::Rule { rule, pre, mid, end, catch, .. } => {
                self.note(&format!("[{}](", gen::rule_text(&self.sy.names, &self.rules[*rule], 0)));
                let value = Conv { world: self, pre, mid, end: end.clone(), index: *rule };
                let r = self.call("add_production", end, *catch, || match &self.store {
                    Store::System(s) => s.add_production(value),
                    Store::Cells(_, p) => p.add_production(value),
                });
                self.note(&format!(") {end:?}; "));
                if let Some(Ok(p)) = r {
                    self.added(*rule, self.is_system(), &p);
                }
            }
            Act::Text(rule) => {
                let text = gen::rule_text(&self.sy.names, &self.rules[*rule], 0);
                self.note(&format!("[{text}]; "));
                let r = self.call("parse_and_add_production", &End::Ok, true, || match &self.store {
                    Store::System(s) => parse_and_add_production(s, s, &text),
                    Store::Cells(s, p) => parse_and_add_production(s, p, &text),
                });
                if let Some(Ok(p)) = r {
                    self.added(*rule, true, &p);
                }
            }
            Act::BadText(k) => {
                let text = ["-> A", "A < -> B", "A B -> C", "", "A"][*k as usize % 5];
                self.note(&format!("bad {text:?}; "));
                let r = catch_unwind(AssertUnwindSafe(|| match &self.store {
                    Store::System(s) => s.add_production(text).map(|_| ()),
                    Store::Cells(s, p) => parse_and_add_production(s, p, text).map(|_| ()),
                }));
                if !matches!(r, Ok(Err(_))) {
                    self.wrong(format!("adding the rule {text:?} does not fail"));
                }
            }
            Act::Get(i) => self.get(*i),
            Act::Count => self.count(),
            Act::Derive(w, n) => self.derive(w, *n),
            Act::Thread(a) => {
                let Some(system) = self.system() else { return self.run(a) };
                self.note("on a thread: ");
                // Only what the model can be told about afterwards.
                match &**a {
                    Act::Symbol { sym, .. } => {
                        let name = self.sy.names[*sym].as_str();
                        self.note(&format!("{name}; "));
                        let ok = std::thread::scope(|t| t.spawn(|| system.add_symbol(name).is_ok()).join());
                        match ok {
                            Ok(true) => _ = self.model.borrow_mut().symbols.insert(*sym),
                            _ => self.wrong(format!("adding {name:?} from a thread fails")),
                        }
                    }
                    Act::Rule { rule, .. } | Act::Text(rule) => {
                        let text = gen::rule_text(&self.sy.names, &self.rules[*rule], 0);
                        self.note(&format!("[{text}]; "));
                        match std::thread::scope(|t| t.spawn(|| system.add_production(text.as_str()).map_err(|e| e.to_string())).join()) {
                            Ok(Ok(p)) => self.added(*rule, true, &p),
                            r => self.wrong(format!("adding {text:?} from a thread fails: {:?}", r.map(|x| x.err()).map_err(|_| last_panic()))),
                        }
                    }
                    Act::Get(i) => {
                        let name = self.sy.names[*i].as_str();
                        let got = std::thread::scope(|t| t.spawn(|| system.get_symbol(name)).join());
                        let want = self.model.borrow().symbols.contains(i).then(|| self.sy.syms[*i]);
                        if !matches!(got, Ok(x) if x == want) {
                            self.wrong(format!("a thread looks {name:?} up and finds {:?}, expected {want:?}", got.map_err(|_| last_panic())));
                        }
                    }
                    Act::Derive(w, n) => {
                        let (start, n) = (self.sy.string(w), *n);
                        let got = std::thread::scope(|t| t.spawn(|| system.derive(start, RunSettings::for_max_iterations(n)).map_err(|e| e.to_string())).join());
                        self.derived(w, n, got.map_err(|_| last_panic()).and_then(|x| x));
                    }
                    other => self.run(other),
                }
            }
        }
    }

    fn added(&self, rule: usize, symbols: bool, p: &Production) {
        let r = &self.rules[rule];
        let mut m = self.model.borrow_mut();
        if symbols {
            m.symbols.extend(r.pre.iter().chain(&r.post).chain([&r.target]).chain(&r.bodies[0].1));
        }
        if !self.is_system() || !m.bodies.contains_key(&rule) {
            m.rules.push(rule);
        }
        let n = m.bodies.entry(rule).or_default();
        *n += 1;
        let want = if self.is_system() { *n } else { 1 };
        drop(m);
        let bodies = p.all_bodies();
        let same = self.sy.head(r).is_ok_and(|h| h == *p.head());
        let body = self.sy.string(&r.bodies[0].1);
        if !same || bodies.len() != want || bodies.iter().any(|b| *b.string() != body) {
            self.wrong(format!("adding [{}] returns {p:?}, expected {want} alternatives", gen::rule_text(&self.sy.names, r, 0)));
        }
    }

    fn get(&self, i: usize) {
        let name = &self.sy.names[i];
        let got = sut("get_symbol", || match &self.store {
            Store::System(s) => s.get_symbol(name),
            Store::Cells(s, _) => s.get_symbol(name),
        });
        let want = self.model.borrow().symbols.contains(&i).then(|| self.sy.syms[i]);
        if !matches!(&got, Ok(x) if *x == want) {
            self.wrong(format!("{name:?} is looked up as {:?}, expected {want:?}", got.ok()));
        }
    }

    fn count(&self) {
        let m = self.model.borrow();
        let (want_s, want_p) = (m.symbols.len(), m.rules.len());
        let got = sut("counting", || match &self.store {
            Store::System(s) => (s.symbol_len(), s.production_len()),
            Store::Cells(s, p) => (s.borrow().len(), p.borrow().len()),
        });
        if !matches!(got, Ok(x) if x == (want_s, want_p)) {
            self.wrong(format!("there are {:?} symbols and rules, expected {want_s} and {want_p}", got.ok()));
        }
    }

    fn derive(&self, w: &[usize], n: usize) {
        let start = self.sy.string(w);
        let got = sut("derive", || match &self.store {
            Store::System(s) => s.derive(start, RunSettings::for_max_iterations(n)).map_err(|e| e.to_string()),
            Store::Cells(_, p) => system::derive(start, &p.borrow(), RunSettings::for_max_iterations(n)).map_err(|e| e.to_string()),
        });
        match got {
            Ok(g) => self.derived(w, n, g),
            Err(_) => self.wrong(format!("deriving panicked: {}", last_panic())),
        }
    }

    fn derived(&self, w: &[usize], n: usize, got: Result<ProductionString, String>) {
        let rules: Vec<Rule> = self.model.borrow().rules.iter().map(|i| self.rules[*i].clone()).collect();
        let mut want = w.to_vec();
        for _ in 0..n {
            want = model::step(&rules, &want);
        }
        let ok = got.as_ref().is_ok_and(|g| self.sy.word(g).is_ok_and(|g| g == want));
        if !ok {
            self.wrong(format!(
                "[{}] derives to [{}] in {n} steps, expected [{}]",
                gen::show_word(&self.sy.names, w),
                clip(&got.map(|g| g.to_string()).unwrap_or_else(|e| e), 300),
                clip(&gen::show_word(&self.sy.names, &want), 300)
            ));
        }
    }
}

/// A symbol or rule of the user's own kind.
struct Conv<'a> {
    world: &'a World,
    pre: &'a [Act],
    mid: &'a [Act],
    end: End,
    index: usize,
}

struct OwnError<'a> {
    world: &'a World,
    mid: &'a [Act],
    end: End,
}

impl From<OwnError<'_>> for Error {
    fn from(e: OwnError<'_>) -> Error {
        let d = e.world.depth.get();
        e.world.all(e.mid);
        e.world.depth.set(d);
        match e.end {
            End::Err(m) => Error::general(m),
            End::BadErr(n) => resume_unwind(Box::new(Marker(n))),
            _ => unreachable!(),
        }
    }
}

impl<'a> TryInto<Symbol> for Conv<'a> {
    type Error = OwnError<'a>;
    fn try_into(self) -> Result<Symbol, OwnError<'a>> {
        let (w, i) = (self.world, self.index);
        w.convert(self.pre, &self.end, || w.sy.syms[i]).map_err(|e| OwnError { mid: self.mid, ..e })
    }
}

impl<'a> TryInto<Production> for Conv<'a> {
    type Error = OwnError<'a>;
    fn try_into(self) -> Result<Production, OwnError<'a>> {
        let (w, i) = (self.world, self.index);
        w.convert(self.pre, &self.end, || w.sy.production(&w.rules[i], 0).unwrap_or_else(|_| unreachable!())).map_err(|e| OwnError { mid: self.mid, ..e })
    }
}

/// A name of the user's own kind.
struct AsText<'a, 'b> {
    world: &'a World,
    value: &'b Conv<'a>,
    first: Cell<bool>,
}

impl AsRef<str> for AsText<'_, '_> {
    fn as_ref(&self) -> &str {
        if self.first.replace(false) {
            if let Err(e) = self.world.convert(self.value.pre, &self.value.end, || ()) {
                // A name cannot fail; it panics instead.
                drop(e);
                resume_unwind(Box::new(Marker(0)));
            }
        }
        &self.world.sy.names[self.value.index]
    }
}

fn acts(s: &mut Src, w: &World, depth: usize, n: usize) -> Vec<Act> {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n {
        v.push(act(s, w, depth));
    }
    v
}

/// Whether running these lets a panic through.
fn throws(acts: &[Act]) -> bool {
    acts.iter().any(|a| match a {
        Act::Symbol { by, pre, mid, end, catch, .. } | Act::Rule { by, pre, mid, end, catch, .. } => {
            !*catch && (throws(pre) || matches!(end, End::Panic(_) | End::BadErr(_)) || (*by == 1 && *end != End::Ok) || (matches!(end, End::Err(_)) && throws(mid)))
        }
        _ => false,
    })
}

fn act(s: &mut Src, w: &World, depth: usize) -> Act {
    let k = w.sy.names.len();
    let what = s.weighted(&[4, 6, 2, 1, 2, 1, 3, 2]);
    match what {
        0 | 1 => {
            let more = if depth < 3 && s.chance(1, 2) { s.small(1, 3) } else { 0 };
            let pre = acts(s, w, depth + 1, more);
            let by = if what == 0 && s.chance(1, 4) { 1 } else { 0 };
            let catch = depth == 0 || s.chance(2, 3);
            let end = match s.weighted(&[6, 2, 1, 2]) {
                0 => End::Ok,
                1 => End::Err(format!("no {}", s.below(100))),
                2 => End::BadErr(s.below(1000) as u64),
                _ => End::Panic(s.below(1000) as u64),
            };
            let some = if matches!(end, End::Err(_)) && by == 0 && depth < 3 && s.chance(1, 3) { s.small(1, 2) } else { 0 };
            let mid = acts(s, w, depth + 1, some);
            // If one of the calls in a conversion lets a panic through, the conversion ends with it.
            let end = if throws(&pre) || (by == 1 && end != End::Ok) || throws(&mid) { End::Panic(0) } else { end };
            if what == 0 {
                Act::Symbol { sym: s.below(k), by, pre, mid, end, catch }
            } else {
                Act::Rule { rule: s.below(w.rules.len()), by, pre, mid, end, catch }
            }
        }
        2 => Act::Text(s.below(w.rules.len())),
        3 => Act::BadText(s.below(5) as u8),
        4 => Act::Get(s.below(k)),
        5 => Act::Count,
        6 => {
            let word = gen::word(s, k, 0, 6);
            Act::Derive(word, s.range(0, 2))
        }
        _ => {
            let a = match s.below(4) {
                0 => Act::Symbol { sym: s.below(k), by: 0, pre: vec![], mid: vec![], end: End::Ok, catch: true },
                1 => Act::Text(s.below(w.rules.len())),
                2 => Act::Get(s.below(k)),
                _ => {
                    let word = gen::word(s, k, 0, 6);
                    Act::Derive(word, s.range(0, 2))
                }
            };
            Act::Thread(Box::new(a))
        }
    }
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let k = s.range(2, 5);
    let sy = Symbols::new(gen::alphabet(s, k))?;
    let axiom = gen::word(s, k, 1, 6);
    let mut rules: Vec<Rule> = Vec::new();
    for mut r in gen::det_rules(s, k, &axiom, 5, 2, 2) {
        // Of each head only one replacement, so that nothing is left to chance.
        r.bodies.truncate(1);
        if !rules.iter().any(|q| q.same_head(&r)) {
            rules.push(r);
        }
    }
    if rules.is_empty() {
        rules.push(Rule { pre: vec![], target: 0, post: vec![], bodies: vec![(None, vec![1, 0])] });
    }
    let store = if s.chance(1, 3) { Store::Cells(RefCell::default(), RefCell::default()) } else { Store::System(System::new()) };
    let w = World {
        sy,
        rules,
        store,
        model: RefCell::default(),
        failed: RefCell::default(),
        log: RefCell::default(),
        depth: Cell::new(0),
        deepest: Cell::new(0),
        ends: Cell::new(0),
    };
    let n = s.len(1, 12);
    let mut threads = false;
    for _ in 0..n {
        let a = act(s, &w, 0);
        threads |= format!("{a:?}").contains("Thread");
        w.run(&a);
        ctx.case(w.log.borrow().clone());
        if w.failed.borrow().is_none() {
            // Nothing is left locked or half done.
            w.count();
            for i in 0..k {
                w.get(i);
            }
            w.derive(&axiom, 1);
        }
        if let Some(f) = w.failed.borrow_mut().take() {
            return Err(f);
        }
    }
    ctx.label(if w.is_system() { "a System" } else { "RefCell collections" });
    ctx.label_if(w.deepest.get() >= 3, "conversions in conversions");
    ctx.label_if(threads, "calls from a thread");
    ctx.nontrivial = w.deepest.get() >= 1 && w.ends.get() > 0;
    Ok(())
}
