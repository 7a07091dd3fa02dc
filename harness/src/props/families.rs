//! P14: the family registry.

use crate::gen;
use engine::*;
use rusty_systems::prelude::*;
use rusty_systems::symbols::SymbolStore;
use rusty_systems::system::family::{self, Builder, TryIntoFamily};
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Arc;

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P14",
        rule: "A history of registrations (both ways), get-or-create calls, look-ups and system creations over a few family names of its own, with random declarations in which symbols are declared several times; after every step every \
               name is looked up and compared with a model; 'huge' has families with up to 150000 symbols, names and descriptions of up to 300000 characters. Non-trivial: some name is registered or created at least twice and a system is made from a family with at least two symbols.",
        assumptions: &["symbol names in declarations are not blank and have no surrounding white space"],
        phases: vec![
            Phase { name: "history", kind: Kind::Random, quick: 800_000, thorough: 8_000_000, f: history },
            Phase { name: "huge", kind: Kind::Random, quick: 32, thorough: 320, f: huge },
        ],
    }]
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

#[derive(Clone, Debug, Default)]
struct Decl {
    /// (is terminal, name, description)
    items: Vec<(bool, String, Option<String>)>,
}

impl Decl {
    fn builder(&self) -> Builder {
        let mut b = SystemFamily::define();
        for (t, n, d) in &self.items {
            let d = d.as_deref();
            b = if *t { b.with_terminal(n.as_str(), d) } else { b.with_production(n.as_str(), d) };
        }
        b
    }
    fn of_kind(&self, terminal: bool) -> BTreeMap<String, Option<String>> {
        self.items.iter().filter(|i| i.0 == terminal).map(|i| (i.1.clone(), i.2.clone())).collect()
    }
    fn names(&self) -> Vec<String> {
        let mut v: Vec<String> = self.items.iter().map(|i| i.1.clone()).collect();
        v.sort();
        v.dedup();
        v
    }
}

fn decl(s: &mut Src) -> Decl {
    let large = s.chance(1, 100);
    let k = if large { s.range(6, 300) } else { s.range(1, 6) };
    let names = gen::alphabet(s, k);
    let n = if large { s.range(k, 3 * k) } else { s.small(0, 20) };
    let items = (0..n)
        .map(|_| {
            let d = if s.bool() { Some(format!("d{}", s.below(1000))) } else { None };
            (s.bool(), s.pick(&names).clone(), d)
        })
        .collect();
    Decl { items }
}

fn check_family(f: &SystemFamily, name: &str, d: &Decl, log: &str) -> R {
    ensure!(f.name() == name, "{log}: the family of {name:?} is called {:?}", f.name());
    let list = |v: Vec<(String, Option<String>)>| {
        let mut v = v;
        v.sort();
        v
    };
    let t = list(f.terminals().map(|x| (x.name.clone(), x.description.clone())).collect());
    let p = list(f.productions().map(|x| (x.name.clone(), x.description.clone())).collect());
    let want_t: Vec<_> = d.of_kind(true).into_iter().collect();
    let want_p: Vec<_> = d.of_kind(false).into_iter().collect();
    ensure!(t == want_t, "{log}: the family {name:?} lists the terminals {t:?}, expected {want_t:?}");
    ensure!(p == want_p, "{log}: the family {name:?} lists the productions {p:?}, expected {want_p:?}");
    let all = list(f.symbols().map(|x| (x.name.clone(), x.description.clone())).collect());
    let want: Vec<_> = list(want_t.into_iter().chain(want_p).collect());
    ensure!(all == want, "{log}: the family {name:?} lists the symbols {all:?}, expected {want:?}");
    Ok(())
}

fn check_system(sys: &System, d: &Decl, log: &str) -> R {
    let names = d.names();
    ensure!(sys.symbol_len() == names.len(), "{log}: the system has {} symbols, expected {}", sys.symbol_len(), names.len());
    ensure!(sys.production_len() == 0, "{log}: the new system has {} rules", sys.production_len());
    for n in &names {
        ensure!(sys.get_symbol(n).is_some_and(|x| x.name().as_deref() == Some(n)), "{log}: the system lacks the symbol {n:?}");
    }
    ensure!(sys.get_symbol("never declared").is_none(), "{log}: the system has a symbol that was never declared");
    Ok(())
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = SERIAL.fetch_add(1, Ordering::Relaxed);
    let count = s.range(1, 4);
    let style = s.below(6);
    let names: Vec<String> = (0..count)
        .map(|i| match style {
            0 => format!("fam{id}n{i}"),
            1 => format!("Familie é{id} n{i}"),
            2 => format!("{i}{}{id}", "long ".repeat(60)),
            3 => format!("f{}", "x".repeat(i)) + &format!("y{id}"),
            // Names that differ in little.
            4 => [format!("k{id}"), format!(" k{id}"), format!("k{id} "), format!("\u{a0}k{id}\n")][i].clone(),
            _ => [format!("q{id}\u{e9}a"), format!("Q{id}\u{e9}a"), format!("q{id}e\u{301}a"), format!("q{id}\u{e9}a\u{0}")][i].clone(),
        })
        .collect();
    // The family held under each name, its declaration and the name it bears.
    let mut held: HashMap<usize, (Arc<SystemFamily>, Decl, String)> = HashMap::new();
    let steps = s.len(1, 60);
    let mut log = String::new();
    let (mut again, mut systems) = (false, false);
    for _ in 0..steps {
        let i = s.below(count);
        let name = &names[i];
        match s.weighted(&[20, 20, 20, 8, 8, 16, 8]) {
            k @ (0 | 1) => {
                let d = decl(s);
                log.push_str(&format!("register{k} n{i} {} items; ", d.items.len()));
                again |= held.contains_key(&i);
                let r = if k == 0 {
                    sut("Builder::register", || d.builder().register(name))?
                } else {
                    let f = sut("Builder::build", || d.builder().build(name))?.map_err(|e| Fail::Violation(format!("{log}: {e}")))?;
                    check_family(&f, name, &d, &log)?;
                    sut("family::register", || family::register(f))?
                };
                match r {
                    Ok(f) => {
                        ensure!(!held.contains_key(&i), "{log}: the name was taken and the registration succeeded");
                        check_family(&f, name, &d, &log)?;
                        held.insert(i, (f, d, name.clone()));
                    }
                    Err(e) => ensure!(held.contains_key(&i), "{log}: the registration was refused: {e}"),
                }
            }
            2 => {
                let d = decl(s);
                // The new family may bear another name than the one it is kept under.
                let bears = match s.weighted(&[6, 1, 1]) {
                    0 => name.clone(),
                    1 => s.pick(&names).clone(),
                    _ => format!("{name} by another name"),
                };
                log.push_str(&format!("get-or-init n{i} {} items as {bears:?}; ", d.items.len()));
                again |= held.contains_key(&i);
                let mut calls = 0;
                let f = sut("get_or_init_family", || {
                    family::get_or_init_family(name, || {
                        calls += 1;
                        d.builder().build(&bears).unwrap()
                    })
                })?;
                match held.get(&i) {
                    Some((g, gd, bears)) => {
                        ensure!(calls == 0, "{log}: the creation function ran although the family is there");
                        ensure!(Arc::ptr_eq(&f, g), "{log}: a different family came back");
                        check_family(&f, bears, gd, &log)?;
                    }
                    None => {
                        ensure!(calls == 1, "{log}: the creation function ran {calls} times");
                        check_family(&f, &bears, &d, &log)?;
                        held.insert(i, (f, d, bears));
                    }
                }
            }
            3 => {
                let b = gen::white(s, 0);
                log.push_str(&format!("blank {b:?}; "));
                let d = decl(s);
                ensure!(sut("register", || d.builder().register(&b))?.is_err(), "{log}: a blank family name was accepted");
                ensure!(sut("build", || d.builder().build(&b))?.is_err(), "{log}: a blank family name was accepted");
                ensure!(sut("get_family", || family::get_family(&b))?.is_none(), "{log}: a blank family name is registered");
            }
            4 => {
                let n = format!("{name} not there");
                log.push_str("unknown; ");
                ensure!(sut("get_family", || family::get_family(&n))?.is_none(), "{log}: {n:?} is found");
                ensure!(!sut("family_exists", || family::family_exists(&n))?, "{log}: {n:?} exists");
                ensure!(sut("of_family", || System::of_family(n.as_str()))?.is_err(), "{log}: a system was made from the unknown family {n:?}");
                ensure!(sut("into_family", || n.clone().into_family())?.is_err(), "{log}: the unknown family {n:?} was found");
            }
            5 => {
                log.push_str(&format!("system n{i}; "));
                let known = held.get(&i);
                let r = match s.below(4) {
                    0 => sut("of_family", || System::of_family(name.as_str()))?,
                    1 => sut("of_family", || System::of_family(name.clone()))?,
                    2 if known.is_some() => sut("of_family", || System::of_family(known.unwrap().0.clone()))?,
                    _ => {
                        // From a description that is not registered at all.
                        let d = decl(s);
                        let f = d.builder().build(name).map_err(|e| Fail::Violation(format!("{log}: {e}")))?;
                        let sys = sut("of_family", || System::of_family(f))?.map_err(|e| Fail::Violation(format!("{log}: {e}")))?;
                        check_system(&sys, &d, &log)?;
                        ensure!(family::family_exists(name) == known.is_some(), "{log}: making a system registered a family");
                        continue;
                    }
                };
                match (r, known) {
                    (Ok(sys), Some((_, d, _))) => {
                        check_system(&sys, d, &log)?;
                        systems |= d.names().len() >= 2;
                        // What happens to the system does not reach the family.
                        sys.add_production("Zz9 -> Zz9 Zz9").map_err(|e| Fail::Violation(format!("{log}: {e}")))?;
                    }
                    (Err(_), None) => {}
                    (Ok(_), None) => violated!("{log}: a system was made from an unknown family"),
                    (Err(e), Some(_)) => violated!("{log}: no system from a registered family: {e}"),
                }
            }
            _ => {
                log.push_str(&format!("into n{i}; "));
                let r = if s.bool() { sut("into_family", || name.as_str().into_family())? } else { sut("into_family", || name.clone().into_family())? };
                ensure!(r.is_ok() == held.contains_key(&i), "{log}: found: {}", r.is_ok());
            }
        }
        for (i, n) in names.iter().enumerate() {
            let f = sut("get_family", || family::get_family(n))?;
            ensure!(sut("family_exists", || family::family_exists(n.as_str()))? == held.contains_key(&i), "{log}: n{i} exists wrongly");
            match (f, held.get(&i)) {
                (Some(f), Some((g, d, bears))) => {
                    ensure!(Arc::ptr_eq(&f, g), "{log}: n{i} is now a different family");
                    check_family(&f, bears, d, &log)?;
                }
                (None, None) => {}
                (f, _) => violated!("{log}: n{i} is found: {}", f.is_some()),
            }
        }
    }
    ctx.case(format!("{} | {log}", names[0].len()));
    ctx.nontrivial = again && systems;
    ctx.label_if(count > 1, "several names");
    Ok(())
}

/// Families with very many symbols, very long names and very long descriptions.
fn huge(s: &mut Src, ctx: &mut Ctx) -> R {
    let id = SERIAL.fetch_add(1, Ordering::Relaxed);
    let kind = s.below(3);
    let size = gen::huge_len(s);
    let letter = *s.pick(&["x", "é", "日", "a "]);
    let stretch = |n: usize| letter.repeat(n);
    let mut name = format!("huge{id}");
    let mut d = Decl::default();
    let of = s.range(1, 40);
    let description = |i: usize| (i % 3 == 0).then(|| format!("d{i}"));
    match kind {
        0 => {
            let n = size.min(150_000);
            d.items = (0..n).map(|i| (i % of == 0, format!("hs{i}"), description(i))).collect();
        }
        1 => {
            name = format!("{}{name}", stretch(size));
            d.items = (0..of).map(|i| (i % 2 == 0, format!("hs{i}"), description(i))).collect();
        }
        _ => {
            d.items = (0..of).map(|i| (i % 2 == 0, format!("hs{i}"), Some(format!("{}{i}", stretch(size / (1 + i)))))).collect();
            // A very long symbol name.
            d.items.push((s.bool(), format!("{}q", "q".repeat(size)), None));
        }
    }
    ctx.case(format!("{} symbols, a name of {} bytes, descriptions of up to {} bytes", d.items.len(), name.len(), d.items.iter().filter_map(|i| i.2.as_ref()).map(|t| t.len()).max().unwrap_or(0)));
    ctx.nontrivial = true;
    ctx.label(["many symbols", "long name", "long descriptions"][kind]);
    let what = ctx.case.clone();
    let tell = |r: R| match r {
        Err(Fail::Violation(m)) => Err(Fail::Violation(clip(&m, 1_000))),
        r => r,
    };
    let f = sut("register", || d.builder().register(&name))?.map_err(|e| Fail::Violation(format!("{what}: refused: {}", clip(&e.to_string(), 300))))?;
    tell(check_family(&f, &name, &d, &what))?;
    let found = sut("get_family", || family::get_family(&name))?;
    ensure!(found.is_some_and(|g| Arc::ptr_eq(&f, &g)), "{what}: the family is not found");
    ensure!(sut("register", || d.builder().register(&name))?.is_err(), "{what}: the name was taken and the registration succeeded");
    // A name that differs at the end only is another one.
    let other = format!("{name}'");
    ensure!(!sut("family_exists", || family::family_exists(&other))?, "{what}: another name exists");
    let sys = sut("of_family", || System::of_family(name.as_str()))?.map_err(|e| Fail::Violation(format!("{what}: no system: {}", clip(&e.to_string(), 300))))?;
    tell(check_system(&sys, &d, &what))
}
