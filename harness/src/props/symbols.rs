//! P01: names and symbols correspond one to one.

use crate::gen;
use crate::model::is_white;
use engine::*;
use rusty_systems::prelude::*;
use rusty_systems::symbols::{get_code, get_name};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicU64, Ordering};

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "P01",
        rule: "A case is a history of look-ups: by name (padded with white space, through every entry point), by code, of blank names and of codes never handed out, \
               compared after every step with a map kept for the whole process; 'many' registers up to 70000 (thorough: 300000) related names in one case, 'very-many' 1.2 million (thorough: 4 million). Non-trivial: some name is asked for \
               at least twice and at least two different names occur.",
        assumptions: &["names are compared after removing Unicode white space at both ends"],
        phases: vec![
            Phase { name: "history", kind: Kind::Random, quick: 480_000, thorough: 4_800_000, f: history },
            Phase { name: "related-names", kind: Kind::Random, quick: 32_000, thorough: 320_000, f: related },
            Phase { name: "many", kind: Kind::Random, quick: 16, thorough: 64, f: many },
            Phase { name: "very-many", kind: Kind::Random, quick: 1, thorough: 1, f: very_many },
        ],
    }]
}

static SERIAL: AtomicU64 = AtomicU64::new(0);

thread_local! {
    /// Everything ever handed out in this process.
    static WORLD: RefCell<(HashMap<String, u32>, HashMap<u32, String>)> = RefCell::new((HashMap::new(), HashMap::new()));
}

fn trimmed(s: &str) -> &str {
    s.trim_matches(is_white)
}

fn record(name: &str, code: u32) -> R {
    WORLD.with(|w| {
        let (by_name, by_code) = &mut *w.borrow_mut();
        match by_name.get(name) {
            Some(c) if *c != code => violated!("the name {:?} had code {c} and now has code {code}", clip(name, 60)),
            Some(_) => return Ok(()),
            None => {}
        }
        if let Some(n) = by_code.get(&code) {
            violated!("the code {code} of {:?} is also the code of {:?}", clip(name, 60), clip(n, 60));
        }
        by_name.insert(name.to_string(), code);
        by_code.insert(code, name.to_string());
        Ok(())
    })
}

fn lookup(s: &mut Src, text: &str) -> R<std::result::Result<Symbol, String>> {
    let how = s.below(6);
    sut("asking for a symbol by name", || match how {
        0 => Symbol::build(text).map_err(|e| e.to_string()),
        1 => text.parse::<Symbol>().map_err(|e| e.to_string()),
        2 => Symbol::try_from(text).map_err(|e| e.to_string()),
        3 => Symbol::try_from(text.to_string()).map_err(|e| e.to_string()),
        4 => get_code(text).map(Symbol::from_code).map_err(|e| e.to_string()),
        _ => Symbol::build(String::from(text)).map_err(|e| e.to_string()),
    })
}

fn check(sym: Symbol, name: &str) -> R {
    let code = sym.code();
    record(name, code)?;
    let got = sut("name", || sym.name())?;
    ensure!(got.as_deref() == Some(name), "the symbol of {:?} reports the name {:?}", clip(name, 60), got.map(|g| clip(&g, 60)));
    let got = sut("get_name", || get_name(code))?;
    ensure!(got.as_deref() == Some(name), "code {code} of {:?} has the name {:?}", clip(name, 60), got.map(|g| clip(&g, 60)));
    let shown = sut("display", || sym.to_string())?;
    ensure!(shown == name, "the symbol of {:?} displays as {:?}", clip(name, 60), clip(&shown, 60));
    match sut("from code", || Symbol::try_from(code))? {
        Ok(x) => ensure!(x == sym, "the code of {:?} gives a different symbol", clip(name, 60)),
        Err(e) => violated!("the code {code} of {:?} is refused: {e}", clip(name, 60)),
    }
    Ok(())
}

fn any_name(s: &mut Src) -> String {
    let n = match s.weighted(&[6, 3, 1]) {
        0 => gen::name(s),
        1 => {
            // Anything at all, inner white space and operators included.
            let n = s.range(1, 8);
            (0..n).map(|_| gen::any_char(s)).collect()
        }
        _ => {
            let n = s.len(1, 5000);
            (0..n).map(|_| *s.pick(&['x', 'é', '日', ' ', '-'])).collect()
        }
    };
    trimmed(&n).to_string()
}

fn history(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut pool: Vec<String> = Vec::new();
    let mut seen: HashMap<String, Symbol> = HashMap::new();
    let steps = s.len(1, 120);
    let mut log = String::new();
    let mut repeated = false;
    for _ in 0..steps {
        match s.weighted(&[30, 40, 10, 12, 8]) {
            k @ (0 | 1) => {
                if k == 0 || pool.is_empty() {
                    let n = any_name(s);
                    if n.is_empty() {
                        continue;
                    }
                    pool.push(n);
                }
                let n = if k == 0 { pool.last().unwrap().clone() } else { s.pick(&pool).clone() };
                let padded = format!("{}{}{}", gen::white(s, 0), n, gen::white(s, 0));
                log.push_str(&format!("{padded:?} "));
                let sym = match lookup(s, &padded)? {
                    Ok(x) => x,
                    Err(e) => violated!("the name {:?} was refused: {e}", clip(&padded, 60)),
                };
                repeated |= seen.contains_key(&n);
                for (m, y) in &seen {
                    ensure!((m == &n) == (*y == sym), "the names {:?} and {:?}: symbols equal is {}", clip(m, 60), clip(&n, 60), *y == sym);
                }
                seen.insert(n.clone(), sym);
                check(sym, &n)?;
            }
            2 => {
                let b = gen::white(s, 0);
                log.push_str(&format!("blank {b:?} "));
                ctx.label("blank");
                if let Ok(x) = lookup(s, &b)? {
                    violated!("the blank name {b:?} was accepted as {x}");
                }
            }
            3 => {
                let code = match s.below(5) {
                    // Those about to be handed out, if codes are given in order.
                    3 | 4 => WORLD.with(|w| w.borrow().1.keys().max().map_or(0, |c| c.saturating_add(1))).saturating_add(s.weighted(&[4, 1, 1]) as u32),
                    0 => u32::MAX - s.draw(1000) as u32,
                    1 => s.draw(1 << 32) as u32,
                    _ => s.draw(4096) as u32,
                };
                let known = WORLD.with(|w| w.borrow().1.get(&code).cloned());
                log.push_str(&format!("code {code} "));
                if known.is_none() {
                    ctx.label("unknown code");
                }
                let got = sut("get_name", || get_name(code))?;
                ensure!(got == known, "code {code} has the name {got:?}, expected {known:?}");
                let back = sut("from code", || Symbol::try_from(code).is_ok())?;
                ensure!(back == known.is_some(), "code {code}: accepted is {back}, handed out is {}", known.is_some());
                let unnamed = sut("name", || Symbol::from_code(code).name())?;
                ensure!(unnamed == known, "the symbol with code {code} reports the name {unnamed:?}");
                let shown = sut("display", || Symbol::from_code(code).to_string())?;
                ensure!(known.is_none() || known.as_deref() == Some(shown.as_str()), "code {code} displays as {shown:?}");
                if s.bool() {
                    // A name that is new for certain.
                    let n = format!("new{}", SERIAL.fetch_add(1, Ordering::Relaxed));
                    log.push_str(&format!("{n} "));
                    let sym = match lookup(s, &n)? {
                        Ok(x) => x,
                        Err(e) => violated!("the name {n:?} was refused: {e}"),
                    };
                    check(sym, &n)?;
                    seen.insert(n, sym);
                }
            }
            _ => {
                // Everything so far is still as it was.
                let mut all: Vec<_> = seen.iter().collect();
                all.sort_by_key(|x| x.0.clone());
                for (n, y) in all {
                    check(*y, n)?;
                }
            }
        }
    }
    for (n, y) in &seen {
        check(*y, n)?;
    }
    ctx.case(log);
    ctx.nontrivial = repeated && seen.len() >= 2;
    ctx.label_if(seen.len() >= 10, ">= 10 names");
    ctx.label_if(seen.keys().any(|n| n.len() > 200), "name longer than 200 bytes");
    ctx.label_if(seen.keys().any(|n| !n.is_ascii()), "non-ASCII name");
    ctx.label_if(seen.keys().any(|n| n.contains(is_white)), "inner white space");
    Ok(())
}

/// Names that are easily taken for one another.
fn related(s: &mut Src, ctx: &mut Ctx) -> R {
    let base = any_name(s);
    if base.is_empty() {
        return Err(Fail::Discard);
    }
    let mut names = vec![base.clone()];
    let size = match s.weighted(&[60, 30, 1]) {
        0 => 300,
        1 => 5_000,
        _ => 140_000,
    };
    let long: String = std::iter::repeat(base.as_str()).take(1 + size / base.len().max(1)).collect();
    let mut middle = s.below(long.len() + 1);
    while !long.is_char_boundary(middle) {
        middle -= 1;
    }
    let variants = [
        base.to_lowercase(),
        base.to_uppercase(),
        format!("{base}{base}"),
        base.chars().rev().collect(),
        format!("{base}\u{200b}"),
        format!("{base}\u{301}"),
        format!("{base}\u{0}"),
        format!("\"{base}\""),
        format!("{base} {base}"),
        format!("{base}  {base}"),
        base.chars().skip(1).collect(),
        base.chars().take(base.chars().count() - 1).collect(),
        format!("{base}1"),
        format!("code:{}", s.below(300)),
        format!("{long}x"),
        format!("{long}y"),
        format!("x{long}"),
        format!("y{long}"),
        format!("{long}x{long}"),
        format!("{long}y{long}"),
        format!("{long}{long}x"),
        format!("{}xy{long}", &long[..middle]),
        format!("{}yx{long}", &long[..middle]),
    ];
    for v in variants {
        let v = trimmed(&v).to_string();
        if !v.is_empty() && !names.contains(&v) {
            names.push(v);
        }
    }
    let mut order: Vec<usize> = (0..names.len()).chain(0..names.len()).collect();
    for i in (1..order.len()).rev() {
        order.swap(i, s.below(i + 1));
    }
    let mut codes: HashMap<usize, u32> = HashMap::new();
    for i in order {
        let sym = match lookup(s, &names[i])? {
            Ok(x) => x,
            Err(e) => violated!("the name {:?} was refused: {e}", clip(&names[i], 60)),
        };
        for (j, c) in &codes {
            ensure!((*j == i) == (*c == sym.code()), "the names {:?} and {:?}: codes {} and {c}", clip(&names[i], 60), clip(&names[*j], 60), sym.code());
        }
        codes.insert(i, sym.code());
        check(sym, &names[i])?;
    }
    ctx.case(format!("{base:?} and {} relatives", names.len() - 1));
    ctx.nontrivial = names.len() > 4;
    Ok(())
}

fn many(s: &mut Src, ctx: &mut Ctx) -> R {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let n = if thorough { s.range(50_000, 300_000) } else { s.range(30_000, 70_000) };
    let style = s.below(4);
    let salt = s.draw(1 << 40);
    let make = |i: usize| match style {
        0 => format!("m{salt}n{i}"),
        1 => format!("{i}m{salt}"),
        2 => format!("{:x}m{salt}", i.wrapping_mul(0x9e3779b97f4a7c15)),
        _ => format!("{}{}m{salt}", char::from_u32(0x4e00 + (i % 0x5000) as u32).unwrap(), i / 0x5000),
    };
    ctx.case(format!("{n} names like {:?}", make(7)));
    let mut codes = Vec::with_capacity(n);
    for i in 0..n {
        match sut("Symbol::build", || Symbol::build(make(i)))? {
            Ok(x) => codes.push(x.code()),
            Err(e) => violated!("the name {:?} was refused: {e}", make(i)),
        }
    }
    for (i, c) in codes.iter().enumerate() {
        record(&make(i), *c)?;
    }
    for (i, c) in codes.iter().enumerate() {
        let got = sut("get_name", || get_name(*c))?;
        ensure!(got.as_deref() == Some(make(i).as_str()), "after {n} names, code {c} of {:?} has the name {got:?}", make(i));
    }
    for (i, c) in codes.iter().enumerate().step_by(7) {
        let again = sut("Symbol::build", || Symbol::build(make(i)))?.map(|x| x.code()).map_err(|e| Fail::Violation(e.to_string()))?;
        ensure!(again == *c, "after {n} names, {:?} changed its code from {c} to {again}", make(i));
    }
    ctx.inner = n as u64;
    ctx.nontrivial = true;
    Ok(())
}

/// So many names that codes of 20 (thorough: 22) bits do not go round. Kept apart from the map of the process for its size.
fn very_many(s: &mut Src, ctx: &mut Ctx) -> R {
    let thorough = std::env::var("VERIF_TIER").as_deref() == Ok("thorough");
    let n = if thorough { (1 << 22) + s.range(1_000, 100_000) } else { (1 << 20) + s.range(1_000, 200_000) };
    let salt = s.draw(1 << 20);
    let make = |i: usize| format!("v{i}s{salt}");
    ctx.case(format!("{n} names like {:?}", make(7)));
    let mut codes: Vec<(u32, u32)> = Vec::with_capacity(n);
    for i in 0..n {
        match sut("Symbol::build", || Symbol::build(make(i)))? {
            Ok(x) => codes.push((x.code(), i as u32)),
            Err(e) => violated!("the name {:?} was refused: {e}", make(i)),
        }
    }
    for (c, i) in codes.iter().step_by(3) {
        let got = sut("get_name", || get_name(*c))?;
        ensure!(got.as_deref() == Some(make(*i as usize).as_str()), "after {n} names, code {c} of {:?} has the name {got:?}", make(*i as usize));
    }
    for (c, i) in codes.iter().step_by(11) {
        let again = sut("Symbol::build", || Symbol::build(make(*i as usize)))?.map(|x| x.code()).map_err(|e| Fail::Violation(e.to_string()))?;
        ensure!(again == *c, "after {n} names, {:?} changed its code from {c} to {again}", make(*i as usize));
    }
    codes.sort_unstable();
    for w in codes.windows(2) {
        ensure!(w[0].0 != w[1].0, "the names {:?} and {:?} have the same code {}", make(w[0].1 as usize), make(w[1].1 as usize), w[0].0);
    }
    WORLD.with(|w| {
        for (code, name) in &w.borrow().1 {
            if let Ok(at) = codes.binary_search_by_key(code, |x| x.0) {
                violated!("the code {code} of {:?} is also the code of {:?}", clip(name, 60), make(codes[at].1 as usize));
            }
        }
        Ok(())
    })?;
    ctx.inner = n as u64;
    ctx.nontrivial = true;
    Ok(())
}
