//! A small property-based testing engine.
//!
//! Every random choice a generator makes is drawn from a [`Src`], which records it. The recorded
//! *tape* of choices is what is shrunk, written to the replay file and replayed. A run is a pure
//! function of the code under test and the seed: the choices for case `i` of a phase come from a
//! generator seeded by (seed, property, phase, i).

pub mod cov;
pub mod dict;
pub mod guide;
pub mod runner;
pub mod src;

pub use src::Src;

use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

/// Why a case did not simply pass.
#[derive(Debug, Clone)]
pub enum Fail {
    /// The property is broken.
    Violation(String),
    /// The generated input is outside the domain of the property.
    Discard,
    /// The case fails only in the way listed as a known finding with this id.
    Known(String),
    /// The machinery itself could not decide.
    Harness(String),
}

pub type R<T = ()> = Result<T, Fail>;

/// What one case reports about itself.
#[derive(Default)]
pub struct Ctx {
    pub nontrivial: bool,
    pub labels: Vec<&'static str>,
    pub case: String,
    /// Inner evaluations beyond the case itself (e.g. samples drawn), for the evidence only.
    pub inner: u64,
}

impl Ctx {
    /// Describes the case. The description identifies it (distinct cases are counted by it).
    pub fn case<S: Into<String>>(&mut self, s: S) {
        self.case = s.into();
    }
    pub fn label(&mut self, l: &'static str) {
        if !self.labels.contains(&l) {
            self.labels.push(l);
        }
    }
    pub fn label_if(&mut self, cond: bool, l: &'static str) {
        if cond {
            self.label(l);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    /// Cases drawn at random.
    Random,
    /// Case `i` decodes the number `i` in the mixed radix of the bounds drawn: the run covers the
    /// whole product space. For spaces whose bounds do not depend on earlier choices.
    Enumerate,
    /// The leaves of the tree of choices, one after another: the run covers all of them. For
    /// spaces whose bounds depend on earlier choices.
    Walk,
    /// Like `Random`, but each case runs in a process of its own.
    Fresh,
}

pub type CaseFn = fn(&mut Src, &mut Ctx) -> R;

#[derive(Clone, Copy)]
pub struct Phase {
    pub name: &'static str,
    pub kind: Kind,
    pub quick: u64,
    pub thorough: u64,
    pub f: CaseFn,
}

pub struct Prop {
    pub id: &'static str,
    /// How cases are made, and what makes one non-trivial.
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub phases: Vec<Phase>,
}

thread_local! {
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}

/// Records panics quietly instead of printing them.
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("panic")
        };
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
    }));
}

pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}

/// Calls the code under test. A panic in it is a violation.
pub fn sut<T>(what: &str, f: impl FnOnce() -> T) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(_) => Err(Fail::Violation(format!("{what} panicked: {}", last_panic()))),
    }
}

/// Calls the code under test where a panic is one of the allowed answers.
pub fn sut_may_panic<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| last_panic())
}

#[macro_export]
macro_rules! violated {
    ($($arg:tt)*) => { return Err($crate::Fail::Violation(format!($($arg)*))) };
}

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)*) => { if !($cond) { return Err($crate::Fail::Violation(format!($($arg)*))); } };
}

/// 64-bit FNV-1a with a final mix, used for counting distinct cases and for seeding.
pub fn hash64(bytes: &[u8]) -> u64 {
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    for b in bytes {
        h ^= *b as u64;
        h = h.wrapping_mul(0x0000_0100_0000_01b3);
    }
    src::mix(h)
}

/// Shortens a description for messages and samples.
pub fn clip(s: &str, n: usize) -> String {
    if s.chars().count() <= n {
        s.to_string()
    } else {
        let head: String = s.chars().take(n).collect();
        format!("{head}... ({} chars in all)", s.chars().count())
    }
}
