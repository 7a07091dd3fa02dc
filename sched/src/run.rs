//! Runs small programs on several threads under a schedule drawn by the check.

use engine::*;
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};

pub const CONTROLLED: bool = cfg!(feature = "controlled");

pub type Body = Box<dyn FnOnce() + Send>;

/// The order of events that threads observe: a call that ended before another began has an end
/// smaller than the start of the other.
#[derive(Clone, Default)]
pub struct Clock(Arc<AtomicU64>);

impl Clock {
    pub fn tick(&self) -> u64 {
        self.0.fetch_add(1, Ordering::SeqCst)
    }
}

/// One call: the thread, its start and end, and what it returned.
#[derive(Clone, Debug)]
pub struct Event<O, R> {
    pub thread: usize,
    pub start: u64,
    pub end: u64,
    pub op: O,
    pub out: R,
}

/// The history a run leaves.
pub struct History<O, R>(Arc<Mutex<Vec<Event<O, R>>>>, pub Clock);

impl<O, R> Clone for History<O, R> {
    fn clone(&self) -> Self {
        History(self.0.clone(), self.1.clone())
    }
}

impl<O, R> History<O, R> {
    pub fn new() -> Self {
        History(Arc::new(Mutex::new(Vec::new())), Clock::default())
    }
    /// Makes a call and notes it.
    pub fn call(&self, thread: usize, op: O, f: impl FnOnce(&O) -> R) {
        vstd::ctl::point();
        let start = self.1.tick();
        let out = f(&op);
        let end = self.1.tick();
        self.0.lock().unwrap_or_else(|e| e.into_inner()).push(Event { thread, start, end, op, out });
    }
    pub fn take(&self) -> Vec<Event<O, R>> {
        let mut v = std::mem::take(&mut *self.0.lock().unwrap_or_else(|e| e.into_inner()));
        v.sort_by_key(|e| e.start);
        v
    }
}

/// How the next thread is chosen.
#[derive(Clone, Debug)]
pub enum Strategy {
    /// Every scheduling point switches with probability 1/k.
    Random(u64),
    /// Threads run until they block, but for switches after so many scheduling points: (points
    /// since the last one, which of the other threads).
    Preempt(Vec<(u64, usize)>),
    /// Real threads, as the system runs them.
    Real,
}

pub fn random_strategy(s: &mut Src) -> (Strategy, bool) {
    let k = *s.pick(&[2u64, 3, 5, 9, 17]);
    (Strategy::Random(k), s.bool())
}

/// Draws a schedule with at most two preemptions. The bounds make an enumeration cover all of
/// them within the first `len` points.
pub fn preempt_strategy(s: &mut Src, threads: usize, len: u64) -> (Strategy, bool) {
    let writers = s.bool();
    let mut v = vec![(u64::MAX, 0); 1];
    // Who starts.
    let first = s.below(threads);
    v[0] = (0, first);
    for _ in 0..2 {
        let who = if threads > 2 { s.below(threads - 1) } else { 0 };
        let at = s.draw(len);
        v.push((at, who));
    }
    (Strategy::Preempt(v), writers)
}

pub fn real_threads() -> (Strategy, bool) {
    (Strategy::Real, false)
}

pub struct Ran {
    pub preemptions: u64,
    pub steps: u64,
    pub trace: String,
}

/// Runs the bodies; the strategy draws from `src` while they run.
pub fn run(src: &mut Src, (strategy, writers_first): (Strategy, bool), bodies: Vec<Body>) -> R<Ran> {
    if CONTROLLED && !matches!(strategy, Strategy::Real) {
        controlled(src, strategy, writers_first, bodies)
    } else {
        free(bodies)
    }
}

fn controlled(src: &mut Src, strategy: Strategy, writers_first: bool, bodies: Vec<Body>) -> R<Ran> {
    let shared = Arc::new(Mutex::new(std::mem::replace(src, Src::replay(Vec::new()))));
    let lent = shared.clone();
    let mut since = 0u64;
    let mut next = 0usize;
    let choose: vstd::ctl::Choose = Box::new(move |step, cur, ready| {
        if step == 0 {
            // The start.
            return match &strategy {
                Strategy::Random(_) => ready[lent.lock().unwrap().below(ready.len())],
                Strategy::Real => ready[0],
                Strategy::Preempt(v) => {
                    next = 1;
                    ready[v[0].1 % ready.len()]
                }
            };
        }
        match &strategy {
            Strategy::Real => ready[0],
            Strategy::Random(k) => {
                if ready.len() == 1 {
                    return ready[0];
                }
                let mut s = lent.lock().unwrap();
                if ready[0] == cur {
                    if s.chance(1, *k) {
                        ready[1 + s.below(ready.len() - 1)]
                    } else {
                        cur
                    }
                } else {
                    ready[s.below(ready.len())]
                }
            }
            Strategy::Preempt(v) => {
                if ready[0] != cur {
                    // Blocked, ended, or yielding.
                    since = 0;
                    return ready[0];
                }
                since += 1;
                if let Some((at, who)) = v.get(next) {
                    if since > *at {
                        next += 1;
                        since = 0;
                        if ready.len() > 1 {
                            return ready[1 + who % (ready.len() - 1)];
                        }
                    }
                }
                cur
            }
        }
    });
    let report = vstd::ctl::run(vstd::ctl::Options { choose, writers_first, limit: 20_000 }, bodies, last_panic);
    match Arc::try_unwrap(shared) {
        Ok(m) => *src = m.into_inner().unwrap_or_else(|e| e.into_inner()),
        Err(_) => return Err(Fail::Harness("the strategy is still in use".into())),
    }
    let trace: String = report.trace.iter().map(|t| (b'A' + *t) as char).collect();
    if let Some((t, m)) = report.panics.iter().enumerate().find_map(|(i, p)| p.as_ref().map(|m| (i, m.clone()))) {
        violated!("thread {} panicked: {m} (threads ran in the order {trace})", (b'A' + t as u8) as char);
    }
    match report.outcome {
        vstd::ctl::Outcome::Completed => {}
        vstd::ctl::Outcome::Deadlock(w) => violated!("the threads block each other forever: {w} (threads ran in the order {trace})"),
        o => return Err(Fail::Harness(format!("undecided: {o:?}"))),
    }
    Ok(Ran { preemptions: report.preemptions, steps: report.steps, trace })
}

/// Real threads, started together.
fn free(bodies: Vec<Body>) -> R<Ran> {
    let n = bodies.len();
    let start = Arc::new(std::sync::Barrier::new(n));
    let (tx, rx) = std::sync::mpsc::channel();
    for (t, b) in bodies.into_iter().enumerate() {
        let (start, tx) = (start.clone(), tx.clone());
        std::thread::spawn(move || {
            start.wait();
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(b)).map_err(|_| last_panic());
            let _ = tx.send((t, r));
        });
    }
    drop(tx);
    for _ in 0..n {
        match rx.recv_timeout(std::time::Duration::from_secs(40)) {
            Ok((_, Ok(()))) => {}
            Ok((t, Err(m))) => violated!("thread {} panicked: {m}", (b'A' + t as u8) as char),
            Err(_) => violated!("the threads block each other forever: no thread has ended for 40 s"),
        }
    }
    Ok(Ran { preemptions: 1, steps: 0, trace: String::from("(real threads)") })
}

pub fn letter(t: usize) -> char {
    (b'A' + t as u8) as char
}
