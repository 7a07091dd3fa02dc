//! The scheduler. The threads of a session run one at a time; at every scheduling point the one
//! that runs next is chosen by the session's strategy. Locks are modelled here, so that a thread
//! that would block gives way, and a state in which every thread is blocked is recognised.
//!
//! Threads outside a session use the primitives as they are.

use std::any::Any;
use std::cell::RefCell;
use std::collections::HashMap;
use std::panic::resume_unwind;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Read,
    Write,
    Once,
    Cond,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Status {
    Ready,
    Blocked(usize, Kind),
    Done,
}

#[derive(Default)]
struct Lock {
    readers: Vec<usize>,
    writer: Option<usize>,
    waiting_writers: Vec<usize>,
}

/// Chooses the next thread: `choose(step, current, ready)`, where `ready` lists the threads that
/// can run in rotation order; the current thread is the first of them if it can run.
pub type Choose = Box<dyn FnMut(u64, usize, &[usize]) -> usize + Send>;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Outcome {
    Completed,
    /// No thread can run.
    Deadlock(String),
    /// More steps than the limit: nothing is decided.
    TooLong,
    /// The running thread did not get anywhere for a long time (it blocks on something that is not
    /// modelled): nothing is decided.
    Stalled,
}

struct State {
    n: usize,
    current: usize,
    status: Vec<Status>,
    locks: HashMap<usize, Lock>,
    onces: HashMap<usize, usize>,
    choose: Option<Choose>,
    steps: u64,
    limit: u64,
    run_length: u64,
    outcome: Option<Outcome>,
    writers_first: bool,
    trace: Vec<u8>,
    preemptions: u64,
}

impl State {
    fn waiting(&self) -> String {
        self.status
            .iter()
            .enumerate()
            .filter_map(|(i, s)| match s {
                Status::Blocked(_, k) => Some(format!(
                    "thread {i} waits for a {}",
                    match k {
                        Kind::Read => "read lock",
                        Kind::Write => "write lock",
                        Kind::Once => "one-time initialisation",
                        Kind::Cond => "notification",
                    }
                )),
                _ => None,
            })
            .collect::<Vec<_>>()
            .join(", ")
    }
}

pub struct Session {
    state: Mutex<State>,
    wake: Vec<Condvar>,
    finished: Condvar,
}

/// What threads are unwound with when a session is given up.
pub struct Aborted;

thread_local! {
    static ME: RefCell<Option<(Arc<Session>, usize)>> = const { RefCell::new(None) };
}

fn me() -> Option<(Arc<Session>, usize)> {
    ME.try_with(|m| m.borrow().clone()).ok().flatten()
}

pub fn in_session() -> bool {
    ME.try_with(|m| m.borrow().is_some()).unwrap_or(false)
}

pub fn is_abort(p: &(dyn Any + Send)) -> bool {
    p.is::<Aborted>()
}

fn addr_of<T: ?Sized>(t: &T) -> usize {
    t as *const T as *const u8 as usize
}

impl Session {
    fn lock(&self) -> MutexGuard<'_, State> {
        self.state.lock().unwrap_or_else(|e| e.into_inner())
    }

    fn give_up(&self, st: &mut State, o: Outcome) {
        if st.outcome.is_none() {
            st.outcome = Some(o);
        }
        for c in &self.wake {
            c.notify_all();
        }
    }

    /// Chooses who runs next and waits until `t` runs again. `t` may have been marked as blocked.
    fn switch<'a>(&'a self, mut st: MutexGuard<'a, State>, t: usize, yielding: bool) -> MutexGuard<'a, State> {
        if st.outcome.is_some() {
            drop(st);
            abort();
        }
        st.steps += 1;
        if st.steps > st.limit {
            self.give_up(&mut st, Outcome::TooLong);
            drop(st);
            abort();
        }
        let n = st.n;
        let mut ready: Vec<usize> = (0..n).map(|k| (t + k) % n).filter(|x| st.status[*x] == Status::Ready).collect();
        if ready.is_empty() {
            let what = st.waiting();
            self.give_up(&mut st, Outcome::Deadlock(what));
            drop(st);
            abort();
        }
        // A thread that spins must let the others go on at last.
        if (yielding || st.run_length > 300) && ready.len() > 1 && ready[0] == t {
            ready.remove(0);
        }
        let steps = st.steps;
        let mut choose = st.choose.take().expect("strategy");
        let next = choose(steps, t, &ready);
        st.choose = Some(choose);
        if next == t {
            st.run_length += 1;
            return st;
        }
        if st.status[t] == Status::Ready {
            st.preemptions += 1;
        }
        st.run_length = 0;
        st.current = next;
        if st.trace.len() < 400 {
            st.trace.push(next as u8);
        }
        self.wake[next].notify_one();
        self.wait_turn(st, t)
    }

    fn wait_turn<'a>(&'a self, mut st: MutexGuard<'a, State>, t: usize) -> MutexGuard<'a, State> {
        while st.current != t && st.outcome.is_none() {
            st = self.wake[t].wait(st).unwrap_or_else(|e| e.into_inner());
        }
        if st.outcome.is_some() {
            drop(st);
            abort();
        }
        st
    }

    fn hand_over(&self, st: &mut State, t: usize, ready: &[usize]) {
        let steps = st.steps;
        let mut choose = st.choose.take().expect("strategy");
        let next = choose(steps, t, ready);
        st.choose = Some(choose);
        st.current = next;
        if st.trace.len() < 400 {
            st.trace.push(next as u8);
        }
        self.wake[next].notify_one();
    }

    fn thread_done(&self, t: usize) {
        let mut st = self.lock();
        st.status[t] = Status::Done;
        if st.status.iter().all(|s| *s == Status::Done) {
            if st.outcome.is_none() {
                st.outcome = Some(Outcome::Completed);
            }
            self.finished.notify_all();
        } else if st.outcome.is_none() {
            let ready: Vec<usize> = (0..st.n).map(|k| (t + k) % st.n).filter(|x| st.status[*x] == Status::Ready).collect();
            if ready.is_empty() {
                let waiting = st.waiting();
                self.give_up(&mut st, Outcome::Deadlock(waiting));
            } else {
                self.hand_over(&mut st, t, &ready);
            }
        }
    }

    fn wake_waiters(st: &mut State, addr: usize) {
        for s in st.status.iter_mut() {
            if matches!(s, Status::Blocked(a, _) if *a == addr) {
                *s = Status::Ready;
            }
        }
    }
}

fn abort() -> ! {
    resume_unwind(Box::new(Aborted))
}

/// A scheduling point.
pub fn point() {
    if std::thread::panicking() {
        return;
    }
    if let Some((s, t)) = me() {
        let st = s.lock();
        drop(s.switch(st, t, false));
    }
}

/// A scheduling point at which another thread runs, if one can.
pub fn yield_point() {
    if std::thread::panicking() {
        return;
    }
    if let Some((s, t)) = me() {
        let st = s.lock();
        drop(s.switch(st, t, true));
    }
}

/// Acquires a modelled lock. False if the caller is not part of a session.
pub fn acquire<T: ?Sized>(on: &T, kind: Kind) -> bool {
    if std::thread::panicking() {
        return false;
    }
    let Some((s, t)) = me() else { return false };
    let addr = addr_of(on);
    let mut st = s.lock();
    st = s.switch(st, t, false);
    let mut waiting = false;
    loop {
        let writers_first = st.writers_first;
        let l = st.locks.entry(addr).or_default();
        let free = match kind {
            Kind::Read => l.writer.is_none() && !(writers_first && !l.waiting_writers.is_empty()),
            _ => l.writer.is_none() && l.readers.is_empty(),
        };
        if free {
            if kind == Kind::Read {
                l.readers.push(t);
            } else {
                l.writer = Some(t);
                l.waiting_writers.retain(|x| *x != t);
            }
            return true;
        }
        if kind == Kind::Write && !waiting {
            l.waiting_writers.push(t);
            waiting = true;
        }
        st.status[t] = Status::Blocked(addr, kind);
        st = s.switch(st, t, false);
    }
}

/// Tries to acquire a modelled lock: None outside a session.
pub fn try_acquire<T: ?Sized>(on: &T, kind: Kind) -> Option<bool> {
    if std::thread::panicking() {
        return None;
    }
    let (s, t) = me()?;
    let addr = addr_of(on);
    let mut st = s.lock();
    st = s.switch(st, t, false);
    let l = st.locks.entry(addr).or_default();
    let free = match kind {
        Kind::Read => l.writer.is_none(),
        _ => l.writer.is_none() && l.readers.is_empty(),
    };
    if free {
        if kind == Kind::Read {
            l.readers.push(t);
        } else {
            l.writer = Some(t);
        }
    }
    Some(free)
}

/// Releases a modelled lock, then gives others a chance to run.
pub fn release<T: ?Sized>(on: &T, kind: Kind) {
    let Some((s, t)) = me() else { return };
    let addr = addr_of(on);
    let mut st = s.lock();
    if let Some(l) = st.locks.get_mut(&addr) {
        if kind == Kind::Read {
            if let Some(p) = l.readers.iter().position(|x| *x == t) {
                l.readers.remove(p);
            }
        } else {
            l.writer = None;
        }
        if l.readers.is_empty() && l.writer.is_none() && l.waiting_writers.is_empty() {
            st.locks.remove(&addr);
        }
    }
    Session::wake_waiters(&mut st, addr);
}

/// Turns a modelled write lock into a read lock.
pub fn downgrade<T: ?Sized>(on: &T) {
    let Some((s, t)) = me() else { return };
    let addr = addr_of(on);
    let mut st = s.lock();
    if let Some(l) = st.locks.get_mut(&addr) {
        l.writer = None;
        l.readers.push(t);
    }
    Session::wake_waiters(&mut st, addr);
}

/// True if the session of the caller was given up: locks must not stay poisoned by that.
pub fn aborting() -> bool {
    match me() {
        Some((s, _)) => s.lock().outcome.is_some(),
        None => false,
    }
}

/// Claims a one-time initialisation. `None` outside a session. `Some(true)`: the caller is to run
/// it, then call [`once_end`]. `Some(false)`: it is done.
pub fn once_begin<T: ?Sized>(on: &T, done: impl Fn() -> bool) -> Option<bool> {
    if std::thread::panicking() {
        return None;
    }
    let (s, t) = me()?;
    let addr = addr_of(on);
    let mut st = s.lock();
    st = s.switch(st, t, false);
    loop {
        if done() {
            return Some(false);
        }
        if let std::collections::hash_map::Entry::Vacant(e) = st.onces.entry(addr) {
            e.insert(t);
            return Some(true);
        }
        st.status[t] = Status::Blocked(addr, Kind::Once);
        st = s.switch(st, t, false);
    }
}

pub struct OnceEnd<'a, T: ?Sized>(pub &'a T);

impl<T: ?Sized> Drop for OnceEnd<'_, T> {
    fn drop(&mut self) {
        let Some((s, _)) = me() else { return };
        let addr = addr_of(self.0);
        let mut st = s.lock();
        st.onces.remove(&addr);
        Session::wake_waiters(&mut st, addr);
    }
}

/// Waits for a notification (a condition variable).
pub fn cond_wait<T: ?Sized>(on: &T) {
    let Some((s, t)) = me() else { return };
    let addr = addr_of(on);
    let mut st = s.lock();
    st.status[t] = Status::Blocked(addr, Kind::Cond);
    drop(s.switch(st, t, false));
}

pub fn cond_notify<T: ?Sized>(on: &T, all: bool) {
    let Some((s, _)) = me() else { return };
    let addr = addr_of(on);
    let mut st = s.lock();
    let mut waiting: Vec<usize> = (0..st.n).filter(|i| st.status[*i] == Status::Blocked(addr, Kind::Cond)).collect();
    if !all {
        waiting.truncate(1);
    }
    for i in waiting {
        st.status[i] = Status::Ready;
    }
}

pub struct Report {
    pub outcome: Outcome,
    pub steps: u64,
    /// Switches away from a thread that could have gone on.
    pub preemptions: u64,
    /// The threads in the order in which they were switched to.
    pub trace: Vec<u8>,
    /// For every thread, what it panicked with, unless the session was given up.
    pub panics: Vec<Option<String>>,
}

pub struct Options {
    pub choose: Choose,
    pub writers_first: bool,
    pub limit: u64,
}

/// Runs the bodies as the threads of a session.
pub fn run(options: Options, bodies: Vec<Box<dyn FnOnce() + Send>>, last_panic: fn() -> String) -> Report {
    let n = bodies.len();
    let session = Arc::new(Session {
        state: Mutex::new(State {
            n,
            current: usize::MAX,
            status: vec![Status::Ready; n],
            locks: HashMap::new(),
            onces: HashMap::new(),
            choose: Some(options.choose),
            steps: 0,
            limit: options.limit,
            run_length: 0,
            outcome: None,
            writers_first: options.writers_first,
            trace: Vec::new(),
            preemptions: 0,
        }),
        wake: (0..n).map(|_| Condvar::new()).collect(),
        finished: Condvar::new(),
    });
    let panics: Arc<Mutex<Vec<Option<String>>>> = Arc::new(Mutex::new(vec![None; n]));
    let mut threads = Vec::new();
    for (t, body) in bodies.into_iter().enumerate() {
        let session = session.clone();
        let panics = panics.clone();
        threads.push(std::thread::spawn(move || {
            ME.with(|m| *m.borrow_mut() = Some((session.clone(), t)));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let st = session.lock();
                drop(session.wait_turn(st, t));
                body();
            }));
            if let Err(p) = r {
                if !is_abort(&*p) {
                    panics.lock().unwrap()[t] = Some(last_panic());
                }
            }
            ME.with(|m| *m.borrow_mut() = None);
            session.thread_done(t);
        }));
    }
    // Start.
    let mut st = session.lock();
    let ready: Vec<usize> = (0..n).collect();
    session.hand_over(&mut st, 0, &ready);
    // Wait for the end; look whether anything moves.
    let mut last = u64::MAX;
    let mut still = 0;
    let mut stalled = false;
    while !st.status.iter().all(|s| *s == Status::Done) {
        let (g, timed_out) = session.finished.wait_timeout(st, Duration::from_secs(5)).unwrap_or_else(|e| e.into_inner());
        st = g;
        if timed_out.timed_out() {
            if st.steps == last {
                still += 1;
                if still >= 8 {
                    session.give_up(&mut st, Outcome::Stalled);
                    stalled = true;
                    break;
                }
            } else {
                still = 0;
                last = st.steps;
            }
        }
    }
    drop(st);
    if !stalled {
        for t in threads {
            let _ = t.join();
        }
    }
    let mut st = session.lock();
    // The strategy holds what the caller lent it.
    st.choose = None;
    let panics = std::mem::take(&mut *panics.lock().unwrap());
    Report {
        outcome: if stalled { Outcome::Stalled } else { st.outcome.clone().unwrap_or(Outcome::Completed) },
        steps: st.steps,
        preemptions: st.preemptions,
        trace: std::mem::take(&mut st.trace),
        panics,
    }
}
