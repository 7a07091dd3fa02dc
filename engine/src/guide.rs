//! Coverage-guided search: mutates the tapes of random cases, and keeps those that make the code
//! under test do something new (code reached, how often, and how close its comparisons came). It
//! runs in the instrumented build and only proposes cases: what fails here is tried again, in a
//! process of its own, in the ordinary build.

use crate::runner::{esc, eval, tape_str};
use crate::src::mix;
use crate::*;
use std::collections::HashSet;
use std::io::Write;
use std::time::{Duration, Instant};

struct Seed {
    tape: Vec<u64>,
    bounds: Vec<u64>,
    took: Duration,
}

struct Field<'a> {
    phase: &'a Phase,
    corpus: Vec<Seed>,
    seen: Vec<u8>,
    found: usize,
    execs: u64,
    nontrivial: u64,
    discards: u64,
    distinct: HashSet<u64>,
    sample: String,
    started: Duration,
    started_cases: u64,
}

const LONGEST: usize = 20_000;
const STARTS: u64 = 200;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        mix(self.0)
    }
    fn below(&mut self, n: usize) -> usize {
        ((self.next() as u128 * n as u128) >> 64) as usize
    }
}

fn mutate(rng: &mut Rng, corpus: &[Seed]) -> Vec<u64> {
    // The newest ones more often, and the quicker one of two.
    let n = corpus.len();
    let any = |rng: &mut Rng| if rng.below(2) == 0 { n - 1 - rng.below(n.min(20)) } else { rng.below(n) };
    let pick = |rng: &mut Rng| {
        let (i, j, k) = (any(rng), any(rng), any(rng));
        [i, j, k].into_iter().min_by_key(|i| corpus[*i].took).unwrap()
    };
    let s = &corpus[pick(rng)];
    let mut t = s.tape.clone();
    let mut b = s.bounds.clone();
    let most = 1 << rng.below(4);
    let rounds = 1 + rng.below(most);
    for _ in 0..rounds {
        if t.is_empty() {
            break;
        }
        let i = rng.below(t.len());
        let bound = b[i].max(1);
        let block = |rng: &mut Rng, len: usize| {
            let most = if rng.below(4) == 0 { (len / 2).max(1) } else { len.min(12) };
            let k = 1 + rng.below(most);
            let at = rng.below(len - k + 1);
            at..at + k
        };
        match rng.below(14) {
            0 | 1 | 2 => t[i] = rng.next() % bound,
            3 => t[i] = t[i].wrapping_add(1 + rng.next() % 8).min(bound - 1),
            4 => t[i] = t[i].saturating_sub(1 + rng.next() % 8),
            5 => t[i] = if rng.below(2) == 0 { 0 } else { bound - 1 },
            6 => {
                let ints = &crate::dict::dict().ints;
                if !ints.is_empty() {
                    t[i] = ints[rng.below(ints.len())].saturating_sub(rng.next() % 3) % bound;
                }
            }
            7 => t[i] = if rng.below(2) == 0 { t[i] / 2 } else { t[i].saturating_mul(2).min(bound - 1) },
            8 => {
                let r = block(rng, t.len());
                t.drain(r.clone());
                b.drain(r);
            }
            9 => {
                // Once more, or a few times.
                let r = block(rng, t.len());
                let (x, y) = (t[r.clone()].to_vec(), b[r.clone()].to_vec());
                for _ in 0..1 + rng.below(3) {
                    t.splice(r.end..r.end, x.iter().copied());
                    b.splice(r.end..r.end, y.iter().copied());
                }
            }
            10 => {
                let k = 1 + rng.below(4);
                for _ in 0..k {
                    t.insert(i, rng.next() >> rng.below(60));
                    b.insert(i, u64::MAX);
                }
            }
            11 => {
                // A piece of another case, put in or written over.
                let o = &corpus[pick(rng)];
                if !o.tape.is_empty() {
                    let r = block(rng, o.tape.len());
                    let end = if rng.below(2) == 0 { i } else { (i + r.len()).min(t.len()) };
                    t.splice(i..end, o.tape[r.clone()].iter().copied());
                    b.splice(i..end, o.bounds[r].iter().copied());
                }
            }
            12 => {
                // Anything from here on.
                t.truncate(i);
                b.truncate(i);
            }
            _ => {
                let j = rng.below(t.len());
                t.swap(i, j);
                b.swap(i, j);
            }
        }
        if t.len() > LONGEST {
            t.truncate(LONGEST);
            b.truncate(LONGEST);
        }
    }
    t
}

/// Runs one case; true if it failed.
fn run(f: &mut Field, tape: Vec<u64>, seed: u64, keep_all: bool) -> bool {
    let mut src = Src::guided(tape, seed);
    crate::cov::clear();
    let began = Instant::now();
    let (r, ctx) = eval(f.phase.f, &mut src);
    let took = began.elapsed();
    f.execs += 1;
    if keep_all {
        f.started += took;
        f.started_cases += 1;
    }
    match r {
        Err(Fail::Violation(_)) => {
            println!("cand\t{}\t{}", f.phase.name, tape_str(&src.tape));
            let _ = std::io::stdout().flush();
            return true;
        }
        Err(Fail::Discard) => {
            f.discards += 1;
            return false;
        }
        _ => {}
    }
    if ctx.nontrivial {
        f.nontrivial += 1;
        f.distinct.insert(hash64(ctx.case.as_bytes()));
    }
    let seen = &mut f.seen;
    let mut new = 0;
    crate::cov::features(|i| {
        if seen[i] == 0 {
            seen[i] = 1;
            new += 1;
        }
    });
    f.found += new;
    let usual = f.started / f.started_cases.max(1) as u32;
    let slow = took > usual * 5;
    if new > 0 && src.tape.len() <= LONGEST && (!slow || keep_all) {
        if ctx.nontrivial {
            f.sample = clip(&ctx.case, 400);
        }
        let bounds = src.bounds().to_vec();
        f.corpus.push(Seed { tape: src.tape, bounds, took });
    }
    false
}

/// Searches the phases of a property for `seconds`.
pub fn guide(p: &Prop, seed: u64, shard: u64, seconds: u64) {
    if !crate::cov::present() {
        println!("none");
        return;
    }
    let mut rng = Rng(mix(seed ^ hash64(p.id.as_bytes())) ^ mix(shard + 1));
    let begin = Instant::now();
    let end = begin + Duration::from_secs(seconds);
    let mut failed = 0;
    let mut fields: Vec<Field> = Vec::new();
    for phase in p.phases.iter().filter(|x| x.kind == Kind::Random) {
        let mut f = Field {
            phase,
            corpus: Vec::new(),
            seen: vec![0; crate::cov::size()],
            found: 0,
            execs: 0,
            nontrivial: 0,
            discards: 0,
            distinct: HashSet::new(),
            sample: String::new(),
            started: Duration::ZERO,
            started_cases: 0,
        };
        let t = Instant::now();
        while f.execs < STARTS && t.elapsed().as_millis() < 300 {
            let s = rng.next();
            failed += run(&mut f, Vec::new(), s, true) as u32;
        }
        // Cases of many milliseconds leave nothing to search with.
        if f.execs >= STARTS / 4 && !f.corpus.is_empty() {
            fields.push(f);
        }
    }
    'all: while !fields.is_empty() && Instant::now() < end {
        for f in &mut fields {
            let t = Instant::now();
            while t.elapsed().as_millis() < 100 {
                if failed >= 3 || Instant::now() >= end {
                    break 'all;
                }
                let tape = if rng.below(20) == 0 { Vec::new() } else { mutate(&mut rng, &f.corpus) };
                let s = rng.next();
                failed += run(f, tape, s, false) as u32;
            }
        }
    }
    for f in &fields {
        println!("stat\t{}\t{}\t{}\t{}\t{}\t{}\t{}", f.phase.name, f.execs, f.nontrivial, f.discards, f.distinct.len(), f.corpus.len(), f.found);
        if !f.sample.is_empty() {
            println!("sample\t{}\t{}", f.phase.name, esc(&f.sample));
        }
    }
    println!("done");
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}
