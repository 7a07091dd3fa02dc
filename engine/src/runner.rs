//! Runs properties: work is split over a fixed number of worker processes, results are merged,
//! failures are shrunk, confirmed in a fresh process and written to a replay file.

use crate::src::{mix, Src, Walker};
use crate::*;
use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::fs;
use std::io::{BufRead, BufReader, Read, Write};
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::mpsc;
use std::time::{Duration, Instant};

const SHARDS: u64 = 8;
const MAX_SAMPLES: usize = 4;
const SHRINK_EVALS: usize = 1500;
const SHRINK_EVALS_FRESH: usize = 250;

/// Failures are shrunk in fresh processes: a failed case leaves its process in a bad state.
pub static ISOLATE: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
/// Cases are not reproducible by their tape alone, so shrinking them is pointless.
pub static NO_SHRINK: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

fn flag(f: &std::sync::atomic::AtomicBool) -> bool {
    f.load(std::sync::atomic::Ordering::SeqCst)
}

pub type Props = fn() -> Vec<Prop>;

fn env_or(name: &str, default: &str) -> String {
    std::env::var(name).ok().filter(|s| !s.is_empty()).unwrap_or_else(|| default.to_string())
}

fn seed_env() -> u64 {
    let s = env_or("VERIF_SEED", "1");
    s.trim().parse::<u64>().unwrap_or_else(|_| hash64(s.as_bytes()))
}

fn verif_dir() -> PathBuf {
    PathBuf::from(env_or("VERIF_DIR", "/verif"))
}

fn case_seed(seed: u64, prop: &str, phase: &str, index: u64) -> u64 {
    mix(mix(seed ^ hash64(prop.as_bytes())) ^ mix(hash64(phase.as_bytes()) ^ mix(index)))
}

fn phase_budget(p: &Phase, tier: &str) -> u64 {
    let n = if tier == "thorough" { p.thorough } else { p.quick };
    // For trying things out by hand only.
    match std::env::var("VERIF_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
        Some(f) if n > 0 => ((n as f64 * f) as u64).max(1),
        _ => n,
    }
}

/// Escapes a text to one line without tabs.
pub(crate) fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    for c in s.chars() {
        match c {
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c => o.push(c),
        }
    }
    o
}

fn unesc(s: &str) -> String {
    let mut o = String::with_capacity(s.len());
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('r') => o.push('\r'),
                Some('t') => o.push('\t'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

pub fn json_str(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 || (0x7f..=0x9f).contains(&(c as u32)) => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

pub(crate) fn tape_str(t: &[u64]) -> String {
    t.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(",")
}

fn parse_tape(s: &str) -> Vec<u64> {
    s.split(',').filter(|p| !p.trim().is_empty()).filter_map(|p| p.trim().parse().ok()).collect()
}

/// Evaluates one case; a panic that is not caught by [`sut`] is an error of the harness.
pub(crate) fn eval(f: CaseFn, src: &mut Src) -> (R, Ctx) {
    let mut ctx = Ctx::default();
    let r = match catch_unwind(AssertUnwindSafe(|| f(src, &mut ctx))) {
        Ok(r) => r,
        Err(_) => Err(Fail::Harness(format!("the harness panicked: {}", last_panic()))),
    };
    (r, ctx)
}

struct OneResult {
    verdict: String, // pass, violation, discard, known, harness, crash
    msg: String,
    case: String,
    tape: Vec<u64>,
    labels: Vec<String>,
    nontrivial: bool,
    inner: u64,
}

/// Evaluates a case in a process of its own.
fn eval_fresh(prop: &str, phase: &str, seed: u64, input: &Input) -> OneResult {
    let exe = std::env::current_exe().expect("current_exe");
    let mut cmd = Command::new(exe);
    cmd.arg("one").arg(prop).arg(phase);
    match input {
        Input::Index(i) => {
            cmd.arg("--index").arg(seed.to_string()).arg(i.to_string());
        }
        Input::Tape(_) => {
            cmd.arg("--tape-stdin");
        }
    }
    let mut res = OneResult {
        verdict: String::from("harness"),
        msg: String::new(),
        case: String::new(),
        tape: Vec::new(),
        labels: Vec::new(),
        nontrivial: false,
        inner: 0,
    };
    let child = cmd.stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn();
    let mut child = match child {
        Ok(c) => c,
        Err(e) => {
            res.msg = format!("cannot start a process: {e}");
            return res;
        }
    };
    if let Input::Tape(t) = input {
        let _ = child.stdin.take().unwrap().write_all(tape_str(t).as_bytes());
    } else {
        drop(child.stdin.take());
    }
    let pid = child.id();
    let over = std::sync::Arc::new(AtomicBool::new(false));
    let stuck = std::sync::Arc::new(AtomicBool::new(false));
    let watch = {
        let (over, stuck) = (over.clone(), stuck.clone());
        std::thread::spawn(move || {
            let mut rest = Rest::default();
            loop {
                std::thread::park_timeout(Duration::from_secs(1));
                if over.load(Ordering::SeqCst) {
                    return;
                }
                if rest.look(pid) > ASLEEP_S {
                    stuck.store(true, Ordering::SeqCst);
                    let _ = Command::new("kill").args(["-9", &pid.to_string()]).stderr(Stdio::null()).status();
                    return;
                }
            }
        })
    };
    let out = child.wait_with_output();
    over.store(true, Ordering::SeqCst);
    watch.thread().unpark();
    let _ = watch.join();
    let out = match out {
        Ok(o) => o,
        Err(e) => {
            res.msg = format!("cannot wait for a process: {e}");
            return res;
        }
    };
    if stuck.load(Ordering::SeqCst) && out.status.signal() == Some(9) {
        res.verdict = "crash".to_string();
        res.msg = format!("the case does not end: for {ASLEEP_S} s it has been waiting for something that nothing will do");
        return res;
    }
    let text = String::from_utf8_lossy(&out.stdout);
    for line in text.lines() {
        let (k, v) = line.split_once('\t').unwrap_or((line, ""));
        match k {
            "verdict" => res.verdict = v.to_string(),
            "msg" => res.msg = unesc(v),
            "case" => res.case = unesc(v),
            "tape" => res.tape = parse_tape(v),
            "label" => res.labels.push(v.to_string()),
            "nontrivial" => res.nontrivial = v == "1",
            "inner" => res.inner = v.parse().unwrap_or(0),
            _ => {}
        }
    }
    if let Some(sig) = out.status.signal() {
        let stderr = String::from_utf8_lossy(&out.stderr).to_string();
        res.verdict = crash_verdict(sig, &stderr).to_string();
        res.msg = match sig {
            24 => format!("the case had not finished after {} s of processor time", case_cpu_s(prop, phase)),
            _ => format!("the process was ended by signal {sig}: {}", clip(stderr.trim(), 300)),
        };
    }
    res
}

/// A memory fault or stack overflow in the code under test is a violation; being killed (out of
/// memory in the sandbox) decides nothing. Cases are small: running into the limits of
/// [`limit_self`] means that the code under test does not end.
fn crash_verdict(sig: i32, stderr: &str) -> &'static str {
    match sig {
        11 | 7 | 4 => "crash",
        // Processor time limit.
        24 => "crash",
        6 if stderr.contains("memory allocation of") => "crash",
        6 if stderr.contains("overflowed its stack") || stderr.contains("panic in a function that cannot unwind") || stderr.contains("panicked while processing panic") => "crash",
        _ => "harness",
    }
}

enum Input {
    Index(u64),
    Tape(Vec<u64>),
}

fn make_src(phase: &Phase, prop: &str, seed: u64, index: u64) -> Src {
    match phase.kind {
        Kind::Enumerate => Src::enumerate(index),
        _ => Src::random(case_seed(seed, prop, phase.name, index)),
    }
}

fn find<'a>(props: &'a [Prop], id: &str) -> &'a Prop {
    props.iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(3)
    })
}

fn find_phase<'a>(p: &'a Prop, name: &str) -> &'a Phase {
    p.phases.iter().find(|x| x.name == name).unwrap_or_else(|| {
        eprintln!("no such phase: {name}");
        std::process::exit(3)
    })
}

pub fn main(props: Props) {
    install_panic_hook();
    // Cases run with the stack that Rust gives to every thread but the first.
    let ended = std::thread::Builder::new().stack_size(2 << 20).spawn(move || dispatch(props)).expect("a thread").join();
    if ended.is_err() {
        std::process::exit(101);
    }
}

fn dispatch(props: Props) {
    crate::dict::load(std::path::Path::new("/repo/src"));
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("run") => std::process::exit(run(props, &args[2])),
        Some("worker") => worker(props, &args[2..]),
        Some("guide") => {
            limit_self(None);
            let props = props();
            crate::guide::guide(find(&props, &args[2]), args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap());
        }
        Some("one") => one(props, &args[2..]),
        Some("replay") => std::process::exit(replay(props, &args[2])),
        Some("list") => {
            for p in props() {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: run ID | replay FILE | list");
            std::process::exit(3);
        }
    }
}

fn one(props: Props, args: &[String]) {
    limit_self(Some(case_cpu_s(&args[0], &args[1])));
    let props = props();
    let p = find(&props, &args[0]);
    let phase = find_phase(p, &args[1]);
    let mut src = match args[2].as_str() {
        "--index" => make_src(phase, p.id, args[3].parse().unwrap(), args[4].parse().unwrap()),
        _ => {
            let mut s = String::new();
            std::io::stdin().read_to_string(&mut s).unwrap();
            Src::replay(parse_tape(&s))
        }
    };
    let (r, ctx) = eval(phase.f, &mut src);
    let (verdict, msg) = match r {
        Ok(()) => ("pass", String::new()),
        Err(Fail::Violation(m)) => ("violation", m),
        Err(Fail::Discard) => ("discard", String::new()),
        Err(Fail::Known(m)) => ("known", m),
        Err(Fail::Harness(m)) => ("harness", m),
    };
    let mut o = String::new();
    let _ = writeln!(o, "verdict\t{verdict}");
    let _ = writeln!(o, "msg\t{}", esc(&msg));
    let _ = writeln!(o, "case\t{}", esc(&ctx.case));
    let _ = writeln!(o, "tape\t{}", tape_str(&src.tape));
    let _ = writeln!(o, "nontrivial\t{}", ctx.nontrivial as u8);
    let _ = writeln!(o, "inner\t{}", ctx.inner);
    for l in &ctx.labels {
        let _ = writeln!(o, "label\t{l}");
    }
    print!("{o}");
    let _ = std::io::stdout().flush();
    // Threads of a failed case may still be blocked.
    std::process::exit(0);
}

struct PhaseStats {
    evals: u64,
    nontrivial: u64,
    discards: u64,
    inner: u64,
    known: BTreeMap<String, u64>,
    labels: BTreeMap<String, u64>,
    /// The longest a case took, in microseconds.
    slowest: u64,
}

/// Notes the case a worker is on: phase, index, what it does (0: runs it, 1: shrinks it), tape.
fn note(status: &fs::File, phase: u64, index: u64, doing: u64, tape: &[u64]) {
    let mut rec = Vec::with_capacity(32 + 8 * tape.len());
    for v in [phase, index, doing, tape.len() as u64].iter().chain(tape) {
        rec.extend_from_slice(&v.to_le_bytes());
    }
    let _ = status.write_at(&rec, 0);
}

struct Note {
    phase: usize,
    index: u64,
    doing: u64,
    tape: Vec<u64>,
}

fn read_note(path: &Path) -> Option<Note> {
    let b = fs::read(path).ok()?;
    let v: Vec<u64> = b.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
    if v.len() < 4 {
        return None;
    }
    let n = (v[3] as usize).min(v.len() - 4);
    Some(Note { phase: v[0] as usize, index: v[1], doing: v[2], tape: v[4..4 + n].to_vec() })
}

/// Limits the address space, and the processor time if asked to, of this process. A case that
/// normally takes milliseconds and a few megabytes does not come near them.
fn limit_self(cpu_s: Option<u64>) {
    #[repr(C)]
    struct Rlimit {
        cur: u64,
        max: u64,
    }
    extern "C" {
        fn setrlimit(resource: i32, rlim: *const Rlimit) -> i32;
    }
    const CPU: i32 = 0;
    const AS: i32 = 9;
    unsafe {
        let mem = Rlimit { cur: 3_500_000_000, max: 3_500_000_000 };
        setrlimit(AS, &mem);
        if let Some(s) = cpu_s {
            let l = Rlimit { cur: s, max: s + 5 };
            setrlimit(CPU, &l);
        }
    }
}

/// The processor time a case may take: most take milliseconds.
fn case_cpu_s(prop: &str, phase: &str) -> u64 {
    match (prop, phase) {
        // These take up to 25 s.
        ("P10", "crumbs") | ("P12", "huge-rules") | ("P22", "many-rules") => 240,
        // These take up to 10 s.
        ("P12", "many-rules") | ("P10", _) | ("P08", "huge") => 120,
        _ => 60,
    }
}

/// A case that sleeps for so long, without anyone there to wake it, is in a deadlock.
const ASLEEP_S: u64 = 30;

/// For how long a process has been seen asleep, all of it, using no processor time.
#[derive(Default)]
struct Rest(Option<(Instant, f64)>);

impl Rest {
    fn look(&mut self, pid: u32) -> u64 {
        let asleep = || -> Option<f64> {
            for t in fs::read_dir(format!("/proc/{pid}/task")).ok()? {
                let t = fs::read_to_string(t.ok()?.path().join("stat")).ok()?;
                if !t[t.rfind(')')?..].starts_with(") S") {
                    return None;
                }
            }
            // A process that waits for another one is not stuck.
            for p in fs::read_dir("/proc").ok()?.flatten() {
                if !p.file_name().as_encoded_bytes()[0].is_ascii_digit() {
                    continue;
                }
                let Ok(t) = fs::read_to_string(p.path().join("stat")) else { continue };
                let parent = t.rfind(')').and_then(|i| t[i..].split(' ').nth(2)).and_then(|x| x.parse::<u32>().ok());
                if parent == Some(pid) {
                    return None;
                }
            }
            cpu_seconds(pid)
        };
        match (asleep(), self.0) {
            (None, _) => self.0 = None,
            (Some(cpu), Some((_, used))) if cpu - used < 0.05 => {}
            (Some(cpu), _) => self.0 = Some((Instant::now(), cpu)),
        }
        self.0.map_or(0, |x| x.0.elapsed().as_secs())
    }
}

/// Processor time used by a process started here, in seconds.
fn cpu_seconds(pid: u32) -> Option<f64> {
    let t = fs::read_to_string(format!("/proc/{pid}/stat")).ok()?;
    let rest = &t[t.rfind(')')? + 2..];
    let f: Vec<&str> = rest.split(' ').collect();
    Some((f.get(11)?.parse::<f64>().ok()? + f.get(12)?.parse::<f64>().ok()?) / 100.0)
}

fn worker(props: Props, args: &[String]) {
    // ID tier seed shard hashfile statusfile [phase until]
    limit_self(None);
    let props = props();
    let p = find(&props, &args[0]);
    let tier = args[1].as_str();
    let seed: u64 = args[2].parse().unwrap();
    let shard: u64 = args[3].parse().unwrap();
    let mut hashes: HashSet<u64> = HashSet::new();
    let status = fs::File::create(&args[5]).expect("status file");
    let until: Option<(String, u64)> = args.get(6).map(|ph| (ph.clone(), args[7].parse().unwrap()));
    let mut failed = false;
    'phases: for (pi, phase) in p.phases.iter().enumerate() {
        let n = phase_budget(phase, tier);
        let mut st = PhaseStats { evals: 0, nontrivial: 0, discards: 0, inner: 0, known: BTreeMap::new(), labels: BTreeMap::new(), slowest: 0 };
        let mut samples: Vec<String> = Vec::new();
        let mut exhausted = matches!(phase.kind, Kind::Enumerate | Kind::Walk);
        let mut walker = (phase.kind == Kind::Walk).then(|| Walker::new(shard, SHARDS));
        let mut i = shard;
        while i < n {
            let walk_tape = match &walker {
                None => None,
                Some(w) => match w.tape() {
                    None => break,
                    Some(t) => Some(t.clone()),
                },
            };
            note(&status, pi as u64, i, 0, walk_tape.as_deref().unwrap_or(&[]));
            let began = Instant::now();
            let (r, ctx, tape) = if phase.kind == Kind::Fresh && until.is_none() {
                let o = eval_fresh(p.id, phase.name, seed, &Input::Index(i));
                let r = match o.verdict.as_str() {
                    "pass" => Ok(()),
                    "violation" | "crash" => Err(Fail::Violation(o.msg)),
                    "discard" => Err(Fail::Discard),
                    "known" => Err(Fail::Known(o.msg)),
                    _ => Err(Fail::Harness(o.msg)),
                };
                for l in &o.labels {
                    *st.labels.entry(l.clone()).or_default() += 1;
                }
                (r, Ctx { nontrivial: o.nontrivial, labels: Vec::new(), case: o.case, inner: o.inner }, o.tape)
            } else {
                let mut src = match walk_tape {
                    Some(t) => Src::walk(t),
                    None => make_src(phase, p.id, seed, i),
                };
                let (r, ctx) = eval(phase.f, &mut src);
                if src.leftover() {
                    // The space is smaller than the budget.
                    break;
                }
                if let Some(w) = &mut walker {
                    if !w.ran(&src.tape, src.bounds()) && !matches!(r, Err(Fail::Violation(_))) {
                        continue;
                    }
                }
                (r, ctx, src.tape)
            };
            st.slowest = st.slowest.max(began.elapsed().as_micros() as u64);
            i += SHARDS;
            for l in &ctx.labels {
                *st.labels.entry(l.to_string()).or_default() += 1;
            }
            st.inner += ctx.inner;
            match r {
                Ok(()) => {}
                Err(Fail::Discard) => {
                    st.discards += 1;
                    continue;
                }
                Err(Fail::Known(id)) => *st.known.entry(id).or_default() += 1,
                Err(Fail::Harness(m)) => {
                    println!("err\t{}\t{}\t{}", phase.name, i - SHARDS, esc(&m));
                    failed = true;
                }
                Err(Fail::Violation(m)) => {
                    let index = i - SHARDS;
                    note(&status, pi as u64, index, 1, &[]);
                    println!("found\t{}\t{}\t{}\t{}\t{}\t{}", phase.name, index, tape_str(&tape), tape_str(&tape), esc(&m), esc(&ctx.case));
                    let _ = std::io::stdout().flush();
                    let (tape2, m2, case2) = if flag(&NO_SHRINK) {
                        (tape.clone(), m.clone(), ctx.case.clone())
                    } else if phase.kind == Kind::Fresh || flag(&ISOLATE) {
                        shrink_fresh(p.id, phase, seed, &tape, &m, &ctx.case)
                    } else {
                        shrink(phase, &tape, &m, &ctx.case)
                    };
                    println!("viol\t{}\t{}\t{}\t{}\t{}\t{}", phase.name, index, tape_str(&tape), tape_str(&tape2), esc(&m2), esc(&case2));
                    failed = true;
                }
            }
            st.evals += 1;
            if ctx.nontrivial {
                st.nontrivial += 1;
                if hashes.insert(hash64(ctx.case.as_bytes())) && samples.len() < 2 && (samples.is_empty() || i > n / 2) {
                    samples.push(clip(&ctx.case, 400));
                }
            }
            if failed {
                exhausted = false;
                break;
            }
            if let Some((ph, idx)) = &until {
                if ph == phase.name && i > *idx {
                    break 'phases;
                }
            }
        }
        if phase.kind == Kind::Enumerate && i < n + SHARDS && !failed {
            // Either the space ended (leftover) or the budget did; find out which.
            let mut src = make_src(phase, p.id, seed, n);
            let (_, _) = eval(phase.f, &mut src);
            exhausted = src.leftover();
        }
        if let Some(w) = &walker {
            exhausted = w.tape().is_none() && !failed;
        }
        println!("stat\t{}\t{}\t{}\t{}\t{}\t{}\t{}", phase.name, st.evals, st.nontrivial, st.discards, st.inner, exhausted as u8, st.slowest);
        for (l, c) in &st.labels {
            println!("label\t{}\t{}\t{}", phase.name, l, c);
        }
        for (l, c) in &st.known {
            println!("known\t{}\t{}\t{}", phase.name, esc(l), c);
        }
        for s in &samples {
            println!("sample\t{}\t{}", phase.name, esc(s));
        }
        if failed {
            break;
        }
    }
    let mut bytes = Vec::with_capacity(hashes.len() * 8);
    for h in &hashes {
        bytes.extend_from_slice(&h.to_le_bytes());
    }
    fs::write(&args[4], bytes).expect("hash file");
    println!("done");
    let _ = std::io::stdout().flush();
    std::process::exit(0);
}

/// Shrinks the tape with `test`, which returns the recorded tape if the candidate still fails.
fn shrink_with(start: Vec<u64>, budget: usize, mut test: impl FnMut(&[u64]) -> Option<Vec<u64>>) -> Vec<u64> {
    let mut best = start;
    let mut evals = 0usize;
    let mut try_it = |cand: Vec<u64>, best: &mut Vec<u64>, evals: &mut usize| -> bool {
        if *evals >= budget || cand == *best {
            return false;
        }
        *evals += 1;
        if let Some(t) = test(&cand) {
            let better = (t.len(), &t) < (best.len(), best);
            if better {
                *best = t;
                return true;
            }
        }
        false
    };
    loop {
        let before = best.clone();
        // Cut the tail.
        let mut keep = best.len() / 2;
        while keep < best.len() {
            if !try_it(best[..keep].to_vec(), &mut best, &mut evals) {
                keep = keep + (best.len() - keep).div_ceil(2);
                if keep >= best.len() {
                    break;
                }
            } else {
                keep = best.len() / 2;
            }
        }
        // Delete blocks.
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = best.len();
            while i >= size {
                let mut c = best.clone();
                c.drain(i - size..i);
                if try_it(c, &mut best, &mut evals) {
                    i = i.min(best.len());
                } else {
                    // A shorter count somewhere before, together with the deletion.
                    i -= size.min(i).max(1);
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
        // Reduce a count and delete what follows it.
        let mut i = 0;
        while i < best.len() {
            if best[i] > 0 {
                for k in [1usize, 2, 3, 4] {
                    if i + 1 + k <= best.len() {
                        let mut c = best.clone();
                        c[i] -= 1;
                        c.drain(i + 1..i + 1 + k);
                        if try_it(c, &mut best, &mut evals) {
                            break;
                        }
                    }
                    if i >= best.len() || best[i] == 0 {
                        break;
                    }
                }
            }
            i += 1;
        }
        // Reduce single choices.
        let mut i = 0;
        while i < best.len() {
            let v = best[i];
            if v > 0 {
                let mut c = best.clone();
                c[i] = 0;
                if !try_it(c, &mut best, &mut evals) {
                    let (mut lo, mut hi) = (0u64, v);
                    while lo + 1 < hi && i < best.len() {
                        let mid = lo + (hi - lo) / 2;
                        let mut c = best.clone();
                        c[i] = mid;
                        if try_it(c, &mut best, &mut evals) {
                            hi = mid;
                        } else {
                            lo = mid;
                        }
                    }
                }
            }
            i += 1;
        }
        if best == before || evals >= budget {
            return best;
        }
    }
}

fn shrink(phase: &Phase, tape: &[u64], msg: &str, case: &str) -> (Vec<u64>, String, String) {
    let best = shrink_with(tape.to_vec(), SHRINK_EVALS, |cand| {
        let mut src = Src::replay(cand.to_vec());
        match eval(phase.f, &mut src).0 {
            Err(Fail::Violation(_)) => Some(src.tape),
            _ => None,
        }
    });
    let mut src = Src::replay(best);
    let (r, ctx) = eval(phase.f, &mut src);
    match r {
        Err(Fail::Violation(m)) => (src.tape, m, ctx.case),
        // State kept by the code under test between cases; keep the original.
        _ => (tape.to_vec(), msg.to_string(), case.to_string()),
    }
}

fn shrink_fresh(prop: &str, phase: &Phase, seed: u64, tape: &[u64], msg: &str, case: &str) -> (Vec<u64>, String, String) {
    let best = shrink_with(tape.to_vec(), SHRINK_EVALS_FRESH, |cand| {
        let o = eval_fresh(prop, phase.name, seed, &Input::Tape(cand.to_vec()));
        match o.verdict.as_str() {
            "violation" => Some(o.tape),
            "crash" => Some(cand.to_vec()),
            _ => None,
        }
    });
    let o = eval_fresh(prop, phase.name, seed, &Input::Tape(best.clone()));
    if o.verdict == "violation" || o.verdict == "crash" {
        let case = if o.case.is_empty() { case.to_string() } else { o.case };
        (best, o.msg, case)
    } else {
        (tape.to_vec(), msg.to_string(), case.to_string())
    }
}

#[derive(Default)]
struct Merged {
    evals: u64,
    nontrivial: u64,
    discards: u64,
    inner: u64,
    exhausted: bool,
    slowest: u64,
    labels: BTreeMap<String, u64>,
}

struct Viol {
    phase: String,
    index: u64,
    shard: u64,
    tape: Vec<u64>,
    small: Vec<u64>,
    msg: String,
    case: String,
}

fn known_listed(prop: &str) -> BTreeMap<String, String> {
    // Lines: known: property=<id> sig=<signature> <what fails>
    let mut m = BTreeMap::new();
    if let Ok(t) = fs::read_to_string(verif_dir().join("known_findings.txt")) {
        for l in t.lines() {
            if let Some(rest) = l.trim().strip_prefix("known:") {
                let mut it = rest.trim().splitn(3, ' ');
                let (a, b, c) = (it.next().unwrap_or(""), it.next().unwrap_or(""), it.next().unwrap_or(""));
                if a == format!("property={prop}") {
                    if let Some(sig) = b.strip_prefix("sig=") {
                        m.insert(sig.to_string(), c.to_string());
                    }
                }
            }
        }
    }
    m
}

struct TempDir(PathBuf);
impl Drop for TempDir {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

fn run(props: Props, id: &str) -> i32 {
    let start = Instant::now();
    let seed = seed_env();
    let tier = match env_or("VERIF_TIER", "quick").as_str() {
        "thorough" => "thorough",
        _ => "quick",
    };
    let list = props();
    let p = find(&list, id);
    let tmp = TempDir(std::env::temp_dir().join(format!("verif-{}-{}", id, std::process::id())));
    fs::create_dir_all(&tmp.0).expect("scratch directory");
    let limit = Duration::from_secs(env_or("VERIF_LIMIT_S", if tier == "quick" { "780" } else { "20000" }).parse().unwrap_or(780));
    let exe = std::env::current_exe().expect("current_exe");

    enum Msg {
        Line(u64, String),
        End(u64, Option<i32>, Option<i32>, String),
    }
    let (tx, rx) = mpsc::channel::<Msg>();
    let mut pids = Vec::new();
    for k in 0..SHARDS {
        let mut child = Command::new(&exe)
            .args(["worker", id, tier, &seed.to_string(), &k.to_string()])
            .arg(tmp.0.join(format!("h{k}")))
            .arg(tmp.0.join(format!("s{k}")))
            .env("VERIF_SCRATCH", tmp.0.join(format!("w{k}")))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("worker");
        pids.push(child.id());
        let tx = tx.clone();
        std::thread::spawn(move || {
            let mut err = child.stderr.take().unwrap();
            let et = std::thread::spawn(move || {
                let mut b = Vec::new();
                let _ = err.read_to_end(&mut b);
                String::from_utf8_lossy(&b).to_string()
            });
            let out = BufReader::new(child.stdout.take().unwrap());
            for line in out.lines().map_while(Result::ok) {
                let _ = tx.send(Msg::Line(k, line));
            }
            let status = child.wait();
            let stderr = et.join().unwrap_or_default();
            let (code, sig) = match status {
                Ok(s) => (s.code(), s.signal()),
                Err(_) => (None, None),
            };
            let _ = tx.send(Msg::End(k, code, sig, stderr));
        });
    }
    drop(tx);

    let mut stats: BTreeMap<String, Merged> = BTreeMap::new();
    let mut known: BTreeMap<String, u64> = BTreeMap::new();
    let mut samples: BTreeMap<String, Vec<String>> = BTreeMap::new();
    let mut viols: Vec<Viol> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut ended = 0;
    let mut done: HashSet<u64> = HashSet::new();
    let mut timeout = false;
    let mut first_viol: Option<Instant> = None;
    let mut early: Vec<Viol> = Vec::new();
    // Per worker: the case it is on, since when, and the processor time it had used then.
    let mut on: Vec<Option<(usize, u64, Instant, f64)>> = vec![None; SHARDS as usize];
    let mut rest: Vec<Rest> = (0..SHARDS).map(|_| Rest::default()).collect();
    while ended < SHARDS {
        // Once a violation is known, the other workers get a little time to finish, and the one
        // that found it some time to shrink it.
        let end = match first_viol {
            Some(t) if viols.is_empty() => t + Duration::from_secs(100),
            Some(t) => t + Duration::from_secs(20),
            None => start + limit,
        }
        .min(start + limit);
        let now = Instant::now();
        if now >= end {
            timeout = true;
            break;
        }
        let m = match rx.recv_timeout((end - now).min(Duration::from_secs(5))) {
            Ok(m) => m,
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
            Err(mpsc::RecvTimeoutError::Timeout) => {
                // Is a worker stuck?
                for k in 0..SHARDS as usize {
                    if done.contains(&(k as u64)) || first_viol.is_some() {
                        continue;
                    }
                    let (Some(nt), Some(cpu)) = (read_note(&tmp.0.join(format!("s{k}"))), cpu_seconds(pids[k])) else { continue };
                    if nt.doing != 0 {
                        continue;
                    }
                    match &on[k] {
                        Some((ph, ix, since, used)) if *ph == nt.phase && *ix == nt.index => {
                            let asleep = if since.elapsed() > Duration::from_secs(5) { rest[k].look(pids[k]) } else { 0 };
                            let phase = &p.phases[nt.phase.min(p.phases.len() - 1)];
                            let most = case_cpu_s(id, phase.name);
                            if since.elapsed() > Duration::from_secs(most) && cpu - used > most as f64 * 0.75 || asleep > ASLEEP_S {
                                let input = if phase.kind == Kind::Walk { Input::Tape(nt.tape.clone()) } else { Input::Index(nt.index) };
                                let o = eval_fresh(id, phase.name, seed, &input);
                                if o.verdict == "crash" || o.verdict == "violation" {
                                    first_viol.get_or_insert_with(Instant::now);
                                    viols.push(Viol {
                                        phase: phase.name.to_string(),
                                        index: nt.index,
                                        shard: k as u64,
                                        small: nt.tape.clone(),
                                        tape: nt.tape,
                                        msg: o.msg,
                                        case: format!("case {} of phase {} with seed {seed}", nt.index, phase.name),
                                    });
                                }
                                on[k] = None;
                            }
                        }
                        _ => {
                            on[k] = Some((nt.phase, nt.index, Instant::now(), cpu));
                            rest[k] = Rest::default();
                        }
                    }
                }
                continue;
            }
        };
        match m {
            Msg::Line(k, line) => {
                let f: Vec<&str> = line.split('\t').collect();
                match f[0] {
                    "stat" => {
                        let s = stats.entry(f[1].to_string()).or_insert_with(|| Merged { exhausted: true, ..Default::default() });
                        s.evals += f[2].parse::<u64>().unwrap_or(0);
                        s.nontrivial += f[3].parse::<u64>().unwrap_or(0);
                        s.discards += f[4].parse::<u64>().unwrap_or(0);
                        s.inner += f[5].parse::<u64>().unwrap_or(0);
                        s.exhausted &= f[6] == "1";
                        s.slowest = s.slowest.max(f[7].parse::<u64>().unwrap_or(0));
                    }
                    "label" => *stats.entry(f[1].to_string()).or_default().labels.entry(f[2].to_string()).or_default() += f[3].parse::<u64>().unwrap_or(0),
                    "known" => *known.entry(unesc(f[2])).or_default() += f[3].parse::<u64>().unwrap_or(0),
                    "sample" => samples.entry(f[1].to_string()).or_default().push(unesc(f[2])),
                    "viol" | "found" => {
                        first_viol.get_or_insert_with(Instant::now);
                        let v = Viol {
                            phase: f[1].to_string(),
                            index: f[2].parse().unwrap_or(0),
                            shard: k,
                            tape: parse_tape(f[3]),
                            small: parse_tape(f[4]),
                            msg: unesc(f[5]),
                            case: unesc(f[6]),
                        };
                        if f[0] == "viol" {
                            viols.push(v);
                        } else {
                            early.push(v);
                        }
                    }
                    "err" => errors.push(format!("phase {} case {}: {}", f[1], f[2], unesc(f[3]))),
                    "done" => {
                        done.insert(k);
                    }
                    _ => {}
                }
            }
            Msg::End(k, code, sig, stderr) => {
                ended += 1;
                if !done.contains(&k) {
                    // The worker died: look at the case it was on.
                    if let (Some(nt), Some(sg)) = (read_note(&tmp.0.join(format!("s{k}"))), sig) {
                        let phase = &p.phases[nt.phase.min(p.phases.len() - 1)];
                        if crash_verdict(sg, &stderr) == "crash" && nt.doing == 0 {
                            let input = if phase.kind == Kind::Walk { Input::Tape(nt.tape.clone()) } else { Input::Index(nt.index) };
                            let o = eval_fresh(id, phase.name, seed, &input);
                            if o.verdict == "crash" || o.verdict == "violation" {
                                viols.push(Viol {
                                    phase: phase.name.to_string(),
                                    index: nt.index,
                                    shard: k,
                                    small: nt.tape.clone(),
                                    tape: nt.tape,
                                    msg: o.msg,
                                    case: format!("case {} of phase {} with seed {seed}", nt.index, phase.name),
                                });
                                continue;
                            }
                        }
                        if nt.doing == 0 {
                            errors.push(format!("worker {k} was ended by signal {sg} in phase {} case {}: {}", phase.name, nt.index, clip(stderr.trim(), 400)));
                        }
                    } else {
                        errors.push(format!("worker {k} ended early (code {code:?}, signal {sig:?}): {}", clip(stderr.trim(), 400)));
                    }
                }
            }
        }
    }

    if timeout {
        for pid in &pids {
            let _ = Command::new("kill").args(["-9", &pid.to_string()]).stderr(Stdio::null()).status();
        }
    }
    if viols.is_empty() {
        viols = early;
    }
    let mut hashes: HashSet<u64> = HashSet::new();
    for k in 0..SHARDS {
        for c in fs::read(tmp.0.join(format!("h{k}"))).unwrap_or_default().chunks_exact(8) {
            hashes.insert(u64::from_le_bytes(c.try_into().unwrap()));
        }
    }

    let mut searched: Vec<(String, Searched)> = Vec::new();
    if viols.is_empty() && errors.is_empty() && !timeout {
        let (found, s) = search(p, tier, seed, &tmp.0);
        viols = found;
        searched = s;
    }

    // Known findings are only those listed; any other is a violation.
    let listed = known_listed(id);
    for (sig, n) in &known {
        match listed.get(sig) {
            Some(what) => println!("KNOWN-FINDING: property={id} {what} ({n} cases)"),
            None => errors.push(format!("the check reported the unlisted known finding {sig}")),
        }
    }

    let order = |ph: &str| p.phases.iter().position(|x| x.name == ph).unwrap_or(usize::MAX);
    viols.sort_by_key(|v| (order(&v.phase), v.index));
    let mut exit = 0;
    if let Some(v) = viols.first() {
        let path = write_replay(id, tier, seed, v);
        println!("{}: {}", id, clip(&v.msg, 2000));
        println!("case: {}", clip(&v.case, 2000));
        println!("VIOLATION property={id} replay={}", path.display());
        exit = 1;
    } else if timeout {
        eprintln!("INCONCLUSIVE property={id}: time limit of {} s reached", limit.as_secs());
        return 2;
    } else if !errors.is_empty() {
        for e in &errors {
            eprintln!("ERROR property={id}: {e}");
        }
        exit = 3;
    }

    let evals: u64 = stats.values().map(|s| s.evals).sum::<u64>() + searched.iter().map(|s| s.1.cases).sum::<u64>();
    let wall = start.elapsed().as_secs_f64();
    write_evidence(p, tier, seed, &stats, &searched, &samples, hashes.len() as u64, &known, viols.len(), wall);
    println!(
        "{id} {tier} seed={seed}: {evals} cases, {} distinct non-trivial, {:.1} s{}",
        hashes.len(),
        wall,
        if exit == 0 { ", held" } else { "" }
    );
    exit
}

/// What the coverage-guided search did in one phase.
#[derive(Default)]
struct Searched {
    cases: u64,
    nontrivial: u64,
    distinct: u64,
    discards: u64,
    kept: u64,
    /// The most features one process saw.
    features: u64,
    samples: Vec<String>,
}

/// Properties whose cases depend on nothing but their tape, run within one process, and state
/// nothing about frequencies.
const GUIDED: [&str; 22] = [
    "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P11", "P12", "P14", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P25", "P27", "P28", "P29", "P30",
];

/// Searches with the instrumented build, if there is one. A case counts only if it also breaks the
/// property here, in a process of its own.
fn search(p: &Prop, tier: &str, seed: u64, tmp: &Path) -> (Vec<Viol>, Vec<(String, Searched)>) {
    let exe = verif_dir().join("target/cov/release/vh");
    if !GUIDED.contains(&p.id) || !exe.exists() {
        return (Vec::new(), Vec::new());
    }
    let seconds: u64 = std::env::var("VERIF_GUIDE_S").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { 120 } else { 10 });
    let mut children = Vec::new();
    for k in 0..SHARDS {
        let child = Command::new(&exe)
            .args(["guide", p.id, &seed.to_string(), &k.to_string(), &seconds.to_string()])
            .env("VERIF_SCRATCH", tmp.join(format!("g{k}")))
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn();
        let Ok(mut child) = child else { continue };
        let mut out = child.stdout.take().unwrap();
        let reader = std::thread::spawn(move || {
            let mut b = Vec::new();
            let _ = out.read_to_end(&mut b);
            String::from_utf8_lossy(&b).to_string()
        });
        children.push((child, reader));
    }
    // A case may hang there; what it was is for the ordinary phases to find.
    let end = Instant::now() + Duration::from_secs(seconds + 30);
    let mut texts = Vec::new();
    for (mut child, reader) in children {
        loop {
            match child.try_wait() {
                Ok(Some(_)) | Err(_) => break,
                Ok(None) if Instant::now() >= end => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break;
                }
                Ok(None) => std::thread::sleep(Duration::from_millis(50)),
            }
        }
        texts.push(reader.join().unwrap_or_default());
    }
    let mut searched: BTreeMap<String, Searched> = BTreeMap::new();
    let mut candidates: Vec<(String, u64, Vec<u64>)> = Vec::new();
    for (k, text) in texts.iter().enumerate() {
        for line in text.lines() {
            let f: Vec<&str> = line.split('\t').collect();
            let num = |i: usize| f.get(i).and_then(|x| x.parse::<u64>().ok()).unwrap_or(0);
            match f[0] {
                "stat" => {
                    let s = searched.entry(f[1].to_string()).or_default();
                    s.cases += num(2);
                    s.nontrivial += num(3);
                    s.discards += num(4);
                    s.distinct += num(5);
                    s.kept += num(6);
                    s.features = s.features.max(num(7));
                }
                "sample" if f.len() > 2 => searched.entry(f[1].to_string()).or_default().samples.push(unesc(f[2])),
                "cand" if f.len() > 2 && p.phases.iter().any(|x| x.name == f[1]) => candidates.push((f[1].to_string(), k as u64, parse_tape(f[2]))),
                _ => {}
            }
        }
    }
    let mut viols = Vec::new();
    candidates.sort_by_key(|c| c.2.len());
    for (phase, shard, tape) in candidates.into_iter().take(6) {
        let o = eval_fresh(p.id, &phase, seed, &Input::Tape(tape.clone()));
        if o.verdict == "violation" {
            let (small, msg, case) = shrink_fresh(p.id, find_phase(p, &phase), seed, &o.tape, &o.msg, &o.case);
            viols.push(Viol { phase, index: 0, shard, tape, small, msg, case });
            break;
        }
    }
    (viols, searched.into_iter().collect())
}

fn write_replay(id: &str, tier: &str, seed: u64, v: &Viol) -> PathBuf {
    // Does the shrunk case fail on its own?
    let mut how = "tape";
    let mut tape = v.small.clone();
    let mut msg = v.msg.clone();
    if v.tape.is_empty() && v.small.is_empty() {
        how = "index";
    } else {
        let o = eval_fresh(id, &v.phase, seed, &Input::Tape(v.small.clone()));
        if !(o.verdict == "violation" || o.verdict == "crash") {
            let o = eval_fresh(id, &v.phase, seed, &Input::Tape(v.tape.clone()));
            tape = v.tape.clone();
            if o.verdict == "violation" || o.verdict == "crash" {
                msg = o.msg;
            } else {
                // Needs the cases that ran before it in the same process.
                how = "history";
            }
        }
    }
    let dir = verif_dir().join("replays");
    let _ = fs::create_dir_all(&dir);
    let key = hash64(format!("{id}{}{}{tape:?}{how}", v.phase, v.index).as_bytes());
    let path = dir.join(format!("{id}-{key:016x}.json"));
    let s = format!(
        "{{\n \"property\": {},\n \"phase\": {},\n \"how\": {},\n \"tier\": {},\n \"seed\": {},\n \"index\": {},\n \"shard\": {},\n \"tape\": {},\n \"message\": {},\n \"case\": {}\n}}\n",
        json_str(id),
        json_str(&v.phase),
        json_str(how),
        json_str(tier),
        seed,
        v.index,
        v.shard,
        json_str(&tape_str(&tape)),
        json_str(&msg),
        json_str(&v.case)
    );
    let _ = fs::write(&path, s);
    path
}

/// Reads a flat JSON object of strings and numbers, as written by `write_replay`.
fn read_flat(path: &Path) -> BTreeMap<String, String> {
    let t = fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {}: {e}", path.display());
        std::process::exit(3)
    });
    let mut m = BTreeMap::new();
    for line in t.lines() {
        let line = line.trim().trim_end_matches(',');
        if let Some((k, v)) = line.split_once(": ") {
            let k = k.trim().trim_matches('"').to_string();
            let v = v.trim();
            let v = v.strip_prefix('"').and_then(|v| v.strip_suffix('"')).unwrap_or(v);
            m.insert(k, v.to_string());
        }
    }
    m
}

fn replay(props: Props, file: &str) -> i32 {
    let m = read_flat(Path::new(file));
    let get = |k: &str| m.get(k).cloned().unwrap_or_default();
    let list = props();
    let p = find(&list, &get("property"));
    let phase = find_phase(p, &get("phase"));
    let seed: u64 = get("seed").parse().unwrap_or(1);
    let index: u64 = get("index").parse().unwrap_or(0);
    let o = match get("how").as_str() {
        "tape" => eval_fresh(p.id, phase.name, seed, &Input::Tape(parse_tape(&get("tape")))),
        "index" => eval_fresh(p.id, phase.name, seed, &Input::Index(index)),
        _ => {
            let tmp = TempDir(std::env::temp_dir().join(format!("verif-replay-{}", std::process::id())));
            fs::create_dir_all(&tmp.0).expect("scratch directory");
            let out = Command::new(std::env::current_exe().unwrap())
                .args(["worker", p.id, &get("tier"), &seed.to_string(), &get("shard")])
                .arg(tmp.0.join("h"))
                .arg(tmp.0.join("s"))
                .args([phase.name, &index.to_string()])
                .env("VERIF_SCRATCH", tmp.0.join("w"))
                .output()
                .expect("worker");
            let text = String::from_utf8_lossy(&out.stdout).to_string();
            let v = text.lines().find(|l| l.starts_with("viol\t"));
            OneResult {
                verdict: if v.is_some() { "violation" } else { "pass" }.to_string(),
                msg: v.map(|l| unesc(l.split('\t').nth(5).unwrap_or(""))).unwrap_or_default(),
                case: v.map(|l| unesc(l.split('\t').nth(6).unwrap_or(""))).unwrap_or_default(),
                tape: Vec::new(),
                labels: Vec::new(),
                nontrivial: false,
                inner: 0,
            }
        }
    };
    println!("verdict: {}\nmessage: {}\ncase: {}", o.verdict, o.msg, o.case);
    match o.verdict.as_str() {
        "violation" | "crash" => {
            println!("VIOLATION property={} replay={file}", p.id);
            1
        }
        "pass" | "discard" => 0,
        _ => 3,
    }
}

#[allow(clippy::too_many_arguments)]
fn write_evidence(
    p: &Prop,
    tier: &str,
    seed: u64,
    stats: &BTreeMap<String, Merged>,
    searched: &[(String, Searched)],
    samples: &BTreeMap<String, Vec<String>>,
    distinct: u64,
    known: &BTreeMap<String, u64>,
    violations: usize,
    wall: f64,
) {
    let mut phases = String::new();
    let mut first = true;
    let mut out_samples: Vec<String> = Vec::new();
    for ph in &p.phases {
        let Some(s) = stats.get(ph.name) else { continue };
        if !first {
            phases.push_str(",\n");
        }
        first = false;
        let labels = s.labels.iter().map(|(l, c)| format!("{}: {}", json_str(l), c)).collect::<Vec<_>>().join(", ");
        let _ = write!(
            phases,
            "   {}: {{\"mode\": {}, \"cases\": {}, \"nontrivial\": {}, \"outside_domain\": {}, \"inner_evaluations\": {}{}, \"classes\": {{{}}}}}",
            json_str(ph.name),
            json_str(match ph.kind {
                Kind::Random => "random",
                Kind::Enumerate | Kind::Walk => "enumerated",
                Kind::Fresh => "random, one process per case",
            }),
            s.evals,
            s.nontrivial,
            s.discards,
            s.inner,
            format!(
                "{}, \"slowest_case_ms\": {:.1}",
                if matches!(ph.kind, Kind::Enumerate | Kind::Walk) { format!(", \"exhaustive\": {}", s.exhausted) } else { String::new() },
                s.slowest as f64 / 1000.0
            ),
            labels
        );
        if let Some(v) = samples.get(ph.name) {
            for x in v.iter().take(MAX_SAMPLES) {
                out_samples.push(format!("   {{\"phase\": {}, \"case\": {}}}", json_str(ph.name), json_str(x)));
            }
        }
    }
    for (ph, s) in searched {
        let _ = write!(
            phases,
            ",\n   {}: {{\"mode\": \"coverage-guided\", \"cases\": {}, \"nontrivial\": {}, \"distinct_nontrivial_here\": {}, \"outside_domain\": {}, \"kept\": {}, \"features\": {}}}",
            json_str(&format!("{ph}, guided")),
            s.cases,
            s.nontrivial,
            s.distinct,
            s.discards,
            s.kept,
            s.features
        );
        if let Some(x) = s.samples.first() {
            out_samples.push(format!("   {{\"phase\": {}, \"case\": {}}}", json_str(&format!("{ph}, guided")), json_str(x)));
        }
    }
    let evals: u64 = stats.values().map(|s| s.evals).sum::<u64>() + searched.iter().map(|s| s.1.cases).sum::<u64>();
    let known_s = known.iter().map(|(k, n)| format!("{}: {}", json_str(k), n)).collect::<Vec<_>>().join(", ");
    let assumptions = p.assumptions.iter().map(|a| json_str(a)).collect::<Vec<_>>().join(", ");
    let s = format!(
        "{{\n \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": \"exploration\",\n \"coverage\": {{\n  \"evaluations\": {},\n  \"distinct_nontrivial\": {},\n  \"rule\": {},\n  \"phases\": {{\n{}\n  }},\n  \"known_findings_hit\": {{{}}},\n  \"samples\": [\n{}\n  ]\n }},\n \"assumptions\": [{}],\n \"wall_s\": {:.3},\n \"violations\": {}\n}}\n",
        json_str(p.id),
        json_str(tier),
        seed,
        evals,
        distinct,
        json_str(p.rule),
        phases,
        known_s,
        out_samples.join(",\n"),
        assumptions,
        wall,
        violations
    );
    let dir = verif_dir().join("evidence");
    let _ = fs::create_dir_all(&dir);
    fs::write(dir.join(format!("{}.json", p.id)), s).expect("evidence file");
}
