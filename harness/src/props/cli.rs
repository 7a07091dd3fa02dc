//! P23, P24: the command line tool.

use crate::gen;
use crate::model::{self, Rule};
use crate::props::plant::{self, Spec};
use crate::props::svg::{self, fit, scratch, snapshot};
use crate::props::turtle;
use crate::xml;
use engine::*;
use std::collections::BTreeMap;
use std::ffi::{OsStr, OsString};
use std::fs;
use std::os::unix::ffi::{OsStrExt, OsStringExt};
use std::os::unix::fs::{symlink, PermissionsExt};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::OnceLock;
use std::time::{Duration, Instant};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P23",
            rule: "A plant file with deterministic rules and balanced branches (0-5 iterations, random layout), an input and an output name (relative, absolute, in a directory, without or with any extension, not UTF-8, existing or not), sizes and verbosity \
                   given in any argument order (the big phase: up to 12 iterations, 40 rules, 200000 symbols); the tool is run as an unprivileged user in a scratch directory, its SVG is read back and compared with the drawing of an independent derivation and turtle, and the directory is compared before and after. \
                   Non-trivial: at least two segments are drawn and a rule was applied.",
            assumptions: &["angles up to 10000 degrees, drawings up to 5000 symbols", "whether undrawn final positions count for the fit is left open"],
            phases: vec![
                Phase { name: "render", kind: Kind::Random, quick: 24_000, thorough: 360_000, f: p23_render },
                Phase { name: "big", kind: Kind::Random, quick: 1_200, thorough: 20_000, f: p23_big },
                Phase { name: "describe", kind: Kind::Random, quick: 40, thorough: 200, f: p23_describe },
            ],
        },
        Prop {
            id: "P24",
            rule: "The tool is run as an unprivileged user in a scratch directory on inputs that are missing, directories, unreadable, not UTF-8, plant files with one fault, with a branch end without its start, with probabilities above one in a rule that is \
                   used, or arbitrary text, and with outputs that are directories, below files, in missing or read-only directories, or on a full device; status, message and directory are examined. Non-trivial: every case in which the tool must fail.",
            assumptions: &["arbitrary text that is a valid plant file may succeed; it must then have written a readable SVG", "a full device is a symbolic link to /dev/full"],
            phases: vec![
                Phase { name: "faults", kind: Kind::Random, quick: 16_000, thorough: 360_000, f: p24_faults },
                Phase { name: "arbitrary", kind: Kind::Random, quick: 12_000, thorough: 360_000, f: p24_arbitrary },
            ],
        },
    ]
}

const NOBODY: u32 = 65534;

struct Tool {
    exe: PathBuf,
    drop: bool,
}

/// The tool, copied to where an unprivileged user can run it, if that can be done.
fn tool() -> R<&'static Tool> {
    static T: OnceLock<Result<Tool, String>> = OnceLock::new();
    let t = T.get_or_init(|| {
        let from = std::env::var_os("VERIF_LSYSTEM").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif/target/cli/release/lsystem"));
        let base = std::env::var_os("VERIF_SCRATCH").map(PathBuf::from).unwrap_or_else(|| std::env::temp_dir().join(format!("verif-scratch-{}", std::process::id())));
        fs::create_dir_all(&base).map_err(|e| e.to_string())?;
        let mut up = Some(base.as_path());
        while let Some(d) = up {
            // Only directories of our own are opened up.
            if d.file_name().is_some_and(|n| n.to_string_lossy().starts_with("verif-")) || d == base {
                let _ = fs::set_permissions(d, fs::Permissions::from_mode(0o755));
            }
            up = d.parent();
        }
        let exe = base.join("lsystem");
        fs::copy(&from, &exe).map_err(|e| format!("the tool {} cannot be copied: {e}", from.display()))?;
        fs::set_permissions(&exe, fs::Permissions::from_mode(0o755)).map_err(|e| e.to_string())?;
        let works = |drop: bool| {
            let mut c = Command::new(&exe);
            c.arg("--version").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null());
            if drop {
                c.uid(NOBODY).gid(NOBODY);
            }
            c.status().is_ok_and(|s| s.success())
        };
        let drop = works(true);
        Ok(Tool { exe, drop })
    });
    t.as_ref().map_err(|e| Fail::Harness(e.clone()))
}

struct Ran {
    code: Option<i32>,
    signal: Option<i32>,
    out: String,
    err: String,
}

impl Ran {
    fn text(&self) -> String {
        format!("status {:?}, signal {:?}, stdout {:?}, stderr {:?}", self.code, self.signal, clip(&self.out, 200), clip(&self.err, 400))
    }
}

fn run(dir: &Path, args: &[OsString]) -> R<Ran> {
    run_with(dir, args, None)
}

/// With a text of up to 60000 bytes on a pipe as standard input.
fn run_with(dir: &Path, args: &[OsString], input: Option<&[u8]>) -> R<Ran> {
    let t = tool()?;
    let io = |e: std::io::Error| Fail::Harness(e.to_string());
    let base = dir.parent().unwrap();
    let (o, e) = (base.join("stdout"), base.join("stderr"));
    let mut c = Command::new(&t.exe);
    c.args(args).current_dir(dir).env_clear().stdin(Stdio::null()).stdout(fs::File::create(&o).map_err(io)?).stderr(fs::File::create(&e).map_err(io)?);
    if t.drop {
        c.uid(NOBODY).gid(NOBODY);
    }
    if let Some(text) = input {
        let (reader, mut writer) = std::io::pipe().map_err(io)?;
        std::io::Write::write_all(&mut writer, text).map_err(io)?;
        if t.drop {
            std::os::unix::fs::fchown(&reader, Some(NOBODY), Some(NOBODY)).map_err(io)?;
        }
        c.stdin(reader);
    }
    let mut child = c.spawn().map_err(io)?;
    let start = Instant::now();
    let status = loop {
        match child.try_wait().map_err(io)? {
            Some(s) => break s,
            None if start.elapsed() > Duration::from_secs(60) => {
                // A busy tool will not end; one that waits for a processor decides nothing.
                let busy = fs::read_to_string(format!("/proc/{}/stat", child.id()))
                    .ok()
                    .and_then(|t| {
                        let f: Vec<f64> = t[t.rfind(')')? + 2..].split(' ').map(|x| x.parse().unwrap_or(0.0)).collect();
                        Some((f.get(11)? + f.get(12)?) / 100.0)
                    })
                    .unwrap_or(0.0);
                let _ = child.kill();
                let _ = child.wait();
                if busy > 40.0 {
                    violated!("the tool has not finished after {busy:.0} s of processor time with {args:?}");
                }
                return Err(Fail::Harness(format!("the tool has not finished after 60 s with {args:?}")));
            }
            None => std::thread::sleep(Duration::from_micros(if start.elapsed() < Duration::from_millis(20) { 100 } else { 2000 })),
        }
    };
    let read = |p: &Path| fs::read(p).map(|b| String::from_utf8_lossy(&b).to_string()).unwrap_or_default();
    Ok(Ran { code: status.code(), signal: status.signal(), out: read(&o), err: read(&e) })
}

/// A directory the unprivileged user may use.
fn workdir() -> R<PathBuf> {
    let dir = scratch()?;
    fs::set_permissions(&dir, fs::Permissions::from_mode(0o777)).map_err(|e| Fail::Harness(e.to_string()))?;
    tool()?;
    Ok(dir)
}

fn open_up(p: &Path) -> R {
    let mode = if p.is_dir() { 0o777 } else { 0o666 };
    fs::set_permissions(p, fs::Permissions::from_mode(mode)).map_err(|e| Fail::Harness(e.to_string()))
}

fn put(p: &Path, bytes: &[u8]) -> R {
    fs::write(p, bytes).map_err(|e| Fail::Harness(format!("{}: {e}", p.display())))?;
    open_up(p)
}

fn mkdir(p: &Path) -> R {
    fs::create_dir_all(p).map_err(|e| Fail::Harness(format!("{}: {e}", p.display())))?;
    open_up(p)
}

/// A system whose every derivation has balanced branches.
fn drawable(s: &mut Src, big: bool) -> Spec {
    let mut p = plant::spec(s, 1, false);
    if big {
        for i in 0..s.range(0, 30) {
            p.names.push(format!("Symbol{i}"));
        }
    }
    let k = p.names.len();
    let index = |names: &[String], c: &str| names.iter().position(|n| n == c);
    let word = |s: &mut Src, max: usize| -> Vec<usize> {
        let mut v = Vec::new();
        let mut depth = 0;
        let cmds = turtle::balanced(s, max, false);
        for c in cmds {
            match c {
                "[" => depth += 1,
                "]" => depth -= 1,
                _ => {}
            }
            v.push(match index(&p.names, c) {
                Some(i) => i,
                None if big => s.range(6, k - 1),
                None => 6,
            });
        }
        let close = index(&p.names, "]").unwrap();
        v.extend(std::iter::repeat(close).take(depth));
        v
    };
    let mut axiom = word(s, if big { 400 } else { 12 });
    if axiom.is_empty() || s.chance(1, 3) {
        axiom.push(*s.pick(&[6, 0, 0]));
    }
    let mut rules: Vec<Rule> = Vec::new();
    let mut lines = Vec::new();
    let n = if big { s.range(1, 40) } else { s.small(1, 6) };
    for _ in 0..n {
        let (pre, mut target, post) = gen::head(s, k, &axiom, 2);
        if target == 4 || target == 5 {
            target = *s.pick(&[0, 6]);
        }
        let body = word(s, if big { 30 } else { 10 });
        if rules.iter().any(|r| r.pre == pre && r.target == target && r.post == post) {
            continue;
        }
        let twice = s.chance(1, 6);
        let mut bodies = vec![(None, body.clone())];
        if twice {
            // Alternatives that do not differ: chance decides, but nothing depends on it.
            let c = s.bool().then(|| String::from("0.5"));
            bodies = vec![(c.clone(), body.clone()), (c, body)];
        }
        for b in 0..bodies.len() {
            lines.push((rules.len(), b));
        }
        rules.push(Rule { pre, target, post, bodies });
    }
    p.axiom = axiom;
    p.rules = rules;
    p.lines = lines;
    let mut d = plant::decimal(s);
    if d.1.abs() > 10_000.0 {
        d = (String::from("22.5"), 22.5);
    }
    p.delta = s.chance(4, 5).then_some(d);
    p
}

/// The string after `n` steps, for the largest `n` up to `want` that stays small.
fn grown(p: &Spec, want: usize, cap: usize) -> (usize, Vec<usize>) {
    let mut w = p.axiom.clone();
    let mut k = 0;
    while k < want {
        let next = model::step(&p.rules, &w);
        if next.len() > cap {
            break;
        }
        w = next;
        k += 1;
    }
    (k, w)
}

fn set_n(s: &mut Src, p: &mut Spec, big: bool) -> Vec<usize> {
    let want = if big { s.range(1, 12) } else { s.weighted(&[1, 3, 5, 5, 3, 2]) };
    // Left contexts are costly on long strings.
    let cap = match (big, p.rules.iter().all(|r| r.pre.is_empty())) {
        (false, _) => 5000,
        (true, false) => 15_000,
        (true, true) => 200_000,
    };
    let (k, mut w) = grown(p, want, cap);
    p.n = Some((k.to_string(), k));
    if s.chance(1, 6) {
        // The default is two.
        let (k, w2) = grown(p, 2, cap);
        if k == 2 {
            p.n = None;
            w = w2;
        }
    }
    w
}

/// The unit of the turtle does not matter to a drawing that is fitted to the canvas.
fn polylines(segs: &[model::Seg]) -> Vec<Vec<(f64, f64)>> {
    let mut v: Vec<Vec<(f64, f64)>> = Vec::new();
    for g in segs {
        match v.last_mut() {
            Some(l) if g.joined => l.push(g.to),
            _ => v.push(vec![g.from, g.to]),
        }
    }
    v
}

fn final_position<'a>(cmds: impl Iterator<Item = &'a str>, delta: f64) -> (f64, f64) {
    let mut pos = (0.0, 0.0);
    let mut turns = 0i64;
    let mut stack = Vec::new();
    for c in cmds {
        match c {
            "Forward" | "Move" => {
                let h = model::heading(turns, delta);
                pos = (pos.0 + 5.0 * h.0, pos.1 + 5.0 * h.1);
            }
            "+" => turns += 1,
            "-" => turns -= 1,
            "[" => stack.push((pos, turns)),
            "]" => (pos, turns) = stack.pop().unwrap_or((pos, turns)),
            _ => {}
        }
    }
    pos
}

/// Lines of an SVG as segments, so that splitting a line at a point makes no difference.
fn as_segments(v: &[Vec<(f64, f64)>]) -> Vec<((f64, f64), (f64, f64))> {
    v.iter().flat_map(|p| p.windows(2).map(|w| (w[0], w[1]))).collect()
}

fn check_drawing(what: &str, text: &str, p: &Spec, word: &[usize], w: usize, h: usize) -> R {
    let delta = p.delta() as f64;
    let cmds = || word.iter().map(|i| p.names[*i].as_str());
    let segs = model::turtle(cmds(), delta, 5.0).map_err(|_| Fail::Harness(String::from("unbalanced drawing")))?;
    let lines = polylines(&segs);
    let e = match xml::check_svg(text) {
        Ok(e) => e,
        Err(m) => violated!("{what}: the file is not a well-formed SVG: {m}: {:?}", clip(text, 300)),
    };
    let size = (e.attr("width").and_then(|v| v.parse::<f64>().ok()), e.attr("height").and_then(|v| v.parse::<f64>().ok()));
    ensure!(size == (Some(w as f64), Some(h as f64)), "{what}: the SVG is {size:?} instead of {w}x{h}");
    let got = xml::polylines(&e).map_err(|m| Fail::Violation(format!("{what}: {m}")))?;
    let got = as_segments(&got);
    ensure!(got.len() == segs.len(), "{what}: the SVG shows {} segments instead of {}", got.len(), segs.len());
    if segs.is_empty() {
        return Ok(());
    }
    let mut end = lines.clone();
    end.push(vec![final_position(cmds(), delta)]);
    let mut why = String::new();
    for d in [&lines, &end] {
        let (want, tol) = fit(d, w, h);
        // The reference turtle rounds differently.
        let tol = tol + 1e-6 * w.max(h) as f64;
        let want = as_segments(&want);
        let near = |a: (f64, f64), b: (f64, f64)| model::close(a.0, b.0, tol) && model::close(a.1, b.1, tol);
        match got.iter().zip(&want).position(|(g, w)| !near(g.0, w.0) || !near(g.1, w.1)) {
            None => return Ok(()),
            Some(i) => why = format!("segment {i} is shown from {:?} to {:?} instead of {:?} to {:?}", got[i].0, got[i].1, want[i].0, want[i].1),
        }
    }
    violated!("{what}: {why}")
}

struct Call {
    args: Vec<OsString>,
    /// The file that is to be written, below the working directory.
    output: PathBuf,
    w: usize,
    h: usize,
    verbose: bool,
}

fn input_name(s: &mut Src) -> OsString {
    match s.weighted(&[6, 2, 2, 1]) {
        0 => OsString::from(*s.pick(&["a.plant", "tree", "fern.txt", "with space.plant", "é 日.plant"])),
        1 => OsString::from("in/a.plant"),
        2 => OsString::from("./b.plant"),
        _ => OsString::from_vec(b"pl\xffnt.plant".to_vec()),
    }
}

fn expected_output(name: &OsStr) -> PathBuf {
    // Written out rather than taken from std::path.
    let b = name.as_bytes();
    let slash = b.iter().rposition(|c| *c == b'/').map(|i| i + 1).unwrap_or(0);
    let file = &b[slash..];
    let dot = file.iter().rposition(|c| *c == b'.').filter(|i| *i > 0);
    let mut out = b.to_vec();
    match dot {
        Some(i) => {
            let ext = &file[i + 1..];
            if !ext.eq_ignore_ascii_case(b"svg") {
                out.truncate(slash + i);
                out.extend_from_slice(b".svg");
            }
        }
        None => out.extend_from_slice(b".svg"),
    }
    PathBuf::from(OsString::from_vec(out))
}

/// Arguments in any order.
fn call(s: &mut Src, dir: &Path, input: &OsStr, output: Option<OsString>, size: Option<(usize, usize)>) -> Call {
    let verbose = s.chance(1, 3);
    let absolute = |s: &mut Src, p: &OsStr| -> OsString {
        if s.chance(1, 4) {
            dir.join(p).into_os_string()
        } else {
            p.to_os_string()
        }
    };
    let mut groups: Vec<Vec<OsString>> = vec![vec![absolute(s, input)]];
    let out = output.clone().unwrap_or_else(|| OsString::from("out.svg"));
    if output.is_some() {
        let o = absolute(s, &out);
        groups.push(match s.below(4) {
            0 => vec!["-o".into(), o],
            1 => vec!["--output".into(), o],
            2 => {
                let mut x = OsString::from("--output=");
                x.push(o);
                vec![x]
            }
            _ => {
                let mut x = OsString::from("-o");
                x.push(o);
                vec![x]
            }
        });
    }
    let (mut w, mut h) = size.unwrap_or((500, 500));
    // At times only one of them is asked for.
    let only = if size.is_some() { s.below(8) } else { 0 };
    if only == 1 {
        w = 500;
    }
    if only == 2 {
        h = 500;
    }
    if size.is_some() && only != 1 {
        groups.push(if s.bool() { vec!["--width".into(), w.to_string().into()] } else { vec![format!("--width={w}").into()] });
    }
    if size.is_some() && only != 2 {
        groups.push(if s.bool() { vec!["--height".into(), h.to_string().into()] } else { vec![format!("--height={h}").into()] });
    }
    let flag: OsString = (*s.pick(&["-v", "--verbose"])).into();
    let early = s.bool();
    if verbose && !early {
        groups.push(vec![flag.clone()]);
    }
    let mut args: Vec<OsString> = vec![];
    if verbose && early {
        args.push(flag);
    }
    args.push("interpret".into());
    while !groups.is_empty() {
        let i = s.below(groups.len());
        args.extend(groups.remove(i));
    }
    Call { args, output: dir.join(expected_output(&out)), w, h, verbose }
}

fn show_args(c: &Call) -> String {
    c.args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" ")
}

fn show_changes(dir: &Path, before: &BTreeMap<PathBuf, Vec<u8>>, after: &BTreeMap<PathBuf, Vec<u8>>) -> String {
    let mut v = Vec::new();
    for p in before.keys().chain(after.keys().filter(|p| !before.contains_key(*p))) {
        if before.get(p) != after.get(p) {
            v.push(p.strip_prefix(dir).unwrap_or(p).display().to_string());
        }
    }
    format!("{v:?}")
}

fn p23_render(s: &mut Src, ctx: &mut Ctx) -> R {
    render(s, ctx, false)
}

fn p23_big(s: &mut Src, ctx: &mut Ctx) -> R {
    render(s, ctx, true)
}

fn render(s: &mut Src, ctx: &mut Ctx, big: bool) -> R {
    let mut p = drawable(s, big);
    let word = set_n(s, &mut p, big);
    let lines = plant::layout(s, &p);
    let text = plant::join(s, &lines);
    let dir = workdir()?;
    mkdir(&dir.join("in"))?;
    mkdir(&dir.join("sub.dir"))?;
    put(&dir.join("bystander.svg"), b"keep me")?;
    let piped = text.len() <= 60_000 && s.chance(1, 8);
    let input = if piped { OsString::from("/dev/stdin") } else { input_name(s) };
    if !piped {
        put(&dir.join(&input), text.as_bytes())?;
    }
    ctx.label_if(piped, "plant from a pipe");
    let output: Option<OsString> = match s.weighted(&[2, 8, 1]) {
        0 => None,
        1 => Some(OsString::from(*s.pick(&["a.svg", "b.SVG", "c", "d.png", "e.b.png", "sub.dir/f.txt", "sub.dir/g", ".hidden", "h.", "é.jpeg", "i.tar.svg", "sub.dir/.j.svg", "out.Svg", "k.svgz", "svg", "with space.svg"]))),
        _ => Some(OsString::from_vec(b"o\xfe.svg".to_vec())),
    };
    let size = s.chance(2, 3).then(|| match s.below(3) {
        0 => (s.range(1, 20), s.range(1, 20)),
        1 => (s.range(100, 1000), s.range(100, 1000)),
        _ => (s.range(1, 5000) * 10usize.pow(s.below(6) as u32), s.range(1, 5000) * 10usize.pow(s.below(6) as u32)),
    });
    let c = call(s, &dir, &input, output, size);
    if dir.join(&input) == c.output {
        return Err(Fail::Discard);
    }
    let exists = s.chance(1, 4);
    if exists {
        let n = s.range(1, 20_000);
        put(&c.output, "<old/>".repeat(n / 6 + 1).as_bytes())?;
    }
    for _ in 0..s.below(4) {
        let f = if s.bool() { svg::neighbour(s, &c.output) } else { svg::neighbour(s, &dir.join(&input)) };
        if fs::symlink_metadata(&f).is_err() && f != c.output && f.starts_with(&dir) && f.parent().is_some_and(|p| p.is_dir()) {
            put(&f, b"not yours")?;
        }
    }
    let before = snapshot(&dir);
    ctx.case(format!("lsystem {} on {:?}", show_args(&c), text));
    let what = clip(&ctx.case, 900);
    let drawn = word.iter().filter(|i| p.names[**i] == "Forward").count();
    ctx.nontrivial = drawn >= 2 && p.n() > 0 && word != p.axiom;
    ctx.label_if(c.verbose, "verbose");
    ctx.label_if(exists, "output exists");
    ctx.label_if(drawn > 50, "more than 50 segments");
    ctx.label_if(drawn > 5000, "more than 5000 segments");
    ctx.label_if(p.n() > 5, "more than 5 iterations");
    ctx.label_if(drawn == 0, "nothing drawn");
    ctx.label_if(tool()?.drop, "unprivileged");
    let r = run_with(&dir, &c.args, piped.then_some(text.as_bytes()))?;
    ensure!(r.code == Some(0), "{what}: {}", r.text());
    let after = snapshot(&dir);
    let Some(bytes) = after.get(&c.output) else {
        violated!("{what}: {:?} was not written; changed: {}", c.output.file_name(), show_changes(&dir, &before, &after));
    };
    let mut want = before.clone();
    want.insert(c.output.clone(), bytes.clone());
    ensure!(want == after, "{what}: other files changed too: {}", show_changes(&dir, &want, &after));
    let Ok(svg) = std::str::from_utf8(bytes) else {
        violated!("{what}: the SVG is not UTF-8");
    };
    check_drawing(&what, svg, &p, &word, c.w, c.h)?;
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}

fn plain(t: &str) -> String {
    // Without terminal colours.
    let mut o = String::new();
    let mut it = t.chars();
    while let Some(c) = it.next() {
        if c == '\u{1b}' {
            for d in it.by_ref() {
                if d.is_ascii_alphabetic() {
                    break;
                }
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn p23_describe(s: &mut Src, ctx: &mut Ctx) -> R {
    let dir = workdir()?;
    let mut args: Vec<OsString> = vec!["describe".into()];
    match s.below(5) {
        0 => {}
        1 => args.push("-v".into()),
        2 => args.push("--verbose".into()),
        3 => args.insert(0, "-v".into()),
        _ => args.insert(0, "--verbose".into()),
    }
    ctx.case(format!("lsystem {args:?}"));
    ctx.nontrivial = true;
    let r = run(&dir, &args)?;
    ensure!(r.code == Some(0), "{}: {}", ctx.case, r.text());
    let out = plain(&r.out);
    for name in turtle::COMMANDS {
        ensure!(out.lines().any(|l| l.split_whitespace().next() == Some(name)), "{}: the symbol {name:?} is not listed in {out:?}", ctx.case);
    }
    ensure!(snapshot(&dir).is_empty(), "{}: files were written", ctx.case);
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}

// ---------------------------------------------------------------------------------------- P24

fn clean_failure(what: &str, r: &Ran) -> R {
    ensure!(r.signal.is_none(), "{what}: the tool was ended by a signal: {}", r.text());
    ensure!(!r.err.contains("panicked at") && r.code != Some(101), "{what}: the tool crashed: {}", r.text());
    ensure!(r.code != Some(0), "{what}: the tool reports success: {}", r.text());
    ensure!(!plain(&r.err).trim().is_empty(), "{what}: no error message: {}", r.text());
    Ok(())
}

fn p24_faults(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut p = drawable(s, false);
    set_n(s, &mut p, false);
    let dir = workdir()?;
    let dropped = tool()?.drop;
    mkdir(&dir.join("in"))?;
    put(&dir.join("bystander.svg"), b"keep me")?;
    let io = |e: std::io::Error| Fail::Harness(e.to_string());
    let input = input_name(s);
    let file = dir.join(&input);
    let mut output: Option<OsString> = if s.chance(1, 4) { None } else { Some(OsString::from(*s.pick(&["a.svg", "b", "c.png", "in/d.svg"]))) };
    let mut failed_write = false;
    let fault = s.below(13);
    let mut bytes = Vec::new();
    let valid = |s: &mut Src, p: &Spec| -> Vec<u8> {
        let lines = plant::layout(s, p);
        plant::join(s, &lines).into_bytes()
    };
    let what = match fault {
        0 => "missing input",
        1 => {
            mkdir(&file)?;
            "input is a directory"
        }
        2 => {
            bytes = valid(s, &p);
            "unreadable input"
        }
        3 => {
            bytes = valid(s, &p);
            let at = s.range(0, bytes.len());
            bytes.insert(at, *s.pick(&[0xff, 0xc0, 0xfe]));
            "input is not UTF-8"
        }
        4 | 5 => {
            let (what, t) = plant::corrupt(s, &p);
            bytes = t.into_bytes();
            what
        }
        6 => {
            // A branch end too many in the string that is drawn.
            let at = s.range(0, p.axiom.len());
            if s.bool() || p.n() == 0 {
                p.axiom.insert(at, 5);
            } else {
                p.rules.push(Rule { pre: vec![], target: p.names.len(), post: vec![], bodies: vec![(None, vec![5])] });
                p.names.push(String::from("Closer"));
                p.lines.push((p.rules.len() - 1, 0));
                let c = p.names.len() - 1;
                p.axiom.insert(at, c);
            }
            let (k, w) = grown(&p, p.n(), 5000);
            if k != p.n() {
                return Err(Fail::Discard);
            }
            let cmds = w.iter().map(|i| p.names[*i].as_str());
            if model::turtle(cmds, 90.0, 5.0).is_ok() {
                return Err(Fail::Discard);
            }
            bytes = valid(s, &p);
            "branch end without start"
        }
        7 => {
            // Probabilities above one in a rule that is used.
            let t = p.names.len();
            p.names.push(String::from("Over"));
            p.rules.push(Rule {
                pre: vec![],
                target: t,
                post: vec![],
                bodies: vec![(Some(String::from("0.75")), vec![0]), (Some(String::from(*s.pick(&["0.5", "1", "0.3"]))), vec![6])],
            });
            p.lines.push((p.rules.len() - 1, 0));
            p.lines.push((p.rules.len() - 1, 1));
            let at = s.range(0, p.axiom.len());
            p.axiom.insert(at, t);
            if p.n() == 0 {
                p.n = Some((String::from("1"), 1));
            }
            bytes = valid(s, &p);
            "probabilities above one"
        }
        8 => {
            bytes = valid(s, &p);
            failed_write = true;
            output = Some(OsString::from("no/such/dir/a.svg"));
            "output in a missing directory"
        }
        9 => {
            bytes = valid(s, &p);
            failed_write = true;
            mkdir(&dir.join("dir.svg"))?;
            output = Some(OsString::from(*s.pick(&["dir.svg", "dir", "dir.png"])));
            "output is a directory"
        }
        10 => {
            bytes = valid(s, &p);
            failed_write = true;
            output = Some(OsString::from("bystander.svg/a.svg"));
            "output below a file"
        }
        11 => {
            bytes = valid(s, &p);
            failed_write = true;
            symlink("/dev/full", dir.join("full.svg")).map_err(io)?;
            output = Some(OsString::from(*s.pick(&["full.svg", "full", "full.jpeg"])));
            "output on a full device"
        }
        _ => {
            bytes = valid(s, &p);
            failed_write = true;
            let d = dir.join("ro");
            mkdir(&d)?;
            put(&d.join("old.svg"), b"old")?;
            fs::set_permissions(d.join("old.svg"), fs::Permissions::from_mode(0o444)).map_err(io)?;
            fs::set_permissions(&d, fs::Permissions::from_mode(0o555)).map_err(io)?;
            output = Some(OsString::from(*s.pick(&["ro/new.svg", "ro/old.svg"])));
            "output is write-protected"
        }
    };
    if (fault == 2 || fault == 12) && !dropped {
        return Err(Fail::Discard);
    }
    if fault > 1 {
        put(&file, &bytes)?;
    }
    if fault == 2 {
        fs::set_permissions(&file, fs::Permissions::from_mode(0)).map_err(io)?;
    }
    let size = s.bool().then(|| (s.range(1, 1000), s.range(1, 1000)));
    let c = call(s, &dir, &input, output, size);
    if !failed_write && s.chance(1, 3) && c.output != file {
        // A failure keeps the result of an earlier run.
        put(&c.output, b"<svg>earlier</svg>")?;
        ctx.label("earlier output");
    }
    let before = snapshot(&dir);
    ctx.case(format!("{what}: lsystem {} on {:?}", show_args(&c), String::from_utf8_lossy(&bytes)));
    let shown = clip(&ctx.case, 900);
    ctx.label(what);
    ctx.label_if(c.verbose, "verbose");
    ctx.nontrivial = true;
    let r = run(&dir, &c.args)?;
    clean_failure(&shown, &r)?;
    let after = snapshot(&dir);
    if failed_write {
        let strip = |m: &BTreeMap<PathBuf, Vec<u8>>| -> BTreeMap<PathBuf, Vec<u8>> { m.iter().filter(|(p, _)| **p != c.output).map(|(p, b)| (p.clone(), b.clone())).collect() };
        let (b, a) = (strip(&before), strip(&after));
        ensure!(a == b, "{shown}: files changed: {}", show_changes(&dir, &b, &a));
    } else {
        ensure!(before == after, "{shown}: files changed: {}", show_changes(&dir, &before, &after));
    }
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}

fn fragment(s: &mut Src) -> String {
    match s.weighted(&[6, 6, 4, 4, 4, 3, 2]) {
        0 => s.pick(&["initial: X", "initial: Forward", "initial:", "initial: ]", "initial: [ Forward ] +", "initial: X X > X", "initial: Move", "initial:;"]).to_string(),
        1 => s.pick(&["X -> Forward", "Forward -> Forward + Forward", "X -> ]", "X -> [ X", "X ->", "X > X -> Forward", "X < Forward -> X", "X -> 0.5 X", "X -> 0 X", "X -> 1.1 X", "X -> 0.9 Forward", "] -> X", "X -> nan X"]).to_string(),
        2 => format!("n = {}", s.pick(&["0", "1", "2", "3", "", "-1", "1.0", "٣"])),
        3 => format!("{} = {}", s.pick(&["delta", "d", "D", "∂", "Δ"]), s.pick(&["90", "22.5", "nan", "inf", "1e38", "", "-0", "1e-40", "abc"])),
        4 => {
            let n = s.below(12);
            (0..n).map(|_| *s.pick(&[' ', 'X', '+', '-', '>', '<', '[', ']', ':', '=', '#', '\u{3000}', 'é', '\t', '(', '0', '.', ';'])).collect()
        }
        5 => {
            let n = s.below(10);
            (0..n).map(|_| gen::any_char(s)).collect()
        }
        _ => String::from("#"),
    }
}

fn p24_arbitrary(s: &mut Src, ctx: &mut Ctx) -> R {
    let dir = workdir()?;
    let n = s.small(0, 12);
    // Half of the files start as valid ones.
    let mut text = String::from(if s.bool() { "initial: X\nX -> Forward\n" } else { "" });
    for _ in 0..n {
        text.push_str(&fragment(s));
        text.push_str(*s.pick(&["\n", "\n", "\n", "\r\n", "\r", "", " ", "\u{2028}"]));
    }
    // Only small iteration counts finish soon.
    for l in text.lines() {
        if let Some((_, v)) = l.split('#').next().unwrap_or("").split_once('=') {
            if v.trim().parse::<u128>().is_ok_and(|n| n > 4) && !v.trim().starts_with("90") {
                return Err(Fail::Discard);
            }
            if v.trim().parse::<u128>().is_ok_and(|n| n > 4) && !l.trim_start().starts_with(['d', 'D', '∂', 'Δ']) {
                return Err(Fail::Discard);
            }
        }
    }
    let mut bytes = text.into_bytes();
    if s.chance(1, 12) && !bytes.is_empty() {
        let i = s.below(bytes.len());
        bytes[i] = s.draw(256) as u8;
    }
    put(&dir.join("in.plant"), &bytes)?;
    put(&dir.join("bystander.svg"), b"keep me")?;
    let size = Some(match s.below(3) {
        0 => (500, 500),
        1 => (s.below(3), s.below(3)),
        _ => (s.range(1, 1000), s.range(1, 1000)),
    });
    let c = call(s, &dir, OsStr::new("in.plant"), Some(OsString::from("out.svg")), size);
    let before = snapshot(&dir);
    ctx.case(format!("lsystem {} on {:?}", show_args(&c), String::from_utf8_lossy(&bytes)));
    let shown = clip(&ctx.case, 900);
    let r = run(&dir, &c.args)?;
    let after = snapshot(&dir);
    if r.code == Some(0) {
        ctx.label("accepted");
        let Some(b) = after.get(&c.output) else {
            violated!("{shown}: the tool reports success and has written nothing");
        };
        let mut want = before.clone();
        want.insert(c.output.clone(), b.clone());
        ensure!(want == after, "{shown}: other files changed: {}", show_changes(&dir, &want, &after));
        if let Err(m) = xml::check_svg(&String::from_utf8_lossy(b)) {
            violated!("{shown}: the tool reports success, but {m} in {:?}", clip(&String::from_utf8_lossy(b), 300));
        }
    } else {
        ctx.label("refused");
        ctx.nontrivial = true;
        clean_failure(&shown, &r)?;
        ensure!(before == after, "{shown}: files changed: {}", show_changes(&dir, &before, &after));
    }
    let _ = fs::remove_dir_all(&dir);
    Ok(())
}
