//! P03, P04, P05, P06: text.

use crate::gen;
use crate::model;
use engine::*;
use rusty_systems::interpretation::abop;
use rusty_systems::parser::iterator::TokenIterator;
use rusty_systems::parser::{self, TokenKind};
use rusty_systems::prelude::*;
use rusty_systems::productions::{Production, ProductionBody};
use rusty_systems::symbols::iterator::SymbolIterable;

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "P03",
            rule: "Texts are enumerated completely up to a length over an alphabet with a name, a two-byte name, a space, a three-byte white space, '+', '-', '>', ';' (and '<', '(' in a second enumeration), and \
                   built at random from names, operator runs and Unicode white space; parsing and scanning are compared with an independent tokenizer (maximal runs of each character class). \
                   Non-trivial: the text has at least two tokens.",
            assumptions: &["white space is Unicode White_Space", "adjacent operator characters form one symbol, as the existing tests fix"],
            phases: vec![
                Phase { name: "enumerate-6", kind: Kind::Enumerate, quick: 600_000, thorough: 600_000, f: p03_enum6 },
                Phase { name: "enumerate-brackets-5", kind: Kind::Enumerate, quick: 200_000, thorough: 200_000, f: p03_enum_brackets },
                Phase { name: "random", kind: Kind::Random, quick: 1_600_000, thorough: 24_000_000, f: p03_random },
                Phase { name: "long", kind: Kind::Random, quick: 400, thorough: 8_000, f: p03_long },
                Phase { name: "enumerate-8", kind: Kind::Enumerate, quick: 0, thorough: 43_100_000, f: p03_enum8 },
            ],
        },
        Prop {
            id: "P04",
            rule: "A random text that parses (or the result of up to three derivation steps on one) is displayed and parsed again; its white space is rewritten at random between and around tokens and it is parsed again. \
                   Non-trivial: at least two symbols and a layout that differs from the original.",
            assumptions: &["symbol names contain neither white space nor operator characters unless they are operator runs; such names cannot come from parsed text"],
            phases: vec![
                Phase { name: "roundtrip", kind: Kind::Random, quick: 1_500_000, thorough: 18_000_000, f: p04_roundtrip },
                Phase { name: "derived", kind: Kind::Random, quick: 500_000, thorough: 6_000_000, f: p04_derived },
                Phase { name: "long", kind: Kind::Random, quick: 200, thorough: 4_000, f: p04_long },
            ],
        },
        Prop {
            id: "P05",
            rule: "A random rule (contexts, body, probability notation) is rendered with random spacing and parsed through every entry point; what comes back is compared with what was written. \
                   'alternatives' lists the symbols of rules with up to 300000 alternatives. 'corrupt' applies one fault that must be rejected. Non-trivial: the rule has a context, a probability or at least two body symbols; every corruption counts.",
            assumptions: &["names hold no white space, no operator characters, and the first body symbol does not read as a number"],
            phases: vec![
                Phase { name: "wellformed", kind: Kind::Random, quick: 1_200_000, thorough: 24_000_000, f: p05_wellformed },
                Phase { name: "corrupt", kind: Kind::Random, quick: 600_000, thorough: 12_000_000, f: p05_corrupt },
                Phase { name: "long", kind: Kind::Random, quick: 400, thorough: 8_000, f: p05_long },
                Phase { name: "alternatives", kind: Kind::Random, quick: 150, thorough: 4_000, f: p05_alternatives },
            ],
        },
        Prop {
            id: "P06",
            rule: "Texts are enumerated over an alphabet of characters that mean something to a parser, generated at random (arbitrary Unicode; fragments of rules, strings and plant files) and made by mutating valid texts; \
                   each goes to every text entry point. Non-trivial: the text is not empty and at least one entry point accepted and one rejected it, or it holds a non-ASCII or operator character.",
            assumptions: &[],
            phases: vec![
                Phase { name: "enumerate-5", kind: Kind::Enumerate, quick: 540_000, thorough: 540_000, f: p06_enum5 },
                Phase { name: "random", kind: Kind::Random, quick: 1_250_000, thorough: 18_000_000, f: p06_random },
                Phase { name: "mutated", kind: Kind::Random, quick: 500_000, thorough: 7_500_000, f: p06_mutated },
                Phase { name: "long", kind: Kind::Random, quick: 800, thorough: 9_000, f: p06_long },
            ],
        },
    ]
}

// ---------------------------------------------------------------------------------------- P03

fn enumerated(s: &mut Src, alphabet: &[&str], n: usize) -> String {
    let mut t = String::new();
    for _ in 0..n {
        let v = s.below(alphabet.len() + 1);
        if v > 0 {
            t.push_str(alphabet[v - 1]);
        }
    }
    t
}

fn p03_enum6(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = enumerated(s, &["A", "é", " ", "\u{3000}", "+", "-", ">", ";"], 6);
    p03_check(&t, ctx)
}

fn p03_enum8(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = enumerated(s, &["A", "é", " ", "\u{3000}", "+", "-", ">", ";"], 8);
    p03_check(&t, ctx)
}

fn p03_enum_brackets(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = enumerated(s, &["A", " ", "\t", "\u{85}", "<", "(", ")", "-", ">", ";"], 5);
    p03_check(&t, ctx)
}

fn text_piece(s: &mut Src, t: &mut String) {
    match s.weighted(&[40, 22, 30, 3, 5]) {
        0 => t.push_str(&gen::name(s)),
        1 => t.push_str(s.pick(&gen::OPS)),
        2 => t.push_str(&gen::white(s, 1)),
        3 => t.push_str(s.pick(&[";", "->", "<", ">"])),
        _ => t.push(gen::any_char(s)),
    }
}

fn p03_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.len(0, 1500);
    let mut t = String::new();
    for _ in 0..n {
        text_piece(s, &mut t);
    }
    p03_check(&t, ctx)
}

/// A few pieces repeated to a long text, or a long name among others, with something different at one place.
fn p03_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = match s.below(3) {
        0 => {
            let k = s.range(1, 4);
            let pieces: Vec<String> = (0..k)
                .map(|_| {
                    let mut p = String::new();
                    for _ in 0..s.range(1, 3) {
                        p.push_str(&gen::name(s));
                        p.push_str(&gen::white(s, 1));
                        if s.chance(1, 3) {
                            p.push_str(s.pick(&["+", "-", "(", ")", "--", "++"]));
                        }
                    }
                    p
                })
                .collect();
            let n = s.range(500, 60_000);
            (0..n).map(|i| pieces[i % k].as_str()).collect::<String>()
        }
        1 => {
            // One very long token or one very long gap.
            let c = *s.pick(&["n", "é", "🌱", " ", "\u{3000}", "+", "-", ")", "\t"]);
            let n = if s.bool() { s.range(60_000, 70_000) } else { s.range(200, 150_000) };
            format!("{}{}{}", gen::name(s), c.repeat(n), gen::name(s))
        }
        _ => {
            let n = s.range(200, 3_000);
            (0..n)
                .map(|_| {
                    let mut p = gen::name(s);
                    p.push_str(&gen::white(s, 1));
                    p
                })
                .collect::<String>()
        }
    };
    let t = if s.bool() {
        // Something else at one place.
        let mut at = s.below(t.len() + 1);
        while !t.is_char_boundary(at) {
            at -= 1;
        }
        let mut p = String::new();
        text_piece(s, &mut p);
        format!("{}{p}{}", &t[..at], &t[at..])
    } else {
        t
    };
    let r = p03_check(&t, ctx);
    ctx.case(format!("{} bytes, hash {:x}: {:?}", t.len(), hash64(t.as_bytes()), clip(&t, 100)));
    r
}

fn names_of(p: &ProductionString) -> R<Vec<String>> {
    let mut v = Vec::new();
    for x in p.symbols() {
        match sut("name", || x.name())? {
            Some(n) => v.push(n),
            None => violated!("a parsed symbol (code {}) has no name", x.code()),
        }
    }
    Ok(v)
}

fn p03_check(t: &str, ctx: &mut Ctx) -> R {
    let toks = model::tokens(t);
    ctx.case(format!("{t:?}"));
    ctx.nontrivial = toks.len() >= 2;
    let expected = model::parse_string(t);
    ctx.label(if expected.is_ok() { "accepted" } else { "rejected" });
    ctx.label_if(toks.iter().any(|(a, b)| &t[*a..*b] == ";"), "has terminator");
    ctx.label_if(toks.len() > 100, "> 100 tokens");
    ctx.label_if(t.chars().any(|c| c.len_utf8() > 1 && model::is_white(c)), "multi-byte white space");

    let got = sut("parse_prod_string", || parser::parse_prod_string(t))?;
    match (&got, &expected) {
        (Ok(g), Ok(e)) => {
            let g = names_of(g)?;
            ensure!(&g == e, "{:?} parsed to {:?}, expected {:?}", clip(t, 300), clip(&format!("{g:?}"), 300), clip(&format!("{e:?}"), 300));
        }
        (Err(_), Err(_)) => {}
        (Ok(g), Err(e)) => violated!("{:?} was accepted as [{g}] although it holds {e:?}", clip(t, 300)),
        (Err(e), Ok(_)) => violated!("{:?} was rejected: {e}", clip(t, 300)),
    }
    let other = sut("str::parse", || t.parse::<ProductionString>())?;
    match (&got, &other) {
        (Ok(a), Ok(b)) => ensure!(a == b, "parse_prod_string and str::parse disagree on {:?}", clip(t, 300)),
        (Err(_), Err(_)) => {}
        _ => violated!("parse_prod_string and str::parse disagree on {:?}", clip(t, 300)),
    }

    // Scanning.
    let mut seen: Vec<(usize, usize)> = Vec::new();
    let mut ended = false;
    let mut it = TokenIterator::new(t);
    let mut count = 0;
    while let Some(tok) = sut("TokenIterator::next", || it.next())? {
        count += 1;
        ensure!(count <= t.len() + 1, "scanning {:?} gave more than {} tokens", clip(t, 300), t.len() + 1);
        ensure!(!ended, "a token follows the end marker in {:?}", clip(t, 300));
        if tok.text.is_empty() {
            ended = true;
            ensure!(tok.is_terminal(), "the end marker of {:?} is not a terminator", clip(t, 300));
            continue;
        }
        ensure!(
            t.get(tok.start..tok.end) == Some(tok.text),
            "in {:?} the token {:?} claims bytes {}..{}, which are {:?}",
            clip(t, 300),
            clip(tok.text, 60),
            tok.start,
            tok.end,
            t.get(tok.start..tok.end).map(|x| clip(x, 60))
        );
        let kind = match tok.text {
            ";" => TokenKind::Terminator,
            "->" => TokenKind::Arrow,
            "<" => TokenKind::ContextLeft,
            ">" => TokenKind::ContextRight,
            _ => TokenKind::Symbol,
        };
        ensure!(tok.kind == kind, "in {:?} the token {:?} has kind {:?}", clip(t, 300), tok.text, tok.kind);
        let as_text: &str = tok.as_ref();
        ensure!(as_text == tok.text, "in {:?} the token {:?} is {:?} as text", clip(t, 300), clip(tok.text, 60), clip(as_text, 60));
        let symbol = sut("token to symbol", || Symbol::try_from(tok))?;
        match (&symbol, kind) {
            (Ok(y), TokenKind::Symbol) => ensure!(y.to_string() == tok.text, "in {:?} the token {:?} stands for the symbol {:?}", clip(t, 300), clip(tok.text, 60), clip(&y.to_string(), 60)),
            (Err(e), TokenKind::Symbol) => violated!("in {:?} the token {:?} is refused as a symbol: {e}", clip(t, 300), clip(tok.text, 60)),
            (Ok(_), k) => violated!("in {:?} the token {:?} of kind {k:?} is a symbol", clip(t, 300), clip(tok.text, 60)),
            (Err(_), _) => {}
        }
        seen.push((tok.start, tok.end));
    }
    ensure!(seen == toks, "scanning {:?} gave the tokens {:?}, expected {:?}", clip(t, 300), clip(&format!("{seen:?}"), 300), clip(&format!("{toks:?}"), 300));
    Ok(())
}

// ---------------------------------------------------------------------------------------- P04

/// Tokens of a text that parses, none of them a terminator.
fn accepted_tokens(s: &mut Src) -> Vec<String> {
    let n = s.len(0, 400);
    (0..n)
        .map(|_| if s.chance(1, 3) { s.pick(&gen::OPS).to_string() } else { gen::name(s) })
        .collect()
}

fn layout(s: &mut Src, toks: &[String]) -> String {
    let mut t = gen::white(s, 0);
    for (i, k) in toks.iter().enumerate() {
        t.push_str(k);
        let glue = i + 1 < toks.len() && {
            let a = k.chars().next_back().unwrap();
            let b = toks[i + 1].chars().next().unwrap();
            model::is_operator(a) != model::is_operator(b)
        };
        t.push_str(&gen::white(s, if glue || i + 1 == toks.len() { 0 } else { 1 }));
    }
    t
}

fn p04_roundtrip(s: &mut Src, ctx: &mut Ctx) -> R {
    let toks = accepted_tokens(s);
    p04_layouts(s, &toks, ctx)
}

fn p04_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let few: Vec<String> = (0..s.range(2, 12)).map(|_| if s.chance(1, 3) { s.pick(&gen::OPS).to_string() } else { gen::name(s) }).collect();
    let n = if s.chance(1, 4) { gen::huge_len(s) } else { s.range(1_000, 20_000) };
    let step = s.range(1, 7);
    let toks: Vec<String> = (0..n).map(|i| few[(i * step + i / 100) % few.len()].clone()).collect();
    let r = p04_layouts(s, &toks, ctx);
    ctx.case(format!("{n} tokens from {few:?}"));
    r
}

fn p04_layouts(s: &mut Src, toks: &[String], ctx: &mut Ctx) -> R {
    let a = layout(s, toks);
    let b = layout(s, toks);
    ctx.case(format!("{a:?} / {b:?}"));
    ctx.nontrivial = toks.len() >= 2 && a != b;
    let pa = sut("parse", || parser::parse_prod_string(&a))?.map_err(|e| Fail::Violation(format!("{:?} was rejected: {e}", clip(&a, 300))))?;
    let pb = sut("parse", || parser::parse_prod_string(&b))?.map_err(|e| Fail::Violation(format!("{:?} was rejected: {e}", clip(&b, 300))))?;
    ensure!(pa == pb, "{:?} parses to [{}] and {:?} to [{}]", clip(&a, 300), clip(&pa.to_string(), 300), clip(&b, 300), clip(&pb.to_string(), 300));
    ensure!(pa.len() == toks.len(), "{:?} has {} symbols, expected {}", clip(&a, 300), pa.len(), toks.len());
    let shown = sut("display", || pa.to_string())?;
    let back = sut("parse", || shown.parse::<ProductionString>())?.map_err(|e| Fail::Violation(format!("the displayed string {:?} was rejected: {e}", clip(&shown, 300))))?;
    ensure!(back == pa, "{:?} was displayed as {:?}, which parses to something else", clip(&a, 300), clip(&shown, 300));
    let padded = format!(" {shown}\u{3000}");
    let again = sut("parse", || parser::parse_prod_string(&padded))?.map_err(|e| Fail::Violation(format!("{:?} was rejected: {e}", clip(&padded, 300))))?;
    ensure!(again == pa && again.to_string() == shown, "padding {:?} changes what it parses to", clip(&shown, 300));
    Ok(())
}

fn p04_derived(s: &mut Src, ctx: &mut Ctx) -> R {
    let na = s.range(1, 5);
    let mut names = gen::alphabet(s, na);
    for o in ["+", "-", "--"] {
        if s.chance(1, 3) {
            names.push(o.to_string());
        }
    }
    let axiom = gen::word(s, names.len(), 1, 60);
    let rules = gen::det_rules(s, names.len(), &axiom, 5, 4, 2);
    // Operators cannot stand as rule targets next to '<' and '>' tokens in every position, but built rules may hold any symbol.
    let sy = gen::Symbols::new(names)?;
    let prods = sy.productions(&rules)?;
    let text = gen::show_word(&sy.names, &axiom);
    let start = sut("parse", || parser::parse_prod_string(&text))?.map_err(|e| Fail::Violation(format!("{text:?} was rejected: {e}")))?;
    let n = s.range(0, 3);
    ctx.case(format!("{text:?} n={n} {}", gen::show_rules(&sy.names, &rules)));
    let out = sut("derive", || rusty_systems::system::derive(start.clone(), &prods, RunSettings::for_max_iterations(n)))?.map_err(|e| Fail::Violation(format!("derivation failed: {e}")))?;
    let shown = sut("display", || out.to_string())?;
    let back = sut("parse", || parser::parse_prod_string(&shown))?.map_err(|e| Fail::Violation(format!("the displayed string {:?} was rejected: {e}", clip(&shown, 300))))?;
    ensure!(back == out, "a derived string was displayed as {:?}, which parses to [{}]", clip(&shown, 300), clip(&back.to_string(), 300));
    ctx.nontrivial = out.len() >= 2 && out != start;
    Ok(())
}

// ---------------------------------------------------------------------------------------- P05

const CHANCES: [&str; 24] = [
    "1", "1.0", "0.5", ".5", "0.25", "0.3", "1e-1", "5E-1", "0.1e1", "+0.5", "0.333333333333", "0.0001", "1e-10", "0.99999", "0.9999999999", "1.", "1.0000000000000000001", "00.5", "0.1", "0.7",
    "1e-30", "0.2", "0.6", "0.05",
];
const BAD_CHANCES: [&str; 20] = ["0", "0.0", "-0.5", "-1", "1.5", "2", "100", "1.001", "-0", "1e10", "-1e-10", "0e5", "1e39", "-inf", "NaN", "+2", "inf", "+Infinity", "nan", "1e400"];

struct Written {
    pre: Option<Vec<String>>,
    target: String,
    post: Option<Vec<String>>,
    chance: Option<String>,
    body: Vec<String>,
}

fn rule_name(s: &mut Src) -> String {
    if s.chance(1, 12) {
        return s.pick(&["+", "-", "[", "]", "--", "++", "(", ")"]).to_string();
    }
    gen::name(s)
}

fn written(s: &mut Src) -> Written {
    written_up_to(s, 30, 300)
}

fn written_up_to(s: &mut Src, max_ctx: usize, max_body: usize) -> Written {
    let ctx_len = |s: &mut Src| if max_ctx > 30 { s.range(1, max_ctx) } else { s.len(1, max_ctx) };
    let shape = s.weighted(&[4, 2, 2, 2]);
    let pre = if shape == 1 || shape == 3 {
        let n = ctx_len(s);
        Some((0..n).map(|_| rule_name(s)).collect())
    } else {
        None
    };
    let post = if shape >= 2 {
        let n = ctx_len(s);
        Some((0..n).map(|_| rule_name(s)).collect())
    } else {
        None
    };
    let target = rule_name(s);
    let chance = if s.chance(2, 5) { Some(if s.bool() { s.pick(&CHANCES).to_string() } else { format!("0.{:0w$}", s.range(1, 999), w = s.range(1, 5)) }) } else { None };
    let n = if max_body > 300 { s.range(0, max_body) } else { s.len(0, max_body) };
    let mut body: Vec<String> = (0..n).map(|_| if s.chance(1, 6) { s.pick(&["+", "-", "0.5", "1", "(", "--", "->", "<", ">", "A->B", "=", "-->"]).to_string() } else { rule_name(s) }).collect();
    if chance.is_none() && !body.is_empty() && body[0].parse::<f32>().is_ok() {
        body[0] = String::from("A");
    }
    Written { pre, target, post, chance, body }
}

fn spaced(s: &mut Src, words: &[&str]) -> String {
    let mut t = gen::blank(s, 0);
    for w in words {
        t.push_str(w);
        t.push_str(&gen::blank(s, 1));
    }
    t
}

fn head_text(s: &mut Src, w: &Written) -> String {
    let mut v: Vec<&str> = Vec::new();
    if let Some(p) = &w.pre {
        v.extend(p.iter().map(|x| x.as_str()));
        v.push("<");
    }
    v.push(&w.target);
    if let Some(p) = &w.post {
        v.push(">");
        v.extend(p.iter().map(|x| x.as_str()));
    }
    spaced(s, &v)
}

fn body_text(s: &mut Src, w: &Written) -> String {
    let mut v: Vec<&str> = Vec::new();
    if let Some(c) = &w.chance {
        v.push(c);
    }
    v.extend(w.body.iter().map(|x| x.as_str()));
    spaced(s, &v)
}

fn p05_wellformed(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = written(s);
    p05_check(s, w, ctx)
}

fn p05_long(s: &mut Src, ctx: &mut Ctx) -> R {
    let (c, b) = *s.pick(&[(300, 301), (2_000, 2_000), (31, 20_000), (20_000, 301), (31, 150_000), (150_000, 301)]);
    let mut w = written_up_to(s, 31, 301);
    // Long parts repeat the drawn ones.
    let stretch = |s: &mut Src, v: &mut Vec<String>, max: usize| {
        let n = if max > 10_000 && s.bool() { s.range(max / 2, max) } else { s.range(0, max) };
        let k = v.len();
        for i in k..n.max(k) {
            if k > 0 {
                v.push(v[(i * 7 + i / 50) % k].clone());
            }
        }
    };
    if let Some(p) = &mut w.pre {
        stretch(s, p, c);
    }
    if let Some(p) = &mut w.post {
        stretch(s, p, c);
    }
    stretch(s, &mut w.body, b);
    let r = p05_check(s, w, ctx);
    ctx.case = clip(&ctx.case, 300);
    r
}

/// The symbols of a rule with very many alternatives.
fn p05_alternatives(s: &mut Src, ctx: &mut Ctx) -> R {
    let w = written(s);
    let text = format!("{}->{}", head_text(s, &w), body_text(s, &w));
    let mut p = sut("parse_production", || parser::parse_production(&text))?.map_err(|e| Fail::Violation(format!("{text:?} was rejected: {e}")))?;
    let fail = |e: rusty_systems::error::Error| Fail::Violation(e.to_string());
    let k = s.range(1, 9);
    let names = gen::alphabet(s, k);
    let syms = names.iter().map(|n| sut("Symbol::build", || Symbol::build(n))?.map_err(fail)).collect::<R<Vec<Symbol>>>()?;
    let mut want = sut("all_symbols", || p.all_symbols::<Vec<Symbol>>())?;
    let n = if s.chance(1, 3) { s.range(30_000, 300_000) } else { s.len(1, 300_000) };
    let mut wrong = 0;
    // Few draws: the bodies follow from the number of the alternative.
    let (a, b, pieces) = (s.range(1, 40), s.range(0, 40), s.range(1, 4));
    let body = |i: usize| -> Vec<Symbol> { (0..(i * a / 7) % pieces).map(|j| syms[(i * a + j * b + i / 11) % k]).collect() };
    let merged = s.bool();
    for i in 0..n {
        let word = body(i);
        want.extend(&word);
        let alternative = ProductionBody::new(ProductionString::from(word));
        if merged && i % 3 == 0 {
            p.merge(Production::new(p.head().clone(), alternative));
        } else {
            p.add_body(alternative);
        }
        wrong += (p.all_bodies().len() != i + 2) as usize;
    }
    ctx.case(format!("{text:?} with {} alternatives", n + 1));
    ctx.nontrivial = n >= 2;
    ctx.label_if(n > 10_000, "more than 10000 alternatives");
    ctx.label_if(n > 100_000, "more than 100000 alternatives");
    let what = clip(&ctx.case, 300);
    ensure!(wrong == 0, "{what}: the number of alternatives is wrong after {wrong} additions");
    let got = sut("all_symbols", || p.all_symbols::<Vec<Symbol>>())?;
    ensure!(got == want, "{what}: {} symbols are listed instead of {}, or others", got.len(), want.len());
    let system = System::new();
    let back = sut("add_production", || system.add_production(p.clone()))?.map_err(fail)?;
    ensure!(back.all_bodies().len() == n + 1 && sut("all_symbols", || back.all_symbols::<Vec<Symbol>>())? == want, "{what}: the rule a system returns differs");
    let set: std::collections::HashSet<Symbol> = want.iter().copied().collect();
    ensure!(system.symbol_len() == set.len() && system.production_len() == 1, "{what}: the system has {} symbols instead of {}", system.symbol_len(), set.len());
    Ok(())
}

fn p05_check(s: &mut Src, w: Written, ctx: &mut Ctx) -> R {
    let (h, b) = (head_text(s, &w), body_text(s, &w));
    let text = format!("{h}->{b}");
    ctx.case(text.clone());
    ctx.nontrivial = w.pre.is_some() || w.post.is_some() || w.chance.is_some() || w.body.len() >= 2;
    ctx.label_if(w.chance.is_some(), "probability");
    ctx.label_if(w.pre.is_some() && w.post.is_some(), "both contexts");
    ctx.label_if(w.body.is_empty(), "empty body");
    ctx.label_if(w.body.len() > 100, "body > 100");
    ctx.label_if(w.body.iter().any(|x| x.contains("->")), "arrow in the replacement");
    let how = s.below(4);
    let p: Production = match how {
        0 => sut("parse_production", || parser::parse_production(&text))?,
        1 => sut("str::parse", || text.parse::<Production>())?,
        2 => sut("TryFrom<&str>", || Production::try_from(text.as_str()))?,
        _ => sut("TryFrom<String>", || Production::try_from(text.clone()))?,
    }
    .map_err(|e| Fail::Violation(format!("{:?} was rejected: {e}", clip(&text, 300))))?;

    let list = |p: Option<&ProductionString>| -> R<Option<Vec<String>>> {
        match p {
            None => Ok(None),
            Some(x) => Ok(Some(names_of(x)?)),
        }
    };
    let check_head = |hd: &rusty_systems::productions::ProductionHead, what: &str| -> R {
        let t = hd.target().name().unwrap_or_default();
        ensure!(t == w.target, "{what}: {:?} has target {t:?}", clip(&text, 300));
        let (pre, post) = (list(hd.pre_context())?, list(hd.post_context())?);
        ensure!(pre == w.pre, "{what}: {:?} has left context {}", clip(&text, 300), clip(&format!("{pre:?}"), 300));
        ensure!(post == w.post, "{what}: {:?} has right context {}", clip(&text, 300), clip(&format!("{post:?}"), 300));
        Ok(())
    };
    let check_body = |bd: &rusty_systems::productions::ProductionBody, what: &str| -> R {
        let got = names_of(bd.string())?;
        ensure!(got == w.body, "{what}: {:?} has the replacement {}", clip(&text, 300), clip(&format!("{got:?}"), 300));
        ensure!(bd.len() == w.body.len() && bd.is_empty() == w.body.is_empty(), "{what}: {:?} reports length {}", clip(&text, 300), bd.len());
        match &w.chance {
            None => ensure!(bd.chance().is_derived() && !bd.chance().is_user_set(), "{what}: {:?} has a probability", clip(&text, 300)),
            Some(c) => {
                let v: f32 = c.parse().unwrap();
                ensure!(bd.chance().is_user_set() && !bd.chance().is_derived(), "{what}: {:?} has lost its probability", clip(&text, 300));
                let got = sut("unwrap", || bd.chance().unwrap_or(-1.0))?;
                ensure!(got == v, "{what}: {:?} has probability {got}", clip(&text, 300));
                let (a, b) = sut("unwrap", || (bd.chance().unwrap(), bd.chance().expect("stated")))?;
                ensure!(a == v && b == v, "{what}: {:?} has probability {a} or {b}", clip(&text, 300));
            }
        }
        Ok(())
    };
    check_head(p.head(), "rule")?;
    ensure!(p.all_bodies().len() == 1, "{:?} has {} alternatives", clip(&text, 300), p.all_bodies().len());
    check_body(&p.all_bodies()[0], "rule")?;
    let only = sut("body", || p.body().cloned())?.map_err(|e| Fail::Violation(format!("the only alternative of {:?} is not available: {e}", clip(&text, 300))))?;
    check_body(&only, "only alternative")?;

    let h2 = sut("parse_production_head", || parser::parse_production_head(&h))?.map_err(|e| Fail::Violation(format!("the head {h:?} was rejected: {e}")))?;
    check_head(&h2, "head alone")?;
    ensure!(&h2 == p.head(), "the head of {:?} differs from the head parsed alone", clip(&text, 300));
    let b2 = sut("parse_production_body", || parser::parse_production_body(&b))?.map_err(|e| Fail::Violation(format!("the body {b:?} was rejected: {e}")))?;
    check_body(&b2, "body alone")?;

    let mut all: Vec<String> = Vec::new();
    all.extend(w.pre.iter().flatten().cloned());
    all.push(w.target.clone());
    all.extend(w.post.iter().flatten().cloned());
    all.extend(w.body.iter().cloned());
    let got: Vec<String> = sut("all_symbols", || p.all_symbols::<Vec<Symbol>>())?.iter().map(|x| x.name().unwrap_or_default()).collect();
    ensure!(got == all, "{:?} lists the symbols {}", clip(&text, 300), clip(&format!("{got:?}"), 300));
    // An alternative added later is listed after the first.
    let mut q = p.clone();
    q.add_body(b2);
    q.merge(p.clone());
    let got: Vec<String> = sut("all_symbols_iter", || q.all_symbols_iter().collect::<Vec<Symbol>>())?.iter().map(|x| x.name().unwrap_or_default()).collect();
    let mut twice = all.clone();
    twice.extend(w.body.iter().cloned());
    twice.extend(w.body.iter().cloned());
    ensure!(got == twice, "with three alternatives, {:?} lists the symbols {}", clip(&text, 300), clip(&format!("{got:?}"), 300));
    let head_list: Vec<String> = p.head().all_symbols::<Vec<Symbol>>().iter().map(|x| x.name().unwrap_or_default()).collect();
    ensure!(head_list[..] == all[..all.len() - w.body.len()], "the head of {:?} lists the symbols {head_list:?}", clip(&text, 300));
    ensure!(p == q, "adding alternatives to {:?} changed its identity", clip(&text, 300));
    Ok(())
}

fn p05_corrupt(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut w = written(s);
    let fault = s.below(7);
    let (what, text) = match fault {
        0 => {
            // No arrow.
            let h = head_text(s, &w);
            let b = body_text(s, &w);
            let t = format!("{h}{}{b}", s.pick(&["", "-", "=", "→", "- >", ">-"]));
            if t.contains("->") {
                return Err(Fail::Discard);
            }
            ("no arrow", t)
        }
        1 => {
            // No target.
            let mut v: Vec<&str> = Vec::new();
            if let Some(p) = &w.pre {
                v.extend(p.iter().map(|x| x.as_str()));
                v.push("<");
            }
            if let Some(p) = &w.post {
                v.push(">");
                v.extend(p.iter().map(|x| x.as_str()));
            }
            let h = spaced(s, &v);
            ("no target", format!("{h}->{}", body_text(s, &w)))
        }
        2 => {
            // More than one target symbol.
            let k = s.range(1, 3);
            let mut t = w.target.clone();
            for _ in 0..k {
                t.push_str(&gen::blank(s, 1));
                t.push_str(&rule_name(s));
            }
            w.target = t;
            let h = head_text(s, &w);
            ("several targets", format!("{h}->{}", body_text(s, &w)))
        }
        3 | 4 => {
            let c = if s.bool() { s.pick(&BAD_CHANCES).to_string() } else { format!("{}", 1.0 + 0.001 * s.range(1, 100000) as f64) };
            w.chance = Some(c);
            let h = head_text(s, &w);
            ("probability out of range", format!("{h}->{}", body_text(s, &w)))
        }
        5 => {
            // What lies between the first "<" and the ">" is the target.
            w.pre.get_or_insert_with(Vec::new);
            let more = gen::blank(s, 1);
            w.target = format!("{}{}<{}{}", w.target, gen::blank(s, 1), gen::blank(s, 1), rule_name(s)) + &more;
            let h = head_text(s, &w);
            ("two left contexts", format!("{h}->{}", body_text(s, &w)))
        }
        _ => ("empty text", gen::white(s, 0)),
    };
    ctx.case(format!("{what}: {text}"));
    ctx.label(what);
    ctx.nontrivial = true;
    let how = s.below(3);
    let r = match how {
        0 => sut("parse_production", || parser::parse_production(&text).map(|_| ()))?,
        1 => sut("str::parse", || text.parse::<Production>().map(|_| ()))?,
        _ => sut("add_production", || System::new().add_production(text.as_str()).map(|_| ()))?,
    };
    ensure!(r.is_err(), "{what}: {:?} was accepted", clip(&text, 300));
    Ok(())
}

// ---------------------------------------------------------------------------------------- P06

fn verdict<T>(what: &'static str, text: &str, r: R<rusty_systems::Result<T>>) -> R<bool> {
    match r {
        Err(Fail::Violation(m)) => Err(Fail::Violation(format!("{what} of {:?}: {m}", clip(text, 300)))),
        Err(e) => Err(e),
        Ok(Ok(_)) => Ok(true),
        Ok(Err(e)) => {
            let m = sut("displaying the error", || e.to_string())?;
            ensure!(!m.trim().is_empty(), "{what} of {:?}: the error has no message", clip(text, 300));
            Ok(false)
        }
    }
}

fn p06_check(t: &str, ctx: &mut Ctx) -> R {
    ctx.case(format!("{t:?}"));
    let mut yes = 0;
    let mut no = 0;
    let mut count = |b: bool| if b { yes += 1 } else { no += 1 };
    count(verdict("Symbol::build", t, sut("it", || Symbol::build(t)))?);
    count(verdict("parse_prod_string", t, sut("it", || parser::parse_prod_string(t)))?);
    count(verdict("parse_production", t, sut("it", || parser::parse_production(t)))?);
    count(verdict("parse_production_head", t, sut("it", || parser::parse_production_head(t)))?);
    count(verdict("parse_production_body", t, sut("it", || parser::parse_production_body(t)))?);
    count(verdict("plant file parsing", t, sut("it", || abop::parser::parse(t)))?);
    ctx.nontrivial = !t.is_empty() && ((yes > 0 && no > 0) || !t.is_ascii() || t.contains(model::is_operator));
    ctx.label_if(no == 6, "all reject");
    ctx.label_if(yes == 6, "all accept");
    let mut it = TokenIterator::new(t);
    let mut n = 0;
    while let Some(tok) = sut("scanning", || it.next())? {
        n += 1;
        ensure!(n <= t.len() + 1, "scanning {:?} gave more than {} tokens", clip(t, 300), t.len() + 1);
        let shown = sut("displaying a token", || tok.to_string())?;
        ensure!(!shown.is_empty(), "a token of {:?} displays as nothing", clip(t, 300));
        let _ = sut("token to symbol", || Symbol::try_from(tok).is_ok())?;
    }
    Ok(())
}

fn p06_enum5(s: &mut Src, ctx: &mut Ctx) -> R {
    let t = enumerated(s, &["X", " ", "<", "->", "-", "0", ".", ";", "=", "#", "\n", "\u{a0}", "initial:"], 5);
    p06_check(&t, ctx)
}

fn fragment(s: &mut Src, t: &mut String) {
    match s.weighted(&[20, 20, 20, 15, 15, 10]) {
        0 => text_piece(s, t),
        1 => t.push_str(s.pick(&["->", " -> ", "<", ">", " < ", " > ", ";", "\n", "\r\n", "#", "=", ":", "n", "delta", "∂", "initial:", "initial", "N=", "D =", "d=", "n = "])),
        2 => t.push_str(s.pick(&CHANCES)),
        3 => t.push_str(s.pick(&BAD_CHANCES)),
        4 => t.push_str(&gen::white(s, 1)),
        _ => t.push(gen::any_char(s)),
    }
}

fn p06_random(s: &mut Src, ctx: &mut Ctx) -> R {
    let n = s.len(0, 200);
    let mut t = String::new();
    for _ in 0..n {
        fragment(s, &mut t);
    }
    p06_check(&t, ctx)
}

fn p06_mutated(s: &mut Src, ctx: &mut Ctx) -> R {
    let mut t: Vec<char> = match s.below(3) {
        0 => {
            let w = written(s);
            format!("{}->{}", head_text(s, &w), body_text(s, &w)).chars().collect()
        }
        1 => "# c\nn = 6\ndelta = 22.5\n\ninitial: X # go\n\nForward -> Forward Forward\nX -> Forward + [ [ X ] - X ] - Forward [ - Forward X ] + X\n".chars().collect(),
        _ => "n=2\r\ndelta=90\r\ninitial: Forward - Forward\r\nA < Forward > B -> 0.5 Forward\r\nMove -> Move Move".chars().collect(),
    };
    let k = s.range(1, 4);
    for _ in 0..k {
        let at = s.below(t.len() + 1);
        match s.below(4) {
            0 if at < t.len() => {
                t.remove(at);
            }
            1 => {
                let mut f = String::new();
                fragment(s, &mut f);
                for (i, c) in f.chars().enumerate() {
                    t.insert(at + i, c);
                }
            }
            2 if at < t.len() => t[at] = gen::any_char(s),
            _ => {
                let to = (at + s.range(0, 20)).min(t.len());
                let chunk: Vec<char> = t[at.min(to)..to].to_vec();
                for (i, c) in chunk.into_iter().enumerate() {
                    t.insert(at + i, c);
                }
            }
        }
    }
    let t: String = t.into_iter().collect();
    p06_check(&t, ctx)
}

/// Long texts of few kinds of pieces, some of them with one part of a valid text that is long.
fn p06_long(s: &mut Src, ctx: &mut Ctx) -> R {
    const FRAMES: [(&str, &str, &str); 9] = [
        ("", "C ", "< A -> B"),
        ("A > ", "C ", "-> B"),
        ("A -> ", "C ", ""),
        ("A -> 0.5", " CC", ""),
        ("", "A\t", ""),
        ("initial: X\nX -> ", "+ ", "X"),
        ("initial: X", " X", "\nX -> X"),
        ("initial: X\n", "X -> X +\n", ""),
        ("initial: X\nX -> X\n", "n = 5\n# c\n", ""),
    ];
    let (mut before, mut after) = (String::new(), String::new());
    let mut pieces = Vec::new();
    let mut n = s.range(1_000, 40_000);
    if s.bool() {
        let (b, p, a) = *s.pick(&FRAMES);
        (before, after) = (b.to_string(), a.to_string());
        pieces.push(p.to_string());
        if s.chance(1, 3) {
            pieces.push(format!("{} ", rule_name(s)));
        }
        // A rule that is added again and again is copied every time.
        n = if p.contains("->") { s.range(100, 3_000) } else if p.contains('\n') { n } else { s.range(20_000, 200_000) };
    } else {
        let k = s.range(1, 4);
        for _ in 0..k {
            let mut p = String::new();
            fragment(s, &mut p);
            pieces.push(p);
        }
    }
    let mut t = before.clone();
    for i in 0..n {
        t.push_str(&pieces[i % pieces.len()]);
    }
    t.push_str(&after);
    let pieces = format!("{before:?} {pieces:?} x {n} {after:?}");
    ctx.label_if(n > 100_000, "more than 100000 pieces");
    let r = p06_check(&t, ctx);
    ctx.case(pieces);
    r
}
