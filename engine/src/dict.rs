//! The literals of the code under test: numbers and texts that the generators try more often than
//! chance would, as a fuzzer's dictionary. They decide nothing; a case made of them is judged like
//! any other.

use std::path::Path;
use std::sync::OnceLock;

#[derive(Default, Debug)]
pub struct Dict {
    pub ints: Vec<u64>,
    pub floats: Vec<f64>,
    pub words: Vec<String>,
}

static DICT: OnceLock<Dict> = OnceLock::new();

/// Reads the literals of the source files below `dir`, once per process.
pub fn load(dir: &Path) {
    DICT.get_or_init(|| {
        let mut d = Dict::default();
        let mut files = Vec::new();
        collect(dir, &mut files, 0);
        files.sort();
        for f in files {
            if let Ok(t) = std::fs::read_to_string(&f) {
                scan(t.split("#[cfg(test)]").next().unwrap_or(""), &mut d);
            }
        }
        d.ints.sort();
        d.ints.dedup();
        d.floats.sort_by(f64::total_cmp);
        d.floats.dedup();
        d.words.sort();
        d.words.dedup();
        d
    });
}

pub fn dict() -> &'static Dict {
    DICT.get_or_init(Dict::default)
}

fn collect(dir: &Path, out: &mut Vec<std::path::PathBuf>, depth: usize) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    for e in entries.flatten() {
        let p = e.path();
        if p.is_dir() {
            if depth < 6 {
                collect(&p, out, depth + 1);
            }
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p);
        }
    }
}

fn number(text: &str, d: &mut Dict) {
    let t = text.replace('_', "");
    let strip = |s: &str, ends: &[&str]| ends.iter().find_map(|e| s.strip_suffix(e)).unwrap_or(s).to_string();
    const INTS: [&str; 12] = ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"];
    let whole = if let Some(h) = t.strip_prefix("0x") {
        u64::from_str_radix(&strip(h, &INTS), 16).ok()
    } else if let Some(h) = t.strip_prefix("0b") {
        u64::from_str_radix(&strip(h, &INTS), 2).ok()
    } else {
        strip(&t, &INTS).parse::<u64>().ok()
    };
    if let Some(i) = whole {
        if i > 8 {
            d.ints.push(i);
        }
        if i > 0 {
            d.floats.push(i as f64);
        }
    } else if let Ok(f) = strip(&t, &["f64", "f32"]).parse::<f64>() {
        if f.is_finite() && f != 0.0 {
            d.floats.push(f);
            if f > 8.0 && f < 1e15 {
                d.ints.push(f as u64);
            }
        }
    }
}

fn word(text: String, d: &mut Dict) {
    if !text.is_empty() && text.chars().count() <= 24 && !text.chars().any(|c| c.is_whitespace() || c.is_control()) {
        d.words.push(text);
    }
}

/// Collects the literals of one file. It need not be exact: what it misses is only not tried.
pub fn scan(text: &str, d: &mut Dict) {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < c.len() {
        let next = c.get(i + 1).copied().unwrap_or(' ');
        if c[i] == '/' && next == '/' {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && next == '*' {
            i += 2;
            while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                i += 1;
            }
            i += 2;
        } else if c[i] == '"' {
            let mut t = String::new();
            i += 1;
            while i < c.len() && c[i] != '"' {
                if c[i] == '\\' {
                    i += 1;
                    match c.get(i).copied().unwrap_or(' ') {
                        'n' => t.push('\n'),
                        't' => t.push('\t'),
                        'r' => t.push('\r'),
                        '0' => t.push('\0'),
                        'u' => {
                            let hex: String = c[i + 1..].iter().skip(1).take_while(|x| x.is_ascii_hexdigit()).take(6).collect();
                            t.push(u32::from_str_radix(&hex, 16).ok().and_then(char::from_u32).unwrap_or(' '));
                            i += hex.len() + 2;
                        }
                        other => t.push(other),
                    }
                } else {
                    t.push(c[i]);
                }
                i += 1;
            }
            i += 1;
            word(t, d);
        } else if c[i] == '\'' {
            // A character, or a lifetime.
            if next != '\\' && c.get(i + 2) == Some(&'\'') {
                word(next.to_string(), d);
                i += 3;
            } else if next == '\\' {
                i += 3;
                while i < c.len() && c[i] != '\'' {
                    i += 1;
                }
                i += 1;
            } else {
                i += 1;
            }
        } else if c[i].is_ascii_digit() {
            let start = i;
            while i < c.len() && (c[i].is_ascii_alphanumeric() || c[i] == '_' || (c[i] == '.' && c.get(i + 1).is_some_and(|x| x.is_ascii_digit()))) {
                i += 1;
            }
            let mut t: String = c[start..i].iter().collect();
            if t.ends_with('e') && c.get(i) == Some(&'-') {
                t.push('-');
                i += 1;
                while i < c.len() && c[i].is_ascii_digit() {
                    t.push(c[i]);
                    i += 1;
                }
            }
            number(&t, d);
        } else if c[i].is_alphanumeric() || c[i] == '_' {
            while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                i += 1;
            }
        } else {
            i += 1;
        }
    }
}

#[cfg(test)]
mod tests {
    use super::*;

    #[test]
    fn literals() {
        let mut d = Dict::default();
        scan("let a1 = 1_000usize + 0x20 * 1.5e-3f64; // 77\n f(\"a\\u{e9}b\", 'q', b'x', \"two words\"); fn g<'a>(x: &'a str) {} x.0 .. 12..=37 '\\n' 90.0", &mut d);
        assert_eq!(d.ints, [1000, 32, 12, 37, 90]);
        assert_eq!(d.floats, [1000.0, 32.0, 0.0015, 12.0, 37.0, 90.0]);
        assert_eq!(d.words, ["aéb", "q", "x"]);
    }
}
