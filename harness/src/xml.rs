//! A strict reader for the XML the SVG code writes, and the geometry it describes.

#[derive(Debug, Clone)]
pub struct Element {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Element>,
}

impl Element {
    pub fn attr(&self, name: &str) -> Option<&str> {
        self.attrs.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str())
    }
    pub fn walk<'a>(&'a self, f: &mut dyn FnMut(&'a Element)) {
        f(self);
        for c in &self.children {
            c.walk(f);
        }
    }
}

struct P<'a> {
    t: &'a str,
    at: usize,
}

fn name_start(c: char) -> bool {
    c.is_alphabetic() || c == '_' || c == ':'
}
fn name_char(c: char) -> bool {
    name_start(c) || c.is_numeric() || c == '-' || c == '.'
}
fn xml_char(c: char) -> bool {
    matches!(c, '\t' | '\n' | '\r' | '\u{20}'..='\u{d7ff}' | '\u{e000}'..='\u{fffd}' | '\u{10000}'..)
}

impl<'a> P<'a> {
    fn rest(&self) -> &'a str {
        &self.t[self.at..]
    }
    fn peek(&self) -> Option<char> {
        self.rest().chars().next()
    }
    fn eat(&mut self, s: &str) -> bool {
        if self.rest().starts_with(s) {
            self.at += s.len();
            true
        } else {
            false
        }
    }
    fn err<T>(&self, m: &str) -> Result<T, String> {
        Err(format!("{m} at byte {}: {:?}", self.at, self.rest().chars().take(40).collect::<String>()))
    }
    fn space(&mut self) -> bool {
        let n = self.rest().len() - self.rest().trim_start_matches([' ', '\t', '\n', '\r']).len();
        self.at += n;
        n > 0
    }
    fn name(&mut self) -> Result<String, String> {
        match self.peek() {
            Some(c) if name_start(c) => {}
            _ => return self.err("a name was expected"),
        }
        let n: usize = self.rest().chars().take_while(|c| name_char(*c)).map(|c| c.len_utf8()).sum();
        let s = self.rest()[..n].to_string();
        self.at += n;
        Ok(s)
    }
    fn reference(&mut self) -> Result<char, String> {
        let Some(end) = self.rest().find(';') else { return self.err("an unfinished reference") };
        let body = &self.rest()[1..end];
        let c = match body {
            "lt" => '<',
            "gt" => '>',
            "amp" => '&',
            "quot" => '"',
            "apos" => '\'',
            _ => {
                let v = if let Some(h) = body.strip_prefix("#x") { u32::from_str_radix(h, 16).ok() } else { body.strip_prefix('#').and_then(|d| d.parse().ok()) };
                match v.and_then(char::from_u32).filter(|c| xml_char(*c)) {
                    Some(c) => c,
                    None => return self.err("an unknown reference"),
                }
            }
        };
        self.at += end + 1;
        Ok(c)
    }
    fn value(&mut self) -> Result<String, String> {
        let q = match self.peek() {
            Some(c @ ('"' | '\'')) => c,
            _ => return self.err("a quoted value was expected"),
        };
        self.at += 1;
        let mut o = String::new();
        loop {
            match self.peek() {
                None => return self.err("an unfinished value"),
                Some(c) if c == q => {
                    self.at += 1;
                    return Ok(o);
                }
                Some('<') => return self.err("'<' in a value"),
                Some('&') => o.push(self.reference()?),
                Some(c) if !xml_char(c) => return self.err("a forbidden character"),
                Some(c) => {
                    o.push(c);
                    self.at += c.len_utf8();
                }
            }
        }
    }
    fn element(&mut self, depth: usize) -> Result<Element, String> {
        if depth > 200 {
            return self.err("nested too deeply");
        }
        if !self.eat("<") {
            return self.err("'<' was expected");
        }
        let name = self.name()?;
        let mut attrs: Vec<(String, String)> = Vec::new();
        loop {
            let spaced = self.space();
            if self.eat("/>") {
                return Ok(Element { name, attrs, children: Vec::new() });
            }
            if self.eat(">") {
                break;
            }
            if !spaced {
                return self.err("white space was expected");
            }
            let n = self.name()?;
            self.space();
            if !self.eat("=") {
                return self.err("'=' was expected");
            }
            self.space();
            let v = self.value()?;
            if attrs.iter().any(|(m, _)| *m == n) {
                return self.err("an attribute occurs twice");
            }
            attrs.push((n, v));
        }
        let mut children = Vec::new();
        loop {
            if self.eat("<!--") {
                match self.rest().find("--") {
                    Some(i) if self.rest()[i..].starts_with("-->") => self.at += i + 3,
                    _ => return self.err("a bad comment"),
                }
                continue;
            }
            if self.rest().starts_with("</") {
                self.at += 2;
                let n = self.name()?;
                self.space();
                if n != name || !self.eat(">") {
                    return self.err("a wrong end tag");
                }
                return Ok(Element { name, attrs, children });
            }
            match self.peek() {
                None => return self.err("an element does not end"),
                Some('<') => children.push(self.element(depth + 1)?),
                Some('&') => {
                    self.reference()?;
                }
                Some(c) if !xml_char(c) => return self.err("a forbidden character"),
                Some(c) => self.at += c.len_utf8(),
            }
        }
    }
}

/// Parses a document of exactly one element.
pub fn parse(text: &str) -> Result<Element, String> {
    let mut p = P { t: text, at: 0 };
    if p.eat("<?xml") {
        match p.rest().find("?>") {
            Some(i) => p.at += i + 2,
            None => return p.err("a bad declaration"),
        }
    }
    p.space();
    let e = p.element(0)?;
    p.space();
    if p.at != text.len() {
        return p.err("text after the element");
    }
    Ok(e)
}

/// x' = a x + c y + e, y' = b x + d y + f
pub type Affine = [f64; 6];
pub const IDENTITY: Affine = [1.0, 0.0, 0.0, 1.0, 0.0, 0.0];

pub fn compose(m: &Affine, n: &Affine) -> Affine {
    [
        m[0] * n[0] + m[2] * n[1],
        m[1] * n[0] + m[3] * n[1],
        m[0] * n[2] + m[2] * n[3],
        m[1] * n[2] + m[3] * n[3],
        m[0] * n[4] + m[2] * n[5] + m[4],
        m[1] * n[4] + m[3] * n[5] + m[5],
    ]
}

pub fn apply(m: &Affine, p: (f64, f64)) -> (f64, f64) {
    (m[0] * p.0 + m[2] * p.1 + m[4], m[1] * p.0 + m[3] * p.1 + m[5])
}

pub fn number(t: &str) -> Result<f64, String> {
    let ok = !t.is_empty() && t.chars().all(|c| c.is_ascii_digit() || matches!(c, '.' | '-' | '+' | 'e' | 'E'));
    match t.parse::<f64>() {
        Ok(v) if ok && v.is_finite() => Ok(v),
        _ => Err(format!("{t:?} is not a finite number")),
    }
}

fn numbers(t: &str) -> Result<Vec<f64>, String> {
    t.split(|c: char| c.is_ascii_whitespace() || c == ',').filter(|x| !x.is_empty()).map(number).collect()
}

/// One element of a transform list.
pub fn transforms(t: &str) -> Result<Vec<(String, Vec<f64>)>, String> {
    let mut out = Vec::new();
    let mut rest = t.trim();
    while !rest.is_empty() {
        let open = rest.find('(').ok_or_else(|| format!("a transform without '(' in {t:?}"))?;
        let close = rest.find(')').ok_or_else(|| format!("a transform without ')' in {t:?}"))?;
        if close < open {
            return Err(format!("a bad transform in {t:?}"));
        }
        let name = rest[..open].trim().to_string();
        let args = numbers(&rest[open + 1..close])?;
        let good = match name.as_str() {
            "translate" | "scale" => args.len() == 1 || args.len() == 2,
            "rotate" => args.len() == 1 || args.len() == 3,
            "matrix" => args.len() == 6,
            "skewX" | "skewY" => args.len() == 1,
            _ => false,
        };
        if !good {
            return Err(format!("a bad transform {name}({args:?})"));
        }
        out.push((name, args));
        rest = rest[close + 1..].trim_start_matches([' ', '\t', '\n', '\r', ',']);
    }
    Ok(out)
}

pub fn matrix(t: &str) -> Result<Affine, String> {
    let mut m = IDENTITY;
    for (name, a) in transforms(t)? {
        let n: Affine = match name.as_str() {
            "translate" => [1.0, 0.0, 0.0, 1.0, a[0], a.get(1).copied().unwrap_or(0.0)],
            "scale" => [a[0], 0.0, 0.0, a.get(1).copied().unwrap_or(a[0]), 0.0, 0.0],
            "matrix" => [a[0], a[1], a[2], a[3], a[4], a[5]],
            "rotate" if a.len() == 1 => {
                let r = a[0].to_radians();
                [r.cos(), r.sin(), -r.sin(), r.cos(), 0.0, 0.0]
            }
            _ => return Err(format!("the transform {name} is not understood by this check")),
        };
        m = compose(&m, &n);
    }
    Ok(m)
}

/// The polylines of path data.
pub fn path_data(d: &str) -> Result<Vec<Vec<(f64, f64)>>, String> {
    let mut toks: Vec<String> = Vec::new();
    let mut cur = String::new();
    let mut prev = ' ';
    for c in d.chars() {
        let exponent_sign = (c == '-' || c == '+') && (prev == 'e' || prev == 'E');
        if c.is_ascii_whitespace() || c == ',' {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
        } else if "MmLlHhVvZz".contains(c) {
            if !cur.is_empty() {
                toks.push(std::mem::take(&mut cur));
            }
            toks.push(c.to_string());
        } else {
            if (c == '-' || c == '+') && !cur.is_empty() && !exponent_sign {
                toks.push(std::mem::take(&mut cur));
            }
            cur.push(c);
        }
        prev = c;
    }
    if !cur.is_empty() {
        toks.push(cur);
    }
    let mut out: Vec<Vec<(f64, f64)>> = Vec::new();
    let mut pos = (0.0, 0.0);
    let mut cmd = ' ';
    let mut i = 0;
    let num = |i: &mut usize, toks: &Vec<String>| -> Result<f64, String> {
        let t = toks.get(*i).ok_or_else(|| String::from("path data ends too early"))?;
        *i += 1;
        number(t)
    };
    while i < toks.len() {
        let first = toks[i].chars().next().unwrap();
        if toks[i].len() == 1 && first.is_ascii_alphabetic() {
            cmd = first;
            i += 1;
            if cmd == 'Z' || cmd == 'z' {
                let start = out.last().and_then(|p| p.first().copied()).ok_or("Z without a path")?;
                out.last_mut().unwrap().push(start);
                pos = start;
                continue;
            }
        } else if cmd == ' ' || cmd == 'Z' || cmd == 'z' {
            return Err(format!("path data has {:?} without a command", toks[i]));
        } else if cmd == 'M' {
            cmd = 'L';
        } else if cmd == 'm' {
            cmd = 'l';
        }
        let (x, y) = match cmd {
            'M' | 'L' => (num(&mut i, &toks)?, num(&mut i, &toks)?),
            'm' | 'l' => (pos.0 + num(&mut i, &toks)?, pos.1 + num(&mut i, &toks)?),
            'H' => (num(&mut i, &toks)?, pos.1),
            'h' => (pos.0 + num(&mut i, &toks)?, pos.1),
            'V' => (pos.0, num(&mut i, &toks)?),
            _ => (pos.0, pos.1 + num(&mut i, &toks)?),
        };
        pos = (x, y);
        if cmd == 'M' || cmd == 'm' {
            out.push(vec![pos]);
        } else {
            match out.last_mut() {
                Some(p) => p.push(pos),
                None => return Err(String::from("path data does not start with M")),
            }
        }
    }
    Ok(out)
}

/// Every polyline of the drawing after its transforms, in document order.
pub fn polylines(e: &Element) -> Result<Vec<Vec<(f64, f64)>>, String> {
    fn go(e: &Element, m: &Affine, out: &mut Vec<Vec<(f64, f64)>>) -> Result<(), String> {
        let m = match e.attr("transform") {
            Some(t) => compose(m, &matrix(t)?),
            None => *m,
        };
        match e.name.as_str() {
            "path" => {
                if let Some(d) = e.attr("d") {
                    for p in path_data(d)? {
                        out.push(p.into_iter().map(|x| apply(&m, x)).collect());
                    }
                }
            }
            "polyline" => {
                if let Some(d) = e.attr("points") {
                    let v = numbers(d)?;
                    out.push(v.chunks_exact(2).map(|c| apply(&m, (c[0], c[1]))).collect());
                }
            }
            _ => {}
        }
        for c in &e.children {
            go(c, &m, out)?;
        }
        Ok(())
    }
    let mut out = Vec::new();
    go(e, &IDENTITY, &mut out)?;
    Ok(out)
}

const NUMERIC: [&str; 18] = [
    "width", "height", "x", "y", "cx", "cy", "r", "rx", "ry", "x1", "x2", "y1", "y2", "stroke-width", "opacity", "stroke-opacity", "fill-opacity", "version",
];

/// Checks that the text is one svg element in which every number is finite.
pub fn check_svg(text: &str) -> Result<Element, String> {
    let e = parse(text)?;
    if e.name != "svg" {
        return Err(format!("the element is {:?}", e.name));
    }
    let mut bad = None;
    e.walk(&mut |x| {
        for (n, v) in &x.attrs {
            let r = if NUMERIC.contains(&n.as_str()) {
                number(v).map(|_| ())
            } else if n == "transform" {
                transforms(v).map(|_| ())
            } else if n == "d" {
                path_data(v).map(|_| ())
            } else if n == "points" || n == "viewBox" {
                numbers(v).map(|_| ())
            } else {
                Ok(())
            };
            if let Err(m) = r {
                if bad.is_none() {
                    bad = Some(format!("<{} {n}>: {m}", x.name));
                }
            }
        }
    });
    match bad {
        Some(m) => Err(m),
        None => Ok(e),
    }
}

/// What a path inherits from the elements around it.
#[derive(Clone)]
struct Paint {
    fill: String,
    stroke: String,
    width: String,
    gone: Option<String>,
}

/// Says why a path of at least two points does not appear as a line: it has no stroke, it is
/// filled, or it is hidden. A drawing with a style sheet is not judged.
pub fn not_a_line(e: &Element) -> Option<String> {
    let mut sheet = false;
    e.walk(&mut |x| sheet |= x.name == "style" || x.attr("class").is_some());
    if sheet {
        return None;
    }
    fn zero(v: &str) -> bool {
        v.trim().trim_end_matches("px").trim_end_matches('%').trim().parse::<f64>().is_ok_and(|v| v <= 0.0)
    }
    fn none(v: &str) -> bool {
        matches!(v.trim().to_ascii_lowercase().as_str(), "none" | "transparent")
    }
    fn go(e: &Element, paint: &Paint) -> Option<String> {
        let mut p = paint.clone();
        let style: Vec<(String, String)> = e.attr("style").unwrap_or("").split(';').filter_map(|d| d.split_once(':')).map(|(n, v)| (n.trim().to_string(), v.trim().to_string())).collect();
        for (n, v) in e.attrs.iter().chain(&style) {
            if v.trim() == "inherit" {
                continue;
            }
            let hides = match n.as_str() {
                "fill" => {
                    p.fill = v.clone();
                    false
                }
                "stroke" => {
                    p.stroke = v.clone();
                    false
                }
                "stroke-width" => {
                    p.width = v.clone();
                    false
                }
                "fill-opacity" if zero(v) => {
                    p.fill = String::from("none");
                    false
                }
                "display" => v.trim() == "none",
                "visibility" => matches!(v.trim(), "hidden" | "collapse"),
                "opacity" | "stroke-opacity" => zero(v),
                _ => false,
            };
            if hides {
                p.gone = Some(format!("{n} is {v:?}"));
            }
        }
        let long = match e.name.as_str() {
            "path" => e.attr("d").is_some_and(|d| path_data(d).is_ok_and(|v| v.iter().any(|p| p.len() > 1))),
            "polyline" => e.attr("points").is_some_and(|d| numbers(d).is_ok_and(|v| v.len() > 3)),
            _ => false,
        };
        if long {
            if p.gone.is_some() {
                return p.gone;
            }
            if none(&p.stroke) {
                return Some(String::from("it has no stroke"));
            }
            if zero(&p.width) {
                return Some(format!("its stroke is {:?} wide", p.width));
            }
            if !none(&p.fill) {
                return Some(format!("it is filled with {:?}", p.fill));
            }
        }
        e.children.iter().find_map(|c| go(c, &p))
    }
    go(e, &Paint { fill: String::from("black"), stroke: String::from("none"), width: String::from("1"), gone: None })
}
