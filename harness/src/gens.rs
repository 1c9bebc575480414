//! Generators: model values first, then their spelling as JSON text.

use crate::dict;
use crate::engine::Gen;
use crate::refjson::{self, Span};

/// A string as it is spelled in a JSON text.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct MStr {
    /// with the quotes
    pub quoted: String,
    /// what it denotes; `\b` denotes `b_char()`
    pub dec: String,
    pub esc: bool,
}
impl MStr {
    pub fn body(&self) -> &str {
        &self.quoted[1..self.quoted.len() - 1]
    }
    /// Spelled by the given body; decoded by the reference.
    pub fn from_body(body: &str) -> MStr {
        MStr {
            quoted: format!("\"{body}\""),
            dec: refjson::decode(body, b_char()),
            esc: body.contains('\\'),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum MVal {
    Null,
    Bool(bool),
    Num(String),
    Str(MStr),
    Arr(Vec<MVal>),
    Obj(Vec<(MStr, MVal)>),
}

impl MVal {
    /// nodes in the preorder listing of a document
    pub fn nodes(&self) -> usize {
        match self {
            MVal::Arr(v) => 1 + v.iter().map(MVal::nodes).sum::<usize>(),
            MVal::Obj(v) => 1 + v.iter().map(|(_, v)| 1 + v.nodes()).sum::<usize>(),
            _ => 1,
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            MVal::Arr(v) => 1 + v.iter().map(MVal::depth).max().unwrap_or(0),
            MVal::Obj(v) => 1 + v.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 0,
        }
    }
    pub fn is_container(&self) -> bool {
        matches!(self, MVal::Arr(_) | MVal::Obj(_))
    }
    pub fn visit<'a>(&'a self, f: &mut dyn FnMut(&'a MVal)) {
        f(self);
        match self {
            MVal::Arr(v) => v.iter().for_each(|x| x.visit(f)),
            MVal::Obj(v) => v.iter().for_each(|(_, x)| x.visit(f)),
            _ => {}
        }
    }
    pub fn any_escapes(&self) -> bool {
        let mut r = false;
        self.visit(&mut |v| match v {
            MVal::Str(s) => r |= s.esc,
            MVal::Obj(m) => r |= m.iter().any(|(k, _)| k.esc),
            _ => {}
        });
        r
    }
}

/// What the library takes `\b` to denote. RFC 8259 says U+0008; the library
/// says U+0007 and its unit tests pin that (see known_findings.txt). Any third
/// value is treated as U+0008, so that it shows up as a difference.
pub fn b_char() -> char {
    static B: std::sync::OnceLock<char> = std::sync::OnceLock::new();
    *B.get_or_init(|| {
        if crate::findings::short_escape_b() {
            '\u{7}'
        } else {
            '\u{8}'
        }
    })
}

/// How the library may spell U+0007 besides its correct spellings: `\b`, while
/// that finding is listed and shows.
pub fn bel_as_b() -> bool {
    static B: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
    *B.get_or_init(crate::findings::bel_as_b)
}

// ------------------------------------------------------------------- strings

/// Which characters a string is made of.
#[derive(Clone, Copy, PartialEq)]
pub enum Chars {
    Alpha,
    Ascii,
    Special, // quotes, backslashes, slashes, controls
    Latin1,
    TwoByte,
    ThreeByte,
    Astral,
    Any,
}

pub fn char_of(g: &mut Gen<'_>, class: Chars) -> char {
    match class {
        Chars::Alpha => (b'a' + g.below(26) as u8) as char,
        Chars::Ascii => (0x20 + g.below(0x60) as u8) as char,
        Chars::Special => {
            let k = g.below(8);
            match k {
                0 => '"',
                1 => '\\',
                2 => '/',
                3 => *g.pick(&['\n', '\t', '\r', '\u{8}', '\u{c}', '\u{7}']),
                4 => *g.pick(&['\u{7f}', '\u{0}', '\u{b}', '\u{1f}', '\u{10}', '\u{1b}']),
                _ => char::from(g.below(0x20) as u8),
            }
        }
        Chars::Latin1 => char::from_u32(g.range(0x80, 0xFF) as u32).unwrap(),
        Chars::TwoByte => char::from_u32(g.range(0x80, 0x7FF) as u32).unwrap(),
        Chars::ThreeByte => match g.below(4) {
            0 => *g.pick(&[
                '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{fffd}', '\u{feff}', '\u{2028}',
                '\u{2029}', '\u{fffe}', '\u{fdd0}', '\u{20ac}',
            ]),
            1 => char::from_u32(g.range(0xE000, 0xFFFF) as u32).unwrap(),
            _ => char::from_u32(g.range(0x800, 0xD7FF) as u32).unwrap(),
        },
        Chars::Astral => match g.below(3) {
            0 => *g.pick(&[
                '\u{10000}', '\u{1ffff}', '\u{20000}', '\u{10ffff}', '\u{100000}', '\u{fffff}',
                '\u{1f639}', '\u{2f800}',
            ]),
            _ => char::from_u32(g.range(0x10000, 0x10FFFF) as u32).unwrap(),
        },
        Chars::Any => {
            let c = [
                Chars::Alpha,
                Chars::Ascii,
                Chars::Special,
                Chars::Latin1,
                Chars::TwoByte,
                Chars::ThreeByte,
                Chars::Astral,
            ][g.weighted(&[5, 4, 5, 2, 2, 3, 3])];
            if g.chance(1, 40) {
                return *g.pick(&dict::get().chars);
            }
            char_of(g, c)
        }
    }
}

/// A length around which buffers, chunks or counters might matter.
pub fn edge(g: &mut Gen<'_>) -> usize {
    if g.chance(1, 5) {
        let n = *g.pick(&dict::get().lengths);
        if n <= 2_100 || n <= 70_000 && g.chance(1, 20) {
            return n;
        }
    }
    let base = 1usize << if g.chance(1, 100) { g.range(12, 16) } else { g.range(3, 10) };
    let base = if g.chance(1, 4) { base * 3 / 2 } else { base };
    (base + g.below(5)).saturating_sub(2)
}

/// Rust text: length mostly small, one class or a mixture.
pub fn text(g: &mut Gen<'_>, max: usize) -> String {
    let class = [
        Chars::Alpha,
        Chars::Any,
        Chars::Ascii,
        Chars::Special,
        Chars::Latin1,
        Chars::TwoByte,
        Chars::ThreeByte,
        Chars::Astral,
    ][g.weighted(&[4, 8, 3, 3, 2, 1, 1, 1])];
    if max >= 20 && g.chance(1, 100) {
        // around sizes where buffers or counters might matter
        let unit: String = (0..g.range(1, 3)).map(|_| char_of(g, class)).collect();
        let near = edge(g);
        let last = g.below(3);
        let mut s = unit.repeat((near / unit.len()).saturating_sub(last));
        for _ in 0..last {
            s.push(char_of(g, class));
        }
        while s.len() < near {
            s.push('x');
        }
        return s;
    }
    let n = g.size(max);
    let mut s = String::new();
    for _ in 0..n {
        s.push(char_of(g, class));
    }
    if max >= 4 && g.chance(1, 50) {
        // what the code has a word for
        let w = g.pick(&dict::get().strings);
        match g.below(4) {
            0 => return w.clone(),
            1 => s.push_str(w),
            2 => s.insert_str(0, w),
            _ => {
                let at = g.below(n + 1);
                let at = s.char_indices().nth(at).map_or(s.len(), |(k, _)| k);
                s.insert_str(at, w);
            }
        }
    }
    s
}

fn push_hex(g: &mut Gen<'_>, out: &mut String, v: u32) {
    out.push_str("\\u");
    for k in (0..4).rev() {
        let d = v >> (4 * k) & 15;
        let c = char::from_digit(d, 16).unwrap();
        if c.is_ascii_digit() || !g.bool() {
            out.push(c);
        } else {
            out.push(c.to_ascii_uppercase());
        }
    }
}

pub fn short_escape(c: char) -> Option<char> {
    Some(match c {
        '"' => '"',
        '\\' => '\\',
        '/' => '/',
        '\u{c}' => 'f',
        '\n' => 'n',
        '\r' => 'r',
        '\t' => 't',
        c if c == b_char() => 'b',
        _ => return None,
    })
}

fn needs_escape(c: char) -> bool {
    c < ' ' || c == '"' || c == '\\'
}

/// How a text is spelled: 0 plainest, 1 mixed, 2 everything as \u, 3 short
/// escapes wherever they exist.
pub fn spell(g: &mut Gen<'_>, dec: &str, style: usize) -> MStr {
    let mut body = String::with_capacity(dec.len() + 2);
    body.push('"');
    let mut esc = false;
    for c in dec.chars() {
        let short = short_escape(c);
        // 0 literal, 1 short, 2 unicode
        let how = match style {
            0 => {
                if !needs_escape(c) {
                    0
                } else if short.is_some() {
                    1
                } else {
                    2
                }
            }
            1 => match g.below(4) {
                0 | 1 if !needs_escape(c) => 0,
                0 | 1 | 2 if short.is_some() => 1,
                2 if !needs_escape(c) => 0,
                _ => 2,
            },
            2 => 2,
            _ => {
                if short.is_some() {
                    1
                } else if needs_escape(c) {
                    2
                } else {
                    0
                }
            }
        };
        match how {
            0 => body.push(c),
            1 => {
                esc = true;
                body.push('\\');
                body.push(short.unwrap());
            }
            _ => {
                esc = true;
                let mut u = [0u16; 2];
                for unit in c.encode_utf16(&mut u) {
                    push_hex(g, &mut body, u32::from(*unit));
                }
            }
        }
    }
    body.push('"');
    MStr {
        quoted: body,
        dec: dec.to_string(),
        esc,
    }
}

pub fn mstr(g: &mut Gen<'_>, max: usize) -> MStr {
    let t = text(g, max);
    let style = g.weighted(&[8, 8, 2, 2]);
    spell(g, &t, style)
}

// ------------------------------------------------------------------- numbers

pub fn digits(g: &mut Gen<'_>, n: usize, leading: bool) -> String {
    let mut s = String::with_capacity(n);
    for i in 0..n {
        let lo = usize::from(leading && i == 0 && n > 1);
        s.push((b'0' + g.range(lo, 9) as u8) as char);
    }
    s
}

pub fn number(g: &mut Gen<'_>) -> String {
    let mut s = String::new();
    match g.weighted(&[18, 18, 3, 1]) {
        3 => {
            // one the code has
            let n = *g.pick(&dict::get().ints);
            let n = (n + g.below(3) as u128).saturating_sub(1);
            if g.chance(1, 3) {
                s.push('-');
            }
            s.push_str(&n.to_string());
            s.push_str(g.pick(&["", "", "", ".0", "e0", ".00", ".5", "E1"]));
            return s;
        }
        0 => {
            // plain short integers
            if g.chance(1, 4) {
                s.push('-');
            }
            let n = g.range(1, 3);
            s.push_str(&digits(g, n, true));
            return s;
        }
        1 => {}
        _ => return g.pick(&INTERESTING_NUMBERS).to_string(),
    }
    if g.bool() {
        s.push('-');
    }
    if g.chance(1, 60) {
        // long, in one of its parts
        let n = edge(g);
        let unit = digits(g, 3, true);
        let mut rep = |len: usize| unit.chars().cycle().take(len).collect::<String>();
        match g.below(4) {
            0 => s += &rep(n.saturating_sub(s.len()).max(1)),
            1 => {
                s += "0.";
                s += &rep(n.saturating_sub(s.len()).max(1));
            }
            2 => {
                s += &rep(n / 2 + 1);
                s.push('.');
                s += &rep(n.saturating_sub(s.len()).max(1));
            }
            _ => {
                s += "1e";
                s += &"0".repeat(n.saturating_sub(s.len() + 1));
                s += &digits(g, 1, false);
            }
        }
        return s;
    }
    let n = if g.chance(1, 8) { g.range(10, 45) } else { g.range(1, 6) };
    s.push_str(&digits(g, n, true));
    if g.bool() {
        s.push('.');
        let n = if g.chance(1, 8) { g.range(10, 40) } else { g.range(1, 5) };
        s.push_str(&digits(g, n, false));
    }
    if g.bool() {
        s.push(if g.bool() { 'E' } else { 'e' });
        match g.below(3) {
            0 => {}
            1 => s.push('-'),
            _ => s.push('+'),
        }
        let n = g.range(1, 3);
        s.push_str(&digits(g, n, false));
    }
    s
}

pub const INTERESTING_NUMBERS: [&str; 26] = [
    "0",
    "-0",
    "0.0",
    "-0.0",
    "0e0",
    "0E-0",
    "1e5",
    "1E+5",
    "1.0",
    "-1.50",
    "10",
    "100",
    "9007199254740993",
    "18446744073709551615",
    "18446744073709551616",
    "-9223372036854775808",
    "-9223372036854775809",
    "340282366920938463463374607431768211455",
    "340282366920938463463374607431768211456",
    "1e400",
    "1e-400",
    "4.9e-324",
    "1.7976931348623157e308",
    "0.1",
    "0e999999999999",
    "123456789012345678901234567890.123456789e-20",
];

// --------------------------------------------------------------------- trees

/// Bounds for a generated tree.
#[derive(Clone, Copy)]
pub struct Shape {
    pub depth: usize,
    pub width: usize,
    pub budget: usize,
    pub text: usize,
}

fn scalar(g: &mut Gen<'_>, sh: &Shape, strings_only: bool) -> MVal {
    match if strings_only { 3 } else { g.weighted(&[2, 2, 4, 5]) } {
        0 => MVal::Null,
        1 => MVal::Bool(g.bool()),
        2 => MVal::Num(number(g)),
        _ => MVal::Str(mstr(g, sh.text)),
    }
}

fn tree(g: &mut Gen<'_>, sh: &Shape, depth: usize, budget: &mut usize, keys: &mut Vec<MStr>) -> MVal {
    let k = if depth == 0 || *budget == 0 {
        0
    } else {
        // the root is mostly a container
        let w = if depth == sh.depth { 1 } else { 4 };
        g.weighted(&[w, 3, 3])
    };
    if k == 0 {
        return scalar(g, sh, false);
    }
    let n = g.size(sh.width).min(*budget);
    *budget -= n;
    if k == 1 {
        MVal::Arr((0..n).map(|_| tree(g, sh, depth - 1, budget, keys)).collect())
    } else {
        let mut m = Vec::with_capacity(n);
        for _ in 0..n {
            // duplicate keys, possibly spelled differently, are common
            let key = if !keys.is_empty() && g.chance(1, 4) {
                let k = g.below(keys.len());
                let dec = keys[k].dec.clone();
                let style = g.weighted(&[4, 4, 1, 1]);
                spell(g, &dec, style)
            } else {
                mstr(g, sh.text.min(30))
            };
            if keys.len() < 8 {
                keys.push(key.clone());
            }
            m.push((key, tree(g, sh, depth - 1, budget, keys)));
        }
        MVal::Obj(m)
    }
}

/// A spine of `depth` containers with a tree at the end.
pub fn spine(g: &mut Gen<'_>, depth: usize, leaf: MVal) -> MVal {
    let style = g.below(3);
    let mut v = leaf;
    for _ in 0..depth {
        let obj = match style {
            0 => false,
            1 => true,
            _ => g.bool(),
        };
        let extra = g.chance(1, 8);
        v = if obj {
            let mut m = Vec::new();
            if extra {
                m.push((mstr(g, 3), MVal::Null));
            }
            m.push((mstr(g, 3), v));
            MVal::Obj(m)
        } else {
            let mut m = vec![v];
            if extra {
                m.insert(0, MVal::Bool(true));
            }
            MVal::Arr(m)
        };
    }
    v
}

/// The general tree generator. `max_depth` bounds the nesting.
pub fn value(g: &mut Gen<'_>, max_depth: usize) -> MVal {
    let mut v = fresh_value(g, max_depth);
    if v.is_container() && g.chance(1, 8) {
        for _ in 0..g.range(1, 2) {
            echo(g, &mut v);
        }
    }
    v
}

/// Copies a part of a container next to itself.
fn echo(g: &mut Gen<'_>, v: &mut MVal) {
    match v {
        MVal::Arr(x) if !x.is_empty() => {
            let i = g.below(x.len());
            if x[i].is_container() && g.bool() {
                return echo(g, &mut x[i]);
            }
            let at = if g.chance(3, 4) { i + 1 } else { g.below(x.len() + 1) };
            x.insert(at, x[i].clone());
        }
        MVal::Obj(x) if !x.is_empty() => {
            let i = g.below(x.len());
            if x[i].1.is_container() && g.bool() {
                return echo(g, &mut x[i].1);
            }
            let at = if g.chance(3, 4) { i + 1 } else { g.below(x.len() + 1) };
            let key = if g.bool() { x[i].0.clone() } else { mstr(g, 6) };
            x.insert(at, (key, x[i].1.clone()));
        }
        _ => {}
    }
}

fn fresh_value(g: &mut Gen<'_>, max_depth: usize) -> MVal {
    let mut keys = Vec::new();
    match g.weighted(&[20, 40, 4, 2, 2, 8, if max_depth > 1 { 3 } else { 0 }]) {
        0 => {
            // tiny
            let sh = Shape { depth: max_depth.min(2), width: 3, budget: 5, text: 6 };
            let mut b = sh.budget;
            tree(g, &sh, sh.depth, &mut b, &mut keys)
        }
        1 => {
            let sh = Shape { depth: max_depth.min(5), width: 8, budget: 30, text: 20 };
            let mut b = sh.budget;
            tree(g, &sh, sh.depth, &mut b, &mut keys)
        }
        2 => {
            // large
            let sh = Shape { depth: max_depth.min(7), width: 100, budget: 300, text: 200 };
            let mut b = sh.budget;
            tree(g, &sh, sh.depth, &mut b, &mut keys)
        }
        3 => {
            // deep
            let d = g.range(0, max_depth);
            let d = if g.bool() { max_depth - d.min(max_depth).min(4) } else { d };
            let sh = Shape { depth: 0, width: 0, budget: 0, text: 10 };
            let leaf = if g.bool() {
                scalar(g, &sh, false)
            } else if g.bool() {
                MVal::Arr(vec![])
            } else {
                MVal::Obj(vec![])
            };
            let d = if leaf.is_container() { d.saturating_sub(1) } else { d };
            spine(g, d, leaf)
        }
        4 => {
            // wide and flat
            if max_depth == 0 {
                return scalar(g, &Shape { depth: 0, width: 0, budget: 0, text: 2000 }, true);
            }
            let n = if g.bool() { edge(g) } else { g.range(100, 700) };
            let proto = scalar(g, &Shape { depth: 0, width: 0, budget: 0, text: 4 }, false);
            // all alike, or each element its own, or small containers
            let how = g.weighted(if max_depth > 1 { &[3, 3, 1, 1, 1] } else { &[3, 3] });
            let last = g.below(n.max(1));
            let element = |i: usize| {
                let own = MVal::Num(i.to_string());
                match how {
                    0 => proto.clone(),
                    1 => own,
                    2 => MVal::Arr(vec![own; i % 3]),
                    3 => MVal::Obj(vec![(MStr::from_body(&(i % 10).to_string()), own); i % 3]),
                    _ if i == last => MVal::Arr(vec![proto.clone(), own]),
                    _ => MVal::Arr(vec![]),
                }
            };
            if g.bool() {
                MVal::Arr((0..n).map(element).collect())
            } else {
                MVal::Obj((0..n).map(|i| (MStr::from_body(&i.to_string()), element(i))).collect())
            }
        }
        6 => {
            // a table: rows of one shape
            let (rows, columns) = (g.range(1, 5), if g.chance(1, 4) { g.range(16, 80) } else { g.range(1, 12) });
            let sh = Shape { depth: 0, width: 0, budget: 0, text: 6 };
            let row: Vec<(MStr, MVal)> = (0..columns)
                .map(|i| {
                    let key = if g.chance(1, 10) { mstr(g, 6) } else { MStr::from_body(&i.to_string()) };
                    (key, if g.chance(1, 4) { scalar(g, &sh, false) } else { MVal::Num(i.to_string()) })
                })
                .collect();
            let (objects, listed, alike) = (g.bool(), g.bool(), g.chance(2, 3));
            let made = |g: &mut Gen<'_>| {
                let mut row = row.clone();
                if !alike {
                    let i = g.below(row.len());
                    row[i].1 = scalar(g, &sh, false);
                }
                if objects {
                    MVal::Obj(row)
                } else {
                    MVal::Arr(row.into_iter().map(|x| x.1).collect())
                }
            };
            if listed {
                MVal::Arr((0..rows).map(|_| made(g)).collect())
            } else {
                MVal::Obj((0..rows).map(|i| (MStr::from_body(&format!("row {i}")), made(g))).collect())
            }
        }
        _ => scalar(g, &Shape { depth: 0, width: 0, budget: 0, text: 60 }, false),
    }
}

// ---------------------------------------------------------------- whitespace

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Ws {
    None,
    Light,
    Heavy,
}

pub fn ws_style(g: &mut Gen<'_>) -> Ws {
    [Ws::None, Ws::Light, Ws::Heavy][g.weighted(&[3, 4, 2])]
}

pub fn ws(g: &mut Gen<'_>, style: Ws, out: &mut String) {
    const C: [char; 4] = [' ', '\t', '\n', '\r'];
    match style {
        Ws::None => {}
        Ws::Light => {
            if g.chance(1, 3) {
                let c = *g.pick(&C);
                out.push(c);
            }
        }
        Ws::Heavy => {
            if g.chance(1, 400) {
                // a long run
                let c = *g.pick(&C);
                out.extend(std::iter::repeat_n(c, edge(g)));
            }
            let n = if g.chance(1, 12) { g.range(4, 40) } else { g.below(4) };
            for _ in 0..n {
                let c = *g.pick(&C);
                out.push(c);
            }
        }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum SpanKind {
    Key,
    Str,
    Num,
    Other,
}

/// A spelled text and where its tokens are.
#[derive(Clone, Debug)]
pub struct Text {
    pub s: String,
    /// every token with its span (strings with their quotes), in source order
    pub toks: Vec<(SpanKind, Span)>,
}

impl Text {
    fn tok(&mut self, kind: SpanKind, t: &str) {
        let lo = self.s.len();
        self.s.push_str(t);
        self.toks.push((kind, Span { lo, hi: self.s.len() }));
    }
}

/// Spells a value. With `trailing` set, a comma may follow the last member of
/// any non-empty container; the number of those is returned.
pub fn emit(g: &mut Gen<'_>, v: &MVal, style: Ws, trailing: bool) -> (Text, usize) {
    let mut t = Text { s: String::new(), toks: Vec::new() };
    let mut n = 0;
    ws(g, style, &mut t.s);
    emit_into(g, v, style, trailing, &mut t, &mut n);
    ws(g, style, &mut t.s);
    (t, n)
}

fn emit_into(g: &mut Gen<'_>, v: &MVal, style: Ws, trailing: bool, t: &mut Text, n: &mut usize) {
    match v {
        MVal::Null => t.tok(SpanKind::Other, "null"),
        MVal::Bool(true) => t.tok(SpanKind::Other, "true"),
        MVal::Bool(false) => t.tok(SpanKind::Other, "false"),
        MVal::Num(s) => t.tok(SpanKind::Num, s),
        MVal::Str(s) => t.tok(SpanKind::Str, &s.quoted),
        MVal::Arr(items) => {
            t.tok(SpanKind::Other, "[");
            ws(g, style, &mut t.s);
            for (i, it) in items.iter().enumerate() {
                if i > 0 {
                    t.tok(SpanKind::Other, ",");
                    ws(g, style, &mut t.s);
                }
                emit_into(g, it, style, trailing, t, n);
                ws(g, style, &mut t.s);
            }
            if trailing && !items.is_empty() && g.bool() {
                *n += 1;
                t.tok(SpanKind::Other, ",");
                ws(g, style, &mut t.s);
            }
            t.tok(SpanKind::Other, "]");
        }
        MVal::Obj(items) => {
            t.tok(SpanKind::Other, "{");
            ws(g, style, &mut t.s);
            for (i, (k, it)) in items.iter().enumerate() {
                if i > 0 {
                    t.tok(SpanKind::Other, ",");
                    ws(g, style, &mut t.s);
                }
                t.tok(SpanKind::Key, &k.quoted);
                ws(g, style, &mut t.s);
                t.tok(SpanKind::Other, ":");
                ws(g, style, &mut t.s);
                emit_into(g, it, style, trailing, t, n);
                ws(g, style, &mut t.s);
            }
            if trailing && !items.is_empty() && g.bool() {
                *n += 1;
                t.tok(SpanKind::Other, ",");
                ws(g, style, &mut t.s);
            }
            t.tok(SpanKind::Other, "}");
        }
    }
}

/// A valid text with its model.
pub fn valid_text(g: &mut Gen<'_>, max_depth: usize) -> (MVal, Text) {
    let v = value(g, max_depth);
    let style = ws_style(g);
    let (t, _) = emit(g, &v, style, false);
    (v, t)
}

// ------------------------------------------------------------- invalid texts

const SOUP: [&str; 46] = [
    "{", "}", "[", "]", ",", ":", "\"\"", "\"a\"", "1", "0", "-1", "true", "false", "null", " ",
    "\n", "{\"a\":1}", "[]", "{}", "[1,2]", "\"\\n\"", "1.5", "1e5", "tru", "nul", "-", "1.", "01",
    "\"", "\\", "\"\\u00", "\"\\ud800\"", "\"\\udc00\"", "\"\\ud83d\\ude39\"", "+1", ".5", "'a'",
    "/**/", "//", "NaN", "\u{feff}", "\u{a0}", "\t", "\r", "\u{c}", "\"k\":",
];

/// What other notations that look like JSON have and JSON has not (with a few
/// pieces that are fine, for contrast).
pub const DIALECT: [&str; 217] = [
    // words
    "NaN", "nan", "NAN", "-NaN", "-nan", "inf", "Inf", "INF", "-inf", "-Inf", "-INF", "+inf", "Infinity", "infinity",
    "-Infinity", "-infinity", "+Infinity", "1.#INF", "1.#QNAN", "-1.#IND", "undefined", "None", "nil", "Nil", "NULL",
    "Null", "null", "nUll", "True", "TRUE", "true", "tRUE", "False", "FALSE", "false", "yes", "no", "on", "off", "t",
    "f", "n", "N", "Y", "~", "void", "void 0", "()", "_", "$", "#t", "#f", "nullptr", "NA", "N/A", "default",
    // comments and layout
    "//", "// x\n", "//\n", "/*", "*/", "/* x */", "/**/", "/***/", "/*/", "#", "# x\n", "#!x\n", "--", "-- x\n", "%",
    "% x\n", ";", "; x\n", "<!--", "<!-- x -->", "<!-- x\n", "-->", "\\\n", "\\\r\n", "\u{b}", "\u{c}", "\u{8}", "\u{7f}",
    "\u{0}", "\u{1a}", "\u{1b}", "\u{1e}", "\u{1f}", "\u{85}", "\u{a0}", "\u{ad}", "\u{1680}", "\u{180e}", "\u{2000}",
    "\u{2003}", "\u{2007}", "\u{200b}", "\u{200d}", "\u{200e}", "\u{2028}", "\u{2029}", "\u{202f}", "\u{205f}", "\u{2060}",
    "\u{3000}", "\u{feff}", "\u{fffe}", "\u{fffd}", "\u{e000}", "\n", "\r", "\r\n", "\t", " ", "...", ",...", "\u{2026}",
    // strings
    "'a'", "'", "`a`", "`", "\u{201c}a\u{201d}", "\u{2018}a\u{2019}", "\"\"\"", "'''", "\"a", "a\"", "r\"a\"", "u\"a\"",
    "b\"a\"", "@\"a\"", "\"a\"+\"b\"", "\"a\" \"b\"", "\"\"", "\"a\"", "a", "a b", "a1", "a-b", "a.b", "$a", "@a", ":a",
    "\\u0061", "\\x41", "\\x", "\\u{41}", "\\u{1F600}", "\\U0001F600", "\\u+041", "\\u 041", "\\u00e", "\\u0x41", "\\u00_1",
    "\\uD83D", "\\uDE00", "\\uD83D\\uDE00", "\\ud83d\\x", "\\'", "\\`", "\\0", "\\00", "\\012", "\\1", "\\v", "\\V", "\\a", "\\e",
    "\\E", "\\s", "\\z", "\\N", "\\B", "\\T", "\\R", "\\F", "\\ ", "\\?", "\\&", "\\#", "\\$", "\\(a)", "\\{", "\\t", "\\n", "\\/", "\\\\",
    "\\\"", "${a}", "%20", "&quot;", "&amp;",
    // separators
    "=", "=>", ":=", "::", "->", "|", ",,", "&", ":", ",", "}", "]",
    // before and after the text
    ")]}'", ")]}',\n", "while(1);", "for(;;);", "f(", ");", "data: ", "json=", "\u{1}",
    // dates, paths and such
    "2020-01-01", "12:30", "/a/",
];

/// Numbers other notations have (and some that are fine).
pub const NUMERALS: [&str; 92] = [
    "+1", "+0", "-+1", "--1", "++1", "+-1", "- 1", "+ 1", "01", "-01", "00", "-00", "000", "08", "0.", "-0.", "1.",
    "-1.", ".5", "-.5", "+.5", ".", "-.", "1..2", "1.2.3", "1e", "1e+", "1e-", "1.e1", "1.E+1", ".e1", "e1", "-e1", "E1",
    "1e1.5", "1e.5", "1e1e1", "1ee1", "1e+-1", "1e--1", "1e 1", "1 e1", "1. 5", "1 .5", "1 000", "1_000", "1__0", "_1",
    "1_", "1,000", "1'000", "0x1F", "0X1f", "-0x1", "0x", "0b101", "0B1", "0o17", "0O7", "1h", "1f", "1F", "1d", "1D",
    "1L", "1l", "1u", "1ul", "1n", "1i", "1j", "1m", "1%", "$1", "1p3", "0x1p3", "1^2", "1**2", "1/2", "1+1", "1-1",
    "1*1", "1e400", "-1e-400", "1e0", "1E+00", "0e0", "-0", "0.0", "\u{661}", "\u{ff11}", "\u{b2}",
];

/// A sequence of fragments, mostly ill-formed as a text.
pub fn soup(g: &mut Gen<'_>) -> Vec<u8> {
    let n = g.size(30);
    let mut out = Vec::new();
    for _ in 0..n {
        let k = g.weighted(&[20, 20, 2, 2, 1, 1]);
        match k {
            5 => out.extend_from_slice(g.pick(&dict::get().pieces).as_bytes()),
            0 => out.extend_from_slice(SOUP[g.below(14)].as_bytes()),
            1 => out.extend_from_slice(g.pick(&SOUP).as_bytes()),
            3 => out.extend_from_slice(g.pick(&DIALECT).as_bytes()),
            4 => out.extend_from_slice(g.pick(&NUMERALS).as_bytes()),
            _ => out.push(g.below(256) as u8),
        }
    }
    out
}

const NASTY: [u8; 40] = [
    b'{', b'}', b'[', b']', b',', b':', b'"', b'\\', b'/', b'0', b'1', b'9', b'-', b'+', b'.', b'e',
    b'E', b'u', b't', b'n', b' ', b'\n', b'\t', b'\r', 0x0b, 0x0c, 0x00, 0x1f, 0x7f, 0x80, 0xbf,
    0xc2, 0xe0, 0xed, 0xf0, 0xf4, 0xff, b'a', b'f', b'D',
];

/// Applies one random edit.
pub fn mutate(g: &mut Gen<'_>, b: &mut Vec<u8>) {
    let n = b.len();
    let byte = |g: &mut Gen<'_>| {
        if g.chance(1, 4) {
            g.below(256) as u8
        } else {
            *g.pick(&NASTY)
        }
    };
    match g.weighted(&[6, 6, 6, 3, 2, 2, 3, 2]) {
        0 => {
            let i = g.range(0, n);
            let c = byte(g);
            b.insert(i, c);
        }
        1 if n > 0 => {
            let i = g.below(n);
            b.remove(i);
        }
        2 if n > 0 => {
            let i = g.below(n);
            b[i] = byte(g);
        }
        3 if n > 0 => {
            let i = g.below(n);
            b.truncate(i);
        }
        4 if n > 1 => {
            let i = g.below(n - 1);
            b.swap(i, i + 1);
        }
        5 if n > 0 => {
            // duplicate a piece
            let i = g.below(n);
            let j = (i + g.range(1, 8)).min(n);
            let piece = b[i..j].to_vec();
            let at = g.range(0, n);
            b.splice(at..at, piece);
        }
        6 => {
            let i = g.range(0, n);
            let frag = match g.below(5) {
                4 => *g.pick(&dict::get().pieces),
                0 => *g.pick(&DIALECT),
                1 => *g.pick(&NUMERALS),
                _ => *g.pick(&SOUP),
            };
            let frag = frag.as_bytes().to_vec();
            b.splice(i..i, frag);
        }
        7 if n > 0 => {
            // remove a piece
            let i = g.below(n);
            let j = (i + g.range(1, 8)).min(n);
            b.drain(i..j);
        }
        _ => {
            let c = byte(g);
            b.push(c);
        }
    }
}

/// Any input at all: valid, nearly valid, soup, raw bytes, deep, long.
/// The returned model is present when the text was left valid.
pub fn any_input(g: &mut Gen<'_>, max_depth: usize) -> (Vec<u8>, Option<MVal>) {
    match g.weighted(&[30, 40, 15, 8, 3, 2]) {
        0 => {
            let (v, t) = valid_text(g, max_depth);
            (t.s.into_bytes(), Some(v))
        }
        1 => {
            let (_, t) = valid_text(g, max_depth.min(6));
            let mut b = t.s.into_bytes();
            let n = [1, 1, 1, 2, 3][g.below(5)];
            for _ in 0..n {
                mutate(g, &mut b);
            }
            (b, None)
        }
        2 => (soup(g), None),
        3 => {
            let n = g.size(40);
            ((0..n).map(|_| g.below(256) as u8).collect(), None)
        }
        4 => {
            // brackets around the default limit and far beyond, maybe unbalanced
            let d = if g.chance(1, 8) { g.range(1000, 60_000) } else { g.range(120, 136) };
            let close = if g.bool() { d } else { g.range(0, d) };
            let mut b = Vec::new();
            let obj = g.bool();
            for i in 0..d {
                if obj && i % 2 == 0 {
                    b.extend_from_slice(b"{\"\":");
                } else {
                    b.push(b'[');
                }
            }
            if obj && d % 2 == 1 {
                b.push(b'1');
            }
            for i in (0..d).rev().take(close) {
                b.push(if obj && i % 2 == 0 { b'}' } else { b']' });
            }
            (b, None)
        }
        _ => {
            // invalid UTF-8 inside a string
            let mut b = b"\"".to_vec();
            let n = g.range(0, 6);
            for _ in 0..n {
                let t = text(g, 4);
                b.extend_from_slice(t.replace(['"', '\\'], "x").as_bytes());
                let piece: &[u8] = *g.pick(&[
                    &b"\x80"[..],
                    b"\xc0\x80",
                    b"\xc2",
                    b"\xe2\x82",
                    b"\xed\xa0\x80",
                    b"\xed\xbf\xbf",
                    b"\xf0\x9f\x98",
                    b"\xf4\x90\x80\x80",
                    b"\xf5\x80\x80\x80",
                    b"\xff",
                    b"\xe0\x80\x80",
                    b"\xf0\x80\x80\x80",
                    b"\xc3\xa9",
                    b"\xef\xbf\xbf",
                ]);
                b.extend_from_slice(piece);
            }
            if g.chance(3, 4) {
                b.push(b'"');
            }
            (b, None)
        }
    }
}

/// A parser configuration; limits cluster around `near`.
pub fn config(g: &mut Gen<'_>, near: usize) -> refjson::Config {
    refjson::Config {
        trailing_commas: g.bool(),
        any_root: !g.bool(),
        limit: match g.below(5) {
            0 => Some(128),
            1 => Some(near),
            2 => Some(near.saturating_sub(1)),
            3 => Some(near + 1),
            _ => Some(g.below(6)),
        },
    }
}
