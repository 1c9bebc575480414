//! Bridges between the models and justjson's types.

use crate::engine::{fail, Gen, R};
use crate::gens::{self, MStr, MVal};
use crate::refjson::{Config, Ev, Span, FK};
use crate::{check, same};
use justjson::doc::Node;
use justjson::parser::{JsonKind, ParseConfig, Token};
use justjson::{Entry, Error, ErrorKind, JsonNumber, JsonString, Object, Value};

pub fn lib_config(c: Config) -> ParseConfig {
    let mut p = ParseConfig::new().allowing_all_types_at_root(c.any_root);
    if c.trailing_commas {
        p = p.allowing_trailing_commas();
    }
    match c.limit {
        Some(n) => p.with_recursion_limit(n),
        None => p.without_recursion_limit(),
    }
}

/// The kind of an error in the reference's vocabulary; None for the kinds the
/// parser itself has no use for.
pub fn fk<T>(k: &ErrorKind<T>) -> Option<FK> {
    Some(match k {
        ErrorKind::Utf8 => FK::Utf8,
        ErrorKind::UnexpectedEof => FK::Eof,
        ErrorKind::ExpectedObjectKey => FK::ObjectKey,
        ErrorKind::ExpectedColon => FK::Colon,
        ErrorKind::ExpectedCommaOrEndOfObject => FK::CommaObject,
        ErrorKind::ExpectedCommaOrEndOfArray => FK::CommaArray,
        ErrorKind::IllegalTrailingComma => FK::TrailingComma,
        ErrorKind::Unexpected(b) => FK::Unexpected(*b),
        ErrorKind::TrailingNonWhitespace => FK::TrailingData,
        ErrorKind::ObjectKeysMustBeStrings => FK::KeysMustBeStrings,
        ErrorKind::ExpectedExponent => FK::Exponent,
        ErrorKind::ExpectedDecimalDigit => FK::DecimalDigit,
        ErrorKind::ExpectedDigit => FK::Digit,
        ErrorKind::InvalidHexadecimal => FK::Hex,
        ErrorKind::InvalidEscape => FK::Escape,
        ErrorKind::UnclosedObject => FK::UnclosedObject,
        ErrorKind::UnclosedArray => FK::UnclosedArray,
        ErrorKind::UnclosedString => FK::UnclosedString,
        ErrorKind::RecursionLimitReached => FK::Recursion,
        ErrorKind::PayloadsShouldBeObjectOrArray => FK::RootKind,
        _ => return None,
    })
}

pub fn err_pair<T: std::fmt::Debug>(e: &Error<T>) -> (String, usize) {
    (format!("{:?}", e.kind()), e.offset())
}

pub fn kind_of(v: &Value<'_>) -> JsonKind {
    match v {
        Value::Null => JsonKind::Null,
        Value::Boolean(_) => JsonKind::Boolean,
        Value::Number(_) => JsonKind::Number,
        Value::String(_) => JsonKind::String,
        Value::Object(_) => JsonKind::Object,
        Value::Array(_) => JsonKind::Array,
    }
}
pub fn model_kind(v: &MVal) -> JsonKind {
    match v {
        MVal::Null => JsonKind::Null,
        MVal::Bool(_) => JsonKind::Boolean,
        MVal::Num(_) => JsonKind::Number,
        MVal::Str(_) => JsonKind::String,
        MVal::Obj(_) => JsonKind::Object,
        MVal::Arr(_) => JsonKind::Array,
    }
}

/// A parsed string holds exactly the spelling and the text of the model.
pub fn str_matches(s: &JsonString<'_>, m: &MStr) -> R {
    same!(s.as_json_str().map(|a| a.as_str()), Some(m.body()), "source of string {}", m.quoted);
    check!(
        s.decoded().eq(m.dec.chars()),
        "string {} decodes to {:?}, expected {:?}",
        m.quoted,
        s.decoded().collect::<String>(),
        m.dec
    );
    Ok(())
}

/// A parsed value is exactly the model, spelling included.
pub fn value_matches(v: &Value<'_>, m: &MVal) -> R {
    match (v, m) {
        (Value::Null, MVal::Null) => Ok(()),
        (Value::Boolean(a), MVal::Bool(b)) if a == b => Ok(()),
        (Value::Number(n), MVal::Num(t)) => {
            same!(n.source(), t.as_str(), "number");
            Ok(())
        }
        (Value::String(s), MVal::Str(t)) => str_matches(s, t),
        (Value::Array(a), MVal::Arr(b)) => {
            same!(a.len(), b.len(), "array length");
            for (x, y) in a.iter().zip(b) {
                value_matches(x, y)?;
            }
            Ok(())
        }
        (Value::Object(a), MVal::Obj(b)) => {
            same!(a.len(), b.len(), "object length");
            for (x, (k, y)) in a.iter().zip(b) {
                str_matches(&x.key, k)?;
                value_matches(&x.value, y)?;
            }
            Ok(())
        }
        _ => fail(format!("value {v:?} where {m:?} was expected")),
    }
}

/// The preorder listing of a model.
#[derive(Debug, Clone, Copy)]
pub enum MNode<'m> {
    Null,
    Bool(bool),
    Num(&'m str),
    Str(&'m MStr),
    Obj(usize),
    Arr(usize),
}
pub fn preorder<'m>(m: &'m MVal, out: &mut Vec<MNode<'m>>) {
    match m {
        MVal::Null => out.push(MNode::Null),
        MVal::Bool(b) => out.push(MNode::Bool(*b)),
        MVal::Num(n) => out.push(MNode::Num(n)),
        MVal::Str(s) => out.push(MNode::Str(s)),
        MVal::Arr(v) => {
            out.push(MNode::Arr(v.len()));
            v.iter().for_each(|x| preorder(x, out));
        }
        MVal::Obj(v) => {
            out.push(MNode::Obj(v.len()));
            for (k, x) in v {
                out.push(MNode::Str(k));
                preorder(x, out);
            }
        }
    }
}
pub fn node_matches(n: &Node<'_>, m: &MNode<'_>) -> R {
    match (n, m) {
        (Node::Null, MNode::Null) => Ok(()),
        (Node::Boolean(a), MNode::Bool(b)) if a == b => Ok(()),
        (Node::Number(a), MNode::Num(b)) => {
            same!(a.source(), *b, "number node");
            Ok(())
        }
        (Node::String(a), MNode::Str(b)) => str_matches(a, b),
        (Node::Object { length }, MNode::Obj(n)) if length == n => Ok(()),
        (Node::Array { length }, MNode::Arr(n)) if length == n => Ok(()),
        _ => fail(format!("node {n:?} where {m:?} was expected")),
    }
}

pub fn token_name(t: &Token<'_>) -> &'static str {
    match t {
        Token::Null => "null",
        Token::Bool(true) => "true",
        Token::Bool(false) => "false",
        Token::String(_) => "string",
        Token::Number(_) => "number",
        Token::Object => "{",
        Token::ObjectEnd => "}",
        Token::Array => "[",
        Token::ArrayEnd => "]",
        Token::Colon => ":",
        Token::Comma => ",",
    }
}

// ------------------------------------------------ values built from models

/// A JsonString denoting `m.dec`, in one of its representations: 0 parsed,
/// 1 from borrowed text, 2 from owned text, 3 parsed and detached through an
/// owned copy of its text.
pub fn build_str<'m>(m: &'m MStr, how: usize) -> JsonString<'m> {
    match how {
        0 => JsonString::from_json(&m.quoted).expect("model string parses"),
        1 => JsonString::from(m.dec.as_str()),
        _ => JsonString::from(m.dec.clone()),
    }
}

/// Builds the value through the constructors, without parsing containers.
/// `sources` records, in printing order, how each string was built.
pub fn build<'m>(g: &mut Gen<'_>, m: &'m MVal, code_only: bool) -> Value<'m> {
    let how = |g: &mut Gen<'_>| {
        if code_only {
            1 + g.below(2)
        } else {
            g.below(3)
        }
    };
    match m {
        MVal::Null => Value::Null,
        MVal::Bool(b) => Value::from(*b),
        MVal::Num(n) => Value::Number(JsonNumber::from_json(n).expect("model number parses")),
        MVal::Str(s) => match how(g) {
            0 => Value::from(build_str(s, 0)),
            1 => Value::from(s.dec.as_str()),
            _ => Value::from(s.dec.clone()),
        },
        MVal::Arr(v) => Value::from(v.iter().map(|x| build(g, x, code_only)).collect::<Vec<_>>()),
        MVal::Obj(v) => {
            let form = g.below(3);
            match form {
                0 => {
                    let mut o = Object::with_capacity(g.below(4));
                    for (k, x) in v {
                        let key = {
                            let h = how(g);
                            build_str(k, h)
                        };
                        let val = build(g, x, code_only);
                        o.push(Entry::new(key, val));
                    }
                    Value::from(o)
                }
                1 => {
                    let mut pairs = Vec::new();
                    for (k, x) in v {
                        let h = how(g);
                        pairs.push((build_str(k, h), build(g, x, code_only)));
                    }
                    Value::Object(pairs.into_iter().collect::<Object<'m>>())
                }
                _ => {
                    let mut entries = Vec::new();
                    for (k, x) in v {
                        let h = how(g);
                        entries.push(Entry {
                            key: build_str(k, h),
                            value: build(g, x, code_only),
                        });
                    }
                    Value::Object(Object::from_iter(entries))
                }
            }
        }
    }
}

/// A value equals the model structurally (spelling of strings ignored).
pub fn value_means(v: &Value<'_>, m: &MVal) -> R {
    match (v, m) {
        (Value::Null, MVal::Null) => Ok(()),
        (Value::Boolean(a), MVal::Bool(b)) if a == b => Ok(()),
        (Value::Number(n), MVal::Num(t)) if n.source() == t => Ok(()),
        (Value::String(s), MVal::Str(t)) if s.decoded().eq(t.dec.chars()) => Ok(()),
        (Value::Array(a), MVal::Arr(b)) => {
            same!(a.len(), b.len(), "array length");
            for (x, y) in a.iter().zip(b) {
                value_means(x, y)?;
            }
            Ok(())
        }
        (Value::Object(a), MVal::Obj(b)) => {
            same!(a.len(), b.len(), "object length");
            for (x, (k, y)) in a.iter().zip(b) {
                check!(x.key.decoded().eq(k.dec.chars()), "key {:?} where {:?} was expected", x.key, k);
                value_means(&x.value, y)?;
            }
            Ok(())
        }
        _ => fail(format!("value {v:?} where {m:?} was expected")),
    }
}

// ------------------------------------------------------ own pretty printer

/// The layout the documentation states, with the given spelling of strings.
pub fn layout(v: &Value<'_>, pretty: Option<(&str, &str)>) -> Result<String, crate::engine::Fail> {
    fn lit(s: &JsonString<'_>, out: &mut String) {
        out.push('"');
        out.extend(s.as_json());
        out.push('"');
    }
    fn line(out: &mut String, pretty: Option<(&str, &str)>, level: usize) {
        if let Some((indent, eol)) = pretty {
            out.push_str(eol);
            for _ in 0..level {
                out.push_str(indent);
            }
        }
    }
    fn go(v: &Value<'_>, pretty: Option<(&str, &str)>, level: usize, out: &mut String) {
        match v {
            Value::Null => out.push_str("null"),
            Value::Boolean(true) => out.push_str("true"),
            Value::Boolean(false) => out.push_str("false"),
            Value::Number(n) => out.push_str(n.source()),
            Value::String(s) => lit(s, out),
            Value::Array(a) if a.is_empty() => out.push_str("[]"),
            Value::Object(o) if o.is_empty() => out.push_str("{}"),
            Value::Array(a) => {
                let mut sep = "[";
                for x in a {
                    out.push_str(sep);
                    line(out, pretty, level + 1);
                    go(x, pretty, level + 1, out);
                    sep = ",";
                }
                line(out, pretty, level);
                out.push(']');
            }
            Value::Object(o) => {
                let mut sep = "{";
                for e in o.iter() {
                    out.push_str(sep);
                    line(out, pretty, level + 1);
                    lit(&e.key, out);
                    out.push_str(if pretty.is_some() { ": " } else { ":" });
                    go(&e.value, pretty, level + 1, out);
                    sep = ",";
                }
                line(out, pretty, level);
                out.push('}');
            }
        }
    }
    let mut out = String::new();
    go(v, pretty, 0, &mut out);
    Ok(out)
}

// ----------------------------------------------------------- span helpers

/// The offset range of `part` within `whole`, if it lies inside it.
pub fn span_in(whole: &[u8], part: &str) -> Option<Span> {
    let base = whole.as_ptr() as usize;
    let p = part.as_ptr() as usize;
    let lo = p.checked_sub(base)?;
    let hi = lo.checked_add(part.len())?;
    if hi <= whole.len() {
        Some(Span { lo, hi })
    } else {
        None
    }
}

/// Is every byte of this text well-formed UTF-8? (Checked on the bytes.)
pub fn utf8_ok(s: &str) -> bool {
    let b = std::hint::black_box(s.as_bytes());
    let mut i = 0;
    while i < b.len() {
        if b[i] < 0x80 {
            i += 1;
            continue;
        }
        let n = crate::refjson::utf8_len(&b[i..]);
        if n == 0 {
            return false;
        }
        i += n;
    }
    true
}
pub fn scalar_ok(c: char) -> bool {
    let v: u32 = std::hint::black_box(c as u32);
    v < 0xD800 || (0xE000..0x11_0000).contains(&v)
}

pub fn show_events(ev: &[Ev]) -> String {
    format!("{ev:?}")
}

pub fn show_config(c: &Config) -> String {
    format!(
        "trailing_commas={} limit={:?} any_root={}",
        c.trailing_commas, c.limit, c.any_root
    )
}

pub fn gen_cfg(g: &mut Gen<'_>, near: usize) -> Config {
    gens::config(g, near.min(1500))
}

/// Limits no text of a reasonable size reaches; some end in small numbers
/// when cut to fewer bits.
pub const WIDE: [usize; 22] = [
    0xff, 0x100, 0x101, 0x102, 0x7fff, 0x8000, 0xffff, 0x1_0000, 0x1_0001, 0xff_ffff, 0x100_0000, 0x7fff_ffff,
    0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x1_0000_0002, 1 << 33, (1 << 63) - 1, 1 << 63,
    (1 << 63) + 1, usize::MAX - 1,
];

/// How many brackets are open at most, strings or not.
pub fn brackets(b: &[u8]) -> usize {
    let (mut n, mut most) = (0usize, 0);
    for c in b {
        match c {
            b'[' | b'{' => n += 1,
            b']' | b'}' => n = n.saturating_sub(1),
            _ => {}
        }
        most = most.max(n);
    }
    most
}

/// Sometimes, a limit the text does not come near, or none.
pub fn widen(g: &mut Gen<'_>, b: &[u8], cfg: &mut Config) {
    if g.chance(1, 6) && brackets(b) < 2000 {
        let i = g.range(0, WIDE.len());
        cfg.limit = WIDE.get(i).copied();
    }
}

/// Nesting depths around powers of two, the default limit and far beyond.
pub const DEPTHS: [usize; 40] = [
    0, 1, 2, 3, 4, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 130, 199, 200, 254, 255, 256,
    257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097, 8193,
];
pub const SHAPES: usize = 8;

/// A text nested exactly `depth` levels deep. Shape 7 has a trailing comma on
/// every level that has content.
pub fn nested(depth: usize, shape: usize) -> String {
    let mut s = String::new();
    if depth == 0 {
        s.push('1');
        return s;
    }
    let object = |k: usize| match shape {
        0 | 3 => false,
        1 | 4 => true,
        2 | 7 => k % 2 == 0,
        5 => k % 3 != 0,
        _ => k % 5 == 1,
    };
    for k in 0..depth {
        s.push(if object(k) { '{' } else { '[' });
        let last = k + 1 == depth;
        // what stands before the deep branch
        if matches!(shape, 3 | 5 | 6) && depth - k > 1 {
            s.push_str(if object(k) { "\"s\":{}," } else { "[]," });
        }
        if object(k) && !last {
            s.push_str("\"k\":");
        }
    }
    for k in (0..depth).rev() {
        let last = k + 1 == depth;
        if !last && matches!(shape, 4 | 5) {
            // what stands behind it, as deep as allowed at this level
            s.push_str(if object(k) { ",\"t\":[]" } else { ",{}" });
        }
        if !last && shape == 7 {
            s.push(',');
        }
        s.push(if object(k) { '}' } else { ']' });
    }
    s
}

/// The case of a nesting enumeration: depth, shape and text.
pub fn nesting_case(i: u64, max: usize) -> Option<(usize, usize, String)> {
    let d = i as usize / SHAPES % (DEPTHS.len() + named_depths().len());
    let d = DEPTHS.get(d).copied().unwrap_or_else(|| named_depths()[d - DEPTHS.len()]);
    let shape = i as usize % SHAPES;
    (d <= max).then(|| (d, shape, nested(d, shape)))
}
/// Depths by the numbers in the code.
fn named_depths() -> &'static [usize] {
    static D: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let named = crate::dict::get().lengths.iter().copied().filter(|n| (141..=4_100).contains(n)).take(60);
        (1..=140).chain(named).filter(|n| !DEPTHS.contains(n)).collect()
    })
}
pub fn nesting_cases() -> u64 {
    ((DEPTHS.len() + named_depths().len()) * SHAPES) as u64
}

/// An iterator's methods, whichever of them it brings along itself, against
/// the sequence of its items: a random history of reads from the front, then
/// one method that uses up the rest.
pub fn adaptors<I>(g: &mut Gen<'_>, mut it: I, all: &[I::Item], what: &str) -> R
where
    I: Iterator,
    I::Item: PartialEq + std::fmt::Debug,
{
    let n = all.len();
    let mut at = 0;
    let honest = |it: &I, at: usize| -> R {
        let (lo, hi) = it.size_hint();
        let left = n - at;
        check!(lo <= left && hi.is_none_or(|h| left <= h), "{what}: size_hint ({lo}, {hi:?}) with {left} of {n} items left");
        Ok(())
    };
    honest(&it, 0)?;
    for _ in 0..g.below(4) {
        match g.below(7) {
            0 | 1 => {
                let got = it.next();
                check!(got.as_ref() == all.get(at), "{what}: next gives {got:?} as item {at}, not {:?}", all.get(at));
                at = (at + 1).min(n);
            }
            2 | 3 => {
                let k = if g.chance(1, 8) { n + g.below(3) } else { g.below(n - at + 2) };
                let got = it.nth(k);
                let want = all.get(at + k);
                check!(got.as_ref() == want, "{what}: nth({k}) at item {at} gives {got:?}, not {want:?}");
                at = (at + k + 1).min(n);
            }
            4 => {
                let k = g.below(n - at + 2);
                let got: Vec<I::Item> = it.by_ref().take(k).collect();
                let to = (at + k).min(n);
                check!(got == all[at..to], "{what}: take({k}) at item {at} gives {got:?}");
                at = to;
            }
            5 => {
                let k = g.below(n - at + 2);
                let mut seen = 0;
                let got = it.find(|_| {
                    seen += 1;
                    seen > k
                });
                check!(got.as_ref() == all.get(at + k), "{what}: find at item {at} gives {got:?} after {seen} items");
                at = (at + k + 1).min(n);
            }
            _ => {
                let k = g.below(n - at + 2);
                let mut seen = 0;
                let got = it.position(|_| {
                    seen += 1;
                    seen > k
                });
                same!(got, (at + k < n).then_some(k), "{what}: position at item {at}");
                at = (at + k + 1).min(n);
            }
        }
        honest(&it, at)?;
    }
    let rest = &all[at..];
    match g.below(11) {
        0 => same!(it.count(), rest.len(), "{what}: count at item {at} of {n}"),
        1 => {
            let got = it.last();
            check!(got.as_ref() == rest.last(), "{what}: last at item {at} gives {got:?}, not {:?}", rest.last());
        }
        2 => {
            let got = it.fold(Vec::new(), |mut v, x| {
                v.push(x);
                v
            });
            check!(got == rest, "{what}: fold at item {at} sees {got:?}");
        }
        3 => {
            let mut got = Vec::new();
            it.for_each(|x| got.push(x));
            check!(got == rest, "{what}: for_each at item {at} sees {got:?}");
        }
        4 => {
            let got: Vec<I::Item> = it.collect();
            check!(got == rest, "{what}: collect at item {at} gives {got:?}");
        }
        5 => {
            let k = 1 + g.below(4);
            let got: Vec<I::Item> = it.step_by(k).collect();
            check!(got.iter().eq(rest.iter().step_by(k)), "{what}: step_by({k}) at item {at} gives {got:?}");
        }
        6 => {
            let k = g.below(rest.len() + 2);
            let got: Vec<I::Item> = it.skip(k).collect();
            check!(got.iter().eq(rest.iter().skip(k)), "{what}: skip({k}) at item {at} gives {got:?}");
        }
        7 => {
            let mut seen = Vec::new();
            let ok = it.all(|x| {
                seen.push(x);
                true
            });
            check!(ok && seen == rest, "{what}: all at item {at} sees {seen:?}");
        }
        8 => {
            let k = g.below(rest.len() + 2);
            let mut seen = Vec::new();
            let hit = it.any(|x| {
                seen.push(x);
                seen.len() > k
            });
            check!(hit == (k < rest.len()) && seen == rest[..(k + 1).min(rest.len())], "{what}: any at item {at} sees {seen:?}");
        }
        9 => {
            let mut k = 0;
            let got = it.reduce(|a, b| {
                k += 1;
                if k % 2 == 0 {
                    a
                } else {
                    b
                }
            });
            // the last item that was kept
            let mut i = 0;
            for j in 1..rest.len() {
                if j % 2 == 1 {
                    i = j;
                }
            }
            check!(got.as_ref() == rest.get(i), "{what}: reduce at item {at} gives {got:?}");
        }
        _ => {
            let mut it = it.peekable();
            let mut got = Vec::new();
            while let Some(x) = it.peek() {
                check!(Some(x) == rest.get(got.len()), "{what}: peekable at item {at} gives {x:?}");
                got.extend(it.next());
            }
            check!(got == rest, "{what}: peekable at item {at} gives {got:?}");
        }
    }
    Ok(())
}
