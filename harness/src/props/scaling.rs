//! C23: time and memory grow in proportion to the text.
//!
//! A case is a family of texts `head + unit*k + tail` (sometimes with a second
//! repeated part, for nesting) and one operation. The operation runs on
//! members of the family of growing size; the CPU time of this thread and the
//! bytes asked of the allocator, per byte of input and output, may not grow
//! with the size.

use super::rnd;
use crate::alloc::measure;
use crate::common::*;
use crate::dict;
use crate::gens;
use crate::engine::{on_big_stack, show_bytes, Ctx, Gen, Target, R};
use crate::refjson::Config;
use crate::check;
use justjson::doc::{Document, Node};
use justjson::parser::{JsonKind, ParseDelegate, Parser, Tokenizer};
use justjson::{JsonNumber, JsonString, Value};
use std::hint::black_box;
use std::time::Duration;

/// Stands for the number of the repetition, so that units can differ.
const COUNTER: &str = "\u{2}";

struct Family {
    head: String,
    unit: String,
    mid: String,
    close: String,
    tail: Vec<u8>,
    what: &'static str,
    config: Config,
}

impl Family {
    /// A member of about `size` bytes.
    fn member(&self, size: usize) -> Vec<u8> {
        let per = self.unit.len() + self.close.len();
        let k = (size / per).max(1);
        let mut out = Vec::with_capacity(size + 1024);
        out.extend_from_slice(self.head.as_bytes());
        if self.unit.contains(COUNTER) {
            for i in 0..k {
                out.extend_from_slice(self.unit.replace(COUNTER, &format!("{i:06}")).as_bytes());
            }
        } else {
            for _ in 0..k {
                out.extend_from_slice(self.unit.as_bytes());
            }
        }
        out.extend_from_slice(self.mid.as_bytes());
        for _ in 0..k {
            out.extend_from_slice(self.close.as_bytes());
        }
        out.extend_from_slice(&self.tail);
        out
    }
    fn show(&self) -> String {
        let mut s = format!("{:?} + {:?}*k + {:?}", self.head, self.unit, self.mid);
        if !self.close.is_empty() {
            s += &format!(" + {:?}*k", self.close);
        }
        s + " + " + &show_bytes(&self.tail) + if self.config.trailing_commas { " (trailing commas allowed)" } else { "" }
    }
}

const PIECES: [&str; 22] = [
    "a", " ", "\u{7f}", "\u{e9}", "\u{20ac}", "\u{ffff}", "\u{1f639}", "\\n", "\\\"", "\\u0041",
    "\\u00e9", "\\u20ac", "\\ud83d\\ude39", "\\u0000", "\\t", "\\r",
    "\\b", "\\f", "\\\\", "\\/", "\u{7ff}", "\u{10ffff}",
];
const SPACES: [&str; 4] = [" ", "\n", "\t", "\r"];
const ELEMENTS: [&str; 18] = [
    "1", "-0.5e+7", "null", "true", "false", "\"\"", "\"x\"", "\"\\n\"", "\"\u{e9}\"", "\"\\ud83d\\ude39\"",
    "[]", "{}", "[1,[2]]", "{\"a\":{}}", "[[[]],{\"k\":[true]}]", "\"the quick brown fox\"", "1\u{2}", "\"s\u{2}\"",
];
const COMMAS: [&str; 4] = ["[1,]", "{\"a\":1,}", "[[],]", "{\"a\":[{\"b\":null , } ,],}"];
const BREAKS: [&[u8]; 9] = [b"", b"x", b"]", b"}", b",", b"\"", b"\x01", b"\xff", b"\\"];

fn some(g: &mut Gen<'_>, from: &[&str], max: usize) -> String {
    let n = g.range(1, max);
    (0..n).map(|_| *g.pick(from)).collect()
}

fn family(g: &mut Gen<'_>) -> Family {
    let mut f = Family {
        head: String::new(),
        unit: String::new(),
        mid: String::new(),
        close: String::new(),
        tail: Vec::new(),
        what: "",
        config: Config { limit: None, ..Config::DEFAULT },
    };
    f.config.trailing_commas = g.chance(1, 3);
    f.config.limit = *g.pick(&[None, None, Some(usize::MAX), Some(1 << 20)]);
    let commas = f.config.trailing_commas;
    let mut tail = String::new();
    match g.weighted(&[5, 2, 2, 4, 4, 2]) {
        0 => {
            f.what = "long string";
            f.head = "\"".into();
            f.unit = some(g, &PIECES, 6);
            let words = &dict::get().pieces;
            if !words.is_empty() && g.chance(1, 4) {
                let word = *g.pick(words);
                let style = g.below(3);
                f.unit += gens::spell(g, word, style).body();
            }
            tail.push('"');
            match g.below(4) {
                0 => {
                    f.head.insert(0, '[');
                    tail.push(']');
                }
                1 => {
                    f.head.insert(0, '{');
                    tail += ":1}";
                }
                2 => {
                    f.head.insert_str(0, "{\"k\":");
                    tail.push('}');
                }
                _ => {}
            }
        }
        1 => {
            f.what = "long whitespace";
            let at = [("", "[1]"), ("[", "]"), ("[1", ",2]"), ("{", "}"), ("{\"a\"", ":1}"), ("{\"a\":", "1}"), ("[1]", ""), ("true", "")];
            let (a, b) = *g.pick(&at);
            f.head = a.into();
            f.unit = some(g, &SPACES, 4);
            tail += b;
        }
        2 => {
            f.what = "long number";
            f.head = (*g.pick(&["1", "-1", "0.", "-0.", "1e", "1e+", "1E-", "[0.0", "{\"a\":3.5e1"])).into();
            f.unit = some(g, &["0", "1", "9", "5", "007"], 3);
            f.mid = "1".into();
            if f.head.starts_with('[') {
                tail.push(']');
            } else if f.head.starts_with('{') {
                tail.push('}');
            }
        }
        3 => {
            f.what = "wide array";
            let n = g.range(1, 4);
            f.head = "[".into();
            for _ in 0..n {
                f.unit += if commas && g.chance(1, 3) { *g.pick(&COMMAS) } else { *g.pick(&ELEMENTS) };
                f.unit.push(',');
                if g.chance(1, 4) {
                    f.unit += *g.pick(&SPACES);
                }
            }
            f.mid = (*g.pick(&ELEMENTS[..16])).into();
            if commas && g.bool() {
                f.mid.push(',');
            }
            tail.push(']');
            if g.bool() {
                f.head.insert_str(0, "[[1],");
                tail += ",2]";
            }
        }
        4 => {
            f.what = "wide object";
            let n = g.range(1, 4);
            f.head = "{".into();
            for _ in 0..n {
                f.unit += *g.pick(&["\"a\":", "\"\":", "\"key\" : ", "\"\\u0061\":", "\"\u{e9}\\n\":", "\"long enough a key for anything\":", "\"k\u{2}\":", "\"\\u00e9\u{2}\" : "]);
                f.unit += *g.pick(&ELEMENTS);
                f.unit.push(',');
            }
            f.mid = "\"z\":".into();
            f.mid += *g.pick(&ELEMENTS[..16]);
            tail.push('}');
            if g.bool() {
                f.head.insert_str(0, "{\"o\":");
                tail += ",\"p\":[]}";
            }
        }
        _ => {
            f.what = "deep";
            let (a, b) = *g.pick(&[("[", "]"), ("{\"a\":", "}"), ("[1,", "]"), ("[[],", ",[]]"), ("{\"a\":0,\"b\":", ",\"c\":{}}"), ("[{\"x\":", "}]")]);
            f.unit = a.into();
            f.mid = (*g.pick(&ELEMENTS[..16])).into();
            f.close = b.into();
        }
    }
    f.tail = tail.into_bytes();
    if g.chance(1, 5) {
        // with something wrong at the end
        let cut = g.below(f.tail.len() + 1);
        f.tail.truncate(cut);
        f.tail.extend_from_slice(*g.pick(&BREAKS));
    }
    f
}

struct Sink;
impl<'a> ParseDelegate<'a> for Sink {
    type Value = usize;
    type Object = usize;
    type Array = usize;
    type Key = usize;
    type Error = u8;
    fn null(&mut self) -> Result<usize, u8> {
        Ok(0)
    }
    fn boolean(&mut self, value: bool) -> Result<usize, u8> {
        Ok(usize::from(value))
    }
    fn number(&mut self, value: JsonNumber<'a>) -> Result<usize, u8> {
        Ok(value.source().len())
    }
    fn string(&mut self, value: JsonString<'a>) -> Result<usize, u8> {
        Ok(value.len())
    }
    fn begin_object(&mut self) -> Result<usize, u8> {
        Ok(0)
    }
    fn object_key(&mut self, _: &mut usize, key: JsonString<'a>) -> Result<usize, u8> {
        Ok(key.len())
    }
    fn object_value(&mut self, o: &mut usize, k: usize, v: usize) -> Result<(), u8> {
        *o += 1 + k + v;
        Ok(())
    }
    fn object_is_empty(&self, o: &usize) -> bool {
        *o == 0
    }
    fn end_object(&mut self, o: usize) -> Result<usize, u8> {
        Ok(o)
    }
    fn begin_array(&mut self) -> Result<usize, u8> {
        Ok(0)
    }
    fn array_value(&mut self, a: &mut usize, v: usize) -> Result<(), u8> {
        *a += 1 + v;
        Ok(())
    }
    fn array_is_empty(&self, a: &usize) -> bool {
        *a == 0
    }
    fn end_array(&mut self, a: usize) -> Result<usize, u8> {
        Ok(a)
    }
    fn kind_of(&self, _: &usize) -> JsonKind {
        JsonKind::Null
    }
}

fn cpu() -> Duration {
    let mut t = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    // SAFETY: plain system call with a valid pointer.
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut t) };
    Duration::new(t.tv_sec as u64, t.tv_nsec as u32)
}

struct Cost {
    /// bytes of input and output
    size: usize,
    nanos: f64,
    asked: u64,
}

/// Runs `f` often enough to time it; `f` returns the bytes it produced.
fn cost(input: usize, f: &mut dyn FnMut() -> usize) -> Cost {
    let mut output = 0;
    // the first run warms up and tells how long one takes
    let t = cpu();
    let ((), c) = measure(|| output = f());
    let first = (cpu() - t).as_nanos() as f64;
    let mut best = first;
    if first < 300e6 {
        let inner = ((20_000. / first.max(100.)) as usize).clamp(1, 50);
        let outer = if first < 5e6 { 4 } else { 2 };
        for _ in 0..outer {
            let t = cpu();
            for _ in 0..inner {
                black_box(f());
            }
            best = best.min((cpu() - t).as_nanos() as f64 / inner as f64);
        }
    }
    Cost { size: input + output, nanos: best, asked: c.bytes }
}

const OPS: [&str; 23] = [
    "Parser::validate_json_bytes",
    "Parser::validate_json",
    "Parser::parse_json with a delegate",
    "Tokenizer (bytes)",
    "Tokenizer (text) with peeks",
    "Value::from_json_bytes",
    "Value::from_json",
    "Document::from_json_bytes",
    "Document::from_json",
    "iterating a Document",
    "DocumentIter::next_value",
    "DocumentIter::skip_next_value",
    "skipping every child of a Document",
    "Value::to_json",
    "Value::to_json_pretty",
    "comparing two Values",
    "looking at every string of a Document",
    "Value from Document",
    "reading every number of a Document",
    "JsonString::from_json and JsonNumber::from_json",
    "finding the last member or element of a Value",
    "comparing two Documents",
    "reading a Document value by value",
];

/// The cost of operation `op` on `b`; none if it does not apply to it.
fn run(op: usize, b: &[u8], config: Config) -> Option<Cost> {
    let c = || lib_config(config);
    let text = std::str::from_utf8(b).ok();
    let n = b.len();
    let r = match op {
        0 => cost(n, &mut || usize::from(Parser::validate_json_bytes_with_config(b, c()).is_ok()) * 0),
        1 => {
            let s = text?;
            cost(n, &mut || usize::from(Parser::validate_json_with_config(s, c()).is_ok()) * 0)
        }
        2 => {
            let s = text?;
            cost(n, &mut || usize::from(Parser::parse_json_with_config(s, c(), Sink).is_ok()) * 0)
        }
        3 => cost(n, &mut || Tokenizer::for_json_bytes(b).take(n + 2).filter(|t| black_box(t).is_err()).count() * 0),
        4 => {
            let s = text?;
            cost(n, &mut || {
                let mut t = Tokenizer::for_json(s);
                for _ in 0..n + 2 {
                    let p = t.peek();
                    if p != t.peek() || black_box(t.next()).is_none() {
                        break;
                    }
                }
                0
            })
        }
        5 => cost(n, &mut || usize::from(Value::from_json_bytes_with_config(b, c()).is_ok()) * 0),
        6 => {
            let s = text?;
            cost(n, &mut || usize::from(Value::from_json_with_config(s, c()).is_ok()) * 0)
        }
        7 => cost(n, &mut || usize::from(Document::from_json_bytes_with_config(b, c()).is_ok()) * 0),
        8 => {
            let s = text?;
            cost(n, &mut || usize::from(Document::from_json_with_config(s, c()).is_ok()) * 0)
        }
        9..=12 | 16..=18 => {
            let d = Document::from_json_bytes_with_config(b, c()).ok()?;
            match op {
                9 => cost(n, &mut || d.iter().count() * 0),
                10 => cost(n, &mut || usize::from(d.iter().next_value().is_none())),
                11 => cost(n, &mut || {
                    let mut i = d.iter();
                    i.skip_next_value();
                    usize::from(i.next().is_some())
                }),
                12 => cost(n, &mut || {
                    let mut i = d.iter();
                    let children = match i.next() {
                        Some(Node::Object { length }) => length * 2,
                        Some(Node::Array { length }) => length,
                        _ => 0,
                    };
                    for _ in 0..children {
                        i.skip_next_value();
                    }
                    usize::from(i.next().is_some())
                }),
                16 => {
                    // what a string costs is in proportion to its own length
                    cost(n, &mut || {
                        let mut sum = 0;
                        for node in &d {
                            if let Node::String(s) = node {
                                let text: String = s.decoded().collect();
                                let equal = s == text.as_str();
                                sum += s.decoded().to_string().len();
                                let raw = JsonString::from(text.as_str());
                                let escaped: String = raw.as_json().collect();
                                sum += escaped.len() + raw.as_json().to_string().len();
                                let same = raw == s && s.cmp(&raw).is_eq() && s.partial_cmp(text.as_str()).is_some();
                                sum += usize::from(equal && same) + s.decode_if_needed().len() + raw.escape_if_needed().len();
                                sum += s.to_string().len() + raw.decoded_len();
                                use std::hash::{Hash, Hasher};
                                let mut h = std::collections::hash_map::DefaultHasher::new();
                                s.hash(&mut h);
                                raw.hash(&mut h);
                                black_box(h.finish());
                            }
                        }
                        black_box(sum);
                        0
                    })
                }
                17 => {
                    // consumes the document
                    let mut best: Option<Cost> = None;
                    for _ in 0..5 {
                        let d = Document::from_json_bytes_with_config(b, c()).ok()?;
                        let t = cpu();
                        let (v, m) = measure(|| Value::from(d));
                        black_box(&v);
                        let nanos = (cpu() - t).as_nanos() as f64;
                        drop(v);
                        if best.as_ref().map_or(true, |b| b.nanos > nanos) {
                            best = Some(Cost { size: n, nanos, asked: m.bytes });
                        }
                        if nanos > 300e6 {
                            break;
                        }
                    }
                    best?
                }
                _ => cost(n, &mut || {
                    let mut x = 0.;
                    for node in &d {
                        if let Node::Number(num) = node {
                            x += num.as_f64().unwrap_or(0.);
                            x += num.as_u64().map_or(0., |v| v as f64);
                            x += num.as_i128().map_or(0., |v| v as f64);
                        }
                    }
                    black_box(x);
                    0
                }),
            }
        }
        19 => {
            let s = text?;
            cost(n, &mut || {
                let a = JsonString::from_json(s).map_or(0, |s| s.decoded_len());
                let b = justjson::JsonNumber::from_json(s).map_or(0, |n| n.source().len());
                black_box((a, b));
                0
            })
        }
        20 => {
            let v = Value::from_json_bytes_with_config(b, c()).ok()?;
            let key: String = v.as_object().and_then(|o| o.iter().last()).map_or(String::new(), |e| e.key.decoded().collect());
            let last = v.as_array().map_or(0, |a| a.len().saturating_sub(1));
            cost(n, &mut || {
                usize::from(v.get(&key).is_some()) * 0 + usize::from(v.get_index(last).is_some()) * 0
            })
        }
        21 => {
            let d = Document::from_json_bytes_with_config(b, c()).ok()?;
            let e = Document::from_json_bytes_with_config(b, c()).ok()?;
            cost(n, &mut || usize::from(d != e))
        }
        22 => {
            let d = Document::from_json_bytes_with_config(b, c()).ok()?;
            cost(n, &mut || {
                let mut i = d.iter();
                i.next();
                // members and elements one after the other, keys too
                while i.next_value().is_some() {}
                0
            })
        }
        13..=15 => {
            let v = Value::from_json_bytes_with_config(b, c()).ok()?;
            match op {
                13 => cost(n, &mut || v.to_json().len()),
                14 => cost(n, &mut || v.to_json_pretty().len()),
                _ => {
                    let w = Value::from_json_bytes_with_config(b, c()).ok()?;
                    cost(n, &mut || usize::from(v != w))
                }
            }
        }
        _ => unreachable!(),
    };
    Some(r)
}

const SIZES: [usize; 4] = [2 << 10, 8 << 10, 32 << 10, 128 << 10];

/// How much more a byte costs at the largest size reached than at a smaller
/// one: 1 for linear growth, the ratio of the sizes for quadratic growth.
fn growth(f: &Family, op: usize, deep: bool) -> Option<(f64, f64, f64, String)> {
    let mut seen: Vec<Cost> = Vec::new();
    for &size in &SIZES {
        let b = f.member(if deep { size / 8 } else { size });
        let c = run(op, &b, f.config)?;
        let slow = c.nanos > 300e6;
        seen.push(c);
        if slow {
            break;
        }
    }
    let last = seen.last().unwrap();
    let base = &seen[0];
    let ratio = last.size as f64 / base.size as f64;
    let time = (last.nanos / last.size as f64) / (base.nanos / base.size as f64);
    let asked = (last.asked as f64 / last.size as f64) / ((base.asked as f64 + 4096.) / base.size as f64);
    let show = seen
        .iter()
        .map(|c| format!("{} bytes: {:.1} us, {} bytes allocated", c.size, c.nanos / 1e3, c.asked))
        .collect::<Vec<_>>()
        .join("; ");
    Some((ratio, time, asked, show))
}

/// Quadratic growth over a 64-fold range makes a byte 64 times as expensive;
/// caches, page faults and timer noise stay well below this.
fn limit(ratio: f64) -> f64 {
    (ratio / 4.).clamp(6., 14.)
}

fn quiet_allocator() {
    static ONCE: std::sync::Once = std::sync::Once::new();
    ONCE.call_once(|| {
        // SAFETY: allocator settings; large blocks are to be reused rather
        // than mapped and faulted in again for every measurement.
        unsafe {
            libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
            libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
        }
    });
}

fn linear(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    quiet_allocator();
    let f = family(g);
    let op = g.below(OPS.len());
    let deep = f.what == "deep";
    ctx.describe(|| format!("{} of {}", OPS[op], f.show()));
    ctx.label(f.what);
    let out = on_big_stack(|| {
        let Some((ratio, time, asked, show)) = growth(&f, op, deep) else { return Ok(None) };
        if time <= limit(ratio) && asked <= 4. {
            return Ok(Some(time));
        }
        if asked > 4. {
            return Err(format!("{} of {} asks for ever more memory per byte: {show}", OPS[op], f.show()));
        }
        // measure again before believing it
        let mut shows = vec![show];
        for _ in 0..3 {
            match growth(&f, op, deep) {
                Some((r, t, _, s)) if t > limit(r) => shows.push(s),
                _ => return Ok(Some(time)),
            }
        }
        Err(format!("{} of {} takes ever more time per byte: {}", OPS[op], f.show(), shows[0]))
    });
    match out {
        Ok(None) => ctx.label("operation does not apply"),
        Ok(Some(t)) => {
            ctx.label(OPS[op]);
            ctx.nontrivial(f.show().as_bytes());
            ctx.label_if(t > 2., "time per byte grew by more than 2");
            ctx.label_if(t > 4., "time per byte grew by more than 4");
            ctx.label_if(t > 8., "time per byte grew by more than 8");
        }
        Err(e) => check!(false, "{e}"),
    }
    Ok(())
}

pub fn c23() -> Vec<Target> {
    vec![rnd(
        "c23.linear",
        linear,
        3_600,
        60_000,
        "the operation applies to the family of texts",
    )]
}
