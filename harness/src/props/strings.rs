//! C05 decoding, C06 encoding, C07 comparison and hashing, C21 streaming.

use super::accept::{word, words};
use super::{all, rnd};
use crate::common::*;
use crate::engine::{fail, show_bytes, Ctx, Fail, Gen, Target, R};
use crate::gens::{self, b_char, bel_as_b, MStr};
use crate::refjson::{self, Config};
use crate::{check, same};
use justjson::doc::{Document, Node};
use justjson::parser::{Token, Tokenizer};
use justjson::{AnyStr, Entry, JsonString, Object, Value};
use std::borrow::Borrow;
use std::cmp::Ordering;
use std::fmt::Display;
use std::hash::{Hash, Hasher};

// ---------------------------------------------------------------------- C05

/// Every way of looking at a parsed string agrees with what it denotes.
pub fn decodes_to(s: &JsonString<'_>, m: &MStr) -> R {
    let dec = m.dec.as_str();
    let got: String = s.decoded().collect();
    same!(got.as_str(), dec, "{} decodes", m.quoted);
    same!(s.decoded().count(), dec.chars().count(), "{} number of characters", m.quoted);
    same!(s.decoded().to_string(), dec, "{} decoded().to_string()", m.quoted);
    same!(s.to_string(), dec, "{} to_string()", m.quoted);
    same!(s.decoded_len(), dec.len(), "{} decoded_len()", m.quoted);
    check!(*s == dec && s == dec && *s == *dec, "{} is not equal to {dec:?}", m.quoted);
    same!(s.partial_cmp(dec), Some(Ordering::Equal), "{} compared with {dec:?}", m.quoted);
    same!(s.as_str(), if m.esc { None } else { Some(dec) }, "{} as_str()", m.quoted);
    let d = s.decode_if_needed();
    same!(d.as_str(), dec, "{} decode_if_needed()", m.quoted);
    check!(
        m.esc || matches!(d, AnyStr::Borrowed(_)),
        "{} decode_if_needed() does not borrow",
        m.quoted
    );
    same!(s.is_empty(), dec.is_empty(), "{} is_empty()", m.quoted);
    Ok(())
}

fn bad(what: &str, m: &MStr, e: impl std::fmt::Debug) -> R {
    fail(format!("{what} rejects {}: {e:?}", m.quoted))
}

/// The string found through every part of the library.
pub(super) fn everywhere(m: &MStr) -> R {
    let s = match JsonString::from_json(&m.quoted) {
        Ok(s) => s,
        Err(e) => return bad("JsonString::from_json", m, e),
    };
    decodes_to(&s, m)?;
    decodes_to(&s.clone(), m)?;
    let text = format!("{{{0}:[{0}]}}", m.quoted);
    let v = match Value::from_json_bytes(text.as_bytes()) {
        Ok(v) => v,
        Err(e) => return bad("Value::from_json_bytes", m, e),
    };
    let Some(o) = v.as_object() else { return fail(format!("{text} is no object")) };
    decodes_to(&o[0].key, m)?;
    let Some(inner) = o[0].value.get_index(0) else { return fail(format!("{text} has no element")) };
    let Value::String(s) = inner else { return fail(format!("{text}: no string")) };
    decodes_to(s, m)?;
    same!(inner.as_str(), if m.esc { None } else { Some(m.dec.as_str()) }, "Value::as_str of {}", m.quoted);
    same!(inner.as_string(), Some(s), "Value::as_string of {}", m.quoted);
    let v = match Value::from_json(&text) {
        Ok(v) => v,
        Err(e) => return bad("Value::from_json", m, e),
    };
    let Some(arr) = v.get(&m.dec) else { return fail(format!("{text}: the key {:?} is not found", m.dec)) };
    let Some(Value::String(s)) = arr.get_index(0) else { return fail(format!("{text}: no string")) };
    decodes_to(s, m)?;
    let d = match Document::from_json(&text) {
        Ok(v) => v,
        Err(e) => return bad("Document::from_json", m, e),
    };
    let mut n = 0;
    for node in d.iter() {
        if let Node::String(s) = &node {
            decodes_to(s, m)?;
            n += 1;
        }
    }
    same!(n, 2, "string nodes of {text}");
    let mut n = 0;
    for t in Tokenizer::for_json(&text) {
        if let Ok(Token::String(s)) = &t {
            decodes_to(s, m)?;
            n += 1;
        }
    }
    for t in Tokenizer::for_json_bytes(text.as_bytes()) {
        if let Ok(Token::String(s)) = &t {
            decodes_to(s, m)?;
            n += 1;
        }
    }
    same!(n, 4, "string tokens of {text}");
    Ok(())
}

fn c05_spelled(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let t = gens::text(g, 200);
    let style = g.below(4);
    let m = gens::spell(g, &t, style);
    ctx.describe(|| format!("{} denoting {:?}", m.quoted, m.dec));
    ctx.label(["plain", "mixed escapes", "all \\u", "short escapes"][style]);
    ctx.label_if(t.chars().any(|c| c as u32 > 0xFFFF), "astral");
    ctx.label_if(!t.is_ascii(), "non-ASCII");
    check!(
        refjson::decode(m.body(), b_char()) == t,
        "HARNESS: reference and construction disagree on {}",
        m.quoted
    );
    if m.esc {
        ctx.nontrivial(m.quoted.as_bytes());
    }
    everywhere(&m)
}

/// Any string text accepted by the reference, however it was made.
fn c05_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    const PIECES: [&str; 30] = [
        "a", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t", "\\u", "0", "d", "D", "8", "c",
        "F", "1", "9", "u", "\\u0041", "\\ud83d\\ude39", "\\uD840\\uDC00", "\u{e9}", "\u{20ac}",
        "\u{1f639}", "\\u00e9", "\\uFFFF", "\u{7f}", "/", "'",
    ];
    let n = g.size(40);
    let mut body = String::new();
    for _ in 0..n {
        body.push_str(g.pick(&PIECES));
    }
    if !refjson::valid_body(body.as_bytes()) {
        ctx.label("invalid (skipped)");
        return Ok(());
    }
    ctx.label("valid");
    let m = MStr::from_body(&body);
    ctx.describe(|| format!("{} denoting {:?}", m.quoted, m.dec));
    if m.esc {
        ctx.nontrivial(m.quoted.as_bytes());
    }
    everywhere(&m)
}

/// Every \uXXXX, in three spellings, alone and between neighbours.
fn c05_unicode4(i: u64, ctx: &mut Ctx) -> R {
    let (v, form) = ((i / 6) as u32, i % 6);
    let Some(c) = char::from_u32(v) else { return Ok(()) };
    let hex = match form % 3 {
        0 => format!("{v:04x}"),
        1 => format!("{v:04X}"),
        _ => {
            let l = format!("{v:04x}");
            let u = format!("{v:04X}");
            format!("{}{}{}{}", &u[..1], &l[1..2], &u[2..3], &l[3..])
        }
    };
    let (pre, post) = if form < 3 { ("", "") } else { ("\u{e9}", "f1") };
    let m = MStr {
        quoted: format!("\"{pre}\\u{hex}{post}\""),
        dec: format!("{pre}{c}{post}"),
        esc: true,
    };
    ctx.describe(|| m.quoted.clone());
    ctx.nontrivial(b"");
    match JsonString::from_json(&m.quoted) {
        Ok(s) => decodes_to(&s, &m),
        Err(e) => bad("JsonString::from_json", &m, e),
    }
}

/// Every surrogate pair.
fn c05_pairs(i: u64, ctx: &mut Ctx) -> R {
    let (h, l) = (0xD800 + (i / 1024) as u32, 0xDC00 + (i % 1024) as u32);
    let Some(c) = char::from_u32(0x10000 + i as u32) else { return Ok(()) };
    let quoted = if i & 1 == 0 { format!("\"\\u{h:04x}\\u{l:04X}\"") } else { format!("\"\\u{h:04X}\\u{l:04x}\"") };
    ctx.describe(|| quoted.clone());
    ctx.nontrivial(b"");
    let s = match JsonString::from_json(&quoted) {
        Ok(s) => s,
        Err(e) => return fail(format!("{quoted} rejected: {e:?}")),
    };
    let mut it = s.decoded();
    let got = (it.next().map(|c| c as u32), it.next());
    same!(got, (Some(c as u32), None), "{quoted} decodes");
    same!(s.decoded_len(), 4, "{quoted} decoded_len()");
    Ok(())
}

/// Every character, written literally.
fn c05_literal(i: u64, ctx: &mut Ctx) -> R {
    let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
    if c < ' ' || c == '"' || c == '\\' {
        return Ok(());
    }
    let mut quoted = String::from("\"");
    quoted.push(c);
    quoted.push('"');
    ctx.describe(|| quoted.clone());
    ctx.nontrivial(b"");
    let s = match JsonString::from_json(&quoted) {
        Ok(s) => s,
        Err(e) => return fail(format!("{quoted} rejected: {e:?}")),
    };
    check!(s.decoded().eq([c]), "{quoted} decodes to {:?}", s.decoded().collect::<String>());
    same!(s.as_str(), Some(&quoted[1..quoted.len() - 1]), "{quoted} as_str()");
    same!(s.decoded_len(), c.len_utf8(), "{quoted} decoded_len()");
    // and next to an escape
    let q2 = format!("\"\\n{c}\\t{c}\"");
    match JsonString::from_json(&q2) {
        Ok(s) => check!(
            s.decoded().eq(['\n', c, '\t', c]) && s.decoded_len() == 2 + 2 * c.len_utf8(),
            "{q2} decodes to {:?}",
            s.decoded().collect::<String>()
        ),
        Err(e) => return fail(format!("{q2} rejected: {e:?}")),
    }
    Ok(())
}

const PIECES5: [&str; 15] = [
    "a", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\f", "\\r", "\\t", "\\u0041", "\\ud83d\\ude39",
    "\u{e9}", "\u{1f639}", "u", "\\u00E9",
];
fn c05_words(i: u64, ctx: &mut Ctx) -> R {
    let mut b = Vec::new();
    word(i, &PIECES5, &mut b);
    let m = MStr::from_body(std::str::from_utf8(&b).unwrap());
    ctx.describe(|| m.quoted.clone());
    if m.esc {
        ctx.nontrivial(b"");
    }
    match JsonString::from_json(&m.quoted) {
        Ok(s) => decodes_to(&s, &m),
        Err(e) => bad("JsonString::from_json", &m, e),
    }
}

pub fn c05() -> Vec<Target> {
    vec![
        rnd("c05.spelled", c05_spelled, 400_000, 6_000_000, "a text in a chosen spelling, read through every entry point; non-trivial: contains an escape"),
        rnd("c05.any", c05_any, 800_000, 10_000_000, "random string pieces, kept when the reference accepts; non-trivial: contains an escape"),
        all("c05.unicode4", c05_unicode4, 6 * 0x10000, 6 * 0x10000, "every \\uXXXX in three hex cases, alone and with neighbours"),
        all("c05.pairs", c05_pairs, 1 << 20, 1 << 20, "every surrogate pair"),
        all("c05.literal", c05_literal, 0x110000, 0x110000, "every literal character, alone and between escapes"),
        all("c05.words", c05_words, words(15, 4), words(15, 5), "all words over 15 string pieces; non-trivial: contains an escape"),
    ]
}

// ---------------------------------------------------------------------- C06

/// Checks everything the library says about the literal of a Rust string.
fn encodes(s: &JsonString<'_>, t: &str) -> R {
    let body: String = s.as_json().collect();
    check!(
        refjson::valid_body(body.as_bytes()),
        "{t:?} is written as {}, no JSON string",
        show_bytes(body.as_bytes())
    );
    let b = if bel_as_b() { '\u{7}' } else { '\u{8}' };
    let meaning = refjson::decode(&body, b);
    same!(meaning.as_str(), t, "{t:?} is written as {body:?}, which decodes");
    same!(s.as_json().to_string(), body, "{t:?} as_json().to_string()");
    same!(s.escape_if_needed().as_str(), body, "{t:?} escape_if_needed()");
    if let Some(j) = s.as_json_str() {
        same!(j.as_str(), body, "{t:?} as_json_str()");
    }
    same!(s.len(), body.len(), "{t:?} len()");
    same!(s.decoded_len(), t.len(), "{t:?} decoded_len()");
    same!(s.is_empty(), t.is_empty(), "{t:?} is_empty()");
    check!(s.decoded().eq(t.chars()), "{t:?} decoded()");
    same!(s.decode_if_needed().as_str(), t, "{t:?} decode_if_needed()");
    same!(s.to_string(), t, "{t:?} to_string()");
    same!(s.as_str(), Some(t), "{t:?} as_str() of a string made from text");
    check!(*s == t, "{t:?} is not equal to itself");
    // the library reads its own literal back
    let quoted = format!("\"{body}\"");
    match JsonString::from_json(&quoted) {
        Ok(back) => {
            check!(back == t && back == *s && *s == back, "{t:?} written and read is {back:?}");
            check!(back.decoded().eq(t.chars()), "{t:?} written and read decodes to {:?}", back.decoded().collect::<String>());
            same!(back.decoded_len(), t.len(), "{t:?} written and read: decoded_len()");
            same!(back.len(), body.len(), "{t:?} written and read: len()");
        }
        Err(e) => return fail(format!("{t:?} is written as {quoted}, which is rejected: {e:?}")),
    }
    Ok(())
}

pub(super) fn every_source(t: &str) -> R {
    encodes(&JsonString::from(t), t)?;
    encodes(&JsonString::from(t.to_string()), t)?;
    let mut padded = String::with_capacity(t.len() + 17);
    padded.push_str(t);
    encodes(&JsonString::from(padded), t)?;
    let values = [
        Value::from(t),
        Value::from(t.to_string()),
        Value::from(JsonString::from(t)),
        Value::String(JsonString::from(t)),
    ];
    let want = format!("\"{}\"", JsonString::from(t).as_json());
    for v in &values {
        let Value::String(s) = v else { return fail(format!("Value::from({t:?}) is no string")) };
        encodes(s, t)?;
        same!(v.to_json(), want, "Value::from({t:?}).to_json()");
        same!(v.to_string(), want, "Value::from({t:?}).to_string()");
        same!(v.to_json_pretty(), want, "Value::from({t:?}).to_json_pretty()");
    }
    let e = Entry::new(t, t);
    encodes(&e.key, t)?;
    let mut o = Object::new();
    o.push(Entry::new(t.to_string(), Value::Null));
    encodes(&o[0].key, t)?;
    same!(Value::from(o).to_json(), format!("{{{want}:null}}"), "an object with the key {t:?}");
    Ok(())
}

fn c06_text(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let t = gens::text(g, 400);
    ctx.describe(|| format!("{t:?}"));
    let special = t.chars().any(|c| c < ' ' || c == '"' || c == '\\');
    ctx.label(if special { "needs escapes" } else { "no escapes needed" });
    ctx.label_if(t.chars().any(|c| c < ' '), "control characters");
    ctx.label_if(!t.is_ascii(), "non-ASCII");
    if special || !t.is_ascii() {
        ctx.nontrivial(t.as_bytes());
    }
    every_source(&t)
}

/// Every character alone and between others.
fn c06_chars(i: u64, ctx: &mut Ctx) -> R {
    let Some(c) = char::from_u32(i as u32) else { return Ok(()) };
    let mut buf = [0u8; 4];
    let t: &str = c.encode_utf8(&mut buf);
    ctx.describe(|| format!("{t:?} (U+{i:04X})"));
    ctx.nontrivial(b"");
    if i < 0x3000 {
        every_source(t)?;
        every_source(&format!("a{c}{c}0{c}"))?;
    } else {
        encodes(&JsonString::from(t), t)?;
    }
    let m = format!("\\{c}n{c}");
    encodes(&JsonString::from(m.as_str()), &m)?;
    encodes(&JsonString::from(m.clone()), &m)
}

/// All pairs of the first 256 characters plus some others.
fn c06_pairs(i: u64, ctx: &mut Ctx) -> R {
    let at = |k: u64| -> char {
        match k {
            0..=255 => char::from(k as u8),
            _ => ['\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\u{2028}', '\u{fffd}', '\u{100}'][(k - 256) as usize],
        }
    };
    let (a, b) = (at(i / 264), at(i % 264));
    let t: String = [a, b].iter().collect();
    ctx.describe(|| format!("{t:?}"));
    ctx.nontrivial(b"");
    encodes(&JsonString::from(t.as_str()), &t)
}

const CHARS6: [&str; 12] = [
    "a", "\"", "\\", "/", "\n", "\u{0}", "\u{1f}", "\u{7}", "\u{8}", "\u{7f}", "\u{e9}", "\u{1f639}",
];
fn c06_words(i: u64, ctx: &mut Ctx) -> R {
    let mut b = Vec::new();
    word(i, &CHARS6, &mut b);
    let t = String::from_utf8(b).unwrap();
    ctx.describe(|| format!("{t:?}"));
    if t.chars().count() > 1 {
        ctx.nontrivial(b"");
    }
    encodes(&JsonString::from(t.as_str()), &t)?;
    encodes(&JsonString::from(t.clone()), &t)
}

/// Long strings.
fn c06_long(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let unit = gens::text(g, 6);
    let n = match g.below(3) {
        0 => g.range(250, 260),
        1 => g.range(65_530, 65_540) / unit.len().max(1),
        _ => g.range(1, 5_000),
    };
    let t = unit.repeat(n);
    ctx.describe(|| format!("{unit:?} repeated {n} times"));
    ctx.nontrivial(&[unit.as_bytes(), &n.to_le_bytes()].concat());
    encodes(&JsonString::from(t.as_str()), &t)?;
    encodes(&JsonString::from(t.clone()), &t)
}

pub fn c06() -> Vec<Target> {
    vec![
        rnd("c06.text", c06_text, 250_000, 4_000_000, "a Rust string through every constructor; non-trivial: needs escapes or is not ASCII"),
        rnd("c06.long", c06_long, 2_000, 20_000, "long strings"),
        all("c06.chars", c06_chars, 0x110000, 0x110000, "every character alone and in context"),
        all("c06.pairs", c06_pairs, 264 * 264, 264 * 264, "all pairs of 264 characters"),
        all("c06.words", c06_words, words(12, 5), words(12, 6), "all strings of up to 5 (6) of 12 characters; non-trivial: at least 2"),
    ]
}

// ---------------------------------------------------------------------- C07

/// Records every call made by a Hash implementation.
#[derive(Default, Clone, PartialEq, Debug)]
pub struct Recorder(Vec<(u8, Vec<u8>)>);
impl Hasher for Recorder {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0.push((0, bytes.to_vec()));
    }
    fn write_u8(&mut self, i: u8) {
        self.0.push((1, vec![i]));
    }
    fn write_u16(&mut self, i: u16) {
        self.0.push((2, i.to_le_bytes().to_vec()));
    }
    fn write_u32(&mut self, i: u32) {
        self.0.push((4, i.to_le_bytes().to_vec()));
    }
    fn write_u64(&mut self, i: u64) {
        self.0.push((8, i.to_le_bytes().to_vec()));
    }
    fn write_u128(&mut self, i: u128) {
        self.0.push((16, i.to_le_bytes().to_vec()));
    }
    fn write_usize(&mut self, i: usize) {
        self.0.push((9, i.to_le_bytes().to_vec()));
    }
    fn write_i8(&mut self, i: i8) {
        self.0.push((101, i.to_le_bytes().to_vec()));
    }
    fn write_i32(&mut self, i: i32) {
        self.0.push((104, i.to_le_bytes().to_vec()));
    }
    fn write_i64(&mut self, i: i64) {
        self.0.push((108, i.to_le_bytes().to_vec()));
    }
}
pub fn calls<T: Hash + ?Sized>(t: &T) -> Recorder {
    let mut r = Recorder::default();
    t.hash(&mut r);
    r
}
/// A hasher that is sensitive to how the bytes are split across calls.
struct Splitting(u64);
impl Hasher for Splitting {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        self.0 = self.0.rotate_left(13) ^ (bytes.len() as u64).wrapping_mul(0x9E37_79B9_7F4A_7C15);
        for b in bytes {
            self.0 = (self.0 ^ u64::from(*b)).wrapping_mul(0x100_0000_01b3);
        }
    }
}
pub fn hash_with<T: Hash + ?Sized, H: Hasher>(t: &T, mut h: H) -> u64 {
    t.hash(&mut h);
    h.finish()
}

/// A text that differs only a little, or not at all.
fn neighbour(g: &mut Gen<'_>, t: &str) -> String {
    let mut c: Vec<char> = t.chars().collect();
    match g.weighted(&[6, 2, 2, 2, 3, 2, 1, 1]) {
        0 => {}
        1 => {
            let x = gens::char_of(g, gens::Chars::Any);
            c.push(x);
        }
        2 => {
            c.pop();
        }
        3 if !c.is_empty() => {
            let i = g.below(c.len());
            c[i] = gens::char_of(g, gens::Chars::Any);
        }
        4 if !c.is_empty() => {
            // another character of the same width
            let i = g.below(c.len());
            let w = c[i].len_utf8();
            c[i] = match w {
                1 => (g.below(128) as u8) as char,
                2 => gens::char_of(g, gens::Chars::TwoByte),
                3 => gens::char_of(g, gens::Chars::ThreeByte),
                _ => gens::char_of(g, gens::Chars::Astral),
            };
        }
        5 if c.len() > 1 => {
            let i = g.below(c.len() - 1);
            c.swap(i, i + 1);
        }
        6 => {
            // written out escape instead of the character
            return format!("{}", JsonString::from(t).as_json());
        }
        7 => return gens::text(g, 20),
        _ => {}
    }
    c.into_iter().collect()
}

struct Reps<'m> {
    spelled: &'m [MStr],
    text: &'m str,
}
impl<'m> Reps<'m> {
    fn all(&self) -> Result<Vec<(String, JsonString<'m>)>, crate::engine::Fail> {
        let mut v = Vec::new();
        for m in self.spelled {
            match JsonString::from_json(&m.quoted) {
                Ok(s) => v.push((format!("parsed {}", m.quoted), s)),
                Err(e) => return fail(format!("{} rejected: {e:?}", m.quoted)),
            }
        }
        v.push((format!("borrowed {:?}", self.text), JsonString::from(self.text)));
        v.push((format!("owned {:?}", self.text), JsonString::from(self.text.to_string())));
        Ok(v)
    }
}

fn spellings(g: &mut Gen<'_>, t: &str) -> Vec<MStr> {
    vec![
        gens::spell(g, t, 0),
        gens::spell(g, t, 1),
        gens::spell(g, t, 2),
        gens::spell(g, t, 3),
    ]
}

#[allow(clippy::nonminimal_bool, clippy::neg_cmp_op_on_partial_ord)]
pub(super) fn compare(a: &str, b: &str, sa: &[MStr], sb: &[MStr]) -> R {
    let (ra, rb) = (
        Reps { spelled: sa, text: a }.all()?,
        Reps { spelled: sb, text: b }.all()?,
    );
    let want = a.cmp(b);
    let eq = a == b;
    for (na, x) in &ra {
        // against plain text
        same!((*x == *b, *x == b, *x != b), (eq, eq, !eq), "{na} == text {b:?}");
        same!(x.partial_cmp(b), Some(want), "{na} compared with text {b:?}");
        same!(x.partial_cmp(&b), Some(want), "{na} compared with text {b:?}");
        same!((*x < b, *x <= b, *x > b, *x >= b), (a < b, a <= b, a > b, a >= b), "{na} ordered with text {b:?}");
        let hx = (calls(x), hash_with(x, std::collections::hash_map::DefaultHasher::new()), hash_with(x, Splitting(1)));
        for (nb, y) in &rb {
            same!((x == y, y == x, x != y), (eq, eq, !eq), "{na} == {nb}");
            same!((x.cmp(y), y.cmp(x)), (want, want.reverse()), "{na} cmp {nb}");
            same!(x.partial_cmp(y), Some(want), "{na} partial_cmp {nb}");
            same!((x < y, x <= y, x > y, x >= y), (a < b, a <= b, a > b, a >= b), "{na} ordered with {nb}");
            same!(x.cmp(y) == Ordering::Equal, x == y, "equality and order of {na} and {nb}");
            if eq {
                let hy = (calls(y), hash_with(y, std::collections::hash_map::DefaultHasher::new()), hash_with(y, Splitting(1)));
                same!(hx, hy, "hash of {na} and {nb}");
            }
        }
    }
    // the owned-or-borrowed string type
    let xs = [AnyStr::from(a), AnyStr::from(a.to_string()), AnyStr::from(a).clone()];
    let ys = [AnyStr::from(b), AnyStr::from(b.to_string()), AnyStr::from(b.to_string()).clone()];
    for x in &xs {
        same!((x.as_str(), &**x, AsRef::<str>::as_ref(x), Borrow::<str>::borrow(x)), (a, a, a, a), "AnyStr views of {a:?}");
        same!((*x == *b, *x == b, *x != b), (eq, eq, !eq), "AnyStr {a:?} == {b:?}");
        same!((x.partial_cmp(b), x.partial_cmp(&b)), (Some(want), Some(want)), "AnyStr {a:?} compared with {b:?}");
        same!(calls(x), calls(a), "hash of AnyStr {a:?} and of the text");
        for y in &ys {
            same!((x == y, y == x, x != y), (eq, eq, !eq), "AnyStr {a:?} == AnyStr {b:?}");
            same!((x.partial_cmp(y), y.partial_cmp(x)), (Some(want), Some(want.reverse())), "AnyStr {a:?} compared with AnyStr {b:?}");
            same!((x < y, x <= y, x > y, x >= y), (a < b, a <= b, a > b, a >= b), "AnyStr {a:?} ordered with AnyStr {b:?}");
            if eq {
                same!(calls(x), calls(y), "hash of AnyStr {a:?}");
            }
        }
    }
    Ok(())
}

/// A part of a text that begins and ends with characters.
fn part<'t>(g: &mut Gen<'_>, t: &'t str, from: Option<usize>) -> (usize, &'t str) {
    let ends: Vec<usize> = t.char_indices().map(|(k, _)| k).chain([t.len()]).collect();
    let a = from.unwrap_or_else(|| g.below(ends.len()));
    let b = a + g.below(ends.len() - a);
    (a, &t[ends[a]..ends[b]])
}

/// Strings that share their bytes: parts of one text, and a parsed string with
/// parts of its own source.
fn c07_overlap(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let t = if g.bool() {
        gens::text(g, 24)
    } else {
        let unit = gens::text(g, 3);
        unit.repeat(g.range(1, 6))
    };
    let (i, a) = part(g, &t, None);
    let from = if g.bool() { Some(i) } else { None };
    let (_, b) = part(g, &t, from);
    ctx.describe(|| format!("{a:?} and {b:?} of {t:?}"));
    if a != b && !a.is_empty() && !b.is_empty() {
        ctx.nontrivial(&[a.as_bytes(), b"|", b.as_bytes()].concat());
    }
    let (want, eq) = (a.cmp(b), a == b);
    let (x, y) = (JsonString::from(a), JsonString::from(b));
    same!((x == y, y == x, x == *b, x == b, y == *a), (eq, eq, eq, eq, eq), "{a:?} == {b:?}");
    same!((x.cmp(&y), y.cmp(&x), x.partial_cmp(b)), (want, want.reverse(), Some(want)), "{a:?} cmp {b:?}");
    let (p, q) = (AnyStr::from(a), AnyStr::from(b));
    same!((p == q, q == p, p == *b, p.partial_cmp(&q)), (eq, eq, eq, Some(want)), "AnyStr {a:?} and {b:?}");
    if eq {
        same!(calls(&x), calls(&y), "hash of {a:?}");
        same!(calls(&p), calls(&q), "hash of AnyStr {a:?}");
    }
    // a string and parts of the source it was parsed from
    let style = g.below(4);
    let m = gens::spell(g, &t, style);
    let s = match JsonString::from_json(&m.quoted) {
        Ok(s) => s,
        Err(e) => return bad("JsonString::from_json", &m, e),
    };
    for from in [Some(0), Some(1), None, None] {
        let (_, b) = part(g, &m.quoted, from);
        let (want, eq) = (m.dec.as_str().cmp(b), m.dec == b);
        same!((s == *b, s == b, s.partial_cmp(b)), (eq, eq, Some(want)), "{} and its part {b:?}", m.quoted);
        let y = JsonString::from(b);
        same!((s == y, y == s, s.cmp(&y)), (eq, eq, want), "{} and a string of its part {b:?}", m.quoted);
        if let Ok(y) = JsonString::from_json(b) {
            let dec: String = y.decoded().collect();
            same!((s == y, s.cmp(&y)), (m.dec == dec, m.dec.cmp(&dec)), "{} and {b:?} parsed", m.quoted);
        }
    }
    Ok(())
}

fn c07_pairs(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let a = gens::text(g, 40);
    let b = neighbour(g, &a);
    ctx.describe(|| format!("{a:?} with {b:?}"));
    ctx.label(match a.cmp(&b) {
        Ordering::Equal => "equal",
        Ordering::Less => "less",
        Ordering::Greater => "greater",
    });
    ctx.label_if(a.len() == b.len() && a != b, "same length, different");
    ctx.label_if(a != b && (a.starts_with(&b) || b.starts_with(&a)), "one is a prefix");
    if !a.is_empty() {
        ctx.nontrivial(&[a.as_bytes(), b"|", b.as_bytes()].concat());
    }
    let (sa, sb) = (spellings(g, &a), spellings(g, &b));
    compare(&a, &b, &sa, &sb)
}

/// All pairs of short texts over characters that are close or special.
const CHARS7: [&str; 10] = [
    "a", "b", "\\", "n", "\n", "\"", "\u{e9}", "\u{ffff}", "\u{10000}", "\u{0}",
];
const TEXTS7: u64 = words(10, 2);
fn c07_short(i: u64, ctx: &mut Ctx) -> R {
    let (mut a, mut b) = (Vec::new(), Vec::new());
    word(i / TEXTS7, &CHARS7, &mut a);
    word(i % TEXTS7, &CHARS7, &mut b);
    let (a, b) = (String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap());
    ctx.describe(|| format!("{a:?} with {b:?}"));
    ctx.nontrivial(b"");
    let mut g = Gen::random(crate::engine::mix(i));
    let (sa, sb) = (spellings(&mut g, &a), spellings(&mut g, &b));
    compare(&a, &b, &sa, &sb)
}

/// Sorting and hash-set membership over a mixture of representations.
fn c07_collections(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let n = g.range(2, 12);
    let mut pool: Vec<String> = Vec::new();
    let mut texts: Vec<String> = Vec::new();
    for _ in 0..n {
        let t = if !pool.is_empty() && g.bool() {
            let base = g.pick(&pool).clone();
            neighbour(g, &base)
        } else {
            gens::text(g, 6)
        };
        pool.push(t.clone());
        texts.push(t);
    }
    let how: Vec<usize> = texts.iter().map(|_| g.below(6)).collect();
    let spelled: Vec<MStr> = texts.iter().zip(&how).map(|(t, h)| gens::spell(g, t, h % 4)).collect();
    ctx.describe(|| format!("{texts:?}"));
    ctx.nontrivial(texts.join("|").as_bytes());
    let strings: Vec<JsonString<'_>> = spelled
        .iter()
        .zip(&how)
        .map(|(m, h)| match h {
            4 => JsonString::from(m.dec.as_str()),
            5 => JsonString::from(m.dec.clone()),
            _ => build_str(m, 0),
        })
        .collect();
    let mut by_lib: Vec<usize> = (0..n).collect();
    by_lib.sort_by(|&i, &j| strings[i].cmp(&strings[j]));
    let mut by_text: Vec<usize> = (0..n).collect();
    by_text.sort_by(|&i, &j| texts[i].cmp(&texts[j]));
    same!(by_lib, by_text, "sorted order of {texts:?}");
    let set: std::collections::HashSet<&JsonString<'_>> = strings.iter().collect();
    let ref_set: std::collections::HashSet<&String> = texts.iter().collect();
    same!(set.len(), ref_set.len(), "distinct strings of {texts:?}");
    let tree: std::collections::BTreeSet<&JsonString<'_>> = strings.iter().collect();
    same!(tree.len(), ref_set.len(), "distinct strings of {texts:?} in a tree");
    let probe = g.pick(&pool).clone();
    let ps = JsonString::from(probe.as_str());
    same!(set.contains(&ps), true, "{probe:?} in the set");
    let any: std::collections::HashSet<AnyStr<'_>> = texts
        .iter()
        .zip(&how)
        .map(|(t, h)| if h % 2 == 0 { AnyStr::from(t.as_str()) } else { AnyStr::from(t.clone()) })
        .collect();
    same!(any.len(), ref_set.len(), "distinct AnyStr of {texts:?}");
    check!(any.contains(probe.as_str()), "{probe:?} is not found among AnyStr");
    Ok(())
}

pub fn c07() -> Vec<Target> {
    vec![
        rnd("c07.overlap", c07_overlap, 150_000, 3_000_000, "strings that share their bytes; non-trivial: two different ones"),
        rnd("c07.pairs", c07_pairs, 120_000, 2_500_000, "two near texts in 6 representations each; non-trivial: not empty"),
        rnd("c07.collections", c07_collections, 100_000, 1_500_000, "sorting and sets of mixed representations"),
        all("c07.short", c07_short, TEXTS7 * TEXTS7, TEXTS7 * TEXTS7, "all pairs of texts of up to 2 of 10 characters"),
    ]
}

// ---------------------------------------------------------------------- C21

/// Drives an iterator through a random history against the remaining text.
fn stream<I>(g: &mut Gen<'_>, it: I, text: &str, what: &str) -> R
where
    I: Iterator<Item = char> + Clone + Display,
{
    let chars: Vec<char> = text.chars().collect();
    let n = chars.len();
    let rest = |k: usize| -> String { chars[k.min(n)..].iter().collect() };
    let bracket = |it: &I, k: usize| -> R {
        let (lo, hi) = it.size_hint();
        let left = n - k;
        check!(
            lo <= left && hi.is_none_or(|h| left <= h),
            "{what}: {left} characters remain after {k} of {text:?}, size_hint is {:?}",
            (lo, hi)
        );
        Ok(())
    };
    // at every position
    let mut cur = it.clone();
    for (k, c) in chars.iter().enumerate() {
        bracket(&cur, k)?;
        if n <= 12 || g.chance(1, (n as u64 / 10).max(6)) {
            let clone = cur.clone();
            bracket(&clone, k)?;
            match g.below(7) {
                0 => same!(clone.collect::<String>(), rest(k), "{what}: clone at {k} of {text:?}"),
                1 => same!(cur.to_string(), rest(k), "{what}: Display at {k} of {text:?}"),
                2 => same!(clone.count(), n - k, "{what}: count at {k} of {text:?}"),
                3 => same!(clone.last(), chars.last().copied(), "{what}: last at {k} of {text:?}"),
                4 => {
                    let mut c2 = clone;
                    let j = g.below(n - k + 2);
                    same!(c2.nth(j), chars.get(k + j).copied(), "{what}: nth({j}) at {k} of {text:?}");
                    let now = (k + j + 1).min(n);
                    bracket(&c2, now)?;
                    same!(c2.collect::<String>(), rest(now), "{what}: after nth({j}) at {k} of {text:?}");
                }
                5 => {
                    let mut s = String::from("x");
                    s.extend(clone);
                    same!(s[1..], rest(k), "{what}: extend at {k} of {text:?}");
                    same!(format!("{cur}|{cur}"), format!("{0}|{0}", rest(k)), "{what}: Display twice at {k} of {text:?}");
                }
                _ => {
                    let folded = clone.fold(String::new(), |mut a, c| {
                        a.push(c);
                        a
                    });
                    same!(folded, rest(k), "{what}: fold at {k} of {text:?}");
                }
            }
        }
        same!(cur.next(), Some(*c), "{what}: character {k} of {text:?}");
    }
    for _ in 0..3 {
        bracket(&cur, n)?;
        same!(cur.to_string(), "", "{what}: Display at the end of {text:?}");
        same!(cur.clone().next(), None, "{what}: clone at the end of {text:?}");
        same!(cur.next(), None, "{what}: after the end of {text:?}");
    }
    // the first iterator was not disturbed
    same!(it.clone().collect::<String>(), text, "{what}: the original");
    same!(it.to_string(), text, "{what}: the original displayed");
    for _ in 0..2 {
        adaptors(g, it.clone(), &chars, what)?;
    }
    // a random history on a small set of live iterators
    let mut live: Vec<(I, usize)> = vec![(it, 0)];
    for _ in 0..g.below(12) {
        let i = g.below(live.len());
        match g.below(5) {
            0 => {
                let (x, k) = &mut live[i];
                let want = chars.get(*k).copied();
                same!(x.next(), want, "{what}: next at {k} of {text:?}");
                *k = (*k + 1).min(n);
            }
            1 if live.len() < 5 => {
                let c = (live[i].0.clone(), live[i].1);
                live.push(c);
            }
            2 => {
                let (x, k) = &live[i];
                same!(x.to_string(), rest(*k), "{what}: Display at {k} of {text:?}");
            }
            3 => {
                let j = g.below(4);
                let (x, k) = &mut live[i];
                let got: String = x.by_ref().take(j).collect();
                let want: String = chars[*k..(*k + j).min(n)].iter().collect();
                same!(got, want, "{what}: take({j}) at {k} of {text:?}");
                *k = (*k + j).min(n);
            }
            _ => bracket(&live[i].0, live[i].1)?,
        }
    }
    for (x, k) in live {
        same!(x.collect::<String>(), rest(k), "{what}: rest after {k} of {text:?}");
    }
    Ok(())
}

fn c21_both(g: &mut Gen<'_>, s: &JsonString<'_>, m: &MStr, parsed: bool, what: &str) -> R {
    stream(g, s.decoded(), &m.dec, &format!("decoded of {what}"))?;
    let json = if parsed { m.body().to_string() } else { one_pass(s, &m.dec)? };
    stream(g, s.as_json(), &json, &format!("as_json of {what}"))
}

/// What one uninterrupted pass over the JSON spelling of a text yields. Which
/// spelling it is is the library's choice, but it has to be one of the text.
pub(super) fn one_pass(s: &JsonString<'_>, t: &str) -> Result<String, Fail> {
    let json = s.as_json().collect::<String>();
    // which character `\b` stands for is a matter of another property
    let fine = refjson::valid_body(json.as_bytes()) && ['\u{8}', '\u{7}'].iter().any(|b| refjson::decode(&json, *b) == t);
    check!(fine, "as_json of {:?} yields {}", t, show_bytes(json.as_bytes()));
    Ok(json)
}

fn c21_stream(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let t = gens::text(g, 60);
    let style = g.below(4);
    let m = gens::spell(g, &t, style);
    ctx.describe(|| format!("{} denoting {:?}", m.quoted, m.dec));
    ctx.label_if(m.esc, "escapes");
    ctx.label_if(t.chars().count() > 12, "over 12 characters");
    if t.chars().count() > 1 {
        ctx.nontrivial(m.quoted.as_bytes());
    }
    match JsonString::from_json(&m.quoted) {
        Ok(s) => c21_both(g, &s, &m, true, &m.quoted)?,
        Err(e) => return bad("JsonString::from_json", &m, e),
    }
    c21_both(g, &JsonString::from(t.as_str()), &m, false, "a borrowed text")?;
    c21_both(g, &JsonString::from(t.clone()), &m, false, "an owned text")
}

/// Every short string over special characters, with every clone position.
fn c21_short(i: u64, ctx: &mut Ctx) -> R {
    let mut b = Vec::new();
    word(i, &CHARS6, &mut b);
    let t = String::from_utf8(b).unwrap();
    ctx.describe(|| format!("{t:?}"));
    if t.chars().count() > 1 {
        ctx.nontrivial(b"");
    }
    let mut g = Gen::random(crate::engine::mix(i));
    for style in 0..4 {
        let m = gens::spell(&mut g, &t, style);
        match JsonString::from_json(&m.quoted) {
            Ok(s) => c21_both(&mut g, &s, &m, true, &m.quoted)?,
            Err(e) => return bad("JsonString::from_json", &m, e),
        }
        if style == 0 {
            c21_both(&mut g, &JsonString::from(t.as_str()), &m, false, "a borrowed text")?;
            c21_both(&mut g, &JsonString::from(t.clone()), &m, false, "an owned text")?;
        }
    }
    Ok(())
}

/// Every control character and its escape, stopped at every position.
fn c21_controls(i: u64, ctx: &mut Ctx) -> R {
    let c = char::from((i / 4) as u8);
    let t = [format!("{c}"), format!("{c}a"), format!("a{c}{c}"), format!("{c}\u{1f639}{c}")][(i % 4) as usize].clone();
    ctx.describe(|| format!("{t:?}"));
    ctx.nontrivial(b"");
    for seed in 0..12 {
        let mut g = Gen::random(crate::engine::mix(i * 100 + seed));
        let m = gens::spell(&mut g, &t, (seed % 4) as usize);
        match JsonString::from_json(&m.quoted) {
            Ok(s) => c21_both(&mut g, &s, &m, true, &m.quoted)?,
            Err(e) => return bad("JsonString::from_json", &m, e),
        }
        c21_both(&mut g, &JsonString::from(t.as_str()), &m, false, "a borrowed text")?;
    }
    Ok(())
}

pub fn c21() -> Vec<Target> {
    vec![
        rnd("c21.stream", c21_stream, 150_000, 2_500_000, "a string in three representations, both iterators, operations at every position; non-trivial: at least 2 characters"),
        all("c21.short", c21_short, words(12, 3), words(12, 4), "all strings of up to 3 (4) of 12 characters; non-trivial: at least 2"),
        all("c21.controls", c21_controls, 256 * 4, 256 * 4, "every character below U+0100 in four contexts"),
    ]
}

#[allow(dead_code)]
const _: Config = Config::DEFAULT;
