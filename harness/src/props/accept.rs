//! C01 acceptance, C02 settings, C03 robustness, C04 faithful structure.

use super::{all, rnd};
use crate::common::*;
use crate::dict;
use crate::engine::{fail, show_bytes, Ctx, Gen, Target, R};
use crate::gens::{self, MVal};
use crate::refjson::{self, Config, Tok};
use crate::{check, same};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{JsonKind, Parser, Token, Tokenizer};
use justjson::{AnyStr, ErrorKind, JsonNumber, JsonString, Value};

// ------------------------------------------------------------------ helpers

/// Every general entry point must accept or reject as expected.
pub fn expect(b: &[u8], cfg: Config, want: bool) -> R {
    let p = lib_config(cfg);
    let utf8 = std::str::from_utf8(b).ok();
    macro_rules! ask {
        ($name:literal, $e:expr) => {{
            let got = $e;
            if got.is_ok() != want {
                return fail(format!(
                    "{} {} {} [{}]: {}",
                    $name,
                    if want { "rejects the valid text" } else { "accepts the invalid text" },
                    show_bytes(b),
                    show_config(&cfg),
                    match got {
                        Ok(_) => String::from("Ok"),
                        Err(e) => format!("{:?} at {}", e.kind(), e.offset()),
                    }
                ));
            }
        }};
    }
    ask!("Value::from_json_bytes_with_config", Value::from_json_bytes_with_config(b, p));
    ask!("Document::from_json_bytes_with_config", Document::from_json_bytes_with_config(b, p));
    ask!("validate_json_bytes_with_config", Parser::validate_json_bytes_with_config(b, p));
    if let Some(s) = utf8 {
        ask!("Value::from_json_with_config", Value::from_json_with_config(s, p));
        ask!("Document::from_json_with_config", Document::from_json_with_config(s, p));
        ask!("validate_json_with_config", Parser::validate_json_with_config(s, p));
    }
    // a bounded document, unless it is too small
    macro_rules! bounded {
        ($name:literal, $e:expr) => {{
            let got: Result<HeaplessDocument<'_, 256>, justjson::Error> = $e;
            if !matches!(&got, Err(e) if *e.kind() == ErrorKind::PaylodTooLarge) {
                ask!($name, got);
            }
        }};
    }
    bounded!("HeaplessDocument::from_json_bytes_with_config", HeaplessDocument::from_json_bytes_with_config(b, p));
    if let Some(s) = utf8 {
        bounded!("HeaplessDocument::from_json_with_config", HeaplessDocument::from_json_with_config(s, p));
    }
    if cfg == Config::DEFAULT {
        bounded!("HeaplessDocument::from_json_bytes", HeaplessDocument::from_json_bytes(b));
        if let Some(s) = utf8 {
            bounded!("HeaplessDocument::from_json", HeaplessDocument::from_json(s));
        }
        ask!("Value::from_json_bytes", Value::from_json_bytes(b));
        ask!("Document::from_json_bytes", Document::from_json_bytes(b));
        ask!("validate_json_bytes", Parser::validate_json_bytes(b));
        ask!("parse_json_bytes", Parser::parse_json_bytes(b, ()));
        if let Some(s) = utf8 {
            ask!("Value::from_json", Value::from_json(s));
            ask!("Document::from_json", Document::from_json(s));
            ask!("validate_json", Parser::validate_json(s));
            ask!("parse_json", Parser::parse_json(s, ()));
        }
    }
    Ok(())
}

/// A cheaper variant for the big enumerations.
fn expect_quick(b: &[u8], want: bool) -> R {
    let v = Value::from_json_bytes(b);
    let d = Parser::validate_json_bytes(b);
    if v.is_ok() != want || d.is_ok() != want {
        return expect(b, Config::DEFAULT, want).and_then(|()| {
            fail(format!("acceptance of {} is not {want}", show_bytes(b)))
        });
    }
    if let Ok(s) = std::str::from_utf8(b) {
        let v = Value::from_json(s);
        if v.is_ok() != want {
            return expect(b, Config::DEFAULT, want);
        }
    }
    Ok(())
}

/// The `index`-th word over `alphabet` (shorter words first), appended to out.
pub fn word(mut index: u64, alphabet: &[&str], out: &mut Vec<u8>) -> usize {
    let k = alphabet.len() as u64;
    let mut len = 0usize;
    let mut count = 1u64;
    while index >= count {
        index -= count;
        count *= k;
        len += 1;
    }
    let mut digits = [0usize; 32];
    for d in digits[..len].iter_mut().rev() {
        *d = (index % k) as usize;
        index /= k;
    }
    for d in &digits[..len] {
        out.extend_from_slice(alphabet[*d].as_bytes());
    }
    len
}
pub const fn words(k: u64, max_len: u32) -> u64 {
    let mut total = 1;
    let mut c = 1;
    let mut i = 0;
    while i < max_len {
        c *= k;
        total += c;
        i += 1;
    }
    total
}

// ---------------------------------------------------------------------- C01

fn c01_valid(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (v, t) = gens::valid_text(g, 128);
    let b = t.s.as_bytes();
    ctx.describe(|| format!("valid text {}", show_bytes(b)));
    check!(
        refjson::accepts(b, Config::DEFAULT),
        "HARNESS: the reference rejects a constructed text {}",
        show_bytes(b)
    );
    ctx.label_if(v.depth() >= 127, "depth 127-128");
    ctx.label_if(v.any_escapes(), "escapes");
    ctx.label_if(!b.is_ascii(), "non-ASCII");
    if v.is_container() {
        ctx.nontrivial(b);
    }
    expect(b, Config::DEFAULT, true)
}

fn c01_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, model) = gens::any_input(g, 132);
    ctx.describe(|| show_bytes(&b));
    let want = refjson::accepts(&b, Config::DEFAULT);
    if let Some(m) = &model {
        check!(
            want == (m.depth() <= 128),
            "HARNESS: the reference disagrees with the construction of {}",
            show_bytes(&b)
        );
    }
    ctx.label(if want { "valid" } else { "invalid" });
    ctx.label_if(std::str::from_utf8(&b).is_err(), "not UTF-8");
    if b.len() > 2 {
        ctx.nontrivial(&b);
    }
    expect(&b, Config::DEFAULT, want)
}

const STRUCT: [&str; 10] = ["{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " "];
fn c01_structure(i: u64, ctx: &mut Ctx) -> R {
    let mut b = Vec::new();
    let n = word(i, &STRUCT, &mut b);
    ctx.describe(|| show_bytes(&b));
    let want = refjson::accepts(&b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    if n > 1 {
        ctx.nontrivial(b"");
    }
    expect_quick(&b, want)
}

const NUMCH: [&str; 9] = ["0", "1", "9", "-", "+", ".", "e", "E", " "];
fn c01_numbers(i: u64, ctx: &mut Ctx) -> R {
    let mut b = vec![b'['];
    let n = word(i, &NUMCH, &mut b);
    ctx.describe(|| show_bytes(&b[1..]));
    let want = refjson::accepts(&b[1..], Config::DEFAULT);
    ctx.label_if(want, "valid");
    if n > 1 {
        ctx.nontrivial(b"");
    }
    expect_quick(&b[1..], want)?;
    b.push(b']');
    let want = refjson::accepts(&b, Config::DEFAULT);
    expect_quick(&b, want)
}

const STRCH: [&str; 11] = ["a", "\"", "\\", "u", "0", "d", "8", "C", "\n", "b", "\u{e9}"];
fn c01_strings(i: u64, ctx: &mut Ctx) -> R {
    let mut b = vec![b'"'];
    let n = word(i, &STRCH, &mut b);
    b.push(b'"');
    ctx.describe(|| show_bytes(&b));
    let want = refjson::accepts(&b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    if n > 1 {
        ctx.nontrivial(b"");
    }
    expect_quick(&b, want)
}

/// Every content of three bytes.
fn c01_bytes3(i: u64, ctx: &mut Ctx) -> R {
    let b = [b'"', (i >> 16) as u8, (i >> 8) as u8, i as u8, b'"'];
    ctx.describe(|| show_bytes(&b));
    let want = refjson::accepts(&b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    let got = Parser::validate_json_bytes(&b);
    if got.is_ok() != want {
        return expect(&b, Config::DEFAULT, want);
    }
    Ok(())
}

/// Four-byte sequences around the boundaries.
fn c01_bytes4(i: u64, ctx: &mut Ctx) -> R {
    const EDGE: [u8; 8] = [0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0];
    let lead = 0xef + (i / (256 * 64)) as u8;
    let r = i % (256 * 64);
    let b = [
        b'"',
        lead,
        (r / 64) as u8,
        EDGE[(r / 8 % 8) as usize],
        EDGE[(r % 8) as usize],
        b'"',
    ];
    ctx.describe(|| show_bytes(&b));
    let want = refjson::accepts(&b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    expect_quick(&b, want)
}

const TEMPLATE: &str = "{\"a\":[1,{\"b\":null}],\"c\":[true,\"x\",-0.5e+7,[],{}]}";
/// Every byte inserted, or put in place of another, at every position.
fn c01_insert_byte(i: u64, ctx: &mut Ctx) -> R {
    let (c, rest) = ((i % 256) as u8, i / 256);
    let (replace, pos) = (rest % 2 == 1, (rest / 2) as usize);
    let mut b = TEMPLATE.as_bytes().to_vec();
    if replace && pos < b.len() {
        b[pos] = c;
    } else {
        b.insert(pos, c);
    }
    ctx.describe(|| show_bytes(&b));
    let want = refjson::accepts(&b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    expect_quick(&b, want)
}

/// Every character inserted at the places between tokens.
fn c01_insert_char(i: u64, ctx: &mut Ctx) -> R {
    const AT: [usize; 4] = [0, 5, 8, TEMPLATE.len()];
    let (cp, at) = ((i / 4) as u32, AT[(i % 4) as usize]);
    let Some(c) = char::from_u32(cp) else { return Ok(()) };
    let mut s = TEMPLATE.to_string();
    s.insert(at, c);
    ctx.describe(|| s.clone());
    let want = refjson::accepts(s.as_bytes(), Config::DEFAULT);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    expect_quick(s.as_bytes(), want)
}

/// \uXXXX alone, for all values; and followed by a second escape around the
/// surrogate ranges.
const HI: (u64, u64) = (0xD7F0, 0xDC10);
const LO: (u64, u64) = (0xDBF0, 0xE010);
const PAIRS: u64 = (HI.1 - HI.0) * (LO.1 - LO.0);
fn c01_unicode_escapes(i: u64, ctx: &mut Ctx) -> R {
    ctx.nontrivial(b"");
    if i < 0x10000 {
        let s = format!("\"\\u{i:04x}\"");
        let want = !(0xD800..0xE000).contains(&i);
        ctx.describe(|| s.clone());
        ctx.label_if(want, "valid");
        return expect_quick(s.as_bytes(), want);
    }
    let i = i - 0x10000;
    let n = LO.1 - LO.0;
    let (h, l) = (HI.0 + i / n, LO.0 + i % n);
    let is_hi = |v: u64| (0xD800..0xDC00).contains(&v);
    let is_lo = |v: u64| (0xDC00..0xE000).contains(&v);
    let want = (is_hi(h) && is_lo(l)) || !(is_hi(h) || is_lo(h) || is_hi(l) || is_lo(l));
    let mut b = *b"\"\\u0000\\u0000\"";
    const HEX: &[u8; 16] = b"0123456789ABCDEF";
    for k in 0..4 {
        b[3 + k] = HEX[(h >> (12 - 4 * k) & 15) as usize];
        b[9 + k] = HEX[(l >> (12 - 4 * k) & 15) as usize];
    }
    ctx.describe(|| show_bytes(&b));
    ctx.label_if(want, "valid");
    let got = Parser::validate_json_bytes(&b);
    if got.is_ok() != want {
        return expect(&b, Config::DEFAULT, want);
    }
    Ok(())
}

/// Every byte as the escaped character and in every hex position, also of the
/// second half of a pair.
fn c01_escape_bytes(i: u64, ctx: &mut Ctx) -> R {
    let (pos, c) = ((i / 256) as usize, (i % 256) as u8);
    let mut b = b"\"x\\ud83d\\ude39y\"".to_vec();
    // offsets 2..=13 are the two escapes
    b[2 + pos] = c;
    ctx.describe(|| show_bytes(&b));
    let want = refjson::accepts(&b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    expect_quick(&b, want)?;
    let mut b = b"\"x\\u00e9y\"".to_vec();
    if pos < 6 {
        b[2 + pos] = c;
        let want = refjson::accepts(&b, Config::DEFAULT);
        expect_quick(&b, want)?;
    }
    Ok(())
}

/// Nesting of every depth up to 400, four shapes, complete and not.
fn c01_depth(i: u64, ctx: &mut Ctx) -> R {
    let (d, shape) = ((i / 8) as usize, i % 8);
    let mut s = String::new();
    let obj = |k: usize| match shape % 4 {
        0 => false,
        1 => true,
        2 => k % 2 == 0,
        _ => k % 3 != 0,
    };
    for k in 0..d {
        s.push_str(if obj(k) { "{\"k\":" } else { "[" });
    }
    s.push('1');
    if shape < 4 {
        for k in (0..d).rev() {
            s.push(if obj(k) { '}' } else { ']' });
        }
        // a second deep branch must not be charged for the first one
        if d > 0 && d <= 128 {
            s = if obj(0) {
                let inner = &s[5..s.len() - 1];
                format!("{{\"k\":{inner},\"l\":{inner}}}")
            } else {
                let inner = &s[1..s.len() - 1];
                format!("[{inner},{inner},{inner}]")
            };
        }
    }
    ctx.describe(|| show_bytes(s.as_bytes()));
    let want = d <= 128 && (shape < 4 || d == 0);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    check!(
        refjson::accepts(s.as_bytes(), Config::DEFAULT) == want,
        "HARNESS: reference and construction disagree on depth {d} shape {shape}"
    );
    expect(s.as_bytes(), Config::DEFAULT, want)
}

/// Where a piece may stand.
const PLACES: [(&str, &str); 40] = [
    ("", ""), (" ", " "), ("\n", "\n"), ("[", "]"), ("[1,", "]"), ("[", ",1]"), ("[1", "]"), ("[1", "2]"), ("[1 ", " 2]"),
    ("[[]", "]"), ("[[],", ",[]]"), ("[", "[]]"), ("[", "1]"), ("[", "\"a\"]"), ("[\"a\"", "]"), ("[\"a\"", "\"b\"]"), ("[true", "]"),
    ("[-", "]"), ("[-1", "]"), ("[1.5", "]"), ("[1e5", "]"), ("{\"a\":", "}"), ("{\"a\":1,\"b\":", "}"), ("{\"a\":1", "}"),
    ("{\"a\":1,", "}"), ("{", "}"), ("{", ":1}"), ("{", "\"a\":1}"), ("{\"a\"", "1}"), ("{\"a\"", ":1}"), ("{\"a\":", "1}"),
    ("{\"a\":1,", ":1}"), ("\"", "\""), ("\"a", "b\""), ("{\"", "\":1}"), ("1", ""), ("", "1"), ("[1]", ""), ("", "[1]"),
    ("{}", ""),
];
const PIECES: usize = gens::DIALECT.len() + gens::NUMERALS.len();
fn piece(i: usize) -> &'static str {
    if i < gens::DIALECT.len() { gens::DIALECT[i] } else { gens::NUMERALS[i - gens::DIALECT.len()] }
}
/// What other notations have, alone and in pairs, wherever it may stand.
fn c01_dialects(i: u64, ctx: &mut Ctx) -> R {
    let (before, after) = PLACES[(i % PLACES.len() as u64) as usize];
    let i = i as usize / PLACES.len();
    let b = if i < PIECES {
        format!("{before}{}{after}", piece(i))
    } else {
        // a second piece, directly or not
        let i = i - PIECES;
        let (i, gap) = (i / 3, ["", " ", "\n"][i % 3]);
        format!("{before}{}{gap}{}{after}", piece(i % PIECES), piece(i / PIECES))
    };
    let b = b.as_bytes();
    ctx.describe(|| show_bytes(b));
    let want = refjson::accepts(b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    expect_quick(b, want)?;
    if i < PIECES {
        expect(b, Config::DEFAULT, want)?;
    }
    Ok(())
}
const DIALECT_PAIRS: u64 = (PLACES.len() * PIECES * (1 + 3 * PIECES)) as u64;

/// The words, characters and numbers of the code, alone and in pairs, wherever
/// they may stand.
fn c01_dictionary(i: u64, ctx: &mut Ctx) -> R {
    let p = &dict::get().pieces;
    let (before, after) = PLACES[(i % PLACES.len() as u64) as usize];
    let i = i as usize / PLACES.len();
    let (a, b) = (p[i % p.len()], (i / p.len()).checked_sub(1).map_or("", |k| p[k]));
    let b = format!("{before}{a}{b}{after}");
    let b = b.as_bytes();
    ctx.describe(|| show_bytes(b));
    let want = refjson::accepts(b, Config::DEFAULT);
    ctx.label_if(want, "valid");
    ctx.nontrivial(b"");
    if i < p.len() {
        expect(b, Config::DEFAULT, want)
    } else {
        expect_quick(b, want)
    }
}
fn dictionary_pairs() -> u64 {
    let p = dict::get().pieces.len();
    (PLACES.len() * p * (1 + p)) as u64
}

/// A word in place of a literal, letter by letter, in every case and cut at
/// every place.
fn c01_words(i: u64, ctx: &mut Ctx) -> R {
    const WORDS: [&str; 12] = [
        "true", "false", "null", "nan", "inf", "infinity", "undefined", "none", "nil", "yes", "truee", "nulll",
    ];
    let (i, place) = (i / 4, i % 4);
    let (word, i) = (WORDS[(i / 1024) as usize], i % 1024);
    // the low bits tell the case of each letter, all but the first of which
    // share one once the word is long
    let n = word.len();
    let mut s: Vec<u8> = word.bytes().enumerate().map(|(k, c)| if i >> k.min(8) & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
    if i >> 9 & 1 == 1 {
        s.insert(0, b'-');
    }
    for cut in 1..=s.len() {
        let mut b = [&b""[..], b"[", b"{\"a\":", b"[1,"][place as usize].to_vec();
        b.extend_from_slice(&s[..cut]);
        b.extend_from_slice([&b""[..], b"]", b"}", b",2]"][place as usize]);
        ctx.describe(|| show_bytes(&b));
        let want = refjson::accepts(&b, Config::DEFAULT);
        ctx.label_if(want, "valid");
        expect_quick(&b, want)?;
    }
    if n > 0 {
        ctx.nontrivial(b"");
    }
    Ok(())
}

pub fn c01() -> Vec<Target> {
    vec![
        all("c01.dictionary", c01_dictionary, dictionary_pairs(), dictionary_pairs(), "the literals found in the source, alone and in pairs, in 40 places; all non-trivial"),
        all("c01.dialects", c01_dialects, DIALECT_PAIRS, DIALECT_PAIRS, "what 309 pieces of other notations, alone and in pairs, in 40 places; all non-trivial"),
        all("c01.words", c01_words, 4 * 12 * 1024, 4 * 12 * 1024, "12 words in all cases, cut everywhere, in 4 places; all non-trivial"),
        rnd("c01.valid", c01_valid, 250_000, 4_000_000, "constructed valid text; non-trivial: the root is a container"),
        rnd("c01.any", c01_any, 900_000, 12_000_000, "valid, mutated, token soup, raw bytes, deep, bad UTF-8; non-trivial: more than 2 bytes"),
        all("c01.structure", c01_structure, words(10, 6), words(10, 7), "all words over 10 structural tokens; non-trivial: at least 2 tokens"),
        all("c01.numbers", c01_numbers, words(9, 6), words(9, 7), "all words over the number alphabet, alone and in an array; non-trivial: at least 2 characters"),
        all("c01.strings", c01_strings, words(11, 6), words(11, 7), "all string interiors over 11 pieces; non-trivial: at least 2 pieces"),
        all("c01.bytes3", c01_bytes3, 1 << 24, 1 << 24, "all three-byte string contents"),
        all("c01.bytes4", c01_bytes4, 7 * 256 * 64, 7 * 256 * 64, "boundary four-byte string contents"),
        all("c01.insert_byte", c01_insert_byte, 512 * (TEMPLATE.len() as u64 + 1), 512 * (TEMPLATE.len() as u64 + 1), "every byte inserted or substituted at every position of a template"),
        all("c01.insert_char", c01_insert_char, 4 * 0x10000, 4 * 0x110000, "every character inserted between tokens"),
        all("c01.unicode_escapes", c01_unicode_escapes, 0x10000 + PAIRS, 0x10000 + PAIRS, "every \\uXXXX and every pair around the surrogate ranges"),
        all("c01.escape_bytes", c01_escape_bytes, 12 * 256, 12 * 256, "every byte at every place of two escapes"),
        all("c01.depth", c01_depth, 8 * 400, 8 * 1000, "every nesting depth in 8 shapes"),
    ]
}

// ---------------------------------------------------------------------- C02

const CORNERS: usize = 4;
fn c02_document(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let trailing = g.chance(2, 3);
    let v = gens::value(g, 24);
    let style = gens::ws_style(g);
    let (t, n) = gens::emit(g, &v, style, trailing);
    let depth = v.depth();
    let scalar = !v.is_container();
    ctx.describe(|| format!("{n} trailing commas, depth {depth}: {}", show_bytes(t.s.as_bytes())));
    ctx.label_if(n > 0, "trailing commas");
    ctx.label_if(scalar, "scalar root");
    ctx.label_if(depth > 3, "depth > 3");
    if n > 0 || depth > 0 {
        ctx.nontrivial(t.s.as_bytes());
    }
    for corner in 0..CORNERS {
        let (tc, any) = (corner & 1 == 1, corner & 2 == 2);
        for limit in [None, Some(depth), depth.checked_sub(1), Some(depth + 1), Some(128), Some(0)] {
            // depth.checked_sub(1) is None (no limit) when the depth is 0
            let cfg = Config { trailing_commas: tc, any_root: any, limit };
            let want = (tc || n == 0)
                && (any || !scalar)
                && limit.is_none_or(|l| depth <= l);
            check!(
                refjson::accepts(t.s.as_bytes(), cfg) == want,
                "HARNESS: reference and construction disagree under {}",
                show_config(&cfg)
            );
            expect(t.s.as_bytes(), cfg, want)?;
            if want {
                // what is accepted means the same
                let got = Value::from_json_with_config(&t.s, lib_config(cfg))
                    .map_err(|_| crate::engine::Fail { msg: "rejected on the second try".into() })?;
                value_matches(&got, &v)?;
                let doc = Document::from_json_bytes_with_config(t.s.as_bytes(), lib_config(cfg))
                    .map_err(|_| crate::engine::Fail { msg: "rejected on the second try".into() })?;
                let mut want_nodes = Vec::new();
                preorder(&v, &mut want_nodes);
                same!(doc.iter().count(), want_nodes.len(), "document nodes");
                for (a, b) in doc.iter().zip(&want_nodes) {
                    node_matches(&a, b)?;
                }
            }
        }
    }
    Ok(())
}

fn c02_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, model) = gens::any_input(g, 30);
    let near = model.map_or(3, |m| m.depth());
    let mut cfg = gen_cfg(g, near);
    widen(g, &b, &mut cfg);
    ctx.describe(|| format!("{} under {}", show_bytes(&b), show_config(&cfg)));
    ctx.label_if(cfg.limit.is_none_or(|l| l > 0xfe), "no limit or a wide one");
    let want = refjson::accepts(&b, cfg);
    ctx.label(if want { "valid" } else { "invalid" });
    ctx.label_if(want != refjson::accepts(&b, Config::DEFAULT), "differs from the default settings");
    if b.len() > 2 {
        ctx.nontrivial(&b);
    }
    expect(&b, cfg, want)
}

/// All short token words under all corners and small limits.
const STRUCT2: [&str; 7] = ["{", "}", "[", "]", ",", "\"a\":", "1"];
fn c02_structure(i: u64, ctx: &mut Ctx) -> R {
    let (i, corner, limit) = (i / 20, (i / 5 % 4) as usize, (i % 5) as usize);
    let mut b = Vec::new();
    let n = word(i, &STRUCT2, &mut b);
    let cfg = Config {
        trailing_commas: corner & 1 == 1,
        any_root: corner & 2 == 2,
        limit: if limit == 4 { None } else { Some(limit) },
    };
    ctx.describe(|| format!("{} under {}", show_bytes(&b), show_config(&cfg)));
    let want = refjson::accepts(&b, cfg);
    ctx.label_if(want, "valid");
    if n > 1 {
        ctx.nontrivial(b"");
    }
    let p = lib_config(cfg);
    if Value::from_json_bytes_with_config(&b, p).is_ok() != want
        || Parser::validate_json_bytes_with_config(&b, p).is_ok() != want
        || Document::from_json_bytes_with_config(&b, p).is_ok() != want
    {
        return expect(&b, cfg, want);
    }
    Ok(())
}

/// The named configurations are what they say.
fn c02_defaults(i: u64, ctx: &mut Ctx) -> R {
    use justjson::parser::ParseConfig;
    ctx.nontrivial(b"");
    ctx.describe(|| format!("configuration builder case {i}"));
    let new = ParseConfig::new();
    same!(new, ParseConfig::default(), "default settings");
    same!(
        (new.allow_trailing_commas, new.recursion_limit, new.allow_all_types_at_root),
        (false, Some(128), true),
        "ParseConfig::new()"
    );
    let strict = ParseConfig::strict();
    same!(
        (strict.allow_trailing_commas, strict.recursion_limit, strict.allow_all_types_at_root),
        (false, Some(128), false),
        "ParseConfig::strict()"
    );
    // a history of setters: each touches its own setting only
    let mut p = if i & 1 == 0 { new } else { strict };
    let mut m = (false, Some(128usize), i & 1 == 0);
    let mut h = i >> 1;
    for _ in 0..4 {
        match h % 6 {
            0 => {
                p = p.allowing_trailing_commas();
                m.0 = true;
            }
            1 => {
                p = p.without_recursion_limit();
                m.1 = None;
            }
            2 => {
                p = p.with_recursion_limit(7);
                m.1 = Some(7);
            }
            3 => {
                p = p.allowing_all_types_at_root(true);
                m.2 = true;
            }
            4 => {
                p = p.allowing_all_types_at_root(false);
                m.2 = false;
            }
            _ => {
                p = p.with_recursion_limit(0);
                m.1 = Some(0);
            }
        }
        h /= 6;
        same!(
            (p.allow_trailing_commas, p.recursion_limit, p.allow_all_types_at_root),
            m,
            "settings after setters"
        );
    }
    Ok(())
}

/// Nesting around and far beyond every kind of limit.
fn c02_nesting(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, shape, s)) = nesting_case(i, usize::MAX) else { return Ok(()) };
    ctx.describe(|| format!("nesting of {depth}, shape {shape}"));
    if depth > 0 {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.label_if(depth > 128, "deeper than the default limit");
    let commas = shape == 7 && depth > 1;
    let limits = [
        None,
        Some(depth),
        Some(depth.saturating_sub(1)),
        Some(depth / 2),
        Some(depth + 1),
        Some(2 * depth + 300),
        Some(128),
        Some(usize::MAX),
    ];
    for limit in limits {
        for tc in [true, false] {
            let cfg = Config { trailing_commas: tc, limit, any_root: true };
            let want = (tc || !commas) && limit.is_none_or(|l| depth <= l);
            check!(
                refjson::accepts(s.as_bytes(), cfg) == want,
                "HARNESS: reference and construction disagree on nesting of {depth}, shape {shape} [{}]",
                show_config(&cfg)
            );
            expect(s.as_bytes(), cfg, want)?;
        }
    }
    Ok(())
}

/// Limits far from the nesting, also those that end in few bits.
const WIDE_SHAPES: u64 = 4;
const WIDE_DEPTHS: [usize; 11] = [0, 1, 2, 3, 4, 16, 129, 255, 256, 257, 1025];
fn c02_wide(i: u64, ctx: &mut Ctx) -> R {
    let (i, shape) = (i / WIDE_SHAPES, [0, 1, 5, 7][(i % WIDE_SHAPES) as usize]);
    let (limit, depth) = (WIDE[i as usize % WIDE.len()], WIDE_DEPTHS[i as usize / WIDE.len()]);
    let s = nested(depth, shape);
    ctx.describe(|| format!("nesting of {depth}, shape {shape}, limit {limit:#x}"));
    ctx.nontrivial(b"");
    let tc = shape == 7;
    for any_root in [false, true] {
        let cfg = Config { trailing_commas: tc, limit: Some(limit), any_root };
        let want = depth <= limit && (any_root || depth > 0);
        check!(refjson::accepts(s.as_bytes(), cfg) == want, "HARNESS: reference and construction disagree");
        expect(s.as_bytes(), cfg, want)?;
        // as a field, not with the setter
        let mut p = lib_config(cfg);
        p.recursion_limit = Some(limit);
        same!(Parser::validate_json_with_config(&s, p.clone()).is_ok(), want, "the limit set as a field");
        same!(p.recursion_limit, Some(limit), "the limit that was set");
        same!(lib_config(cfg), p, "settings");
    }
    Ok(())
}

pub fn c02() -> Vec<Target> {
    vec![
        all("c02.wide", c02_wide, WIDE_SHAPES * (WIDE.len() * WIDE_DEPTHS.len()) as u64, WIDE_SHAPES * (WIDE.len() * WIDE_DEPTHS.len()) as u64, "22 limits beyond every byte or word, 11 depths, 4 shapes; all non-trivial"),
        all("c02.nesting", c02_nesting, nesting_cases(), nesting_cases(), "depths up to 8193 x 8 shapes x 8 limits and none; non-trivial: a container"),
        rnd("c02.document", c02_document, 60_000, 800_000, "a constructed text (possibly with trailing commas) under 4 corners x 6 limits; non-trivial: a container or a trailing comma"),
        rnd("c02.any", c02_any, 700_000, 10_000_000, "any input under random settings; non-trivial: more than 2 bytes"),
        all("c02.structure", c02_structure, 20 * words(7, 6), 20 * words(7, 7), "all words over 7 structural tokens x 4 corners x 5 limits"),
        all("c02.defaults", c02_defaults, 2 * 6 * 6 * 6 * 6, 2 * 6 * 6 * 6 * 6, "all histories of 4 setter calls"),
    ]
}

// ---------------------------------------------------------------------- C03

fn probe_any(a: &AnyStr<'_>) -> R {
    check!(utf8_ok(a.as_str()), "an AnyStr is not UTF-8: {}", show_bytes(a.as_str().as_bytes()));
    Ok(())
}

/// Everything read-only one can ask of a string.
fn probe_string(s: &JsonString<'_>, src: &[u8]) -> R {
    if let Some(j) = s.as_json_str() {
        check!(utf8_ok(j.as_str()), "string is not UTF-8: {}", show_bytes(j.as_str().as_bytes()));
        check!(span_in(src, j.as_str()).is_some(), "string {:?} is not in the source", j);
    } else {
        return fail(format!("parsed string {s:?} has no source"));
    }
    let mut n = 0usize;
    let mut bytes = 0usize;
    for c in s.decoded() {
        check!(scalar_ok(c), "decoded character {:#x} is no Unicode scalar value", c as u32);
        n += 1;
        bytes += c.len_utf8();
        check!(n <= src.len(), "decoding does not end");
    }
    let mut n = 0usize;
    for c in s.as_json() {
        check!(scalar_ok(c), "character {:#x} is no Unicode scalar value", c as u32);
        n += 1;
        check!(n <= src.len(), "as_json does not end");
    }
    same!(s.decoded_len(), bytes, "decoded_len");
    let _ = (s.len(), s.is_empty(), s.as_str());
    probe_any(&s.decode_if_needed())?;
    probe_any(&s.escape_if_needed())?;
    check!(utf8_ok(&s.to_string()), "Display of a string");
    check!(*s == *s && s.cmp(s) == std::cmp::Ordering::Equal, "string not equal to itself");
    let _ = s == "x" || *s < "y";
    let mut h = std::collections::hash_map::DefaultHasher::new();
    std::hash::Hash::hash(s, &mut h);
    let _ = format!("{s:?}");
    Ok(())
}

fn probe_number(n: &JsonNumber<'_>, src: &[u8]) -> R {
    let t = n.source();
    check!(span_in(src, t).is_some(), "number {t:?} is not in the source");
    check!(t.is_ascii() && !t.is_empty(), "number {t:?} is not ASCII");
    let _ = (n.as_u8(), n.as_u16(), n.as_u32(), n.as_u64(), n.as_u128(), n.as_usize());
    let _ = (n.as_i8(), n.as_i16(), n.as_i32(), n.as_i64(), n.as_i128(), n.as_isize());
    let _ = (n.as_f32(), n.as_f64(), n.parse::<String>());
    check!(*n == n.clone(), "number not equal to itself");
    Ok(())
}

fn probe_value(v: &Value<'_>, src: &[u8], root: bool) -> R {
    let _ = (v.as_object().is_some(), v.as_array().is_some(), v.as_str(), v.as_bool(), v.is_null());
    let _ = (v.get("a"), v.get_index(0), v.as_u64(), v.as_f64(), v.as_i8());
    match v {
        Value::String(s) => probe_string(s, src)?,
        Value::Number(n) => probe_number(n, src)?,
        Value::Array(a) => {
            for x in a {
                probe_value(x, src, false)?;
            }
        }
        Value::Object(o) => {
            for e in o.iter() {
                probe_string(&e.key, src)?;
                probe_value(&e.value, src, false)?;
            }
        }
        _ => {}
    }
    if root {
        check!(utf8_ok(&v.to_json()), "printed value is not UTF-8");
        check!(utf8_ok(&v.to_json_pretty()), "printed value is not UTF-8");
        check!(utf8_ok(&format!("{v}")) && utf8_ok(&format!("{v:#}")), "printed value is not UTF-8");
        let _ = format!("{v:?}");
        check!(*v == *v, "value not equal to itself");
    }
    Ok(())
}

fn probe_token(t: &Token<'_>, src: &[u8]) -> R {
    match t {
        Token::String(s) => probe_string(s, src),
        Token::Number(n) => probe_number(n, src),
        _ => Ok(()),
    }
}

fn probe_error<T: std::fmt::Debug + std::fmt::Display>(e: &justjson::Error<T>, src: &[u8]) -> R {
    check!(e.offset() <= src.len(), "error {e:?} lies outside the source of {} bytes", src.len());
    check!(utf8_ok(&e.to_string()), "displayed error");
    let _ = e.kind().to_string();
    Ok(())
}

/// Runs a tokenizer over the whole input, past any errors.
fn drive_tokenizer<const U: bool>(mut t: Tokenizer<'_, U>, src: &[u8], g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let mode = g.below(4);
    let mut last = 0usize;
    let mut errors = 0;
    let mut guard = 0usize;
    loop {
        guard += 1;
        check!(guard <= src.len() + 2, "the tokenizer makes no progress");
        if mode != 0 && g.chance(1, 3) {
            let _ = t.peek();
            check!(t.offset() <= src.len(), "offset {} outside the source", t.offset());
        }
        let item = match mode {
            1 => match t.next_or_eof() {
                Err(e) if *e.kind() == justjson::ErrorKind::UnexpectedEof && t.peek().is_none() => {
                    probe_error(&e, src)?;
                    break;
                }
                other => Some(other),
            },
            _ => t.next(),
        };
        let now = t.offset();
        check!(now <= src.len(), "offset {now} outside the source");
        match item {
            None => break,
            Some(r) => {
                check!(now > last, "the tokenizer reported something without advancing past {last}");
                match r {
                    Ok(tok) => probe_token(&tok, src)?,
                    Err(e) => {
                        errors += 1;
                        probe_error(&e, src)?;
                        if mode == 2 && errors > 3 {
                            break;
                        }
                    }
                }
            }
        }
        last = now;
    }
    ctx.label_if(errors > 1, "tokenizer driven past errors");
    Ok(())
}

fn c03_all(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, _) = gens::any_input(g, 140);
    robust(g, ctx, &b)
}

/// Arbitrary bytes, most useful under the coverage-guided fuzzer.
fn c03_bytes(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let n = g.size(200);
    let class = g.below(3);
    let mut b = Vec::with_capacity(n);
    for _ in 0..n {
        b.push(match class {
            0 => g.below(256) as u8,
            1 => *g.pick(b"{}[],:\"\\u0123dDcCtrufalsen-+.eE \n"),
            _ => *g.pick(b"\"\\\\\\uuddd8c0\x80\xc3\xed\xf0\x9f\xa0"),
        });
    }
    robust(g, ctx, &b)
}

fn robust(g: &mut Gen<'_>, ctx: &mut Ctx, b: &[u8]) -> R {
    let cfg = gen_cfg(g, 128);
    ctx.describe(|| format!("{} under {}", show_bytes(b), show_config(&cfg)));
    if !b.is_empty() {
        ctx.nontrivial(b);
    }
    let p = lib_config(cfg);
    let mut ok = false;
    macro_rules! result {
        ($e:expr, $v:ident => $probe:expr) => {
            match $e {
                Ok($v) => {
                    ok = true;
                    $probe
                }
                Err(e) => probe_error(&e, b)?,
            }
        };
    }
    result!(Value::from_json_bytes_with_config(b, p), v => probe_value(&v, b, true)?);
    result!(Value::from_json_bytes(b), v => probe_value(&v, b, true)?);
    result!(Parser::validate_json_bytes_with_config(b, p), v => { let _: JsonKind = v; });
    result!(Document::from_json_bytes_with_config(b, p), d => {
        for n in d.iter() {
            match &n {
                Node::String(s) => probe_string(s, b)?,
                Node::Number(n) => probe_number(n, b)?,
                _ => {}
            }
        }
        let mut it = d.iter();
        it.skip_next_value();
        check!(it.next().is_none(), "nodes left after the root value");
        let mut it = d.iter();
        while let Some(v) = { if g.bool() { it.next(); } it.next_value() } {
            probe_value(&v, b, false)?;
            if g.bool() { it.skip_next_value(); }
            if !v.is_null() { break; }
        }
        probe_value(&Value::from(d), b, true)?;
    });
    result!(HeaplessDocument::<'_, 8>::from_json_bytes_with_config(b, p), d => { let _ = d.iter().count(); });
    if let Ok(s) = std::str::from_utf8(b) {
        result!(Value::from_json_with_config(s, p), v => probe_value(&v, b, true)?);
        result!(Value::from_json(s), v => { let _ = kind_of(&v); });
        result!(Document::from_json_with_config(s, p), d => { let _ = d.iter().count(); });
        result!(Parser::validate_json(s), v => { let _: JsonKind = v; });
        result!(JsonString::from_json(s), v => probe_string(&v, b)?);
        result!(JsonNumber::from_json(s), v => probe_number(&v, b)?);
        drive_tokenizer(Tokenizer::for_json(s), b, g, ctx)?;
        // a Rust string made of the same bytes
        let j = JsonString::from(s);
        for c in j.as_json().chain(j.decoded()) {
            check!(scalar_ok(c), "character {:#x}", c as u32);
        }
        let _ = (j.len(), j.decoded_len(), j.to_string(), format!("{j:?}"));
        probe_any(&j.escape_if_needed())?;
    } else {
        ctx.label("not UTF-8");
    }
    drive_tokenizer(Tokenizer::for_json_bytes(b), b, g, ctx)?;
    ctx.label(if ok { "accepted somewhere" } else { "rejected everywhere" });
    Ok(())
}

/// All inputs of up to three bytes over all of the structural bytes and one of
/// each other class.
fn c03_short(i: u64, ctx: &mut Ctx) -> R {
    const A: [u8; 28] = [
        b'{', b'}', b'[', b']', b',', b':', b'"', b'\\', b'u', b'0', b'1', b'-', b'+', b'.', b'e',
        b't', b'r', b'n', b' ', b'\n', 0, 0x1f, 0x7f, 0x80, 0xc3, 0xe2, 0xed, 0xff,
    ];
    let mut n = i;
    let mut len = 0;
    let mut c = 1u64;
    while n >= c {
        n -= c;
        c *= 28;
        len += 1;
    }
    let mut b = vec![0u8; len];
    for x in b.iter_mut().rev() {
        *x = A[(n % 28) as usize];
        n /= 28;
    }
    ctx.describe(|| show_bytes(&b));
    ctx.nontrivial(b"");
    for v in [Value::from_json_bytes(&b)] {
        match v {
            Ok(v) => probe_value(&v, &b, true)?,
            Err(e) => probe_error(&e, &b)?,
        }
    }
    let mut g = Gen::replay(&[]);
    drive_tokenizer(Tokenizer::for_json_bytes(&b), &b, &mut g, ctx)?;
    let mut g = Gen::replay(&[1]);
    drive_tokenizer(Tokenizer::for_json_bytes(&b), &b, &mut g, ctx)?;
    if let Ok(s) = std::str::from_utf8(&b) {
        let mut g = Gen::replay(&[]);
        drive_tokenizer(Tokenizer::for_json(s), &b, &mut g, ctx)?;
    }
    Ok(())
}

/// Far too deep inputs under finite limits.
fn c03_deep(i: u64, ctx: &mut Ctx) -> R {
    let depth = [500usize, 5_000, 300_000][(i % 3) as usize];
    let unit: &str = ["[", "{\"\":", "[1,", "{\"a\":1,\"b\":", "[[],", "[{\"a\":"][(i / 3 % 6) as usize];
    let limit = [0usize, 1, 2, 127, 128, 200][(i / 18 % 6) as usize];
    let b = unit.repeat(depth).into_bytes();
    ctx.describe(|| format!("{depth} times {unit:?} under limit {limit}"));
    ctx.nontrivial(b"");
    let cfg = Config { limit: Some(limit), ..Config::DEFAULT };
    let p = lib_config(cfg);
    let want = refjson::parse(&b, cfg).fault.map(|f| f.kinds).unwrap_or_default();
    macro_rules! deep {
        ($e:expr) => {
            match $e {
                Ok(_) => return fail(format!("{depth} times {unit:?} accepted")),
                Err(e) => {
                    probe_error(&e, &b)?;
                    check!(
                        fk(e.kind()).is_some_and(|k| want.contains(&k)),
                        "{depth} times {unit:?} under limit {limit}: {e:?}"
                    );
                }
            }
        };
    }
    deep!(Value::from_json_bytes_with_config(&b, p));
    deep!(Document::from_json_bytes_with_config(&b, p));
    deep!(Parser::validate_json_bytes_with_config(&b, p));
    if limit == 128 {
        deep!(Value::from_json_bytes(&b));
        deep!(Document::from_json_bytes(&b));
        deep!(Parser::validate_json_bytes(&b));
    }
    Ok(())
}

/// Everything at the default nesting limit, on the stack a Rust thread has by
/// default.
fn c03_stack(i: u64, ctx: &mut Ctx) -> R {
    let (op, shape) = (i as usize / SHAPES, i as usize % SHAPES);
    let depth = [128, 127, 129, 500][op / 8];
    let op = op % 8;
    let mut s = nested(depth, shape);
    if shape == 7 {
        s = s.replace(",}", "}").replace(",]", "]");
    }
    ctx.describe(|| format!("operation {op} on {}", show_bytes(s.as_bytes())));
    ctx.nontrivial(b"");
    let run = || -> R {
        let fits = |ok: bool| -> R {
            check!(ok == (depth <= 128), "depth {depth}: accepted: {ok}");
            Ok(())
        };
        let a = Value::from_json(&s);
        match op {
            0 => fits(a.is_ok() && Value::from_json_bytes(s.as_bytes()).is_ok())?,
            1 => fits(Document::from_json(&s).is_ok() && Document::from_json_bytes(s.as_bytes()).is_ok())?,
            2 => fits(Parser::validate_json(&s).is_ok() && Parser::validate_json_bytes(s.as_bytes()).is_ok())?,
            3 => {
                if let Ok(d) = Document::from_json(&s) {
                    let (mut it, mut jt) = (d.iter(), d.iter());
                    check!(it.next_value() == a.ok() && it.next().is_none(), "next_value");
                    jt.skip_next_value();
                    check!(jt.next().is_none(), "skip_next_value");
                }
            }
            4 => {
                if let (Ok(v), Ok(d)) = (a, Document::from_json(&s)) {
                    check!(Value::from(d) == v, "document to value");
                }
            }
            5 => {
                if let Ok(v) = a {
                    check!(v.to_json() == s && v.to_string() == s, "printed differently");
                    check!(format!("{v:?}").len() > depth, "no debug text");
                }
            }
            6 => {
                if let Ok(v) = a {
                    let mut t = String::new();
                    check!(v.pretty_write_json_to_custom(" ", "\n", &mut t).is_ok(), "refused");
                    check!(t == v.to_json_pretty_custom(" ", "\n"), "printed differently");
                }
            }
            _ => {
                let mut t = Tokenizer::for_json(&s);
                while let Some(x) = t.next() {
                    check!(x.is_ok(), "{x:?}");
                }
            }
        }
        Ok(())
    };
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, run);
        h.map_err(|e| format!("HARNESS: no thread: {e}"))
            .and_then(|h| h.join().map_err(|_| "panicked".into()))
            .unwrap_or_else(fail)
    })
}
const STACK: usize = 2 << 20;

/// Everything on one part repeated very often, on a default stack: nothing but
/// nesting may use the stack.
fn c03_long(i: u64, ctx: &mut Ctx) -> R {
    const UNITS: [(&str, &[u8], &str); 44] = [
        ("\"", b"a", "\""),
        ("\"", b"\\n", "\""),
        ("\"", b"\\\\", "\""),
        ("\"", b"\\/", "\""),
        ("\"", b"\\\"", "\""),
        ("\"", b"\\u0041", "\""),
        ("\"", b"\\u00e9\\t", "\""),
        ("\"", b"\\uD83D\\ude00", "\""),
        ("\"", "\u{e9}".as_bytes(), "\""),
        ("\"", "\u{20ac}a".as_bytes(), "\""),
        ("\"", "\u{1f600}\\b".as_bytes(), "\""),
        ("\"", b"\x7f", "\""),
        ("\"", b"\\f", ""),
        ("\"", b"a\\u", "\""),
        ("\"", b"\xc3", "\""),
        ("[\"", b"\",\"", "\"]"),
        ("{\"", b"\":\"\",\"", "\":0}"),
        ("", b"1", ""),
        ("-0.", b"0", ""),
        ("1e", b"9", ""),
        ("1E-", b"0", "1"),
        ("", b"0", ""),
        ("", b"-", ""),
        ("", b" ", "1"),
        ("[", b"\r\n\t", "]"),
        ("{", b"\n", "}"),
        ("{\"a\"", b"\t ", ":1}"),
        ("1", b" \n", ""),
        ("[", b"1,", "2]"),
        ("[", b"1,", "]"),
        ("[", b"[],", "{}]"),
        ("[", b"{},", "{}"),
        ("[", b"null,true,", "false]"),
        ("[", b"[1,{\"a\":\"\\n\"}],", "0]"),
        ("{", b"\"a\":1,", "\"b\":2}"),
        ("{", b"\"\\r\":[],", "\"\":{}}"),
        ("{", b"\"a\":{\"b\":[[]]},", "}"),
        ("", b"]", ""),
        ("", b":,", ""),
        ("", b"nul ", ""),
        ("", b"\"", ""),
        ("", b"\x01", ""),
        ("", b"\xff", ""),
        ("", b"1 ", ""),
    ];
    let (before, unit, after) = UNITS[i as usize % UNITS.len()];
    let n = [150_000usize, 66_000, 400_000, 5_000][i as usize / UNITS.len()];
    let mut b = before.as_bytes().to_vec();
    b.extend(unit.iter().cycle().take(unit.len() * n));
    b.extend_from_slice(after.as_bytes());
    ctx.describe(|| format!("{n} times {} between {before:?} and {after:?}", show_bytes(unit)));
    ctx.nontrivial(b"");
    let how = ctx_free(|ctx| {
        for cfg in [Config::DEFAULT, Config { trailing_commas: true, limit: Some(4), ..Config::DEFAULT }] {
            expect(&b, cfg, refjson::parse(&b, cfg).fault.is_none())?;
        }
        for choices in [&[0u64; 8] as &[u64], &[1; 8]] {
            robust(&mut Gen::replay(choices), ctx, &b)?;
        }
        Ok(())
    });
    std::thread::scope(|sc| {
        let h = std::thread::Builder::new().stack_size(STACK).spawn_scoped(sc, how);
        h.map_err(|e| format!("HARNESS: no thread: {e}"))
            .and_then(|h| h.join().map_err(|_| "panicked".into()))
            .unwrap_or_else(fail)
    })
}

/// Runs with a context of its own.
fn ctx_free<'f>(f: impl FnOnce(&mut Ctx) -> R + Send + 'f) -> impl FnOnce() -> R + Send + 'f {
    move || f(&mut Ctx::default())
}

pub fn c03() -> Vec<Target> {
    vec![
        rnd("c03.inputs", c03_all, 350_000, 6_000_000, "any input x settings on every entry point, every observer of what came back, tokenizer past errors; non-trivial: non-empty input"),
        rnd("c03.bytes", c03_bytes, 600_000, 8_000_000, "random bytes over three alphabets; non-trivial: non-empty input"),
        all("c03.short", c03_short, words(28, 4), words(28, 4), "all inputs of up to 4 bytes over 28 byte classes"),
        all("c03.stack", c03_stack, 8 * 4 * SHAPES as u64, 8 * 4 * SHAPES as u64, "nesting at the default limit on a default stack"),
        all("c03.long", c03_long, 44, 44 * 4, "one part repeated 150,000 times or more, on a default stack"),
        all("c03.deep", c03_deep, 108, 108, "nesting far beyond finite limits"),
    ]
}

// ---------------------------------------------------------------------- C04

fn c04_tree(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let v = gens::value(g, 128);
    let style = gens::ws_style(g);
    let (t, _) = gens::emit(g, &v, style, false);
    ctx.describe(|| show_bytes(t.s.as_bytes()));
    classify(&v, ctx);
    if v.nodes() > 2 {
        ctx.nontrivial(t.s.as_bytes());
    }
    let b = t.s.as_bytes();
    let from_text = match Value::from_json(&t.s) {
        Ok(v) => v,
        Err(e) => return fail(format!("rejected: {e:?}")),
    };
    value_matches(&from_text, &v)?;
    let from_bytes = match Value::from_json_bytes(b) {
        Ok(v) => v,
        Err(e) => return fail(format!("rejected from bytes: {e:?}")),
    };
    value_matches(&from_bytes, &v)?;
    // other whitespace, same result
    let style2 = gens::ws_style(g);
    let (t2, _) = gens::emit(g, &v, style2, false);
    match Value::from_json_bytes(t2.s.as_bytes()) {
        Ok(x) => {
            value_matches(&x, &v)?;
            check!(x == from_text && from_text == from_bytes, "whitespace changes the value");
        }
        Err(e) => return fail(format!("rejected with other whitespace: {e:?}")),
    }
    // the document holds the same
    match Document::from_json(&t.s) {
        Ok(d) => value_matches(&Value::from(d), &v)?,
        Err(e) => return fail(format!("document rejected: {e:?}")),
    }
    Ok(())
}

pub fn classify(v: &MVal, ctx: &mut Ctx) {
    let d = v.depth();
    ctx.label(match d {
        0 => "depth 0",
        1 => "depth 1",
        2..=5 => "depth 2-5",
        6..=100 => "depth 6-100",
        _ => "depth > 100",
    });
    let n = v.nodes();
    ctx.label(match n {
        0..=1 => "1 node",
        2..=10 => "2-10 nodes",
        11..=100 => "11-100 nodes",
        _ => "over 100 nodes",
    });
    let mut dup = false;
    v.visit(&mut |x| {
        if let MVal::Obj(m) = x {
            dup |= m.len() < 60
                && m.iter().enumerate().any(|(i, (k, _))| m[..i].iter().any(|(l, _)| l.dec == k.dec));
        }
    });
    ctx.label_if(dup, "duplicate keys");
    ctx.label_if(v.any_escapes(), "escapes");
}

/// On arbitrary accepted input the tree is the reference's.
fn c04_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, _) = gens::any_input(g, 20);
    let r = refjson::parse(&b, Config { trailing_commas: true, ..Config::DEFAULT });
    ctx.describe(|| show_bytes(&b));
    if r.fault.is_some() {
        ctx.label("invalid (skipped)");
        return Ok(());
    }
    ctx.label("valid");
    ctx.nontrivial(&b);
    let want = refjson::tree(&r.events);
    let cfg = lib_config(Config { trailing_commas: true, ..Config::DEFAULT });
    let got = match Value::from_json_bytes_with_config(&b, cfg) {
        Ok(v) => v,
        Err(e) => return fail(format!("rejected: {e:?}")),
    };
    tree_matches(&got, &want, &b)
}

pub fn tree_matches(v: &Value<'_>, t: &refjson::Tree, b: &[u8]) -> R {
    use refjson::Tree;
    match (v, t) {
        (Value::Null, Tree::Null) => Ok(()),
        (Value::Boolean(x), Tree::Bool(y)) if x == y => Ok(()),
        (Value::Number(n), Tree::Num(s)) => {
            same!(n.source(), s.text(b), "number");
            Ok(())
        }
        (Value::String(x), Tree::Str(s)) => {
            same!(x.as_json_str().map(|a| a.as_str()), Some(s.text(b)), "string");
            Ok(())
        }
        (Value::Array(x), Tree::Arr(y)) => {
            same!(x.len(), y.len(), "array length");
            for (p, q) in x.iter().zip(y) {
                tree_matches(p, q, b)?;
            }
            Ok(())
        }
        (Value::Object(x), Tree::Obj(y)) => {
            same!(x.len(), y.len(), "object length");
            for (e, (k, q)) in x.iter().zip(y) {
                same!(e.key.as_json_str().map(|a| a.as_str()), Some(k.text(b)), "key");
                tree_matches(&e.value, q, b)?;
            }
            Ok(())
        }
        _ => fail(format!("{v:?} where {t:?} was expected")),
    }
}

/// Small texts, completely: all structural words that are valid.
const STRUCT4: [&str; 10] = ["{", "}", "[", "]", ",", "\"a\":", "1", "\"\\n\"", "true", " "];
fn c04_small(i: u64, ctx: &mut Ctx) -> R {
    let mut b = Vec::new();
    word(i, &STRUCT4, &mut b);
    let r = refjson::parse(&b, Config::DEFAULT);
    if r.fault.is_some() {
        return Ok(());
    }
    ctx.describe(|| show_bytes(&b));
    ctx.label("valid");
    ctx.nontrivial(b"");
    match Value::from_json_bytes(&b) {
        Ok(v) => tree_matches(&v, &refjson::tree(&r.events), &b),
        Err(e) => fail(format!("rejected: {e:?}")),
    }
}

/// Texts longer than any buffer or counter boundary that might matter.
fn c04_long(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let n = match g.below(4) {
        0 => g.range(250, 260),
        1 => g.range(65_530, 65_545),
        2 => g.range(4_090, 4_100),
        _ => g.range(1, 20_000),
    };
    let kind = g.below(5);
    ctx.describe(|| format!("long text kind {kind}, {n} units"));
    ctx.nontrivial(&[kind as u8, n as u8, (n >> 8) as u8]);
    ctx.label(["array", "object", "string", "number", "whitespace"][kind]);
    let v = match kind {
        0 => {
            let item = if g.bool() { MVal::Bool(true) } else { MVal::Arr(vec![]) };
            MVal::Arr(vec![item; n])
        }
        1 => MVal::Obj(
            (0..n)
                .map(|i| (gens::MStr::from_body(&(i % 1000).to_string()), MVal::Num(i.to_string())))
                .collect(),
        ),
        2 => {
            let unit = *g.pick(&["x", "\\n", "\\u00e9", "\u{20ac}", "\\ud83d\\ude39", "\u{1f639}"]);
            MVal::Str(gens::MStr::from_body(&unit.repeat(n)))
        }
        3 => {
            let unit = *g.pick(&["1", "7"]);
            MVal::Num(match g.below(3) {
                0 => unit.repeat(n),
                1 => format!("-0.{}", unit.repeat(n)),
                _ => format!("1e{}", unit.repeat(n)),
            })
        }
        _ => MVal::Arr(vec![MVal::Null]),
    };
    let text = if kind == 4 {
        let w = *g.pick(&[" ", "\n", "\t", "\r", " \n"]);
        format!("{0}[{0}null{0}]{0}", w.repeat(n))
    } else {
        gens::emit(g, &v, gens::Ws::None, false).0.s
    };
    match Value::from_json(&text) {
        Ok(x) => value_matches(&x, &v)?,
        Err(e) => return fail(format!("rejected: {e:?}")),
    }
    match Document::from_json_bytes(text.as_bytes()) {
        Ok(d) => value_matches(&Value::from(d), &v),
        Err(e) => fail(format!("rejected: {e:?}")),
    }
}

pub fn c04() -> Vec<Target> {
    vec![
        rnd("c04.tree", c04_tree, 350_000, 5_000_000, "a constructed tree, spelled twice with different whitespace, from text, bytes and document; non-trivial: more than 2 nodes"),
        rnd("c04.any", c04_any, 700_000, 10_000_000, "any input; non-trivial: it is a valid text (trailing commas allowed)"),
        rnd("c04.long", c04_long, 2_000, 20_000, "very long containers, strings, numbers, whitespace"),
        all("c04.small", c04_small, words(10, 6), words(10, 7), "all words over 10 tokens; non-trivial: the word is a valid text"),
    ]
}

#[allow(dead_code)]
fn unused(t: Tok) -> Tok {
    t
}
