//! Every property at every size: one part of a text repeated so often that the
//! count, or the length in bytes, lies at and around powers of two.

use super::{accept, all, document, faults, lexing, memory, numbers, objects, printing, strings};
use crate::common::*;
use crate::dict;
use crate::engine::{mix, Ctx, Fail, Gen, Target, R};
use crate::gens::{self, MStr, MVal, SpanKind};
use crate::refjson::{self, Config, Lex, Span, Tok, Tree, FK};
use crate::{check, same};
use justjson::doc::{Document, HeaplessDocument};
use justjson::{ErrorKind, JsonString, Value};

/// How often the part is repeated. The later ones are for the thorough tier.
const COUNTS: [usize; 47] = [
    127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1_000, 1_023, 1_024, 1_025, 2_047, 2_048, 2_049, 4_095, 4_096, 4_097,
    8_191, 8_192, 8_193, 10_000, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769, 65_534, 65_535, 65_536, 65_537, 100_003,
    131_071, 131_072, 131_073, 200_000, 262_145, 300_007, 524_289, 1_000_001, 1_048_575, 1_048_576, 1_048_577, 2_097_153,
];
const QUICK: usize = 38;

/// Every small number and those named in the code, and after the first of the
/// list above the rest of it.
fn counts() -> &'static [usize] {
    static C: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let mut all: Vec<usize> = COUNTS[..34].to_vec();
        let named = dict::get().lengths.iter().copied().filter(|n| *n > 126 && !COUNTS.contains(n));
        all.extend((1..=126).chain(named));
        all.extend(&COUNTS[34..]);
        all
    })
}
/// How many of them are tried: before the last of the list, and all.
fn upto(k: usize, thorough: bool) -> u64 {
    (if thorough { counts().len() } else { counts().len() - COUNTS.len() + k }) as u64
}

/// Bodies of valid strings: before, the part, after.
const BODIES: [(&str, &str, &str); 29] = [
    ("", "a", ""),
    ("\\n", "a", ""),
    ("", "a", "\\n"),
    ("", "a", "\\u00e9"),
    ("\\ud83d\\ude00", "a", "\u{e9}"),
    ("", "\\n", ""),
    ("a", "\\n", "a"),
    ("", "\\\\", ""),
    ("", "\\/", "\\\\"),
    ("", "\\\"", ""),
    ("a", "\\\"", ""),
    ("", "\\u0041", ""),
    ("", "\\u00e9", "x"),
    ("", "\\u20AC", ""),
    ("x", "\\u20aC", ""),
    ("", "\\uD83D\\ude00", ""),
    ("x", "\\uD83D\\ude00", "y"),
    ("", "\u{e9}", ""),
    ("a", "\u{e9}", ""),
    ("", "\u{20ac}", "a"),
    ("aa", "\u{20ac}", ""),
    ("", "\u{1f600}", ""),
    ("aaa", "\u{1f600}", "\\t"),
    ("", "\u{7f}", ""),
    ("", "\\b\\f\\r\\t", ""),
    ("", "a\\t\u{e9}\\u0000\u{1f600}", ""),
    ("\\n", "a", "\\n"),
    ("\\\"", "\u{e9}", "\\\\"),
    ("\\u001f", "\u{20ac}", "\\u0000z"),
];

/// Whole texts, most of them valid.
const TEXTS: [(&str, &str, &str); 52] = [
    ("[\"", "\",\"", "\"]"),
    ("{\"", "\":\"\",\"", "\":0}"),
    ("[\"", "\\n\",\"", "\"]"),
    ("", "1", ""),
    ("-", "7", ""),
    ("[", "3", "]"),
    ("0.", "0", ""),
    ("[-1.", "5", "]"),
    ("1e", "9", ""),
    ("{\"n\":1E-", "0", "1}"),
    ("", " ", "1"),
    ("\"a\"", " ", ""),
    ("[", "\r\n\t", "]"),
    ("{", "\n", "}"),
    ("{\"a\"", "\t ", ":1}"),
    ("{\"a\":", "\n", "[]}"),
    ("{\"a\":1", "\r", "}"),
    ("{\"a\":1,", " ", "\"b\":2}"),
    ("[1,", " ", "2]"),
    ("[1", " ", ",2]"),
    ("1", " \n", ""),
    ("[]", " ", "\n"),
    ("[", "1,", "2]"),
    ("[", "0,", "\"\\n\"]"),
    ("[", "[],", "{}]"),
    ("[", "{},", "{}]"),
    ("[", "null,true,", "false]"),
    ("[", "\"a\",", "null]"),
    ("[", "[1,{\"a\":\"\\n\"}],", "0]"),
    ("[1,[", "2,", "2],3]"),
    ("{\"x\":{", "\"\\\"\":[1],", "\"y\":0},\"z\":1}"),
    ("{", "\"a\":1,", "\"b\":2}"),
    ("{", "\"\\r\":[],", "\"\":{}}"),
    ("{", "\"a\":{\"b\":[[]]},", "\"c\":0}"),
    ("{", "\"\u{e9}\":\"\u{20ac}\",", "\"c\":0}"),
    // not valid, or only with trailing commas
    ("[", "1,", "]"),
    ("{", "\"a\":{},", "}"),
    ("[", "1,", "2"),
    ("{", "\"a\":1,", "\"b\":2"),
    ("{", "\"a\":1,", "\"b\""),
    ("{", "\"a\":1,", "\"b\" 2"),
    ("[", "[],", "[] []"),
    ("[\"", "a", ""),
    ("\"", "\\n", "\\"),
    ("\"", "\u{e9}", "\\u12"),
    ("\"", "a", "\u{1}"),
    ("\"", "\\u0041", "\\ud800\""),
    ("", "0", ""),
    ("1", "0", "."),
    ("-1.", "5", "e"),
    ("[]", " ", "x"),
    ("", " ", ""),
];

/// As many members with keys of their own.
const FAMILIES: usize = TEXTS.len() + BODIES.len() + 1;

/// The longest source.
fn room(ctx: &Ctx) -> usize {
    if ctx.thorough {
        4 << 20
    } else {
        800_000
    }
}

fn repeated((before, unit, after): (&str, &str, &str), n: usize, room: usize) -> Option<String> {
    if unit.len() * n > room {
        return None;
    }
    let mut s = String::with_capacity(before.len() + unit.len() * n + after.len());
    s.push_str(before);
    s.push_str(&unit.repeat(n));
    s.push_str(after);
    Some(s)
}

/// Indices from here on are seams.
const SEAM: u64 = 1 << 40;

/// What may lie across a seam inside a string.
const STRING_PIECES: [&str; 26] = [
    "\\n", "\\\\", "\\\"", "\\/", "\\b", "\\t\\r", "\\u0041", "\\u00e9", "\\u20AC", "\\uFFFF", "\\ud83d\\ude00", "\\uDBFF\\uDFFF",
    "\\u0000\\n", "\\\\u0041", "\\\\\\\\", "\u{e9}", "\u{20ac}", "\u{1f600}", "\u{e9}\\n", "\\n\u{1f600}", "\u{1f600}\u{e9}\u{20ac}",
    "\\u20ac\u{20ac}\\u20ac", "\u{7f}", "  ", "\\f\\f\\f\\f", "\u{7ff}\u{800}",
];
/// And between or inside tokens; most are fine inside an array.
const TEXT_PIECES: [&str; 30] = [
    "1", "-0.5e+10", "true", "false", "null", "\"\"", "\"abcdef\"", "\"\\n\"", "\"\u{e9}\"", "[]", "{}", "[[],[]]",
    "{\"key\":\"value\"}", "{\"\\t\" : 1 }", "{\"a\":1,\"a\":2}", "1 ,\r\n2", "[1,2,3]", "12345678901234567890", "0", "0,0",
    // not so fine
    "1,", "tru", "nulL", "01", "1.", "\"\\x\"", "\"\\u12\"", "\"\\ud83d\\u0041\"", "\"\t\"", "1 2",
];
/// The distances at which blocks of any kind may end.
fn blocks() -> &'static [usize] {
    static B: std::sync::OnceLock<Vec<usize>> = std::sync::OnceLock::new();
    B.get_or_init(|| {
        let mut all = vec![
            16, 24, 32, 48, 64, 96, 100, 128, 192, 256, 384, 512, 768, 1_000, 1_024, 1_536, 2_048, 3_072, 4_096, 8_192,
        ];
        let named = dict::get().lengths.iter().copied();
        let named: Vec<usize> = named.filter(|n| (140..=5_000).contains(n) && all.iter().all(|b: &usize| b.abs_diff(*n) > 2)).take(20).collect();
        all.extend(named);
        all.extend(FAR);
        all
    })
}
/// The last of them, for the thorough tier.
const FAR: [usize; 3] = [16_384, 32_768, 65_536];
fn near(thorough: bool) -> usize {
    blocks().len() - if thorough { 0 } else { FAR.len() }
}
/// How far before the end of the block the piece may begin.
const BACK: usize = 15;

fn seam_bodies(thorough: bool) -> u64 {
    (near(thorough) * BACK * STRING_PIECES.len() * 3) as u64
}
fn seam_body(i: u64) -> (String, String) {
    let (i, kind) = (i as usize / 3, i as usize % 3);
    let (i, piece) = (i / STRING_PIECES.len(), STRING_PIECES[i % STRING_PIECES.len()]);
    let (i, back) = (i / BACK, i % BACK);
    let before = blocks()[i].saturating_sub(back);
    let pad = match kind {
        // something that makes the string a decoded one right away
        1 if before >= 2 => format!("\\n{}", "a".repeat(before - 2)),
        0 | 1 => "a".repeat(before),
        _ => format!("{}{}", "b".repeat(before % 2), "\u{e9}".repeat(before / 2)),
    };
    let after = if kind == 2 || i % 2 == 0 { String::new() } else { "z".repeat(1 + back) };
    (
        format!("{pad}{piece}{after}"),
        format!("{piece:?} after {before} bytes of a string (padding {kind}), {} bytes behind", after.len()),
    )
}

fn seam_texts(thorough: bool) -> u64 {
    (near(thorough) * BACK * (TEXT_PIECES.len() * 5 + STRING_PIECES.len())) as u64
}
fn seam_text(i: u64) -> (String, String) {
    let of = TEXT_PIECES.len() * 5;
    let (k, i) = (i as usize % (of + STRING_PIECES.len()), i as usize / (of + STRING_PIECES.len()));
    let (b, back) = (blocks()[i / BACK], i % BACK);
    let before = b.saturating_sub(back);
    let n = before.saturating_sub(1);
    if k >= of {
        // a string that is the whole text
        let piece = STRING_PIECES[k - of];
        return (format!("\"{}{piece}\"", "a".repeat(n)), format!("{piece:?} after {before} bytes of a text that is a string"));
    }
    let piece = TEXT_PIECES[k % TEXT_PIECES.len()];
    let s = match k / TEXT_PIECES.len() {
        0 => format!("[{}{piece}]", " ".repeat(n)),
        1 => format!("[{}{}{piece},7]", " ".repeat(n % 2), "1,".repeat(n / 2)),
        2 if n >= 3 => format!("[\"{}\",{piece} ]", "x".repeat(n - 3)),
        3 if n >= 2 => format!("[{},{piece},\"end\"]", "9".repeat(n - 1)),
        4 if before >= 12 => format!("{{\"{}\":[],\"a\":{piece}}}", "k".repeat(before - 11)),
        _ => format!("[{}{piece}]", "\n".repeat(n)),
    };
    (s, format!("{piece:?} after {before} bytes of a text (padding {})", k / TEXT_PIECES.len()))
}

/// The text of one case and how to say it.
fn text(i: u64, ctx: &mut Ctx) -> Option<String> {
    if let Some(i) = i.checked_sub(SEAM) {
        let (s, show) = seam_text(i);
        ctx.describe(|| show);
        ctx.nontrivial(&i.to_le_bytes());
        return Some(s);
    }
    let (f, n) = (i as usize % FAMILIES, counts()[i as usize / FAMILIES]);
    let room = room(ctx);
    let (s, show) = match f.checked_sub(TEXTS.len()) {
        None => (repeated(TEXTS[f], n, room)?, format!("{n} times {:?} between {:?} and {:?}", TEXTS[f].1, TEXTS[f].0, TEXTS[f].2)),
        Some(k) if k < BODIES.len() => {
            let b = repeated(BODIES[k], n, room)?;
            let show = format!("a string of {n} times {:?} between {:?} and {:?}", BODIES[k].1, BODIES[k].0, BODIES[k].2);
            (if k % 3 == 1 { format!("{{\"{b}\":1}}") } else { format!("\"{b}\"") }, show)
        }
        Some(_) => {
            if n * 12 > room {
                return None;
            }
            let all: Vec<String> = (0..n).map(|k| format!("\"{k}\":{k}")).collect();
            (format!("{{{}}}", all.join(",")), format!("an object of {n} members"))
        }
    };
    ctx.describe(|| show);
    ctx.nontrivial(&i.to_le_bytes());
    Some(s)
}

/// The body of a string.
fn body(i: u64, ctx: &mut Ctx) -> Option<MStr> {
    if let Some(i) = i.checked_sub(SEAM) {
        let (s, show) = seam_body(i);
        ctx.describe(|| show);
        ctx.nontrivial(&i.to_le_bytes());
        return Some(MStr::from_body(&s));
    }
    let (f, n) = (i as usize % BODIES.len(), counts()[i as usize / BODIES.len()]);
    let s = repeated(BODIES[f], n, room(ctx))?;
    ctx.describe(|| format!("{n} times {:?} between {:?} and {:?}", BODIES[f].1, BODIES[f].0, BODIES[f].2));
    ctx.nontrivial(&i.to_le_bytes());
    Some(MStr::from_body(&s))
}

/// Messages quote what they are about, which is long here.
fn brief(r: R) -> R {
    r.map_err(|e| {
        let n = e.msg.chars().count();
        let m: String = if n > 700 {
            let head: String = e.msg.chars().take(300).collect();
            let tail: String = e.msg.chars().skip(n - 300).collect();
            format!("{head} [...] {tail}")
        } else {
            e.msg
        };
        Fail { msg: m }
    })
}

fn gen(i: u64) -> Gen<'static> {
    Gen::random(mix(i ^ 0x517E))
}

fn model(t: &Tree, b: &[u8]) -> MVal {
    match t {
        Tree::Null => MVal::Null,
        Tree::Bool(x) => MVal::Bool(*x),
        Tree::Num(s) => MVal::Num(s.text(b).to_string()),
        Tree::Str(s) => MVal::Str(MStr::from_body(s.text(b))),
        Tree::Arr(v) => MVal::Arr(v.iter().map(|x| model(x, b)).collect()),
        Tree::Obj(v) => MVal::Obj(v.iter().map(|(k, x)| (MStr::from_body(k.text(b)), model(x, b))).collect()),
    }
}

/// The model of a valid text.
fn valid(i: u64, ctx: &mut Ctx) -> Option<(String, MVal)> {
    let s = text(i, ctx)?;
    let p = refjson::parse(s.as_bytes(), Config::DEFAULT);
    if p.fault.is_some() {
        ctx.label("invalid (skipped)");
        return None;
    }
    let m = model(&refjson::tree(&p.events), s.as_bytes());
    Some((s, m))
}

fn c01(i: u64, ctx: &mut Ctx) -> R {
    let Some(s) = text(i, ctx) else { return Ok(()) };
    let want = refjson::accepts(s.as_bytes(), Config::DEFAULT);
    ctx.label(if want { "valid" } else { "invalid" });
    brief(accept::expect(s.as_bytes(), Config::DEFAULT, want))?;
    // one byte more or less at either end, or another byte in the middle
    let b = s.as_bytes();
    let mut mid = b.to_vec();
    mid[b.len() / 2] ^= 0x80;
    let mut last = b.to_vec();
    last[b.len() - 1] = b'"';
    for b in [&b[..b.len() - 1], &b[1..], &mid, &last] {
        let want = refjson::accepts(b, Config::DEFAULT);
        brief(accept::expect(b, Config::DEFAULT, want))?;
    }
    Ok(())
}

fn c02(i: u64, ctx: &mut Ctx) -> R {
    let Some(s) = text(i, ctx) else { return Ok(()) };
    for k in 0..8u32 {
        let cfg = Config {
            trailing_commas: k & 1 != 0,
            any_root: k & 2 != 0,
            limit: [Some(1), Some(2), Some(4), None][(k as usize + i as usize) % 4],
        };
        let want = refjson::accepts(s.as_bytes(), cfg);
        ctx.label(if want { "valid" } else { "invalid" });
        brief(accept::expect(s.as_bytes(), cfg, want))?;
    }
    Ok(())
}

fn c04(i: u64, ctx: &mut Ctx) -> R {
    let Some((s, m)) = valid(i, ctx) else { return Ok(()) };
    let bad = |e: justjson::Error| Fail { msg: format!("rejected: {e:?}") };
    let t = refjson::tree(&refjson::parse(s.as_bytes(), Config::DEFAULT).events);
    for v in [
        Value::from_json(&s).map_err(bad)?,
        Value::from_json_bytes(s.as_bytes()).map_err(bad)?,
        Value::from(Document::from_json(&s).map_err(bad)?),
        Value::from(Document::from_json_bytes(s.as_bytes()).map_err(bad)?),
    ] {
        brief(accept::tree_matches(&v, &t, s.as_bytes()))?;
        brief(value_matches(&v, &m))?;
    }
    Ok(())
}

fn c05(i: u64, ctx: &mut Ctx) -> R {
    let Some(m) = body(i, ctx) else { return Ok(()) };
    brief(strings::everywhere(&m))
}

fn c06(i: u64, ctx: &mut Ctx) -> R {
    let Some(m) = body(i, ctx) else { return Ok(()) };
    brief(strings::every_source(&m.dec))
}

/// A long text with one that differs at one place only.
fn c07(i: u64, ctx: &mut Ctx) -> R {
    let Some(m) = body(i, ctx) else { return Ok(()) };
    let mut g = gen(i);
    let plain = |t: &str| vec![gens::spell(&mut Gen::replay(&[]), t, 0)];
    let a = m.dec.clone();
    let ends: Vec<usize> = a.char_indices().map(|(k, _)| k).collect();
    let cut = |k: usize| ends.get(k).copied().unwrap_or(a.len());
    let at = cut(g.below(ends.len()));
    let last = cut(ends.len() - 1);
    let others = [
        a.clone(),
        a[..last].to_string(),
        format!("{a}a"),
        format!("{}\u{1}", &a[..last]),
        format!("{}z{}", &a[..at], &a[at..]),
        format!("z{a}"),
    ];
    let b = &others[i as usize % others.len()];
    brief(strings::compare(&a, b, &[m], &plain(b)))
}

fn c08(i: u64, ctx: &mut Ctx) -> R {
    let Some((s, m)) = valid(i, ctx) else { return Ok(()) };
    let mut g = gen(i);
    let v = if i % 2 == 0 {
        Value::from_json(&s).map_err(|e| Fail { msg: format!("rejected: {e:?}") })?
    } else {
        build(&mut g, &m, false)
    };
    brief(printing::prints(&mut g, &v, &m, None))
}

fn c09(i: u64, ctx: &mut Ctx) -> R {
    let Some((s, _)) = valid(i, ctx) else { return Ok(()) };
    brief(printing::roundtrip(s.as_bytes(), Some(&s)))
}

fn c10(i: u64, ctx: &mut Ctx) -> R {
    let Some((s, m)) = valid(i, ctx) else { return Ok(()) };
    brief(document::listing(&mut gen(i), ctx, &m, &s, false))
}

/// Documents of just about as many nodes as there is room for.
fn fits<const N: usize>(s: &str, nodes: usize) -> R {
    let got = HeaplessDocument::<'_, N>::from_json(s).map(|d| (d.iter().count(), d.iter().last(), Value::from(d)));
    let all = Document::from_json(s).map_err(|e| Fail { msg: format!("rejected: {e:?}") })?;
    match got {
        Ok((n, last, v)) => {
            check!(nodes <= N, "capacity {N} accepts {nodes} nodes");
            same!(n, nodes, "nodes of a bounded document");
            check!(last == all.iter().last(), "last node");
            check!(v == Value::from(all), "the converted documents differ");
        }
        Err(e) => {
            check!(nodes > N, "capacity {N} rejects {nodes} nodes: {e:?}");
            same!(*e.kind(), ErrorKind::PaylodTooLarge, "capacity {N} with {nodes} nodes");
            check!(e.offset() <= s.len(), "offset {}", e.offset());
        }
    }
    Ok(())
}
fn c11_fits(i: u64, ctx: &mut Ctx) -> R {
    type Run = fn(&str, usize) -> R;
    const ROOM: [(usize, Run); 14] = [
        (127, fits::<127>),
        (128, fits::<128>),
        (255, fits::<255>),
        (256, fits::<256>),
        (257, fits::<257>),
        (511, fits::<511>),
        (1_000, fits::<1_000>),
        (1_024, fits::<1_024>),
        (1_025, fits::<1_025>),
        (4_096, fits::<4_096>),
        (5_000, fits::<5_000>),
        (32_768, fits::<32_768>),
        (65_535, fits::<65_535>),
        (65_537, fits::<65_537>),
    ];
    let (cap, run) = ROOM[i as usize / 20];
    let (delta, how) = ((i as usize % 20) / 4, i as usize % 4);
    let nodes = cap + delta - 2;
    ctx.describe(|| format!("{nodes} nodes in way {how}, capacity {cap}"));
    ctx.nontrivial(&i.to_le_bytes());
    let s = match how {
        0 => format!("[{}0]", "0,".repeat(nodes - 2)),
        // an object has an odd number of nodes
        1 => {
            let all: Vec<String> = (0..(nodes - 1) / 2).map(|k| format!("\"{k}\":null")).collect();
            let o = format!("{{{}}}", all.join(","));
            if nodes % 2 == 1 {
                o
            } else {
                o.replacen("null", "[]", 1).replacen("[]", "[1]", 1)
            }
        }
        2 => format!("[{}[]]", "\"a\",".repeat(nodes - 2)),
        _ => format!("[{}{{}}{}]", "[],".repeat((nodes - 2) / 2), ",true".repeat(nodes - 2 - (nodes - 2) / 2)),
    };
    brief(crate::engine::on_big_stack(|| run(&s, nodes)))
}

fn c11(i: u64, ctx: &mut Ctx) -> R {
    let Some(s) = text(i, ctx) else { return Ok(()) };
    if s.len() > 300_000 && !ctx.thorough {
        return Ok(());
    }
    brief(document::planned(&mut gen(i), ctx, s.as_bytes(), Config::DEFAULT))
}

fn c12(i: u64, ctx: &mut Ctx) -> R {
    let Some(s) = text(i, ctx) else { return Ok(()) };
    brief(faults::c12_case(s.as_bytes(), Config::DEFAULT, ctx))?;
    brief(faults::c12_case(&s.as_bytes()[1..], Config { trailing_commas: true, limit: Some(3), any_root: true }, ctx))
}

fn c13(i: u64, ctx: &mut Ctx) -> R {
    let Some(s) = text(i, ctx) else { return Ok(()) };
    if s.len() > 300_000 && !ctx.thorough {
        return Ok(());
    }
    let cfg = if i % 2 == 0 { Config::DEFAULT } else { Config { trailing_commas: true, ..Config::DEFAULT } };
    brief(faults::c13_case(&mut gen(i), ctx, s.as_bytes(), cfg))
}

fn c14(i: u64, ctx: &mut Ctx) -> R {
    let Some(s) = text(i, ctx) else { return Ok(()) };
    brief(lexing::case(&mut gen(i), ctx, s.as_bytes()))
}

/// Numbers of many digits.
fn c15(i: u64, ctx: &mut Ctx) -> R {
    const PARTS: [(&str, &str, &str); 16] = [
        ("", "9", ""),
        ("1", "0", ""),
        ("-", "1", ""),
        ("-1", "0", "1"),
        ("0.", "0", "1"),
        ("1.", "0", ""),
        ("-0.", "0", ""),
        ("1.", "9", "e5"),
        ("123e", "0", ""),
        ("1e", "0", "2"),
        ("1e-", "0", "2"),
        ("5E+", "0", "308"),
        ("1", "0", "e-100"),
        ("0.", "0", "1e1000"),
        ("1e", "9", ""),
        ("255.", "0", "e0"),
    ];
    let (f, n) = (i as usize % PARTS.len(), counts()[i as usize / PARTS.len()]);
    let Some(mut s) = repeated(PARTS[f], n, if ctx.thorough { 140_000 } else { 70_000 }) else { return Ok(()) };
    // exponents that bring the number back into the range
    match f {
        12 => s = format!("1{}e-{n}", "0".repeat(n)),
        13 => s = format!("0.{}1e{}", "0".repeat(n), n + 1),
        _ => {}
    }
    ctx.describe(|| format!("{} bytes of {:?} between {:?} and {:?}", s.len(), PARTS[f].1, PARTS[f].0, PARTS[f].2));
    ctx.nontrivial(&i.to_le_bytes());
    brief(numbers::number_case(&s, (i / 16) as usize % 4, ctx))
}

/// Objects and arrays of many members.
fn c16(i: u64, ctx: &mut Ctx) -> R {
    let n = counts()[i as usize / 6];
    if n > if ctx.thorough { 140_000 } else { 70_000 } {
        return Ok(());
    }
    brief(objects::crowd(&mut gen(i), ctx, n))
}

fn c17(i: u64, ctx: &mut Ctx) -> R {
    let Some(s) = text(i, ctx) else { return Ok(()) };
    let b = s.as_bytes();
    let mut g = gen(i);
    let mut cases: Vec<Vec<u8>> = vec![b.to_vec()];
    for _ in 0..4 {
        cases.push(b[..g.below(b.len())].to_vec());
    }
    cases.push(b[..b.len() - 1].to_vec());
    for add in ["x", "]", "\"", ",", "1", "\u{1}"] {
        cases.push([b, add.as_bytes()].concat());
    }
    let mut named = 0;
    for c in &cases {
        for commas in [false, true] {
            let cfg = Config { trailing_commas: commas, ..Config::DEFAULT };
            let r = faults::named(c, cfg);
            named += u64::from(*r.as_ref().unwrap_or(&false));
            brief(r.map(|_| ()))?;
        }
    }
    ctx.count("faults named", named);
    // the only fault of a text that is valid otherwise
    if refjson::accepts(b, Config::DEFAULT) {
        let mut toks = Vec::new();
        let mut at = 0;
        while let Lex::Tok(t, lo, hi) = refjson::lex(b, at) {
            let kind = match t {
                Tok::Str(_) => SpanKind::Str,
                Tok::Num(_) => SpanKind::Num,
                _ => SpanKind::Other,
            };
            toks.push((kind, Span { lo, hi }));
            at = hi;
        }
        for k in 0..10 {
            let (kind, sp) = match k {
                0..=2 => toks[toks.len() - 1],
                3 => toks[toks.len().saturating_sub(2)],
                _ => toks[g.below(toks.len())],
            };
            let (c, _) = faults::damage(&mut g, b, kind, sp);
            let Some(f) = refjson::parse(&c, Config::DEFAULT).fault else { continue };
            ctx.count("single faults named", 1);
            brief(faults::all_name_it(&c, Config::DEFAULT, &f, f.kinds == [FK::TrailingData]))?;
        }
    }
    Ok(())
}

fn c18(i: u64, ctx: &mut Ctx) -> R {
    let Some((s, m)) = valid(i, ctx) else { return Ok(()) };
    let mut g = gen(i);
    let v = if i % 2 == 0 {
        Value::from_json(&s).map_err(|e| Fail { msg: format!("rejected: {e:?}") })?
    } else {
        build(&mut g, &m, false)
    };
    let mut points = 0;
    let r = printing::refusals(&mut g, &v, "\t", "\r\n", 3).map(|n| points = n);
    ctx.count("refusal points", points);
    brief(r)
}

fn c19(i: u64, ctx: &mut Ctx) -> R {
    let Some((s, m)) = valid(i, ctx) else { return Ok(()) };
    let mut g = gen(i);
    let t = gens::emit(&mut g, &m, gens::Ws::None, false).0;
    brief(memory::borrowed(&mut g, ctx, &m, &t))?;
    brief(memory::free_of_charge(s.as_bytes(), Config::DEFAULT))?;
    if m.nodes() < 20_000 {
        brief(memory::charged(&mut g, ctx, &m))?;
    }
    Ok(())
}

/// The characters of a long string, with looks at a few places.
fn c21(i: u64, ctx: &mut Ctx) -> R {
    let Some(m) = body(i, ctx) else { return Ok(()) };
    let mut g = gen(i);
    let bad = |e: justjson::Error| Fail { msg: format!("rejected: {e:?}") };
    let parsed = JsonString::from_json(&m.quoted).map_err(bad)?;
    let made = JsonString::from(m.dec.as_str());
    let written = strings::one_pass(&made, &m.dec).map_err(|e| brief(Err(e)).unwrap_err())?;
    brief(glances(&mut g, parsed.decoded(), &m.dec, "decoded of a parsed string"))?;
    brief(glances(&mut g, parsed.as_json(), m.body(), "as_json of a parsed string"))?;
    brief(glances(&mut g, made.decoded(), &m.dec, "decoded of a text"))?;
    brief(glances(&mut g, made.as_json(), &written, "as_json of a text"))
}
fn glances<I>(g: &mut Gen<'_>, it: I, text: &str, what: &str) -> R
where
    I: Iterator<Item = char> + Clone + std::fmt::Display,
{
    let ends: Vec<usize> = text.char_indices().map(|(k, _)| k).collect();
    let n = ends.len();
    let rest = |k: usize| &text[ends.get(k).copied().unwrap_or(text.len())..];
    let mut places: Vec<usize> = [0, 1, n / 2, n.saturating_sub(1), n].into_iter().chain((0..3).map(|_| g.below(n))).collect();
    places.sort_unstable();
    let (mut cur, mut at) = (it.clone(), 0);
    for p in places {
        while at < p {
            let c = cur.next();
            check!(c == rest(at).chars().next(), "{what}: character {at} is {c:?}");
            at += 1;
            if at + 2 > p || at % 1_000 == 0 {
                let (lo, hi) = cur.size_hint();
                check!(lo <= n - at && hi.is_none_or(|h| n - at <= h), "{what}: size_hint {lo}, {hi:?} with {} left", n - at);
            }
        }
        same!(cur.clone().count(), n - at, "{what}: count at {at}");
        check!(cur.clone().eq(rest(at).chars()), "{what}: rest at {at}");
        check!(cur.to_string() == rest(at), "{what}: Display at {at}");
        let (lo, hi) = cur.size_hint();
        check!(lo <= n - at && hi.is_none_or(|h| n - at <= h), "{what}: size_hint {lo}, {hi:?} with {} left", n - at);
        let j = g.below(n - at + 1);
        let mut c = cur.clone();
        same!(c.nth(j), rest(at + j).chars().next(), "{what}: nth({j}) at {at}");
        check!(c.eq(rest((at + j + 1).min(n)).chars()), "{what}: rest after nth({j}) at {at}");
    }
    same!(cur.next(), None, "{what}: after the end");
    Ok(())
}

/// A big value and one that differs at one place.
fn c22(i: u64, ctx: &mut Ctx) -> R {
    let Some((_, a)) = valid(i, ctx) else { return Ok(()) };
    let mut g = gen(i);
    let mut b = a.clone();
    let n = b.nodes();
    match g.below(5) {
        0 => {}
        1 => change(&mut b, &mut (n - 1)),
        2 => change(&mut b, &mut g.below(n)),
        3 => match &mut b {
            MVal::Arr(v) => drop(v.pop()),
            MVal::Obj(v) => drop(v.pop()),
            _ => {}
        },
        _ => match &mut b {
            MVal::Arr(v) => v.reverse(),
            MVal::Obj(v) if v.len() > 1 => {
                let mid = v.len() / 2;
                v.swap(0, mid);
            }
            _ => {}
        },
    }
    brief(objects::equality(&mut g, ctx, &a, &b))
}
/// Changes the scalar at or after a node.
fn change(v: &mut MVal, skip: &mut usize) {
    let text = |s: &mut MStr| {
        let mut t = s.dec.clone();
        if t.pop() != Some('z') {
            t.push('z');
        }
        *s = gens::spell(&mut Gen::replay(&[]), &t, 0);
    };
    if *skip == usize::MAX {
        return;
    }
    let mut hit = || {
        if *skip == 0 {
            *skip = usize::MAX;
            true
        } else {
            *skip -= 1;
            false
        }
    };
    match v {
        MVal::Arr(x) => {
            if hit() && x.is_empty() {
                *v = MVal::Null;
                return;
            }
            x.iter_mut().for_each(|y| change(y, skip));
        }
        MVal::Obj(x) => {
            if hit() && x.is_empty() {
                *v = MVal::Null;
                return;
            }
            for (k, y) in x {
                if *skip == 0 {
                    *skip = usize::MAX;
                    text(k);
                    return;
                }
                *skip = skip.saturating_sub(usize::from(*skip != usize::MAX));
                change(y, skip);
            }
        }
        _ if !hit() => {}
        MVal::Null => *v = MVal::Bool(false),
        MVal::Bool(b) => *b = !*b,
        // the last digit, or the length too
        MVal::Num(n) if n.len() % 2 == 1 => {
            let last = n.pop();
            n.push(if last == Some('7') { '8' } else { '7' });
        }
        MVal::Num(n) => *n = format!("{}{n}", if n.starts_with('-') { "" } else { "-" }).replacen("--", "-", 1) + if n.contains('.') || n.contains(['e', 'E']) { "1" } else { ".5" },
        MVal::Str(s) => text(s),
    }
}

/// Lengths, and places in something so long.
fn places() -> &'static (usize, Vec<(usize, usize)>) {
    static P: std::sync::OnceLock<(usize, Vec<(usize, usize)>)> = std::sync::OnceLock::new();
    P.get_or_init(|| {
        let mut all: Vec<(usize, usize)> = (1..=130).flat_map(|n| (0..n).map(move |k| (n, k))).collect();
        let mut lens: Vec<usize> = counts().iter().copied().filter(|n| (131..=70_000).contains(n)).collect();
        lens.sort_unstable();
        lens.dedup();
        let mut quick = all.len();
        for n in lens {
            let mut at: Vec<usize> = [0, 1, 7, 8, 15, 16, 31, 32, 63, 64, n / 4, n / 2].to_vec();
            at.extend([1, 2, 8, 9, 16, 17, 32, 33, 64, 65].iter().map(|k| n - k));
            at.sort_unstable();
            at.dedup();
            all.extend(at.iter().map(|k| (n, *k)));
            if n <= 4_200 {
                quick = all.len();
            }
        }
        (quick, all)
    })
}
fn near_cases(thorough: bool, kinds: usize) -> u64 {
    ((if thorough { places().1.len() } else { places().0 }) * kinds) as u64
}
fn swapped(n: usize, at: usize, unit: &str, other: &str) -> (String, String) {
    (unit.repeat(n), format!("{}{other}{}", unit.repeat(at), unit.repeat(n - at - 1)))
}

/// Two of the same length, which differ at one place only.
const NEAR22: usize = 9;
fn c22_near(i: u64, ctx: &mut Ctx) -> R {
    let (n, at) = places().1[i as usize / NEAR22];
    let mut g = gen(i);
    let text = |g: &mut Gen<'_>, (a, b): (String, String), style: usize| {
        (gens::spell(g, &a, style), gens::spell(&mut Gen::replay(&[]), &b, 0))
    };
    let num = |s: String| MVal::Num(s);
    let kind = i as usize % NEAR22;
    ctx.describe(|| format!("way {kind}: {n} long, different at {at}"));
    ctx.nontrivial(b"");
    let wide = |k: usize, at: Option<usize>| -> Vec<MVal> {
        (0..k).map(|j| if Some(j) == at { MVal::Num("8".into()) } else { MVal::Num("7".into()) }).collect()
    };
    let key = |j: usize| MStr::from_body(&format!("k{j}"));
    let (a, b) = match kind {
        0 => {
            let (a, b) = swapped(n, at, "1", "2");
            (num(a), num(b))
        }
        1 => {
            let (a, b) = swapped(n, at, "5", "4");
            (num(format!("-0.{a}")), num(format!("-0.{b}")))
        }
        2 => {
            let (a, b) = swapped(n, at, "0", "1");
            (num(format!("3.5E+{a}")), num(format!("3.5E+{b}")))
        }
        3 => {
            let (a, b) = text(&mut g, swapped(n, at, "a", "b"), 0);
            (MVal::Str(a), MVal::Str(b))
        }
        4 => {
            // only the last byte of a character is different
            let (a, b) = text(&mut g, swapped(n, at, "\u{e9}", "\u{ea}"), 1);
            (MVal::Str(a), MVal::Str(b))
        }
        5 => {
            let style = if n > 200 { 1 } else { 2 };
            let (a, b) = text(&mut g, swapped(n, at, "a", "A"), style);
            (MVal::Obj(vec![(a, MVal::Null)]), MVal::Obj(vec![(b, MVal::Null)]))
        }
        6 => {
            let (a, b) = text(&mut g, swapped(n, at, "\n", "\t"), 1);
            (MVal::Str(a), MVal::Str(b))
        }
        7 => (MVal::Arr(wide(n, None)), MVal::Arr(wide(n, Some(at)))),
        _ => {
            let of = |at| MVal::Obj(wide(n, at).into_iter().enumerate().map(|(j, v)| (key(j), v)).collect());
            (of(None), of(Some(at)))
        }
    };
    brief(objects::equality(&mut g, ctx, &a, &b))
}

const NEAR7: usize = 5;
fn c07_near(i: u64, ctx: &mut Ctx) -> R {
    let (n, at) = places().1[i as usize / NEAR7];
    let kind = i as usize % NEAR7;
    let (unit, other) = [("a", "b"), ("\u{e9}", "\u{e8}"), ("\n", "\t"), ("/", "."), ("\u{1f600}", "\u{ffff}")][kind];
    ctx.describe(|| format!("{n} times {unit:?}, but {other:?} at {at}"));
    ctx.nontrivial(b"");
    let (a, b) = swapped(n, at, unit, other);
    let mut g = gen(i);
    let style = if n > 200 { 1 } else { g.below(3) };
    let plain = |t: &str| gens::spell(&mut Gen::replay(&[]), t, 0);
    let sa = [plain(&a), gens::spell(&mut g, &a, style)];
    brief(strings::compare(&a, &b, &sa, &[plain(&b)]))
}

const NEAR16: usize = 3;
fn c16_near(i: u64, ctx: &mut Ctx) -> R {
    let (n, at) = places().1[i as usize / NEAR16];
    let kind = i as usize % NEAR16;
    let (unit, other) = [("a", "b"), ("\u{e9}", "\u{ea}"), ("\t", "\n")][kind];
    ctx.describe(|| format!("keys of {n} times {unit:?}, but {other:?} at {at}"));
    ctx.nontrivial(b"");
    let (a, b) = swapped(n, at, unit, other);
    let mut g = gen(i);
    let style = if n > 200 { 1 } else { g.below(3) };
    let (ma, mb) = (gens::spell(&mut g, &a, style), gens::spell(&mut g, &b, 0));
    let s = format!("{{{}:1,\"\":0,{}:2}}", ma.quoted, mb.quoted);
    let mut v = Value::from_json(&s).map_err(|e| Fail { msg: format!("rejected: {e:?}") })?;
    for (k, want) in [(&a, 1), (&b, 2)] {
        let k = k.as_str();
        brief((|| {
            same!(v.get(k).and_then(Value::as_u64), Some(want), "Value::get of the key different at {at}");
            same!(v[k].as_u64(), Some(want), "indexing with the key different at {at}");
            same!(v.get_mut(k).and_then(|v| v.as_u64()), Some(want), "Value::get_mut of the key different at {at}");
            let Value::Object(o) = &mut v else { return Ok(()) };
            same!(o.get(k).and_then(Value::as_u64), Some(want), "Object::get of the key different at {at}");
            same!(o.get_mut(k).and_then(|v| v.as_u64()), Some(want), "Object::get_mut of the key different at {at}");
            Ok(())
        })())?;
    }
    brief((|| {
        let short: String = a.chars().take(at).collect();
        if at > 0 {
            check!(v.get(&short).is_none(), "a key is found by its first {at} characters");
        }
        check!(v.get(&format!("{b}{unit}")).is_none(), "a key is found by something longer");
        Ok(())
    })())
}

/// What is not text, or just about is, for sources given as bytes.
const BYTE_PIECES: [&[u8]; 22] = [
    b"\x80", b"\xbf", b"\xc0\x80", b"\xc1\xbf", b"\xc2", b"\xc3(", b"\xe2\x82", b"\xe2\x82(", b"\xe0\x9f\xbf", b"\xed\xa0\x80",
    b"\xed\xbf\xbf", b"\xf0\x9f\x98", b"\xf0\x8f\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf8\x88\x80\x80\x80", b"\xff", b"\xfe\xff",
    // fine
    b"\xc2\x80", b"\xed\x9f\xbf", b"\xee\x80\x80", b"\xf0\x90\x80\x80", b"\xf4\x8f\xbf\xbf",
];
const BYTE_PADS: usize = 8;
fn seam_sources(thorough: bool) -> u64 {
    (near(thorough) * BACK * BYTE_PIECES.len() * BYTE_PADS) as u64
}
fn seam_source(i: u64, ctx: &mut Ctx) -> Vec<u8> {
    let (k, i) = (i as usize % (BYTE_PIECES.len() * BYTE_PADS), i as usize / (BYTE_PIECES.len() * BYTE_PADS));
    let (piece, pad) = (BYTE_PIECES[k / BYTE_PADS], k % BYTE_PADS);
    let before = blocks()[i / BACK].saturating_sub(i % BACK);
    // the run of other characters that the piece ends, so many bytes long
    let unit = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "a", "\u{e9}", "\u{20ac}", "\\n"][pad];
    let mut b = b"[\"".to_vec();
    b.extend(std::iter::repeat_n(b'x', before % unit.len()));
    b.extend(unit.repeat(before / unit.len()).bytes());
    b.extend_from_slice(piece);
    if pad >= 4 {
        b.extend("\u{e9}\u{20ac}\u{1f600}z".bytes());
    }
    b.extend_from_slice(b"\"]");
    ctx.describe(|| format!("{piece:x?} after {before} bytes of {unit:?} in a string (padding {pad})"));
    ctx.nontrivial(b"");
    b
}
fn c01_bytes(i: u64, ctx: &mut Ctx) -> R {
    let b = seam_source(i, ctx);
    let want = refjson::accepts(&b, Config::DEFAULT);
    ctx.label(if want { "valid" } else { "invalid" });
    brief(accept::expect(&b, Config::DEFAULT, want))
}
fn c12_bytes(i: u64, ctx: &mut Ctx) -> R {
    let b = seam_source(i, ctx);
    brief(faults::c12_case(&b, Config::DEFAULT, ctx))
}
fn c17_bytes(i: u64, ctx: &mut Ctx) -> R {
    let b = seam_source(i, ctx);
    let Some(f) = refjson::parse(&b, Config::DEFAULT).fault else { return Ok(()) };
    ctx.label("named");
    // behind the damage the text is fine
    brief(faults::all_name_it(&b, Config::DEFAULT, &f, false))
}

/// The sweep of one property over seams.
fn seams_of(id: &str) -> Option<Target> {
    const TEXTS_RULE: &str = "texts with one of 56 pieces across each of some 25 block ends, begun up to 14 bytes before it; all cases are non-trivial";
    const BODIES_RULE: &str = "strings with one of 26 pieces across each of some 25 block ends, begun up to 14 bytes before it; all cases are non-trivial";
    macro_rules! seams {
        ($name:literal, $f:ident, $n:expr, $rule:expr) => {
            Some(all($name, |i, ctx| $f(i + SEAM, ctx), $n(false), $n(true), $rule))
        };
    }
    use {seam_bodies as b, seam_texts as t};
    match id {
        "C01" => seams!("c01.seams", c01, t, TEXTS_RULE),
        "C02" => seams!("c02.seams", c02, t, TEXTS_RULE),
        "C04" => seams!("c04.seams", c04, t, TEXTS_RULE),
        "C05" => seams!("c05.seams", c05, b, BODIES_RULE),
        "C06" => seams!("c06.seams", c06, b, BODIES_RULE),
        "C07" => seams!("c07.seams", c07, b, BODIES_RULE),
        "C08" => seams!("c08.seams", c08, t, TEXTS_RULE),
        "C09" => seams!("c09.seams", c09, t, TEXTS_RULE),
        "C10" => seams!("c10.seams", c10, t, TEXTS_RULE),
        "C11" => seams!("c11.seams", c11, t, TEXTS_RULE),
        "C12" => seams!("c12.seams", c12, t, TEXTS_RULE),
        "C13" => seams!("c13.seams", c13, t, TEXTS_RULE),
        "C14" => seams!("c14.seams", c14, t, TEXTS_RULE),
        "C17" => seams!("c17.seams", c17, t, TEXTS_RULE),
        "C18" => seams!("c18.seams", c18, t, TEXTS_RULE),
        "C19" => seams!("c19.seams", c19, t, TEXTS_RULE),
        "C21" => seams!("c21.seams", c21, b, BODIES_RULE),
        "C22" => seams!("c22.seams", c22, t, TEXTS_RULE),
        _ => None,
    }
}

/// The sweep of one property.
pub fn of(id: &str) -> Vec<Target> {
    let mut all = sizes_of(id);
    all.extend(seams_of(id));
    let n = (seam_sources(false), seam_sources(true));
    const RULE: &str = "byte sources with one of 22 sequences, most of them not UTF-8, across each of some 25 block ends and behind 8 kinds of characters";
    match id {
        "C01" => all.push(super::all("c01.seam_bytes", c01_bytes, n.0, n.1, RULE)),
        "C12" => all.push(super::all("c12.seam_bytes", c12_bytes, n.0, n.1, RULE)),
        "C17" => all.push(super::all("c17.seam_bytes", c17_bytes, n.0, n.1, RULE)),
        "C07" => all.push(near_target("c07.near", c07_near, NEAR7)),
        "C16" => all.push(near_target("c16.near", c16_near, NEAR16)),
        "C22" => all.push(near_target("c22.near", c22_near, NEAR22)),
        _ => {}
    }
    all
}
fn near_target(name: &'static str, f: fn(u64, &mut Ctx) -> R, kinds: usize) -> Target {
    const RULE: &str = "two of the same length that differ at one place: every place for every length up to 130, some for others";
    super::all(name, f, near_cases(false, kinds), near_cases(true, kinds), RULE)
}
fn sizes_of(id: &str) -> Vec<Target> {
    let texts = |name, f, rule| vec![all(name, f, FAMILIES as u64 * upto(QUICK, false), FAMILIES as u64 * upto(QUICK, true), rule)];
    let bodies = |name, f, rule| vec![all(name, f, BODIES.len() as u64 * upto(QUICK, false), BODIES.len() as u64 * upto(QUICK, true), rule)];
    const TEXTS_RULE: &str = "texts with one of their parts repeated around powers of two times; all cases are non-trivial";
    const BODIES_RULE: &str = "strings with one of their parts repeated around powers of two times; all cases are non-trivial";
    match id {
        "C01" => texts("c01.sizes", c01, TEXTS_RULE),
        "C02" => texts("c02.sizes", c02, TEXTS_RULE),
        "C04" => texts("c04.sizes", c04, TEXTS_RULE),
        "C05" => bodies("c05.sizes", c05, BODIES_RULE),
        "C06" => bodies("c06.sizes", c06, BODIES_RULE),
        "C07" => bodies("c07.sizes", c07, BODIES_RULE),
        "C08" => texts("c08.sizes", c08, TEXTS_RULE),
        "C09" => texts("c09.sizes", c09, TEXTS_RULE),
        "C10" => texts("c10.sizes", c10, TEXTS_RULE),
        "C11" => {
            let mut v = texts("c11.sizes", c11, TEXTS_RULE);
            v.push(all("c11.fits", c11_fits, 14 * 20, 14 * 20, "documents of about as many nodes as there is room for"));
            v
        }
        "C12" => texts("c12.sizes", c12, TEXTS_RULE),
        "C13" => texts("c13.sizes", c13, TEXTS_RULE),
        "C14" => texts("c14.sizes", c14, TEXTS_RULE),
        "C15" => vec![all("c15.sizes", c15, 16 * upto(34, false), 16 * upto(34, true), "numbers with one of their parts repeated around powers of two times")],
        "C16" => vec![all("c16.sizes", c16, 6 * upto(34, false), 6 * upto(34, true), "objects and arrays with around powers of two members")],
        "C17" => texts("c17.sizes", c17, TEXTS_RULE),
        "C18" => texts("c18.sizes", c18, TEXTS_RULE),
        "C19" => texts("c19.sizes", c19, TEXTS_RULE),
        "C21" => bodies("c21.sizes", c21, BODIES_RULE),
        "C22" => texts("c22.sizes", c22, TEXTS_RULE),
        _ => Vec::new(),
    }
}
