//! Properties at every nesting: texts nested to depths around powers of two,
//! the default limit and far beyond, read without a limit.

use super::{accept, all, document, faults, history, lexing, memory, printing};
use crate::common::*;
use crate::engine::{mix, Ctx, Fail, Gen, Target, R};
use crate::refjson::{self, Config};
use crate::{check, same};
use justjson::doc::Document;
use justjson::parser::Parser;
use justjson::Value;

const CFG: Config = Config { trailing_commas: true, any_root: true, limit: None };

fn gen(i: u64) -> Gen<'static> {
    Gen::random(mix(i ^ 0xDEE9))
}

/// Messages quote what they are about, which is long here.
fn brief(r: R) -> R {
    r.map_err(|e| {
        let n = e.msg.chars().count();
        if n <= 700 {
            return e;
        }
        let head: String = e.msg.chars().take(300).collect();
        let tail: String = e.msg.chars().skip(n - 300).collect();
        Fail { msg: format!("{head} [...] {tail}") }
    })
}

fn case(i: u64, max: usize, ctx: &mut Ctx) -> Option<(usize, String)> {
    let (depth, shape, s) = nesting_case(i, max)?;
    ctx.describe(|| format!("nesting of {depth}, shape {shape}"));
    if depth > 0 {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.label_if(depth > 128, "deeper than the default limit");
    Some((depth, s))
}

fn bad(e: justjson::Error) -> Fail {
    Fail { msg: format!("rejected: {e:?}") }
}

fn c04(i: u64, ctx: &mut Ctx) -> R {
    let Some((_, s)) = case(i, 8193, ctx) else { return Ok(()) };
    let (b, lc) = (s.as_bytes(), lib_config(CFG));
    let t = refjson::tree(&refjson::parse(b, CFG).events);
    for v in [
        Value::from_json_with_config(&s, lc).map_err(bad)?,
        Value::from_json_bytes_with_config(b, lc).map_err(bad)?,
        Value::from(Document::from_json_with_config(&s, lc).map_err(bad)?),
        Value::from(Document::from_json_bytes_with_config(b, lc).map_err(bad)?),
    ] {
        brief(accept::tree_matches(&v, &t, b))?;
    }
    Ok(())
}

fn c11(i: u64, ctx: &mut Ctx) -> R {
    let Some((_, s)) = case(i, 1025, ctx) else { return Ok(()) };
    brief(document::planned(&mut gen(i), ctx, s.as_bytes(), CFG))
}

fn c13(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, s)) = case(i, 2049, ctx) else { return Ok(()) };
    let mut g = gen(i);
    brief(faults::c13_case(&mut g, ctx, s.as_bytes(), CFG))?;
    for limit in [depth, depth.saturating_sub(1), depth / 2] {
        brief(faults::c13_case(&mut g, ctx, s.as_bytes(), Config { limit: Some(limit), ..CFG }))?;
    }
    Ok(())
}

fn c14(i: u64, ctx: &mut Ctx) -> R {
    let Some((_, s)) = case(i, 8193, ctx) else { return Ok(()) };
    brief(lexing::case(&mut gen(i), ctx, s.as_bytes()))
}

fn c17(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, s)) = case(i, 4097, ctx) else { return Ok(()) };
    let (b, mut g) = (s.as_bytes(), gen(i));
    let mut cases: Vec<Vec<u8>> = Vec::new();
    let mut cuts: Vec<usize> = [0, 1, 2, b.len() / 2, b.len() - 1].into_iter().chain((0..12).map(|_| g.below(b.len()))).collect();
    cuts.retain(|c| *c < b.len());
    for c in cuts {
        cases.push(b[..c].to_vec());
        for bad in ["x", "}", "]", ":", ",", "\"a", "01", "\"\\x", "tru"] {
            cases.push([&b[..c], bad.as_bytes()].concat());
        }
    }
    for add in [" x", "]", "}", ",", "1"] {
        cases.push([b, add.as_bytes()].concat());
    }
    let mut names = 0;
    for c in &cases {
        for limit in [None, Some(depth), Some(depth.saturating_sub(1)), Some(depth / 2)] {
            for trailing_commas in [true, false] {
                let r = faults::named(c, Config { limit, trailing_commas, any_root: true });
                names += u64::from(*r.as_ref().unwrap_or(&false));
                brief(r.map(|_| ()))?;
            }
        }
    }
    ctx.count("faults named", names);
    Ok(())
}

fn c18(i: u64, ctx: &mut Ctx) -> R {
    let Some((_, s)) = case(i, 513, ctx) else { return Ok(()) };
    let v = Value::from_json_with_config(&s, lib_config(CFG)).map_err(bad)?;
    let mut points = 0;
    let r = printing::refusals(&mut gen(i), &v, " ", "\n", 3).map(|n| points = n);
    ctx.count("refusal points", points);
    brief(r)
}

fn c19(i: u64, ctx: &mut Ctx) -> R {
    let Some((_, s)) = case(i, 8193, ctx) else { return Ok(()) };
    brief(memory::free_of_charge(s.as_bytes(), CFG))
}

/// Values and documents that differ innermost, or in one level.
fn c22(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, s)) = case(i, 8193, ctx) else { return Ok(()) };
    let lc = lib_config(CFG);
    // whatever is innermost is followed by the first closing bracket
    let at = s.find([']', '}']).unwrap_or(s.len());
    let spaced = format!(" {} ", s.replace(',', " ,\n"));
    let mut others = vec![(spaced, true), (format!("[{s}]"), false)];
    if depth > 0 {
        let inside = if s.as_bytes()[at] == b']' { "0" } else { "\"z\":0" };
        let comma = if s[..at].ends_with(['[', '{']) { "" } else { "," };
        others.push((format!("{}{comma}{inside}{}", &s[..at], &s[at..]), false));
    }
    let a = Value::from_json_with_config(&s, lc).map_err(bad)?;
    let da = Document::from_json_with_config(&s, lc).map_err(bad)?;
    for (t, want) in &others {
        let b = Value::from_json_with_config(t, lc).map_err(bad)?;
        let db = Document::from_json_with_config(t, lc).map_err(bad)?;
        check!((a == b) == *want && (b == a) == *want, "equality of two deep values is not {want}");
        check!((a != b) != *want, "inequality of two deep values is not {}", !want);
        check!(da.iter().eq(db.iter()) == *want, "equality of the nodes of two deep documents is not {want}");
        let back = Value::from(db);
        check!(back == b && (back == a) == *want, "equality of a deep value and a converted document is not {want}");
    }
    Ok(())
}

fn c25(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, s)) = case(i, 8193, ctx) else { return Ok(()) };
    let lc = lib_config(CFG);
    let half = lib_config(Config { limit: Some(depth / 2), ..CFG });
    let cut = &s.as_bytes()[..s.len() / 2];
    let steps: [(&str, &dyn Fn()); 7] = [
        ("a value", &|| drop(Value::from_json_with_config(&s, lc))),
        ("a document", &|| drop(Document::from_json_with_config(&s, lc))),
        ("a converted document", &|| drop(Document::from_json_with_config(&s, lc).map(Value::from))),
        ("a value cut short", &|| drop(Value::from_json_bytes_with_config(cut, lc))),
        ("a value beyond the limit", &|| drop(Value::from_json_with_config(&s, half))),
        ("a document beyond the limit", &|| drop(Document::from_json_with_config(&s, half))),
        ("a validated text", &|| drop(Parser::validate_json_with_config(&s, half))),
    ];
    for (what, f) in steps {
        same!(history::balance(f), 0, "blocks still allocated after {what}");
    }
    Ok(())
}

/// The nesting sweep of one property.
pub fn of(id: &str) -> Vec<Target> {
    let n = nesting_cases();
    let t = |name, f, rule| vec![all(name, f, n, n, rule)];
    match id {
        "C04" => t("c04.nesting", c04, "depths up to 8193 x 8 shapes without a limit; non-trivial: a container"),
        "C11" => t("c11.nesting", c11, "depths up to 1025 x 8 shapes, refusing collections; non-trivial: a container"),
        "C13" => t("c13.nesting", c13, "depths up to 2049 x 8 shapes x 4 limits; non-trivial: a container"),
        "C14" => t("c14.nesting", c14, "depths up to 8193 x 8 shapes; non-trivial: a container"),
        "C17" => t("c17.nesting", c17, "depths up to 4097 x 8 shapes, cut and damaged at 17 places, 4 limits; non-trivial: a container"),
        "C18" => t("c18.nesting", c18, "depths up to 513 x 8 shapes, sampled refusals; non-trivial: a container"),
        "C19" => t("c19.nesting", c19, "depths up to 8193 x 8 shapes; non-trivial: a container"),
        "C22" => t("c22.nesting", c22, "depths up to 8193 x 8 shapes, with one that differs innermost or by a level; non-trivial: a container"),
        "C25" => t("c25.nesting", c25, "depths up to 8193 x 8 shapes, complete, cut and beyond a limit; non-trivial: a container"),
        _ => Vec::new(),
    }
}
