//! C08 printing, C09 parse then print, C18 failing outputs.

use super::accept::{classify, word, words};
use super::{all, rnd};
use crate::common::*;
use crate::engine::{fail, show_bytes, Ctx, Fail, Gen, Target, R};
use crate::gens::{self, b_char, MVal};
use crate::refjson::{self, Config, Tree};
use crate::{check, same};
use justjson::doc::Document;
use justjson::{JsonString, Value};
use std::fmt::{self, Write};

// ---------------------------------------------------------------------- C08

const INDENTS: [&str; 9] = ["  ", "", "\t", " ", "    ", "\t \t", " \r", "\n", "        "];
const EOLS: [&str; 7] = ["\n", "\r\n", "", " ", "\r", "\n\n", "\t"];
const ODD: [&str; 6] = ["--", "\u{e9}", "\"", "{", "}", "ab\u{1f639}"];

fn layout_args(g: &mut Gen<'_>) -> (&'static str, &'static str, bool) {
    if g.chance(1, 12) {
        let i = if g.bool() { *g.pick(&ODD) } else { *g.pick(&INDENTS) };
        let e = if g.bool() { *g.pick(&ODD) } else { *g.pick(&EOLS) };
        let ws = i.bytes().all(refjson::is_ws) && e.bytes().all(refjson::is_ws);
        (i, e, ws)
    } else {
        (g.pick(&INDENTS), g.pick(&EOLS), true)
    }
}

/// The printed text means the model, according to the reference.
fn text_means(b: &[u8], t: &Tree, m: &MVal) -> R {
    match (t, m) {
        (Tree::Null, MVal::Null) => Ok(()),
        (Tree::Bool(a), MVal::Bool(b)) if a == b => Ok(()),
        (Tree::Num(s), MVal::Num(n)) if s.text(b) == n => Ok(()),
        (Tree::Str(s), MVal::Str(n)) if refjson::decode(s.text(b), b_char()) == n.dec => Ok(()),
        (Tree::Arr(x), MVal::Arr(y)) if x.len() == y.len() => {
            x.iter().zip(y).try_for_each(|(p, q)| text_means(b, p, q))
        }
        (Tree::Obj(x), MVal::Obj(y)) if x.len() == y.len() => {
            x.iter().zip(y).try_for_each(|((k, p), (l, q))| {
                check!(
                    refjson::decode(k.text(b), b_char()) == l.dec,
                    "printed key {:?} where {:?} was expected",
                    k.text(b),
                    l.dec
                );
                text_means(b, p, q)
            })
        }
        _ => fail(format!("printed {t:?} where {m:?} was expected")),
    }
}

fn valid_print(out: &str, m: &MVal, what: &str) -> R {
    let cfg = Config { limit: None, ..Config::DEFAULT };
    let r = refjson::parse(out.as_bytes(), cfg);
    if let Some(f) = r.fault {
        return fail(format!("{what} is no JSON: {} ({f:?})", show_bytes(out.as_bytes())));
    }
    text_means(out.as_bytes(), &refjson::tree(&r.events), m)
        .map_err(|e| Fail { msg: format!("{what}: {}", e.msg) })
}

fn reparse(out: &str, v: &Value<'_>, m: &MVal, what: &str) -> R {
    let cfg = lib_config(Config { limit: None, ..Config::DEFAULT });
    match Value::from_json_with_config(out, cfg) {
        Ok(back) => {
            check!(back == *v && *v == back, "{what} does not read back equal: {}", show_bytes(out.as_bytes()));
            value_means(&back, m)
        }
        Err(e) => fail(format!("{what} does not read back: {e:?}: {}", show_bytes(out.as_bytes()))),
    }
}

fn sink(f: impl FnOnce(&mut String) -> fmt::Result) -> Result<String, Fail> {
    let mut s = String::new();
    match f(&mut s) {
        Ok(()) => Ok(s),
        Err(e) => fail(format!("printing to a String returns {e:?}")),
    }
}

/// Everything C08 says about one value. `exact` is the compact text when it is
/// known independently.
pub(super) fn prints(g: &mut Gen<'_>, v: &Value<'_>, m: &MVal, exact: Option<&str>) -> R {
    let compact = layout(v, None)?;
    if let Some(x) = exact {
        same!(compact.as_str(), x, "spelling of the strings");
    }
    same!(v.to_json(), compact, "to_json");
    same!(v.to_string(), compact, "to_string");
    same!(format!("{v}"), compact, "{{}}");
    same!(sink(|s| v.write_json_to(s))?, compact, "write_json_to");
    same!(sink(|s| write!(s, "{v}"))?, compact, "write! {{}}");
    valid_print(&compact, m, "compact print")?;
    check!(
        refjson::minify(compact.as_bytes()) == compact.as_bytes(),
        "compact print has whitespace: {}",
        show_bytes(compact.as_bytes())
    );
    reparse(&compact, v, m, "compact print")?;

    let pretty = layout(v, Some(("  ", "\n")))?;
    same!(v.to_json_pretty(), pretty, "to_json_pretty");
    same!(format!("{v:#}"), pretty, "{{:#}}");
    same!(sink(|s| v.pretty_write_json_to(s))?, pretty, "pretty_write_json_to");
    same!(sink(|s| write!(s, "{v:#}"))?, pretty, "write! {{:#}}");
    same!(v.to_json_pretty_custom("  ", "\n"), pretty, "to_json_pretty_custom with the defaults");
    same!(sink(|s| v.pretty_write_json_to_custom("  ", "\n", s))?, pretty, "pretty_write_json_to_custom with the defaults");
    valid_print(&pretty, m, "pretty print")?;
    check!(refjson::minify(pretty.as_bytes()) == compact.as_bytes(), "pretty print has other tokens");
    reparse(&pretty, v, m, "pretty print")?;

    let (indent, eol, ws) = layout_args(g);
    let custom = layout(v, Some((indent, eol)))?;
    same!(v.to_json_pretty_custom(indent, eol), custom, "to_json_pretty_custom({indent:?}, {eol:?})");
    same!(sink(|s| v.pretty_write_json_to_custom(indent, eol, s))?, custom, "pretty_write_json_to_custom({indent:?}, {eol:?})");
    if ws {
        valid_print(&custom, m, "custom print")?;
        check!(refjson::minify(custom.as_bytes()) == compact.as_bytes(), "custom print has other tokens");
        reparse(&custom, v, m, "custom print")?;
    }
    Ok(())
}

fn own_compact(m: &MVal, out: &mut String) {
    match m {
        MVal::Null => out.push_str("null"),
        MVal::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        MVal::Num(n) => out.push_str(n),
        MVal::Str(s) => out.push_str(&s.quoted),
        MVal::Arr(v) => {
            out.push('[');
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                own_compact(x, out);
            }
            out.push(']');
        }
        MVal::Obj(v) => {
            out.push('{');
            for (i, (k, x)) in v.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                }
                out.push_str(&k.quoted);
                out.push(':');
                own_compact(x, out);
            }
            out.push('}');
        }
    }
}

fn c08_parsed(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (m, t) = gens::valid_text(g, 128);
    ctx.describe(|| show_bytes(t.s.as_bytes()));
    classify(&m, ctx);
    if m.nodes() > 2 {
        ctx.nontrivial(t.s.as_bytes());
    }
    let v = match Value::from_json(&t.s) {
        Ok(v) => v,
        Err(e) => return fail(format!("rejected: {e:?}")),
    };
    let mut exact = String::new();
    own_compact(&m, &mut exact);
    prints(g, &v, &m, Some(&exact))
}

fn c08_built(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let m = gens::value(g, 200);
    let code_only = g.bool();
    ctx.describe(|| {
        let mut s = String::new();
        own_compact(&m, &mut s);
        format!("{} built in code", show_bytes(s.as_bytes()))
    });
    classify(&m, ctx);
    if m.nodes() > 2 {
        let mut s = String::new();
        own_compact(&m, &mut s);
        ctx.nontrivial(s.as_bytes());
    }
    let v = build(g, &m, code_only);
    prints(g, &v, &m, None)
}

/// All small values, every layout.
fn c08_small(i: u64, ctx: &mut Ctx) -> R {
    const TOKENS: [&str; 8] = ["{", "}", "[", "]", ",", "\"a\":", "1", "\"\\n\""];
    let mut b = Vec::new();
    word(i, &TOKENS, &mut b);
    let r = refjson::parse(&b, Config::DEFAULT);
    if r.fault.is_some() {
        return Ok(());
    }
    ctx.describe(|| show_bytes(&b));
    ctx.label("valid");
    ctx.nontrivial(b"");
    let v = match Value::from_json_bytes(&b) {
        Ok(v) => v,
        Err(e) => return fail(format!("rejected: {e:?}")),
    };
    same!(v.to_json().as_bytes(), &b[..], "to_json");
    for indent in INDENTS {
        for eol in EOLS {
            same!(
                v.to_json_pretty_custom(indent, eol),
                layout(&v, Some((indent, eol)))?,
                "to_json_pretty_custom({indent:?}, {eol:?})"
            );
        }
    }
    same!(v.to_json_pretty(), layout(&v, Some(("  ", "\n")))?, "to_json_pretty");
    same!(format!("{v:#}"), layout(&v, Some(("  ", "\n")))?, "{{:#}}");
    Ok(())
}

/// Values nested to every one of the depths, in layouts of a few kinds.
fn c08_nesting(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, shape, s)) = nesting_case(i, 4097) else { return Ok(()) };
    ctx.describe(|| format!("nesting of {depth}, shape {shape}"));
    if depth > 0 {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.label_if(depth > 255, "deeper than 255");
    let cfg = lib_config(Config { limit: None, trailing_commas: true, ..Config::DEFAULT });
    let v = match Value::from_json_with_config(&s, cfg) {
        Ok(v) => v,
        Err(e) => return fail(format!("rejected: {e:?}")),
    };
    let compact = layout(&v, None)?;
    same!(v.to_json(), compact, "to_json");
    same!(v.to_string(), compact, "to_string");
    let all: &[(&str, &str)] = match depth {
        0..=1025 => &[("  ", "\n"), ("", "\n"), ("\t", "\r\n"), (" ", ""), ("", "")],
        _ => &[("", "\n"), (" ", "\n"), ("", "")],
    };
    for (indent, eol) in all {
        let pretty = layout(&v, Some((indent, eol)))?;
        check!(v.to_json_pretty_custom(indent, eol) == pretty, "to_json_pretty_custom({indent:?}, {eol:?}) has another layout");
        check!(
            refjson::minify(pretty.as_bytes()) == compact.as_bytes(),
            "HARNESS: the layout changes the tokens"
        );
        if (*indent, *eol) == ("  ", "\n") {
            check!(v.to_json_pretty() == pretty, "to_json_pretty has another layout");
            check!(format!("{v:#}") == pretty, "{{:#}} has another layout");
        }
    }
    Ok(())
}

pub fn c08() -> Vec<Target> {
    vec![
        all("c08.nesting", c08_nesting, nesting_cases(), nesting_cases(), "depths up to 4097 x 8 shapes in up to 5 layouts; non-trivial: a container"),
        rnd("c08.parsed", c08_parsed, 120_000, 2_000_000, "a parsed text in every layout; non-trivial: more than 2 nodes"),
        rnd("c08.built", c08_built, 120_000, 2_000_000, "a value built with constructors in every layout; non-trivial: more than 2 nodes"),
        all("c08.small", c08_small, words(8, 7), words(8, 8), "all words over 8 tokens; non-trivial: the word is a valid text"),
    ]
}

// ---------------------------------------------------------------------- C09

pub(super) fn roundtrip(b: &[u8], text: Option<&str>) -> R {
    let want = refjson::minify(b);
    let want = std::str::from_utf8(&want).map_err(|_| Fail { msg: "HARNESS: minify broke UTF-8".into() })?;
    let v = match Value::from_json_bytes(b) {
        Ok(v) => v,
        Err(e) => return fail(format!("{} rejected: {e:?}", show_bytes(b))),
    };
    let out = v.to_json();
    same!(out.as_str(), want, "printed value of {}", show_bytes(b));
    if let Some(t) = text {
        match Value::from_json(t) {
            Ok(v) => same!(v.to_json(), want, "printed value of the text {}", show_bytes(b)),
            Err(e) => return fail(format!("{} rejected as text: {e:?}", show_bytes(b))),
        }
        match Document::from_json(t) {
            Ok(d) => same!(Value::from(d).to_json(), want, "printed document of the text {}", show_bytes(b)),
            Err(e) => return fail(format!("{} rejected as a document: {e:?}", show_bytes(b))),
        }
    }
    match Document::from_json_bytes(b) {
        Ok(d) => {
            let mut it = d.iter();
            match it.next_value() {
                Some(v) => same!(v.to_json(), want, "printed next_value of {}", show_bytes(b)),
                None => return fail(format!("no value in the document of {}", show_bytes(b))),
            }
            same!(Value::from(d).to_json(), want, "printed document of {}", show_bytes(b));
        }
        Err(e) => return fail(format!("{} rejected as a document: {e:?}", show_bytes(b))),
    }
    // idempotent
    match Value::from_json(&out) {
        Ok(v) => same!(v.to_json(), want, "second print of {}", show_bytes(b)),
        Err(e) => return fail(format!("the print {} is rejected: {e:?}", show_bytes(out.as_bytes()))),
    }
    // via the pretty form
    let pretty = v.to_json_pretty();
    check!(refjson::minify(pretty.as_bytes()) == want.as_bytes(), "the pretty form has other tokens than {}", show_bytes(b));
    match Value::from_json(&pretty) {
        Ok(p) => {
            same!(p.to_json(), want, "compact print of the pretty form of {}", show_bytes(b));
            same!(p.to_json_pretty(), pretty, "second pretty print of {}", show_bytes(b));
        }
        Err(e) => return fail(format!("the print {} is rejected: {e:?}", show_bytes(pretty.as_bytes()))),
    }
    Ok(())
}

fn c09_valid(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (m, t) = gens::valid_text(g, 128);
    ctx.describe(|| show_bytes(t.s.as_bytes()));
    classify(&m, ctx);
    ctx.label_if(refjson::minify(t.s.as_bytes()).len() < t.s.len(), "has whitespace");
    if m.nodes() > 2 {
        ctx.nontrivial(t.s.as_bytes());
    }
    roundtrip(t.s.as_bytes(), Some(&t.s))
}

fn c09_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, _) = gens::any_input(g, 10);
    if !refjson::accepts(&b, Config::DEFAULT) {
        ctx.label("invalid (skipped)");
        return Ok(());
    }
    ctx.describe(|| show_bytes(&b));
    ctx.label("valid");
    ctx.nontrivial(&b);
    roundtrip(&b, std::str::from_utf8(&b).ok())
}

fn c09_small(i: u64, ctx: &mut Ctx) -> R {
    const TOKENS: [&str; 11] = ["{", "}", "[", "]", ",", "\"\\u0061\"", ":", "-0", " ", "\n", "\"/\""];
    let mut b = Vec::new();
    word(i, &TOKENS, &mut b);
    if !refjson::accepts(&b, Config::DEFAULT) {
        return Ok(());
    }
    ctx.describe(|| show_bytes(&b));
    ctx.label("valid");
    ctx.nontrivial(b"");
    roundtrip(&b, std::str::from_utf8(&b).ok())
}

/// Nesting far beyond the default limit.
fn c09_nesting(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, shape, s)) = nesting_case(i, usize::MAX) else { return Ok(()) };
    ctx.describe(|| format!("nesting of {depth}, shape {shape}"));
    if depth > 0 {
        ctx.nontrivial(s.as_bytes());
    }
    let cfg = lib_config(Config { trailing_commas: true, limit: None, any_root: true });
    let bare = if shape == 7 { s.replace(",}", "}").replace(",]", "]") } else { s.clone() };
    let v = Value::from_json_with_config(&s, cfg).map_err(|e| crate::engine::Fail {
        msg: format!("nesting of {depth}, shape {shape} rejected: {e:?}"),
    })?;
    check!(v.to_json() == bare, "nesting of {depth}, shape {shape} is printed as something else");
    let d = Document::from_json_bytes_with_config(s.as_bytes(), cfg).map_err(|e| crate::engine::Fail {
        msg: format!("nesting of {depth}, shape {shape} rejected: {e:?}"),
    })?;
    let w = Value::from(d);
    check!(w.to_json() == bare, "nesting of {depth}, shape {shape} is printed as something else by way of a document");
    check!(v == w, "nesting of {depth}, shape {shape}: the value and the document's value differ");
    if depth <= 520 {
        let pretty = w.to_json_pretty();
        check!(
            refjson::minify(pretty.as_bytes()) == bare.as_bytes(),
            "nesting of {depth}, shape {shape}: the pretty form does not reduce to the compact one"
        );
        check!(
            format!("{v:#}") == pretty,
            "nesting of {depth}, shape {shape}: alternate display differs from to_json_pretty"
        );
    }
    Ok(())
}

pub fn c09() -> Vec<Target> {
    vec![
        all("c09.nesting", c09_nesting, nesting_cases(), nesting_cases(), "depths up to 8193 x 8 shapes without a limit; non-trivial: a container"),
        rnd("c09.valid", c09_valid, 300_000, 5_000_000, "a constructed text; non-trivial: more than 2 nodes"),
        rnd("c09.any", c09_any, 600_000, 8_000_000, "any input; non-trivial: it is a valid text"),
        all("c09.small", c09_small, words(11, 6), words(11, 7), "all words over 11 pieces; non-trivial: the word is a valid text"),
    ]
}

// ---------------------------------------------------------------------- C18

/// A destination that refuses.
struct Refusing {
    out: String,
    calls: usize,
    /// refuse this call (1-based)
    at_call: usize,
    /// hold no more than this
    room: usize,
    /// fill what room there is before refusing
    partial: bool,
    /// accept again after the refusal
    recover: bool,
    refused: bool,
    after: usize,
}
impl Refusing {
    fn new(at_call: usize, room: usize, partial: bool, recover: bool) -> Refusing {
        Refusing {
            out: String::new(),
            calls: 0,
            at_call,
            room,
            partial,
            recover,
            refused: false,
            after: 0,
        }
    }
}
impl Write for Refusing {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if self.refused {
            self.after += 1;
            if self.recover {
                self.out.push_str(s);
                return Ok(());
            }
            return Err(fmt::Error);
        }
        if self.calls == self.at_call {
            self.refused = true;
            return Err(fmt::Error);
        }
        if self.out.len() + s.len() > self.room {
            self.refused = true;
            if self.partial {
                let mut n = self.room - self.out.len();
                while !s.is_char_boundary(n) {
                    n -= 1;
                }
                self.out.push_str(&s[..n]);
            }
            return Err(fmt::Error);
        }
        self.out.push_str(s);
        Ok(())
    }
}

/// One printing with one refusal.
fn refused(
    full: &str,
    what: &str,
    mut w: Refusing,
    print: &dyn Fn(&mut Refusing) -> fmt::Result,
) -> Result<usize, Fail> {
    let r = print(&mut w);
    if w.refused {
        check!(
            r.is_err(),
            "{what}: the destination refused call {} (room {}), but printing reports success; full text {}",
            w.calls - w.after,
            w.room,
            show_bytes(full.as_bytes())
        );
        check!(
            w.after == 0,
            "{what}: {} more writes after a refused one; full text {}",
            w.after,
            show_bytes(full.as_bytes())
        );
        check!(
            full.starts_with(&w.out),
            "{what}: wrote {} before the refusal, no prefix of {}",
            show_bytes(w.out.as_bytes()),
            show_bytes(full.as_bytes())
        );
    } else {
        check!(r.is_ok(), "{what}: error although nothing was refused");
        same!(w.out.as_str(), full, "{what}: what was written");
    }
    Ok(w.calls)
}

type Printer<'p> = Box<dyn Fn(&mut Refusing) -> fmt::Result + 'p>;

fn printers<'p>(v: &'p Value<'_>, indent: &'p str, eol: &'p str) -> Vec<(&'static str, String, Printer<'p>)> {
    let mut out: Vec<(&'static str, String, Printer<'p>)> = vec![
        ("write_json_to", v.to_json(), Box::new(move |w| v.write_json_to(w))),
        ("pretty_write_json_to", v.to_json_pretty(), Box::new(move |w| v.pretty_write_json_to(w))),
        (
            "pretty_write_json_to_custom",
            v.to_json_pretty_custom(indent, eol),
            Box::new(move |w| v.pretty_write_json_to_custom(indent, eol, w)),
        ),
        ("{}", v.to_json(), Box::new(move |w| write!(w, "{v}"))),
        ("{:#}", v.to_json_pretty(), Box::new(move |w| write!(w, "{v:#}"))),
    ];
    if let Value::String(s) = v {
        out.extend(string_printers(s));
    }
    out
}
fn string_printers<'p>(s: &'p JsonString<'_>) -> Vec<(&'static str, String, Printer<'p>)> {
    vec![
        ("JsonString {}", s.to_string(), Box::new(move |w| write!(w, "{s}"))),
        ("as_json {}", s.as_json().to_string(), Box::new(move |w| write!(w, "{}", s.as_json()))),
        ("decoded {}", s.decoded().to_string(), Box::new(move |w| write!(w, "{}", s.decoded()))),
    ]
}

/// Every refusal point of one printing (or a sample of them).
fn every_refusal(
    g: &mut Gen<'_>,
    full: &str,
    what: &str,
    print: &dyn Fn(&mut Refusing) -> fmt::Result,
    limit: usize,
) -> Result<u64, Fail> {
    let calls = refused(full, what, Refusing::new(0, usize::MAX, false, false), print)?;
    let mut points = 1;
    let all = calls <= limit;
    let n = if all { calls } else { limit };
    for k in 0..n {
        let at = if all { k + 1 } else { g.range(1, calls) };
        refused(full, what, Refusing::new(at, usize::MAX, false, k % 2 == 0), print)?;
        points += 1;
    }
    let all = full.len() <= limit;
    let n = if all { full.len() } else { limit };
    for k in 0..n {
        let room = if all { k } else { g.below(full.len()) };
        refused(full, what, Refusing::new(0, room, k % 2 == 0, k % 4 < 2), print)?;
        points += 1;
    }
    // just enough room
    refused(full, what, Refusing::new(0, full.len(), true, true), print)?;
    Ok(points)
}

fn c18_values(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let m = gens::value(g, 12);
    let v = build(g, &m, false);
    let (indent, eol, _) = layout_args(g);
    ctx.describe(|| format!("{v} with {indent:?} {eol:?}"));
    ctx.label(match m {
        MVal::Arr(_) => "array",
        MVal::Obj(_) => "object",
        MVal::Str(_) => "string",
        _ => "other scalar",
    });
    if m.nodes() > 2 || matches!(m, MVal::Str(_)) {
        ctx.nontrivial(v.to_json().as_bytes());
    }
    let limit = if ctx.thorough { 200 } else { 60 };
    let points = refusals(g, &v, indent, eol, limit)?;
    ctx.count("refusal points", points);
    Ok(())
}

/// Refusals of every way to print one value.
pub(super) fn refusals(g: &mut Gen<'_>, v: &Value<'_>, indent: &str, eol: &str, limit: usize) -> Result<u64, Fail> {
    let mut points = 0;
    for (what, full, print) in printers(v, indent, eol) {
        points += every_refusal(g, &full, what, &*print, limit)?;
    }
    Ok(points)
}

fn c18_small(i: u64, ctx: &mut Ctx) -> R {
    const TOKENS: [&str; 9] = ["{", "}", "[", "]", ",", "\"\\n\":", "1", "\"a\\u0000\"", "null"];
    let mut b = Vec::new();
    word(i, &TOKENS, &mut b);
    if !refjson::accepts(&b, Config::DEFAULT) {
        return Ok(());
    }
    ctx.describe(|| show_bytes(&b));
    ctx.label("valid");
    ctx.nontrivial(b"");
    let v = match Value::from_json_bytes(&b) {
        Ok(v) => v,
        Err(e) => return fail(format!("rejected: {e:?}")),
    };
    let mut g = Gen::random(i);
    let mut points = 0;
    for (indent, eol) in [("", ""), ("\t", "\r\n"), ("", "\n"), ("  ", "")] {
        for (what, full, print) in printers(&v, indent, eol) {
            points += every_refusal(&mut g, &full, what, &*print, 1000)?;
        }
    }
    ctx.count("refusal points", points);
    Ok(())
}

/// Every character as a string built in code.
fn c18_chars(i: u64, ctx: &mut Ctx) -> R {
    let c = char::from_u32(i as u32).unwrap_or('x');
    let t = format!("a{c}{c}b");
    ctx.describe(|| format!("{t:?}"));
    ctx.nontrivial(b"");
    let mut g = Gen::random(i);
    let vs = [Value::from(t.as_str()), Value::from(t.clone()), Value::Array(vec![Value::from(t.as_str())])];
    let mut points = 0;
    for v in &vs {
        for (what, full, print) in printers(v, " ", "\n") {
            points += every_refusal(&mut g, &full, what, &*print, 1000)?;
        }
    }
    ctx.count("refusal points", points);
    Ok(())
}

pub fn c18() -> Vec<Target> {
    vec![
        rnd("c18.values", c18_values, 40_000, 500_000, "a value in every layout, a refusal at every call and byte (sampled when long); non-trivial: a string or more than 2 nodes"),
        all("c18.small", c18_small, words(9, 5), words(9, 7), "all words over 9 tokens, every refusal point; non-trivial: the word is a valid text"),
        all("c18.chars", c18_chars, 0x180, 0x800, "every low character in a string, every refusal point"),
    ]
}
