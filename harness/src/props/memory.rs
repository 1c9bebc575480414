//! C19: parsed text is borrowed; scalars cost no allocation.

use super::accept::{word, words};
use super::{all, rnd};
use crate::alloc::{measure, Counts};
use crate::common::*;
use crate::engine::{show_bytes, Ctx, Gen, Target, R};
use crate::gens::{self, Chars, MStr, MVal, SpanKind, Text, Ws};
use crate::refjson::{self, Config, Span};
use crate::{check, same};
use justjson::doc::{Document, HeaplessDocument, Node};
use justjson::parser::{Parser, Token, Tokenizer};
use justjson::{AnyStr, JsonNumber, JsonString, Value};

const NONE: Counts = Counts { allocs: 0, reallocs: 0, frees: 0, bytes: 0 };

type Place = (SpanKind, Span);

/// Where the contents of strings, keys and numbers are, in source order.
fn places(t: &Text) -> Vec<Place> {
    t.toks
        .iter()
        .filter_map(|(k, s)| match k {
            SpanKind::Key | SpanKind::Str => Some((*k, Span { lo: s.lo + 1, hi: s.hi - 1 })),
            SpanKind::Num => Some((*k, *s)),
            SpanKind::Other => None,
        })
        .collect()
}

struct At<'s> {
    src: &'s [u8],
    want: &'s [Place],
    next: usize,
    what: &'static str,
}

impl At<'_> {
    fn place(&self, part: &str, sp: Span, what: &str) -> R {
        if sp.lo == sp.hi {
            // an empty text has no bytes that could be copied
            check!(part.is_empty(), "{}: {what} is {part:?} instead of empty", self.what);
            return Ok(());
        }
        let got = span_in(self.src, part);
        check!(
            got == Some(sp),
            "{}: {what} {part:?} is at {got:?} of the source instead of {sp:?}",
            self.what
        );
        Ok(())
    }
    fn take(&mut self) -> Place {
        let p = self.want[self.next];
        self.next += 1;
        p
    }
    fn str(&mut self, s: &JsonString<'_>, kind: SpanKind) -> R {
        check!(self.next < self.want.len(), "{}: more strings than in the source", self.what);
        let (k, sp) = self.take();
        let name = if kind == SpanKind::Key { "key" } else { "string" };
        check!(k == kind, "{}: {name} where {k:?} was expected", self.what);
        let body = std::str::from_utf8(&self.src[sp.lo..sp.hi]).unwrap();
        let Some(j) = s.as_json_str() else {
            return crate::engine::fail(format!("{}: {name} {body:?} has no JSON text", self.what));
        };
        check!(
            matches!(j, AnyStr::Borrowed(_)),
            "{}: {name} {body:?} is not borrowed",
            self.what
        );
        self.place(j, sp, name)?;
        let (e, c) = measure(|| s.escape_if_needed());
        check!(matches!(e, AnyStr::Borrowed(_)) && c == NONE, "{}: escape_if_needed of {name} {body:?} copies ({c:?})", self.what);
        self.place(&e, sp, "escape_if_needed of")?;
        if !body.contains('\\') {
            let (d, c) = measure(|| s.decode_if_needed());
            check!(
                matches!(d, AnyStr::Borrowed(_)) && c == NONE,
                "{}: decode_if_needed of {name} {body:?} without escapes copies ({c:?})",
                self.what
            );
            self.place(&d, sp, "decode_if_needed of")?;
            let Some(t) = s.as_str() else {
                return crate::engine::fail(format!("{}: as_str of {name} {body:?} without escapes is None", self.what));
            };
            self.place(t, sp, "as_str of")?;
        }
        let (copy, c) = measure(|| s.clone());
        check!(c == NONE, "{}: cloning {name} {body:?} allocates ({c:?})", self.what);
        self.place(copy.as_json_str().map_or("?", AnyStr::as_str), sp, "clone of")
    }
    fn num(&mut self, t: &str) -> R {
        check!(self.next < self.want.len(), "{}: more numbers than in the source", self.what);
        let (k, sp) = self.take();
        check!(k == SpanKind::Num, "{}: number where {k:?} was expected", self.what);
        self.place(t, sp, "number")
    }
    fn end(&self) -> R {
        same!(self.next, self.want.len(), "{}: number of scalars", self.what);
        Ok(())
    }
    fn value(&mut self, v: &Value<'_>) -> R {
        match v {
            Value::Null | Value::Boolean(_) => Ok(()),
            Value::Number(n) => self.num(n.source()),
            Value::String(s) => self.str(s, SpanKind::Str),
            Value::Array(x) => x.iter().try_for_each(|v| self.value(v)),
            Value::Object(x) => {
                for e in x.iter() {
                    self.str(&e.key, SpanKind::Key)?;
                    self.value(&e.value)?;
                }
                Ok(())
            }
        }
    }
}

/// Visits nodes, knowing which strings are keys.
fn nodes<'a>(at: &mut At<'_>, it: impl Iterator<Item = Node<'a>>) -> R {
    // remaining children; for objects twice the entries, a key when even
    let mut open: Vec<(bool, usize)> = Vec::new();
    for n in it {
        while matches!(open.last(), Some((_, 0))) {
            open.pop();
        }
        let key = match open.last_mut() {
            Some((obj, left)) => {
                let key = *obj && *left % 2 == 0;
                *left -= 1;
                key
            }
            None => false,
        };
        match n {
            Node::Null | Node::Boolean(_) => {}
            Node::String(s) => at.str(&s, if key { SpanKind::Key } else { SpanKind::Str })?,
            Node::Number(n) => at.num(n.source())?,
            Node::Object { length } => open.push((true, length * 2)),
            Node::Array { length } => open.push((false, length)),
        }
    }
    at.end()
}

fn unlimited() -> Config {
    Config { limit: None, ..Config::DEFAULT }
}

fn borrow(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (m, t) = gens::valid_text(g, 6);
    borrowed(g, ctx, &m, &t)
}

/// Everything C19 says about where the parts of one text are.
pub(super) fn borrowed(g: &mut Gen<'_>, ctx: &mut Ctx, m: &MVal, t: &Text) -> R {
    let want = places(t);
    if want.iter().any(|(_, s)| s.hi > s.lo) {
        ctx.nontrivial(t.s.as_bytes());
    }
    ctx.label_if(want.iter().any(|(k, s)| *k != SpanKind::Num && t.s[s.lo..s.hi].contains('\\')), "escapes");
    ctx.label_if(want.len() > 50, "over 50 scalars");
    ctx.describe(|| show_bytes(t.s.as_bytes()));
    // a copy at another alignment, inside a larger buffer
    let pad = g.below(9);
    let mut buf = vec![b'#'; pad];
    buf.extend_from_slice(t.s.as_bytes());
    buf.extend_from_slice(b"]}\"#");
    let src = &buf[pad..pad + t.s.len()];
    let text = std::str::from_utf8(src).unwrap();
    let cfg = lib_config(unlimited());
    let at = |what| At { src, want: &want, next: 0, what };
    let bad = |e: &dyn std::fmt::Debug| crate::engine::Fail { msg: format!("valid text is rejected: {e:?}") };

    let mut a = at("Value::from_json");
    let v = Value::from_json_with_config(text, cfg.clone()).map_err(|e| bad(&e))?;
    a.value(&v)?;
    a.end()?;
    let mut a = at("Value::from_json_bytes");
    let v = Value::from_json_bytes_with_config(src, cfg.clone()).map_err(|e| bad(&e))?;
    a.value(&v)?;
    a.end()?;
    drop(v);

    let d = Document::from_json_with_config(text, cfg.clone()).map_err(|e| bad(&e))?;
    nodes(&mut at("Document::from_json"), d.iter())?;
    let mut a = at("next_value");
    let v = d.iter().next_value();
    a.value(v.as_ref().unwrap_or(&Value::Null))?;
    a.end()?;
    drop(v);
    drop(d);
    let d = Document::from_json_bytes_with_config(src, cfg.clone()).map_err(|e| bad(&e))?;
    let mut it = d.iter();
    let mut a = at("clone of next_value");
    let mut c = it.clone();
    it.skip_next_value();
    a.value(&c.next_value().unwrap_or(Value::Null))?;
    a.end()?;
    if m.nodes() + 64 < 1024 {
        if let Ok(d) = HeaplessDocument::<1024>::from_json_bytes_with_config(src, cfg) {
            nodes(&mut at("HeaplessDocument::from_json_bytes"), d.iter())?;
        }
    }

    let mut key_next = Vec::new();
    let mut a = at("Tokenizer");
    // objects expect a key after `{` and after `,`
    let mut expect_key = false;
    for tok in Tokenizer::for_json_bytes(src) {
        match tok.map_err(|e| bad(&e))? {
            Token::Object => {
                key_next.push(true);
                expect_key = true;
            }
            Token::Array => {
                key_next.push(false);
                expect_key = false;
            }
            Token::ObjectEnd | Token::ArrayEnd => {
                key_next.pop();
            }
            Token::Comma => expect_key = *key_next.last().unwrap_or(&false),
            Token::Colon => expect_key = false,
            Token::String(s) => a.str(&s, if expect_key { SpanKind::Key } else { SpanKind::Str })?,
            Token::Number(n) => a.num(n.source())?,
            Token::Null | Token::Bool(_) => {}
        }
    }
    a.end()?;

    // one scalar alone
    if let Some(i) = (!want.is_empty()).then(|| g.below(want.len())) {
        let (k, sp) = want[i];
        let mut a = At { src, want: &want, next: i, what: "from_json of one scalar" };
        if k == SpanKind::Num {
            let (n, c) = measure(|| JsonNumber::from_json(&text[sp.lo..sp.hi]));
            a.num(n.map_err(|e| bad(&e))?.source())?;
            same!(c, NONE, "JsonNumber::from_json");
        } else {
            let (s, c) = measure(|| JsonString::from_json(&text[sp.lo - 1..sp.hi + 1]));
            a.str(&s.map_err(|e| bad(&e))?, k)?;
            same!(c, NONE, "JsonString::from_json");
        }
    }
    Ok(())
}

fn raw(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let s = gens::text(g, 200);
    let (j, c) = measure(|| JsonString::from(s.as_str()));
    same!(c, NONE, "JsonString::from(&str)");
    let (d, c) = measure(|| j.decode_if_needed());
    if !s.is_empty() {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.describe(|| format!("{s:?}"));
    // a Rust string has no escapes: what it decodes to is the text itself
    check!(matches!(d, AnyStr::Borrowed(_)), "decode_if_needed of From<&str>({s:?}) is owned");
    same!(c, NONE, "decode_if_needed of From<&str>");
    check!(
        s.is_empty() || span_in(s.as_bytes(), &d) == Some(Span { lo: 0, hi: s.len() }),
        "decode_if_needed of From<&str>({s:?}) is not that text"
    );
    // taking a String keeps its buffer
    let own = s.clone();
    let p = own.as_ptr();
    let (j, c) = measure(|| JsonString::from(own));
    same!(c, NONE, "JsonString::from(String)");
    if let Some(t) = j.as_str() {
        check!(s.is_empty() || t.as_ptr() == p, "JsonString::from(String) copies {s:?}");
    }
    Ok(())
}

fn scalar(g: &mut Gen<'_>) -> MVal {
    match g.below(8) {
        0 => MVal::Null,
        1 => MVal::Bool(g.bool()),
        2 => MVal::Num(gens::number(g)),
        3 => {
            let n = 1 + g.size(3000);
            MVal::Num(gens::digits(g, n, true))
        }
        4 => {
            let n = g.size(3000);
            let c = gens::char_of(g, Chars::Any);
            let t: String = (0..n).map(|_| c).collect();
            let style = g.below(4);
            MVal::Str(gens::spell(g, &t, style))
        }
        5 => MVal::Str(MStr::from_body("")),
        _ => MVal::Str(gens::mstr(g, 300)),
    }
}

/// The same containers with other scalars and keys.
fn reskin(g: Option<&mut Gen<'_>>, m: &MVal) -> MVal {
    fn go(g: &mut Option<&mut Gen<'_>>, m: &MVal) -> MVal {
        match m {
            MVal::Arr(x) => MVal::Arr(x.iter().map(|v| go(g, v)).collect()),
            MVal::Obj(x) => MVal::Obj(
                x.iter()
                    .map(|(_, v)| {
                        let k = match g {
                            Some(g) => gens::mstr(g, 300),
                            None => MStr::from_body(""),
                        };
                        let v = go(g, v);
                        (k, v)
                    })
                    .collect(),
            ),
            _ => match g {
                Some(g) => scalar(g),
                None => MVal::Null,
            },
        }
    }
    let mut g = g;
    go(&mut g, m)
}

/// What each way of parsing asks for, dropping included.
fn costs(src: &str) -> Vec<(&'static str, Counts)> {
    let cfg = || lib_config(unlimited());
    let b = src.as_bytes();
    let mut out = Vec::with_capacity(16);
    let (ok, c) = measure(|| Value::from_json_with_config(src, cfg()).is_ok());
    assert!(ok);
    out.push(("Value::from_json", c));
    let (_, c) = measure(|| Value::from_json_bytes_with_config(b, cfg()).is_ok());
    out.push(("Value::from_json_bytes", c));
    let (_, c) = measure(|| Document::from_json_with_config(src, cfg()).is_ok());
    out.push(("Document::from_json", c));
    let (_, c) = measure(|| Document::from_json_bytes_with_config(b, cfg()).is_ok());
    out.push(("Document::from_json_bytes", c));
    if let Ok(d) = Document::from_json_with_config(src, cfg()) {
        let (_, c) = measure(|| d.iter().count());
        out.push(("iteration over the Document", c));
        let (_, c) = measure(|| d.iter().skip_next_value());
        out.push(("skip_next_value", c));
        let (_, c) = measure(|| d.iter().next_value().is_some());
        out.push(("next_value", c));
    }
    out
}

pub(super) fn free_of_charge(src: &[u8], cfg: Config) -> R {
    let lc = lib_config(cfg);
    let (_, c) = measure(|| Parser::validate_json_bytes_with_config(src, lc.clone()).is_ok());
    same!(c, NONE, "validate_json_bytes");
    let (n, c) = measure(|| Tokenizer::for_json_bytes(src).take(src.len() + 2).filter(Result::is_ok).count());
    same!(c, NONE, "Tokenizer");
    let (_, c) = measure(|| {
        HeaplessDocument::<3>::from_json_bytes_with_config(src, lc.clone()).map(|d| d.iter().count()).unwrap_or(0)
    });
    same!(c, NONE, "HeaplessDocument<3>");
    if n < 500 {
        let (_, c) = measure(|| match HeaplessDocument::<512>::from_json_bytes_with_config(src, lc.clone()) {
            Ok(d) => {
                let mut it = d.iter();
                it.skip_next_value();
                d.iter().count() + it.count()
            }
            Err(_) => 0,
        });
        same!(c, NONE, "HeaplessDocument<512>");
    }
    if let Ok(s) = std::str::from_utf8(src) {
        let (_, c) = measure(|| Parser::validate_json_with_config(s, lc.clone()).is_ok());
        same!(c, NONE, "validate_json");
        let (_, c) = measure(|| Tokenizer::for_json(s).take(src.len() + 2).filter(Result::is_ok).count());
        same!(c, NONE, "Tokenizer::for_json");
    }
    Ok(())
}

fn scalars(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let m = gens::value(g, 6);
    charged(g, ctx, &m)
}

/// Everything C19 says about what one value asks for.
pub(super) fn charged(g: &mut Gen<'_>, ctx: &mut Ctx, m: &MVal) -> R {
    let other = reskin(Some(&mut *g), m);
    let bare = reskin(None, m);
    let mut text = |m: &MVal| {
        let style = if g.bool() { Ws::None } else { gens::ws_style(g) };
        gens::emit(g, m, style, false).0.s
    };
    let (a, b, z) = (text(m), text(&other), text(&bare));
    if a != b && m.nodes() > 1 {
        ctx.nontrivial(b.as_bytes());
    }
    ctx.label_if(!m.is_container(), "scalar text");
    ctx.describe(|| format!("{} / {}", show_bytes(a.as_bytes()), show_bytes(b.as_bytes())));
    let base = costs(&z);
    for t in [&a, &b] {
        for ((what, c), (_, d)) in costs(t).iter().zip(&base) {
            check!(
                c == d,
                "{what} asks for {c:?}, with null for every scalar for {d:?}: {}",
                show_bytes(t.as_bytes())
            );
        }
        free_of_charge(t.as_bytes(), unlimited())?;
    }
    if !m.is_container() {
        let (_, c) = measure(|| Value::from_json(&a).is_ok());
        same!(c, NONE, "Value::from_json of a scalar");
    }
    for (what, c) in &base {
        check!(c.allocs == c.frees, "{what} leaks: {c:?}");
    }
    Ok(())
}

fn none(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, m) = gens::any_input(g, 6);
    let cfg = gen_cfg(g, m.as_ref().map_or(2, MVal::depth));
    if b.len() > 1 {
        ctx.nontrivial(&b);
    }
    ctx.label(if refjson::accepts(&b, cfg) { "accepted" } else { "rejected" });
    ctx.describe(|| show_bytes(&b));
    free_of_charge(&b, cfg)
}

const PIECES: [&str; 13] = ["{", "}", "[", "]", ",", ":", "\"a\"", "\"\\n\"", "12", "null", " ", "\"", "x"];

fn none_words(i: u64, ctx: &mut Ctx) -> R {
    let mut w = Vec::new();
    if word(i, &PIECES, &mut w) > 1 {
        ctx.nontrivial(&w);
    }
    ctx.describe(|| show_bytes(&w));
    free_of_charge(&w, Config::DEFAULT)
}

pub fn c19() -> Vec<Target> {
    vec![
        rnd("c19.borrow", borrow, 60_000, 2_000_000, "a string or number with at least one character"),
        rnd("c19.raw", raw, 60_000, 2_000_000, "non-empty text"),
        rnd("c19.scalars", scalars, 60_000, 2_000_000, "more than one node and different texts"),
        rnd("c19.none", none, 100_000, 4_000_000, "at least two bytes"),
        all("c19.words", none_words, words(13, 4), words(13, 6), "at least two pieces"),
    ]
}

