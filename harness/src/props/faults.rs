//! C12 agreement of the entry points, C13 delegates, C17 errors.

use super::accept::{word, words};
use super::{all, rnd};
use crate::common::*;
use crate::engine::{fail, show_bytes, Ctx, Fail, Gen, Target, R};
use crate::gens::{self, MVal, SpanKind};
use crate::refjson::{self, Config, Ev, Fault, Lex, Span, Tok, FK};
use crate::{check, same};
use justjson::doc::{Document, Node};
use justjson::parser::{JsonKind, ParseDelegate, Parser};
use justjson::{Error, ErrorKind, JsonNumber, JsonString, Value};

// ---------------------------------------------------------------------- C12

type Verdict = Result<JsonKind, (String, usize)>;

fn node_kind(n: &Node<'_>) -> JsonKind {
    match n {
        Node::Null => JsonKind::Null,
        Node::Boolean(_) => JsonKind::Boolean,
        Node::Number(_) => JsonKind::Number,
        Node::String(_) => JsonKind::String,
        Node::Object { .. } => JsonKind::Object,
        Node::Array { .. } => JsonKind::Array,
    }
}

fn verdict<T>(r: Result<T, Error>, kind: impl Fn(&T) -> JsonKind) -> Verdict {
    match r {
        Ok(v) => Ok(kind(&v)),
        Err(e) => Err(err_pair(&e)),
    }
}

fn doc_kind(d: &Document<'_>) -> JsonKind {
    match d.iter().next() {
        Some(n) => node_kind(&n),
        None => panic!("a parsed document without nodes"),
    }
}

pub(super) fn c12_case(b: &[u8], cfg: Config, ctx: &mut Ctx) -> R {
    let lc = lib_config(cfg);
    let text = std::str::from_utf8(b).ok();
    let mut got: Vec<(&'static str, Verdict)> = vec![
        ("Value::from_json_bytes_with_config", verdict(Value::from_json_bytes_with_config(b, lc), kind_of)),
        (
            "Document::from_json_bytes_with_config",
            verdict(Document::from_json_bytes_with_config(b, lc), doc_kind),
        ),
        ("validate_json_bytes_with_config", verdict(Parser::validate_json_bytes_with_config(b, lc), |k| *k)),
    ];
    if let Some(s) = text {
        got.push(("Value::from_json_with_config", verdict(Value::from_json_with_config(s, lc), kind_of)));
        got.push(("Document::from_json_with_config", verdict(Document::from_json_with_config(s, lc), doc_kind)));
        got.push(("validate_json_with_config", verdict(Parser::validate_json_with_config(s, lc), |k| *k)));
        got.push((
            "parse_json_with_config with ()",
            verdict(Parser::parse_json_with_config(s, lc, ()), |k| *k),
        ));
    }
    if cfg == Config::DEFAULT {
        got.push(("Value::from_json_bytes", verdict(Value::from_json_bytes(b), kind_of)));
        got.push(("Document::from_json_bytes", verdict(Document::from_json_bytes(b), doc_kind)));
        got.push(("validate_json_bytes", verdict(Parser::validate_json_bytes(b), |k| *k)));
        got.push(("parse_json_bytes with ()", verdict(Parser::parse_json_bytes(b, ()), |k| *k)));
        if let Some(s) = text {
            got.push(("Value::from_json", verdict(Value::from_json(s), kind_of)));
            got.push(("Document::from_json", verdict(Document::from_json(s), doc_kind)));
            got.push(("validate_json", verdict(Parser::validate_json(s), |k| *k)));
            got.push(("parse_json with ()", verdict(Parser::parse_json(s, ()), |k| *k)));
        }
    }
    let (first, rest) = got.split_first().unwrap();
    for r in rest {
        let agree = match (&first.1, &r.1) {
            (Ok(a), Ok(b)) => a == b,
            (Err(a), Err(b)) => a == b,
            _ => false,
        };
        check!(
            agree,
            "{} gives {:?} but {} gives {:?} for {} [{}]",
            first.0,
            first.1,
            r.0,
            r.1,
            show_bytes(b),
            show_config(&cfg)
        );
    }
    ctx.label(match &first.1 {
        Ok(_) => "accepted",
        Err((_, 0)) => "rejected at 0",
        Err(_) => "rejected later",
    });
    if matches!(first.1, Err((_, o)) if o > 0) || matches!(first.1, Ok(JsonKind::Object | JsonKind::Array)) {
        ctx.nontrivial(b);
    }
    // the typed parsers work with the default settings
    if let Some(s) = text {
        let v = Value::from_json(s);
        match (&v, JsonString::from_json(s)) {
            (Ok(Value::String(a)), Ok(t)) => {
                check!(
                    a.as_json_str().map(|x| x.as_str()) == t.as_json_str().map(|x| x.as_str()) && *a == t,
                    "JsonString::from_json gives {t:?}, Value {a:?}"
                );
                same!(t.decoded().collect::<String>(), a.decoded().collect::<String>(), "decoded text");
                same!(t.as_str(), a.as_str(), "as_str");
                same!(t.decoded_len(), a.decoded_len(), "decoded_len");
                same!(t.len(), a.len(), "len");
                ctx.label("string root");
            }
            (Ok(Value::String(a)), Err(e)) => {
                return fail(format!("JsonString::from_json rejects {a:?}: {e:?}"))
            }
            (_, Ok(t)) => return fail(format!("JsonString::from_json accepts {} as {t:?}", show_bytes(b))),
            (_, Err(e)) => {
                check!(e.offset() <= b.len(), "offset {} beyond the source", e.offset());
            }
        }
        match (&v, JsonNumber::from_json(s)) {
            (Ok(Value::Number(a)), Ok(t)) => {
                same!(t.source(), a.source(), "number source");
                check!(*a == t, "JsonNumber::from_json gives {t:?}, Value {a:?}");
                ctx.label("number root");
            }
            (Ok(Value::Number(a)), Err(e)) => {
                return fail(format!("JsonNumber::from_json rejects {a:?}: {e:?}"))
            }
            (_, Ok(t)) => return fail(format!("JsonNumber::from_json accepts {} as {t:?}", show_bytes(b))),
            (_, Err(e)) => {
                check!(e.offset() <= b.len(), "offset {} beyond the source", e.offset());
            }
        }
    }
    Ok(())
}

fn c12_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, _) = gens::any_input(g, 132);
    let near = refjson::parse(&b, Config { limit: None, ..Config::DEFAULT }).max_depth;
    // deep inputs only with a finite limit that the stack can take
    let mut cfg = if g.chance(1, 3) { Config::DEFAULT } else { gen_cfg(g, near) };
    if cfg.limit.is_none() {
        cfg.limit = Some(1000);
    }
    ctx.describe(|| format!("{} [{}]", show_bytes(&b), show_config(&cfg)));
    c12_case(&b, cfg, ctx)
}

fn c12_scalar(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    // scalar roots, whole and damaged
    let mut s = String::new();
    let style = gens::ws_style(g);
    gens::ws(g, style, &mut s);
    match g.below(4) {
        0 => s.push_str(&gens::number(g)),
        1 => s.push_str(*g.pick(&["null", "true", "false"])),
        _ => s.push_str(&gens::mstr(g, 12).quoted),
    }
    gens::ws(g, style, &mut s);
    let mut b = s.into_bytes();
    for _ in 0..g.below(3) {
        gens::mutate(g, &mut b);
    }
    let cfg = if g.chance(1, 2) { Config::DEFAULT } else { gen_cfg(g, 1) };
    ctx.describe(|| format!("{} [{}]", show_bytes(&b), show_config(&cfg)));
    c12_case(&b, cfg, ctx)
}

const C12_WORDS: [&str; 11] = ["{", "}", "[", "]", ",", ":", "\"a\"", "1", "true", " ", "\"\\u00e9\""];
fn c12_words(i: u64, ctx: &mut Ctx) -> R {
    let cfg = Config {
        trailing_commas: i & 1 != 0,
        any_root: i & 2 != 0,
        limit: if i & 4 != 0 { Some(1) } else { Some(128) },
    };
    let mut b = Vec::new();
    word(i >> 3, &C12_WORDS, &mut b);
    ctx.describe(|| format!("{} [{}]", show_bytes(&b), show_config(&cfg)));
    c12_case(&b, cfg, ctx)
}

/// Nesting around and beyond limits, whole and cut short.
fn c12_nesting(i: u64, ctx: &mut Ctx) -> R {
    let Some((depth, shape, mut s)) = nesting_case(i / 3, usize::MAX) else { return Ok(()) };
    match i % 3 {
        0 => {}
        1 => s.truncate(s.len() / 2),
        _ => {
            s.pop();
            s.push('!');
        }
    }
    ctx.describe(|| format!("nesting of {depth}, shape {shape}, variation {}", i % 3));
    for limit in [None, Some(depth), Some(depth.saturating_sub(1)), Some(depth / 2 + 1), Some(128)] {
        for tc in [true, false] {
            c12_case(s.as_bytes(), Config { trailing_commas: tc, limit, any_root: depth % 2 == 0 }, ctx)?;
        }
    }
    Ok(())
}

pub fn c12() -> Vec<Target> {
    vec![
        all(
            "c12.nesting",
            c12_nesting,
            3 * nesting_cases(),
            3 * nesting_cases(),
            "depths up to 8193 x 8 shapes, whole, cut and damaged, x 10 settings; non-trivial: a container root, \
             or an error after offset 0",
        ),
        rnd(
            "c12.any",
            c12_any,
            500_000,
            5_000_000,
            "any input under any settings through every entry point; non-trivial: a container root, or an error \
             after offset 0",
        ),
        rnd(
            "c12.scalar",
            c12_scalar,
            400_000,
            4_000_000,
            "scalar roots, whole and damaged, through every entry point; non-trivial: an error after offset 0",
        ),
        all(
            "c12.words",
            c12_words,
            8 * words(11, 4),
            8 * words(11, 5),
            "every sequence of up to 4 (thorough: 5) lexemes under 8 settings; non-trivial: as above",
        ),
    ]
}

// ---------------------------------------------------------------------- C13

#[derive(Debug, Clone, PartialEq)]
enum Call {
    Null,
    Bool(bool),
    Num(Span),
    Str(Span),
    BeginObject,
    Key { object: u32, key: Span },
    ObjectValue { object: u32, key: u32, value: u32 },
    EndObject(u32),
    BeginArray,
    ArrayValue { array: u32, value: u32 },
    EndArray(u32),
    /// a scalar that is not part of the source
    Foreign(String),
}

/// Results and errors the delegate hands out; not Copy, not Clone.
#[derive(Debug, PartialEq)]
struct Val(u32, JsonKind);
#[derive(Debug)]
struct Key(u32);
#[derive(Debug)]
struct Con {
    id: u32,
    items: u32,
    touched: u32,
}
#[derive(Debug, PartialEq, Clone)]
struct Refusal(u32, String);
impl std::fmt::Display for Refusal {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.1)
    }
}

struct Delegate<'s> {
    src: &'s [u8],
    calls: Vec<Call>,
    fail_at: Option<u32>,
    after_failure: u32,
    /// an inconsistency the delegate itself noticed
    complaint: std::cell::RefCell<Option<String>>,
    open: Vec<u32>,
}
impl<'s> Delegate<'s> {
    fn new(src: &'s [u8], fail_at: Option<u32>) -> Self {
        Delegate {
            src,
            calls: Vec::new(),
            fail_at,
            after_failure: 0,
            complaint: std::cell::RefCell::new(None),
            open: Vec::new(),
        }
    }
    fn complain(&self, s: String) {
        let mut c = self.complaint.borrow_mut();
        if c.is_none() {
            *c = Some(s);
        }
    }
    /// Records a call and gives its number, which is the id of its result.
    fn call(&mut self, c: Call) -> Result<u32, Refusal> {
        let id = self.calls.len() as u32;
        if self.fail_at.is_some_and(|k| id > k) {
            self.after_failure += 1;
        }
        self.calls.push(c);
        if self.fail_at == Some(id) {
            return Err(Refusal(id, format!("refused at {id}")));
        }
        Ok(id)
    }
    fn string(&self, s: &JsonString<'_>, f: impl Fn(Span) -> Call) -> Call {
        match s.as_json_str().and_then(|t| span_in(self.src, t.as_str())) {
            Some(sp) => f(sp),
            None => Call::Foreign(format!("{s:?}")),
        }
    }
    fn innermost(&self, id: u32, what: &str) {
        if self.open.last() != Some(&id) {
            self.complain(format!("{what} for container {id} while {:?} are open", self.open));
        }
    }
}
impl<'a> ParseDelegate<'a> for &mut Delegate<'a> {
    type Value = Val;
    type Object = Con;
    type Array = Con;
    type Key = Key;
    type Error = Refusal;

    fn null(&mut self) -> Result<Val, Refusal> {
        Ok(Val(self.call(Call::Null)?, JsonKind::Null))
    }
    fn boolean(&mut self, value: bool) -> Result<Val, Refusal> {
        Ok(Val(self.call(Call::Bool(value))?, JsonKind::Boolean))
    }
    fn number(&mut self, value: JsonNumber<'a>) -> Result<Val, Refusal> {
        let c = match span_in(self.src, value.source()) {
            Some(sp) => Call::Num(sp),
            None => Call::Foreign(format!("{value:?}")),
        };
        Ok(Val(self.call(c)?, JsonKind::Number))
    }
    fn string(&mut self, value: JsonString<'a>) -> Result<Val, Refusal> {
        let c = Delegate::string(self, &value, Call::Str);
        Ok(Val(self.call(c)?, JsonKind::String))
    }
    fn begin_object(&mut self) -> Result<Con, Refusal> {
        let id = self.call(Call::BeginObject)?;
        self.open.push(id);
        Ok(Con { id, items: 0, touched: 0 })
    }
    fn object_key(&mut self, object: &mut Con, key: JsonString<'a>) -> Result<Key, Refusal> {
        self.innermost(object.id, "object_key");
        if object.touched != object.items {
            self.complain(format!("object {} gets a key while another is pending", object.id));
        }
        object.touched += 1;
        let id = object.id;
        let c = Delegate::string(self, &key, |s| Call::Key { object: id, key: s });
        Ok(Key(self.call(c)?))
    }
    fn object_value(&mut self, object: &mut Con, key: Key, value: Val) -> Result<(), Refusal> {
        self.innermost(object.id, "object_value");
        object.items += 1;
        if object.touched != object.items {
            self.complain(format!("object {}: handle does not keep what its keys did to it", object.id));
        }
        self.call(Call::ObjectValue { object: object.id, key: key.0, value: value.0 })?;
        Ok(())
    }
    fn object_is_empty(&self, object: &Con) -> bool {
        self.innermost(object.id, "object_is_empty");
        object.items == 0
    }
    fn end_object(&mut self, object: Con) -> Result<Val, Refusal> {
        self.innermost(object.id, "end_object");
        self.open.pop();
        Ok(Val(self.call(Call::EndObject(object.id))?, JsonKind::Object))
    }
    fn begin_array(&mut self) -> Result<Con, Refusal> {
        let id = self.call(Call::BeginArray)?;
        self.open.push(id);
        Ok(Con { id, items: 0, touched: 0 })
    }
    fn array_value(&mut self, array: &mut Con, value: Val) -> Result<(), Refusal> {
        self.innermost(array.id, "array_value");
        array.items += 1;
        self.call(Call::ArrayValue { array: array.id, value: value.0 })?;
        Ok(())
    }
    fn array_is_empty(&self, array: &Con) -> bool {
        self.innermost(array.id, "array_is_empty");
        array.items == 0
    }
    fn end_array(&mut self, array: Con) -> Result<Val, Refusal> {
        self.innermost(array.id, "end_array");
        self.open.pop();
        Ok(Val(self.call(Call::EndArray(array.id))?, JsonKind::Array))
    }
    fn kind_of(&self, value: &Val) -> JsonKind {
        if value.0 as usize >= self.calls.len() {
            self.complain(format!("kind_of an unknown value {value:?}"));
        }
        value.1
    }
}

/// The calls the grammar's events stand for.
fn expected_calls(events: &[Ev]) -> Vec<Call> {
    struct Open {
        id: u32,
        key: u32,
    }
    let mut out: Vec<Call> = Vec::new();
    let mut open: Vec<Open> = Vec::new();
    let mut last = 0u32; // id of the last complete value
    for e in events {
        let id = out.len() as u32;
        match *e {
            Ev::Null => {
                out.push(Call::Null);
                last = id;
            }
            Ev::Bool(b) => {
                out.push(Call::Bool(b));
                last = id;
            }
            Ev::Num(s) => {
                out.push(Call::Num(s));
                last = id;
            }
            Ev::Str(s) => {
                out.push(Call::Str(s));
                last = id;
            }
            Ev::BeginObject => {
                out.push(Call::BeginObject);
                open.push(Open { id, key: 0 });
            }
            Ev::BeginArray => {
                out.push(Call::BeginArray);
                open.push(Open { id, key: 0 });
            }
            Ev::Key(s) => {
                let o = open.last_mut().unwrap();
                o.key = id;
                out.push(Call::Key { object: o.id, key: s });
            }
            Ev::ObjectValue => {
                let o = open.last().unwrap();
                out.push(Call::ObjectValue { object: o.id, key: o.key, value: last });
            }
            Ev::ArrayValue => {
                let o = open.last().unwrap();
                out.push(Call::ArrayValue { array: o.id, value: last });
            }
            Ev::EndObject => {
                let o = open.pop().unwrap();
                out.push(Call::EndObject(o.id));
                last = id;
            }
            Ev::EndArray => {
                let o = open.pop().unwrap();
                out.push(Call::EndArray(o.id));
                last = id;
            }
        }
    }
    out
}

fn run_delegate<'a>(
    b: &'a [u8],
    how: usize,
    cfg: Config,
    d: &mut Delegate<'a>,
) -> Option<Result<Val, Error<Refusal>>> {
    let lc = lib_config(cfg);
    Some(match how {
        0 => Parser::parse_json_with_config(std::str::from_utf8(b).ok()?, lc, d),
        1 => Parser::parse_json_bytes_with_config(b, lc, d),
        2 => Parser::parse_json(std::str::from_utf8(b).ok()?, d),
        _ => Parser::parse_json_bytes(b, d),
    })
}

pub(super) fn c13_case(g: &mut Gen<'_>, ctx: &mut Ctx, b: &[u8], cfg: Config) -> R {
    let p = refjson::parse(b, cfg);
    let mut want = expected_calls(&p.events);
    let total = want.len();
    let hows: Vec<usize> = {
        let mut v = vec![1];
        if std::str::from_utf8(b).is_ok() {
            v.push(0);
        }
        if cfg == Config::DEFAULT {
            v.push(3);
            if std::str::from_utf8(b).is_ok() {
                v.push(2);
            }
        }
        v
    };
    // undisturbed
    for &how in &hows {
        let mut d = Delegate::new(b, None);
        let Some(r) = run_delegate(b, how, cfg, &mut d) else { continue };
        if let Some(c) = d.complaint.take() {
            return fail(c);
        }
        compare_calls(&d.calls, &want, &p)?;
        match r {
            Ok(v) => {
                check!(p.fault.is_none(), "the invalid text is accepted");
                same!(d.calls.len(), total, "calls made");
                same!(v.0 as usize, total - 1, "the parser returns the result of another call");
            }
            Err(e) => {
                check!(p.fault.is_some(), "the valid text is rejected: {e:?}");
                check!(
                    !matches!(e.kind(), ErrorKind::ErrorFromDelegate(_)),
                    "a delegate error nobody returned: {e:?}"
                );
                check!(e.offset() <= b.len(), "offset {} beyond the source", e.offset());
            }
        }
    }
    // each callback fails once
    let ks: Vec<u32> = if total <= 40 {
        (0..total as u32).collect()
    } else {
        let mut v: Vec<u32> = (0..16).map(|_| g.below(total) as u32).collect();
        v.push(total as u32 - 1);
        v
    };
    want.truncate(total);
    for k in ks {
        let how = *g.pick(&hows);
        ctx.count("parses with a failing callback", 1);
        let mut d = Delegate::new(b, Some(k));
        let Some(r) = run_delegate(b, how, cfg, &mut d) else { continue };
        check!(d.after_failure == 0, "{} calls after call {k} ({:?}) failed", d.after_failure, want[k as usize]);
        if let Some(c) = d.complaint.take() {
            return fail(c);
        }
        // on an invalid text the last call may not come about
        if d.calls.len() as u32 <= k {
            compare_calls(&d.calls, &want, &p)?;
            check!(p.fault.is_some(), "call {k} is missing");
            continue;
        }
        same!(d.calls.as_slice(), &want[..=k as usize], "calls up to the failing one");
        let Err(e) = r else {
            return fail(format!("parsing succeeds although call {k} ({:?}) failed", want[k as usize]));
        };
        let refusal = Refusal(k, format!("refused at {k}"));
        let msg = e.to_string();
        check!(msg.contains(&refusal.1), "the message {msg:?} does not contain that of the delegate, {:?}", refusal.1);
        shows_offset(&msg, e.offset())?;
        same!(e.kind(), &ErrorKind::ErrorFromDelegate(refusal), "error of call {k} ({:?})", want[k as usize]);
        check!(e.offset() <= b.len(), "offset {} beyond the source", e.offset());
    }
    Ok(())
}

/// On invalid text, the last key may be reported or not, because the fault
/// follows it directly.
fn compare_calls(got: &[Call], want: &[Call], p: &refjson::Parsed) -> R {
    let mut n = want.len();
    if p.fault.is_some() && got.len() + 1 == n {
        n -= 1;
    }
    for (i, (a, b)) in got.iter().zip(want).enumerate() {
        same!(a, b, "call {i}");
    }
    check!(
        got.len() == n,
        "{} calls where {} were expected; the first differing call: {:?} / {:?}",
        got.len(),
        n,
        got.get(n.min(got.len())),
        want.get(got.len())
    );
    Ok(())
}

fn c13_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let valid = g.below(4) != 0;
    let (b, cfg) = if valid {
        let d = if g.chance(1, 20) { 128 } else { 10 };
        let v = gens::value(g, d);
        let style = gens::ws_style(g);
        let commas = g.chance(1, 4);
        let (t, _) = gens::emit(g, &v, style, commas);
        let cfg = if commas {
            Config { trailing_commas: true, limit: Some(v.depth().max(1)), any_root: true }
        } else if g.bool() {
            Config::DEFAULT
        } else {
            Config { limit: Some(v.depth()), any_root: !v.is_container(), trailing_commas: false }
        };
        (t.s.into_bytes(), cfg)
    } else {
        let (b, _) = gens::any_input(g, 12);
        let cfg = if g.bool() { Config::DEFAULT } else { gen_cfg(g, 6) };
        (b, cfg)
    };
    ctx.describe(|| format!("{} [{}]", show_bytes(&b), show_config(&cfg)));
    let p = refjson::parse(&b, cfg);
    check!(!valid || p.fault.is_none(), "HARNESS: the reference rejects a constructed text");
    ctx.label(if valid { "valid" } else { "any" });
    if p.events.len() > 3 {
        ctx.nontrivial(&b);
    }
    c13_case(g, ctx, &b, cfg)
}

fn c13_words(i: u64, ctx: &mut Ctx) -> R {
    let cfg = Config { trailing_commas: i & 1 != 0, any_root: true, limit: Some(128) };
    let mut b = Vec::new();
    word(i >> 1, &["{", "}", "[", "]", ",", "\"k\":", "1", "\"s\""], &mut b);
    ctx.describe(|| format!("{} [{}]", show_bytes(&b), show_config(&cfg)));
    if refjson::accepts(&b, cfg) {
        ctx.nontrivial(&b);
    }
    let mut g = Gen::replay(&[]);
    c13_case(&mut g, ctx, &b, cfg)
}

pub fn c13() -> Vec<Target> {
    vec![
        rnd(
            "c13.any",
            c13_any,
            200_000,
            2_000_000,
            "texts through a recording delegate, undisturbed and failing at every callback (17 of them on long \
             texts); non-trivial: more than 3 callbacks",
        ),
        all(
            "c13.words",
            c13_words,
            2 * words(8, 6),
            2 * words(8, 7),
            "every sequence of up to 6 (thorough: 7) lexemes, failing at every callback; non-trivial: valid ones",
        ),
    ]
}

// ---------------------------------------------------------------------- C17

/// Is one of the kinds the admissible ones, at an admissible place?
fn judge<T: std::fmt::Debug + std::fmt::Display>(e: &Error<T>, f: &Fault, exact: bool, b: &[u8], who: &str) -> R {
    let Some(kind) = fk(e.kind()) else {
        return fail(format!("{who} reports {:?} for {}", e.kind(), show_bytes(b)));
    };
    check!(
        f.kinds.contains(&kind),
        "{who} reports {:?} at {} for {}, expected one of {:?}",
        e.kind(),
        e.offset(),
        show_bytes(b),
        f.kinds
    );
    let (lo, hi) = if f.eof {
        (b.len(), b.len())
    } else if exact {
        (f.at, f.at)
    } else {
        let between = [FK::Colon, FK::CommaObject, FK::CommaArray, FK::KeysMustBeStrings, FK::ObjectKey];
        match f.part {
            Some(part) if !between.contains(&kind) => (part, f.at),
            _ => (f.lo, f.at),
        }
    };
    check!(
        (lo..=hi).contains(&e.offset()),
        "{who} reports {:?} at {} for {}, expected an offset in {lo}..={hi}",
        e.kind(),
        e.offset(),
        show_bytes(b)
    );
    shows(e)
}

/// The message shows the offset and quotes the character concerned.
fn shows<T: std::fmt::Display>(e: &Error<T>) -> R {
    let msg = e.to_string();
    shows_offset(&msg, e.offset())?;
    let quotes = |c: char| {
        let word = |x: Option<char>| x.is_some_and(char::is_alphanumeric);
        msg.match_indices(c).any(|(i, _)| {
            !word(msg[..i].chars().next_back()) && !word(msg[i + c.len_utf8()..].chars().next())
        })
    };
    match e.kind() {
        ErrorKind::Unexpected(b) if b.is_ascii_graphic() => {
            let c = *b as char;
            check!(quotes(c), "the message {msg:?} does not show the character {c:?}");
        }
        ErrorKind::UnclosedObject | ErrorKind::UnclosedArray | ErrorKind::ExpectedColon => {
            let c = match e.kind() {
                ErrorKind::UnclosedObject => '}',
                ErrorKind::UnclosedArray => ']',
                _ => ':',
            };
            let shown = msg.matches(['{', '}', '[', ']']).collect::<String>();
            check!(
                quotes(c) && shown.len() <= 1,
                "the message {msg:?} does not show the missing character {c:?}"
            );
        }
        _ => {}
    }
    Ok(())
}

/// The message contains the offset as a number of its own.
fn shows_offset(msg: &str, offset: usize) -> R {
    let want = offset.to_string();
    let found = msg.split(|c: char| !c.is_ascii_digit()).any(|d| d == want);
    check!(found, "the message {msg:?} does not show the offset {offset}");
    Ok(())
}

/// Every entry point names the fault.
pub(super) fn all_name_it(b: &[u8], cfg: Config, f: &Fault, exact: bool) -> R {
    let lc = lib_config(cfg);
    let text = std::str::from_utf8(b).ok();
    macro_rules! ask {
        ($who:literal, $e:expr) => {
            match $e {
                Ok(_) => return fail(format!("{} accepts {} [{}]", $who, show_bytes(b), show_config(&cfg))),
                Err(e) => judge(&e, f, exact, b, $who)?,
            }
        };
    }
    ask!("Value (bytes)", Value::from_json_bytes_with_config(b, lc));
    ask!("Document (bytes)", Document::from_json_bytes_with_config(b, lc));
    ask!("validate (bytes)", Parser::validate_json_bytes_with_config(b, lc));
    if let Some(s) = text {
        ask!("Value (text)", Value::from_json_with_config(s, lc));
        ask!("Document (text)", Document::from_json_with_config(s, lc));
        ask!("validate (text)", Parser::validate_json_with_config(s, lc));
    }
    Ok(())
}

fn c17_truncated(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let d = if g.chance(1, 20) { 128 } else { 8 };
    let v = gens::value(g, d);
    let style = gens::ws_style(g);
    let commas = g.chance(1, 4);
    let (t, _) = gens::emit(g, &v, style, commas);
    let cfg = Config { trailing_commas: commas, limit: Some(128), any_root: g.bool() || !v.is_container() };
    let full = t.s.as_bytes();
    let cut = if t.toks.is_empty() || g.bool() {
        g.below(full.len())
    } else {
        // inside a token, or at its edges
        let (_, sp) = t.toks[g.below(t.toks.len())];
        g.range(sp.lo, sp.hi).min(full.len() - 1)
    };
    let b = &full[..cut];
    ctx.describe(|| format!("{} cut from {} [{}]", show_bytes(b), show_bytes(full), show_config(&cfg)));
    let p = refjson::parse(b, cfg);
    let Some(f) = p.fault else {
        ctx.label("still complete");
        // cut in the whitespace, or a shorter number
        return super::accept::expect(b, cfg, true);
    };
    if f.kinds == [FK::Utf8] {
        ctx.label("inside a character");
    } else {
        check!(f.eof || f.kinds.contains(&FK::RootKind), "HARNESS: fault {f:?} of a truncated text");
        ctx.label(match f.kinds[0] {
            FK::UnclosedString => "in a string",
            FK::UnclosedArray => "in an array",
            FK::UnclosedObject => "in an object",
            FK::Colon => "before a colon",
            FK::Digit | FK::DecimalDigit | FK::Exponent => "in a number",
            FK::Eof => "no value",
            _ => "other",
        });
        if cut > 0 {
            ctx.nontrivial(b);
        }
    }
    all_name_it(b, cfg, &f, false)
}

fn c17_trailing(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let v = gens::value(g, 8);
    let style = gens::ws_style(g);
    let (t, _) = gens::emit(g, &v, style, false);
    let mut b = t.s.into_bytes();
    let at = b.len();
    match g.below(5) {
        0 => b.push(g.below(256) as u8),
        1 => b.extend_from_slice(*g.pick(&[&b"}"[..], b"]", b",", b":", b"\"", b"0", b"{}", b"[]", b"null", b"\xef\xbb\xbf", b"\0"])),
        2 => b.extend_from_slice(&gens::soup(g)),
        3 => {
            let (_, t) = gens::valid_text(g, 4);
            b.extend_from_slice(t.s.as_bytes());
        }
        _ => {
            let c = gens::char_of(g, gens::Chars::Any);
            b.extend_from_slice(c.to_string().as_bytes());
        }
    }
    let cfg = Config { any_root: g.bool(), trailing_commas: g.bool(), ..Config::DEFAULT };
    let p = refjson::parse(&b, cfg);
    ctx.describe(|| format!("{} [{}]", show_bytes(&b), show_config(&cfg)));
    let Some(f) = p.fault else {
        ctx.label("only whitespace added");
        return super::accept::expect(&b, cfg, true);
    };
    if f.kinds != [FK::TrailingData] {
        // the addition joined the last number, or scalars are not allowed
        ctx.label("another fault");
        if f.kinds.contains(&FK::RootKind) {
            return all_name_it(&b, cfg, &f, false);
        }
        return Ok(());
    }
    check!(f.at >= at || !v.is_container(), "HARNESS: trailing data before its place");
    ctx.label("trailing data");
    ctx.nontrivial(&b);
    all_name_it(&b, cfg, &f, true)
}

/// The text with one fault made at (or in) the token at `sp`; unchanged if the
/// limit is to be what it breaks.
pub(super) fn damage(g: &mut Gen<'_>, src: &[u8], kind: SpanKind, sp: Span) -> (Vec<u8>, &'static str) {
    const STRAY: [&str; 12] = ["{", "}", "[", "]", ",", ":", "\"x\"", "7", "true", "false", "null", "-0.5e1"];
    const JUNK: [&str; 14] = ["x", "/", "'", "+", ".", "nul ", "truE", "falsy", "NaN", "\u{feff}", "\u{a0}", "\u{b}", "-", "\u{e9}"];
    let mut b = src.to_vec();
    let edit = g.below(10);
    let note;
    match (edit, kind) {
        (0, _) => {
            note = "token removed";
            b.drain(sp.lo..sp.hi);
        }
        (1, _) => {
            note = "token inserted";
            let s = g.pick(&STRAY).as_bytes().to_vec();
            // separated, so that two tokens do not merge
            let mut ins = b" ".to_vec();
            ins.extend_from_slice(&s);
            ins.push(b' ');
            b.splice(sp.lo..sp.lo, ins);
        }
        (2, _) => {
            note = "token replaced";
            let mut ins = b" ".to_vec();
            ins.extend_from_slice(g.pick(&STRAY).as_bytes());
            ins.push(b' ');
            b.splice(sp.lo..sp.hi, ins);
        }
        (3, _) => {
            note = "junk for a token";
            b.splice(sp.lo..sp.hi, g.pick(&JUNK).as_bytes().iter().copied());
        }
        (4, _) => {
            note = "junk before a token";
            b.splice(sp.lo..sp.lo, g.pick(&JUNK).as_bytes().iter().copied());
        }
        (5, _) => {
            // the limit is what the text breaks
            note = "limit below the depth";
        }
        (_, SpanKind::Key | SpanKind::Str) => {
            // something bad inside the string, at a character boundary that
            // is not inside an escape
            let mut places = vec![sp.lo + 1];
            let body = &src[sp.lo + 1..sp.hi - 1];
            let mut i = 0;
            while i < body.len() {
                if body[i] == b'\\' {
                    if body[i + 1] == b'u' {
                        let high = body[i + 2].eq_ignore_ascii_case(&b'd')
                            && matches!(body[i + 3].to_ascii_lowercase(), b'8' | b'9' | b'a' | b'b');
                        i += if high { 12 } else { 6 };
                    } else {
                        i += 2;
                    }
                } else {
                    i += refjson::utf8_len(&body[i..]);
                }
                places.push(sp.lo + 1 + i);
            }
            let at = *g.pick(&places);
            note = "fault inside a string";
            let bad: Vec<u8> = match g.below(9) {
                0 => vec![g.below(0x20) as u8],
                1 => {
                    let c = g.range(0x20, 0x7e) as u8;
                    vec![b'\\', if b"\"\\/bfnrtu".contains(&c) { b'x' } else { c }]
                }
                2 => {
                    // a bad digit in a \u escape
                    let mut e = b"\\u0041".to_vec();
                    let i = g.range(2, 5);
                    e[i] = *g.pick(b"gGxz-+ /:@`_");
                    e
                }
                3 => b"\\uD800".to_vec(),
                4 => format!("\\u{:04x}", g.range(0xDC00, 0xDFFF)).into_bytes(),
                5 => format!("\\u{:04X}\\u{:04x}", g.range(0xD800, 0xDBFF), *g.pick(&[0usize, 0xd800, 0xdbff, 0xe000, 0xffff, 0x41])).into_bytes(),
                6 => {
                    let mut e = format!("\\u{:04x}\\udc00", g.range(0xD800, 0xDBFF)).into_bytes();
                    let i = g.range(8, 11);
                    e[i] = *g.pick(b"gGxz-+ /:@`_");
                    e
                }
                7 => (*g.pick(&[&b"\xff"[..], b"\xc0\x80", b"\xe2\x82", b"\xed\xa0\x80", b"\xf5\x80\x80\x80", b"\x80"])).to_vec(),
                _ => format!("\\u{:04x}\\n", g.range(0xD800, 0xDBFF)).into_bytes(),
            };
            b.splice(at..at, bad);
        }
        (_, SpanKind::Num) => {
            note = "fault inside a number";
            let num = std::str::from_utf8(&src[sp.lo..sp.hi]).unwrap().to_string();
            let bad = match g.below(7) {
                0 => format!("-{num}").replace("--", "--"),
                1 => format!("0{num}"),
                2 => format!("+{num}"),
                3 => format!("{num}."),
                4 => format!("{num}e"),
                5 => format!("{num}e+"),
                _ => {
                    let i = g.range(0, num.len());
                    let mut s = num.clone();
                    s.insert(i, *g.pick(&['.', 'e', 'E', '-', '+', 'x', ' ']));
                    s
                }
            };
            b.splice(sp.lo..sp.hi, bad.into_bytes());
        }
        (_, SpanKind::Other) => {
            note = "fault inside a literal or sign";
            let i = g.range(sp.lo, sp.hi - 1);
            b[i] = *g.pick(b"xNULTREaeu01 ");
        }
    }
    (b, note)
}

fn c17_single(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let v = gens::value(g, 8);
    let style = gens::ws_style(g);
    let (t, _) = gens::emit(g, &v, style, false);
    let src = t.s.as_bytes();
    let k = g.below(t.toks.len());
    let (kind, sp) = t.toks[k];
    let (b, note) = damage(g, src, kind, sp);
    let cfg = Config {
        any_root: true,
        trailing_commas: g.chance(1, 4),
        limit: if b == src && v.depth() > 0 { Some(g.below(v.depth())) } else { Some(128) },
    };
    let p = refjson::parse(&b, cfg);
    ctx.describe(|| format!("{note}: {} made from {} [{}]", show_bytes(&b), show_bytes(src), show_config(&cfg)));
    let Some(f) = p.fault else {
        ctx.label("still valid");
        return Ok(());
    };
    ctx.label(match f.kinds[0] {
        FK::Utf8 => "utf-8 or surrogate",
        FK::Eof => "end",
        FK::ObjectKey => "object key",
        FK::Colon => "colon",
        FK::CommaObject => "comma in object",
        FK::CommaArray => "comma in array",
        FK::TrailingComma => "trailing comma",
        FK::Unexpected(_) => "unexpected byte",
        FK::TrailingData => "trailing data",
        FK::KeysMustBeStrings => "key not a string",
        FK::Exponent => "exponent",
        FK::DecimalDigit => "decimal digit",
        FK::Digit => "digit",
        FK::Hex => "hex digit",
        FK::Escape => "escape",
        FK::UnclosedObject => "unclosed object",
        FK::UnclosedArray => "unclosed array",
        FK::UnclosedString => "unclosed string",
        FK::Recursion => "recursion",
        FK::RootKind => "root kind",
    });
    ctx.nontrivial(&b);
    let exact = f.kinds == [FK::TrailingData];
    all_name_it(&b, cfg, &f, exact)
}

/// Texts whose only fault is at their last lexeme (or their end).
/// The fault of a text that has nothing else wrong with it.
fn only_fault(b: &[u8], cfg: Config) -> Option<Fault> {
    let f = refjson::parse(b, cfg).fault?;
    if !f.eof && f.kinds != [FK::TrailingData] {
        // the fault must not be followed by further lexemes
        match refjson::lex(b, f.lo) {
            Lex::Tok(_, _, e) if refjson::skip_ws(b, e) < b.len() => return None,
            Lex::Bad(_) if f.at + 1 < b.len() => return None,
            _ => {}
        }
    }
    if f.kinds.contains(&FK::TrailingData) && f.at + 1 < b.len() {
        return None;
    }
    Some(f)
}

/// Everybody names the fault, if there is just one.
pub(super) fn named(b: &[u8], cfg: Config) -> Result<bool, crate::engine::Fail> {
    let Some(f) = only_fault(b, cfg) else { return Ok(false) };
    all_name_it(b, cfg, &f, f.kinds == [FK::TrailingData])?;
    Ok(true)
}

fn c17_words_over(i: u64, alphabet: &[&str], around: (&str, &str), cfg: Config, ctx: &mut Ctx) -> R {
    let mut b = around.0.as_bytes().to_vec();
    word(i, alphabet, &mut b);
    ctx.describe(|| format!("{} [{}]", show_bytes(&b), show_config(&cfg)));
    let Some(f) = only_fault(&b, cfg) else { return Ok(()) };
    ctx.nontrivial(&b);
    all_name_it(&b, cfg, &f, f.kinds == [FK::TrailingData])?;
    if !f.eof && !around.1.is_empty() {
        b.extend_from_slice(around.1.as_bytes());
        let p = refjson::parse(&b, cfg);
        let Some(f) = p.fault else { return Ok(()) };
        all_name_it(&b, cfg, &f, f.kinds == [FK::TrailingData])?;
    }
    Ok(())
}

const STRUCT: [&str; 10] = ["{", "}", "[", "]", ",", ":", "\"a\"", "1", "null", " "];
fn c17_structure(i: u64, ctx: &mut Ctx) -> R {
    let cfg = Config { trailing_commas: i & 1 != 0, limit: if i & 2 != 0 { Some(2) } else { Some(128) }, any_root: true };
    c17_words_over(i >> 2, &STRUCT, ("", ""), cfg, ctx)
}

const PIECES: [&str; 14] = [
    "a", "\\", "u", "0", "d8", "DC", "00", "\"", "\n", "\\u", "\\ud83d", "\\n", "\u{e9}", "g",
];
const AROUND: [(&str, &str); 4] = [("\"", "\""), ("[1, \"", "\"]"), ("{\"k\": \"", "\"}"), ("{\"", "\":1}")];
fn c17_strings(i: u64, ctx: &mut Ctx) -> R {
    let around = AROUND[(i % 4) as usize];
    c17_words_over(i / 4, &PIECES, around, Config::DEFAULT, ctx)
}

const NUMS: [&str; 9] = ["-", "0", "1", ".", "e", "E", "+", "x", " "];
const NUM_AROUND: [(&str, &str); 3] = [("", ""), ("[ ", "]"), ("{\"k\":", "}")];
fn c17_numbers(i: u64, ctx: &mut Ctx) -> R {
    let around = NUM_AROUND[(i % 3) as usize];
    c17_words_over(i / 3, &NUMS, around, Config::DEFAULT, ctx)
}

/// Every literal cut and damaged at every place with every byte, in every
/// context.
fn c17_literals(i: u64, ctx: &mut Ctx) -> R {
    const CTX: [(&str, &str); 4] = [("", ""), (" [", "]"), ("{\"k\": ", "}"), ("[[1],", ",2]")];
    let (around, rest) = (CTX[(i % 4) as usize], i / 4);
    let (lit, rest) = (["null", "true", "false"][(rest % 3) as usize], rest / 3);
    let (at, byte) = ((rest % 5) as usize, (rest / 5) as u8);
    if at >= lit.len() {
        return Ok(());
    }
    let mut b = around.0.as_bytes().to_vec();
    b.extend_from_slice(lit.as_bytes());
    let pos = around.0.len() + at;
    b[pos] = byte;
    b.extend_from_slice(around.1.as_bytes());
    let p = refjson::parse(&b, Config::DEFAULT);
    let Some(f) = p.fault else { return Ok(()) };
    ctx.describe(|| show_bytes(&b));
    ctx.nontrivial(&b);
    all_name_it(&b, Config::DEFAULT, &f, f.kinds == [FK::TrailingData])
}

/// A root of the wrong type for a typed parser.
fn c17_typed(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (v, t) = gens::valid_text(g, 6);
    let s = t.s.as_str();
    ctx.describe(|| show_bytes(s.as_bytes()));
    if v.is_container() {
        ctx.nontrivial(s.as_bytes());
    }
    if !matches!(v, MVal::Str(_)) {
        match JsonString::from_json(s) {
            Ok(x) => return fail(format!("a JsonString from {v:?}: {x:?}")),
            Err(e) => {
                same!(e.kind(), &ErrorKind::ExpectedString, "kind for a root that is no string");
                check!(e.offset() <= s.len(), "offset {}", e.offset());
                shows(&e)?;
            }
        }
    }
    if !matches!(v, MVal::Num(_)) {
        match JsonNumber::from_json(s) {
            Ok(x) => return fail(format!("a JsonNumber from {v:?}: {x:?}")),
            Err(e) => {
                same!(e.kind(), &ErrorKind::ExpectedNumber, "kind for a root that is no number");
                check!(e.offset() <= s.len(), "offset {}", e.offset());
                shows(&e)?;
            }
        }
    }
    Ok(())
}

pub fn c17() -> Vec<Target> {
    let _ = Tok::Comma;
    let _: fn(Fail) = drop;
    vec![
        rnd(
            "c17.truncated",
            c17_truncated,
            600_000,
            6_000_000,
            "valid texts cut anywhere (half the cuts inside or at the edge of a token); non-trivial: the rest is \
             incomplete and not empty",
        ),
        rnd(
            "c17.trailing",
            c17_trailing,
            300_000,
            3_000_000,
            "valid texts followed by something else; non-trivial: it is trailing data",
        ),
        rnd(
            "c17.single",
            c17_single,
            800_000,
            8_000_000,
            "valid texts with one token removed, inserted, replaced or damaged; non-trivial: it became invalid",
        ),
        rnd(
            "c17.typed",
            c17_typed,
            100_000,
            1_000_000,
            "valid texts given to the typed parsers; non-trivial: container roots",
        ),
        all(
            "c17.structure",
            c17_structure,
            4 * words(10, 5),
            4 * words(10, 6),
            "every sequence of up to 5 (thorough: 6) lexemes that goes wrong at its last lexeme or its end",
        ),
        all(
            "c17.strings",
            c17_strings,
            4 * words(14, 4),
            4 * words(14, 5),
            "every string interior of up to 4 (thorough: 5) pieces, going wrong at its end, in 4 contexts",
        ),
        all(
            "c17.numbers",
            c17_numbers,
            3 * words(9, 5),
            3 * words(9, 6),
            "every number of up to 5 (thorough: 6) symbols, going wrong at its end, in 3 contexts",
        ),
        all(
            "c17.literals",
            c17_literals,
            4 * 3 * 5 * 256,
            4 * 3 * 5 * 256,
            "every literal with every byte replaced by every byte, in 4 contexts",
        ),
    ]
}
