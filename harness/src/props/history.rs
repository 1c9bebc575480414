//! C24: operations are independent of each other and of where the text lies.
//! C25: memory is returned, however an operation ends.
//!
//! Both run "jobs": one library operation on one or two texts, its result
//! written out as a string without addresses. A job calls a hook wherever the
//! library calls back into user code (delegates, collections, destinations)
//! and between the steps of iterators, so that other jobs can run there, or a
//! panic can be raised.

use super::{all, rnd};
use crate::alloc::counts;
use crate::common::*;
use crate::engine::{expecting_panic, fail, hash_bytes, show_bytes, Ctx, Gen, Target, R};
use crate::gens;
use crate::refjson::{self, Config};
use crate::{check, same};
use justjson::doc::{Document, DocumentIter, GenericDocument, HeaplessDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseDelegate, Parser, Tokenizer};
use justjson::{AnyStr, ErrorKind, JsonNumber, JsonString, Value};
use std::cell::{Cell, RefCell};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::mpsc;

// --------------------------------------------------------------------- jobs

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Parse,
    Listing,
    Events,
    Lexemes,
    Strings,
    Number,
    Bounded,
    Change,
    Print,
}
const OPS: [Op; 9] = [
    Op::Parse,
    Op::Listing,
    Op::Events,
    Op::Lexemes,
    Op::Strings,
    Op::Number,
    Op::Bounded,
    Op::Change,
    Op::Print,
];

#[derive(Clone)]
pub struct Job {
    op: Op,
    cfg: Config,
    /// a number the operation uses: which call fails, which node is skipped...
    k: u32,
    /// use the functions taking text where the bytes are UTF-8
    text: bool,
    src: Vec<u8>,
    other: Vec<u8>,
}

impl Job {
    fn show(&self) -> String {
        format!(
            "{:?}({}, {}, k={}, {}{})",
            self.op,
            show_bytes(&self.src),
            show_bytes(&self.other),
            self.k,
            show_config(&self.cfg),
            if self.text { ", as text" } else { "" }
        )
    }
    fn size(&self) -> usize {
        self.src.len() + self.other.len()
    }
    fn solo(&self) -> String {
        run(self, &self.src, &self.other, &mut || {})
    }

    fn write(&self, out: &mut Vec<u8>) {
        out.push(OPS.iter().position(|o| *o == self.op).unwrap() as u8);
        out.push(u8::from(self.text) | u8::from(self.cfg.trailing_commas) << 1 | u8::from(self.cfg.any_root) << 2);
        let limit = self.cfg.limit.map_or(u64::MAX, |n| n as u64);
        out.extend_from_slice(&limit.to_le_bytes());
        out.extend_from_slice(&self.k.to_le_bytes());
        for b in [&self.src, &self.other] {
            out.extend_from_slice(&(b.len() as u32).to_le_bytes());
            out.extend_from_slice(b);
        }
    }
    fn read(b: &mut &[u8]) -> Option<Job> {
        fn take<'x>(b: &mut &'x [u8], n: usize) -> Option<&'x [u8]> {
            let (x, rest) = b.split_at_checked(n)?;
            *b = rest;
            Some(x)
        }
        let h = take(b, 2)?;
        let limit = u64::from_le_bytes(take(b, 8)?.try_into().ok()?);
        let k = u32::from_le_bytes(take(b, 4)?.try_into().ok()?);
        let mut part = || {
            let n = u32::from_le_bytes(take(b, 4)?.try_into().ok()?);
            Some(take(b, n as usize)?.to_vec())
        };
        Some(Job {
            op: OPS[h[0] as usize % OPS.len()],
            text: h[1] & 1 != 0,
            cfg: Config {
                trailing_commas: h[1] & 2 != 0,
                any_root: h[1] & 4 != 0,
                limit: (limit != u64::MAX).then_some(limit as usize),
            },
            k,
            src: part()?,
            other: part()?,
        })
    }
}

/// Where results are written; also a destination that calls the hook.
struct Out<'h> {
    s: String,
    hook: &'h mut dyn FnMut(),
}
impl std::fmt::Write for Out<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        (self.hook)();
        self.s.push_str(s);
        Ok(())
    }
}

/// A destination that refuses after `left` writes.
struct Refusing<'o, 'h> {
    out: &'o mut Out<'h>,
    left: u32,
}
impl std::fmt::Write for Refusing<'_, '_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        self.out.write_str(s)
    }
}

/// Records every callback; refuses call `fail_at`.
struct Recorder<'o, 'h> {
    out: &'o mut Out<'h>,
    n: u32,
    fail_at: u32,
}
impl Recorder<'_, '_> {
    fn call(&mut self, what: std::fmt::Arguments<'_>) -> Result<u32, String> {
        let _ = self.out.write_fmt(what);
        self.out.s.push(';');
        self.n += 1;
        if self.n > self.fail_at {
            return Err(format!("refused {}", self.n));
        }
        Ok(self.n)
    }
}
impl<'a> ParseDelegate<'a> for Recorder<'_, '_> {
    // all of them own memory
    type Value = (Box<u32>, JsonKind);
    type Object = Vec<u32>;
    type Array = Vec<u32>;
    type Key = Box<u32>;
    type Error = String;

    fn null(&mut self) -> Result<Self::Value, String> {
        Ok((Box::new(self.call(format_args!("null"))?), JsonKind::Null))
    }
    fn boolean(&mut self, v: bool) -> Result<Self::Value, String> {
        Ok((Box::new(self.call(format_args!("{v}"))?), JsonKind::Boolean))
    }
    fn number(&mut self, v: JsonNumber<'a>) -> Result<Self::Value, String> {
        Ok((Box::new(self.call(format_args!("n{}", v.source()))?), JsonKind::Number))
    }
    fn string(&mut self, v: JsonString<'a>) -> Result<Self::Value, String> {
        Ok((Box::new(self.call(format_args!("s{v}"))?), JsonKind::String))
    }
    fn begin_object(&mut self) -> Result<Vec<u32>, String> {
        Ok(vec![self.call(format_args!("{{"))?])
    }
    fn object_key(&mut self, o: &mut Vec<u32>, key: JsonString<'a>) -> Result<Box<u32>, String> {
        self.call(format_args!("k{key} of {o:?}")).map(Box::new)
    }
    fn object_value(&mut self, o: &mut Vec<u32>, key: Box<u32>, v: Self::Value) -> Result<(), String> {
        let n = self.call(format_args!("{o:?}[{key}]={v:?}"))?;
        o.push(n);
        Ok(())
    }
    fn object_is_empty(&self, o: &Vec<u32>) -> bool {
        o.len() == 1
    }
    fn end_object(&mut self, o: Vec<u32>) -> Result<Self::Value, String> {
        Ok((Box::new(self.call(format_args!("}} {o:?}"))?), JsonKind::Object))
    }
    fn begin_array(&mut self) -> Result<Vec<u32>, String> {
        Ok(vec![self.call(format_args!("["))?])
    }
    fn array_value(&mut self, a: &mut Vec<u32>, v: Self::Value) -> Result<(), String> {
        let n = self.call(format_args!("{a:?}+={v:?}"))?;
        a.push(n);
        Ok(())
    }
    fn array_is_empty(&self, a: &Vec<u32>) -> bool {
        a.len() == 1
    }
    fn end_array(&mut self, a: Vec<u32>) -> Result<Self::Value, String> {
        Ok((Box::new(self.call(format_args!("] {a:?}"))?), JsonKind::Array))
    }
    fn kind_of(&self, v: &Self::Value) -> JsonKind {
        v.1
    }
}

// collections get no context, so theirs is passed through the thread
type HookPtr = *mut (dyn FnMut() + 'static);
thread_local! {
    static HOOK: Cell<Option<HookPtr>> = const { Cell::new(None) };
    static CAPACITY: Cell<usize> = const { Cell::new(0) };
}
struct WithHook {
    before: (Option<HookPtr>, usize),
}
impl WithHook {
    fn set(hook: &mut dyn FnMut(), capacity: usize) -> WithHook {
        // SAFETY: only the lifetime changes; the pointer is withdrawn on drop,
        // while the borrow it came from is still held by the caller.
        let p: HookPtr = unsafe { std::mem::transmute(hook as *mut dyn FnMut()) };
        WithHook { before: (HOOK.replace(Some(p)), CAPACITY.replace(capacity)) }
    }
}
impl Drop for WithHook {
    fn drop(&mut self) {
        HOOK.set(self.before.0);
        CAPACITY.set(self.before.1);
    }
}
#[derive(Default, Debug)]
struct Hooked<'a> {
    nodes: Vec<Node<'a>>,
}
impl<'a> AsRef<[Node<'a>]> for Hooked<'a> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.nodes
    }
}
impl<'a> AsMut<[Node<'a>]> for Hooked<'a> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.nodes
    }
}
impl<'a> IntoIterator for Hooked<'a> {
    type Item = Node<'a>;
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.nodes.into_iter()
    }
}
impl<'a> NodeCollection<'a> for Hooked<'a> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        if let Some(h) = HOOK.get() {
            // SAFETY: see WithHook
            unsafe { (*h)() }
        }
        if self.nodes.len() >= CAPACITY.get() {
            return Err(ErrorKind::PaylodTooLarge);
        }
        self.nodes.push(node);
        Ok(())
    }
}

fn hash_of(x: &impl Hash) -> u64 {
    let mut h = DefaultHasher::new();
    x.hash(&mut h);
    h.finish()
}

fn number_facts(out: &mut Out<'_>, n: &JsonNumber<'_>) {
    let _ = write!(
        out,
        "{} {:?} {:?} {:?} {:?} {:?} {:?} ",
        n.source(),
        n.as_f64().map(f64::to_bits),
        n.as_f32().map(f32::to_bits),
        n.as_i8(),
        n.as_u64(),
        n.as_i128(),
        n.as_usize()
    );
}

fn string_facts(out: &mut Out<'_>, s: &JsonString<'_>) {
    let _ = write!(out, "{s:?} {} {} {} {:?} ", s.len(), s.decoded_len(), s.is_empty(), s.as_str());
    for c in s.decoded() {
        (out.hook)();
        out.s.push(c);
    }
    out.s.push(' ');
    for c in s.as_json() {
        (out.hook)();
        out.s.push(c);
    }
    let _ = write!(out, " {s} {} {} {:x}", s.decoded(), s.as_json(), hash_of(s));
    let _ = write!(out, " {:?} {:?}", s.decode_if_needed(), s.escape_if_needed());
}

/// Whether to use the entry points without settings.
fn plain(cfg: Config) -> bool {
    cfg == Config::DEFAULT
}

fn value_of<'a>(src: &'a [u8], text: Option<&'a str>, cfg: Config) -> Result<Value<'a>, justjson::Error> {
    let c = lib_config(cfg);
    match text {
        Some(t) if plain(cfg) => Value::from_json(t),
        None if plain(cfg) => Value::from_json_bytes(src),
        Some(t) => Value::from_json_with_config(t, c),
        None => Value::from_json_bytes_with_config(src, c),
    }
}

fn read_value(out: &mut Out<'_>, v: &Value<'_>) {
    match v {
        Value::Number(n) => number_facts(out, n),
        Value::String(s) => string_facts(out, s),
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                let _ = write!(out, "[{i} {} ", v.get_index(i).is_some_and(|y| std::ptr::eq(x, y)));
                read_value(out, x);
            }
        }
        Value::Object(o) => {
            for e in o.iter() {
                let key: String = e.key.decoded().collect();
                let found = v.get(&key).is_some_and(|y| y == &e.value);
                let _ = write!(out, "{{{key} {found} ");
                read_value(out, &e.value);
            }
        }
        _ => {
            let _ = write!(out, "{v:?}");
        }
    }
}

/// Runs a job on the given texts (which are the job's own, or copies of them).
fn run(job: &Job, src: &[u8], other: &[u8], hook: &mut dyn FnMut()) -> String {
    let text = if job.text { std::str::from_utf8(src).ok() } else { None };
    let other_text = std::str::from_utf8(other).ok();
    let mut out = Out { s: String::new(), hook };
    let out = &mut out;
    match job.op {
        Op::Parse => match value_of(src, text, job.cfg) {
            Ok(v) => {
                read_value(out, &v);
                let again = value_of(src, text, job.cfg);
                let _ = write!(out, " {}", again.as_ref() == Ok(&v));
                if let (Ok(mut w), true) = (again, job.k % 3 == 0) {
                    std::mem::swap(&mut w, &mut Value::Null);
                    out.s.push_str(&w.to_json());
                }
            }
            Err(e) => {
                let _ = write!(out, "{e:?} {e} {}", e.offset());
            }
        },
        Op::Print => match value_of(src, text, job.cfg) {
            Ok(v) => {
                let _ = write!(out, "{v} {v:#} {v:?} ");
                out.s.push_str(&v.to_json_pretty_custom("\t", "\r\n"));
                let r = v.pretty_write_json_to(Refusing { out, left: job.k });
                let _ = write!(out, " {r:?}");
                let r = v.write_json_to(Refusing { out, left: job.k });
                let _ = write!(out, " {r:?}");
            }
            Err(e) => {
                let _ = write!(out, "{e}");
            }
        },
        Op::Listing => {
            let c = lib_config(job.cfg);
            let doc = match text {
                Some(t) if plain(job.cfg) && job.k % 4 != 0 => Document::from_json(t),
                None if plain(job.cfg) && job.k % 4 != 0 => Document::from_json_bytes(src),
                Some(t) => Document::from_json_with_config(t, c),
                None => Document::from_json_bytes_with_config(src, c),
            };
            match doc {
                Ok(d) => {
                    let mut it = d.iter();
                    let mut plan = job.k;
                    loop {
                        (out.hook)();
                        plan = plan.rotate_right(3);
                        match plan % 8 {
                            0 => {
                                let n = it.clone().count();
                                it.skip_next_value();
                                let _ = write!(out, "skip {n};");
                                if n == 0 {
                                    break;
                                }
                            }
                            1 => match it.next_value() {
                                Some(v) => {
                                    let _ = write!(out, "{v};");
                                }
                                None => break,
                            },
                            _ => match it.next() {
                                Some(n) => {
                                    let _ = write!(out, "{n:?};");
                                }
                                None => break,
                            },
                        }
                    }
                    let _ = write!(out, "{}", Value::from(d));
                }
                Err(e) => {
                    let _ = write!(out, "{e:?}");
                }
            }
        }
        Op::Events => {
            let c = lib_config(job.cfg);
            let checked = match text {
                Some(t) if plain(job.cfg) && job.k % 4 != 0 => Parser::validate_json(t),
                None if plain(job.cfg) && job.k % 4 != 0 => Parser::validate_json_bytes(src),
                Some(t) => Parser::validate_json_with_config(t, c),
                None => Parser::validate_json_bytes_with_config(src, c),
            };
            let r = {
                let d = Recorder { out, n: 0, fail_at: if job.k % 2 == 0 { u32::MAX } else { job.k / 2 } };
                match text {
                    Some(t) if plain(job.cfg) => Parser::parse_json(t, d),
                    None if plain(job.cfg) => Parser::parse_json_bytes(src, d),
                    Some(t) => Parser::parse_json_with_config(t, lib_config(job.cfg), d),
                    None => Parser::parse_json_bytes_with_config(src, lib_config(job.cfg), d),
                }
            };
            let _ = match &r {
                Ok(v) => write!(out, "{v:?} {checked:?}"),
                Err(e) => write!(out, "{e:?} {e} {checked:?}"),
            };
        }
        Op::Lexemes => {
            fn go<const U: bool>(t: &mut Tokenizer<'_, U>, out: &mut Out<'_>, k: u32, n: usize) {
                let mut errors = 0;
                for i in 0..n as u32 + 8 {
                    (out.hook)();
                    if (k >> (i % 32)) & 1 != 0 {
                        let _ = write!(out, "{:?} ", t.peek());
                    }
                    match t.next() {
                        None => {
                            let _ = write!(out, "end {:?}", t.next_or_eof());
                            return;
                        }
                        Some(Ok(x)) => {
                            let _ = write!(out, "{x:?} {};", t.offset());
                        }
                        Some(Err(e)) => {
                            let _ = write!(out, "{e:?} {};", t.offset());
                            errors += 1;
                            if errors > 3 {
                                return;
                            }
                        }
                    }
                }
            }
            match text {
                Some(t) => go(&mut Tokenizer::for_json(t), out, job.k, src.len()),
                None => go(&mut Tokenizer::for_json_bytes(src), out, job.k, src.len()),
            }
        }
        Op::Strings => {
            let a = std::str::from_utf8(src).ok();
            let owned = other_text.map(|t| JsonString::from(t.to_string()));
            let parsed = a.map(JsonString::from_json);
            for s in [
                parsed.as_ref().and_then(|r| r.as_ref().ok()),
                owned.as_ref(),
                a.map(JsonString::from).as_ref(),
            ]
            .into_iter()
            .flatten()
            {
                string_facts(out, s);
                for t in [owned.as_ref(), parsed.as_ref().and_then(|r| r.as_ref().ok())].into_iter().flatten() {
                    let _ = write!(out, " {} {:?} {:?};", s == t, s.cmp(t), t.partial_cmp(s));
                }
                if let Some(t) = other_text {
                    let _ = write!(out, " {} {:?};", s == t, s.partial_cmp(t));
                }
            }
            if let Some(Err(e)) = &parsed {
                let _ = write!(out, "{e}");
            }
            if let (Some(x), Some(y)) = (a, other_text) {
                let (x, y) = (AnyStr::from(x), AnyStr::from(y.to_string()));
                let _ = write!(out, "{} {:?} {:x}", x == y, x.partial_cmp(&y), hash_of(&y));
            }
        }
        Op::Number => {
            if let Ok(t) = std::str::from_utf8(src) {
                match JsonNumber::from_json(t) {
                    Ok(n) => number_facts(out, &n),
                    Err(e) => {
                        let _ = write!(out, "{e:?}");
                    }
                }
            }
        }
        Op::Bounded => {
            let c = lib_config(job.cfg);
            let small = match text {
                Some(t) if plain(job.cfg) => HeaplessDocument::<8>::from_json(t),
                None if plain(job.cfg) => HeaplessDocument::<8>::from_json_bytes(src),
                Some(t) => HeaplessDocument::<8>::from_json_with_config(t, c),
                None => HeaplessDocument::<8>::from_json_bytes_with_config(src, c),
            };
            match small {
                Ok(d) => {
                    let _ = write!(out, "{:?}", d.iter().collect::<Vec<_>>());
                    let _ = write!(out, " {}", Value::from(d));
                }
                Err(e) => {
                    let _ = write!(out, "{e:?}");
                }
            }
            let r = {
                let _with = WithHook::set(out.hook, job.k as usize % 20);
                let c = lib_config(job.cfg);
                match text {
                    Some(t) => GenericDocument::<Hooked<'_>>::from_json_with_config(t, c),
                    None => GenericDocument::<Hooked<'_>>::from_json_bytes_with_config(src, c),
                }
            };
            match r {
                Ok(d) => {
                    let _ = write!(out, "{d:?}");
                    let _ = write!(out, " {}", Value::from(d));
                }
                Err(e) => {
                    let _ = write!(out, "{e:?}");
                }
            }
        }
        Op::Change => {
            if let Ok(mut v) = value_of(src, text, job.cfg) {
                let key = other_text.unwrap_or("key");
                let with = value_of(other, None, job.cfg).unwrap_or(Value::Boolean(true));
                match &mut v {
                    Value::Object(o) => {
                        let n = o.len();
                        o.push(justjson::Entry::new(key, with));
                        if n > 0 {
                            let e = o.remove(job.k as usize % n);
                            let k: String = e.key.decoded().collect();
                            let _ = write!(out, "{:?};", o.get(&k));
                            if let Some(x) = o.get_mut(key) {
                                *x = e.value;
                            }
                        }
                    }
                    Value::Array(a) => {
                        let n = a.len();
                        a.push(with);
                        a.swap(0, job.k as usize % (n + 1));
                        if job.k % 5 == 0 {
                            a.truncate(n / 2);
                        }
                    }
                    x => *x = with,
                }
                (out.hook)();
                if v.get(key).is_none() && job.k % 4 == 0 {
                    let _ = write!(out, "missing {:?}", expecting_panic(|| v[key].to_json()));
                    let _ = write!(out, "{:?}", expecting_panic(|| v[key] = Value::Null));
                }
                let _ = write!(out, "{v}");
            }
        }
    }
    std::mem::take(&mut out.s)
}

fn gen_job(g: &mut Gen<'_>) -> Job {
    let op = OPS[g.weighted(&[4, 4, 4, 3, 5, 2, 3, 3, 3])];
    let (mut src, other) = match op {
        Op::Strings => {
            let t = gens::text(g, 14);
            let style = g.below(4);
            let a = if g.chance(1, 3) { t.clone() } else { gens::spell(g, &t, style).quoted };
            let b = if g.bool() { t } else { gens::text(g, 10) };
            (a.into_bytes(), b.into_bytes())
        }
        Op::Number => (gens::number(g).into_bytes(), Vec::new()),
        Op::Change => {
            let (_, t) = gens::valid_text(g, 4);
            (t.s.into_bytes(), gens::text(g, 4).into_bytes())
        }
        _ if g.chance(2, 3) => {
            let (_, t) = gens::valid_text(g, 5);
            (t.s.into_bytes(), Vec::new())
        }
        _ => (gens::any_input(g, 5).0, Vec::new()),
    };
    src.truncate(3000);
    let cfg = if g.chance(2, 3) {
        Config::DEFAULT
    } else {
        Config { limit: Some(g.below(200)), ..gen_cfg(g, 4) }
    };
    let k = if g.bool() { g.below(24) as u32 } else { g.upto(u64::from(u32::MAX)) as u32 };
    Job { op, cfg, k, text: g.bool(), src, other }
}

fn gen_jobs(g: &mut Gen<'_>, lo: usize, hi: usize) -> Vec<Job> {
    let n = g.range(lo, hi);
    let mut v: Vec<Job> = Vec::with_capacity(n);
    for _ in 0..n {
        // often the same text for several operations
        if !v.is_empty() && g.chance(1, 3) {
            let mut j = gen_job(g);
            let from = g.below(v.len());
            j.src.clone_from(&v[from].src);
            v.push(j);
        } else {
            v.push(gen_job(g));
        }
    }
    v
}

/// What the reference says about a job's text, where it has a say.
fn sane(job: &Job, result: &str) -> R {
    if job.op == Op::Events && (job.k % 2 == 0) {
        let ok = refjson::accepts(&job.src, job.cfg);
        check!(result.contains(" Ok(") == ok, "{} gives {result}", job.show());
    }
    Ok(())
}

fn differs(job: &Job, alone: &str, now: &str, when: &str) -> String {
    format!("{} gives {now:?} {when}, but {alone:?} on its own", job.show())
}

fn identity(jobs: &[Job]) -> Vec<u8> {
    let mut b = Vec::new();
    jobs.iter().for_each(|j| j.write(&mut b));
    b
}

// ------------------------------------------------------------------ C24

/// The same operations again, in another order, some several times, some cut
/// short by a panic in user code.
fn sequence(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let jobs = gen_jobs(g, 2, 6);
    ctx.describe(|| jobs.iter().map(Job::show).collect::<Vec<_>>().join("; "));
    let alone: Vec<String> = jobs.iter().map(Job::solo).collect();
    if alone.iter().filter(|s| !s.is_empty()).count() > 1 {
        ctx.nontrivial(&identity(&jobs));
    }
    for (j, s) in jobs.iter().zip(&alone) {
        sane(j, s)?;
    }
    let steps = g.range(1, 10);
    let mut past = String::new();
    for _ in 0..steps {
        let i = g.below(jobs.len());
        let j = &jobs[i];
        if g.chance(1, 4) {
            let at = g.below(30);
            let mut left = at;
            let done = interrupted(j, &mut left);
            ctx.label_if(!done, "interrupted by a panic");
            past.push_str(&format!(" {i}!{at}"));
            continue;
        }
        let now = j.solo();
        check!(now == alone[i], "{}", differs(j, &alone[i], &now, &format!("after the sequence{past}")));
        past.push_str(&format!(" {i}"));
    }
    Ok(())
}

struct Boom;

/// Runs a job whose hook panics after `left` calls; false if it did.
fn interrupted(j: &Job, left: &mut usize) -> bool {
    let mut hook = || {
        if *left == 0 {
            resume_unwind(Box::new(Boom));
        }
        *left -= 1;
    };
    match catch_unwind(AssertUnwindSafe(|| run(j, &j.src, &j.other, &mut hook))) {
        Ok(_) => true,
        Err(e) if e.is::<Boom>() => false,
        Err(e) => resume_unwind(e),
    }
}

/// Operations inside each other: one runs whenever another calls back.
fn nested_jobs(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let jobs = gen_jobs(g, 2, 4);
    ctx.describe(|| jobs.iter().map(Job::show).collect::<Vec<_>>().join(" with, inside it, "));
    let alone: Vec<String> = jobs.iter().map(Job::solo).collect();
    let mut calls = 0usize;
    let start = g.below(4);
    let wrong: RefCell<Option<String>> = RefCell::new(None);
    let (outer, inner) = (&jobs[0], &jobs[1..]);
    let mut inside = 0u64;
    let got = {
        let mut hook = || {
            calls += 1;
            if calls > 40 || calls % 4 != start {
                return;
            }
            let i = calls / 4 % inner.len();
            let j = &inner[i];
            // one level more
            let mut deeper = 0;
            let mut hook = || {
                deeper += 1;
                if deeper == 3 {
                    let now = inner[0].solo();
                    if now != alone[1] {
                        wrong.borrow_mut().get_or_insert_with(|| differs(&inner[0], &alone[1], &now, "two levels inside others"));
                    }
                }
            };
            let now = run(j, &j.src, &j.other, &mut hook);
            inside += 1;
            if now != alone[i + 1] {
                wrong.borrow_mut().get_or_insert_with(|| differs(j, &alone[i + 1], &now, "inside another"));
            }
        };
        run(outer, &outer.src, &outer.other, &mut hook)
    };
    ctx.count("jobs run inside others", inside);
    if inside > 0 {
        ctx.nontrivial(&identity(&jobs));
    }
    if let Some(w) = wrong.into_inner() {
        return fail(w);
    }
    check!(got == alone[0], "{}", differs(outer, &alone[0], &got, "with others inside"));
    Ok(())
}

/// One step of an iterator, written out.
type Stepper<'s> = Box<dyn FnMut() -> Option<String> + 's>;

fn step_bytes(s: &[u8]) -> Stepper<'_> {
    let mut t = Tokenizer::for_json_bytes(s);
    Box::new(move || {
        let p = t.peek();
        t.next().map(|x| format!("{p:?} {x:?} {}", t.offset()))
    })
}
fn step_text(s: &str) -> Stepper<'_> {
    let mut t = Tokenizer::for_json(s);
    Box::new(move || t.next().map(|x| format!("{x:?} {}", t.offset())))
}
fn step_chars<'s>(mut it: impl Iterator<Item = char> + 's) -> Stepper<'s> {
    Box::new(move || {
        let h = it.size_hint();
        it.next().map(|c| format!("{c:?} {h:?}"))
    })
}
fn step_nodes<'s>(mut n: DocumentIter<'s, 's>) -> Stepper<'s> {
    let mut values = false;
    Box::new(move || {
        values = !values;
        if values {
            n.next_value().map(|v| v.to_json())
        } else {
            n.next().map(|n| format!("{n:?}"))
        }
    })
}

/// Iterators advanced in turn on one thread.
fn interleaved(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let n = g.range(1, 3);
    let srcs: Vec<Vec<u8>> = (0..n)
        .map(|_| {
            let mut b = if g.chance(2, 3) {
                gens::valid_text(g, 4).1.s.into_bytes()
            } else {
                gens::any_input(g, 4).0
            };
            b.truncate(400);
            b
        })
        .collect();
    let m = g.range(1, 3);
    let texts: Vec<String> = (0..m)
        .map(|_| {
            let t = gens::text(g, 12);
            let style = g.below(4);
            gens::spell(g, &t, style).quoted
        })
        .collect();
    let docs: Vec<Document<'_>> = srcs.iter().filter_map(|s| Document::from_json_bytes(s).ok()).collect();
    let strings: Vec<JsonString<'_>> = texts.iter().filter_map(|t| JsonString::from_json(t).ok()).collect();
    let plan: Vec<(usize, usize)> = (0..g.range(2, 6)).map(|_| (g.below(5), g.below(3))).collect();
    let build = |&(kind, which): &(usize, usize)| -> Option<Stepper<'_>> {
        match kind {
            0 => {
                let s = &srcs[which % srcs.len()];
                Some(std::str::from_utf8(s).map_or_else(|_| step_bytes(s), step_text))
            }
            1 => Some(step_bytes(&srcs[which % srcs.len()])),
            2 if !strings.is_empty() => Some(step_chars(strings[which % strings.len()].decoded())),
            3 if !strings.is_empty() => Some(step_chars(strings[which % strings.len()].as_json())),
            4 if !docs.is_empty() => Some(step_nodes(docs[which % docs.len()].iter())),
            _ => None,
        }
    };
    const STEPS: usize = 60;
    let mut alone: Vec<Vec<String>> = Vec::new();
    for p in &plan {
        let mut v = Vec::new();
        if let Some(mut s) = build(p) {
            while let Some(x) = s() {
                v.push(x);
                if v.len() == STEPS {
                    break;
                }
            }
        }
        alone.push(v);
    }
    ctx.describe(|| {
        format!(
            "{} iterators over {} and {texts:?}",
            plan.len(),
            srcs.iter().map(|s| show_bytes(s)).collect::<Vec<_>>().join(", ")
        )
    });
    if alone.iter().filter(|v| v.len() > 1).count() > 1 {
        let id: Vec<u8> = srcs.concat().into_iter().chain(texts.concat().into_bytes()).collect();
        ctx.nontrivial(&id);
    }
    let mut live: Vec<Option<Stepper<'_>>> = plan.iter().map(|_| None).collect();
    let mut at = vec![0usize; plan.len()];
    let mut started = vec![false; plan.len()];
    for _ in 0..plan.len() * 20 {
        let i = g.below(plan.len());
        if !started[i] {
            started[i] = true;
            live[i] = build(&plan[i]);
        }
        if at[i] >= STEPS {
            continue;
        }
        let Some(s) = &mut live[i] else { continue };
        let x = s();
        let want = alone[i].get(at[i]);
        check!(
            x.as_ref() == want,
            "step {} of iterator {i} ({:?}) gives {x:?} while others are in progress, {want:?} on its own",
            at[i],
            plan[i]
        );
        at[i] += 1;
        if x.is_none() {
            at[i] = STEPS;
        }
    }
    Ok(())
}

// a text flush against memory that must not be touched
struct Guarded {
    base: usize,
    len: usize,
}
const PAGE: usize = 4096;
thread_local! {
    static GUARDED: Guarded = {
        let len = 16 * PAGE;
        // SAFETY: a fresh anonymous mapping; its first and last page are closed
        unsafe {
            let p = libc::mmap(std::ptr::null_mut(), len, libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS, -1, 0);
            assert!(p != libc::MAP_FAILED, "HARNESS: mmap");
            assert!(libc::mprotect(p, PAGE, libc::PROT_NONE) == 0, "HARNESS: mprotect");
            assert!(libc::mprotect(p.byte_add(len - PAGE), PAGE, libc::PROT_NONE) == 0, "HARNESS: mprotect");
            Guarded { base: p as usize, len }
        }
    };
}
impl Guarded {
    /// Copies `b` to the start or the end of the open part.
    fn with<T>(b: &[u8], end: bool, f: impl FnOnce(&[u8]) -> T) -> Option<T> {
        let (lo, hi) = GUARDED.with(|m| (m.base + PAGE, m.base + m.len - PAGE));
        if b.len() > hi - lo {
            return None;
        }
        let p = if end { hi - b.len() } else { lo };
        // SAFETY: inside the open part, which only this thread uses, for the
        // duration of this call
        let s = unsafe {
            std::ptr::copy_nonoverlapping(b.as_ptr(), p as *mut u8, b.len());
            std::slice::from_raw_parts(p as *const u8, b.len())
        };
        Some(f(s))
    }
}

/// The same text elsewhere in memory, surrounded by other bytes.
fn placed(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let j = gen_job(g);
    ctx.describe(|| j.show());
    let alone = j.solo();
    if j.src.len() > 1 && !alone.is_empty() {
        ctx.nontrivial(&identity(std::slice::from_ref(&j)));
    }
    for end in [false, true] {
        if let Some(now) = Guarded::with(&j.src, end, |s| run(&j, s, &j.other, &mut || {})) {
            check!(now == alone, "{}", differs(&j, &alone, &now, "flush against other memory"));
        }
    }
    const AROUND: &[u8] = b"\"\\0u9,:]}[{ \n1eE.+-x\x80\xff\xc3\xed\xf0tfn";
    let mut buf = Vec::with_capacity(j.src.len() + 96);
    for _ in 0..3 {
        let before = g.below(40);
        let after = g.below(16);
        let fill = AROUND[g.below(AROUND.len())];
        buf.clear();
        buf.resize(before, fill);
        buf.extend_from_slice(&j.src);
        let fill = AROUND[g.below(AROUND.len())];
        buf.resize(before + j.src.len() + after, fill);
        let now = run(&j, &buf[before..before + j.src.len()], &j.other, &mut || {});
        check!(
            now == alone,
            "{}",
            differs(&j, &alone, &now, &format!("{before} bytes into a larger buffer, before {:?}", fill as char))
        );
    }
    Ok(())
}

/// Other bytes of the same number, mostly as meaningful as the old ones.
fn reworded(g: &mut Gen<'_>, b: &[u8]) -> Vec<u8> {
    let mut b = b.to_vec();
    for _ in 0..g.range(1, 3) {
        if b.is_empty() {
            break;
        }
        let start = g.below(b.len());
        // a byte near the chosen place that has a counterpart of its kind
        for i in (start..b.len()).chain(0..start) {
            let rest = &b[i..];
            let (n, new): (usize, &[u8]) = match rest[0] {
                b't' if rest.starts_with(b"true") => (4, b"null"),
                b'n' if rest.starts_with(b"null") => (4, b"true"),
                b'0'..=b'9' => (1, &g.pick(&[b"1", b"2", b"8", b"9"])[..]),
                b'g'..=b'm' | b'o'..=b'q' | b'v'..=b'z' | b'G'..=b'Z' => (1, &g.pick(&[b"x", b"k", b"Q"])[..]),
                b' ' => (1, b"\t"),
                b'\n' => (1, b" "),
                0xC3 if rest.len() > 1 => (2, &g.pick(&[b"\xc3\xa0", b"\xc3\xbf"])[..]),
                _ if i == start && g.chance(1, 4) => (1, &g.pick(&[b"\"", b"\\", b"]", b"}", b",", b" ", b"0", b"\x00", b"\xff"])[..]),
                _ => continue,
            };
            b[i..i + n].copy_from_slice(new);
            break;
        }
    }
    b
}

/// Different texts of the same length, one after the other in the same place.
fn rewritten(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let first = gen_job(g);
    let mut jobs = vec![first];
    for _ in 0..g.range(1, 3) {
        let mut j = jobs[g.below(jobs.len())].clone();
        j.src = reworded(g, &j.src);
        j.other = reworded(g, &j.other);
        if g.chance(1, 3) {
            j.op = OPS[g.below(OPS.len())];
        }
        jobs.push(j);
    }
    ctx.describe(|| jobs.iter().map(Job::show).collect::<Vec<_>>().join("; "));
    let alone: Vec<String> = jobs.iter().map(Job::solo).collect();
    if alone.windows(2).any(|w| w[0] != w[1]) {
        ctx.nontrivial(&identity(&jobs));
    }
    let (mut src, mut other) = (jobs[0].src.clone(), jobs[0].other.clone());
    let mut past = String::new();
    for _ in 0..g.range(2, 8) {
        let i = g.below(jobs.len());
        let j = &jobs[i];
        src.copy_from_slice(&j.src);
        other.copy_from_slice(&j.other);
        let now = run(j, &src, &other, &mut || {});
        check!(now == alone[i], "{}", differs(j, &alone[i], &now, &format!("after{past} in the same place")));
        past.push_str(&format!(" {i}"));
    }
    Ok(())
}

/// Every alignment of every length around the word sizes.
fn alignments(i: u64, ctx: &mut Ctx) -> R {
    let (len, i) = ((i % 70) as usize, i / 70);
    let (align, shape) = ((i % 17) as usize, i / 17);
    let mut s = String::new();
    match shape {
        0 => s = " ".repeat(len),
        1 => {
            s.push('"');
            s.push_str(&"a".repeat(len));
            s.push('"');
        }
        2 => {
            s.push('"');
            s.push_str(&"\u{e9}".repeat(len));
            s.push('"');
        }
        3 => s.push_str(&"7".repeat(len + 1)),
        4 => {
            s.push('"');
            s.push_str(&"a".repeat(len));
            s.push_str("\\u00e9\\n\u{1f600}\"");
        }
        _ => {
            s.push('[');
            s.push_str(&" ".repeat(len));
            s.push(']');
        }
    }
    ctx.describe(|| format!("{s:?} at alignment {align}"));
    ctx.nontrivial(s.as_bytes());
    let mut buf = vec![b' '; align];
    buf.extend_from_slice(s.as_bytes());
    buf.extend_from_slice(b"\"9");
    for op in [Op::Parse, Op::Events, Op::Lexemes, Op::Strings, Op::Number] {
        for text in [false, true] {
            let job = Job { op, cfg: Config::DEFAULT, k: 0, text, src: s.clone().into_bytes(), other: b"a".to_vec() };
            let alone = job.solo();
            let now = run(&job, &buf[align..align + s.len()], &job.other, &mut || {});
            check!(now == alone, "{}", differs(&job, &alone, &now, &format!("at alignment {align}")));
            let now = Guarded::with(&job.src, true, |s| run(&job, s, &job.other, &mut || {}));
            check!(now.as_ref() == Some(&alone), "{}", differs(&job, &alone, &now.unwrap_or_default(), "at the end of a page"));
        }
    }
    Ok(())
}

// helper threads, kept for the life of the worker thread

type Task = Box<dyn FnOnce() -> Result<(), String> + Send>;
struct Helper {
    to: mpsc::Sender<Task>,
    from: mpsc::Receiver<Result<(), String>>,
}
const HELPERS: usize = 3;
thread_local! {
    static POOL: Vec<Helper> = (0..HELPERS).map(|_| {
        let (to, tasks) = mpsc::channel::<Task>();
        let (done, from) = mpsc::channel();
        std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                for t in tasks {
                    let r = catch_unwind(AssertUnwindSafe(t))
                        .unwrap_or_else(|_| Err(String::from("panicked on another thread")));
                    if done.send(r).is_err() {
                        break;
                    }
                }
            })
            .expect("HARNESS: thread");
        Helper { to, from }
    }).collect();
}

/// Runs the tasks at the same time and waits for all of them.
fn on_helpers<'t>(tasks: Vec<Box<dyn FnOnce() -> Result<(), String> + 't>>) -> R {
    let n = tasks.len();
    assert!(n <= HELPERS);
    let mut first = Ok(());
    POOL.with(|pool| {
        for (t, h) in tasks.into_iter().zip(pool) {
            // SAFETY: this function does not return before the task has ended,
            // so nothing it borrows goes away. Whether what it shares may be
            // shared is exactly what is being tested.
            let t: Task = unsafe { std::mem::transmute(t) };
            h.to.send(t).expect("HARNESS: helper");
        }
        for h in pool.iter().take(n) {
            let r = h.from.recv().expect("HARNESS: helper");
            if let (Err(e), Ok(())) = (r, &first) {
                first = fail(e);
            }
        }
    });
    first
}

/// The same jobs on several threads at once, each in its own order.
fn threads(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let jobs = gen_jobs(g, 2, 6);
    ctx.describe(|| jobs.iter().map(Job::show).collect::<Vec<_>>().join("; "));
    let alone: Vec<String> = jobs.iter().map(Job::solo).collect();
    if alone.iter().filter(|s| !s.is_empty()).count() > 1 {
        ctx.nontrivial(&identity(&jobs));
    }
    let orders: Vec<Vec<usize>> =
        (0..HELPERS).map(|_| (0..g.range(2, 8)).map(|_| g.below(jobs.len())).collect()).collect();
    let (jobs, alone) = (&jobs, &alone);
    on_helpers(
        orders
            .iter()
            .map(|order| {
                Box::new(move || {
                    for &i in order {
                        let now = jobs[i].solo();
                        if now != alone[i] {
                            return Err(differs(&jobs[i], &alone[i], &now, "while other threads run"));
                        }
                    }
                    Ok(())
                }) as Box<dyn FnOnce() -> Result<(), String>>
            })
            .collect(),
    )
}

fn value_digest(v: &Value<'_>) -> String {
    let mut hook = || {};
    let mut out = Out { s: String::new(), hook: &mut hook };
    read_value(&mut out, v);
    out.s.push_str(&v.to_json_pretty());
    out.s
}

/// One parsed value and one document read by several threads at once.
fn shared(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (_, t) = gens::valid_text(g, 5);
    let t = t.s;
    ctx.describe(|| t.clone());
    if t.len() > 3000 {
        return Ok(());
    }
    let Ok(v) = Value::from_json(&t) else { return Ok(()) };
    let Ok(d) = Document::from_json(&t) else { return Ok(()) };
    if t.len() > 2 {
        ctx.nontrivial(t.as_bytes());
    }
    let listing = |d: &Document<'_>| d.iter().map(|n| format!("{n:?};")).collect::<String>();
    // what each thread sees must be what a value of its own shows
    let own = Value::from_json(&t).map(|v| value_digest(&v));
    let own_listing = Document::from_json(&t).map(|d| listing(&d));
    let (v, d, own, own_listing, t) = (&v, &d, &own, &own_listing, &t);
    on_helpers(
        (0..HELPERS)
            .map(|i| {
                Box::new(move || {
                    for k in 0..3 {
                        if (i + k) % 2 == 0 {
                            let now = value_digest(v);
                            if own.as_ref() != Ok(&now) {
                                return Err(format!("the value of {t} reads {now:?} when shared by threads, {own:?} otherwise"));
                            }
                        } else {
                            let now = listing(d);
                            if own_listing.as_ref() != Ok(&now) {
                                return Err(format!("the document of {t} lists {now:?} when shared by threads, {own_listing:?} otherwise"));
                            }
                        }
                        if v != v || d != d {
                            return Err(format!("the value of {t} differs from itself when shared by threads"));
                        }
                    }
                    Ok(())
                }) as Box<dyn FnOnce() -> Result<(), String>>
            })
            .collect(),
    )
}

/// The public types can be sent to and shared with other threads.
fn auto_traits(i: u64, ctx: &mut Ctx) -> R {
    // the inherent function is taken where its bound holds
    struct Probe<T>(std::marker::PhantomData<T>);
    trait Otherwise {
        fn shareable(&self) -> bool {
            false
        }
    }
    impl<T> Otherwise for Probe<T> {}
    impl<T: Send + Sync> Probe<T> {
        fn shareable(&self) -> bool {
            true
        }
    }
    fn of<T>() -> Probe<T> {
        Probe(std::marker::PhantomData)
    }
    fn returned<T>(_: fn(&'static JsonString<'static>) -> T) -> Probe<T> {
        of()
    }
    let list: [(&str, bool); 15] = [
        ("Value", of::<Value<'static>>().shareable()),
        ("Object", of::<justjson::Object<'static>>().shareable()),
        ("Entry", of::<justjson::Entry<'static>>().shareable()),
        ("JsonString", of::<JsonString<'static>>().shareable()),
        ("JsonNumber", of::<JsonNumber<'static>>().shareable()),
        ("AnyStr", of::<AnyStr<'static>>().shareable()),
        ("Document", of::<Document<'static>>().shareable()),
        ("HeaplessDocument", of::<HeaplessDocument<'static, 4>>().shareable()),
        ("Node", of::<Node<'static>>().shareable()),
        ("DocumentIter", of::<DocumentIter<'static, 'static>>().shareable()),
        ("Decoded", returned(|s| s.decoded()).shareable()),
        ("AsJson", returned(|s| s.as_json()).shareable()),
        ("Tokenizer", of::<Tokenizer<'static, false>>().shareable()),
        ("ParseConfig", of::<justjson::parser::ParseConfig>().shareable()),
        ("Error", of::<justjson::Error>().shareable()),
    ];
    let (name, yes) = list[i as usize];
    ctx.describe(|| name.to_string());
    ctx.nontrivial(name.as_bytes());
    check!(yes, "{name} cannot be used by several threads");
    Ok(())
}

/// Reads jobs from standard input and writes a digest of each result
/// (the process that c24.processes starts).
pub fn jobs_main() -> i32 {
    use std::io::{Read, Write};
    let mut b = Vec::new();
    if std::io::stdin().read_to_end(&mut b).is_err() {
        return 3;
    }
    let out = crate::engine::on_big_stack(move || {
        let mut rest = b.as_slice();
        let mut out = Vec::new();
        while !rest.is_empty() {
            let Some(j) = Job::read(&mut rest) else { return None };
            let s = j.solo();
            out.extend_from_slice(&hash_bytes(s.as_bytes()).to_le_bytes());
        }
        Some(out)
    });
    let Some(out) = out else { return 3 };
    i32::from(std::io::stdout().write_all(&out).is_err()) * 3
}

/// The same jobs in another order in a process of their own.
fn processes(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    use std::io::{Read, Write};
    use std::process::{Command, Stdio};
    let jobs = gen_jobs(g, 1, 40);
    ctx.describe(|| jobs.iter().map(Job::show).collect::<Vec<_>>().join("; "));
    ctx.nontrivial(&identity(&jobs));
    ctx.count("jobs compared between processes", jobs.len() as u64);
    let mut seen: Vec<Option<u64>> = vec![None; jobs.len()];
    for round in 0..3 {
        let mut order: Vec<usize> = (0..jobs.len()).collect();
        match round {
            0 => {}
            1 => order.reverse(),
            _ => {
                for i in (1..order.len()).rev() {
                    order.swap(i, g.below(i + 1));
                }
                order.extend((0..jobs.len()).map(|_| g.below(jobs.len())));
            }
        }
        let mut input = Vec::new();
        order.iter().for_each(|&i| jobs[i].write(&mut input));
        let mut child = Command::new("/proc/self/exe")
            .arg("jobs")
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::null())
            .spawn()
            .expect("HARNESS: process");
        child.stdin.take().unwrap().write_all(&input).expect("HARNESS: pipe");
        let mut out = Vec::new();
        child.stdout.take().unwrap().read_to_end(&mut out).expect("HARNESS: pipe");
        let status = child.wait().expect("HARNESS: wait");
        check!(status.success(), "a process running {} jobs in order {order:?} ends with {status}", order.len());
        check!(out.len() == 8 * order.len(), "HARNESS: {} bytes for {} jobs", out.len(), order.len());
        for (pos, (h, &i)) in out.chunks_exact(8).zip(&order).enumerate() {
            let h = u64::from_le_bytes(h.try_into().unwrap());
            match seen[i] {
                None => seen[i] = Some(h),
                Some(first) => check!(
                    first == h,
                    "the result of {} depends on what ran before it in the process (it is number {pos} of {order:?})",
                    jobs[i].show()
                ),
            }
        }
    }
    Ok(())
}

pub fn c24() -> Vec<Target> {
    vec![
        all("c24.auto-traits", auto_traits, 15, 15, "every type"),
        all("c24.alignments", alignments, 70 * 17 * 6, 70 * 17 * 6, "every case"),
        rnd("c24.placed", placed, 60_000, 4_000_000, "more than one byte and a result"),
        rnd("c24.rewritten", rewritten, 60_000, 4_000_000, "two texts of different results"),
        rnd("c24.sequence", sequence, 60_000, 4_000_000, "at least two jobs with a result"),
        rnd("c24.nested", nested_jobs, 40_000, 3_000_000, "a job ran inside another"),
        rnd("c24.interleaved", interleaved, 40_000, 3_000_000, "two iterators of more than one step"),
        rnd("c24.threads", threads, 20_000, 1_000_000, "at least two jobs with a result"),
        rnd("c24.shared", shared, 20_000, 1_000_000, "a text of more than two bytes"),
        rnd("c24.processes", processes, 400, 30_000, "every case"),
    ]
}

// ------------------------------------------------------------------ C25

/// Blocks allocated and not freed by `f`.
pub(super) fn balance(f: impl FnOnce()) -> i64 {
    let a = counts();
    f();
    let b = counts();
    (b.allocs - a.allocs) as i64 - (b.frees - a.frees) as i64
}

fn returned(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let j = gen_job(g);
    ctx.describe(|| j.show());
    // whatever is set up once is set up now
    let first = j.solo();
    if j.src.len() > 1 && !first.is_empty() {
        ctx.nontrivial(&identity(std::slice::from_ref(&j)));
    }
    ctx.label(if first.contains("Err") || first.contains("offset") { "an error" } else { "no error" });
    drop(first);
    let n = balance(|| drop(j.solo()));
    same!(n, 0, "blocks still allocated after {}", j.show());
    Ok(())
}

/// The same when user code panics at any of its calls.
fn interrupted_jobs(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let j = gen_job(g);
    ctx.describe(|| j.show());
    let mut calls = 0usize;
    let alone = run(&j, &j.src, &j.other, &mut || calls += 1);
    // every call of short jobs, some of long ones
    let at: Vec<usize> = if calls <= 24 {
        (0..calls).collect()
    } else {
        (0..24).map(|_| g.below(calls)).collect()
    };
    if calls > 1 {
        ctx.nontrivial(&identity(std::slice::from_ref(&j)));
    }
    ctx.count("panics raised in user code", at.len() as u64);
    for k in at {
        let mut done = false;
        let n = balance(|| {
            let mut left = k;
            done = interrupted(&j, &mut left);
        });
        check!(!done, "call {k} of {calls} from {} was not made again", j.show());
        same!(n, 0, "blocks still allocated after {} was ended by a panic at call {k}", j.show());
    }
    let now = j.solo();
    check!(now == alone, "{}", differs(&j, &alone, &now, "after panics in user code"));
    Ok(())
}

/// Results that are used up only in part.
fn partial(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (m, t) = gens::valid_text(g, 5);
    let t = t.s;
    let how = g.below(8);
    let k = g.below(m.nodes() + 2);
    ctx.describe(|| format!("{t} how={how} k={k}"));
    if m.nodes() > 1 {
        ctx.nontrivial(t.as_bytes());
    }
    let commas = Config { trailing_commas: true, ..Config::DEFAULT };
    let cfg = || lib_config(commas);
    let work = || match how {
        0 => {
            // a value taken apart
            if let Ok(v) = Value::from_json_with_config(&t, cfg()) {
                match v {
                    Value::Array(a) => drop(a.into_iter().take(k).collect::<Vec<_>>()),
                    Value::Object(mut o) => {
                        o.truncate(k);
                        drop(o.drain(..).next());
                    }
                    Value::String(s) => drop(s.decode_if_needed()),
                    _ => {}
                }
            }
        }
        1 => {
            if let Ok(d) = Document::from_json_with_config(&t, cfg()) {
                let mut it = d.iter();
                for _ in 0..k {
                    drop(it.next());
                }
                drop(it.next_value());
            }
        }
        2 => {
            if let Ok(d) = Document::from_json_with_config(&t, cfg()) {
                let values: Vec<Value<'_>> = std::iter::from_fn({
                    let mut it = d.iter();
                    move || it.next_value()
                })
                .collect();
                drop(d);
                drop(values);
            }
        }
        3 => {
            if let Ok(mut v) = Value::from_json_with_config(&t, cfg()) {
                let made = v.to_json_pretty();
                if let Ok(w) = Value::from_json(&made) {
                    let _ = w == v;
                }
                v = Value::from(made);
                drop(v.to_json());
            }
        }
        4 => {
            // text cut anywhere
            let b = &t.as_bytes()[..k.min(t.len())];
            drop(Value::from_json_bytes_with_config(b, cfg()));
            drop(Document::from_json_bytes_with_config(b, cfg()));
        }
        5 => {
            // text garbled anywhere
            let mut b = t.clone().into_bytes();
            if let Some(x) = b.get_mut(k) {
                *x = b"\"\\]}{[,:0\xffx"[k % 11];
            }
            drop(Value::from_json_bytes_with_config(&b, cfg()));
            drop(HeaplessDocument::<8>::from_json_bytes_with_config(&b, cfg()).map(Value::from));
        }
        6 => {
            // strings made in code
            let s = JsonString::from(t.clone());
            let u: String = s.as_json().take(k).collect();
            let e = s.escape_if_needed();
            let d = s.decode_if_needed();
            drop((e, d, u, s == *t, s.decoded().skip(k).count()));
        }
        _ => {
            let o: justjson::Object<'_> =
                (0..k % 20).map(|i| (JsonString::from(format!("{i}\n")), Value::from(t.as_str()))).collect();
            let v = Value::from(o);
            drop(v.to_json());
            drop(v);
        }
    };
    work();
    let n = balance(work);
    same!(n, 0, "blocks still allocated after operation {how} ({k}) on {t}");
    Ok(())
}

pub fn c25() -> Vec<Target> {
    vec![
        rnd("c25.returned", returned, 250_000, 15_000_000, "more than one byte and a result"),
        rnd("c25.interrupted", interrupted_jobs, 60_000, 4_000_000, "user code is called more than once"),
        rnd("c25.partial", partial, 250_000, 15_000_000, "more than one node"),
    ]
}
