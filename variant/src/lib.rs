//! What one feature set of the crate does with an input, as text.
#![allow(clippy::missing_safety_doc)]

use justjson::doc::{GenericDocument, Node, NodeCollection};
use justjson::parser::{JsonKind, ParseConfig, ParseDelegate, Parser, Tokenizer};
use justjson::{AnyStr, Error, ErrorKind, JsonNumber, JsonString, JsonStringInfo};
use std::fmt::Write;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

/// A growable collection with a limit; exists in every feature set.
#[derive(Default)]
struct Limited<'a, const N: usize>(Vec<Node<'a>>);

impl<'a, const N: usize> AsRef<[Node<'a>]> for Limited<'a, N> {
    fn as_ref(&self) -> &[Node<'a>] {
        &self.0
    }
}
impl<'a, const N: usize> AsMut<[Node<'a>]> for Limited<'a, N> {
    fn as_mut(&mut self) -> &mut [Node<'a>] {
        &mut self.0
    }
}
impl<'a, const N: usize> IntoIterator for Limited<'a, N> {
    type Item = Node<'a>;
    type IntoIter = std::vec::IntoIter<Node<'a>>;
    fn into_iter(self) -> Self::IntoIter {
        self.0.into_iter()
    }
}
impl<'a, const N: usize> NodeCollection<'a> for Limited<'a, N> {
    fn push(&mut self, node: Node<'a>) -> Result<(), ErrorKind> {
        if self.0.len() == N {
            return Err(ErrorKind::PaylodTooLarge);
        }
        self.0.push(node);
        Ok(())
    }
}

/// Whether the settings are to be used as they come.
const NAMED: u64 = 1 << 18;

fn config(bits: u64) -> ParseConfig {
    if bits & NAMED != 0 {
        return match bits >> 19 & 3 {
            0 => ParseConfig::new(),
            1 => ParseConfig::default(),
            2 => ParseConfig::strict(),
            _ => ParseConfig::strict().allowing_trailing_commas(),
        };
    }
    let mut c = ParseConfig::new().allowing_all_types_at_root(bits & 0x1_0000 != 0);
    if bits & 0x2_0000 != 0 {
        c = c.allowing_trailing_commas();
    }
    match bits & 0xffff {
        0xffff => c.without_recursion_limit(),
        n => c.with_recursion_limit(n as usize),
    }
}

fn error<T: std::fmt::Debug + std::fmt::Display>(out: &mut String, e: &Error<T>) {
    let _ = write!(out, "!{:?}@{} {e} ", e.kind(), e.offset());
}

fn string(out: &mut String, s: &JsonString<'_>) {
    let d: String = s.decoded().collect();
    let j: String = s.as_json().collect();
    let _ = write!(
        out,
        "\"{d}\" json={j} {s} {} len={} declen={} empty={} str={:?} jsonstr={:?} hint={:?} {:?} ",
        s.as_json(),
        s.len(),
        s.decoded_len(),
        s.is_empty(),
        s.as_str(),
        s.as_json_str().map(|t| t.as_str()),
        s.as_json().size_hint(),
        s.decoded().size_hint(),
    );
    check_hash(out, s, &JsonString::from(d.as_str()));
}

#[derive(Default)]
struct Calls(u64);
impl Hasher for Calls {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0 ^ u64::from(*x)).wrapping_mul(0x100_0000_01b3).rotate_left(5);
        }
        self.0 = self.0.wrapping_add(0x9e37_79b9);
    }
}

/// Equal strings have equal hashes (which hashes may differ between feature
/// sets).
fn check_hash(out: &mut String, a: &JsonString<'_>, b: &JsonString<'_>) {
    let h = |s: &JsonString<'_>| {
        let mut c = Calls::default();
        s.hash(&mut c);
        let mut d = std::collections::hash_map::DefaultHasher::new();
        s.hash(&mut d);
        (c.finish(), d.finish())
    };
    let ok = a != b || h(a) == h(b);
    let _ = write!(out, "eq={} hash={ok} ", a == b);
}

/// A destination that takes a number of pieces and then refuses.
struct Sink {
    text: String,
    left: usize,
}
impl Write for Sink {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.is_empty() {
            return Ok(());
        }
        if self.left == 0 {
            return Err(std::fmt::Error);
        }
        self.left -= 1;
        self.text.push_str(s);
        Ok(())
    }
}

/// What reaches a destination that refuses after `left` pieces; how the text
/// is cut into pieces is not part of it.
fn refused(out: &mut String, left: usize, write: impl Fn(&mut Sink) -> std::fmt::Result) {
    let mut all = Sink { text: String::new(), left: usize::MAX };
    let whole = write(&mut all);
    let mut some = Sink { text: String::new(), left };
    let part = write(&mut some);
    let _ = write!(out, "{} {} {} ", whole.is_ok(), part.is_ok() == (some.text == all.text), all.text.starts_with(&some.text));
}

fn any_str(out: &mut String, x: &AnyStr<'_>, y: &AnyStr<'_>, b: &str) {
    use std::borrow::Borrow;
    let h = |v: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut d = std::collections::hash_map::DefaultHasher::new();
        v(&mut d);
        d.finish()
    };
    let _ = write!(
        out,
        "{} {} {} {} {:?} {:?} {:?} {} {} {} {} {} ",
        x.as_str(),
        x == y,
        x == b,
        *x == b,
        x.partial_cmp(y),
        x.partial_cmp(b),
        x.partial_cmp(&b),
        <AnyStr<'_> as Borrow<str>>::borrow(x) == b,
        x.as_ref() == b,
        x.len(),
        h(&|d| x.hash(d)) == h(&|d| x.as_str().hash(d)),
        x.clone() == *x,
    );
}

fn number(out: &mut String, n: &JsonNumber<'_>) {
    let _ = write!(
        out,
        "#{} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} {:?} ",
        n.source(),
        n.as_u8(),
        n.as_u16(),
        n.as_u32(),
        n.as_u64(),
        n.as_u128(),
        // the width of an address is not the same everywhere
        n.as_usize().map(|v| v as u64) == if usize::BITS == 64 { n.as_u64() } else { n.as_u32().map(u64::from) },
        n.as_i8(),
        n.as_i16(),
        n.as_i32(),
        n.as_i64(),
        n.as_i128(),
        n.as_isize().map(|v| v as i64) == if usize::BITS == 64 { n.as_i64() } else { n.as_i32().map(i64::from) },
        n.as_f32().map(f32::to_bits),
        n.as_f64().map(f64::to_bits),
        n.parse::<i64>().is_ok(),
    );
}

fn node(out: &mut String, n: &Node<'_>) {
    match n {
        Node::String(s) => {
            out.push_str("str ");
            string(out, s)
        }
        Node::Number(n) => number(out, n),
        other => {
            let _ = write!(out, "{other:?} ");
        }
    }
}

fn document<'a, B: NodeCollection<'a>>(out: &mut String, d: Result<GenericDocument<'a, B>, Error>) {
    match d {
        Ok(d) => {
            for n in &d {
                node(out, &n);
            }
            // skipping from every position
            for i in 0..d.iter().count().min(40) {
                let mut it = d.iter();
                for _ in 0..i {
                    it.next();
                }
                it.skip_next_value();
                let _ = write!(out, "{} ", it.clone().count());
            }
        }
        Err(e) => error(out, &e),
    }
    out.push('\n');
}

struct Events<'o> {
    out: &'o mut String,
    left: usize,
}

impl Events<'_> {
    fn call(&mut self) -> Result<(), Refused> {
        if self.left == 0 {
            return Err(Refused);
        }
        self.left -= 1;
        Ok(())
    }
}

#[derive(Debug)]
struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("refused")
    }
}

impl<'a> ParseDelegate<'a> for &mut Events<'_> {
    type Value = JsonKind;
    type Object = usize;
    type Array = usize;
    type Key = ();
    type Error = Refused;
    fn null(&mut self) -> Result<JsonKind, Refused> {
        self.call()?;
        self.out.push_str("null ");
        Ok(JsonKind::Null)
    }
    fn boolean(&mut self, v: bool) -> Result<JsonKind, Refused> {
        self.call()?;
        let _ = write!(self.out, "{v} ");
        Ok(JsonKind::Boolean)
    }
    fn number(&mut self, v: JsonNumber<'a>) -> Result<JsonKind, Refused> {
        self.call()?;
        let _ = write!(self.out, "#{} ", v.source());
        Ok(JsonKind::Number)
    }
    fn string(&mut self, v: JsonString<'a>) -> Result<JsonKind, Refused> {
        self.call()?;
        let _ = write!(self.out, "{:?} ", v.as_json_str().map(|t| t.as_str()));
        Ok(JsonKind::String)
    }
    fn begin_object(&mut self) -> Result<usize, Refused> {
        self.call()?;
        self.out.push_str("{ ");
        Ok(0)
    }
    fn object_key(&mut self, _: &mut usize, key: JsonString<'a>) -> Result<(), Refused> {
        self.call()?;
        let _ = write!(self.out, "key {:?} ", key.as_json_str().map(|t| t.as_str()));
        Ok(())
    }
    fn object_value(&mut self, o: &mut usize, _: (), v: JsonKind) -> Result<(), Refused> {
        self.call()?;
        *o += 1;
        let _ = write!(self.out, "val {v:?} ");
        Ok(())
    }
    fn object_is_empty(&self, o: &usize) -> bool {
        *o == 0
    }
    fn end_object(&mut self, o: usize) -> Result<JsonKind, Refused> {
        self.call()?;
        let _ = write!(self.out, "}}{o} ");
        Ok(JsonKind::Object)
    }
    fn begin_array(&mut self) -> Result<usize, Refused> {
        self.call()?;
        self.out.push_str("[ ");
        Ok(0)
    }
    fn array_value(&mut self, a: &mut usize, v: JsonKind) -> Result<(), Refused> {
        self.call()?;
        *a += 1;
        let _ = write!(self.out, "item {v:?} ");
        Ok(())
    }
    fn array_is_empty(&self, a: &usize) -> bool {
        *a == 0
    }
    fn end_array(&mut self, a: usize) -> Result<JsonKind, Refused> {
        self.call()?;
        let _ = write!(self.out, "]{a} ");
        Ok(JsonKind::Array)
    }
    fn kind_of(&self, v: &JsonKind) -> JsonKind {
        *v
    }
}

/// What every feature set has, for a source text.
fn source_common(out: &mut String, b: &[u8], cfg: ParseConfig, pick: usize) {
    match Parser::validate_json_bytes_with_config(b, cfg.clone()) {
        Ok(k) => {
            let _ = write!(out, "{k:?}");
        }
        Err(e) => error(out, &e),
    }
    out.push('\n');
    let utf8 = std::str::from_utf8(b).ok();
    if let Some(s) = utf8 {
        match Parser::validate_json_with_config(s, cfg.clone()) {
            Ok(k) => {
                let _ = write!(out, "{k:?}");
            }
            Err(e) => error(out, &e),
        }
        match JsonString::from_json(s) {
            Ok(v) => string(out, &v),
            Err(e) => error(out, &e),
        }
        match JsonNumber::from_json(s) {
            Ok(v) => number(out, &v),
            Err(e) => error(out, &e),
        }
        out.push('\n');
    }
    let mut t = Tokenizer::for_json_bytes(b);
    for _ in 0..b.len() + 2 {
        let _ = write!(out, "{:?}: ", t.peek());
        match t.next() {
            Some(Ok(justjson::parser::Token::String(s))) => string(out, &s),
            Some(Ok(justjson::parser::Token::Number(n))) => number(out, &n),
            Some(Ok(t)) => {
                let _ = write!(out, "{t:?} ");
            }
            Some(Err(e)) => {
                error(out, &e);
                break;
            }
            None => break,
        }
    }
    out.push('\n');
    for left in [usize::MAX, pick] {
        let mut ev = Events { out: &mut *out, left };
        match Parser::parse_json_bytes_with_config(b, cfg.clone(), &mut ev) {
            Ok(k) => {
                let _ = write!(out, "= {k:?}");
            }
            Err(e) => error(out, &e),
        }
        out.push('\n');
    }
    document(out, GenericDocument::<Limited<'_, 1000>>::from_json_bytes_with_config(b, cfg.clone()));
    document(out, GenericDocument::<Limited<'_, 3>>::from_json_bytes_with_config(b, cfg));
}

/// What is asked without naming settings.
fn source_default(out: &mut String, b: &[u8], cfg: &ParseConfig) {
    let _ = writeln!(out, "{cfg:?} {:?}", ParseConfig::default());
    let utf8 = std::str::from_utf8(b).ok();
    match Parser::validate_json_bytes(b) {
        Ok(k) => {
            let _ = write!(out, "{k:?}");
        }
        Err(e) => error(out, &e),
    }
    document(out, GenericDocument::<Limited<'_, 1000>>::from_json_bytes(b));
    let mut ev = Events { out: &mut *out, left: usize::MAX };
    if let Err(e) = Parser::parse_json_bytes(b, &mut ev) {
        error(out, &e);
    }
    let Some(s) = utf8 else { return };
    match Parser::validate_json(s) {
        Ok(k) => {
            let _ = write!(out, "{k:?}");
        }
        Err(e) => error(out, &e),
    }
    document(out, GenericDocument::<Limited<'_, 1000>>::from_json(s));
    document(out, GenericDocument::<Limited<'_, 1000>>::from_json_with_config(s, cfg.clone()));
    let mut ev = Events { out: &mut *out, left: usize::MAX };
    if let Err(e) = Parser::parse_json(s, &mut ev) {
        error(out, &e);
    }
    let mut ev = Events { out: &mut *out, left: usize::MAX };
    if let Err(e) = Parser::parse_json_with_config(s, cfg.clone(), &mut ev) {
        error(out, &e);
    }
}

#[cfg(feature = "alloc")]
fn default_alloc(out: &mut String, b: &[u8]) {
    use justjson::doc::Document;
    use justjson::Value;
    match Value::from_json_bytes(b) {
        Ok(v) => {
            let _ = write!(out, "{v}");
        }
        Err(e) => error(out, &e),
    }
    document(out, Document::from_json_bytes(b));
    let Ok(s) = std::str::from_utf8(b) else { return };
    match Value::from_json(s) {
        Ok(v) => {
            let _ = write!(out, "{v}");
        }
        Err(e) => error(out, &e),
    }
    document(out, Document::from_json(s));
}

#[cfg(feature = "heapless")]
fn default_heapless(out: &mut String, b: &[u8]) {
    use justjson::doc::HeaplessDocument;
    document(out, HeaplessDocument::<'_, 1000>::from_json_bytes(b));
    if let Ok(s) = std::str::from_utf8(b) {
        document(out, HeaplessDocument::<'_, 1000>::from_json(s));
    }
}
#[cfg(feature = "heapless")]
fn default_limited(out: &mut String, b: &[u8]) {
    document(out, GenericDocument::<Limited<'_, 1000>>::from_json_bytes(b));
    if let Ok(s) = std::str::from_utf8(b) {
        document(out, GenericDocument::<Limited<'_, 1000>>::from_json(s));
    }
}

#[cfg(feature = "alloc")]
fn value(out: &mut String, v: &justjson::Value<'_>) {
    use justjson::Value;
    match v {
        Value::String(s) => {
            string(out, s);
            let _ = write!(out, "{:?} {:?} ", s.decode_if_needed().as_str(), s.escape_if_needed().as_str());
        }
        Value::Number(n) => number(out, n),
        Value::Array(x) => {
            out.push_str("[ ");
            x.iter().for_each(|v| value(out, v));
            out.push_str("] ");
        }
        Value::Object(x) => {
            out.push_str("{ ");
            for (i, e) in x.iter().enumerate() {
                string(out, &e.key);
                value(out, &e.value);
                if i > 40 {
                    continue;
                }
                let k: String = e.key.decoded().collect();
                let _ = write!(out, "get={} ", v.get(&k).is_some_and(|w| std::ptr::eq(w, &e.value)));
            }
            out.push_str("} ");
        }
        other => {
            let _ = write!(out, "{other:?} ");
        }
    }
}

#[cfg(feature = "alloc")]
fn source_alloc(out: &mut String, b: &[u8], cfg: ParseConfig, named: bool) -> bool {
    use justjson::doc::Document;
    use justjson::Value;
    let v = Value::from_json_bytes_with_config(b, cfg.clone());
    match &v {
        Ok(v) => {
            value(out, v);
            let _ = write!(
                out,
                "\n{v}\n{v:#}\n{}\n{}\n{}",
                v.to_json(),
                v.to_json_pretty(),
                v.to_json_pretty_custom("\t", "\r\n")
            );
        }
        Err(e) => error(out, e),
    }
    out.push('\n');
    let d = Document::from_json_bytes_with_config(b, cfg.clone());
    if let Ok(d) = &d {
        let w = d.iter().next_value();
        let _ = write!(out, "same={} ", w.as_ref().map(|w| v.as_ref() == Ok(w)).unwrap_or(false));
    }
    document(out, d);
    if let Ok(d) = Document::from_json_bytes_with_config(b, cfg.clone()) {
        let w = Value::from(d);
        let _ = write!(out, "{w} ");
    }
    if let Ok(s) = std::str::from_utf8(b) {
        match Value::from_json_with_config(s, cfg.clone()) {
            Ok(v) => {
                let _ = write!(out, "{v}");
            }
            Err(e) => error(out, &e),
        }
        document(out, Document::from_json_with_config(s, cfg));
    }
    if named {
        default_alloc(out, b);
    }
    true
}
#[cfg(not(feature = "alloc"))]
fn source_alloc(_: &mut String, _: &[u8], _: ParseConfig, _: bool) -> bool {
    false
}

#[cfg(feature = "heapless")]
fn source_heapless(out: &mut String, b: &[u8], cfg: ParseConfig, named: bool) -> bool {
    use justjson::doc::HeaplessDocument;
    document(out, HeaplessDocument::<'_, 1000>::from_json_bytes_with_config(b, cfg.clone()));
    document(out, HeaplessDocument::<'_, 3>::from_json_bytes_with_config(b, cfg.clone()));
    // the same as with a collection that every feature set has
    let mut other = String::new();
    document(&mut other, GenericDocument::<Limited<'_, 1000>>::from_json_bytes_with_config(b, cfg.clone()));
    document(&mut other, GenericDocument::<Limited<'_, 3>>::from_json_bytes_with_config(b, cfg));
    if named {
        default_heapless(out, b);
        default_limited(&mut other, b);
    }
    let _ = write!(out, "same={}", *out == other);
    true
}
#[cfg(not(feature = "heapless"))]
fn source_heapless(_: &mut String, _: &[u8], _: ParseConfig, _: bool) -> bool {
    false
}

/// Two strings; bit 0 and 1 of `how` tell which are JSON literals.
fn pair_common(out: &mut String, a: &str, b: &str, how: u64) {
    let make = |s, json| if json { JsonString::from_json(s).ok() } else { Some(JsonString::from(s)) };
    let (Some(x), Some(y)) = (make(a, how & 1 != 0), make(b, how & 2 != 0)) else {
        out.push_str("invalid");
        return;
    };
    string(out, &x);
    string(out, &y);
    check_hash(out, &x, &y);
    check_hash(out, &y, &x);
    any_str(out, &AnyStr::from(a), &AnyStr::from(b), b);
    let left = (how >> 2) as usize & 7;
    refused(out, left, |w| write!(w, "{x}"));
    refused(out, left, |w| write!(w, "{}", x.as_json()));
    refused(out, left, |w| write!(w, "{}", x.decoded()));
    for n in [0, a.len(), b.len()] {
        for esc in [false, true] {
            let i = JsonStringInfo::new(esc, n);
            let _ = write!(out, "{} {} {i:?} {} ", i.has_escapes(), i.expected_length(), i == JsonStringInfo::NONE);
        }
    }
    let _ = write!(
        out,
        "{:?} {:?} {:?} {:?} {:?} {:?} {} {} {} {}",
        x.partial_cmp(&y),
        y.partial_cmp(&x),
        x.cmp(&y),
        x.partial_cmp(b),
        x.partial_cmp(&b),
        y.partial_cmp(a),
        x == b,
        x == *b,
        y == a,
        x == x.clone(),
    );
    if let (Some(s), Some(t)) = (x.as_json_str(), y.as_json_str()) {
        let _ = write!(
            out,
            "{:?} {:?} {:?} {} {} {}",
            s.partial_cmp(t),
            s.partial_cmp(b),
            s.partial_cmp(&b),
            s == t,
            s == &b,
            s == b,
        );
    }
}

#[cfg(feature = "alloc")]
fn pair_alloc(out: &mut String, a: &str, b: &str, how: u64) -> bool {
    let make = |s: &str, json| if json { JsonString::from_json(s).ok().map(|s| JsonString::from(s.to_string())) } else { Some(JsonString::from(s.to_string())) };
    let (Some(x), Some(y)) = (make(a, how & 1 != 0), make(b, how & 2 != 0)) else {
        out.push_str("invalid");
        return true;
    };
    string(out, &x);
    string(out, &y);
    check_hash(out, &x, &y);
    any_str(out, &AnyStr::from(a.to_string()), &AnyStr::from(b), b);
    any_str(out, &AnyStr::from(a), &AnyStr::from(b.to_string()), b);
    any_str(out, &AnyStr::from(a.to_string()), &AnyStr::from(b.to_string()), b);
    let _ = write!(out, "{:?} {:?} {:?} {:?}", x.cmp(&y), x.decode_if_needed().as_str(), x.escape_if_needed().as_str(), y.escape_if_needed().as_str());
    true
}
#[cfg(not(feature = "alloc"))]
fn pair_alloc(_: &mut String, _: &str, _: &str, _: u64) -> bool {
    false
}

#[cfg(feature = "alloc")]
struct Script(u64);
#[cfg(feature = "alloc")]
impl Script {
    fn below(&mut self, n: usize) -> usize {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        ((self.0 >> 33) as usize) % n.max(1)
    }
}

/// One of the keys in a value, or another text.
#[cfg(feature = "alloc")]
fn some_key(s: &mut Script, v: &justjson::Value<'_>) -> String {
    match v.as_object() {
        Some(o) if !o.is_empty() && s.below(4) != 0 => o[s.below(o.len())].key.decoded().collect(),
        _ => ["", "a", "k\u{e9}", "\\n", "\"", "long enough to be a key"][s.below(6)].to_string(),
    }
}

/// A value somewhere below `v`.
#[cfg(feature = "alloc")]
fn somewhere<'v, 'a>(s: &mut Script, v: &'v mut justjson::Value<'a>) -> &'v mut justjson::Value<'a> {
    use justjson::Value;
    let n = v.as_array().map_or(0, <[_]>::len) + v.as_object().map_or(0, |o| o.len());
    if n == 0 || s.below(3) == 0 {
        return v;
    }
    let i = s.below(n);
    match v {
        Value::Array(x) => somewhere(s, &mut x[i]),
        Value::Object(x) => somewhere(s, &mut x[i].value),
        _ => unreachable!(),
    }
}

#[cfg(feature = "alloc")]
fn built<'a>(s: &mut Script, a: &'a str, b: &'a str) -> justjson::Value<'a> {
    use justjson::{Entry, Object, Value};
    match s.below(10) {
        0 => Value::Null,
        1 => Value::from(s.below(2) == 0),
        2 => Value::from(a),
        3 => Value::from(b.to_string()),
        4 => Value::from(JsonString::from(a)),
        5 => JsonNumber::from_json(a).map_or(Value::Null, Value::Number),
        6 => JsonString::from_json(b).map_or_else(|_| Value::from(b), Value::String),
        7 => Value::from(vec![Value::from(a), Value::from(true)]),
        8 => [(JsonString::from(a), Value::from(b)), (JsonString::from("k"), Value::Null)].into_iter().collect::<Object<'_>>().into(),
        _ => [Entry::new(b, a.to_string()), Entry::new(a.to_string(), Object::with_capacity(3))].into_iter().collect::<Object<'_>>().into(),
    }
}

/// A history of changes to, and questions about, the value of `a`.
#[cfg(feature = "alloc")]
fn script(out: &mut String, a: &str, b: &str, seed: u64) -> bool {
    use justjson::{Entry, Object, Value};
    let cfg = || ParseConfig::new().allowing_all_types_at_root(true);
    let mut s = Script(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) | 1);
    let mut v = Value::from_json_with_config(a, cfg()).unwrap_or_else(|_| Value::Object(Object::new()));
    let w = Value::from_json_with_config(b, cfg()).unwrap_or_else(|_| Value::from(b));
    for _ in 0..2 + s.below(10) {
        // rewriting texts as texts of texts grows quickly
        if v.to_json().len() > 4000 {
            break;
        }
        let at = somewhere(&mut s, &mut v);
        let key = some_key(&mut s, at);
        let _ = write!(
            out,
            "{} {:?} {} {} {} {:?} {:?} {:?} {:?} {:?} {:?} {:?} ",
            at.is_null(),
            at.as_bool(),
            at.as_number().is_some(),
            at.as_string().is_some(),
            at.as_object().map_or(99, |o| o.len()),
            at.as_array().map(<[_]>::len),
            at.as_str(),
            at.as_u8(),
            at.as_i64(),
            at.as_u128(),
            at.as_f32().map(f32::to_bits),
            at.as_f64().map(f64::to_bits),
        );
        let i = s.below(3);
        let _ = write!(
            out,
            "{:?} {:?} {} {} {} ",
            at.get(&key).map(Value::to_json),
            at.get_index(i).map(Value::to_json),
            at.get_mut(&key).is_some(),
            at.get_index_mut(i).is_some(),
            *at == w,
        );
        if at.get(&key).is_some() {
            let _ = write!(out, "{} ", at[key.as_str()].to_json());
            let x = built(&mut s, a, b);
            if s.below(2) == 0 {
                at[key.as_str()] = x;
            } else if let Some(e) = at.as_object_mut().and_then(|o| o.get_entry_mut(&key)) {
                e.key = JsonString::from(b);
                e.value = x;
            }
        } else if at.get_index(i).is_some() {
            let _ = write!(out, "{} ", at[i].to_json());
            at[i] = built(&mut s, a, b);
        }
        let x = built(&mut s, a, b);
        match (s.below(8), &mut *at) {
            (0, at) => *at = x,
            (1, Value::Object(o)) => o.push(Entry::new(b, x)),
            (2, Value::Object(o)) => {
                if !o.is_empty() {
                    let i = s.below(o.len());
                    let gone = o.remove(i);
                    value(out, &gone.value);
                }
            }
            (3, Value::Object(o)) => o.sort_by(|a, b| a.key.cmp(&b.key)),
            (4, Value::Object(o)) => {
                o.retain(|e| e.key != b);
                let _ = write!(out, "{:?} ", o.get(b).is_none());
            }
            (5, Value::Object(o)) => {
                let old = std::mem::take(o);
                *o = if s.below(2) == 0 {
                    (*old).iter().map(|e| Entry::new(e.key.clone(), e.value.to_json())).collect()
                } else {
                    (*old).iter().map(|e| (e.key.clone(), Value::from(e.value.to_json()))).collect()
                };
            }
            (1 | 6, Value::Array(x0)) => x0.push(x),
            (2, Value::Array(x0)) => {
                x0.pop();
            }
            (3, Value::Array(x0)) => x0.reverse(),
            (_, Value::String(t)) => {
                let _ = write!(out, "{} ", t == b);
                *t = JsonString::from(t.decode_if_needed().as_str().to_string());
                string(out, t);
            }
            _ => {}
        }
    }
    let left = s.below(30);
    refused(out, left, |f| v.write_json_to(f));
    refused(out, left, |f| v.pretty_write_json_to(f));
    let short: String = b.chars().take(2).collect();
    refused(out, left, |f| v.pretty_write_json_to_custom(&short, &short, f));
    value(out, &v);
    let again = v.to_json();
    let _ = write!(out, "{again} {v:#} {} ", Value::from_json_with_config(&again, cfg().without_recursion_limit()).as_ref() == Ok(&v));
    true
}
#[cfg(not(feature = "alloc"))]
fn script(_: &mut String, _: &str, _: &str, _: u64) -> bool {
    false
}

/// Which parts this feature set has: 1 alloc, 2 heapless, 4 std, 8 debug checks.
#[no_mangle]
pub extern "C" fn jj_parts() -> u32 {
    std::panic::set_hook(Box::new(|_| {}));
    u32::from(cfg!(feature = "alloc"))
        | u32::from(cfg!(feature = "heapless")) << 1
        | u32::from(cfg!(feature = "std")) << 2
        | u32::from(cfg!(debug_assertions)) << 3
}

/// A buffer of at least `len` bytes, aligned to 16; valid until the next call.
#[cfg(target_arch = "wasm32")]
#[no_mangle]
pub extern "C" fn jj_buffer(len: usize) -> *mut u8 {
    thread_local! {
        static BUFFER: std::cell::RefCell<Vec<u128>> = const { std::cell::RefCell::new(Vec::new()) };
    }
    BUFFER.with(|b| {
        let mut b = b.borrow_mut();
        if b.len() < len / 16 + 1 {
            b.resize(len / 16 + 1, 0);
        }
        b.as_mut_ptr().cast()
    })
}

thread_local! {
    static OUT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}

/// Writes part `part` (0 common, 1 alloc, 2 heapless) of what happens for an
/// input; `mode` 0: the source text `a`; 1: the strings `a` and `b`; 2: a
/// history that starts from the value of `a`. The result
/// stays valid until the next call on the thread. Returns false when this
/// feature set does not have the part.
#[no_mangle]
pub unsafe extern "C" fn jj_run(
    mode: u32,
    part: u32,
    a: *const u8,
    alen: usize,
    b: *const u8,
    blen: usize,
    bits: u64,
    out: *mut *const u8,
    len: *mut usize,
) -> bool {
    // SAFETY: the caller passes slices.
    let (a, b) = unsafe { (std::slice::from_raw_parts(a, alen), std::slice::from_raw_parts(b, blen)) };
    let mut text = OUT.with(|o| std::mem::take(&mut *o.borrow_mut()));
    text.clear();
    let has = catch_unwind(AssertUnwindSafe(|| {
        let o = &mut text;
        if mode == 0 {
            let cfg = config(bits);
            match part {
                0 => {
                    source_common(o, a, cfg.clone(), (bits >> 32) as usize);
                    if bits & NAMED != 0 {
                        source_default(o, a, &cfg);
                    }
                    true
                }
                1 => source_alloc(o, a, cfg, bits & NAMED != 0),
                _ => source_heapless(o, a, cfg, bits & NAMED != 0),
            }
        } else {
            let (a, b) = (String::from_utf8_lossy(a), String::from_utf8_lossy(b));
            match part {
                0 if mode == 1 => {
                    pair_common(o, &a, &b, bits);
                    true
                }
                1 if mode == 2 => script(o, &a, &b, bits),
                1 if mode == 1 => pair_alloc(o, &a, &b, bits),
                _ => false,
            }
        }
    }));
    let has = match has {
        Ok(h) => h,
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| (*s).to_string()))
                .unwrap_or_default();
            let _ = write!(text, " PANIC {m}");
            true
        }
    };
    OUT.with(|o| {
        *o.borrow_mut() = text;
        let t = o.borrow();
        // SAFETY: the caller passes two places.
        unsafe {
            *out = t.as_ptr();
            *len = t.len();
        }
    });
    has
}
