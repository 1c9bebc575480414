//! Independent reference for RFC 8259 JSON: lexer, acceptor, event list and
//! tree, written iteratively from the grammar, with the position of the first
//! fault and the error kinds that name it. Uses nothing of justjson.

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum FK {
    Utf8,
    Eof,
    ObjectKey,
    Colon,
    CommaObject,
    CommaArray,
    TrailingComma,
    Unexpected(u8),
    TrailingData,
    KeysMustBeStrings,
    Exponent,
    DecimalDigit,
    Digit,
    Hex,
    Escape,
    UnclosedObject,
    UnclosedArray,
    UnclosedString,
    Recursion,
    RootKind,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub struct Span {
    pub lo: usize,
    pub hi: usize,
}
impl Span {
    pub fn of<'a>(&self, b: &'a [u8]) -> &'a [u8] {
        &b[self.lo..self.hi]
    }
    pub fn text<'a>(&self, b: &'a [u8]) -> &'a str {
        std::str::from_utf8(self.of(b)).expect("reference spans are UTF-8")
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Tok {
    Null,
    Bool(bool),
    /// interior of the string, without quotes
    Str(Span),
    Num(Span),
    LBrace,
    RBrace,
    LBracket,
    RBracket,
    Colon,
    Comma,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct LexFault {
    /// first byte of the malformed lexeme
    pub start: usize,
    /// first byte of the escape or run of characters within it that is
    /// malformed, or else `at`
    pub part: usize,
    /// the byte that cannot continue it (or the length of the input)
    pub at: usize,
    /// admissible kinds; the end-of-input kinds are mapped by the parser
    pub kinds: Vec<FK>,
    pub eof: bool,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Lex {
    End,
    Tok(Tok, usize, usize),
    Bad(LexFault),
}

pub fn is_ws(b: u8) -> bool {
    b == 0x20 || b == 0x09 || b == 0x0A || b == 0x0D
}

pub fn skip_ws(b: &[u8], mut i: usize) -> usize {
    while i < b.len() && is_ws(b[i]) {
        i += 1;
    }
    i
}

fn bad_part(start: usize, part: usize, at: usize, kinds: &[FK]) -> Lex {
    Lex::Bad(LexFault { start, part, at, kinds: kinds.to_vec(), eof: false })
}
fn bad(start: usize, at: usize, kinds: &[FK]) -> Lex {
    bad_part(start, at, at, kinds)
}
fn bad_eof(start: usize, at: usize, kinds: &[FK]) -> Lex {
    Lex::Bad(LexFault { start, part: at, at, kinds: kinds.to_vec(), eof: true })
}

/// Length of the well-formed UTF-8 sequence at the start of `b` (Unicode
/// table 3-7), or 0.
pub fn utf8_len(b: &[u8]) -> usize {
    let cont = |i: usize, lo: u8, hi: u8| b.get(i).is_some_and(|x| (lo..=hi).contains(x));
    match b.first() {
        None => 0,
        Some(0x00..=0x7F) => 1,
        Some(0xC2..=0xDF) if cont(1, 0x80, 0xBF) => 2,
        Some(0xE0) if cont(1, 0xA0, 0xBF) && cont(2, 0x80, 0xBF) => 3,
        Some(0xE1..=0xEC | 0xEE..=0xEF) if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) => 3,
        Some(0xED) if cont(1, 0x80, 0x9F) && cont(2, 0x80, 0xBF) => 3,
        Some(0xF0) if cont(1, 0x90, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
        Some(0xF1..=0xF3) if cont(1, 0x80, 0xBF) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
        Some(0xF4) if cont(1, 0x80, 0x8F) && cont(2, 0x80, 0xBF) && cont(3, 0x80, 0xBF) => 4,
        _ => 0,
    }
}

fn hex_val(b: u8) -> Option<u32> {
    match b {
        b'0' => Some(0),
        b'1' => Some(1),
        b'2' => Some(2),
        b'3' => Some(3),
        b'4' => Some(4),
        b'5' => Some(5),
        b'6' => Some(6),
        b'7' => Some(7),
        b'8' => Some(8),
        b'9' => Some(9),
        b'a' | b'A' => Some(10),
        b'b' | b'B' => Some(11),
        b'c' | b'C' => Some(12),
        b'd' | b'D' => Some(13),
        b'e' | b'E' => Some(14),
        b'f' | b'F' => Some(15),
        _ => None,
    }
}

enum Quad {
    Ok(u32),
    BadAt(usize),
    Eof,
}
fn quad(b: &[u8], i: usize) -> Quad {
    let mut v = 0;
    for k in 0..4 {
        match b.get(i + k) {
            None => return Quad::Eof,
            Some(c) => match hex_val(*c) {
                None => return Quad::BadAt(i + k),
                Some(h) => v = v * 16 + h,
            },
        }
    }
    Quad::Ok(v)
}

fn lex_string(b: &[u8], start: usize) -> Lex {
    let esc_eof = [FK::Eof, FK::UnclosedString];
    let mut i = start + 1;
    loop {
        let Some(&c) = b.get(i) else {
            return bad_eof(start, b.len(), &[FK::UnclosedString]);
        };
        match c {
            b'"' => {
                return Lex::Tok(Tok::Str(Span { lo: start + 1, hi: i }), start, i + 1);
            }
            0x00..=0x1F => return bad(start, i, &[FK::Unexpected(c)]),
            b'\\' => match b.get(i + 1) {
                None => return bad_eof(start, b.len(), &esc_eof),
                Some(b'"' | b'\\' | b'/' | b'b' | b'f' | b'n' | b'r' | b't') => i += 2,
                Some(b'u') => match quad(b, i + 2) {
                    Quad::Eof => return bad_eof(start, b.len(), &esc_eof),
                    Quad::BadAt(at) => return bad_part(start, i, at, &[FK::Hex]),
                    Quad::Ok(v) if (0xD800..0xDC00).contains(&v) => {
                        // must be followed by a low surrogate escape
                        match (b.get(i + 6), b.get(i + 7)) {
                            (None, _) => return bad_eof(start, b.len(), &esc_eof),
                            (Some(b'\\'), None) => return bad_eof(start, b.len(), &esc_eof),
                            (Some(b'\\'), Some(b'u')) => match quad(b, i + 8) {
                                Quad::Eof => return bad_eof(start, b.len(), &esc_eof),
                                Quad::BadAt(at) => return bad_part(start, i, at, &[FK::Hex]),
                                Quad::Ok(w) if (0xDC00..0xE000).contains(&w) => i += 12,
                                Quad::Ok(_) => return bad_part(start, i, i + 11, &[FK::Utf8]),
                            },
                            (Some(b'\\'), Some(_)) => return bad_part(start, i, i + 7, &[FK::Utf8]),
                            (Some(_), _) => return bad_part(start, i, i + 6, &[FK::Utf8]),
                        }
                    }
                    Quad::Ok(v) if (0xDC00..0xE000).contains(&v) => {
                        return bad_part(start, i, i + 5, &[FK::Utf8])
                    }
                    Quad::Ok(_) => i += 6,
                },
                Some(_) => return bad_part(start, i, i + 1, &[FK::Escape]),
            },
            0x20..=0x7F => i += 1,
            _ => {
                let n = utf8_len(&b[i..]);
                if n == 0 {
                    let mut run = i;
                    while run > start + 1 && b[run - 1] >= 128 {
                        run -= 1;
                    }
                    return bad_part(start, run, i, &[FK::Utf8]);
                }
                i += n;
            }
        }
    }
}

fn lex_number(b: &[u8], start: usize) -> Lex {
    let digit = |i: usize| b.get(i).is_some_and(|c| c.is_ascii_digit());
    let stop = |at: usize, k: FK| {
        if at >= b.len() {
            bad_eof(start, b.len(), &[k])
        } else {
            bad(start, at, &[k])
        }
    };
    let mut i = start;
    if b[i] == b'-' {
        i += 1;
    }
    if !digit(i) {
        return stop(i, FK::Digit);
    }
    if b[i] == b'0' {
        i += 1;
    } else {
        while digit(i) {
            i += 1;
        }
    }
    if b.get(i) == Some(&b'.') {
        i += 1;
        if !digit(i) {
            return stop(i, FK::DecimalDigit);
        }
        while digit(i) {
            i += 1;
        }
    }
    if matches!(b.get(i), Some(b'e' | b'E')) {
        i += 1;
        if matches!(b.get(i), Some(b'+' | b'-')) {
            i += 1;
        }
        if !digit(i) {
            return stop(i, FK::Exponent);
        }
        while digit(i) {
            i += 1;
        }
    }
    Lex::Tok(Tok::Num(Span { lo: start, hi: i }), start, i)
}

fn lex_word(b: &[u8], start: usize, word: &[u8], tok: Tok) -> Lex {
    for (k, w) in word.iter().enumerate() {
        match b.get(start + k) {
            None => return bad_eof(start, b.len(), &[FK::Eof]),
            Some(c) if c == w => {}
            Some(c) => return bad(start, start + k, &[FK::Unexpected(*c)]),
        }
    }
    Lex::Tok(tok, start, start + word.len())
}

/// The next lexeme at or after `i`.
pub fn lex(b: &[u8], i: usize) -> Lex {
    let i = skip_ws(b, i);
    let Some(&c) = b.get(i) else { return Lex::End };
    let single = |t: Tok| Lex::Tok(t, i, i + 1);
    match c {
        b'{' => single(Tok::LBrace),
        b'}' => single(Tok::RBrace),
        b'[' => single(Tok::LBracket),
        b']' => single(Tok::RBracket),
        b':' => single(Tok::Colon),
        b',' => single(Tok::Comma),
        b'"' => lex_string(b, i),
        b'-' | b'0'..=b'9' => lex_number(b, i),
        b't' => lex_word(b, i, b"true", Tok::Bool(true)),
        b'f' => lex_word(b, i, b"false", Tok::Bool(false)),
        b'n' => lex_word(b, i, b"null", Tok::Null),
        _ => bad(i, i, &[FK::Unexpected(c)]),
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct Config {
    pub trailing_commas: bool,
    pub limit: Option<usize>,
    pub any_root: bool,
}
impl Config {
    pub const DEFAULT: Config = Config {
        trailing_commas: false,
        limit: Some(128),
        any_root: true,
    };
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Ev {
    Null,
    Bool(bool),
    Num(Span),
    Str(Span),
    BeginObject,
    Key(Span),
    /// the value of the last key is complete
    ObjectValue,
    EndObject,
    BeginArray,
    ArrayValue,
    EndArray,
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct Fault {
    /// end of the last good token
    pub lo: usize,
    /// what `lo` is for an error that is about the inside of a lexeme
    pub part: Option<usize>,
    /// the offending byte (the length of the input at its end)
    pub at: usize,
    pub kinds: Vec<FK>,
    /// the text ended too early
    pub eof: bool,
}

pub struct Parsed {
    pub events: Vec<Ev>,
    pub fault: Option<Fault>,
    pub max_depth: usize,
    pub trailing_commas: usize,
}

#[derive(Clone, Copy, PartialEq)]
enum St {
    Value,       // a value must come (root, after comma in array, after colon)
    FirstElem,   // after [
    FirstKey,    // after {
    NextKey,     // after , in an object
    NextElem,    // after , in an array
    Colon,       // after a key
    CommaObject, // after a member
    CommaArray,  // after an element
    Done,
}

/// Runs the grammar over the input; stops at the first fault.
pub fn parse(b: &[u8], cfg: Config) -> Parsed {
    let mut events = Vec::new();
    let mut stack: Vec<bool> = Vec::new(); // true: object
    let mut st = St::Value;
    let mut i = 0usize; // end of the last good token
    let mut max_depth = 0;
    let mut trailing = 0;
    let unclosed = |stack: &Vec<bool>| match stack.last() {
        None => FK::Eof,
        Some(true) => FK::UnclosedObject,
        Some(false) => FK::UnclosedArray,
    };
    macro_rules! stop {
        ($at:expr, $eof:expr, $kinds:expr) => {
            return Parsed {
                events,
                fault: Some(Fault {
                    lo: i,
                    part: None,
                    at: $at,
                    kinds: $kinds,
                    eof: $eof,
                }),
                max_depth,
                trailing_commas: trailing,
            }
        };
    }
    loop {
        let l = lex(b, i);
        if st == St::Done {
            match l {
                Lex::End => {
                    return Parsed {
                        events,
                        fault: None,
                        max_depth,
                        trailing_commas: trailing,
                    }
                }
                _ => {
                    let at = skip_ws(b, i);
                    i = at;
                    stop!(at, false, vec![FK::TrailingData])
                }
            }
        }
        let (tok, _start, end) = match l {
            Lex::End => {
                let k = match st {
                    St::Colon => FK::Colon,
                    _ => unclosed(&stack),
                };
                stop!(b.len(), true, vec![k])
            }
            Lex::Bad(f) => {
                // the malformed lexeme's own kind, or the structural one if it
                // could not have been accepted here anyway
                let mut kinds: Vec<FK> = f
                    .kinds
                    .iter()
                    .map(|k| if *k == FK::Eof { unclosed(&stack) } else { *k })
                    .collect();
                match st {
                    St::Colon => kinds = vec![FK::Colon],
                    St::CommaObject => kinds.push(FK::CommaObject),
                    St::CommaArray => kinds.push(FK::CommaArray),
                    St::FirstKey | St::NextKey if b[f.start] != b'"' => {
                        kinds.push(FK::KeysMustBeStrings);
                        kinds.push(FK::ObjectKey);
                    }
                    _ => {}
                }
                return Parsed {
                    events,
                    fault: Some(Fault { lo: i, part: Some(f.part), at: f.at, kinds, eof: f.eof }),
                    max_depth,
                    trailing_commas: trailing,
                };
            }
            Lex::Tok(t, s, e) => (t, s, e),
        };
        let at = _start;
        // a completed value: which state follows
        macro_rules! value_done {
            () => {
                match stack.last() {
                    None => {
                        if !cfg.any_root
                            && !matches!(events.last(), Some(Ev::EndArray | Ev::EndObject))
                        {
                            // the text as a whole is at fault
                            let after = skip_ws(b, end);
                            let mut kinds = vec![FK::RootKind];
                            if after < b.len() {
                                kinds.push(FK::TrailingData);
                            }
                            i = 0;
                            stop!(after, false, kinds)
                        }
                        st = St::Done;
                    }
                    Some(true) => {
                        events.push(Ev::ObjectValue);
                        st = St::CommaObject;
                    }
                    Some(false) => {
                        events.push(Ev::ArrayValue);
                        st = St::CommaArray;
                    }
                }
            };
        }
        match st {
            St::Value | St::FirstElem | St::NextElem => match tok {
                Tok::Null => {
                    events.push(Ev::Null);
                    value_done!();
                }
                Tok::Bool(v) => {
                    events.push(Ev::Bool(v));
                    value_done!();
                }
                Tok::Str(s) => {
                    events.push(Ev::Str(s));
                    value_done!();
                }
                Tok::Num(s) => {
                    events.push(Ev::Num(s));
                    value_done!();
                }
                Tok::LBrace | Tok::LBracket => {
                    if cfg.limit.is_some_and(|l| stack.len() >= l) {
                        stop!(at, false, vec![FK::Recursion])
                    }
                    stack.push(tok == Tok::LBrace);
                    max_depth = max_depth.max(stack.len());
                    if tok == Tok::LBrace {
                        events.push(Ev::BeginObject);
                        st = St::FirstKey;
                    } else {
                        events.push(Ev::BeginArray);
                        st = St::FirstElem;
                    }
                }
                Tok::RBracket if st == St::FirstElem => {
                    stack.pop();
                    events.push(Ev::EndArray);
                    value_done!();
                }
                Tok::RBracket if st == St::NextElem => {
                    if !cfg.trailing_commas {
                        stop!(at, false, vec![FK::TrailingComma])
                    }
                    trailing += 1;
                    stack.pop();
                    events.push(Ev::EndArray);
                    value_done!();
                }
                Tok::RBrace | Tok::RBracket | Tok::Colon | Tok::Comma => {
                    stop!(at, false, vec![FK::Unexpected(b[at])])
                }
            },
            St::FirstKey | St::NextKey => match tok {
                Tok::Str(s) => {
                    events.push(Ev::Key(s));
                    st = St::Colon;
                }
                Tok::RBrace => {
                    if st == St::NextKey {
                        if !cfg.trailing_commas {
                            stop!(at, false, vec![FK::TrailingComma])
                        }
                        trailing += 1;
                    }
                    stack.pop();
                    events.push(Ev::EndObject);
                    value_done!();
                }
                Tok::Comma | Tok::Colon | Tok::RBracket => {
                    stop!(at, false, vec![FK::ObjectKey])
                }
                _ => stop!(at, false, vec![FK::KeysMustBeStrings]),
            },
            St::Colon => match tok {
                Tok::Colon => st = St::Value,
                _ => stop!(at, false, vec![FK::Colon]),
            },
            St::CommaObject => match tok {
                Tok::Comma => st = St::NextKey,
                Tok::RBrace => {
                    stack.pop();
                    events.push(Ev::EndObject);
                    value_done!();
                }
                _ => stop!(at, false, vec![FK::CommaObject]),
            },
            St::CommaArray => match tok {
                Tok::Comma => st = St::NextElem,
                Tok::RBracket => {
                    stack.pop();
                    events.push(Ev::EndArray);
                    value_done!();
                }
                _ => stop!(at, false, vec![FK::CommaArray]),
            },
            St::Done => unreachable!(),
        }
        i = end;
    }
}

pub fn accepts(b: &[u8], cfg: Config) -> bool {
    parse(b, cfg).fault.is_none()
}

/// What a string interior (already lexed) denotes. `b_char` is what `\b` is
/// taken to denote (U+0008 under RFC 8259).
pub fn decode(src: &str, b_char: char) -> String {
    let b = src.as_bytes();
    let mut out = String::new();
    let mut i = 0;
    while i < b.len() {
        if b[i] != b'\\' {
            let n = utf8_len(&b[i..]);
            out.push_str(&src[i..i + n]);
            i += n;
            continue;
        }
        let c = match b[i + 1] {
            b'b' => b_char,
            b'f' => '\u{c}',
            b'n' => '\u{a}',
            b'r' => '\u{d}',
            b't' => '\u{9}',
            b'u' => {
                let Quad::Ok(v) = quad(b, i + 2) else {
                    panic!("reference decode of an invalid string")
                };
                i += 4;
                let v = if (0xD800..0xDC00).contains(&v) {
                    let Quad::Ok(w) = quad(b, i + 4) else {
                        panic!("reference decode of an invalid string")
                    };
                    i += 6;
                    0x10000 + (v - 0xD800) * 1024 + (w - 0xDC00)
                } else {
                    v
                };
                char::from_u32(v).expect("reference decode of an invalid string")
            }
            other => other as char,
        };
        out.push(c);
        i += 2;
    }
    out
}

/// Whether `body` may stand between quotes in a JSON text.
pub fn valid_body(body: &[u8]) -> bool {
    let mut q = Vec::with_capacity(body.len() + 2);
    q.push(b'"');
    q.extend_from_slice(body);
    q.push(b'"');
    matches!(lex(&q, 0), Lex::Tok(Tok::Str(_), 0, e) if e == q.len())
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum Tree {
    Null,
    Bool(bool),
    Num(Span),
    Str(Span),
    Arr(Vec<Tree>),
    Obj(Vec<(Span, Tree)>),
}

/// The tree of a complete event list.
pub fn tree(events: &[Ev]) -> Tree {
    enum Fr {
        A(Vec<Tree>),
        O(Vec<(Span, Tree)>, Option<Span>),
    }
    let mut stack: Vec<Fr> = Vec::new();
    let mut done: Option<Tree> = None;
    for e in events {
        match *e {
            Ev::Null => done = Some(Tree::Null),
            Ev::Bool(v) => done = Some(Tree::Bool(v)),
            Ev::Num(s) => done = Some(Tree::Num(s)),
            Ev::Str(s) => done = Some(Tree::Str(s)),
            Ev::BeginArray => stack.push(Fr::A(Vec::new())),
            Ev::BeginObject => stack.push(Fr::O(Vec::new(), None)),
            Ev::Key(s) => match stack.last_mut() {
                Some(Fr::O(_, k)) => *k = Some(s),
                _ => panic!("reference events"),
            },
            Ev::ObjectValue => match stack.last_mut() {
                Some(Fr::O(m, k)) => m.push((k.take().unwrap(), done.take().unwrap())),
                _ => panic!("reference events"),
            },
            Ev::ArrayValue => match stack.last_mut() {
                Some(Fr::A(m)) => m.push(done.take().unwrap()),
                _ => panic!("reference events"),
            },
            Ev::EndArray => match stack.pop() {
                Some(Fr::A(m)) => done = Some(Tree::Arr(m)),
                _ => panic!("reference events"),
            },
            Ev::EndObject => match stack.pop() {
                Some(Fr::O(m, _)) => done = Some(Tree::Obj(m)),
                _ => panic!("reference events"),
            },
        }
    }
    done.expect("complete events")
}

/// The source without insignificant whitespace (bytes outside strings).
pub fn minify(b: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    let mut in_str = false;
    while i < b.len() {
        let c = b[i];
        if in_str {
            out.push(c);
            if c == b'\\' && i + 1 < b.len() {
                i += 1;
                out.push(b[i]);
            } else if c == b'"' {
                in_str = false;
            }
        } else if c == b'"' {
            in_str = true;
            out.push(c);
        } else if !is_ws(c) {
            out.push(c);
        }
        i += 1;
    }
    out
}
