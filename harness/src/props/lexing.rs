//! C14: the tokenizer against the reference lexer.

use super::accept::{word, words};
use super::{all, rnd};
use crate::common::*;
use crate::engine::{fail, show_bytes, Ctx, Gen, Target, R};
use crate::gens;
use crate::refjson::{self, Lex, Tok};
use crate::{check, same};
use justjson::parser::{PeekableTokenKind, Token, Tokenizer};
use justjson::{Error, ErrorKind};

/// What the source consists of.
struct Plan {
    toks: Vec<(Tok, usize, usize)>,
    /// a malformed lexeme after them
    bad: Option<refjson::LexFault>,
}

fn plan(b: &[u8]) -> Plan {
    let mut toks = Vec::new();
    let mut i = 0;
    loop {
        match refjson::lex(b, i) {
            Lex::End => return Plan { toks, bad: None },
            Lex::Bad(f) => return Plan { toks, bad: Some(f) },
            Lex::Tok(t, s, e) => {
                toks.push((t, s, e));
                i = e;
            }
        }
    }
}

fn token_is(got: &Token<'_>, want: &Tok, b: &[u8]) -> R {
    let ok = match (got, want) {
        (Token::Null, Tok::Null) => true,
        (Token::Bool(a), Tok::Bool(c)) => a == c,
        (Token::String(s), Tok::Str(sp)) => {
            let source = s.as_json_str().map(|x| x.as_str());
            let text = sp.text(b);
            source == Some(text) && s.decoded().eq(refjson::decode(text, gens::b_char()).chars())
        }
        (Token::Number(n), Tok::Num(sp)) => n.source() == sp.text(b),
        (Token::Object, Tok::LBrace)
        | (Token::ObjectEnd, Tok::RBrace)
        | (Token::Array, Tok::LBracket)
        | (Token::ArrayEnd, Tok::RBracket)
        | (Token::Colon, Tok::Colon)
        | (Token::Comma, Tok::Comma) => true,
        _ => false,
    };
    check!(ok, "token {got:?} where {want:?} was expected");
    Ok(())
}

fn peek_kind(t: &Tok) -> PeekableTokenKind {
    match t {
        Tok::Null => PeekableTokenKind::Null,
        Tok::Bool(true) => PeekableTokenKind::True,
        Tok::Bool(false) => PeekableTokenKind::False,
        Tok::Str(_) => PeekableTokenKind::String,
        Tok::Num(_) => PeekableTokenKind::Number,
        Tok::LBrace => PeekableTokenKind::Object,
        Tok::RBrace => PeekableTokenKind::ObjectEnd,
        Tok::LBracket => PeekableTokenKind::Array,
        Tok::RBracket => PeekableTokenKind::ArrayEnd,
        Tok::Colon => PeekableTokenKind::Colon,
        Tok::Comma => PeekableTokenKind::Comma,
    }
}

/// One reading step: what `next` (false) or `next_or_eof` (true) gives, in the
/// form of `next`.
fn read<'a, const U: bool>(t: &mut Tokenizer<'a, U>, eof_style: bool, at_end: bool) -> Result<Option<Result<Token<'a>, Error>>, String> {
    if !eof_style {
        return Ok(t.next());
    }
    match t.next_or_eof() {
        Err(e) if at_end => {
            if *e.kind() == ErrorKind::UnexpectedEof {
                Ok(None)
            } else {
                Err(format!("next_or_eof at the end gives {e:?}"))
            }
        }
        r => Ok(Some(r)),
    }
}

fn drive<'a, const U: bool>(
    g: &mut Gen<'_>,
    mut t: Tokenizer<'a, U>,
    b: &'a [u8],
    p: &Plan,
) -> Result<Vec<String>, crate::engine::Fail> {
    macro_rules! bad {
        ($($a:tt)*) => { return fail(format!($($a)*)) };
    }
    let mut log = Vec::new();
    let mut end = 0; // where the last token ended
    if t.offset() != 0 {
        bad!("a fresh tokenizer is at offset {}", t.offset());
    }
    // 0: next only, 1: next_or_eof only, 2: mixed; each with or without peeks
    let style = g.below(3);
    let peeks = g.below(3);
    for k in 0..p.toks.len() + 1 {
        let upcoming = p.toks.get(k);
        let n = match peeks {
            0 => 0,
            1 => 1,
            _ => g.below(3),
        };
        for _ in 0..n {
            let before = t.offset();
            let got = t.peek();
            let after = t.offset();
            let start = upcoming
                .map(|u| u.1)
                .or(p.bad.as_ref().map(|f| f.start))
                .unwrap_or(b.len());
            if !(before..=start).contains(&after) {
                bad!("peek moves the offset from {before} to {after}; the next token starts at {start}");
            }
            match (upcoming, &p.bad) {
                (Some(u), _) => {
                    if got != Some(peek_kind(&u.0)) {
                        bad!("peek gives {got:?} before {:?} at {}", u.0, u.1);
                    }
                }
                (None, Some(f)) => {
                    // a byte that starts no token has no kind to be named
                    let starts = b"{}[],:\"-0123456789tfn".contains(&b[f.start]);
                    if got.is_none() || (!starts && got != Some(PeekableTokenKind::Unrecognized)) {
                        bad!("peek gives {got:?} before the malformed lexeme at {}", f.start);
                    }
                }
                (None, None) => {
                    if got.is_some() {
                        bad!("peek gives {got:?} at the end");
                    }
                }
            }
        }
        let eof_style = match style {
            0 => false,
            1 => true,
            _ => g.bool(),
        };
        let at_end = upcoming.is_none() && p.bad.is_none();
        let got = match read(&mut t, eof_style, at_end) {
            Ok(x) => x,
            Err(e) => bad!("{e}"),
        };
        match (got, upcoming) {
            (Some(Ok(tok)), Some(u)) => {
                token_is(&tok, &u.0, b).map_err(|e| crate::engine::Fail {
                    msg: format!("lexeme {k} at {}: {}", u.1, e.msg),
                })?;
                if t.offset() != u.2 {
                    bad!("offset {} after lexeme {k} ({:?}), which ends at {}", t.offset(), u.0, u.2);
                }
                end = u.2;
                log.push(token_name(&tok).to_string());
            }
            (Some(Err(e)), Some(u)) => bad!("{e:?} for the well-formed lexeme {k} ({:?} at {})", u.0, u.1),
            (None, Some(u)) => bad!("the end is reported before lexeme {k} ({:?} at {})", u.0, u.1),
            (got, None) => match (&p.bad, got) {
                (None, None) => {
                    // the end lasts
                    for i in 0..3 {
                        if let Some(x) = t.next() {
                            bad!("next gives {x:?} after the end");
                        }
                        if let Some(x) = t.peek() {
                            bad!("peek gives {x:?} after the end");
                        }
                        match t.next_or_eof() {
                            Err(e) if *e.kind() == ErrorKind::UnexpectedEof && e.offset() <= b.len() => {}
                            x => bad!("next_or_eof gives {x:?} after the end ({i})"),
                        }
                    }
                    if t.offset() < end || t.offset() > b.len() {
                        bad!("offset {} after the end", t.offset());
                    }
                    log.push(String::from("end"));
                }
                (Some(f), Some(Err(e))) => {
                    if !(f.part..=f.at).contains(&e.offset()) {
                        bad!("{e:?} for the lexeme at {}, which is malformed at {}..={}", f.start, f.part, f.at);
                    }
                    if t.offset() <= f.start {
                        bad!("no progress: offset {} after the malformed lexeme at {}", t.offset(), f.start);
                    }
                    log.push(format!("error {:?} at {}", e.kind(), e.offset()));
                    // it goes on and comes to an end
                    let mut at = t.offset();
                    let mut steps = 0;
                    while at < b.len() {
                        let r = t.next();
                        let now = t.offset();
                        if now > b.len() {
                            bad!("offset {now} beyond the source");
                        }
                        if r.is_none() {
                            break;
                        }
                        if now <= at {
                            bad!("no progress at offset {now} after an error");
                        }
                        at = now;
                        steps += 1;
                        if steps > b.len() + 1 {
                            bad!("more tokens than bytes");
                        }
                    }
                    if let Some(x) = t.next() {
                        // at the very end nothing may come any more
                        if t.offset() >= b.len() && at >= b.len() {
                            bad!("{x:?} beyond the end");
                        }
                    }
                }
                (None, Some(x)) => bad!("{x:?} at the end"),
                (Some(f), x) => bad!("{x:?} for the malformed lexeme at {} ({:?})", f.start, f.kinds),
            },
        }
    }
    Ok(log)
}

fn source(g: &mut Gen<'_>) -> Vec<u8> {
    match g.below(4) {
        0 => gens::any_input(g, 20).0,
        _ => {
            // a sequence of lexemes, not necessarily a text
            let n = g.size(40);
            let style = gens::ws_style(g);
            let mut s = String::new();
            let mut last_num = false;
            for _ in 0..n {
                let before = s.len();
                gens::ws(g, style, &mut s);
                let k = g.weighted(&[5, 5, 2, 2, 2, 2, 2, 2, 1]);
                // two numbers in a row need something between them
                if k == 1 && last_num && s.len() == before {
                    s.push(' ');
                }
                last_num = k == 1;
                match k {
                    0 => s.push_str(&gens::mstr(g, 10).quoted),
                    1 => s.push_str(&gens::number(g)),
                    2 => s.push('{'),
                    3 => s.push('}'),
                    4 => s.push('['),
                    5 => s.push(']'),
                    6 => s.push(':'),
                    7 => s.push(','),
                    _ => s.push_str(*g.pick(&["null", "true", "false"])),
                }
            }
            gens::ws(g, style, &mut s);
            let mut b = s.into_bytes();
            if g.chance(1, 4) {
                gens::mutate(g, &mut b);
            }
            b
        }
    }
}

/// After `nth` the tokenizer is where as many calls of `next` bring it.
fn place<'a, const U: bool>(g: &mut Gen<'_>, mut a: Tokenizer<'a, U>, mut b: Tokenizer<'a, U>) -> R {
    for _ in 0..g.below(5) {
        let k = g.below(6);
        let x = a.nth(k);
        let mut y = b.next();
        for _ in 0..k {
            if y.is_none() {
                break;
            }
            y = b.next();
        }
        check!(x == y, "nth({k}) gives {x:?} where next gives {y:?}");
        same!(a.offset(), b.offset(), "offset after nth({k})");
    }
    Ok(())
}

pub(super) fn case(g: &mut Gen<'_>, ctx: &mut Ctx, b: &[u8]) -> R {
    let p = plan(b);
    ctx.label_if(p.bad.is_some(), "malformed lexeme");
    ctx.label_if(p.bad.as_ref().is_some_and(|f| f.eof), "unfinished lexeme");
    if p.toks.len() >= 3 {
        ctx.nontrivial(b);
    }
    let bytes = drive(g, Tokenizer::for_json_bytes(b), b, &p).map_err(|e| crate::engine::Fail {
        msg: format!("for_json_bytes: {} [{}]", e.msg, show_bytes(b)),
    })?;
    if let Ok(s) = std::str::from_utf8(b) {
        let text = drive(g, Tokenizer::for_json(s), b, &p).map_err(|e| crate::engine::Fail {
            msg: format!("for_json: {} [{}]", e.msg, show_bytes(b)),
        })?;
        same!(text, bytes, "tokens of the text and of its bytes");
        // through the iterator adaptors
        let n = Tokenizer::for_json(s).take_while(|r| r.is_ok()).count();
        same!(n, p.toks.len(), "tokens before the first error");
        let all: Vec<_> = Tokenizer::for_json(s).collect();
        adaptors(g, Tokenizer::for_json(s), &all, "tokens of the text")?;
        place(g, Tokenizer::for_json(s), Tokenizer::for_json(s))?;
        let collected: Result<Vec<Token<'_>>, Error> = Tokenizer::for_json(s).collect();
        same!(collected.is_ok(), p.bad.is_none(), "collecting all tokens");
    }
    let n = Tokenizer::for_json_bytes(b).take_while(|r| r.is_ok()).count();
    same!(n, p.toks.len(), "tokens of the bytes before the first error");
    let all: Vec<_> = Tokenizer::for_json_bytes(b).collect();
    adaptors(g, Tokenizer::for_json_bytes(b), &all, "tokens of the bytes")?;
    place(g, Tokenizer::for_json_bytes(b), Tokenizer::for_json_bytes(b))
}

fn c14_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let b = source(g);
    ctx.describe(|| show_bytes(&b));
    case(g, ctx, &b)
}

const WORDS: [&str; 16] = [
    "{", "]", ",", ":", "\"\"", "\"\\u00E9\"", "1", "0", "-", ".", "e", "true", "nul", "l", " ", "\"",
];
fn c14_words(i: u64, ctx: &mut Ctx) -> R {
    let mut b = Vec::new();
    word(i, &WORDS, &mut b);
    ctx.describe(|| show_bytes(&b));
    // the driving style varies with the case
    let choices: Vec<u64> = (0..24).map(|k| i.wrapping_mul(0x9E37_79B9).rotate_left(k * 5) % 3).collect();
    let mut g = Gen::replay(&choices);
    case(&mut g, ctx, &b)
}

/// Every two-byte source.
fn c14_bytes(i: u64, ctx: &mut Ctx) -> R {
    let b = [(i >> 8) as u8, i as u8];
    ctx.describe(|| show_bytes(&b));
    let choices = [i % 3, 1];
    let mut g = Gen::replay(&choices);
    case(&mut g, ctx, &b)
}

pub fn c14() -> Vec<Target> {
    vec![
        rnd(
            "c14.any",
            c14_any,
            800_000,
            8_000_000,
            "lexeme sequences and arbitrary bytes, driven by next/next_or_eof with and without peeks; non-trivial: \
             at least 3 good lexemes",
        ),
        all(
            "c14.words",
            c14_words,
            words(16, 4),
            words(16, 5),
            "every sequence of up to 4 (thorough: 5) fragments; non-trivial: at least 3 good lexemes",
        ),
        all("c14.bytes", c14_bytes, 65536, 65536, "every source of two bytes"),
    ]
}
