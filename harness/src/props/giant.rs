//! Texts of more than 2^32 bytes.
//!
//! A count kept in too few bits goes unnoticed until a text is that long. Such
//! a text fits into little memory when the same page is mapped again and
//! again: a text here is a head, one part repeated (by mapping), and a tail.

use super::all;
use crate::engine::{fail, Ctx, Target, R};
use crate::{check, same};
use justjson::parser::{JsonKind, Parser, Token, Tokenizer};
use justjson::{ErrorKind, JsonNumber, JsonString, Value};
use std::cmp::Ordering;
use std::collections::HashSet;
use std::sync::Mutex;

const BLOCK: usize = 2 << 20;
const FOUR: usize = 1 << 32;

/// Address space lent to the mappings that exist now.
static LENT: Mutex<u64> = Mutex::new(0);

fn lend(bytes: u64, back: bool) {
    let mut lent = LENT.lock().unwrap_or_else(|e| e.into_inner());
    unsafe {
        let mut l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::getrlimit(libc::RLIMIT_AS, &mut l);
        if l.rlim_cur != libc::RLIM_INFINITY {
            if back {
                l.rlim_cur -= bytes;
                *lent -= bytes;
            } else {
                l.rlim_cur += bytes;
                *lent += bytes;
            }
            libc::setrlimit(libc::RLIMIT_AS, &l);
        }
    }
}

struct Giant {
    base: usize,
    room: usize,
    start: usize,
    len: usize,
}

impl Giant {
    /// `head`, `unit` repeated until it fills `mid` bytes, `tail`; none where
    /// the system does not map pages like that.
    fn new(head: &str, unit: &str, mid: usize, tail: &str) -> Option<Giant> {
        assert!(BLOCK % unit.len() == 0 && mid % unit.len() == 0 && head.len() < BLOCK && tail.len() < BLOCK);
        let blocks = mid / BLOCK;
        let room = BLOCK * (blocks + 3);
        lend(room as u64, false);
        unsafe {
            let base = libc::mmap(
                std::ptr::null_mut(),
                room,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
                -1,
                0,
            );
            if base == libc::MAP_FAILED {
                lend(room as u64, true);
                return None;
            }
            let base = base as usize;
            let mut g = Giant { base, room, start: 0, len: 0 };
            let fd = libc::memfd_create(c"giant".as_ptr(), 0);
            if fd < 0 {
                return None;
            }
            let page = unit.repeat(BLOCK / unit.len());
            let mut done = 0;
            while done < BLOCK {
                let n = libc::write(fd, page.as_ptr().add(done).cast(), BLOCK - done);
                if n <= 0 {
                    libc::close(fd);
                    return None;
                }
                done += n as usize;
            }
            let mut fine = true;
            for i in 0..blocks {
                let at = base + BLOCK * (2 + i);
                let p = libc::mmap(
                    at as *mut _,
                    BLOCK,
                    libc::PROT_READ,
                    libc::MAP_SHARED | libc::MAP_FIXED | libc::MAP_POPULATE,
                    fd,
                    0,
                );
                fine &= p as usize == at;
            }
            libc::close(fd);
            if !fine {
                return None;
            }
            let before = format!("{head}{}", unit.repeat(mid % BLOCK / unit.len()));
            g.start = base + 2 * BLOCK - before.len();
            std::ptr::copy_nonoverlapping(before.as_ptr(), g.start as *mut u8, before.len());
            std::ptr::copy_nonoverlapping(tail.as_ptr(), (base + (2 + blocks) * BLOCK) as *mut u8, tail.len());
            g.len = head.len() + mid + tail.len();
            Some(g)
        }
    }
    fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.start as *const u8, self.len) }
    }
    fn text(&self) -> &str {
        unsafe { std::str::from_utf8_unchecked(self.bytes()) }
    }
}

impl Drop for Giant {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.base as *mut _, self.room) };
        lend(self.room as u64, true);
    }
}

/// Cases that held; they are not run again to describe them.
static HELD: Mutex<Option<HashSet<(&'static str, u64)>>> = Mutex::new(None);

/// Runs `f` on the text once.
fn once(
    id: &'static str,
    i: u64,
    ctx: &mut Ctx,
    (head, unit, mid, tail): (&str, &str, usize, &str),
    f: impl FnOnce(&Giant) -> R,
) -> R {
    ctx.nontrivial(format!("{id}{i}").as_bytes());
    ctx.describe(|| format!("{head:?}, then {unit:?} repeated to {mid} bytes, then {tail:?}"));
    if HELD.lock().unwrap().get_or_insert_with(HashSet::new).contains(&(id, i)) {
        return Ok(());
    }
    let Some(g) = Giant::new(head, unit, mid, tail) else {
        ctx.label("no such mapping here");
        return Ok(());
    };
    ctx.label("more than 2^32 bytes");
    f(&g)?;
    HELD.lock().unwrap().get_or_insert_with(HashSet::new).insert((id, i));
    Ok(())
}

/// Without the millions of characters it may contain.
fn kind<T, E: std::fmt::Debug>(r: &Result<T, justjson::Error<E>>) -> Result<(), (String, usize)> {
    match r {
        Ok(_) => Ok(()),
        Err(e) => Err((format!("{:?}", e.kind()), e.offset())),
    }
}

fn c01(i: u64, ctx: &mut Ctx) -> R {
    let shapes = [
        (("\"", "a", FOUR + 7, "\""), Some(JsonKind::String)),
        (("[\"", "\u{e9}", FOUR + 2, "\"]"), Some(JsonKind::Array)),
        (("", " ", FOUR + 1, "{}"), Some(JsonKind::Object)),
        (("-", "1", FOUR, ".5"), Some(JsonKind::Number)),
        (("[\"", "a", FOUR + 1, "\u{1}\"]"), None),
        (("[", "\n", FOUR + 3, ""), None),
        (("{\"a\":0.", "0", FOUR, "e}"), None),
        (("\"", "a", FOUR, "\\u00g0\""), None),
    ];
    let (t, want) = shapes[i as usize];
    once("c01", i, ctx, t, |g| {
        // one of the two is enough for each
        let r = if i % 2 == 0 { Parser::validate_json(g.text()) } else { Parser::validate_json_bytes(g.bytes()) };
        match (&r, want) {
            (Ok(k), Some(w)) => same!(*k, w, "kind of a giant text"),
            (Err(_), None) => {}
            (Ok(k), None) => return fail(format!("a giant text with a fault at its end was accepted as {k:?}")),
            (Err(e), Some(_)) => return fail(format!("a giant valid text was refused: {e:?}")),
        }
        Ok(())
    })
}

fn c05(i: u64, ctx: &mut Ctx) -> R {
    let (head, mid, tail) = [("\"", FOUR + 5, "\""), ("\"\\n", FOUR, "\""), ("\"", FOUR, "\\u20ac\""), ("\"\\ud83d\\ude00", FOUR + 1, "\\/\"")][i as usize];
    let thorough = ctx.thorough;
    let decoded = mid + [0, 1, 3, 5][i as usize];
    once("c05", i, ctx, (head, "a", mid, tail), |g| {
        let s = match JsonString::from_json(g.text()) {
            Ok(s) => s,
            Err(e) => return fail(format!("a giant string was refused: {e:?}")),
        };
        same!(s.decoded_len(), decoded, "decoded length");
        same!(s.as_str().map(str::len), (i == 0).then_some(decoded), "as_str is there without escapes, in full length");
        let first = [Some('a'), Some('\n'), Some('a'), Some('\u{1f600}')][i as usize];
        same!(s.decoded().next(), first, "first character");
        if i > 1 && thorough {
            let (mut n, mut last) = (0, 'x');
            for c in s.decoded() {
                n += 1;
                last = c;
            }
            same!((n, last), [(mid + 1, '\u{20ac}'), (mid + 2, '/')][i as usize - 2], "characters and the last of them");
        }
        Ok(())
    })
}

fn c06(i: u64, ctx: &mut Ctx) -> R {
    let (head, mid, tail) = [("", FOUR + 5, ""), ("\n", FOUR, ""), ("", FOUR, "\u{1}\u{20ac}")][i as usize];
    let thorough = ctx.thorough;
    once("c06", i, ctx, (head, "a", mid, tail), |g| {
        let s = JsonString::from(g.text());
        same!(s.decoded_len(), g.len, "decoded length");
        same!(s.len(), mid + [0, 2, 9][i as usize], "length as JSON");
        check!(!s.is_empty(), "a giant string is said to be empty");
        same!(s.as_str().map(str::len), Some(g.len), "as_str");
        if i == 2 && thorough {
            let mut it = s.as_json();
            let mut n = 0;
            for c in it.by_ref().take(mid) {
                n += usize::from(c == 'a');
            }
            same!(n, mid, "characters before the escape");
            check!(it.eq("\\u0001\u{20ac}".chars()), "the end of a giant string as JSON");
        }
        Ok(())
    })
}

fn c07(i: u64, ctx: &mut Ctx) -> R {
    let t = [("\"\\u0062", "a", FOUR, "\""), ("\"", "a", FOUR, "\\t\""), ("\"b", "a", FOUR, "\"")][i as usize];
    once("c07", i, ctx, t, |g| {
        let Ok(s) = JsonString::from_json(g.text()) else { return fail("a giant string was refused".into()) };
        // the same first characters, and as long modulo any power of two
        let short = ["b", "a", "b"][i as usize];
        let other = ["\"\\u0062\"", "\"\\u0061\"", "\"b\""][i as usize];
        check!(s != *short, "{short:?} equals a string that goes on for 2^32 characters");
        check!(s != JsonString::from(short), "{short:?} equals a string that goes on for 2^32 characters");
        let o = JsonString::from_json(other).unwrap();
        check!(s != o && o != s, "{other} equals a string that goes on for 2^32 characters");
        same!(s.partial_cmp(short), Some(Ordering::Greater), "order of a giant string and its beginning");
        same!(s.cmp(&o), Ordering::Greater, "order of a giant string and its beginning");
        same!(o.cmp(&s), Ordering::Less, "order of the beginning of a giant string and it");
        Ok(())
    })
}

/// Compares what is written with what is expected, keeping nothing.
struct Follow<'t> {
    rest: &'t [u8],
    wrong: bool,
}
impl std::fmt::Write for Follow<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        match self.rest.strip_prefix(s.as_bytes()) {
            Some(r) => self.rest = r,
            None => self.wrong = true,
        }
        if self.wrong { Err(std::fmt::Error) } else { Ok(()) }
    }
}

fn c09(i: u64, ctx: &mut Ctx) -> R {
    let t = [("{\"n\":", "7", FOUR + 1, "}"), ("[\"", "a", FOUR + 9, "\"]"), ("{\"", "a", FOUR, "\\n\":null}")][i as usize];
    once("c09", i, ctx, t, |g| {
        let Ok(v) = Value::from_json(g.text()) else { return fail("a giant text was refused".into()) };
        let mut out = Follow { rest: g.bytes(), wrong: false };
        let r = v.write_json_to(&mut out);
        check!(!out.wrong && r.is_ok() && out.rest.is_empty(), "a giant text is printed otherwise, {} bytes before its end", out.rest.len());
        Ok(())
    })
}

fn c14(i: u64, ctx: &mut Ctx) -> R {
    let t = [("[\"", "a", FOUR + 9, "\", 1]"), ("[1", " ", FOUR, "\"\\n\"]"), ("[", "7", FOUR + 1, "e-1 ,\n\"b\""), ("\"", "\u{e9}", FOUR, "\"-5")][i as usize];
    once("c14", i, ctx, t, |g| {
        let long = t.2;
        type Want = Vec<(&'static str, usize)>;
        let want: Want = match i {
            0 => vec![("[", 1), ("s", long + 3), (",", long + 4), ("n", long + 6), ("]", long + 7)],
            1 => vec![("[", 1), ("n", 2), ("s", long + 6), ("]", long + 7)],
            2 => vec![("[", 1), ("n", long + 4), (",", long + 6), ("s", long + 10)],
            _ => vec![("s", long + 2), ("n", long + 4)],
        };
        fn run<const U: bool>(mut t: Tokenizer<'_, U>, want: &[(&str, usize)]) -> R {
            for (name, at) in want {
                let got = match t.next() {
                    Some(Ok(Token::Array)) => "[",
                    Some(Ok(Token::ArrayEnd)) => "]",
                    Some(Ok(Token::Comma)) => ",",
                    Some(Ok(Token::String(_))) => "s",
                    Some(Ok(Token::Number(_))) => "n",
                    _ => "?",
                };
                same!((got, t.offset()), (*name, *at), "token of a giant text and where it ends");
            }
            check!(t.next().is_none(), "a giant text has more tokens");
            Ok(())
        }
        if i % 2 == 0 { run(Tokenizer::for_json(g.text()), &want) } else { run(Tokenizer::for_json_bytes(g.bytes()), &want) }
    })
}

fn c15(i: u64, ctx: &mut Ctx) -> R {
    let t = [("", "1", FOUR + 2, ""), ("-0.", "0", FOUR, "1"), ("4e-", "0", FOUR, "0")][i as usize];
    once("c15", i, ctx, t, |g| {
        let Ok(n) = JsonNumber::from_json(g.text()) else { return fail("a giant number was refused".into()) };
        same!(n.source().len(), g.len, "length of a giant number");
        check!(n.as_u8().is_none() && n.as_u64().is_none() && n.as_i128().is_none(), "a giant number converts to an integer");
        let want = [f64::INFINITY, -0.0, 4.0][i as usize];
        same!(n.as_f64().map(f64::to_bits), Some(want.to_bits()), "a giant number as f64");
        Ok(())
    })
}

fn c17(i: u64, ctx: &mut Ctx) -> R {
    use ErrorKind as K;
    let (t, want, at): (_, &[K], _) = match i {
        0 => (("[\"", "a", FOUR + 9, ""), &[K::UnclosedString], (0, 0)),
        1 => (("{\"a\":\"", "\u{e9}", FOUR, "\u{1}\"}"), &[K::Unexpected(1)], (3, 3)),
        2 => (("[1", " ", FOUR, "}"), &[K::ExpectedCommaOrEndOfArray], (FOUR + 1, 1)),
        3 => (("{}", "\t", FOUR + 5, "x"), &[K::TrailingNonWhitespace], (1, 1)),
        4 => (("[-", "1", FOUR, ".]"), &[K::ExpectedDecimalDigit], (1, 1)),
        5 => (("[1,", " ", FOUR + 1, ""), &[K::UnclosedArray], (0, 0)),
        6 => (("\"", "a", FOUR, "\\x\""), &[K::InvalidEscape], (3, 2)),
        _ => (("", " ", FOUR + 4, "nul"), &[K::UnexpectedEof], (0, 0)),
    };
    once("c17", i, ctx, t, |g| {
        let r = if i % 2 == 0 { Parser::validate_json(g.text()) } else { Parser::validate_json_bytes(g.bytes()) };
        let Err(e) = r else { return fail("a giant text with a fault was accepted".into()) };
        check!(want.contains(e.kind()), "the fault {e:?} was reported for {want:?}");
        // from the end
        let (lo, hi) = (g.len - at.0, g.len - at.1);
        check!((lo..=hi).contains(&e.offset()), "the fault {:?} was reported at {} and lies at {lo}..={hi}", e.kind(), e.offset());
        check!(e.to_string().contains(&e.offset().to_string()), "the message {:?} does not show {}", e.to_string(), e.offset());
        Ok(())
    })
}

fn c12(i: u64, ctx: &mut Ctx) -> R {
    let t = ("[\"\\n", "a", FOUR + 9, "\"] ]");
    once("c12", i, ctx, t, |g| {
        let a = kind(&Parser::validate_json(g.text()));
        let b = match i {
            0 => kind(&Value::from_json(g.text())),
            1 => kind(&Value::from_json_bytes(g.bytes())),
            2 => kind(&justjson::doc::Document::from_json_bytes(g.bytes())),
            _ => kind(&Parser::validate_json_bytes(g.bytes())),
        };
        same!(a, b, "two ways of reading a giant text");
        Ok(())
    })
}

fn c19(i: u64, ctx: &mut Ctx) -> R {
    let t = [("[\"", "a", FOUR + 9, "\"]"), ("[", "7", FOUR, "]")][i as usize];
    once("c19", i, ctx, t, |g| {
        let (v, c) = crate::alloc::measure(|| Value::from_json_bytes(g.bytes()));
        let Ok(Value::Array(a)) = v else { return fail("a giant text was refused".into()) };
        let part = match &a[..] {
            [Value::String(s)] => s.as_str().unwrap_or_default(),
            [Value::Number(n)] => n.source(),
            _ => return fail("a giant text was read as something else".into()),
        };
        same!((part.as_ptr() as usize - g.start, part.len()), ([2, 1][i as usize], t.2), "where a giant scalar lies, and its length");
        check!(c.bytes < 1 << 20, "reading a giant scalar asked for {} bytes", c.bytes);
        Ok(())
    })
}

pub fn of(id: &str) -> Vec<Target> {
    const RULE: &str = "texts of more than 2^32 bytes; all cases are non-trivial";
    match id {
        "C01" => vec![all("c01.giant", c01, 8, 8, RULE)],
        "C05" => vec![all("c05.giant", c05, 4, 4, RULE)],
        "C06" => vec![all("c06.giant", c06, 3, 3, RULE)],
        "C07" => vec![all("c07.giant", c07, 3, 3, RULE)],
        "C09" => vec![all("c09.giant", c09, 1, 3, RULE)],
        "C12" => vec![all("c12.giant", c12, 2, 4, RULE)],
        "C14" => vec![all("c14.giant", c14, 4, 4, RULE)],
        "C15" => vec![all("c15.giant", c15, 3, 3, RULE)],
        "C17" => vec![all("c17.giant", c17, 8, 8, RULE)],
        "C19" => vec![all("c19.giant", c19, 2, 2, RULE)],
        _ => Vec::new(),
    }
}
