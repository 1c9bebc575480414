//! C15: numeric conversions.

use super::accept::{word, words};
use super::{all, rnd};
use crate::engine::{fail, Ctx, Gen, Target, R};
use crate::gens::{self, MVal};
use crate::{check, same};
use justjson::{JsonNumber, Value};
use std::cmp::Ordering;

// ------------------------------------------------------------ exact numbers

/// A natural number, little-endian base 2^32.
#[derive(Clone, Debug)]
struct Big(Vec<u32>);
impl Big {
    fn from_u128(mut v: u128) -> Big {
        let mut d = Vec::new();
        while v > 0 {
            d.push(v as u32);
            v >>= 32;
        }
        Big(d)
    }
    fn from_digits(s: &[u8]) -> Big {
        let mut b = Big(Vec::new());
        for chunk in s.chunks(9) {
            let mut v = 0u32;
            let mut m = 1u32;
            for c in chunk {
                v = v * 10 + u32::from(c - b'0');
                m *= 10;
            }
            b.mul_add(m, v);
        }
        b
    }
    fn mul_add(&mut self, m: u32, a: u32) {
        let mut carry = u64::from(a);
        for d in &mut self.0 {
            let v = u64::from(*d) * u64::from(m) + carry;
            *d = v as u32;
            carry = v >> 32;
        }
        if carry > 0 {
            self.0.push(carry as u32);
        }
    }
    fn pow10(&mut self, mut n: usize) {
        while n >= 9 {
            self.mul_add(1_000_000_000, 0);
            n -= 9;
        }
        for _ in 0..n {
            self.mul_add(10, 0);
        }
    }
    fn pow2(&mut self, n: usize) {
        let (words, bits) = (n / 32, n % 32);
        if self.0.is_empty() {
            return;
        }
        if bits > 0 {
            self.mul_add(1 << bits, 0);
        }
        let mut v = vec![0; words];
        v.append(&mut self.0);
        self.0 = v;
    }
    fn cmp(&self, o: &Big) -> Ordering {
        let trim = |v: &[u32]| v.iter().rposition(|x| *x != 0).map_or(0, |p| p + 1);
        let (a, b) = (trim(&self.0), trim(&o.0));
        a.cmp(&b).then_with(|| self.0[..a].iter().rev().cmp(o.0[..b].iter().rev()))
    }
    /// Decimal digits.
    fn digits(mut self) -> Vec<u8> {
        let mut out = Vec::new();
        while self.0.iter().any(|d| *d != 0) {
            let mut rem = 0u64;
            for d in self.0.iter_mut().rev() {
                let v = rem << 32 | u64::from(*d);
                *d = (v / 10) as u32;
                rem = v % 10;
            }
            out.push(b'0' + rem as u8);
            while self.0.last() == Some(&0) {
                self.0.pop();
            }
        }
        if out.is_empty() {
            out.push(b'0');
        }
        out.reverse();
        out
    }
}

/// sign, digits without leading zeros, power of ten
struct Dec {
    neg: bool,
    digits: Vec<u8>,
    exp: i64,
    plain_integer: bool,
}

fn dec(s: &str) -> Dec {
    let neg = s.starts_with('-');
    let s = s.strip_prefix('-').unwrap_or(s);
    let (mant, exp) = match s.find(['e', 'E']) {
        Some(i) => (&s[..i], Some(&s[i + 1..])),
        None => (s, None),
    };
    let (int, frac) = match mant.find('.') {
        Some(i) => (&mant[..i], Some(&mant[i + 1..])),
        None => (mant, None),
    };
    let mut digits: Vec<u8> = int.bytes().chain(frac.unwrap_or("").bytes()).collect();
    let mut e: i64 = match exp {
        None => 0,
        Some(t) => {
            let neg = t.starts_with('-');
            let t = t.trim_start_matches(['-', '+']);
            let mut v: i64 = 0;
            for c in t.bytes() {
                v = (v * 10 + i64::from(c - b'0')).min(1_000_000_000);
            }
            if neg {
                -v
            } else {
                v
            }
        }
    };
    e -= frac.map_or(0, |f| f.len()) as i64;
    let lead = digits.iter().position(|d| *d != b'0').unwrap_or(digits.len());
    digits.drain(..lead);
    Dec { neg, digits, exp: e, plain_integer: exp.is_none() && frac.is_none() }
}

/// Compares digits * 10^exp with a * 2^k.
fn compare(d: &Dec, a: u128, k: i64) -> Ordering {
    let mut l = Big::from_digits(&d.digits);
    let mut r = Big::from_u128(a);
    if d.exp >= 0 {
        l.pow10(d.exp as usize);
    } else {
        r.pow10((-d.exp) as usize);
    }
    if k >= 0 {
        r.pow2(k as usize);
    } else {
        l.pow2((-k) as usize);
    }
    l.cmp(&r)
}

/// A binary format: precision, exponent of the smallest subnormal, largest
/// exponent of the unit in the last place.
struct Format {
    bits: u32,
    emin: i64,
    emax: i64,
}
const F64: Format = Format { bits: 53, emin: -1074, emax: 971 };
const F32: Format = Format { bits: 24, emin: -149, emax: 104 };

/// Is m * 2^e (None: infinity) the number nearest to the magnitude, ties to
/// even?
fn nearest(d: &Dec, f: &Format, got: Option<(u64, i64)>) -> bool {
    if d.digits.is_empty() {
        return matches!(got, Some((0, _)));
    }
    // place of the leading digit: far outside the range needs no arithmetic
    let lead = d.digits.len() as i64 + d.exp;
    if lead > 400 {
        return got.is_none();
    }
    if lead < -400 {
        return matches!(got, Some((0, _)));
    }
    let top = (1u64 << f.bits) - 1;
    match got {
        None => compare(d, u128::from(top) * 2 + 1, f.emax - 1) != Ordering::Less,
        Some((0, _)) => compare(d, 1, f.emin - 1) != Ordering::Greater,
        Some((m, e)) => {
            let even = m % 2 == 0;
            let inside = |o: Ordering, outer: Ordering| o != outer && (even || o != Ordering::Equal);
            let upper = compare(d, u128::from(m) * 2 + 1, e - 1);
            if !inside(upper, Ordering::Greater) {
                return false;
            }
            let lower = if m == 1 << (f.bits - 1) && e > f.emin {
                compare(d, u128::from(m) * 4 - 1, e - 2)
            } else {
                compare(d, u128::from(m) * 2 - 1, e - 1)
            };
            inside(lower, Ordering::Less)
        }
    }
}

fn split64(v: f64) -> Option<(u64, i64)> {
    let b = v.to_bits() & !(1 << 63);
    let (e, m) = ((b >> 52) as i64, b & ((1 << 52) - 1));
    match e {
        2047 => None,
        0 => Some((m, -1074)),
        _ => Some((m | 1 << 52, e - 1075)),
    }
}
fn split32(v: f32) -> Option<(u64, i64)> {
    let b = v.to_bits() & !(1 << 31);
    let (e, m) = ((b >> 23) as i64, u64::from(b & ((1 << 23) - 1)));
    match e {
        255 => None,
        0 => Some((m, -149)),
        _ => Some((m | 1 << 23, e - 150)),
    }
}

// ---------------------------------------------------------------- the check

/// The value of a plain integer, as sign and magnitude, if it fits 128 bits.
fn integer(d: &Dec) -> Option<(bool, u128)> {
    if !d.plain_integer {
        return None;
    }
    let mut v: u128 = 0;
    for c in &d.digits {
        v = v.checked_mul(10)?.checked_add(u128::from(c - b'0'))?;
    }
    Some((d.neg, v))
}
fn unsigned(d: &Dec, max: u128) -> Option<u128> {
    match integer(d) {
        Some((false, v)) if v <= max => Some(v),
        _ => None,
    }
}
fn signed(d: &Dec, max: u128) -> Option<i128> {
    match integer(d) {
        Some((false, v)) if v <= max => Some(v as i128),
        Some((true, v)) if v <= max + 1 => Some((v as i128).wrapping_neg()),
        _ => None,
    }
}

fn conversions(n: &JsonNumber<'_>, v: &Value<'_>, s: &str, ctx: &mut Ctx) -> R {
    let d = dec(s);
    let mut fit = 0;
    macro_rules! ints {
        ($sign:ident $($f:ident $t:ident)*) => {$(
            let want = $sign(&d, $t::MAX as u128);
            fit += usize::from(want.is_some());
            same!(n.$f().map(|x| x as _), want, "JsonNumber({s}).{}()", stringify!($f));
            same!(v.$f().map(|x| x as _), want, "Value({s}).{}()", stringify!($f));
            same!(n.parse::<$t>().ok().map(|x| x as _), want, "JsonNumber({s}).parse::<{}>()", stringify!($t));
        )*};
    }
    ints!(unsigned as_u8 u8 as_u16 u16 as_u32 u32 as_u64 u64 as_u128 u128 as_usize usize);
    ints!(signed as_i8 i8 as_i16 i16 as_i32 i32 as_i64 i64 as_i128 i128 as_isize isize);
    ctx.label(match (d.plain_integer, fit) {
        (false, _) => "fraction or exponent",
        (true, 0) => "integer beyond 128 bits",
        (true, 12) => "fits all",
        (true, _) => "fits some",
    });
    same!(n.source(), s, "source");
    same!(n.parse::<String>().ok().as_deref(), Some(s), "parse::<String>()");

    let Some(f) = n.as_f64() else { return fail(format!("as_f64 of {s} is None")) };
    check!(!f.is_nan(), "as_f64 of {s} is NaN");
    check!(
        nearest(&d, &F64, split64(f)),
        "as_f64 of {s} is {f:e} ({:#x}), which is not the nearest",
        f.to_bits()
    );
    same!(f.is_sign_negative(), d.neg, "sign of as_f64 of {s}");
    same!(v.as_f64().map(f64::to_bits), Some(f.to_bits()), "Value({s}).as_f64()");
    let Some(f) = n.as_f32() else { return fail(format!("as_f32 of {s} is None")) };
    check!(!f.is_nan(), "as_f32 of {s} is NaN");
    check!(
        nearest(&d, &F32, split32(f)),
        "as_f32 of {s} is {f:e} ({:#x}), which is not the nearest",
        f.to_bits()
    );
    same!(f.is_sign_negative(), d.neg, "sign of as_f32 of {s}");
    same!(v.as_f32().map(f32::to_bits), Some(f.to_bits()), "Value({s}).as_f32()");
    Ok(())
}

fn nothing(v: &Value<'_>) -> R {
    macro_rules! none {
        ($($f:ident)*) => {$(
            check!(v.$f().is_none(), "{}() of {v:?} is {:?}", stringify!($f), v.$f());
        )*};
    }
    none!(as_u8 as_u16 as_u32 as_u64 as_u128 as_usize as_i8 as_i16 as_i32 as_i64 as_i128 as_isize as_f32 as_f64 as_number);
    Ok(())
}

pub(super) fn number_case(s: &str, how: usize, ctx: &mut Ctx) -> R {
    // the same number along different ways in
    let text = match how {
        0 => s.to_string(),
        1 => format!(" {s}\n"),
        2 => format!("[{s}]"),
        _ => format!("{{\"n\":{s}}}"),
    };
    let err = |e: justjson::Error| crate::engine::Fail { msg: format!("{text} rejected: {e:?}") };
    if how < 2 {
        let n = JsonNumber::from_json(&text).map_err(err)?;
        let v = if how == 0 {
            Value::from_json(&text).map_err(err)?
        } else {
            Value::from_json_bytes(text.as_bytes()).map_err(err)?
        };
        conversions(&n, &v, s, ctx)
    } else {
        let v = Value::from_json(&text).map_err(err)?;
        let v = match how {
            2 => v.get_index(0),
            _ => v.get("n"),
        };
        let Some(v) = v else { return fail(format!("no number found in {text}")) };
        let Some(n) = v.as_number() else { return fail(format!("{v:?} is no number")) };
        conversions(n, v, s, ctx)
    }
}

// --------------------------------------------------------------- generators

fn dec_string(v: u128) -> String {
    String::from_utf8(Big::from_u128(v).digits()).unwrap()
}

fn near_bound(g: &mut Gen<'_>) -> String {
    let bits = *g.pick(&[7u32, 8, 15, 16, 31, 32, 63, 64, 127, 128, 24, 53]);
    let base: u128 = if bits == 128 { u128::MAX } else { (1u128 << bits) - 1 };
    let delta = g.below(5) as u128;
    let v = if g.bool() { base.saturating_add(delta) } else { base - delta };
    let mut s = dec_string(v);
    if bits == 128 && g.bool() {
        // just above 2^128 - 1
        s = format!("34028236692093846346337460743176821145{}", g.range(5, 9));
    }
    if g.chance(1, 8) {
        s.push((b'0' + g.below(10) as u8) as char);
    }
    if g.bool() {
        s.insert(0, '-');
    }
    match g.below(8) {
        0 => s.push_str(".0"),
        1 => s.push_str("e0"),
        2 => s.push_str("E+0"),
        3 => s.push_str(".5"),
        _ => {}
    }
    s
}

/// Writes digits * 10^exp in some JSON spelling.
fn write_decimal(g: &mut Gen<'_>, digits: &[u8], exp: i64) -> String {
    let mut d = String::from_utf8(digits.to_vec()).unwrap();
    let mut exp = exp;
    // the same value with more digits
    for _ in 0..g.below(3) {
        d.push('0');
        exp -= 1;
    }
    let plain_ok = (-1200..=1200).contains(&exp);
    match if plain_ok { g.below(3) } else { 1 + g.below(2) } {
        0 if exp >= 0 => {
            d.push_str(&"0".repeat(exp as usize));
            d
        }
        0 => {
            let k = (-exp) as usize;
            if d.len() <= k {
                d = format!("{}{d}", "0".repeat(k + 1 - d.len()));
            }
            let at = d.len() - k;
            format!("{}.{}", &d[..at], &d[at..])
        }
        1 => {
            let e = if g.bool() { 'e' } else { 'E' };
            if exp >= 0 && g.bool() {
                format!("{d}{e}+{exp}")
            } else {
                format!("{d}{e}{exp}")
            }
        }
        _ => {
            if d.len() < 2 {
                return format!("{d}e{exp}");
            }
            let at = g.range(1, d.len() - 1);
            let e = exp + (d.len() - at) as i64;
            format!("{}.{}e{e}", &d[..at], &d[at..])
        }
    }
}

/// A decimal on, just below or just above the middle of two neighbouring
/// floats, or on a float.
fn midpoint(g: &mut Gen<'_>) -> String {
    let f = if g.bool() { F64 } else { F32 };
    let m: u64 = match g.below(4) {
        0 => 1 << (f.bits - 1),
        1 => (1 << f.bits) - 1,
        2 => g.upto((1 << f.bits) - 1).max(1),
        _ => (1 << (f.bits - 1)) | g.upto((1 << (f.bits - 1)) - 1),
    };
    let e = match g.below(6) {
        0 => f.emin,
        1 => f.emax,
        2 => f.emin + g.below(4) as i64,
        3 => 1 - i64::from(f.bits) + g.below(6) as i64,
        4 => f.emin + g.upto((f.emax - f.emin) as u64) as i64,
        _ => -(g.below(80) as i64),
    };
    // the middle of m and m + 1 (or m itself), as a * 2^k
    let (a, k) = if g.chance(1, 4) { (u128::from(m), e) } else { (u128::from(m) * 2 + 1, e - 1) };
    let mut b = Big::from_u128(a);
    let exp;
    if k >= 0 {
        b.pow2(k as usize);
        exp = 0;
    } else {
        // a / 2^n = a * 5^n / 10^n
        for _ in 0..-k {
            b.mul_add(5, 0);
        }
        exp = k;
    }
    let mut digits = b.digits();
    let mut exp = exp;
    match g.below(3) {
        0 => {}
        1 => {
            // a little above
            let zeros = g.below(20);
            digits.extend(std::iter::repeat(b'0').take(zeros));
            digits.push(b'1');
            exp -= zeros as i64 + 1;
        }
        _ => {
            // a little below
            let nines = 1 + g.below(20);
            let mut i = digits.len();
            loop {
                i -= 1;
                if digits[i] == b'0' {
                    digits[i] = b'9';
                } else {
                    digits[i] -= 1;
                    break;
                }
            }
            digits.extend(std::iter::repeat(b'9').take(nines));
            exp -= nines as i64;
            let lead = digits.iter().position(|d| *d != b'0').unwrap_or(digits.len() - 1);
            digits.drain(..lead);
        }
    }
    let mut s = write_decimal(g, &digits, exp);
    if g.bool() {
        s.insert(0, '-');
    }
    s
}

fn c15_any(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let s = match g.below(4) {
        0 => near_bound(g),
        1 => {
            let n = g.range(1, 45);
            let d = gens::digits(g, n, true);
            if g.bool() {
                format!("-{d}")
            } else {
                d
            }
        }
        _ => gens::number(g),
    };
    let how = g.below(4);
    ctx.describe(|| s.clone());
    if s.len() > 2 {
        ctx.nontrivial(s.as_bytes());
    }
    number_case(&s, how, ctx)
}

fn c15_float(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let s = match g.below(8) {
        0 => {
            // exponents far outside
            let d = gens::number(g);
            let d = d.split(['e', 'E']).next().unwrap().to_string();
            format!("{d}e{}{}", if g.bool() { "-" } else { "" }, g.range(290, 420))
        }
        1 => {
            let d = gens::number(g);
            let d = d.split(['e', 'E']).next().unwrap().to_string();
            format!("{d}E{}{}", if g.bool() { "-" } else { "+" }, *g.pick(&[999usize, 99_999, 2_147_483_647, 2_147_483_648, 4_294_967_296, 999_999_999_999]))
        }
        2 => {
            // floats as Rust prints them
            let bits = g.upto(u64::MAX);
            let f = f64::from_bits(bits);
            if f.is_finite() {
                format!("{f:e}")
            } else {
                String::from("0")
            }
        }
        _ => midpoint(g),
    };
    let how = g.below(4);
    ctx.describe(|| s.clone());
    if s.len() > 3 {
        ctx.nontrivial(s.as_bytes());
    }
    number_case(&s, how, ctx)
}

fn c15_other(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let v = gens::value(g, 5);
    let v = if g.bool() {
        // a string that looks like a number
        let n = gens::number(g);
        MVal::Str(gens::spell(g, &n, g_style(n.len())))
    } else {
        v
    };
    let style = gens::ws_style(g);
    let (t, _) = gens::emit(g, &v, style, false);
    ctx.describe(|| t.s.clone());
    ctx.nontrivial(t.s.as_bytes());
    let parsed = Value::from_json(&t.s).map_err(|e| crate::engine::Fail { msg: format!("rejected: {e:?}") })?;
    fn go(v: &Value<'_>) -> R {
        match v {
            Value::Number(_) => {}
            _ => nothing(v)?,
        }
        if let Value::Array(a) = v {
            a.iter().try_for_each(go)?;
        }
        if let Value::Object(o) = v {
            o.iter().try_for_each(|e| go(&e.value))?;
        }
        Ok(())
    }
    go(&parsed)?;
    for v in [Value::from(true), Value::from(false), Value::Null, Value::from("1"), Value::from(String::from("12"))] {
        nothing(&v)?;
    }
    Ok(())
}
fn g_style(n: usize) -> usize {
    n % 4
}

/// Every integer from -70000 to 70000 and, beyond, around each type's bounds.
fn c15_integers(i: u64, ctx: &mut Ctx) -> R {
    let s = if i <= 140_000 {
        (i as i64 - 70_000).to_string()
    } else {
        let i = i - 140_001;
        let (neg, i) = (i % 2 == 1, i / 2);
        let (bits, off) = ((i / 41) as u32 + 5, (i % 41) as u128);
        let base: u128 = if bits == 128 { u128::MAX } else { 1u128 << bits };
        let v = (base - 20).saturating_add(off);
        format!("{}{}", if neg { "-" } else { "" }, dec_string(v))
    };
    ctx.describe(|| s.clone());
    ctx.nontrivial(s.as_bytes());
    number_case(&s, (i % 4) as usize, ctx)
}

/// Every number over a small alphabet.
const SYMS: [&str; 8] = ["0", "1", "9", "-", ".", "e", "+", "5"];
fn c15_words(i: u64, ctx: &mut Ctx) -> R {
    let mut b = Vec::new();
    word(i, &SYMS, &mut b);
    let s = String::from_utf8(b).unwrap();
    if !crate::refjson::accepts(s.as_bytes(), crate::refjson::Config::DEFAULT) {
        return Ok(());
    }
    ctx.describe(|| s.clone());
    ctx.nontrivial(s.as_bytes());
    number_case(&s, (i % 4) as usize, ctx)
}

/// Every power of two (and its middle neighbours) of both formats, every power
/// of ten.
fn c15_powers(i: u64, ctx: &mut Ctx) -> R {
    let s = if i < 700 {
        format!("1e{}", i as i64 - 350)
    } else {
        let i = i - 700;
        let k = (i / 3) as i64 - 1080;
        let mut b = Big::from_u128(match i % 3 {
            0 => 1,
            1 => 3,
            _ => (1 << 54) - 1,
        });
        let k = if i % 3 == 2 { k - 54 } else { k };
        let mut exp = 0;
        if k >= 0 {
            b.pow2(k as usize);
        } else {
            for _ in 0..-k {
                b.mul_add(5, 0);
            }
            exp = k;
        }
        format!("{}e{exp}", String::from_utf8(b.digits()).unwrap())
    };
    ctx.describe(|| s.clone());
    ctx.nontrivial(s.as_bytes());
    number_case(&s, (i % 4) as usize, ctx)
}

pub fn c15() -> Vec<Target> {
    vec![
        rnd(
            "c15.any",
            c15_any,
            800_000,
            8_000_000,
            "number spellings around all type bounds; non-trivial: more than two characters",
        ),
        rnd(
            "c15.float",
            c15_float,
            150_000,
            2_000_000,
            "decimals on and beside the middles of neighbouring floats, extreme exponents; non-trivial: more than \
             three characters",
        ),
        rnd("c15.other", c15_other, 100_000, 1_000_000, "values that are not numbers, number-like strings"),
        all(
            "c15.integers",
            c15_integers,
            140_001 + 2 * 41 * 124,
            140_001 + 2 * 41 * 124,
            "every integer from -70000 to 70000 and within 20 of every power of two up to 2^128",
        ),
        all(
            "c15.words",
            c15_words,
            words(8, 6),
            words(8, 7),
            "every number of up to 6 (thorough: 7) symbols",
        ),
        all("c15.powers", c15_powers, 700 + 3 * 2110, 700 + 3 * 2110, "powers of ten and two over the float ranges"),
    ]
}
