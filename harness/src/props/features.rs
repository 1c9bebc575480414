//! C20: every feature set behaves the same.

use super::{all, rnd};
use crate::common::*;
use crate::engine::{fail, show_bytes, Ctx, Gen, Target, R};
use crate::gens::{self, MVal};
use crate::check;
use std::ffi::CString;
use std::path::PathBuf;
use std::sync::OnceLock;

/// Name and the parts it must have: 1 alloc, 2 heapless, 4 std, 8 debug checks.
const VARIANTS: [(&str, u32); 8] = [
    ("std", 5),
    ("none", 0),
    ("alloc", 1),
    ("none_heapless", 2),
    ("alloc_heapless", 3),
    ("std_heapless", 7),
    ("std_checked", 13),
    ("none_checked", 8),
];

type Parts = unsafe extern "C" fn() -> u32;
type Run = unsafe extern "C" fn(
    u32,
    u32,
    *const u8,
    usize,
    *const u8,
    usize,
    u64,
    *mut *const u8,
    *mut usize,
) -> bool;

struct Variant {
    name: &'static str,
    run: Run,
}

fn dir() -> PathBuf {
    let target = std::env::var_os("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|| {
        PathBuf::from(std::env::var_os("JJ_ROOT").unwrap_or_else(|| "/verif".into())).join("target")
    });
    target.join("variants")
}

fn load(name: &'static str, parts: u32) -> Result<Variant, String> {
    let d = dir().join(name);
    if !d.join("ok").exists() {
        return Err("not built".into());
    }
    let path = CString::new(d.join("lib.so").to_str().unwrap_or("")).map_err(|e| e.to_string())?;
    // SAFETY: the library was built from /verif/variant and exports these.
    unsafe {
        let h = libc::dlopen(path.as_ptr(), libc::RTLD_NOW | libc::RTLD_LOCAL);
        if h.is_null() {
            return Err(format!("dlopen {path:?} failed"));
        }
        let p = libc::dlsym(h, c"jj_parts".as_ptr());
        let r = libc::dlsym(h, c"jj_run".as_ptr());
        if p.is_null() || r.is_null() {
            return Err(format!("{path:?} lacks its functions"));
        }
        let p: Parts = std::mem::transmute(p);
        let r: Run = std::mem::transmute(r);
        if p() != parts {
            return Err(format!("{name} was built with parts {} instead of {parts}", p()));
        }
        Ok(Variant { name, run: r })
    }
}

fn variants() -> Result<&'static [Variant], crate::engine::Fail> {
    static ALL: OnceLock<Result<Vec<Variant>, String>> = OnceLock::new();
    let all = ALL.get_or_init(|| {
        let mut v = Vec::new();
        for (name, parts) in VARIANTS {
            match load(name, parts) {
                Ok(x) => v.push(x),
                // reported by c20.builds
                Err(e) if e == "not built" => {}
                Err(e) => return Err(e),
            }
        }
        Ok(v)
    });
    match all {
        Ok(v) => Ok(v),
        Err(e) => fail(format!("HARNESS: {e}")),
    }
}

fn builds(i: u64, ctx: &mut Ctx) -> R {
    let name = match i.checked_sub(VARIANTS.len() as u64) {
        None => VARIANTS[i as usize].0,
        Some(i) => NARROW[i as usize].0,
    };
    ctx.nontrivial(name.as_bytes());
    ctx.describe(|| name.to_string());
    if !dir().join(name).join("ok").exists() {
        let log = std::fs::read_to_string(dir().join(name).join("build.log")).unwrap_or_default();
        let errors: Vec<&str> = log.lines().filter(|l| l.starts_with("error")).take(3).collect();
        check!(
            !errors.iter().any(|e| e.starts_with("error[E") || e.contains("could not compile")),
            "the crate does not build as {name}: {}",
            errors.join("; ")
        );
        if dir().join(name).join("no-tools").exists() {
            ctx.label("the tools to build it are missing");
            return Ok(());
        }
        return fail(format!("HARNESS: building {name} failed: {log}"));
    }
    Ok(())
}

fn run(v: &Variant, mode: u32, part: u32, a: &[u8], b: &[u8], bits: u64) -> Option<&'static [u8]> {
    let mut out = std::ptr::null();
    let mut len = 0;
    // SAFETY: see load; the text is only used before the next call to this
    // variant on this thread.
    unsafe {
        (v.run)(mode, part, a.as_ptr(), a.len(), b.as_ptr(), b.len(), bits, &mut out, &mut len)
            .then(|| std::slice::from_raw_parts(out, len))
    }
}

fn difference(a: &[u8], b: &[u8]) -> String {
    let i = a.iter().zip(b).take_while(|(x, y)| x == y).count();
    let lo = i.saturating_sub(30);
    let show = |t: &[u8]| String::from_utf8_lossy(&t[lo.min(t.len())..(i + 60).min(t.len())]).into_owned();
    format!("...{:?} and ...{:?}", show(a), show(b))
}

/// Runs every variant and compares.
fn compare(mode: u32, a: &[u8], b: &[u8], bits: u64) -> R {
    for part in 0..3 {
        let mut first: Option<(&str, &[u8])> = None;
        for v in variants()? {
            let Some(t) = run(v, mode, part, a, b, bits) else { continue };
            if part == 2 && mode == 0 {
                check!(
                    t.ends_with(b"same=true") || t.windows(6).any(|w| w == b"PANIC "),
                    "{}: HeaplessDocument differs from a document in another collection of the same capacity: {}",
                    v.name,
                    show_bytes(a)
                );
            }
            match first {
                None => first = Some((v.name, t)),
                Some((name, u)) => check!(
                    t == u,
                    "{name} and {} differ ({}) on {} {}",
                    v.name,
                    difference(u, t),
                    show_bytes(a),
                    show_bytes(b)
                ),
            }
        }
    }
    Ok(())
}

fn sources(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (b, bits) = source_case(g, ctx);
    compare(0, &b, &[], bits)
}

fn source_case(g: &mut Gen<'_>, ctx: &mut Ctx) -> (Vec<u8>, u64) {
    let (b, m) = gens::any_input(g, 6);
    let cfg = gen_cfg(g, m.as_ref().map_or(2, MVal::depth));
    let mut bits = cfg.limit.map_or(0xffff, |n| (n as u64).min(0xfffe));
    bits |= u64::from(cfg.any_root) << 16 | u64::from(cfg.trailing_commas) << 17;
    bits |= (g.below(12) as u64) << 32;
    // the settings as they come, and no settings
    let named = g.chance(1, 3);
    if named {
        bits |= 1 << 18 | (g.below(4) as u64) << 19;
        ctx.label("named settings");
    }
    let ok = crate::refjson::accepts(&b, if named { crate::refjson::Config::DEFAULT } else { cfg });
    if b.len() > 1 {
        ctx.nontrivial(&b);
    }
    ctx.label(if ok { "accepted" } else { "rejected" });
    ctx.describe(|| format!("{} [{}] {bits:#x}", show_bytes(&b), show_config(&cfg)));
    (b, bits)
}

/// Nesting around and beyond limits.
fn nesting(i: u64, ctx: &mut Ctx) -> R {
    let (i, how) = (i / 6, i % 6);
    let Some((depth, shape, s)) = nesting_case(i, 1100) else { return Ok(()) };
    let limit = match how {
        0 => 0xffff,
        4 | 5 => 1 << 18 | (how - 4) << 20 | (depth as u64 & 1) << 19,
        1 => depth as u64,
        2 => depth.saturating_sub(1) as u64,
        _ => depth as u64 + 1,
    };
    if depth > 0 {
        ctx.nontrivial(s.as_bytes());
    }
    ctx.describe(|| format!("nesting of {depth}, shape {shape}, limit {limit}"));
    let bits = limit | 1 << 16 | u64::from(shape == 7) << 17 | (depth as u64 / 3) << 32;
    compare(0, s.as_bytes(), &[], bits)?;
    if depth > 140 { Ok(()) } else { compare_narrow(0, s.as_bytes(), &[], bits) }
}

fn pairs(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (a, b, how) = pair_case(g, ctx);
    compare(1, a.as_bytes(), b.as_bytes(), how)
}

fn pair_case(g: &mut Gen<'_>, ctx: &mut Ctx) -> (String, String, u64) {
    let how = g.below(32) as u64;
    let x = gens::text(g, 24);
    let y = match g.below(4) {
        0 => x.clone(),
        1 => {
            let mut c: Vec<char> = x.chars().collect();
            if !c.is_empty() {
                let i = g.below(c.len());
                c[i] = gens::char_of(g, gens::Chars::Any);
            }
            c.into_iter().collect()
        }
        2 => {
            let mut y = x.clone();
            y.pop();
            y
        }
        _ => gens::text(g, 8),
    };
    let mut spelled = |t: &str, json| {
        if json {
            let style = g.below(4);
            gens::spell(g, t, style).quoted
        } else {
            t.to_string()
        }
    };
    let a = spelled(&x, how & 1 != 0);
    let b = spelled(&y, how & 2 != 0);
    if !x.is_empty() && !y.is_empty() {
        ctx.nontrivial(format!("{a}{b}").as_bytes());
    }
    ctx.label_if(x == y, "equal");
    ctx.describe(|| format!("{a:?} {b:?} {how}"));
    (a, b, how)
}

/// A history of changes to built and parsed values.
fn history_case(g: &mut Gen<'_>, ctx: &mut Ctx) -> (String, String, u64) {
    let source = |g: &mut Gen<'_>| {
        gens::valid_text(g, 4).1.s
    };
    let a = if g.chance(9, 10) { source(g) } else { gens::text(g, 8) };
    let b = match g.below(3) {
        0 => gens::text(g, 8),
        1 => a.clone(),
        _ => source(g),
    };
    let seed = g.upto(u64::MAX);
    if a.len() > 2 {
        ctx.nontrivial(format!("{a}{b}{seed}").as_bytes());
    }
    ctx.describe(|| format!("{a:?} {b:?} {seed}"));
    (a, b, seed)
}

fn histories(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    let (a, b, seed) = history_case(g, ctx);
    compare(2, a.as_bytes(), b.as_bytes(), seed)
}

/// Built for 32-bit addresses; run by narrow.js.
const NARROW: [(&str, u32, &str); 2] = [("narrow_none", 8, "none_checked"), ("narrow_std", 15, "std_heapless")];

struct Process {
    child: std::process::Child,
    to: std::process::ChildStdin,
    from: std::process::ChildStdout,
}

impl Drop for Process {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}

thread_local! {
    static PROCESS: std::cell::RefCell<Option<Process>> = const { std::cell::RefCell::new(None) };
}

fn ask(which: usize, mode: u32, part: u32, a: &[u8], b: &[u8], bits: u64) -> Result<(u32, Vec<u8>), String> {
    use std::io::{Read, Write};
    use std::os::unix::process::CommandExt;
    use std::process::{Command, Stdio};
    PROCESS.with(|p| {
        let mut p = p.borrow_mut();
        if p.is_none() {
            let root = std::env::var_os("JJ_ROOT").unwrap_or_else(|| "/verif".into());
            let mut c = Command::new("node");
            c.arg(PathBuf::from(root).join("variant/narrow.js"));
            c.args(NARROW.map(|(n, ..)| dir().join(n).join("lib.wasm")));
            // node reserves more addresses than the cases are given
            // SAFETY: setrlimit may be called between fork and exec.
            unsafe {
                c.pre_exec(|| {
                    let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
                    libc::setrlimit(libc::RLIMIT_AS, &l);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    Ok(())
                });
            }
            let mut child = c.stdin(Stdio::piped()).stdout(Stdio::piped()).spawn().map_err(|e| format!("node: {e}"))?;
            let (to, from) = (child.stdin.take().ok_or("stdin")?, child.stdout.take().ok_or("stdout")?);
            *p = Some(Process { child, to, from });
        }
        let p = p.as_mut().ok_or("no process")?;
        let mut q = Vec::with_capacity(28 + a.len() + b.len());
        for n in [which as u32, mode, part, a.len() as u32, b.len() as u32] {
            q.extend(n.to_le_bytes());
        }
        q.extend(bits.to_le_bytes());
        q.extend(a);
        q.extend(b);
        p.to.write_all(&q).map_err(|e| e.to_string())?;
        let mut head = [0; 8];
        p.from.read_exact(&mut head).map_err(|e| e.to_string())?;
        let n = |i: usize| u32::from_le_bytes([head[i], head[i + 1], head[i + 2], head[i + 3]]);
        let mut text = vec![0; n(4) as usize];
        p.from.read_exact(&mut text).map_err(|e| e.to_string())?;
        Ok((n(0), text))
    })
}

/// Which 32-bit variants there are; the tools to build them may be missing,
/// a crate that does not build is reported by c20.builds.
fn narrow_variants() -> Result<&'static [(usize, &'static Variant)], crate::engine::Fail> {
    static ALL: OnceLock<Result<Vec<(usize, &'static Variant)>, String>> = OnceLock::new();
    let wide = variants()?;
    let all = ALL.get_or_init(|| {
        if !NARROW.iter().all(|(n, ..)| dir().join(n).join("ok").exists()) {
            eprintln!("no variants with 32-bit addresses");
            return Ok(Vec::new());
        }
        let mut v = Vec::new();
        for (i, (name, parts, base)) in NARROW.iter().enumerate() {
            let (_, text) = ask(i, 99, 0, &[], &[], 0)?;
            if text != parts.to_string().as_bytes() {
                return Err(format!("{name} has parts {}", String::from_utf8_lossy(&text)));
            }
            if let Some(b) = wide.iter().find(|v| v.name == *base) {
                v.push((i, b));
            }
        }
        Ok(v)
    });
    match all {
        Ok(v) => Ok(v),
        Err(e) => fail(format!("HARNESS: {e}")),
    }
}

fn compare_narrow(mode: u32, a: &[u8], b: &[u8], bits: u64) -> R {
    for (i, wide) in narrow_variants()? {
        for part in 0..3 {
            let Some(t) = run(wide, mode, part, a, b, bits) else { continue };
            let (status, u) = match ask(*i, mode, part, a, b, bits) {
                Ok(x) => x,
                Err(e) => return fail(format!("HARNESS: {e}")),
            };
            let panicked = t.windows(7).any(|w| w == b" PANIC ");
            check!(
                if panicked { status == 2 } else { status == 1 && t == u },
                "{} differs with 32-bit addresses ({}) on {} {}",
                wide.name,
                if status == 2 { String::from_utf8_lossy(&u).into_owned() } else { difference(t, &u) },
                show_bytes(a),
                show_bytes(b)
            );
        }
    }
    Ok(())
}

fn narrow(g: &mut Gen<'_>, ctx: &mut Ctx) -> R {
    match g.below(4) {
        0 => {
            let (a, b, how) = pair_case(g, ctx);
            ctx.label("strings");
            compare_narrow(1, a.as_bytes(), b.as_bytes(), how)
        }
        1 => {
            let (a, b, seed) = history_case(g, ctx);
            ctx.label("history");
            compare_narrow(2, a.as_bytes(), b.as_bytes(), seed)
        }
        _ => {
            let (b, bits) = source_case(g, ctx);
            compare_narrow(0, &b, &[], bits)
        }
    }
}

/// Texts with lengths around powers of two.
fn long(i: u64, ctx: &mut Ctx) -> R {
    let (k, delta, how) = (7 + i / 30, (i / 10 % 3) as usize, i % 10);
    let n = (1usize << k) - 1 + delta;
    let unit = ["a", "\u{e9}", "\u{20ac}", "\u{1f600}", "\\n", "\\u00e9", "\\ud83d\\ude00", "7", " ", "[],"][how as usize];
    let body = unit.repeat(n / unit.len()) + &"x".repeat(if how < 7 { n % unit.len() } else { 0 });
    let s = match how {
        7 => body,
        8 => format!("[{body}null]"),
        9 => format!("[{body}[]]"),
        _ => format!("{{\"{body}\":\"{body}\"}}"),
    };
    ctx.nontrivial(s.as_bytes());
    ctx.describe(|| format!("{n} bytes of {unit:?}"));
    let bits = 16 | 1 << 16 | 4 << 32;
    compare(0, s.as_bytes(), &[], bits)?;
    compare_narrow(0, s.as_bytes(), &[], bits)
}

const BUILDS: u64 = (VARIANTS.len() + NARROW.len()) as u64;

pub fn c20() -> Vec<Target> {
    vec![
        all("c20.builds", builds, BUILDS, BUILDS, "every feature set"),
        all("c20.nesting", nesting, 6 * nesting_cases(), 6 * nesting_cases(), "a container"),
        all("c20.long", long, 30 * 6, 30 * 10, "every text"),
        rnd("c20.sources", sources, 100_000, 3_000_000, "at least two bytes"),
        rnd("c20.pairs", pairs, 100_000, 3_000_000, "both strings are non-empty"),
        rnd("c20.histories", histories, 60_000, 2_000_000, "the first source has at least three bytes"),
        rnd("c20.narrow", narrow, 40_000, 1_500_000, "at least two bytes"),
    ]
}
