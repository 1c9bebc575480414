//! Property-based-testing engine: recorded choice sequences, deterministic
//! per-case seeds, integrated shrinking, classification.

use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;

// ---------------------------------------------------------------- randomness

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64 ^ (bytes.len() as u64);
    let mut chunks = bytes.chunks_exact(8);
    for c in &mut chunks {
        h = mix(h ^ u64::from_le_bytes(c.try_into().unwrap()));
    }
    for b in chunks.remainder() {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0000_0100_0000_01B3);
    }
    mix(h)
}

enum Source<'b> {
    Random(u64),
    Replay(&'b [u64], usize),
    Bytes(&'b [u8], usize),
}

/// A stream of choices. Every choice is recorded so that a failing case can be
/// replayed and shrunk. The value 0 is always the simplest choice.
pub struct Gen<'b> {
    src: Source<'b>,
    pub rec: Vec<u64>,
    trace: Option<usize>,
}

/// A shared buffer that survives a crash: [count, choices...].
pub static TRACE: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
pub const TRACE_WORDS: usize = 1 << 20;

impl<'b> Gen<'b> {
    pub fn random(seed: u64) -> Gen<'static> {
        Gen {
            src: Source::Random(seed),
            rec: Vec::with_capacity(64),
            trace: TRACE.get().copied(),
        }
    }
    pub fn replay(choices: &'b [u64]) -> Gen<'b> {
        Gen {
            src: Source::Replay(choices, 0),
            rec: Vec::with_capacity(choices.len()),
            trace: TRACE.get().copied(),
        }
    }
    pub fn bytes(data: &'b [u8]) -> Gen<'b> {
        Gen {
            src: Source::Bytes(data, 0),
            rec: Vec::new(),
            trace: TRACE.get().copied(),
        }
    }

    /// A choice in `0..=max`.
    #[inline]
    pub fn upto(&mut self, max: u64) -> u64 {
        let v = match &mut self.src {
            Source::Random(state) => {
                *state = state.wrapping_add(0x9E37_79B9_7F4A_7C15);
                let mut z = *state;
                z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
                z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
                z ^= z >> 31;
                if max == u64::MAX {
                    z
                } else {
                    // multiply-shift; the tiny bias is irrelevant here
                    ((u128::from(z) * (u128::from(max) + 1)) >> 64) as u64
                }
            }
            Source::Replay(choices, pos) => {
                let v = choices.get(*pos).copied().unwrap_or(0);
                *pos += 1;
                v.min(max)
            }
            Source::Bytes(data, pos) => {
                if max == 0 {
                    0
                } else {
                    let n = if max < 256 {
                        1
                    } else if max < 65536 {
                        2
                    } else {
                        8
                    };
                    let mut v = 0u64;
                    for _ in 0..n {
                        let b = data.get(*pos).copied().unwrap_or(0);
                        *pos += 1;
                        v = v << 8 | u64::from(b);
                    }
                    if max == u64::MAX {
                        v
                    } else {
                        v % (max + 1)
                    }
                }
            }
        };
        self.rec.push(v);
        if let Some(base) = self.trace {
            let n = self.rec.len();
            if n < TRACE_WORDS {
                let p = base as *mut u64;
                // SAFETY: main maps TRACE_WORDS words for the whole run.
                unsafe {
                    p.add(n).write_volatile(v);
                    p.write_volatile(n as u64);
                }
            }
        }
        v
    }
    /// A choice in `0..n`.
    #[inline]
    pub fn below(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        self.upto(n as u64 - 1) as usize
    }
    /// A choice in `lo..=hi`.
    #[inline]
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.upto((hi - lo) as u64) as usize
    }
    /// True with probability `num/den`; false is the simple choice.
    #[inline]
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.upto(den - 1) >= den - num
    }
    #[inline]
    pub fn bool(&mut self) -> bool {
        self.upto(1) == 1
    }
    #[inline]
    pub fn pick<'x, T>(&mut self, xs: &'x [T]) -> &'x T {
        &xs[self.below(xs.len())]
    }
    /// Index into `weights`, proportional to them.
    #[inline]
    pub fn weighted(&mut self, weights: &[u32]) -> usize {
        let total: u64 = weights.iter().map(|w| u64::from(*w)).sum();
        let mut v = self.upto(total - 1);
        for (i, w) in weights.iter().enumerate() {
            if v < u64::from(*w) {
                return i;
            }
            v -= u64::from(*w);
        }
        weights.len() - 1
    }
    /// A size: mostly small, sometimes up to `max`.
    pub fn size(&mut self, max: usize) -> usize {
        let cap = match self.weighted(&[50, 30, 14, 5, 1]) {
            0 => 3,
            1 => 8,
            2 => 24,
            3 => 100,
            _ => usize::MAX,
        };
        self.range(0, max.min(cap))
    }
}

// ------------------------------------------------------------------ outcomes

#[derive(Debug, Clone)]
pub struct Fail {
    pub msg: String,
}
pub type R = Result<(), Fail>;

pub fn fail<T>(msg: String) -> Result<T, Fail> {
    Err(Fail { msg })
}

/// `check!(cond, "fmt", args...)`: the case fails when the condition is false.
#[macro_export]
macro_rules! check {
    ($cond:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::engine::Fail { msg: format!($($arg)*) });
        }
    };
}
/// `same!(left, right, "fmt", args...)`: fails when the two differ.
#[macro_export]
macro_rules! same {
    ($l:expr, $r:expr, $($arg:tt)*) => {
        match (&$l, &$r) {
            (l, r) => {
                if l != r {
                    return Err($crate::engine::Fail {
                        msg: format!("{}: got {:?}, expected {:?}", format!($($arg)*), l, r),
                    });
                }
            }
        }
    };
}

/// Per-worker bookkeeping handed to every case.
#[derive(Default)]
pub struct Ctx {
    pub thorough: bool,
    pub show: bool,
    pub shown: Vec<String>,
    case_nontrivial: bool,
    case_hash: u64,
    labels: BTreeMap<&'static str, u64>,
    pub extra: BTreeMap<&'static str, u64>,
}

impl Ctx {
    pub fn new(thorough: bool, show: bool) -> Ctx {
        Ctx {
            thorough,
            show,
            ..Ctx::default()
        }
    }
    /// Counts the case under a class.
    #[inline]
    pub fn label(&mut self, name: &'static str) {
        *self.labels.entry(name).or_insert(0) += 1;
    }
    #[inline]
    pub fn label_if(&mut self, cond: bool, name: &'static str) {
        if cond {
            self.label(name);
        }
    }
    /// Adds to a counter reported in the evidence.
    #[inline]
    pub fn count(&mut self, name: &'static str, n: u64) {
        *self.extra.entry(name).or_insert(0) += n;
    }
    /// Marks the case as non-trivial; cases with equal `identity` count once.
    #[inline]
    pub fn nontrivial(&mut self, identity: &[u8]) {
        self.case_nontrivial = true;
        self.case_hash = mix(self.case_hash ^ hash_bytes(identity));
    }
    /// Describes the case (only evaluated for failures and samples).
    #[inline]
    pub fn describe(&mut self, f: impl FnOnce() -> String) {
        if self.show {
            let s = f();
            self.shown.push(s);
        }
    }
}

/// Renders bytes readably and without loss.
pub fn show_bytes(b: &[u8]) -> String {
    const LIMIT: usize = 2000;
    let mut out = String::from("b\"");
    for (i, &c) in b.iter().enumerate() {
        if i >= LIMIT {
            out.push_str(&format!("\" ... ({} bytes in total)", b.len()));
            return out;
        }
        match c {
            b'"' => out.push_str("\\\""),
            b'\\' => out.push_str("\\\\"),
            0x20..=0x7e => out.push(c as char),
            _ => out.push_str(&format!("\\x{c:02x}")),
        }
    }
    out.push('"');
    out
}

// ------------------------------------------------------------------- targets

pub type RandomFn = fn(&mut Gen<'_>, &mut Ctx) -> R;
pub type IndexFn = fn(u64, &mut Ctx) -> R;

#[derive(Clone, Copy)]
pub enum Kind {
    Random(RandomFn),
    /// Complete enumeration of `0..total`. All cases are distinct.
    Exhaustive(IndexFn),
}

#[derive(Clone, Copy)]
pub struct Target {
    pub name: &'static str,
    pub kind: Kind,
    /// number of cases in the quick and in the thorough tier
    pub quick: u64,
    pub thorough: u64,
    pub rule: &'static str,
}

pub struct Failure {
    pub index: u64,
    pub choices: Option<Vec<u64>>,
    pub msg: String,
    pub shown: Vec<String>,
    pub shrink_runs: u64,
}

pub struct Outcome {
    pub evaluations: u64,
    pub nontrivial: u64,
    pub labels: BTreeMap<&'static str, u64>,
    pub extra: BTreeMap<&'static str, u64>,
    pub samples: Vec<String>,
    pub failure: Option<Failure>,
}

/// Slots through which the workers publish what they are running (shared with
/// the supervising process): [target + 1, index] per thread.
pub static SLOTS: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
pub const MAX_THREADS: usize = 64;
/// After the slots: set once a violation has been reported.
pub const FLAG: usize = MAX_THREADS * 2;
pub const SLOT_WORDS: usize = MAX_THREADS * 2 + 8;

pub fn raise_flag() {
    if let Some(base) = SLOTS.get() {
        let p = *base as *const AtomicU64;
        unsafe { (*p.add(FLAG)).store(1, Ordering::SeqCst) }
    }
}

fn publish(thread: usize, target: u64, index: u64) {
    if let Some(base) = SLOTS.get() {
        let p = *base as *const AtomicU64;
        // SAFETY: main maps MAX_THREADS * 2 words for the whole run.
        unsafe {
            (*p.add(thread * 2)).store(target + 1, Ordering::Relaxed);
            (*p.add(thread * 2 + 1)).store(index, Ordering::Relaxed);
        }
    }
}
fn unpublish(thread: usize) {
    if let Some(base) = SLOTS.get() {
        let p = *base as *const AtomicU64;
        unsafe { (*p.add(thread * 2)).store(0, Ordering::Relaxed) }
    }
}

thread_local! {
    static PANIC_MSG: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
    static EXPECT_PANIC: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if EXPECT_PANIC.with(|e| e.get()) {
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::from("?")
        };
        let loc = info
            .location()
            .map(|l| format!("{}:{}", l.file(), l.line()))
            .unwrap_or_default();
        PANIC_MSG.with(|m| *m.borrow_mut() = format!("panicked at {loc}: {msg}"));
    }));
}

/// Runs `f`, returning None if it panics (used where a panic is the documented
/// outcome).
pub fn expecting_panic<T>(f: impl FnOnce() -> T) -> Option<T> {
    EXPECT_PANIC.with(|e| e.set(true));
    let r = catch_unwind(AssertUnwindSafe(f)).ok();
    EXPECT_PANIC.with(|e| e.set(false));
    r
}

fn guarded(f: impl FnOnce() -> R) -> R {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => {
            EXPECT_PANIC.with(|e| e.set(false));
            Err(Fail {
                msg: PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut())),
            })
        }
    }
}

pub fn case_seed(seed: u64, name: &str, index: u64) -> u64 {
    mix(mix(seed ^ 0x6a75_7374_6a73_6f6e) ^ hash_bytes(name.as_bytes()) ^ mix(index))
}

fn begin(t: &Target, index: u64) {
    crate::alloc::begin(if matches!(t.kind, Kind::Exhaustive(_)) { index } else { 0 });
}

/// Runs one case; the choices drawn are returned for random targets.
pub fn run_case(t: &Target, seed: u64, index: u64, ctx: &mut Ctx) -> (R, Vec<u64>) {
    begin(t, index);
    match t.kind {
        Kind::Random(f) => {
            let mut g = Gen::random(case_seed(seed, t.name, index));
            let r = guarded(|| f(&mut g, ctx));
            (r, g.rec)
        }
        Kind::Exhaustive(f) => (guarded(|| f(index, ctx)), Vec::new()),
    }
}

pub fn run_choices(t: &Target, choices: &[u64], ctx: &mut Ctx) -> (R, Vec<u64>) {
    begin(t, choices.first().copied().unwrap_or(0));
    match t.kind {
        Kind::Random(f) => {
            let mut g = Gen::replay(choices);
            let r = guarded(|| f(&mut g, ctx));
            (r, g.rec)
        }
        Kind::Exhaustive(f) => {
            let i = choices.first().copied().unwrap_or(0);
            (guarded(|| f(i, ctx)), vec![i])
        }
    }
}

/// One case of a random target with its choices read from bytes.
pub fn run_bytes(t: &Target, data: &[u8], ctx: &mut Ctx) -> (R, Vec<u64>) {
    begin(t, 0);
    match t.kind {
        Kind::Random(f) => {
            let mut g = Gen::bytes(data);
            let r = guarded(|| f(&mut g, ctx));
            (r, g.rec)
        }
        Kind::Exhaustive(_) => (Ok(()), Vec::new()),
    }
}

/// Runs a whole target on `threads` threads.
pub fn run_target(
    t: &Target,
    target_no: u64,
    seed: u64,
    thorough: bool,
    threads: usize,
    scale: f64,
    on_failure: &mut dyn FnMut(&Failure),
) -> Outcome {
    let mut total = if thorough { t.thorough } else { t.quick };
    if matches!(t.kind, Kind::Random(_)) {
        total = ((total as f64) * scale).ceil() as u64;
    }
    let exhaustive = matches!(t.kind, Kind::Exhaustive(_));
    // for trying the machinery out, not for verdicts: every n-th case only
    let stride = std::env::var("JJ_STRIDE").ok().and_then(|s| s.parse().ok()).filter(|n| *n > 1 && exhaustive);
    let block = (total / (threads as u64 * 16)).clamp(1, 2048);
    let next = AtomicU64::new(0);
    let lowest_fail = AtomicU64::new(u64::MAX);
    let fails: Mutex<BTreeMap<u64, (Fail, Vec<u64>)>> = Mutex::new(BTreeMap::new());
    struct Acc {
        evals: u64,
        nontriv: HashSet<u64>,
        nontriv_count: u64,
        labels: BTreeMap<&'static str, u64>,
        extra: BTreeMap<&'static str, u64>,
        sample_at: Vec<u64>,
    }
    let accs: Mutex<Vec<Acc>> = Mutex::new(Vec::new());

    std::thread::scope(|s| {
        for thread in 0..threads {
            let (next, lowest_fail, fails, accs) = (&next, &lowest_fail, &fails, &accs);
            std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn_scoped(s, move || {
                    let mut ctx = Ctx {
                        thorough,
                        ..Ctx::default()
                    };
                    let mut acc = Acc {
                        evals: 0,
                        nontriv: HashSet::new(),
                        nontriv_count: 0,
                        labels: BTreeMap::new(),
                        extra: BTreeMap::new(),
                        sample_at: Vec::new(),
                    };
                    'outer: loop {
                        let start = next.fetch_add(block, Ordering::Relaxed);
                        if start >= total || start > lowest_fail.load(Ordering::Relaxed) {
                            break;
                        }
                        for index in start..(start + block).min(total) {
                            if stride.is_some_and(|n: u64| mix(index) % n != 0) {
                                continue;
                            }
                            publish(thread, target_no, index);
                            ctx.case_nontrivial = false;
                            ctx.case_hash = 0;
                            let (r, rec) = run_case(t, seed, index, &mut ctx);
                            acc.evals += 1;
                            if ctx.case_nontrivial {
                                acc.nontriv_count += 1;
                                if !exhaustive {
                                    acc.nontriv.insert(ctx.case_hash);
                                }
                                if acc.sample_at.len() < 4 || index % 8191 == 0 {
                                    acc.sample_at.push(index);
                                }
                            }
                            if let Err(e) = r {
                                lowest_fail.fetch_min(index, Ordering::Relaxed);
                                fails.lock().unwrap().insert(index, (e, rec));
                                break 'outer;
                            }
                        }
                    }
                    unpublish(thread);
                    acc.labels = std::mem::take(&mut ctx.labels);
                    acc.extra = std::mem::take(&mut ctx.extra);
                    accs.lock().unwrap().push(acc);
                })
                .expect("thread");
        }
    });

    let mut out = Outcome {
        evaluations: 0,
        nontrivial: 0,
        labels: BTreeMap::new(),
        extra: BTreeMap::new(),
        samples: Vec::new(),
        failure: None,
    };
    let mut all: HashSet<u64> = HashSet::new();
    let mut sample_at = Vec::new();
    for acc in accs.into_inner().unwrap() {
        out.evaluations += acc.evals;
        if exhaustive {
            out.nontrivial += acc.nontriv_count;
        } else if all.is_empty() {
            all = acc.nontriv;
        } else {
            all.extend(acc.nontriv);
        }
        for (k, v) in acc.labels {
            *out.labels.entry(k).or_insert(0) += v;
        }
        for (k, v) in acc.extra {
            *out.extra.entry(k).or_insert(0) += v;
        }
        sample_at.extend(acc.sample_at);
    }
    out.nontrivial += all.len() as u64;
    sample_at.sort_unstable();
    sample_at.dedup();
    let failure = fails.into_inner().unwrap().into_iter().next();

    // Samples: a few non-trivial cases, re-run with rendering on.
    if failure.is_none() && !sample_at.is_empty() {
        let n = sample_at.len();
        let picks = [0, n / 2, n - 1];
        let mut used = HashSet::new();
        for p in picks {
            if used.insert(sample_at[p]) {
                let mut ctx = Ctx {
                    thorough,
                    show: true,
                    ..Ctx::default()
                };
                let _ = on_big_stack(|| run_case(t, seed, sample_at[p], &mut ctx));
                let mut text = ctx.shown.join("; ");
                if text.len() > 600 {
                    let mut cut = 600;
                    while !text.is_char_boundary(cut) {
                        cut -= 1;
                    }
                    text.truncate(cut);
                    text.push_str(" ...");
                }
                out.samples
                    .push(format!("{}#{}: {}", t.name, sample_at[p], text));
            }
        }
    }

    if let Some((index, (e, rec))) = failure {
        on_failure(&Failure {
            index,
            choices: matches!(t.kind, Kind::Random(_)).then(|| rec.clone()),
            msg: e.msg.clone(),
            shown: Vec::new(),
            shrink_runs: 0,
        });
        out.failure = Some(match t.kind {
            Kind::Random(_) => on_big_stack(|| {
                let (choices, msg, runs) = shrink(t, rec, e.msg, 6000, &mut |c, ctx| {
                    let (r, rec) = run_choices(t, c, ctx);
                    r.err().map(|e| (e.msg, rec))
                });
                let mut ctx = Ctx {
                    thorough,
                    show: true,
                    ..Ctx::default()
                };
                let _ = run_choices(t, &choices, &mut ctx);
                Failure {
                    index,
                    choices: Some(choices),
                    msg,
                    shown: ctx.shown,
                    shrink_runs: runs,
                }
            }),
            Kind::Exhaustive(_) => {
                let mut ctx = Ctx {
                    thorough,
                    show: true,
                    ..Ctx::default()
                };
                let _ = on_big_stack(|| run_case(t, seed, index, &mut ctx));
                Failure {
                    index,
                    choices: None,
                    msg: e.msg,
                    shown: ctx.shown,
                    shrink_runs: 0,
                }
            }
        });
    }
    out
}

pub fn on_big_stack<T: Send>(f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn_scoped(s, f)
            .expect("thread")
            .join()
            .expect("no panic escapes a case")
    })
}

// ------------------------------------------------------------------ shrinking

type Runner<'r> = dyn FnMut(&[u64], &mut Ctx) -> Option<(String, Vec<u64>)> + 'r;

/// What has been reached by then is the result.
const SHRINK_TIME: std::time::Duration = std::time::Duration::from_secs(45);

/// Shortlex-minimises the choice sequence while the case keeps failing.
pub fn shrink(
    _t: &Target,
    first: Vec<u64>,
    first_msg: String,
    budget: u64,
    run: &mut Runner<'_>,
) -> (Vec<u64>, String, u64) {
    let mut best = first;
    let mut msg = first_msg;
    let mut runs = 0u64;
    let start = std::time::Instant::now();
    let late = move || start.elapsed() > SHRINK_TIME;
    let mut ctx = Ctx::default();
    let mut attempt = |cand: &[u64], best: &mut Vec<u64>, msg: &mut String, runs: &mut u64| -> bool {
        if *runs >= budget || late() {
            return false;
        }
        *runs += 1;
        if let Some((m, rec)) = run(cand, &mut ctx) {
            // what was actually consumed is what counts
            let mut rec = rec;
            while rec.last() == Some(&0) {
                rec.pop();
            }
            let better = rec.len() < best.len() || (rec.len() == best.len() && rec < *best);
            if better {
                *best = rec;
                *msg = m;
                return true;
            }
        }
        false
    };
    // the failure must reproduce from its choices at all
    {
        let c = best.clone();
        let mut b2 = vec![u64::MAX; c.len() + 1];
        if attempt(&c, &mut b2, &mut msg, &mut runs) {
            best = b2;
        } else {
            return (best, format!("{msg} (did not reproduce on replay)"), runs);
        }
    }
    loop {
        let before = best.clone();
        // delete chunks, big ones first
        let mut size = (best.len() / 2).max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                let mut c = best.clone();
                c.drain(i..end);
                if !attempt(&c, &mut best, &mut msg, &mut runs) {
                    // deleting may need an earlier length choice lowered too
                    let mut done = false;
                    if size <= 8 {
                        for back in 1..=4usize {
                            if i >= back && i - back < best.len() && best[i - back] > 0 {
                                let mut c = best.clone();
                                c[i - back] -= 1;
                                if i < c.len() {
                                    c.drain(i..end.min(c.len()));
                                }
                                if attempt(&c, &mut best, &mut msg, &mut runs) {
                                    done = true;
                                    break;
                                }
                            }
                        }
                    }
                    if !done {
                        i += size.max(1);
                    }
                }
            }
            size /= 2;
        }
        // zero chunks
        let mut size = 16usize;
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                let end = (i + size).min(best.len());
                if best[i..end].iter().any(|v| *v != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|v| *v = 0);
                    attempt(&c, &mut best, &mut msg, &mut runs);
                }
                i += size;
            }
            size /= 2;
        }
        // lower single values
        let mut i = 0;
        while i < best.len() {
            let (mut lo, mut hi) = (0u64, best[i]);
            while lo < hi && i < best.len() {
                let mid = lo + (hi - lo) / 2;
                let mut c = best.clone();
                c[i] = mid;
                if attempt(&c, &mut best, &mut msg, &mut runs) {
                    hi = mid;
                } else {
                    lo = mid + 1;
                }
            }
            if i < best.len() && best[i] > 0 {
                let mut c = best.clone();
                c[i] -= 1;
                attempt(&c, &mut best, &mut msg, &mut runs);
            }
            i += 1;
        }
        if best == before || runs >= budget || late() {
            break;
        }
    }
    (best, msg, runs)
}
