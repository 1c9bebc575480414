//! The check runner. The parent supervises a child that runs the cases, so
//! that a crash of the code under test is attributed to the case that caused
//! it. A case that never ends or exhausts memory when it is run again on its
//! own is a violation too: whatever the property promises, it is not delivered.
//! (Cases take microseconds; the isolated run has 90 s of processor time.)
//! In the thorough tier, coverage-guided fuzzing follows the random search.

use jjcheck::engine::{self, Ctx, Failure, Kind, Target};
use jjcheck::{dict, findings, props};
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const HARNESS_ERROR: i32 = 3;
const STALE: Duration = Duration::from_secs(150);
const ISOLATED_CPU_S: u64 = 90;

struct Opts {
    id: String,
    root: PathBuf,
    seed: u64,
    thorough: bool,
    threads: usize,
    scale: f64,
    only: Option<String>,
    replay: Option<PathBuf>,
    // internal modes
    worker: bool,
    isolate: Option<(usize, u64)>,
    choices: Option<usize>,
    fd: Option<i32>,
}

fn parse_args() -> Opts {
    let env = |k: &str| std::env::var(k).ok();
    let mut o = Opts {
        id: String::new(),
        root: PathBuf::from(env("JJ_ROOT").unwrap_or_else(|| ".".into())),
        seed: env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1),
        thorough: env("VERIF_TIER").as_deref() == Some("thorough"),
        threads: env("JJ_THREADS").and_then(|s| s.parse().ok()).unwrap_or_else(|| {
            std::thread::available_parallelism().map_or(8, |n| n.get()).min(16)
        }),
        scale: env("JJ_SCALE").and_then(|s| s.parse().ok()).unwrap_or(1.0),
        only: env("JJ_ONLY"),
        replay: None,
        worker: false,
        isolate: None,
        choices: None,
        fd: env("JJ_FD").and_then(|s| s.parse().ok()),
    };
    o.threads = o.threads.clamp(1, engine::MAX_THREADS);
    let mut args = std::env::args().skip(1);
    while let Some(a) = args.next() {
        match a.as_str() {
            "--replay" => o.replay = args.next().map(PathBuf::from),
            "--worker" => o.worker = true,
            "--isolate" => {
                let t = args.next().and_then(|s| s.parse().ok());
                let i = args.next().and_then(|s| s.parse().ok());
                o.isolate = t.zip(i);
            }
            "--choices" => o.choices = args.next().and_then(|s| s.parse().ok()),
            _ => o.id = a,
        }
    }
    o
}

fn shared(words: usize, fd: Option<i32>) -> (i32, usize) {
    unsafe {
        let fd = fd.unwrap_or_else(|| libc::memfd_create(c"jjcheck".as_ptr(), 0));
        assert!(fd >= 0, "memfd_create");
        assert!(libc::ftruncate(fd, (words * 8) as i64) == 0, "ftruncate");
        let p = libc::mmap(
            std::ptr::null_mut(),
            words * 8,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED,
            fd,
            0,
        );
        assert!(p != libc::MAP_FAILED, "mmap");
        (fd, p as usize)
    }
}

fn limit_memory(bytes: u64) {
    unsafe {
        let l = libc::rlimit { rlim_cur: bytes, rlim_max: libc::RLIM_INFINITY };
        libc::setrlimit(libc::RLIMIT_AS, &l);
    }
}

fn main() {
    let o = parse_args();
    let findings_text =
        std::fs::read_to_string(o.root.join("known_findings.txt")).unwrap_or_default();
    findings::load(&findings_text);
    engine::install_panic_hook();
    if o.id == "jobs" {
        std::process::exit(props::history::jobs_main());
    }
    if let Some(text) = o.replay.as_ref().and_then(|f| std::fs::read_to_string(f).ok()) {
        if let Some(d) = text.lines().find_map(|l| l.strip_prefix("dictionary=")) {
            dict::load(d);
        }
    }
    let props = props::properties();
    if o.id == "list" {
        for p in &props {
            for t in &p.targets {
                println!("{} {} quick={} thorough={}", p.id, t.name, t.quick, t.thorough);
            }
        }
        return;
    }
    let Some(p) = props.iter().find(|p| p.id == o.id) else {
        eprintln!("unknown property {:?}", o.id);
        std::process::exit(HARNESS_ERROR);
    };
    let code = if let Some((t, i)) = o.isolate {
        isolate(&o, &p.targets[t], i)
    } else if let Some(t) = o.choices {
        choices_mode(&o, &p.targets[t])
    } else if let Some(f) = &o.replay {
        replay(&o, p, f)
    } else if o.worker {
        worker(&o, p)
    } else {
        supervise(&o, p)
    };
    std::process::exit(code);
}

// ------------------------------------------------------------- supervision

fn base_command(o: &Opts) -> Command {
    let mut c = Command::new(std::env::current_exe().expect("own path"));
    c.arg(&o.id).env("VERIF_SEED", o.seed.to_string());
    c
}

fn supervise(o: &Opts, p: &props::Property) -> i32 {
    let (fd, base) = shared(engine::SLOT_WORDS, None);
    let slot = |i: usize| unsafe { (*(base as *const AtomicU64).add(i)).load(Ordering::Relaxed) };
    let mut cmd = base_command(o);
    cmd.arg("--worker").env("JJ_FD", fd.to_string());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("worker");
    let start = Instant::now();
    let deadline = Duration::from_secs(if o.thorough { 12 * 3600 } else { 780 });
    let mut seen: Vec<(u64, u64, Instant)> = vec![(0, 0, start); engine::MAX_THREADS];
    let mut flagged: Option<Instant> = None;
    loop {
        if let Some(status) = child.try_wait().expect("wait") {
            if let Some(code) = status.code() {
                return code;
            }
            let sig = status.signal().unwrap_or(0);
            if slot(engine::FLAG) != 0 {
                return 1; // reported already, died while shrinking
            }
            println!("worker ended by signal {sig}");
            let suspects: Vec<_> = (0..engine::MAX_THREADS)
                .map(|t| (slot(2 * t), slot(2 * t + 1)))
                .filter(|s| s.0 != 0)
                .collect();
            return attribute(o, p, &suspects);
        }
        std::thread::sleep(Duration::from_millis(20));
        if slot(engine::FLAG) != 0 {
            let since = *flagged.get_or_insert_with(Instant::now);
            if since.elapsed() > Duration::from_secs(120) {
                let _ = child.kill();
                let _ = child.wait();
                return 1;
            }
            continue;
        }
        let mut stale = Vec::new();
        for (t, s) in seen.iter_mut().enumerate() {
            let now = (slot(2 * t), slot(2 * t + 1));
            if (s.0, s.1) != now {
                *s = (now.0, now.1, Instant::now());
            } else if now.0 != 0 && s.2.elapsed() > STALE {
                stale.push(now);
            }
        }
        if !stale.is_empty() {
            println!("a case has been running for {} s", STALE.as_secs());
            let _ = child.kill();
            let _ = child.wait();
            return attribute(o, p, &stale);
        }
        if start.elapsed() > deadline {
            println!("time limit of the whole run reached");
            let _ = child.kill();
            let _ = child.wait();
            return HARNESS_ERROR;
        }
    }
}

enum End {
    Pass,
    Fail,
    Crash(i32),
    Cpu,
    Memory,
    Other,
}

fn ending(mut cmd: Command, input: Option<&[u64]>) -> End {
    cmd.stdin(Stdio::piped()).stdout(Stdio::null()).stderr(Stdio::piped());
    unsafe {
        cmd.pre_exec(|| {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            let l = libc::rlimit { rlim_cur: ISOLATED_CPU_S, rlim_max: ISOLATED_CPU_S + 5 };
            libc::setrlimit(libc::RLIMIT_CPU, &l);
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            Ok(())
        });
    }
    let mut child = cmd.spawn().expect("isolated case");
    if let Some(c) = input {
        let text: Vec<String> = c.iter().map(u64::to_string).collect();
        let _ = child.stdin.take().unwrap().write_all(text.join(",").as_bytes());
    } else {
        drop(child.stdin.take());
    }
    let mut err = String::new();
    let _ = child.stderr.take().unwrap().read_to_string(&mut err);
    let status = child.wait().expect("wait");
    match (status.code(), status.signal()) {
        (Some(0), _) => End::Pass,
        (Some(1), _) => End::Fail,
        (_, Some(libc::SIGXCPU)) => End::Cpu,
        (_, Some(_)) if err.contains("memory allocation of") => End::Memory,
        (_, Some(s)) => End::Crash(s),
        _ => End::Other,
    }
}

/// Finds the case that ended the worker by running each suspect on its own.
fn attribute(o: &Opts, p: &props::Property, suspects: &[(u64, u64)]) -> i32 {
    for &(t, index) in suspects {
        let tn = (t - 1) as usize;
        let target = &p.targets[tn];
        let (fd, base) = shared(engine::TRACE_WORDS, None);
        let mut cmd = base_command(o);
        cmd.args(["--isolate", &tn.to_string(), &index.to_string()])
            .env("JJ_FD", fd.to_string());
        let end = ending(cmd, None);
        let what = match end {
            End::Crash(s) => format!("the process is ended by signal {s}"),
            End::Cpu => format!("no result after {ISOLATED_CPU_S} s of processor time"),
            End::Memory => String::from("memory is exhausted"),
            End::Fail => String::from("fails when run alone"),
            End::Pass | End::Other => continue,
        };
        let words = unsafe { std::slice::from_raw_parts(base as *const u64, engine::TRACE_WORDS) };
        let n = (words[0] as usize).min(engine::TRACE_WORDS - 1);
        let random = matches!(target.kind, Kind::Random(_));
        let mut f = Failure {
            index,
            choices: random.then(|| words[1..=n].to_vec()),
            msg: what,
            shown: Vec::new(),
            shrink_runs: 0,
        };
        let path = write_replay(o, target, &f);
        println!("{}: {}", target.name, f.msg);
        println!("VIOLATION property={} replay={}", o.id, path.display());
        if random && matches!(end, End::Crash(_)) {
            let (c, m, runs) = engine::shrink(
                target,
                f.choices.clone().unwrap(),
                f.msg.clone(),
                1500,
                &mut |c, _| {
                    let mut cmd = base_command(o);
                    cmd.args(["--choices", &tn.to_string()]);
                    match ending(cmd, Some(c)) {
                        End::Crash(s) => Some((format!("the process is ended by signal {s}"), c.to_vec())),
                        _ => None,
                    }
                },
            );
            f.choices = Some(c);
            f.msg = m;
            f.shrink_runs = runs;
            write_replay(o, target, &f);
        }
        return 1;
    }
    println!("no single case explains the end of the worker");
    HARNESS_ERROR
}

fn isolate(o: &Opts, t: &Target, index: u64) -> i32 {
    if let Some(fd) = o.fd {
        let (_, base) = shared(engine::TRACE_WORDS, Some(fd));
        let _ = engine::TRACE.set(base);
    }
    limit_memory(6 << 30);
    let mut ctx = Ctx::new(o.thorough, false);
    let (r, _) = engine::on_big_stack(|| engine::run_case(t, o.seed, index, &mut ctx));
    i32::from(r.is_err())
}

fn choices_mode(o: &Opts, t: &Target) -> i32 {
    limit_memory(6 << 30);
    let mut s = String::new();
    let _ = std::io::stdin().read_to_string(&mut s);
    let c = parse_choices(&s);
    let mut ctx = Ctx::new(o.thorough, false);
    let (r, _) = engine::on_big_stack(|| engine::run_choices(t, &c, &mut ctx));
    i32::from(r.is_err())
}

fn parse_choices(s: &str) -> Vec<u64> {
    s.trim().split(',').filter_map(|x| x.trim().parse().ok()).collect()
}

// ------------------------------------------------------------------ replays

fn write_replay(o: &Opts, t: &Target, f: &Failure) -> PathBuf {
    let dir = o.root.join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let path = dir.join(format!("{}-{}.txt", o.id, t.name));
    let mut s = format!(
        "property={}\ntarget={}\nseed={}\nindex={}\nshrink_runs={}\n",
        o.id, t.name, o.seed, f.index, f.shrink_runs
    );
    if let Some(c) = &f.choices {
        let c: Vec<String> = c.iter().map(u64::to_string).collect();
        s.push_str(&format!("choices={}\n", c.join(",")));
    }
    s.push_str(&format!("dictionary={}\n", dict::to_text()));
    s.push_str(&format!("message={}\n", f.msg.replace('\n', "\\n")));
    for c in &f.shown {
        s.push_str(&format!("case={}\n", c.replace('\n', "\\n")));
    }
    if let Err(e) = std::fs::write(&path, s) {
        eprintln!("cannot write {}: {e}", path.display());
    }
    path
}

fn replay(o: &Opts, p: &props::Property, file: &Path) -> i32 {
    let Ok(text) = std::fs::read_to_string(file) else {
        eprintln!("cannot read {}", file.display());
        return HARNESS_ERROR;
    };
    let get = |k: &str| {
        text.lines()
            .find_map(|l| l.strip_prefix(k).and_then(|l| l.strip_prefix('=')))
            .map(str::to_string)
    };
    let Some(t) = get("target").and_then(|n| p.targets.iter().find(|t| t.name == n)) else {
        eprintln!("no such target");
        return HARNESS_ERROR;
    };
    let mut ctx = Ctx::new(o.thorough, true);
    let (r, _) = engine::on_big_stack(|| match (t.kind, get("choices")) {
        (Kind::Random(_), Some(c)) => engine::run_choices(t, &parse_choices(&c), &mut ctx),
        _ => {
            let seed = get("seed").and_then(|s| s.parse().ok()).unwrap_or(o.seed);
            let index = get("index").and_then(|s| s.parse().ok()).unwrap_or(0);
            engine::run_case(t, seed, index, &mut ctx)
        }
    });
    for s in &ctx.shown {
        println!("case: {s}");
    }
    match r {
        Ok(()) => {
            println!("{}: holds", t.name);
            0
        }
        Err(e) => {
            println!("{}: {}", t.name, e.msg);
            println!("VIOLATION property={} replay={}", o.id, file.display());
            1
        }
    }
}

// ------------------------------------------------------------------- worker

fn json_str(s: &str) -> String {
    let mut out = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            c if c < ' ' => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
    out
}

fn json_map(m: &BTreeMap<&'static str, u64>) -> String {
    let items: Vec<String> = m.iter().map(|(k, v)| format!("{}:{v}", json_str(k))).collect();
    format!("{{{}}}", items.join(","))
}

fn worker(o: &Opts, p: &props::Property) -> i32 {
    if let Some(fd) = o.fd {
        let (_, base) = shared(engine::SLOT_WORDS, Some(fd));
        let _ = engine::SLOTS.set(base);
    }
    limit_memory(14 << 30);
    let start = Instant::now();
    for k in findings::showing(&o.id) {
        println!("KNOWN-FINDING: property={} {k}", o.id);
    }
    let scale = if o.thorough { o.scale } else { o.scale * p.scale };
    let mut evals = 0u64;
    let mut nontrivial = 0u64;
    let mut samples: Vec<String> = Vec::new();
    let mut rules: Vec<String> = Vec::new();
    let mut per_target: Vec<String> = Vec::new();
    let mut violations = 0;
    let mut code = 0;
    for (n, t) in p.targets.iter().enumerate() {
        if o.only.as_ref().is_some_and(|only| !t.name.contains(only.as_str())) {
            continue;
        }
        let began = Instant::now();
        let mut harness = false;
        let mut reported = |f: &Failure| {
            if f.msg.starts_with("HARNESS:") {
                harness = true;
                return;
            }
            let path = write_replay(o, t, f);
            println!("{}#{}: {}", t.name, f.index, f.msg);
            println!("VIOLATION property={} replay={}", o.id, path.display());
            let _ = std::io::stdout().flush();
            engine::raise_flag();
        };
        let out = engine::run_target(t, n as u64, o.seed, o.thorough, o.threads, scale, &mut reported);
        let secs = began.elapsed().as_secs_f64();
        let mut out = out;
        if o.thorough && out.failure.is_none() && matches!(t.kind, Kind::Random(_)) && t.name != "c24.processes" {
            if let Some(f) = fuzz(o, t, &mut out.extra) {
                println!("{}: found by coverage-guided fuzzing: {}", t.name, f.msg);
                let path = write_replay(o, t, &f);
                println!("VIOLATION property={} replay={}", o.id, path.display());
                out.failure = Some(f);
            }
        }
        evals += out.evaluations + out.extra.get("coverage-guided cases").copied().unwrap_or(0);
        nontrivial += out.nontrivial;
        samples.extend(out.samples.iter().cloned());
        rules.push(format!("{}: {}", t.name, t.rule));
        println!(
            "{:<24} {:>10} cases {:>10} non-trivial {:>7.2} s  {:?} {:?}",
            t.name, out.evaluations, out.nontrivial, secs, out.labels, out.extra
        );
        per_target.push(format!(
            "{}:{{\"evaluations\":{},\"distinct_nontrivial\":{},\"exhaustive\":{},\"seconds\":{secs:.2},\"labels\":{},\"counts\":{}}}",
            json_str(t.name),
            out.evaluations,
            out.nontrivial,
            matches!(t.kind, Kind::Exhaustive(_)),
            json_map(&out.labels),
            json_map(&out.extra)
        ));
        if let Some(f) = out.failure {
            if harness || f.msg.starts_with("HARNESS:") && !flag_raised() {
                println!("{}#{}: {}", t.name, f.index, f.msg);
                for s in &f.shown {
                    println!("  case: {s}");
                }
                code = HARNESS_ERROR;
            } else {
                write_replay(o, t, &f);
                println!("shrunk ({} runs): {}", f.shrink_runs, f.msg);
                for s in &f.shown {
                    println!("  case: {s}");
                }
                samples.extend(f.shown.iter().cloned());
                violations += 1;
                code = 1;
            }
            break;
        }
    }
    if o.only.is_none() && std::env::var("JJ_STRIDE").is_err() {
        let s: Vec<String> = samples.iter().map(|s| json_str(s)).collect();
        let text = format!(
            "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"exploration\",\"coverage\":{{\"evaluations\":{evals},\"distinct_nontrivial\":{nontrivial},\"rule\":{},\"samples\":[{}],\"targets\":{{{}}}}},\"assumptions\":[{}],\"wall_s\":{:.2},\"violations\":{violations}}}\n",
            json_str(&o.id),
            json_str(if o.thorough { "thorough" } else { "quick" }),
            o.seed,
            json_str(&rules.join(" | ")),
            s.join(",\n"),
            per_target.join(",\n"),
            json_str("the reference in harness/src/refjson.rs states RFC 8259; rustc, std and the sandbox work"),
            start.elapsed().as_secs_f64()
        );
        let dir = o.root.join("evidence");
        let _ = std::fs::create_dir_all(&dir);
        if let Err(e) = std::fs::write(dir.join(format!("{}.json", o.id)), text) {
            eprintln!("cannot write evidence: {e}");
            if code == 0 {
                code = HARNESS_ERROR;
            }
        }
    }
    println!(
        "{}: {} in {:.1} s",
        o.id,
        match code {
            0 => "held on everything explored",
            1 => "VIOLATED",
            _ => "error of the check",
        },
        start.elapsed().as_secs_f64()
    );
    code
}

/// A libFuzzer campaign over the choices of a random target.
fn fuzz(o: &Opts, t: &Target, extra: &mut BTreeMap<&'static str, u64>) -> Option<Failure> {
    let bin = std::env::var("JJ_FUZZ_BIN").ok().filter(|b| Path::new(b).exists())?;
    let secs: u64 = std::env::var("JJ_FUZZ_S").ok().and_then(|s| s.parse().ok()).unwrap_or(120);
    let dir = std::env::temp_dir().join(format!("jjfuzz-{}-{}", std::process::id(), t.name));
    let _ = std::fs::create_dir_all(dir.join("corpus"));
    let found = dir.join("choices");
    // as many campaigns as threads, sharing one corpus directory
    let runs: Vec<_> = (0..o.threads)
        .map(|k| {
            let mut c = Command::new(&bin);
            // SAFETY: only async-signal-safe calls between fork and exec.
            unsafe {
                c.pre_exec(|| {
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    let l = libc::rlimit { rlim_cur: libc::RLIM_INFINITY, rlim_max: libc::RLIM_INFINITY };
                    libc::setrlimit(libc::RLIMIT_AS, &l);
                    Ok(())
                });
            }
            c.args([
                    format!("-max_total_time={secs}"),
                    format!("-seed={}", o.seed * 1000 + k as u64 + 1),
                    "-max_len=1024".into(),
                    "-reload=1".into(),
                    "-rss_limit_mb=3000".into(),
                    "-timeout=60".into(),
                    "-print_final_stats=1".into(),
                    format!("-artifact_prefix={}/", dir.display()),
                    dir.join("corpus").display().to_string(),
                ])
                .env("JJ_ROOT", &o.root)
                .env("JJ_TARGET_NAME", t.name)
                .env("JJ_FUZZ_OUT", &found)
                .env("ASAN_OPTIONS", "detect_leaks=0:allocator_may_return_null=1")
                .stdin(Stdio::null())
                .stdout(Stdio::null())
                .stderr(Stdio::piped())
                .spawn()
        })
        .collect();
    let mut bad = None;
    let mut execs = 0;
    let mut cov = 0;
    for child in runs.into_iter().flatten() {
        let Ok(done) = child.wait_with_output() else { continue };
        let text = String::from_utf8_lossy(&done.stderr).into_owned();
        for l in text.lines() {
            if let Some(n) = l.strip_prefix("stat::number_of_executed_units:") {
                execs += n.trim().parse::<u64>().unwrap_or(0);
            }
            if let Some(n) = l.split(" cov: ").nth(1) {
                cov = cov.max(n.split(' ').next().and_then(|n| n.parse().ok()).unwrap_or(0));
            }
        }
        if !done.status.success() {
            bad = Some(text);
        }
    }
    extra.insert("coverage-guided cases", execs);
    extra.insert("coverage-guided edges", cov);
    let choices = std::fs::read_to_string(&found).ok().map(|s| parse_choices(&s));
    let artifact = std::fs::read_dir(&dir).ok().and_then(|d| {
        let f = d.flatten().find(|f| f.file_name().to_string_lossy().starts_with("crash-"))?;
        std::fs::read(f.path()).ok()
    });
    let _ = std::fs::remove_dir_all(&dir);
    let text = bad?;
    if let Some(c) = choices {
        // believed if the ordinary build agrees
        let mut ctx = Ctx::new(o.thorough, false);
        let (r, c) = engine::on_big_stack(|| engine::run_choices(t, &c, &mut ctx));
        if let Err(e) = r {
            let (c, msg, runs) = engine::on_big_stack(|| {
                engine::shrink(t, c, e.msg, 6000, &mut |c, ctx| {
                    let (r, rec) = engine::run_choices(t, c, ctx);
                    r.err().map(|e| (e.msg, rec))
                })
            });
            let mut ctx = Ctx::new(o.thorough, true);
            let _ = engine::on_big_stack(|| engine::run_choices(t, &c, &mut ctx));
            return Some(Failure { index: 0, choices: Some(c), msg, shown: ctx.shown, shrink_runs: runs });
        }
    }
    let tail: Vec<&str> = text.lines().filter(|l| l.contains("ERROR") || l.contains("FAILED") || l.contains("SUMMARY")).collect();
    if let (true, Some(a), true) = (o.id == "C03", artifact, text.contains("ERROR: AddressSanitizer")) {
        let mut ctx = Ctx::new(o.thorough, true);
        let (_, c) = engine::on_big_stack(|| engine::run_bytes(t, &a, &mut ctx));
        let msg = format!("memory error: {}", tail.join(" | "));
        return Some(Failure { index: 0, choices: Some(c), msg, shown: ctx.shown, shrink_runs: 0 });
    }
    println!("{}: the fuzzer stopped, which the ordinary build does not confirm: {}", t.name, tail.join(" | "));
    None
}

fn flag_raised() -> bool {
    engine::SLOTS
        .get()
        .is_some_and(|b| unsafe { (*(*b as *const AtomicU64).add(engine::FLAG)).load(Ordering::SeqCst) != 0 })
}
