//! Coverage-guided search over the choices of one random target: the bytes
//! libFuzzer evolves are the choices the target's generator makes.
//! JJ_TARGET_NAME names the target; a failure's choices go to JJ_FUZZ_OUT.
#![no_main]

use jjcheck::engine::{self, Ctx, Kind, Target};
use jjcheck::{findings, props};
use libfuzzer_sys::fuzz_target;
use std::cell::RefCell;
use std::sync::OnceLock;

static TARGET: OnceLock<Target> = OnceLock::new();

thread_local!(static CTX: RefCell<Ctx> = RefCell::new(Ctx::new(false, false)));

fn target() -> &'static Target {
    TARGET.get_or_init(|| {
        let root = std::env::var("JJ_ROOT").unwrap_or_else(|_| ".".into());
        findings::load(&std::fs::read_to_string(format!("{root}/known_findings.txt")).unwrap_or_default());
        engine::install_panic_hook();
        let name = std::env::var("JJ_TARGET_NAME").expect("JJ_TARGET_NAME");
        props::properties()
            .into_iter()
            .flat_map(|p| p.targets)
            .find(|t| t.name == name && matches!(t.kind, Kind::Random(_)))
            .expect("no such random target")
    })
}

fuzz_target!(|data: &[u8]| {
    let t = target();
    let (r, choices) = CTX.with(|c| engine::run_bytes(t, data, &mut c.borrow_mut()));
    if let Err(e) = r {
        let c: Vec<String> = choices.iter().map(u64::to_string).collect();
        if let Ok(out) = std::env::var("JJ_FUZZ_OUT") {
            let _ = std::fs::write(out, c.join(","));
        }
        eprintln!("FAILED: {}", e.msg);
        std::process::abort();
    }
});
