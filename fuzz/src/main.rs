//! Coverage-guided search: libFuzzer's bytes become the choices of one case of one phase.
//!
//! GV_FUZZ_PROP, GV_FUZZ_PHASE select the phase; a failing case is written to GV_FUZZ_CASE and the process ends
//! with `FOUND`.  A crash leaves the choices of the case in GV_RECORD (see `Src`).
#![no_main]

use gv::engine::{install_panic_hook, mix, run_case, Ctx, Phase, Src};
use std::collections::HashSet;
use std::sync::{Mutex, OnceLock};

pub const FOUND: i32 = 78;

struct Target {
    prop: &'static str,
    phase: Phase,
    case: String,
}

/// Cases run, and a hash of every distinct non-trivial one.
static SEEN: Mutex<(u64, Option<HashSet<u64>>)> = Mutex::new((0, None));

static TARGET: OnceLock<Target> = OnceLock::new();

fn env(k: &str) -> String {
    std::env::var(k).unwrap_or_else(|_| panic!("{k} is not set"))
}

fn target() -> &'static Target {
    TARGET.get_or_init(|| {
        // libFuzzer's own hook aborts on every panic; cases may catch theirs
        install_panic_hook();
        let prop = gv::runner::find_prop(&env("GV_FUZZ_PROP"));
        let name = env("GV_FUZZ_PHASE");
        let phase = *prop.phases.iter().find(|p| p.name == name).expect("phase");
        if let Ok(k) = std::env::var("GV_FUZZ_KNOWN") {
            gv::engine::load_known(&k, prop.id);
        }
        unsafe { libc_atexit(write_stats) };
        Target { prop: prop.id, phase, case: env("GV_FUZZ_CASE") }
    })
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    let t = target();
    let mut src = Src::bytes(data.to_vec(), false);
    let mut ctx = Ctx::default();
    if let Err(msg) = run_case(t.phase.f, &mut src, &mut ctx) {
        gv::runner::write_case(&t.case, t.prop, t.phase.name, false, &src.rec, &msg, "found by libFuzzer");
        write_stats();
        unsafe { libc_exit(FOUND) };
    }
    let mut seen = SEEN.lock().unwrap();
    seen.0 += 1;
    if ctx.nontrivial {
        let h = src.rec.iter().fold(0, |h, c| mix(h ^ *c));
        seen.1.get_or_insert_default().insert(h);
    }
});

extern "C" fn write_stats() {
    if let (Ok(p), Ok(seen)) = (std::env::var("GV_FUZZ_STATS"), SEEN.lock()) {
        let _ = std::fs::write(p, format!("{} {}\n", seen.0, seen.1.as_ref().map_or(0, |s| s.len())));
    }
}

extern "C" {
    #[link_name = "atexit"]
    fn libc_atexit(f: extern "C" fn()) -> i32;
    #[link_name = "_exit"]
    fn libc_exit(code: i32) -> !;
}
