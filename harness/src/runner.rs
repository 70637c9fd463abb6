//! Command line: `gv check|run|one|replay|choices|list`.
//!
//! `check` supervises a `run` child so that a crash of the code under test (stack overflow, SIGSEGV,
//! abort, sanitizer report) is turned into a reproduced and shrunk violation.

use crate::engine::*;
use std::collections::BTreeMap;
use std::io::{Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const EXIT_FAIL: i32 = 1;
pub const EXIT_ERR: i32 = 2;

struct Opts {
    map: BTreeMap<String, String>,
    pos: Vec<String>,
}

impl Opts {
    fn parse() -> Opts {
        let mut map = BTreeMap::new();
        let mut pos = Vec::new();
        let mut it = std::env::args().skip(1).peekable();
        while let Some(a) = it.next() {
            if let Some(k) = a.strip_prefix("--") {
                let v = match it.peek() {
                    Some(v) if !v.starts_with("--") => it.next().unwrap(),
                    _ => "1".into(),
                };
                map.insert(k.to_string(), v);
            } else {
                pos.push(a);
            }
        }
        Opts { map, pos }
    }
    fn get(&self, k: &str) -> Option<&str> {
        self.map.get(k).map(|s| s.as_str())
    }
    fn num(&self, k: &str, d: u64) -> u64 {
        self.get(k).and_then(|s| s.parse().ok()).unwrap_or(d)
    }
}

pub fn find_prop(id: &str) -> Prop {
    crate::props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("unknown property {id}");
        std::process::exit(EXIT_ERR)
    })
}

// ---------------------------------------------------------------- status file

const SLOTS: usize = 128;

/// One 16 byte record per worker thread, written with pwrite so that it survives any crash.
struct FileStatus {
    fd: std::fs::File,
}

impl FileStatus {
    fn open(path: &str) -> FileStatus {
        let fd = std::fs::OpenOptions::new().read(true).write(true).create(true).truncate(false).open(path).unwrap();
        fd.set_len((SLOTS * 16) as u64).unwrap();
        FileStatus { fd }
    }
    fn put(&self, t: usize, phase: u64, case1: u64) {
        use std::os::unix::fs::FileExt;
        if t < SLOTS {
            let mut b = [0u8; 16];
            b[..8].copy_from_slice(&phase.to_le_bytes());
            b[8..].copy_from_slice(&case1.to_le_bytes());
            let _ = self.fd.write_all_at(&b, (t * 16) as u64);
        }
    }
    fn read(path: &str) -> Vec<(usize, u64)> {
        let data = std::fs::read(path).unwrap_or_default();
        let mut out = Vec::new();
        for c in data.chunks_exact(16) {
            let p = u64::from_le_bytes(c[..8].try_into().unwrap());
            let k = u64::from_le_bytes(c[8..].try_into().unwrap());
            if k != 0 {
                out.push((p as usize, k - 1));
            }
        }
        out.sort();
        out
    }
}

impl Status for FileStatus {
    fn begin(&self, t: usize, phase: usize, case: u64) {
        self.put(t, phase as u64, case + 1);
    }
    fn end(&self, t: usize) {
        self.put(t, 0, 0);
    }
}

// ---------------------------------------------------------------- replay files

pub fn write_case(path: &str, prop: &str, phase: &str, thorough: bool, choices: &[u64], msg: &str, how: &str) {
    if let Some(d) = std::path::Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    let mut s = String::new();
    s.push_str(&format!("# {how}\n"));
    for l in msg.lines() {
        s.push_str(&format!("# {l}\n"));
    }
    let exe = std::env::current_exe().map(|p| p.to_string_lossy().into_owned()).unwrap_or_default();
    let engine = if exe.contains("/asan/") {
        "asan"
    } else if exe.contains("/bare") {
        "bare"
    } else if crate::memprobe::installed() {
        "gvmem"
    } else {
        "gv"
    };
    s.push_str(&format!("engine={engine}\nproperty={prop}\nphase={phase}\nthorough={}\nchoices=", thorough as u8));
    let c: Vec<String> = choices.iter().map(|c| c.to_string()).collect();
    s.push_str(&c.join(","));
    s.push('\n');
    std::fs::write(path, s).unwrap();
}

pub struct CaseFile {
    pub prop: String,
    pub phase: String,
    pub thorough: bool,
    pub choices: Vec<u64>,
}

fn read_case(path: &str) -> CaseFile {
    let text = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("{path}: {e}");
        std::process::exit(EXIT_ERR)
    });
    let field = |k: &str| {
        text.lines().find_map(|l| l.strip_prefix(k).and_then(|r| r.strip_prefix('='))).unwrap_or("").to_string()
    };
    CaseFile {
        prop: field("property"),
        phase: field("phase"),
        thorough: field("thorough") == "1",
        choices: field("choices").split(',').filter_map(|s| s.trim().parse().ok()).collect(),
    }
}

// ---------------------------------------------------------------- result file (child -> parent)

fn stats_json(prop: &Prop, stats: &Stats, fail: Option<(&str, &str)>, wall: f64) -> String {
    let mut o = String::from("{");
    o.push_str(&format!("\"property\":{},", jstr(prop.id)));
    o.push_str(&format!("\"rule\":{},", jstr(prop.rule)));
    o.push_str(&format!("\"evaluations\":{},", stats.evaluations));
    o.push_str(&format!("\"distinct_nontrivial\":{},", stats.nontrivial.len()));
    let list = |v: Vec<String>| format!("[{}]", v.join(","));
    o.push_str(&format!("\"assumptions\":{},", list(prop.assumptions.iter().map(|s| jstr(s)).collect())));
    o.push_str(&format!("\"samples\":{},", list(stats.samples.iter().map(|s| jstr(s)).collect())));
    let labels: Vec<String> = stats.labels.iter().map(|(k, v)| format!("{}:{v}", jstr(k))).collect();
    o.push_str(&format!("\"labels\":{{{}}},", labels.join(",")));
    let known: Vec<String> = stats.known.iter().map(|(k, v)| format!("{}:{}", jstr(k), jstr(v))).collect();
    o.push_str(&format!("\"known\":{{{}}},", known.join(",")));
    let phases: Vec<String> = stats
        .phases
        .iter()
        .map(|(n, c, s)| format!("{{\"phase\":{},\"cases\":{c},\"wall_s\":{s:.2}}}", jstr(n)))
        .collect();
    o.push_str(&format!("\"phases\":{},", list(phases)));
    if let Some((replay, msg)) = fail {
        o.push_str(&format!("\"violation\":{{\"replay\":{},\"message\":{}}},", jstr(replay), jstr(msg)));
    }
    o.push_str(&format!("\"wall_s\":{wall:.2}}}"));
    o
}

// ---------------------------------------------------------------- commands

pub fn main() {
    install_panic_hook();
    let o = Opts::parse();
    if let Some(k) = o.get("known") {
        if let Some(p) = o.pos.get(1) {
            load_known(k, p);
        }
    }
    match o.pos.first().map(|s| s.as_str()) {
        Some("list") => {
            for p in crate::props::all() {
                for ph in &p.phases {
                    println!("{} {} quick={} thorough={} hook={}", p.id, ph.name, ph.quick, ph.thorough, ph.hook);
                }
            }
        }
        Some("run") => run(&o),
        Some("check") => check(&o),
        Some("one") => one(&o),
        Some("corpus") => corpus(&o),
        Some("frombytes") => from_bytes(&o),
        Some("shrink") => shrink_file(&o),
        Some("replay") => replay(&o, true),
        Some("eval") => replay(&o, false),
        _ => {
            eprintln!("usage: gv check|run|one|replay|list PROP ...");
            std::process::exit(EXIT_ERR);
        }
    }
}

fn limit_memory() {
    #[cfg(feature = "codecs")]
    unsafe {
        // keep big buffers mapped between cases: page faults dominate otherwise
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TOP_PAD, 64 << 20);
    }
    // AddressSanitizer reserves terabytes of address space
    if cfg!(any(feature = "codecs")) && std::env::var_os("GV_NO_RLIMIT").is_none() {
        #[cfg(feature = "codecs")]
        unsafe {
            let gb = std::env::var("GV_AS_GB").ok().and_then(|s| s.parse().ok()).unwrap_or(26u64);
            let lim = libc::rlimit { rlim_cur: gb << 30, rlim_max: gb << 30 };
            libc::setrlimit(libc::RLIMIT_AS, &lim);
            let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &core);
        }
    }
}

/// Phases selected by --phase (comma separated) and by the presence of the hooks.
fn selected(o: &Opts, prop: &Prop) -> Vec<usize> {
    let hooked = cfg!(feature = "hook");
    prop.phases
        .iter()
        .enumerate()
        .filter(|(_, p)| !p.hook || hooked)
        .filter(|(_, p)| p.mem == crate::memprobe::installed())
        .filter(|(_, p)| o.get("phase").is_none_or(|l| l.split(',').any(|n| n == p.name)))
        .filter(|(_, p)| o.get("skip").is_none_or(|l| !l.split(',').any(|n| n == p.name)))
        .map(|(i, _)| i)
        .collect()
}

fn run(o: &Opts) {
    limit_memory();
    let prop = find_prop(&o.pos[1]);
    let seed = o.num("seed", 1);
    let thorough = o.get("tier") == Some("thorough");
    let scale: f64 = o.get("scale").and_then(|s| s.parse().ok()).unwrap_or(1.0);
    let out_dir = o.get("out-dir").unwrap_or("/verif/out/replay").to_string();
    let t0 = Instant::now();
    let status: Box<dyn Status> = match o.get("status") {
        Some(p) => Box::new(FileStatus::open(p)),
        None => Box::new(NoStatus),
    };
    let mut stats = Stats::default();
    let mut fail = None;
    for i in selected(o, &prop) {
        eprint!("  {} {} ...", prop.id, prop.phases[i].name);
        if let Some(f) = run_phase(&prop, i, seed, thorough, scale, &mut stats, &*status) {
            eprintln!(" FAILED at case {}: {}", f.case, f.msg.lines().next().unwrap_or(""));
            let phase = &prop.phases[i];
            let how = format!("seed {seed}, case {} of phase {}", f.case, phase.name);
            // The unshrunk case is on disk before shrinking starts.
            let path = format!("{out_dir}/{}-{}-{}.case", prop.id, phase.name, f.case);
            write_case(&path, prop.id, phase.name, thorough, &f.choices, &f.msg, &how);
            let (best, evals) = if o.get("no-shrink").is_some() {
                (Evald { choices: f.choices, spans: f.spans, msg: f.msg }, 0)
            } else {
                shrink(
                    Evald { choices: f.choices, spans: f.spans, msg: f.msg },
                    3000,
                    Duration::from_secs(20),
                    &mut |cand| {
                        let mut src = Src::replay(cand);
                        let mut ctx = Ctx { thorough, ..Ctx::default() };
                        status.begin(0, i, u64::MAX - 1);
                        let r = run_case(phase.f, &mut src, &mut ctx);
                        status.end(0);
                        r.err().map(|msg| Evald { choices: src.rec, spans: src.spans, msg })
                    },
                )
            };
            let mut src = Src::replay(best.choices.clone());
            let mut ctx = Ctx { thorough, verbose: true, ..Ctx::default() };
            let _ = run_case(phase.f, &mut src, &mut ctx);
            let mut msg = best.msg.clone();
            if let Some(s) = ctx.sample {
                msg.push_str(&format!("\ncase: {s}"));
            }
            write_case(&path, prop.id, phase.name, thorough, &best.choices, &msg, &format!("{how}; shrunk in {evals} runs"));
            fail = Some((path, msg));
            break;
        }
        let (_, n, s) = stats.phases.last().unwrap();
        eprintln!(" {n} cases, {s:.1} s");
    }
    let json = stats_json(&prop, &stats, fail.as_ref().map(|(a, b)| (a.as_str(), b.as_str())), t0.elapsed().as_secs_f64());
    match o.get("json") {
        Some(p) => std::fs::write(p, json).unwrap(),
        None => println!("{json}"),
    }
    std::process::exit(if fail.is_some() { EXIT_FAIL } else { 0 });
}

fn one(o: &Opts) {
    limit_memory();
    let prop = find_prop(&o.pos[1]);
    let phase = prop.phases.iter().find(|p| p.name == o.pos[2]).expect("phase");
    let mut src = make_src(o.num("seed", 1), prop.id, phase, o.pos[3].parse().unwrap());
    let mut ctx =
        Ctx { thorough: o.get("tier") == Some("thorough"), verbose: o.get("quiet").is_none(), ..Ctx::default() };
    let t = Instant::now();
    let r = run_case(phase.f, &mut src, &mut ctx);
    if o.get("quiet").is_none() {
        for n in &ctx.notes {
            println!("  {n}");
        }
        println!("case: {}", ctx.sample.clone().unwrap_or_default());
        println!("labels: {:?}  choices: {}  {:.3}s", ctx.labels, src.rec.len(), t.elapsed().as_secs_f64());
    }
    if let Some(p) = o.get("dump") {
        let mut s = String::new();
        for c in &src.rec {
            s.push_str(&format!("{c}\n"));
        }
        s.push_str("spans\n");
        for (a, b) in &src.spans {
            s.push_str(&format!("{a} {b}\n"));
        }
        let _ = std::fs::write(p, s);
    }
    match r {
        Ok(()) => println!("ok"),
        Err(m) => {
            println!("FAIL {m}");
            std::process::exit(EXIT_FAIL)
        }
    }
}

fn replay(o: &Opts, verbose: bool) {
    limit_memory();
    let cf = read_case(&o.pos[1]);
    if let Some(k) = o.get("known") {
        load_known(k, &cf.prop);
    }
    let prop = find_prop(&cf.prop);
    let Some(phase) = prop.phases.iter().find(|p| p.name == cf.phase) else {
        eprintln!("unknown phase {}", cf.phase);
        std::process::exit(EXIT_ERR)
    };
    let mut src = Src::replay(cf.choices);
    let mut ctx = Ctx { thorough: cf.thorough, verbose, ..Ctx::default() };
    let r = run_case(phase.f, &mut src, &mut ctx);
    if verbose {
        for n in &ctx.notes {
            println!("  {n}");
        }
        println!("case: {}", ctx.sample.clone().unwrap_or_default());
    }
    match r {
        Ok(()) => println!("ok: {} {} holds on this case", cf.prop, cf.phase),
        Err(m) => {
            println!("VIOLATION property={} replay={}", cf.prop, o.pos[1]);
            println!("{m}");
            std::process::exit(EXIT_FAIL)
        }
    }
}

/// Writes random cases in the encoding the fuzzer uses: its seed corpus.
fn corpus(o: &Opts) {
    limit_memory();
    let prop = find_prop(&o.pos[1]);
    let phase = prop.phases.iter().find(|p| p.name == o.pos[2]).expect("phase");
    let (n, dir) = (o.num("count", 100), o.get("dir").expect("--dir"));
    std::fs::create_dir_all(dir).unwrap();
    for i in 0..n {
        let mut src = make_src(o.num("seed", 1), prop.id, phase, i);
        src.encoded = Some(Vec::new());
        let _ = run_case(phase.f, &mut src, &mut Ctx::default());
        let data = src.encoded.unwrap();
        if data.len() <= o.num("max-len", 4096) as usize {
            std::fs::write(format!("{dir}/{i:06}"), data).unwrap();
        }
    }
}

/// Runs one fuzzer input; with GV_RECORD set its choices survive a crash.
fn from_bytes(o: &Opts) {
    limit_memory();
    let prop = find_prop(&o.pos[1]);
    let phase = prop.phases.iter().find(|p| p.name == o.pos[2]).expect("phase");
    let mut src = Src::bytes(std::fs::read(&o.pos[3]).unwrap(), true);
    let mut ctx = Ctx::default();
    if let Err(m) = run_case(phase.f, &mut src, &mut ctx) {
        println!("FAIL {m}");
        if let Some(p) = o.get("case") {
            write_case(p, prop.id, phase.name, false, &src.rec, &m, "found by libFuzzer");
        }
        std::process::exit(EXIT_FAIL)
    }
}

/// Shrinks a failing case in place.
fn shrink_file(o: &Opts) {
    limit_memory();
    let cf = read_case(&o.pos[1]);
    if let Some(k) = o.get("known") {
        load_known(k, &cf.prop);
    }
    let prop = find_prop(&cf.prop);
    let phase = prop.phases.iter().find(|p| p.name == cf.phase).expect("phase");
    let eval = |cand: Vec<u64>| {
        let mut src = Src::replay(cand);
        let mut ctx = Ctx { thorough: cf.thorough, ..Ctx::default() };
        let r = run_case(phase.f, &mut src, &mut ctx);
        r.err().map(|msg| Evald { choices: src.rec, spans: src.spans, msg })
    };
    let Some(first) = eval(cf.choices.clone()) else {
        println!("holds");
        return;
    };
    let (best, evals) = shrink(first, 3000, Duration::from_secs(20), &mut |c| eval(c));
    let mut src = Src::replay(best.choices.clone());
    let mut ctx = Ctx { thorough: cf.thorough, verbose: true, ..Ctx::default() };
    let _ = run_case(phase.f, &mut src, &mut ctx);
    let mut msg = best.msg;
    if let Some(s) = ctx.sample {
        msg.push_str(&format!("\ncase: {s}"));
    }
    write_case(&o.pos[1], prop.id, phase.name, cf.thorough, &best.choices, &msg, &format!("shrunk in {evals} runs"));
    println!("{msg}");
    std::process::exit(EXIT_FAIL)
}

fn spawn_eval(path: &str, known: Option<&str>, timeout: Duration) -> (Option<i32>, Option<i32>, String) {
    let exe = std::env::current_exe().unwrap();
    let mut c = Command::new(exe);
    c.arg("eval").arg(path);
    if let Some(k) = known {
        c.arg("--known").arg(k);
    }
    wait_output(c, timeout)
}

/// (exit code, signal, tail of stderr)
fn wait_output(mut c: Command, timeout: Duration) -> (Option<i32>, Option<i32>, String) {
    c.stdout(Stdio::null()).stderr(Stdio::piped());
    let mut child = c.spawn().unwrap();
    let mut err = child.stderr.take().unwrap();
    let h = std::thread::spawn(move || {
        let mut s = Vec::new();
        let _ = err.read_to_end(&mut s);
        String::from_utf8_lossy(&s).into_owned()
    });
    let t0 = Instant::now();
    loop {
        if let Some(st) = child.try_wait().unwrap() {
            let text = h.join().unwrap_or_default();
            return (st.code(), st.signal(), text);
        }
        if t0.elapsed() > timeout {
            let _ = child.kill();
            let _ = child.wait();
            return (Some(EXIT_ERR), None, "timeout".into());
        }
        std::thread::sleep(Duration::from_millis(5));
    }
}

fn is_crash(code: Option<i32>, signal: Option<i32>, stderr: &str) -> bool {
    // 9 is the out-of-memory killer or our own timeout, never evidence of a violation.
    if signal == Some(9) || stderr.contains("memory allocation of") {
        return false;
    }
    signal.is_some() || code == Some(77)
}

fn check(o: &Opts) {
    let prop = find_prop(&o.pos[1]);
    let thorough = o.get("tier") == Some("thorough");
    let json = o.get("json").expect("--json").to_string();
    let out_dir = o.get("out-dir").unwrap_or("/verif/out/replay").to_string();
    let _ = std::fs::create_dir_all(&out_dir);
    let status = format!("{json}.status");
    let _ = std::fs::remove_file(&json);
    let _ = std::fs::remove_file(&status);
    let exe = std::env::current_exe().unwrap();
    let t0 = Instant::now();
    let mut c = Command::new(&exe);
    c.arg("run").arg(prop.id);
    for (k, v) in &o.map {
        c.arg(format!("--{k}")).arg(v);
    }
    c.arg("--status").arg(&status);
    c.stdout(Stdio::null()).stderr(Stdio::piped());
    let mut child = c.spawn().unwrap();
    let mut err = child.stderr.take().unwrap();
    let tail = std::thread::spawn(move || {
        let mut all = Vec::new();
        let mut buf = [0u8; 4096];
        while let Ok(n) = err.read(&mut buf) {
            if n == 0 {
                break;
            }
            let _ = std::io::stderr().write_all(&buf[..n]);
            all.extend_from_slice(&buf[..n]);
            if all.len() > 1 << 20 {
                let cut = all.len() - (1 << 19);
                all.drain(..cut);
            }
        }
        String::from_utf8_lossy(&all).into_owned()
    });
    // No progress for this long in any single case is an error of the run, not a verdict.
    let stuck_limit = Duration::from_secs(o.num("stuck", if thorough { 1500 } else { 240 }));
    let mut last: Vec<(usize, u64)> = Vec::new();
    let mut last_change = Instant::now();
    let st = loop {
        if let Some(st) = child.try_wait().unwrap() {
            break Some(st);
        }
        let cur = FileStatus::read(&status);
        if cur != last {
            last = cur;
            last_change = Instant::now();
        } else if last_change.elapsed() > if shrinking(&last) { stuck_limit.min(SHRINK_STUCK) } else { stuck_limit } {
            eprintln!("no progress for {} s in cases {:?}: giving up", stuck_limit.as_secs(), last);
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(50));
    };
    let ctl = Ctl { o, prop: &prop, exe: &exe, json: &json, out_dir: &out_dir, thorough, t0 };
    let Some(st) = st else {
        if stuck_limit.as_secs() >= 100 || shrinking(&last) {
            runaway(&ctl, &FileStatus::read(&status), false);
        }
        std::process::exit(EXIT_ERR)
    };
    let text = tail.join().unwrap_or_default();
    if let Some(code) = st.code() {
        if code == 0 || (code == EXIT_FAIL && std::path::Path::new(&json).exists()) {
            std::process::exit(code);
        }
    }
    if !is_crash(st.code(), st.signal(), &text) {
        if st.signal() == Some(9) || text.contains("memory allocation of") {
            runaway(&ctl, &FileStatus::read(&status), true);
        }
        eprintln!("the search ended abnormally ({st}), without evidence of a violation");
        std::process::exit(EXIT_ERR);
    }
    // A crash: find which of the cases in progress causes it.
    let cands = FileStatus::read(&status);
    eprintln!("the search crashed ({st}); cases in progress: {cands:?}");
    for (p, case) in cands {
        let Some(phase) = prop.phases.get(p) else { continue };
        if case >= u64::MAX - 1 {
            unshrunk(&prop, phase, &json, &out_dir, "it crashes the process while it is shrunk", t0);
            continue;
        }
        let dump = format!("{json}.dump");
        let mut c = Command::new(&exe);
        c.args(["one", prop.id, phase.name, &case.to_string(), "--quiet", "1"]);
        c.args(["--seed", o.get("seed").unwrap_or("1")]);
        if thorough {
            c.args(["--tier", "thorough"]);
        }
        let (code, sig, text) = wait_output(c, Duration::from_secs(120));
        if !is_crash(code, sig, &text) {
            continue;
        }
        let msg = format!("process died: exit {code:?} signal {sig:?}\n{}", tail_of(&text));
        // Regenerate the choices without running the property is impossible: bisect from a rerun in
        // record mode is replaced by replaying "one" from the seed.
        let path = format!("{out_dir}/{}-{}-{}.case", prop.id, phase.name, case);
        let choices = record_until_crash(&exe, &prop, phase, case, o, thorough, &dump);
        write_case(&path, prop.id, phase.name, thorough, &choices, &msg, &format!("seed {}, case {case} crashed", o.get("seed").unwrap_or("1")));
        let known = o.get("known").map(|s| s.to_string());
        let (best, evals) = shrink(
            Evald { choices, spans: vec![], msg },
            150,
            Duration::from_secs(40),
            &mut |cand| {
                let tmp = format!("{json}.cand");
                write_case(&tmp, prop.id, phase.name, thorough, &cand, "", "candidate");
                let (code, sig, text) = spawn_eval(&tmp, known.as_deref(), Duration::from_secs(60));
                let _ = std::fs::remove_file(&tmp);
                if is_crash(code, sig, &text) {
                    Some(Evald {
                        choices: cand,
                        spans: vec![],
                        msg: format!("process died: exit {code:?} signal {sig:?}\n{}", tail_of(&text)),
                    })
                } else {
                    None
                }
            },
        );
        write_case(&path, prop.id, phase.name, thorough, &best.choices, &best.msg, &format!("crash, shrunk in {evals} runs"));
        finish_crash(&prop, &json, &path, &best.msg, t0);
    }
    eprintln!("the crash did not reproduce on any single case");
    std::process::exit(EXIT_ERR);
}

struct Ctl<'a> {
    o: &'a Opts,
    prop: &'a Prop,
    exe: &'a std::path::Path,
    json: &'a str,
    out_dir: &'a str,
    thorough: bool,
    t0: Instant,
}

/// How much one case may take when it runs alone: no case of the unchanged tree comes near either.
const ALONE_GB: &str = "20";
const ALONE_S: u64 = 200;

/// The search ran out of memory, or one of its cases does not end.  Each case in progress runs again, alone in a
/// process of its own; it is a violation when it still does not give an answer there.
fn runaway(c: &Ctl, cands: &[(usize, u64)], memory: bool) {
    eprintln!("cases in progress: {cands:?}");
    if let Some((p, _)) = cands.iter().find(|x| x.1 >= u64::MAX - 1) {
        if let Some(phase) = c.prop.phases.get(*p) {
            unshrunk(c.prop, phase, c.json, c.out_dir, "a smaller case found while shrinking gives no answer", c.t0);
        }
    }
    let seed = c.o.get("seed").unwrap_or("1").to_string();
    let command = |phase: &Phase, case: u64| {
        let mut cmd = Command::new(c.exe);
        cmd.args(["one", c.prop.id, phase.name, &case.to_string(), "--quiet", "1", "--seed", &seed]);
        if c.thorough {
            cmd.args(["--tier", "thorough"]);
        }
        cmd.env("GV_AS_GB", ALONE_GB);
        cmd
    };
    let known: Vec<(&Phase, u64)> =
        cands.iter().filter(|x| x.1 < u64::MAX - 1).filter_map(|x| Some((c.prop.phases.get(x.0)?, x.1))).collect();
    let run = |phase: &Phase, case: u64| {
        let t = Instant::now();
        let (code, _, text) = wait_output(command(phase, case), Duration::from_secs(ALONE_S));
        if text.contains("memory allocation of") {
            return Some(format!("the case alone does not fit in {ALONE_GB} GB of memory\n{}", tail_of(&text)));
        }
        (code == Some(EXIT_ERR) && text == "timeout")
            .then(|| format!("the case alone does not end within {} s", t.elapsed().as_secs()))
    };
    // memory is only enough for one at a time
    let found: Vec<Option<String>> = if memory {
        let mut v = Vec::new();
        for (p, k) in &known {
            v.push(run(p, *k));
            if v.last().unwrap().is_some() {
                break;
            }
        }
        v
    } else {
        let run = &run;
        std::thread::scope(|s| {
            let hs: Vec<_> = known.iter().map(|(p, k)| s.spawn(move || run(p, *k))).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        })
    };
    for ((phase, case), msg) in known.iter().zip(found) {
        let Some(msg) = msg else { continue };
        let dump = format!("{}.dump", c.json);
        let path = format!("{}/{}-{}-{case}.case", c.out_dir, c.prop.id, phase.name);
        let mut cmd = command(phase, *case);
        cmd.env("GV_RECORD", &dump);
        let _ = std::fs::remove_file(&dump);
        let _ = wait_output(cmd, Duration::from_secs(if memory { ALONE_S } else { 20 }));
        let data = std::fs::read(&dump).unwrap_or_default();
        let _ = std::fs::remove_file(&dump);
        let choices: Vec<u64> = data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        write_case(&path, c.prop.id, phase.name, c.thorough, &choices, &msg, &format!("seed {seed}, case {case}: no answer"));
        finish_crash(c.prop, c.json, &path, &msg, c.t0);
    }
}

/// A smaller case that takes this long does not end.
const SHRINK_STUCK: Duration = Duration::from_secs(60);

fn shrinking(cands: &[(usize, u64)]) -> bool {
    cands.iter().any(|x| x.1 >= u64::MAX - 1)
}

/// Reports an ordinary failure that was written to disk before its shrinking went wrong.
fn unshrunk(prop: &Prop, phase: &Phase, json: &str, out_dir: &str, why: &str, t0: Instant) {
    let Ok(rd) = std::fs::read_dir(out_dir) else { return };
    let pre = format!("{}-{}-", prop.id, phase.name);
    let newest = rd
        .flatten()
        .filter(|f| f.file_name().to_string_lossy().starts_with(&pre))
        .filter(|f| f.file_name().to_string_lossy()[pre.len()..].strip_suffix(".case").is_some_and(|n| n.parse::<u64>().is_ok()))
        .max_by_key(|f| f.metadata().and_then(|m| m.modified()).ok());
    if let Some(f) = newest {
        let path = f.path().to_string_lossy().into_owned();
        let text = std::fs::read_to_string(&path).unwrap_or_default();
        let msg: String = text.lines().skip(1).map_while(|l| l.strip_prefix("# ")).map(|l| format!("{l}\n")).collect();
        finish_crash(prop, json, &path, &format!("{msg}(not shrunk: {why})"), t0);
    }
}

fn finish_crash(prop: &Prop, json: &str, path: &str, msg: &str, t0: Instant) -> ! {
    let stats = Stats { evaluations: 1, ..Stats::default() };
    let s = stats_json(prop, &stats, Some((path, msg)), t0.elapsed().as_secs_f64());
    std::fs::write(json, s).unwrap();
    std::process::exit(EXIT_FAIL);
}

fn tail_of(text: &str) -> String {
    let lines: Vec<&str> = text.lines().collect();
    lines.iter().take(40).map(|l| format!("{l}\n")).collect()
}

/// Re-runs the case with every choice streamed to a file, so that the choices survive the crash.
fn record_until_crash(
    exe: &std::path::Path,
    prop: &Prop,
    phase: &Phase,
    case: u64,
    o: &Opts,
    thorough: bool,
    dump: &str,
) -> Vec<u64> {
    let _ = std::fs::remove_file(dump);
    let mut c = Command::new(exe);
    c.args(["one", prop.id, phase.name, &case.to_string(), "--quiet", "1"]);
    c.args(["--seed", o.get("seed").unwrap_or("1")]);
    if thorough {
        c.args(["--tier", "thorough"]);
    }
    c.env("GV_RECORD", dump);
    let _ = wait_output(c, Duration::from_secs(120));
    let data = std::fs::read(dump).unwrap_or_default();
    let _ = std::fs::remove_file(dump);
    data.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect()
}
