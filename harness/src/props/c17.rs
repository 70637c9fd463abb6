//! C17: memory safety of the buffers and of the borrowed entries, no arithmetic overflow.
//!
//! The same cases run on three engines: `gv` (overflow checks, debug assertions and the preconditions
//! of unsafe standard library functions), `gvmem` (guard allocator: layouts, canaries, alignment,
//! writes to released memory, leaks; every case runs under two different fill patterns and must give
//! the same results) and an AddressSanitizer build of `gv`.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::memprobe;
use crate::props::c03;
use crate::scen::*;
use crate::sim::*;
use crate::sorterkit::{self, SCfg, Storage, MIN_MEMORY};
use crate::util::*;
use grenad::{ChunkCreator, CursorVec, Merger, Reader, Sorter};
use std::io::ErrorKind;
use std::ops::Bound;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "a case is a sequence of insert sizes with a buffer configuration, or a read, write, merge or sort scenario \
               (with or without injected failures and panics), run on a build with overflow checks, under a guard \
               allocator and under AddressSanitizer; non-trivial when the sorter buffer was exactly filled, grown or \
               exceeded, or when borrowed entries were handed out; distinct by choice sequence",
        assumptions: &[
            "a panic is a violation when it reports an arithmetic overflow, an index or a length out of range, a misaligned \
             cast or a violated precondition of an unsafe function; other panics and results belong to the other properties",
            "results that depend on the content of uninitialised or released memory (two fill patterns) are a violation",
            "leaks are measured on the thread of the case, without parallel sorting",
            "memory allocated by the C codecs is only seen by AddressSanitizer's interceptors",
        ],
        phases: vec![
            Phase::random("buffers", 12_000, 400_000, buffers).hook(),
            Phase::random("tiny", 30_000, 600_000, tiny),
            Phase::random("real-buffers", 240, 8_000, real_buffers),
            Phase::enumerate("real-budgets", 8, 80, real_budgets).threads(4),
            Phase::enumerate("huge-budgets", 220, 220, huge_budgets),
            Phase::enumerate("beyond-4gib", 2, 4, beyond_4gib).threads(2),
            Phase::random("scenarios", 20_000, 600_000, scenarios),
            Phase::random("failures", 6_000, 200_000, failures),
            Phase::random("held", 10_000, 300_000, held),
            Phase::random("held-iterators", 8_000, 300_000, held_iters),
            Phase::random("mem-buffers", 12_000, 400_000, buffers).hook().mem(),
            Phase::random("mem-tiny", 20_000, 300_000, tiny).mem(),
            Phase::random("mem-real-buffers", 240, 8_000, real_buffers).mem(),
            Phase::enumerate("mem-real-budgets", 8, 80, real_budgets).threads(4).mem(),
            Phase::enumerate("mem-huge-budgets", 220, 220, huge_budgets).mem(),
            Phase::random("mem-scenarios", 6_000, 200_000, scenarios).mem(),
            Phase::random("mem-failures", 3_000, 100_000, failures).mem(),
            Phase::random("mem-held", 8_000, 100_000, held).mem(),
            Phase::random("mem-held-iterators", 6_000, 100_000, held_iters).mem(),
        ],
    }
}

/// The panic of a checked operation that reports what would have been undefined or wrapped.
fn memory_panic(p: &str) -> bool {
    (p.contains("attempt to ") && p.contains("overflow"))
        || p.contains("out of range")
        || p.contains("out of bounds")
        || p.contains("unsafe precondition")
        || p.contains("misaligned")
        || p.contains("slice index starts at")
        || p.contains("slice length")
        || p.contains("cast_slice")
        || p.contains("LayoutError")
        || p.contains("mid > len")
}

/// Runs `f`, under the guard allocator when it is there.
fn measured<T: PartialEq>(f: impl Fn() -> T, show: impl Fn(&T, &T) -> String) -> Result<T, String> {
    if !memprobe::installed() {
        return Ok(f());
    }
    let bad = || match memprobe::take_bad() {
        Some(b) => Err(format!("{}: (size, align) {:?}, {:?}", b.what, b.a, b.b)),
        None => Ok(()),
    };
    memprobe::flush();
    memprobe::take_bad();
    memprobe::set_fill(0xa5, 0xdd);
    let first = f();
    memprobe::flush();
    bad()?;
    memprobe::set_fill(0x5a, 0x22);
    let mut leak = (0, 0);
    for i in 0..3 {
        let before = memprobe::live();
        let again = f();
        let same = again == first;
        let diff = if same { String::new() } else { show(&first, &again) };
        drop(again);
        memprobe::flush();
        ensure!(same, "the results depend on the content of uninitialised or released memory: {diff}");
        drop(diff);
        let after = memprobe::live();
        leak = (after.0 - before.0, after.1 - before.1);
        bad()?;
        if leak == (0, 0) {
            break;
        }
        // what is allocated once (lazily initialised state) is not a leak
        if i == 2 {
            break;
        }
    }
    memprobe::set_fill(0xa5, 0xdd);
    ensure!(leak == (0, 0), "{} bytes in {} blocks are still allocated after everything was dropped", leak.0, leak.1);
    Ok(first)
}

// ---------------------------------------------------------------- insert sizes

#[derive(Clone, Debug)]
struct Plan {
    s: SCfg,
    kind: MergeKind,
    route: usize,
    sizes: Vec<(usize, usize)>,
    keys: u64,
    seed: u64,
    out: Cfg,
}

#[derive(Default)]
struct Shape {
    exact: u32,
    grown: u32,
    exceeded: u32,
    zero: u32,
}

const BOUND: usize = 16;

/// Insert sizes chosen around the space left in a model of the buffer: the model only steers.
fn sizes(src: &mut Src, cap: usize, budget: usize, realloc: bool, max_n: usize, max_vol: usize) -> (Vec<(usize, usize)>, Shape) {
    let cap0 = cap.div_ceil(BOUND) * BOUND;
    let mut cap = cap0;
    let mut used = 0usize;
    let mut vol = 0usize;
    let mut sh = Shape::default();
    let out = src.list(0, max_n, |s| {
        let rem = cap - used.min(cap);
        let p = match s.weighted(&[5, 3, 3, 2, 3, 4, 2, 2, 2, 3]) {
            0 => rem.saturating_sub(BOUND),
            1 => (rem.saturating_sub(BOUND) + 1).saturating_sub(s.index(3)),
            2 => rem.saturating_sub(2 * BOUND) + s.index(3),
            3 => 0,
            4 => s.log_range(0, 64) as usize,
            5 => s.index(cap / 4 + 2),
            // exactly fills the buffer after it doubled
            6 => (2 * cap).saturating_sub(used + BOUND),
            7 => cap + s.index(cap + 2),
            8 => (cap * s.pick(&[2usize, 3, 4, 8])).saturating_sub(s.index(40)),
            _ => rem / (2 + s.index(6)),
        };
        let p = p.min(max_vol.saturating_sub(vol));
        vol += p;
        let k = match s.weighted(&[3, 2, 3]) {
            0 => p.min(s.index(9)),
            1 => p,
            _ => s.index(p + 1),
        };
        if p == 0 {
            sh.zero += 1;
        }
        if p + BOUND > cap {
            sh.exceeded += 1;
        }
        // what the documentation describes
        if p + BOUND > rem && (!realloc || cap >= budget) {
            used = 0;
        }
        while p + BOUND > cap - used {
            cap *= 2;
            sh.grown += 1;
        }
        used += p + BOUND;
        if used == cap {
            sh.exact += 1;
        }
        (k, p - k)
    });
    (out, sh)
}

fn content(p: &Plan) -> Entries {
    let mut rng = Rng::new(p.seed);
    p.sizes
        .iter()
        .enumerate()
        .map(|(i, (k, v))| {
            let id = rng.below(p.keys.max(1));
            let key: Vec<u8> = (0..*k).map(|j| (mix(id + j as u64 / 8) >> (8 * (j % 8))) as u8).collect();
            let val: Vec<u8> = (0..*v).map(|j| (i + j) as u8).collect();
            (key, val)
        })
        .collect()
}

fn finish<CC: ChunkCreator>(p: &Plan, ins: &Entries, creator: CC, look: impl Fn(&Sorter<Merge, CC>)) -> Result<Entries, String> {
    let mut sorter: Sorter<Merge, CC> = p.s.build(Merge::new(p.kind), creator);
    look(&sorter);
    for (k, v) in ins {
        sorter.insert(k, v).map_err(|x| format!("insert: {x}"))?;
        look(&sorter);
    }
    let mut got = Vec::new();
    match p.route {
        0 => {
            let mut it = sorter.into_stream_merger_iter().map_err(|x| x.to_string())?;
            while let Some((k, v)) = it.next().map_err(|x| x.to_string())? {
                got.push((k.to_vec(), v.to_vec()));
            }
        }
        1 => {
            let mut w = p.out.builder().build(Vec::new());
            sorter.write_into_stream_writer(&mut w).map_err(|x| x.to_string())?;
            got = sorterkit::scan_bytes(&w.into_inner().map_err(|x| x.to_string())?)?;
        }
        2 => {
            let cursors = sorter.into_reader_cursors().map_err(|x| x.to_string())?;
            let mut b = Merger::builder(Merge::new(p.kind));
            b.extend(cursors);
            let mut it = b.build().into_stream_merger_iter().map_err(|x| x.to_string())?;
            while let Some((k, v)) = it.next().map_err(|x| x.to_string())? {
                got.push((k.to_vec(), v.to_vec()));
            }
        }
        // dropped at any moment
        3 => drop(sorter),
        4 => {
            let mut it = sorter.into_stream_merger_iter().map_err(|x| x.to_string())?;
            for _ in 0..ins.len() / 2 {
                if let Some((k, v)) = it.next().map_err(|x| x.to_string())? {
                    got.push((k.to_vec(), v.to_vec()));
                }
            }
        }
        _ => {
            let mut cursors = sorter.into_reader_cursors().map_err(|x| x.to_string())?;
            let n = cursors.len();
            for c in cursors.iter_mut().skip(n / 2) {
                got.extend(own(c.move_on_last().map_err(|x| x.to_string())?));
                got.extend(own(c.move_on_prev().map_err(|x| x.to_string())?));
            }
        }
    }
    Ok(got)
}

fn run_plan(ctx: &mut Ctx, p: &Plan, sh: &Shape) -> CaseResult {
    ctx.sample(|| format!("{} {:?} route {} sizes {:?}", p.s.desc(), p.kind, p.route, &p.sizes[..p.sizes.len().min(24)]));
    let ins = content(p);
    let f = || {
        catch(|| match p.s.storage {
            // what reports on the buffer computes with its sizes too
            #[cfg(feature = "full")]
            Storage::CursorVec => finish(p, &ins, CursorVec, |s| drop(std::hint::black_box(format!("{s:?}")))),
            #[cfg(not(feature = "full"))]
            Storage::CursorVec => finish(p, &ins, CursorVec, |s| drop(std::hint::black_box(s.estimated_dumped_memory_usage()))),
            Storage::Sim => finish(p, &ins, Creator { io: Io::plain() }, |s| drop(std::hint::black_box(format!("{s:?}")))),
            #[cfg(feature = "full")]
            Storage::TempFile => finish(p, &ins, grenad::TempFileChunk, |s| drop(std::hint::black_box(s.estimated_dumped_memory_usage()))),
        })
    };
    let r = measured(f, |a, b| format!("{} / {}", brief(a), brief(b)))?;
    match r {
        Err(p) => {
            ensure!(!memory_panic(&p), "panic: {p}");
            ctx.label("panicked");
        }
        // what fails and with what result is judged by the other properties
        Ok(Err(_)) => ctx.label("returned an error"),
        Ok(Ok(_)) => {}
    }
    if sh.exact > 0 {
        ctx.label("buffer exactly filled");
    }
    if sh.grown > 0 {
        ctx.label("buffer grown");
    }
    if sh.exceeded > 0 {
        ctx.label("entry larger than the buffer");
    }
    if sh.zero > 0 {
        ctx.label("entry of 0 bytes");
    }
    if sh.exact + sh.grown + sh.exceeded > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn brief(r: &Result<Result<Entries, String>, String>) -> String {
    match r {
        Ok(Ok(e)) => describe(e),
        Ok(Err(e)) => e.clone(),
        Err(p) => format!("panic: {p}"),
    }
}

fn buffers(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(sorterkit::small_scfg);
    s.parallel &= !memprobe::installed();
    if src.chance(1, 2) {
        s.chunk = Cfg::plain();
    }
    let cap = if s.realloc { s.init.unwrap_or(s.threshold) } else { s.threshold };
    let (sizes, sh) = sizes(src, cap, s.threshold, s.realloc, 40, 300_000);
    let p = Plan {
        sizes,
        kind: src.pick(&MERGE_KINDS),
        route: src.index(6),
        keys: src.pick(&[1u64, 3, 40, 1 << 30]),
        seed: src.seed(),
        out: src.span(|x| cfg(x, CFG_DEEP)),
        s,
    };
    run_plan(ctx, &p, &sh)
}

/// The same in a few hundred bytes: cheap enough for an interpreter, and a small space for coverage-guided search.
fn tiny(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let codec = |s: &mut Src| if s.chance(1, 8) { CODECS[1 % CODECS.len()] } else { grenad::CompressionType::None };
    match src.index(if cfg!(feature = "hook") { 3 } else { 2 }) {
        0 => {
            let (e, cfg, data) = tiny_file(src, codec)?;
            let steps = src.list(1, 8, |s| (c03::gen_op(s, &e), s.chance(1, 4)));
            let other = src.list(0, 3, |s| c03::gen_op(s, &e));
            ctx.sample(|| format!("{} {}: {} steps, {} on clones", cfg.desc(), describe(&e), steps.len(), other.len()));
            held_run(ctx, &data, &steps, &other, 0)
        }
        1 => {
            let mut files = Vec::new();
            for _ in 0..src.index(4) {
                files.push(tiny_file(src, codec)?);
            }
            let kind = src.pick(&MERGE_KINDS);
            let total: usize = files.iter().map(|f| f.0.len()).sum();
            let stop = if src.chance(1, 4) { src.index(total + 1) } else { usize::MAX };
            ctx.sample(|| format!("{} sources, {total} entries, {kind:?}, stops at {stop}", files.len()));
            let r = measured(
                || {
                    catch(|| -> Result<Entries, String> {
                        let mut b = Merger::builder(Merge::new(kind));
                        for (_, _, d) in &files {
                            let r = Reader::new(Source::new(Io::plain(), d.clone())).map_err(|x| x.to_string())?;
                            b.push(r.into_cursor().map_err(|x| x.to_string())?);
                        }
                        let mut it = b.build().into_stream_merger_iter().map_err(|x| x.to_string())?;
                        let mut got = Entries::new();
                        while let Some((k, v)) = it.next().map_err(|x| x.to_string())? {
                            let copy = (k.to_vec(), v.to_vec());
                            churn(got.len() as u64);
                            if (k, v) != (copy.0.as_slice(), copy.1.as_slice()) {
                                return Ok(vec![(b"the entry changed while it was borrowed".to_vec(), copy.0)]);
                            }
                            got.push(copy);
                            if got.len() >= stop {
                                break;
                            }
                        }
                        Ok(got)
                    })
                },
                |a, b| format!("{} / {}", brief(a), brief(b)),
            )?;
            match r {
                Err(p) => ensure!(!memory_panic(&p), "panic: {p}"),
                Ok(Ok(got)) => {
                    ensure!(got.first().is_none_or(|(k, _)| !k.starts_with(b"the entry changed")), "a merged entry changed while it was borrowed");
                    if got.len() > 1 {
                        ctx.nontrivial();
                    }
                }
                Ok(Err(_)) => {}
            }
            Ok(())
        }
        _ => {
            let mut s = SCfg::plain();
            s.threshold = src.urange(1, 300);
            s.init = (!src.chance(1, 8)).then(|| src.urange(1, 160));
            s.realloc = src.chance(2, 3);
            s.max_chunks = Some(src.index(3));
            s.unstable = src.chance(1, 3);
            s.chunk.codec = codec(src);
            s.chunk.block = Some(1024);
            s.chunk.interval = [None, Some(1)][src.index(2)];
            s.chunk.levels = [None, Some(1), Some(2)][src.index(3)];
            let cap = if s.realloc { s.init.unwrap_or(s.threshold) } else { s.threshold };
            let (sizes, sh) = sizes(src, cap, s.threshold, s.realloc, 9, 700);
            let p = Plan {
                sizes,
                kind: src.pick(&MERGE_KINDS),
                route: src.index(6),
                keys: src.pick(&[1u64, 3, 1 << 30]),
                seed: src.seed(),
                out: Cfg::plain(),
                s,
            };
            run_plan(ctx, &p, &sh)
        }
    }
}

/// A few entries over several blocks of 1024 bytes.
fn tiny_file(src: &mut Src, codec: fn(&mut Src) -> grenad::CompressionType) -> Result<(Entries, Cfg, Rc<Vec<u8>>), String> {
    let cfg = Cfg {
        codec: codec(src),
        block: Some(1024),
        interval: [None, Some(1), Some(2)][src.index(3)],
        levels: [None, Some(1), Some(2), Some(3)][src.index(4)],
        ..Cfg::plain()
    };
    let mut key = 0u64;
    let e = src.list(0, 8, |s| {
        key += s.range(1, 300);
        let mut k = key.to_be_bytes()[6 - s.index(3)..].to_vec();
        // index blocks fill up too
        k.resize(k.len() + s.pick(&[0usize, 0, 3, 500, 1100]), 7);
        (k, vec![key as u8; s.pick(&[0usize, 1, 9, 127, 128, 400, 1030])])
    });
    let mut e = e;
    e.sort();
    e.dedup_by(|a, b| a.0 == b.0);
    let data = file(&cfg, &e)?;
    Ok((e, cfg, Rc::new(data)))
}

/// The real initial buffer (128 KiB, growing) through the public builder.
fn real_buffers(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = SCfg::plain();
    s.max_chunks = Some(src.index(3));
    s.unstable = src.chance(1, 3);
    s.parallel = src.chance(1, 4) && !memprobe::installed();
    s.chunk.block = Some(src.pick(&[1024usize, 65_536, 1 << 20]));
    s.threshold = src.pick(&[MIN_MEMORY, MIN_MEMORY + 1, 12_000_007]);
    let max = if src.chance(1, 6) { 14_000_000 } else { 1_500_000 };
    let (sizes, sh) = sizes(src, 131_072, s.threshold, true, 24, max);
    let p = Plan {
        sizes,
        kind: MergeKind::Last,
        route: src.index(6),
        keys: src.pick(&[1u64, 40, 1 << 30]),
        seed: src.seed(),
        out: Cfg::plain(),
        s,
    };
    run_plan(ctx, &p, &sh)
}

/// Whole-budget buffers (reallocation disabled) of sizes that are not multiples of a bound.
fn real_budgets(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(80) as usize;
    let mut s = SCfg::plain();
    s.realloc = false;
    s.max_chunks = Some(i % 3);
    s.threshold = MIN_MEMORY + [0usize, 1, 7, 8, 9, 15, 16, 17, 1000, 4095][i % 10];
    s.chunk.block = Some(65_536);
    let (sizes, sh) = sizes(src, s.threshold, s.threshold, false, 9, 40_000_000);
    let p = Plan { sizes, kind: MergeKind::Last, route: i % 6, keys: 40, seed: src.seed(), out: Cfg::plain(), s };
    run_plan(ctx, &p, &sh)
}

/// Budgets that no machine can provide: refused, without computing a wrapped size.
fn huge_budgets(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(220) as usize;
    let budget = match i {
        0..=99 => usize::MAX - i,
        100..=139 => isize::MAX as usize - 20 + (i - 100),
        140..=159 => usize::MAX / 2 + 1 + (i - 140),
        160..=179 => usize::MAX - (1 << (i - 160)),
        _ => (1usize << (40 + (i - 180) % 24)) - (i - 180) / 24,
    };
    let realloc = src.chance(1, 4);
    ctx.nontrivial();
    ctx.sample(|| format!("budget {budget} realloc={realloc}"));
    let f = || {
        catch(|| {
            let mut b = grenad::SorterBuilder::new(Merge::new(MergeKind::Last)).chunk_creator(CursorVec);
            b.dump_threshold(budget).allow_realloc(realloc);
            let mut s = b.build();
            for i in 0..20u8 {
                s.insert([i % 7], vec![i; i as usize]).map_err(|x| x.to_string())?;
            }
            let mut n = 0;
            let mut it = s.into_stream_merger_iter().map_err(|x| x.to_string())?;
            while it.next().map_err(|x| x.to_string())?.is_some() {
                n += 1;
            }
            Ok::<usize, String>(n)
        })
    };
    match measured(f, |_, _| "outcome".into())? {
        Err(p) => {
            ctx.label("refused");
            // a refused layout is what a budget of this size should give
            ensure!(!memory_panic(&p) || p.contains("LayoutError"), "budget {budget}: {p}");
        }
        Ok(_) => ctx.label("accepted"),
    }
    Ok(())
}

// ---------------------------------------------------------------- scenarios

fn no_parallel(sc: &mut Scen) {
    if let Scen::Sort { s, .. } = sc {
        s.parallel &= !memprobe::installed();
    }
}

fn run_scen(sc: &Scen, sp: (Split, u64), fail: Option<(u64, Fault)>, sticky: bool) -> Result<(Trace, Option<u64>), String> {
    measured(
        || {
            let io = Io::new(sp.0, sp.1);
            {
                let mut s = io.0.borrow_mut();
                s.fail_at = fail;
                s.sticky = sticky;
                s.spy = memprobe::installed().then_some(1);
            }
            let t = sc.run(&io, true);
            let h = io.0.borrow().spy;
            (t, h)
        },
        |a, b| a.0.diff(&b.0).unwrap_or_else(|| "the buffers handed to read, or the failure".into()),
    )
}

fn handed(t: &Trace) -> bool {
    t.calls.iter().any(|(_, o)| matches!(o, Out::Pair(Some(_)) | Out::Bytes(_)))
}

fn scenarios(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let z = match src.weighted(&[3, 4, 3]) {
        0 => Size::Tiny,
        1 => Size::Small,
        _ => Size::Large,
    };
    let mut sc = Scen::any(src, z)?;
    no_parallel(&mut sc);
    // parallel sorting from all the workers at once is slow: a few cases are enough
    if let Scen::Sort { s, .. } = &mut sc {
        s.parallel &= src.chance(1, 8);
    }
    let split = match src.weighted(&[3, 1]) {
        0 => WHOLE,
        _ => Split { max: src.log_range(1, 300) as usize, short: src.pick(&[0u32, 128]), intr: src.pick(&[0u32, 20]) },
    };
    let sp = (split, src.seed());
    ctx.label(sc.kind());
    ctx.sample(|| sc.desc());
    let (t, _) = run_scen(&sc, sp, None, false)?;
    if let Some((n, Fail::Panic(p))) = &t.fail {
        ensure!(!memory_panic(p), "{n} panics: {p}");
    }
    if t.fail.is_some() {
        ctx.label("returned an error");
    }
    if handed(&t) {
        ctx.nontrivial();
    }
    Ok(())
}

/// The buffers are released, and nothing dangling is used, whatever fails and even when a component panics.
fn failures(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut sc = Scen::any(src, Size::Tiny)?;
    no_parallel(&mut sc);
    ctx.label(sc.kind());
    ctx.sample(|| sc.desc());
    let sp = (WHOLE, 0);
    let io = Io::new(sp.0, sp.1);
    io.0.borrow_mut().ops = Some(Vec::new());
    drop(sc.run(&io, true));
    let ops = io.0.borrow_mut().ops.take().unwrap_or_default();
    drop(io);
    let n = ops.len() as u64;
    let cap = (600_000 / (40 * n + sc.weight() + 1)).clamp(6, 60);
    let step = n.div_ceil(cap).max(1);
    let at = src.below(step);
    let rot = src.index(4);
    for (k, op) in ops.iter().enumerate() {
        if k as u64 % step != at && (k as u64) + 4 < n {
            continue;
        }
        for i in 0..2 {
            let fault = match (i + rot) % 4 {
                0 | 2 => Fault::Panic,
                1 => Fault::Kind(ErrorKind::Other),
                _ if *op == Op::Write => Fault::ZeroWrite,
                _ => Fault::Kind(ErrorKind::UnexpectedEof),
            };
            ctx.label(if fault == Fault::Panic { "panics injected" } else { "failures injected" });
            let (t, _) = run_scen(&sc, sp, Some((k as u64, fault)), false)
                .map_err(|m| format!("call {k} ({op:?}) fails with {fault:?}: {m}"))?;
            if let Some((n, Fail::Panic(p))) = &t.fail {
                ensure!(!memory_panic(p), "call {k} ({op:?}) fails with {fault:?}: {n} panics: {p}");
            }
            ctx.nontrivial();
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- entries that stay borrowed

/// Allocates and releases blocks of many sizes, so that a dangling entry does not stay intact.
fn churn(seed: u64) {
    let mut v: Vec<Vec<u8>> = Vec::new();
    // the interpreter sees dangling uses by itself
    for i in 0..if cfg!(miri) { 0 } else { 24u64 } {
        let n = 1usize << (3 + (seed + i) % 12);
        v.push(vec![0x77; n]);
        if i % 3 == 0 {
            v.swap_remove((seed % v.len() as u64) as usize);
        }
    }
}

fn held(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let z = src.pick(&[Size::Tiny, Size::Small]);
    let (desc, e, data) = gen_file(src, z)?;
    let steps = src.list(1, 16, |s| (c03::gen_op(s, &e), s.chance(1, 3)));
    let other = src.list(0, 6, |s| c03::gen_op(s, &e));
    let seed = src.seed();
    ctx.sample(|| format!("{desc}: {} steps, {} on clones", steps.len(), other.len()));
    held_run(ctx, &data, &steps, &other, seed)
}

fn held_run(ctx: &mut Ctx, data: &Rc<Vec<u8>>, steps: &[(c03::Op, bool)], other: &[c03::Op], seed: u64) -> CaseResult {
    let f = || {
        catch(|| -> Result<(Vec<Option<(Vec<u8>, Vec<u8>)>>, bool), String> {
            let mut out = Vec::new();
            let mut any = false;
            let r = Reader::new(Source::new(Io::plain(), data.clone())).map_err(|x| x.to_string())?;
            let mut c = r.into_cursor().map_err(|x| x.to_string())?;
            for (i, (op, shared)) in steps.iter().enumerate() {
                use c03::Op::*;
                if *shared {
                    // shared borrows: clones move and go away while the entry is held
                    let Some((k, v)) = c.current() else { continue };
                    let copy = (k.to_vec(), v.to_vec());
                    let mut d = c.clone();
                    let mut d2 = c.clone();
                    for o in other {
                        let _ = apply(&mut d, o);
                    }
                    drop(d);
                    if i % 2 == 0 {
                        d2.reset();
                    }
                    let _ = (c.current().is_some(), c.len(), c.get_ref().shared_pos);
                    churn(seed + i as u64);
                    any = true;
                    if (k, v) != (copy.0.as_slice(), copy.1.as_slice()) {
                        return Err(format!("the entry {} changed while it was borrowed", hkv(Some((&copy.0, &copy.1)))));
                    }
                    drop(d2);
                    if (k, v) != (copy.0.as_slice(), copy.1.as_slice()) {
                        return Err(format!("the entry {} changed while it was borrowed", hkv(Some((&copy.0, &copy.1)))));
                    }
                    out.push(Some(copy));
                    continue;
                }
                let got = match op {
                    First => c.move_on_first(),
                    Last => c.move_on_last(),
                    Next => c.move_on_next(),
                    Prev => c.move_on_prev(),
                    // the query is gone while the entry is held
                    Ge(q) => c.move_on_key_greater_than_or_equal_to(q.clone()),
                    Le(q) => c.move_on_key_lower_than_or_equal_to(q.clone()),
                    Eq(q) => c.move_on_key_equal_to(q.clone()),
                    Reset => {
                        c.reset();
                        Ok(None)
                    }
                    Current => Ok(c.current()),
                };
                match got {
                    Ok(Some((k, v))) => {
                        let copy = (k.to_vec(), v.to_vec());
                        churn(seed + i as u64);
                        any = true;
                        if (k, v) != (copy.0.as_slice(), copy.1.as_slice()) {
                            return Err(format!("the entry {} changed while it was borrowed", hkv(Some((&copy.0, &copy.1)))));
                        }
                        out.push(Some(copy));
                    }
                    Ok(None) => out.push(None),
                    Err(_) => return Ok((out, any)),
                }
            }
            Ok((out, any))
        })
    };
    let r = measured(f, |a, b| format!("{a:?} / {b:?}").chars().take(400).collect())?;
    match r {
        Err(p) if memory_panic(&p) => Err(format!("panic: {p}")),
        Err(_) => Ok(()),
        Ok(Err(m)) => Err(m),
        Ok(Ok((_, any))) => {
            if any {
                ctx.nontrivial();
            }
            Ok(())
        }
    }
}

/// Every entry of range and prefix iterators stays intact while it is borrowed.
fn held_iters(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use super::c04;
    let z = src.pick(&[Size::Tiny, Size::Small]);
    let (desc, e, data) = gen_file(src, z)?;
    // bounds which mostly are stored keys
    let bytes = |s: &mut Src| match s.chance(2, 3) && !e.is_empty() {
        true => e[s.index(e.len())].0.clone(),
        false => probe(s, &e),
    };
    let bound = |s: &mut Src| match s.weighted(&[1, 4, 2]) {
        0 => Bound::Unbounded,
        1 => Bound::Included(bytes(s)),
        _ => Bound::Excluded(bytes(s)),
    };
    let plan = src.list(1, 5, |s| {
        let prefix = bytes(s);
        let n = s.index(prefix.len() + 1);
        let prefix = if s.chance(1, 3) { prefix } else { prefix[..n].to_vec() };
        (s.index(4), bound(s), bound(s), prefix, s.index(8))
    });
    let seed = src.seed();
    ctx.sample(|| format!("{desc}: {} iterators, e.g. ({}, {})", plan.len(), c04::show(&plan[0].1), c04::show(&plan[0].2)));
    let f = || {
        catch(|| -> Result<Vec<usize>, String> {
            let mut out = Vec::new();
            for (kind, lo, hi, prefix, fork) in &plan {
                let r = Reader::new(Source::new(Io::plain(), data.clone())).map_err(|x| x.to_string())?;
                let n = match kind {
                    0 => hold_all(r.into_range_iter((lo.clone(), hi.clone())), *fork, seed),
                    1 => hold_all(r.into_rev_range_iter((lo.clone(), hi.clone())), *fork, seed),
                    2 => hold_all(r.into_prefix_iter(prefix.clone()), *fork, seed),
                    _ => hold_all(r.into_rev_prefix_iter(prefix.clone()), *fork, seed),
                }?;
                out.push(n);
            }
            Ok(out)
        })
    };
    let r = measured(f, |a, b| format!("{a:?} / {b:?}").chars().take(400).collect())?;
    match r {
        Err(p) if memory_panic(&p) => Err(format!("panic: {p}")),
        Err(_) => Ok(()),
        Ok(Err(m)) => Err(m),
        Ok(Ok(n)) => {
            if n.iter().any(|n| *n > 0) {
                ctx.nontrivial();
            }
            Ok(())
        }
    }
}

fn hold_all<I: super::c04::EntryIter>(it: Result<I, grenad::Error>, fork: usize, seed: u64) -> Result<usize, String> {
    let Ok(mut it) = it else { return Ok(0) };
    let mut n = 0;
    loop {
        if n == fork {
            // a clone which goes on and goes away
            let mut other = it.clone();
            let _ = other.step();
            let _ = other.step();
        }
        let Ok(Some((k, v))) = it.step() else { return Ok(n) };
        let copy = (k.to_vec(), v.to_vec());
        churn(seed + n as u64);
        if (k, v) != (copy.0.as_slice(), copy.1.as_slice()) {
            return Err(format!("the entry {} of an iterator changed while it was borrowed", hkv(Some((&copy.0, &copy.1)))));
        }
        n += 1;
        if n > 60 {
            return Ok(n);
        }
    }
}

fn apply<R: std::io::Read + std::io::Seek>(c: &mut grenad::ReaderCursor<R>, op: &c03::Op) -> Option<(Vec<u8>, Vec<u8>)> {
    use c03::Op::*;
    let r = match op {
        First => c.move_on_first(),
        Last => c.move_on_last(),
        Next => c.move_on_next(),
        Prev => c.move_on_prev(),
        Ge(q) => c.move_on_key_greater_than_or_equal_to(q),
        Le(q) => c.move_on_key_lower_than_or_equal_to(q),
        Eq(q) => c.move_on_key_equal_to(q),
        Reset => {
            c.reset();
            Ok(None)
        }
        Current => Ok(c.current()),
    };
    r.ok().and_then(own)
}

/// Checks the values it is given: all of one length, made of the byte of the key.
struct Look(usize);

impl grenad::MergeFunction for Look {
    type Error = String;
    fn merge<'a>(&self, key: &[u8], vals: &[std::borrow::Cow<'a, [u8]>]) -> Result<std::borrow::Cow<'a, [u8]>, String> {
        for v in vals.iter().filter(|v| !v.is_empty()) {
            let at = [0, v.len() / 3, v.len() / 2, v.len() - 1];
            if key.iter().any(|b| *b != key[0]) || v.len() != self.0 || at.iter().any(|i| v[*i] != key[0]) {
                return Err(format!("the value of key {} is given as {} bytes with {:?} at {at:?}", hx(key), v.len(), at.map(|i| v[i])));
            }
        }
        Ok(std::borrow::Cow::Owned(Vec::new()))
    }
}

/// More than 4 GiB in the buffer at the same time, by several entries or by one whose key and value exceed it together:
/// offsets and sums that do not fit in 32 bits. The merge function sees every
/// value and yields empty ones, so that nothing large is written.
fn beyond_4gib(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (realloc, len) = [(false, 1usize << 29), (true, u32::MAX as usize - 5), (true, 1 << 29), (false, (1 << 30) + 77)][src.below(4) as usize];
    let (n, klen) = if len > 1 << 31 { (1, 300) } else { (((4u64 << 30) / len as u64 + 2) as u8, 1) };
    ctx.sample(|| format!("{n} keys of {klen} and values of {len} bytes in a budget of 6 GiB, realloc={realloc}"));
    ctx.nontrivial();
    let err = |x: grenad::Error<String>| x.to_string();
    let mut b = grenad::SorterBuilder::new(Look(len)).chunk_creator(CursorVec);
    b.dump_threshold(6 << 30).allow_realloc(realloc);
    let mut s = b.build();
    let mut v = vec![0u8; len];
    for i in (1..=n).rev() {
        v.fill(i);
        s.insert(vec![i; klen], &v).map_err(err)?;
    }
    drop(v);
    let mut it = s.into_stream_merger_iter().map_err(err)?;
    for i in 1..=n {
        let got = it.next().map_err(err)?;
        ensure!(got == Some((&vec![i; klen][..], &[][..])), "entry {i} of {n}: got {}", hkv(got));
    }
    ensure!(it.next().map_err(err)?.is_none(), "more than {n} entries");
    Ok(())
}
