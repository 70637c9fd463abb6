//! C07: sorter output.

use crate::engine::*;
use crate::gen::*;
use crate::sim::*;
use crate::sorterkit::*;
use crate::util::*;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "a case is an insert sequence, a sorter configuration, an associative merge function and one or all of \
               the three output routes; non-trivial when at least two entries share a key or the data exceeds the \
               budget (so that it spills); distinct by choice sequence",
        assumptions: &["merge functions are associative and return a lone value unchanged"],
        phases: vec![
            Phase::random("spills", 25_000, 800_000, spills).hook(),
            Phase::random("generic", 15_000, 400_000, generic).hook(),
            Phase::random("explicit", 20_000, 600_000, explicit).hook(),
            Phase::random("parallel", 250, 6_000, parallel).hook().threads(4),
            Phase::random("unhooked-small", 3_000, 60_000, unhooked_small).unhooked(10),
            Phase::random("many-chunks", 300, 10_000, many_chunks).hook(),
            Phase::enumerate("many-values", 6, 24, many_values).threads(6),
            Phase::enumerate("long-keys", 48, 2_000, long_keys).threads(6),
            Phase::enumerate("unhooked", 24, 120, unhooked).unhooked(4).threads(6),
        ],
    }
}

fn one(ctx: &mut Ctx, s: &SCfg, kind: MergeKind, inserts: &Entries, out: &Cfg, routes: &[usize], tokens: bool) -> CaseResult {
    let volume: usize = inserts.iter().map(|(k, v)| k.len() + v.len()).sum();
    let distinct = group(inserts).len();
    if distinct < inserts.len() {
        ctx.nontrivial();
        ctx.label("duplicate keys");
    }
    if volume > 2 * s.budget() {
        ctx.nontrivial();
        ctx.label("spills");
    }
    if inserts.iter().any(|(k, v)| k.len() + v.len() > s.budget()) {
        ctx.label("entry larger than the budget");
    }
    ctx.sample(|| {
        format!("{} | {kind:?} | {} inserts, {distinct} keys, {volume} bytes, routes {routes:?} | {}", s.desc(), inserts.len(), describe(inserts))
    });
    for &r in routes {
        let name = ["stream", "into a writer", "merged cursors"][r];
        let got = run(s, kind, inserts, out, r).map_err(|x| format!("{name}: {x}"))?;
        check_output(s, kind, inserts, &got, tokens).map_err(|x| format!("{name}: {x}"))?;
    }
    Ok(())
}

fn routes(src: &mut Src) -> Vec<usize> {
    if src.chance(1, 3) {
        vec![0, 1, 2]
    } else {
        vec![src.index(ROUTES)]
    }
}

/// Keys from a small pool, token values: many duplicates spread over chunks.
pub fn token_inserts(src: &mut Src, budget: usize, max_n: u64) -> Entries {
    let n = src.log_range(0, max_n);
    let pool = src.log_range(1, 300);
    let shape = src.index(5);
    let order = src.index(4);
    let vstyle = src.weighted(&[4, 3, 2, 2]);
    // one value in so many is empty
    let empty = src.pick(&[20u64, 20, 2, 1000, 1]);
    let mut rng = Rng::new(src.seed());
    let mut total = 0usize;
    let mut out: Entries = Vec::new();
    for i in 0..n {
        let j = match order {
            0 => rng.below(pool),
            1 => i % pool,
            2 => (n - i) % pool,
            _ => i / 3 % pool,
        } as u32;
        let k = match shape {
            0 => j.to_be_bytes().to_vec(),
            1 => format!("{j}").into_bytes(),
            2 => vec![b'x'; (j % 40) as usize],
            3 => [vec![0xff; (j % 3) as usize], j.to_le_bytes().to_vec()].concat(),
            _ => [vec![b'p'; 150], (j as u16).to_be_bytes().to_vec()].concat(),
        };
        let pad = match vstyle {
            0 => 0,
            1 => rng.below(40) as usize,
            2 => rng.below(budget as u64 / 3 + 1) as usize,
            _ => match rng.below(12) {
                0 => rng.below(4 * budget as u64 + 1) as usize,
                1 => budget,
                _ => rng.below(10) as usize,
            },
        };
        let v = if rng.below(empty) == 0 { vec![] } else { token(i as u32, pad, rng.next() as u8) };
        total += k.len() + v.len();
        if total > 400_000 {
            break;
        }
        out.push((k, v));
    }
    out
}

fn spills(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = src.span(small_scfg);
    let kind = src.pick(&MERGE_KINDS);
    let out = src.span(|s| cfg(s, CFG_DEEP));
    let r = routes(src);
    let max_n = if s.threshold < 600 { 400 } else { 1500 };
    let e = token_inserts(src, s.threshold, max_n);
    one(ctx, &s, kind, &e, &out, &r, true)
}

/// The generic key/value shapes, shuffled and repeated.
fn generic(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = src.span(small_scfg);
    let kind = src.pick(&MERGE_KINDS);
    let out = src.span(|s| cfg(s, CFG_DEEP));
    let r = routes(src);
    let mut e = raw_entries(src, EntOpts::new(400, 60_000), 1024);
    let mode = src.index(3);
    let mut rng = Rng::new(src.seed());
    if mode > 0 && !e.is_empty() {
        let dup = rng.below(e.len() as u64) as usize;
        for j in 0..dup.min(100) {
            let k = e[rng.below(e.len() as u64) as usize].0.clone();
            e.push((k, vec![j as u8; j % 5]));
        }
    }
    if mode != 2 {
        for i in (1..e.len()).rev() {
            e.swap(i, rng.below(i as u64 + 1) as usize);
        }
    }
    one(ctx, &s, kind, &e, &out, &r, false)
}

/// Explicit lists: exact fits, sizes around the buffer size.
fn explicit(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let s = src.span(small_scfg);
    let kind = src.pick(&MERGE_KINDS);
    let r = routes(src);
    let t = s.threshold as u64;
    let empty = src.pick(&[1u64, 1, 5]);
    let mut i = 0u32;
    let e: Entries = src.list(0, 60, |s| {
        let k: Vec<u8> = match s.index(3) {
            0 => vec![b'a' + s.index(5) as u8],
            1 => vec![b'k'; s.index(20)],
            _ => vec![s.index(4) as u8; s.range(0, t / 2 + 1) as usize],
        };
        let pad = match s.weighted(&[4, 2, 2, 2]) {
            0 => s.index(30) as u64,
            1 => s.range(0, t + 32),
            2 => t.saturating_sub(s.range(0, 64)),
            _ => t / 2 + s.range(0, 40),
        };
        i += 1;
        let v = if s.chance(empty, 8) { vec![] } else { token(i, pad as usize, b'v') };
        (k, v)
    });
    one(ctx, &s, kind, &e, &Cfg::plain(), &r, true)
}

#[cfg(feature = "full")]
fn pool(n: usize) -> &'static rayon::ThreadPool {
    use std::sync::OnceLock;
    static POOLS: [OnceLock<rayon::ThreadPool>; 4] = [const { OnceLock::new() }; 4];
    let (slot, threads) = [(0, 1), (1, 2), (2, 3), (3, 8)][n % 4];
    POOLS[slot].get_or_init(|| rayon::ThreadPoolBuilder::new().num_threads(threads).build().unwrap())
}

/// Chunks large enough for the parallel sorts to really split.
fn parallel(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(small_scfg);
    s.parallel = true;
    s.unstable = src.chance(1, 3);
    s.threshold = src.range(60_000, 600_000) as usize;
    s.realloc = src.chance(1, 2);
    s.init = s.realloc.then_some(50_000);
    let kind = src.pick(&MERGE_KINDS);
    let n = src.range(2_500, 30_000) as u32;
    let keys = src.pick(&[1u64, 3, 40, 1000, 100_000]);
    let order = src.index(3);
    let mut rng = Rng::new(src.seed());
    let e: Entries = (0..n)
        .map(|i| {
            let j = match order {
                0 => rng.below(keys),
                1 => i as u64 % keys,
                _ => (n - i) as u64 * keys / n as u64,
            };
            ((j as u32).to_be_bytes()[1..].to_vec(), token(i, 0, 0))
        })
        .collect();
    let r = [src.index(ROUTES)];
    #[cfg(feature = "full")]
    {
        let p = src.index(5);
        if p < 4 {
            let got = pool(p).install(|| run(&s, kind, &e, &Cfg::plain(), r[0]))?;
            ctx.nontrivial();
            ctx.label("parallel in a pool");
            ctx.sample(|| format!("pool {p} | {} | {kind:?} | {n} inserts over {keys} keys, order {order}", s.desc()));
            return check_output(&s, kind, &e, &got, true);
        }
    }
    one(ctx, &s, kind, &e, &Cfg::plain(), &r, true)
}

/// No hook: everything stays in memory, default budget or minimum.
fn unhooked_small(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(small_scfg);
    s.threshold = MIN_MEMORY;
    s.init = None;
    let kind = src.pick(&MERGE_KINDS);
    let r = routes(src);
    // sometimes larger than the initial 128 KiB, which forces reallocations
    let e = token_inserts(src, 60_000, 1500);
    one(ctx, &s, kind, &e, &Cfg::plain(), &r, true)
}

/// The real minimum budget with tens of megabytes.
fn unhooked(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(120);
    let mut s = SCfg::plain();
    s.threshold = [MIN_MEMORY, MIN_MEMORY, 1, 12_000_000][i as usize % 4];
    if !cfg!(feature = "hook") || s.threshold < MIN_MEMORY {
        s.threshold = MIN_MEMORY;
    }
    s.realloc = i % 2 == 0;
    s.max_chunks = [Some(1), Some(2), None][i as usize % 3];
    s.unstable = i % 5 == 4;
    s.parallel = i % 4 == 3;
    s.storage = [Storage::CursorVec, Storage::Sim][i as usize % 2];
    #[cfg(feature = "full")]
    if i % 8 == 5 {
        s.storage = Storage::TempFile;
    }
    s.chunk.codec = if i % 6 == 1 { CODECS[1 % CODECS.len()] } else { grenad::CompressionType::None };
    let vsize = [0u64, 100, 5_000, 2_000_000, 40_000, 11_000_000][i as usize % 6];
    let total = src.range(11, 45) as usize * 1_000_000;
    let mut rng = Rng::new(src.seed());
    let mut e: Entries = Vec::new();
    let mut sum = 0;
    let keys = [50_000u64, 300, 7][i as usize / 6 % 3];
    while sum < total {
        let k = format!("{:05}", rng.below(keys)).into_bytes();
        let pad = (vsize / 2 + rng.below(vsize + 1)) as usize;
        sum += k.len() + pad + 24;
        e.push((k, token(e.len() as u32, pad, sum as u8)));
    }
    let kind = [MergeKind::Concat, MergeKind::Last, MergeKind::Longest, MergeKind::First][src.index(4)];
    let r = [src.index(ROUTES)];
    one(ctx, &s, kind, &e, &Cfg::plain(), &r, true)
}

/// Hundreds of chunks at the same time.
fn many_chunks(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(small_scfg);
    s.threshold = src.range(64, 160) as usize;
    s.init = s.realloc.then_some(s.threshold);
    s.max_chunks = Some(src.pick(&[usize::MAX, 255, 256, 257, 300, 700, 65_536]));
    s.parallel = false;
    s.chunk = Cfg { codec: s.chunk.codec, order: s.chunk.order, ..Cfg::plain() };
    if !matches!(s.storage, Storage::CursorVec | Storage::Sim) {
        s.storage = Storage::CursorVec;
    }
    let kind = src.pick(&MERGE_KINDS);
    let out = src.span(|s| cfg(s, CFG_DEEP));
    let n = src.range(300, 3000) as u32;
    let keys = src.pick(&[1u64, 2, 30, 1000]);
    let mut rng = Rng::new(src.seed());
    let e: Entries = (0..n).map(|i| ((rng.below(keys) as u16).to_be_bytes().to_vec(), token(i, rng.below(20) as usize, 1))).collect();
    let r = [src.index(ROUTES)];
    one(ctx, &s, kind, &e, &out, &r, true)
}

/// One key with more values in a single merge than fit in 16 bits.
fn many_values(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(24);
    let mut s = SCfg::plain();
    s.threshold = 2 * MIN_MEMORY;
    s.realloc = i % 2 == 0;
    s.unstable = i % 6 == 4;
    s.parallel = i % 4 == 1;
    let n = [65_536u32, 70_000, 300_000][i as usize % 3];
    let solo = src.below(2) as u32;
    let e: Entries = (0..n)
        .map(|j| {
            let k = if solo == 1 && j % 1000 == 7 { j.to_be_bytes().to_vec() } else { b"k".to_vec() };
            (k, token(j, 0, 0))
        })
        .collect();
    let kind = [MergeKind::Concat, MergeKind::Last, MergeKind::First, MergeKind::ConcatCow][src.index(4)];
    let r = [i as usize / 3 % ROUTES];
    one(ctx, &s, kind, &e, &Cfg::plain(), &r, true)
}

/// Keys whose lengths do not fit in 16 bits, differing at the start, around 64 KiB or at the end.
fn long_keys(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let _ = src.below(2_000);
    let mut s = src.span(small_scfg);
    s.threshold = MIN_MEMORY;
    s.init = None;
    let kind = src.pick(&MERGE_KINDS);
    let out = src.span(|s| cfg(s, CFG_DEEP));
    let r = [src.index(ROUTES)];
    let n = src.range(2, 60) as u32;
    let mut rng = Rng::new(src.seed());
    let e: Entries = (0..n)
        .map(|i| {
            let len = [65_534usize, 65_535, 65_536, 65_537, 70_000, 131_072, 200_000, 10][rng.below(8) as usize];
            let mut k = vec![b'k'; len];
            let at = [0, 65_535, 65_536, len.saturating_sub(1), 255, 256][rng.below(6) as usize];
            if at < len {
                k[at] = b'a' + rng.below(20) as u8;
            }
            (k, token(i, rng.below(70_000) as usize, 2))
        })
        .collect();
    one(ctx, &s, kind, &e, &out, &r, true)
}
