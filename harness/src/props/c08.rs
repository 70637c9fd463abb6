//! C08: resource bounds of the sorter.

use crate::engine::*;
use crate::gen::*;
use crate::memprobe;
use crate::sim::*;
use crate::sorterkit::*;
use crate::util::*;
use grenad::Merger;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "a case is a sorter configuration and a long sequence of entries of at most a quarter of the budget, \
               with counters checked after every insert; non-trivial when more than four budgets of data are \
               inserted; distinct by choice sequence",
        assumptions: &[
            "volume of an entry = key bytes + value bytes",
            "a spill is a chunk taken from the chunk creator; a chunk exists from its creation to its drop",
            "hooked budgets keep the real proportion: the initial buffer is not larger than the budget",
            "peak heap (chunk storage excluded) may reach 16 budgets + 1/16 of the inserted volume + 1 MiB (64 MiB for \
             real budgets): the statement bounds the volume, the heap phase only detects unbounded growth",
        ],
        phases: vec![
            Phase::random("small", 6_000, 200_000, small).hook(),
            Phase::random("tiny", 6_000, 200_000, tiny).hook(),
            Phase::enumerate("unhooked", 20, 200, unhooked).unhooked(4).threads(6),
            Phase::enumerate("default-budget", 0, 2, default_budget).threads(1),
            Phase::random("heap", 120, 6_000, heap).hook().mem(),
            Phase::enumerate("heap-unhooked", 6, 40, heap_unhooked).mem().threads(3),
        ],
    }
}

/// Drives a sorter with `next` until it returns None, checking the bounds after every insert.
fn drive(
    ctx: &mut Ctx,
    s: &SCfg,
    kind: MergeKind,
    route: usize,
    mut next: impl FnMut(u64) -> Option<(Vec<u8>, Vec<u8>)>,
) -> Result<(u64, u64, i64), String> {
    let t = s.budget() as u64;
    let limit = if s.realloc { 2 * t } else { t };
    let max = s.max_chunks_eff() as i64;
    let io = Io::plain();
    let base = memprobe::live().0;
    let mut sorter = s.build(Merge::new(kind), Creator { io: io.clone() });
    let (mut vol, mut total, mut spills, mut i) = (0u64, 0u64, 0u64, 0u64);
    let mut peak = 0i64;
    while let Some((k, v)) = next(i) {
        let size = (k.len() + v.len()) as u64;
        let before = io.0.borrow().chunks_created;
        memprobe::reset_peak();
        sorter.insert(&k, &v).map_err(|x| format!("insert {i}: {x}"))?;
        total += size;
        let st = io.0.borrow();
        if st.chunks_created > before {
            spills += 1;
            vol = size;
        } else {
            vol += size;
        }
        ensure!(
            vol <= limit,
            "{vol} bytes inserted since the last spill (insert {i}, {spills} spills): more than {} of {t}",
            if s.realloc { "twice the budget" } else { "the budget (reallocation disabled)" }
        );
        ensure!(st.chunks_max <= max + 2, "{} chunks at the same time, the maximum is {max} (+2)", st.chunks_max);
        peak = peak.max(memprobe::peak() - base);
        drop(st);
        i += 1;
    }
    let distinct_cap = i as usize;
    match route {
        0 => drop(sorter.into_stream_merger_iter().map_err(|x| x.to_string())?),
        1 => {
            let mut w = Cfg::plain().builder().build(std::io::sink());
            sorter.write_into_stream_writer(&mut w).map_err(|x| x.to_string())?;
        }
        _ => {
            let cursors = sorter.into_reader_cursors().map_err(|x| x.to_string())?;
            let n = cursors.len() as i64;
            ensure!(n <= io.0.borrow().chunks_live, "{n} cursors on {} chunks", io.0.borrow().chunks_live);
            let mut b = Merger::builder(Merge::new(kind));
            b.extend(cursors);
            let mut it = b.build().into_stream_merger_iter().map_err(|x| x.to_string())?;
            let mut n = 0;
            while it.next().map_err(|x| x.to_string())?.is_some() {
                n += 1;
                ensure!(n <= distinct_cap, "more output entries than inserts");
            }
        }
    }
    let st = io.0.borrow();
    ensure!(st.chunks_max <= max + 2, "{} chunks at the same time when finishing, the maximum is {max} (+2)", st.chunks_max);
    ensure!(i == 0 || st.chunks_created > 0, "the output was produced without taking any chunk from the creator");
    if total > 4 * t {
        ctx.nontrivial();
    }
    if st.chunks_max == max + 2 {
        ctx.label("maximum + 2 chunks reached");
    }
    if st.chunks_created > spills + 1 {
        ctx.label("chunks merged");
    }
    ctx.count("spills", spills);
    ctx.count("inserts", i);
    Ok((total, spills, peak))
}

#[derive(Clone, Copy)]
struct Flow {
    seed: u64,
    style: usize,
    max_entry: u64,
    keys: u64,
    volume: u64,
    max_n: u64,
    /// The index of a file of long keys is as large as the file: excluded where the heap is measured.
    long_keys: bool,
}

impl Flow {
    fn gen(src: &mut Src, t: usize, budgets: u64, max_n: u64) -> Flow {
        Flow {
            style: src.weighted(&[4, 3, 2, 2, 2]),
            max_entry: t as u64 / 4,
            keys: src.pick(&[1u64, 10, 1000, 1 << 40]),
            volume: t as u64 * src.range(0, budgets),
            max_n,
            long_keys: true,
            seed: src.seed(),
        }
    }
    fn iter(self) -> impl FnMut(u64) -> Option<(Vec<u8>, Vec<u8>)> {
        let mut rng = Rng::new(self.seed);
        let mut sum = 0u64;
        move |i| {
            if sum >= self.volume || i >= self.max_n {
                return None;
            }
            let m = self.max_entry;
            let size = match self.style {
                0 => rng.below(m + 1),
                1 => 1 + rng.below(m.min(40)),
                2 => m,
                3 => m - rng.below(m / 8 + 1),
                _ => {
                    if rng.below(10) == 0 {
                        m
                    } else {
                        rng.below(m.min(20) + 1)
                    }
                }
            };
            let id = rng.below(self.keys).to_le_bytes();
            let kl = (rng.below(9)).min(size) as usize;
            let kl = if rng.below(16) == 0 && self.long_keys { size as usize } else { kl };
            let mut k = id[..kl.min(8)].to_vec();
            k.resize(kl, 7);
            let v = vec![i as u8; size as usize - kl];
            sum += size + 16; // an endless run of empty entries must end too
            Some((k, v))
        }
    }
    fn desc(&self) -> String {
        format!("style {} entries <= {} bytes, {} keys, {} bytes", self.style, self.max_entry, self.keys, self.volume)
    }
}

/// Merges that keep values small whatever the number of duplicates.
const KEEP: [MergeKind; 4] = [MergeKind::First, MergeKind::Last, MergeKind::Min, MergeKind::Longest];

fn small(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(small_scfg);
    s.storage = Storage::Sim;
    s.threshold = src.range(512, 20_000) as usize;
    s.init = s.realloc.then(|| src.range(s.threshold as u64 / 90 + 16, s.threshold as u64) as usize);
    let kind = src.pick(&KEEP);
    let route = src.index(ROUTES);
    let f = Flow::gen(src, s.threshold, 60, 4000);
    ctx.sample(|| format!("{} | {kind:?} | {}", s.desc(), f.desc()));
    drive(ctx, &s, kind, route, f.iter()).map(|_| ())
}

fn tiny(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(small_scfg);
    s.storage = Storage::Sim;
    s.threshold = src.range(64, 512) as usize;
    s.init = s.realloc.then(|| src.range(16, s.threshold as u64) as usize);
    s.chunk = Cfg::plain();
    let kind = src.pick(&KEEP);
    let route = src.index(ROUTES);
    let f = Flow::gen(src, s.threshold, 200, 2000);
    ctx.sample(|| format!("{} | {kind:?} | {}", s.desc(), f.desc()));
    drive(ctx, &s, kind, route, f.iter()).map(|_| ())
}

/// Real budgets through the public builder, including requests below the minimum.
fn real(i: u64) -> (SCfg, usize) {
    let asked = [MIN_MEMORY, 12_345_678, MIN_MEMORY + 1, 20_000_000, 1][i as usize % 5];
    let mut s = SCfg::plain();
    s.threshold = asked.max(MIN_MEMORY);
    s.realloc = i / 5 % 2 == 0;
    s.max_chunks = [Some(1), None, Some(3), Some(0)][i as usize % 4];
    s.unstable = i % 3 == 2;
    s.storage = Storage::Sim;
    (s, asked)
}

fn unhooked(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(200);
    let (mut s, asked) = real(i);
    let t = s.threshold;
    let max_entry = [t as u64 / 4, 64, 3000, t as u64 / 4 - 7, 400][i as usize / 4 % 5];
    // many chunks at the same time are only reached with small volumes per merge
    let budgets = if s.max_chunks.is_none() { 28 } else { 9 };
    let mut f = Flow::gen(src, t, 1, u64::MAX);
    f.max_entry = max_entry;
    f.volume = if max_entry < 100 { 30_000_000 } else { budgets * t as u64 };
    if max_entry >= 100 && f.style == 1 {
        f.style = 0;
    }
    let route = src.index(ROUTES);
    ctx.sample(|| format!("asked {asked} | {} | {}", s.desc(), f.desc()));
    if asked < MIN_MEMORY {
        // through the public clamp
        ctx.label("clamped budget");
        s.threshold = MIN_MEMORY;
        let b = grenad::SorterBuilder::new(Merge::new(MergeKind::Last));
        let mut b = b.chunk_creator(Creator { io: Io::plain() });
        b.dump_threshold(asked).allow_realloc(s.realloc).max_nb_chunks(1);
        // the effective budget is at least the minimum, at most... the volume bound of the minimum must hold
        let io = Io::plain();
        let b2 = b.chunk_creator(Creator { io: io.clone() });
        let mut sorter = b2.build();
        let mut next = f.iter();
        let (mut n, mut vol) = (0, 0u64);
        while let Some((k, v)) = next(n) {
            let before = io.0.borrow().chunks_created;
            sorter.insert(&k, &v).map_err(|x| x.to_string())?;
            let size = (k.len() + v.len()) as u64;
            vol = if io.0.borrow().chunks_created > before { size } else { vol + size };
            let limit = if s.realloc { 2 * MIN_MEMORY } else { MIN_MEMORY } as u64;
            ensure!(vol <= limit, "{vol} bytes since the last spill with a budget of {asked} (effective {MIN_MEMORY})");
            ensure!(io.0.borrow().chunks_max <= 3, "{} chunks with a maximum of 1", io.0.borrow().chunks_max);
            n += 1;
        }
        ctx.nontrivial();
        return Ok(());
    }
    drive(ctx, &s, MergeKind::Last, route, f.iter()).map(|_| ())
}

/// The default configuration (1 GiB budget, 25 chunks).
fn default_budget(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(2);
    let io = Io::plain();
    let mut b = grenad::SorterBuilder::new(Merge::new(MergeKind::Last)).chunk_creator(Creator { io: io.clone() });
    b.allow_realloc(i == 0);
    let mut sorter = b.build();
    let t = 1u64 << 30;
    let limit = if i == 0 { 2 * t } else { t };
    let (mut vol, mut total, mut n) = (0u64, 0u64, 0u32);
    let v = vec![9u8; 100_000];
    while total < 7 * t {
        let before = io.0.borrow().chunks_created;
        sorter.insert((n % 50).to_be_bytes(), &v).map_err(|x| x.to_string())?;
        let size = 4 + v.len() as u64;
        vol = if io.0.borrow().chunks_created > before { size } else { vol + size };
        ensure!(vol <= limit, "{vol} bytes since the last spill with the default budget");
        ensure!(io.0.borrow().chunks_max <= 27, "{} chunks", io.0.borrow().chunks_max);
        total += size;
        n += 1;
    }
    ctx.nontrivial();
    ctx.sample(|| format!("default budget, realloc={}, {total} bytes, {} chunks", i == 0, io.0.borrow().chunks_created));
    Ok(())
}

fn heap_check(ctx: &mut Ctx, s: &SCfg, f: Flow, slack: i64, route: usize) -> CaseResult {
    ctx.sample(|| format!("heap | {} | {}", s.desc(), f.desc()));
    let (total, spills, peak) = drive(ctx, s, MergeKind::Last, route, f.iter())?;
    let limit = 16 * s.budget() as i64 + total as i64 / 16 + slack;
    ctx.label(match 20 * peak / limit {
        0..=4 => "peak < 25% of the limit",
        5..=9 => "peak < 50% of the limit",
        10..=14 => "peak < 75% of the limit",
        _ => "peak >= 75% of the limit",
    });
    ensure!(
        peak <= limit,
        "{peak} bytes of heap outside the chunks after {total} inserted bytes and {spills} spills, budget {}",
        s.budget()
    );
    Ok(())
}

fn heap(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(small_scfg);
    s.storage = Storage::Sim;
    s.parallel = false;
    s.chunk = Cfg::plain();
    s.threshold = src.range(16_000, 64_000) as usize;
    s.init = s.realloc.then_some(s.threshold / 8);
    s.max_chunks = Some(src.range(1, 6) as usize);
    let route = src.index(ROUTES);
    let mut f = Flow::gen(src, s.threshold, 1, u64::MAX);
    f.long_keys = false;
    f.volume = 200 * s.threshold as u64;
    heap_check(ctx, &s, f, 1 << 20, route)
}

fn heap_unhooked(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(40);
    let (mut s, _) = real(i);
    s.max_chunks = Some(2);
    let mut f = Flow::gen(src, s.threshold, 1, u64::MAX);
    f.max_entry = [3000, s.threshold as u64 / 4, 500][i as usize % 3];
    f.long_keys = false;
    f.volume = 40 * s.threshold as u64;
    if f.style == 1 {
        f.style = 0;
    }
    let route = src.index(ROUTES);
    heap_check(ctx, &s, f, 64 << 20, route)
}
