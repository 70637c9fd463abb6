//! C18: unsorted inserts panic or end up in blocks that are sorted anyway.

use super::c01;
use crate::decode::{self, decode, Strict};
use crate::engine::*;
use crate::gen::*;
use crate::sim::{Io, Sink};
use crate::util::*;
use grenad::CompressionType;

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "a case is a writer configuration and an insert sequence in any order, with duplicates; the writer must \
               panic exactly where the statement says and otherwise emit sorted blocks only; non-trivial when some \
               insert is not strictly greater than the one before; distinct by choice sequence",
        assumptions: &["nothing is required of a writer after it panicked, except what it already emitted"],
        phases: vec![
            Phase::random("shuffled", 20_000, 600_000, shuffled),
            Phase::random("boundary", 30_000, 1_000_000, boundary),
            Phase::random("index", 20_000, 600_000, index),
            Phase::enumerate("exhaustive", EX, EX, exhaustive),
            Phase::random("sorted", 5_000, 100_000, |s, c| {
                let (cfg, e) = c01::mix_gen(s);
                judge(c, &cfg, &e)
            }),
        ],
    }
}

#[derive(Clone, Default)]
struct Blk {
    size: usize,
    n: usize,
    last: Option<Vec<u8>>,
}

impl Blk {
    fn estimate(&self, interval: usize) -> usize {
        self.size + 8 * self.n.div_ceil(interval).max(1) + 4
    }
    /// False when the insert must panic.
    fn insert(&mut self, k: &[u8], vlen: usize) -> bool {
        if self.last.as_deref().is_some_and(|l| k <= l) {
            return false;
        }
        let leb = |mut n: usize| {
            let mut l = 1;
            while n >= 128 {
                n >>= 7;
                l += 1;
            }
            l
        };
        self.size += leb(k.len()) + leb(vlen) + k.len() + vlen;
        self.n += 1;
        self.last = Some(k.to_vec());
        true
    }
    fn reset(&mut self) {
        *self = Blk::default();
    }
}

/// What the statement prescribes, given the cut rule of C15.
struct Model {
    data: Blk,
    index: Vec<Blk>,
    block: usize,
    interval: usize,
    /// Number of blocks emitted so far.
    emitted: u64,
}

impl Model {
    fn new(cfg: &Cfg) -> Model {
        Model {
            data: Blk::default(),
            index: vec![Blk::default(); cfg.levels_eff() as usize + 1],
            block: cfg.block_eff(),
            interval: cfg.interval_eff(),
            emitted: 0,
        }
    }
    fn insert(&mut self, k: &[u8], v: &[u8]) -> Result<(), &'static str> {
        if !self.data.insert(k, v.len()) {
            return Err("data block");
        }
        if self.data.estimate(self.interval) >= self.block {
            if !self.index.last_mut().unwrap().insert(k, 8) {
                return Err("index block");
            }
            self.data.reset();
            self.emitted += 1;
            for i in (2..self.index.len()).rev() {
                if self.index[i].estimate(self.interval) >= self.block {
                    if let Some(last) = self.index[i].last.clone() {
                        if !self.index[i - 1].insert(&last, 8) {
                            return Err("upper index block");
                        }
                        self.index[i].reset();
                        self.emitted += 1;
                    }
                }
            }
        }
        Ok(())
    }
    fn finish(&mut self) -> Result<(), &'static str> {
        if let Some(k) = self.data.last.take() {
            if !self.index.last_mut().unwrap().insert(&k, 8) {
                return Err("index block, at the end");
            }
            self.emitted += 1;
        }
        for i in (0..self.index.len()).rev() {
            match self.index[i].last.take() {
                Some(k) => {
                    if i > 0 && !self.index[i - 1].insert(&k, 8) {
                        return Err("upper index block, at the end");
                    }
                    self.emitted += 1;
                }
                None => self.emitted += (i == 0) as u64,
            }
        }
        Ok(())
    }
}

/// Every block already in the sink is complete and strictly ascending; returns their number.
fn emitted(codec: CompressionType, bytes: &[u8]) -> Result<u64, String> {
    let mut pos = 0;
    let mut n = 0;
    while pos < bytes.len() as u64 {
        let b = decode::read_block(bytes, pos, codec, bytes.len() as u64)?;
        decode::check_block(&b, Strict::default()).map_err(|x| format!("block at {pos}: {x}"))?;
        pos += 8 + b.stored;
        n += 1;
    }
    Ok(n)
}

pub fn judge(ctx: &mut Ctx, cfg: &Cfg, e: &[(Vec<u8>, Vec<u8>)]) -> CaseResult {
    if e.windows(2).any(|w| w[0].0 >= w[1].0) {
        ctx.nontrivial();
    } else {
        ctx.label("sorted");
    }
    ctx.sample(|| format!("{} | {}", cfg.desc(), describe(e)));
    let sink = Sink::new(Io::plain());
    let mut m = Model::new(cfg);
    let mut w = cfg.builder().build(sink.clone());
    let mut len = 0;
    // does the writer still cut its blocks where the model does?
    let mut in_step = true;
    // the key of the last insert of the block under construction, as observed
    let mut observed_last: Option<&[u8]> = None;
    let mut max_recorded: Option<&[u8]> = None;
    for (i, (k, v)) in e.iter().enumerate() {
        let want = if in_step { m.insert(k, v) } else { Ok(()) };
        let r = catch(|| w.insert(k, v));
        let grew = sink.len() > len;
        match r {
            Err(p) => {
                let n = emitted(cfg.codec, &sink.bytes()).map_err(|x| format!("after the panic of insert {i}: {x}"))?;
                ctx.count("blocks emitted before a panic", n);
                if in_step && want.is_ok() {
                    // the block under construction holds no key >= k: only an index block can refuse it
                    return Err(format!(
                        "insert {i} of {} panicked ({p}); the block under construction ends with {}, so neither it nor an index block refuses the key",
                        hx(k),
                        observed_last.map_or("nothing".into(), hx)
                    ));
                }
                if in_step {
                    ctx.label(match want {
                        Err("data block") => "panic: data block",
                        Err("index block") => "panic: index block",
                        _ => "panic: upper index block",
                    });
                } else {
                    let data = observed_last.is_some_and(|l| k.as_slice() <= l);
                    let index = max_recorded.is_some_and(|l| k.as_slice() <= l);
                    ensure!(data || index, "insert {i} of {} panicked ({p}) although no earlier key of its block or index block is >= it", hx(k));
                    ctx.label("panic judged without the cut rule");
                }
                return Ok(());
            }
            Ok(Err(x)) => return Err(format!("insert {i} of {} returned an error: {x}", hx(k))),
            Ok(Ok(())) => {}
        }
        if want.is_err() {
            // The finished file decides: either an unsorted block comes out or the writer cuts elsewhere.
            in_step = false;
            ctx.label("accepted where the model panics");
        }
        if grew {
            observed_last = None;
            max_recorded = max_recorded.max(Some(k));
        } else {
            observed_last = Some(k);
        }
        len = sink.len();
        if in_step && (m.data.last.is_none()) != grew {
            in_step = false;
            ctx.label("cuts deviate from the model");
        }
    }
    let want = if in_step { m.finish() } else { Ok(()) };
    match catch(|| w.into_inner().map(drop)) {
        Err(p) => {
            emitted(cfg.codec, &sink.bytes()).map_err(|x| format!("after the panic of into_inner: {x}"))?;
            if in_step && want.is_ok() {
                return Err(format!("into_inner panicked ({p}) although every last key ascends"));
            }
            let sorted = e.windows(2).all(|w| w[0].0 < w[1].0);
            ensure!(!sorted, "into_inner panicked ({p}) on sorted inserts");
            ctx.label("panic: into_inner");
            return Ok(());
        }
        Ok(Err(x)) => return Err(format!("into_inner returned an error: {x}")),
        Ok(Ok(())) => {}
    }
    if want.is_err() {
        ctx.label("accepted where the model panics");
    }
    let bytes = sink.bytes();
    let d = decode(bytes.as_slice(), Strict { unordered: true, ..Strict::default() })
        .map_err(|x| format!("no panic, but the finished file: {x}"))?;
    if let Some(x) = diff(&d.entries, e) {
        return Err(format!("no panic, and the finished file does not hold the inserts in order: {x}"));
    }
    ctx.label("finished");
    if e.windows(2).any(|w| w[0].0 >= w[1].0) {
        ctx.label("finished with keys that descend across blocks");
    }
    Ok(())
}

/// A mostly sorted list with a few disturbances.
fn disturb(src: &mut Src, e: &mut Entries) {
    let n = src.range(0, 3);
    for _ in 0..n {
        if e.is_empty() {
            return;
        }
        let i = src.index(e.len());
        match src.index(7) {
            0 => {
                let x = e[i].clone();
                e.insert(i, x);
            }
            1 if i > 0 => e.swap(i - 1, i),
            2 => {
                let j = src.index(e.len());
                e.swap(i, j);
            }
            3 => {
                let l = src.index(e[i].0.len() + 1);
                e[i].0.truncate(l);
            }
            4 => e[i].0.clear(),
            5 => {
                // equal up to a trailing zero, one way or the other
                let mut x = e[i].clone();
                if src.chance(1, 2) {
                    x.0.push(0);
                } else {
                    x.0.pop();
                }
                e.insert(i + 1, x);
            }
            _ => {
                let x = e.remove(i);
                let j = src.index(e.len() + 1);
                e.insert(j, x);
            }
        }
    }
}

fn shuffled(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = src.span(|s| cfg(s, CFG_DEEP));
    let o = EntOpts::new(400, 60_000);
    let e = match src.index(3) {
        0 => raw_entries(src, o, 1024),
        _ => {
            let mut e = entries(src, o, 1024);
            disturb(src, &mut e);
            e
        }
    };
    judge(ctx, &cfg, &e)
}

/// Disturbances exactly around the block boundaries.
fn boundary(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = Cfg {
        foreign: None,
        codec: codec(src),
        level: None,
        block: Some(src.pick(&[1024usize, 1024, 1025, 1500])),
        interval: [None, Some(1), Some(2), Some(5)][src.index(4)],
        levels: Some(src.range(0, 4) as u8),
        order: 0,
    };
    let per = src.range(1, 5) as usize;
    let n = src.range(2, 40) as usize;
    let b = cfg.block_eff();
    let klen = src.range(2, 300) as usize;
    let vlen = (b / per).saturating_sub(src.index(40)).saturating_sub(if klen < b / per { klen } else { 0 });
    let mut e: Entries = (0..n)
        .map(|i| {
            let mut k = vec![(i / 200) as u8, (i % 200) as u8 + 10];
            k.resize(klen, b'm');
            (k, vec![i as u8; vlen])
        })
        .collect();
    // where the blocks end
    let mut m = Model::new(&cfg);
    let mut ends = Vec::new();
    for (i, (k, v)) in e.iter().enumerate() {
        let _ = m.insert(k, v);
        if m.data.last.is_none() {
            ends.push(i);
        }
    }
    for _ in 0..src.range(1, 3) {
        if ends.is_empty() {
            disturb(src, &mut e);
            break;
        }
        let at = ends[src.index(ends.len())];
        let i = (at + src.index(4)).saturating_sub(1).min(e.len() - 1);
        let from = (i + e.len() - src.index(e.len().min(4))) % e.len();
        let mut k = e[from].0.clone();
        match src.index(5) {
            0 => {}
            1 => {
                k.pop();
            }
            2 => k.push(0),
            3 => k = dec(&k).unwrap_or_default(),
            _ => k = vec![src.below(256) as u8],
        }
        e[i].0 = k;
    }
    judge(ctx, &cfg, &e)
}

/// Every entry closes its block, so that the index blocks decide.
fn index(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let levels = src.range(0, 5) as u8;
    let cfg = Cfg {
        foreign: None,
        codec: CompressionType::None,
        level: None,
        block: Some(1024),
        interval: [None, Some(1), Some(3)][src.index(3)],
        levels: Some(levels),
        order: 0,
    };
    let klen = src.pick(&[1usize, 20, 120, 200, 340, 510, 1100]);
    let n = src.range(2, 60) as usize;
    let mut e: Entries = (0..n)
        .map(|i| {
            let mut k = vec![i as u8 * 4];
            k.resize(klen, b'm');
            (k, vec![i as u8; 1024])
        })
        .collect();
    for _ in 0..src.range(0, 2) {
        let i = src.index(n);
        e[i].0[0] = match src.index(4) {
            0 => e[(i + n - 1) % n].0[0],
            1 => e[(i + n - 1) % n].0[0].wrapping_sub(1),
            2 => e[(i + 1) % n].0[0],
            _ => src.below(256) as u8,
        };
    }
    if src.chance(1, 3) {
        let last = e.len() - 1;
        e[last].1.clear();
    }
    judge(ctx, &cfg, &e)
}

/// All sequences of up to 5 inserts over 4 keys and 2 value sizes (one that closes the block), 5 depths.
const EX: u64 = 5 * (8 + 64 + 512 + 4096 + 32768);

fn exhaustive(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut i = src.below(EX);
    let levels = (i % 5) as u8;
    i /= 5;
    let mut len = 1u32;
    while i >= 8u64.pow(len) {
        i -= 8u64.pow(len);
        len += 1;
    }
    const KEYS: [&[u8]; 4] = [b"", b"a", b"a\0", b"b"];
    let e: Entries = (0..len)
        .map(|_| {
            let d = i % 8;
            i /= 8;
            (KEYS[(d / 2) as usize].to_vec(), vec![d as u8; if d % 2 == 0 { 3 } else { 1100 }])
        })
        .collect();
    judge(ctx, &Cfg { block: Some(1024), levels: Some(levels), ..Cfg::plain() }, &e)
}
