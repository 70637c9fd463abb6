//! C16: the I/O of a cursor operation is bounded by the depth of the index.

use super::c03::{self, Op};
use crate::decode::{decode, Strict};
use crate::encode;
use crate::engine::*;
use crate::gen::*;
use crate::sim::{self, Io, Source};
use crate::util::*;
use grenad::{Reader, ReaderCursor};
use std::collections::HashSet;
use std::ops::Bound;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a case is a file and an operation history over an instrumented source; every block load (a read at the \
               start of a block) and every byte read is counted per operation; non-trivial when the file has more \
               blocks than the bound allows to load; distinct by choice sequence",
        assumptions: &[
            "a block load is a read call that starts at the offset of a block, as found by the independent decoder",
            "an iterator step is made of at most three cursor operations",
        ],
        phases: vec![
            Phase::random("histories", 14_000, 500_000, histories),
            Phase::random("walks", 2_500, 80_000, walks),
            Phase::random("every-probe", 1_200, 40_000, every_probe),
            Phase::random("iterators", 6_000, 200_000, iterators),
            Phase::enumerate("open", 256 * 2, 256 * 8, open_only),
            Phase::enumerate("large", 6, 24, large).threads(6),
        ],
    }
}

pub struct Probe {
    io: Io,
    offsets: HashSet<u64>,
    max_block: u64,
    pub bound: u64,
    pub blocks: u64,
    len: u64,
    cap: u64,
}

impl Probe {
    /// Measures the file with the independent decoder and opens it over an instrumented source.
    pub fn open(bytes: Vec<u8>) -> Result<(Probe, Reader<Source>), String> {
        let d = decode(bytes.as_slice(), Strict { unordered: true, ..Strict::default() })?;
        let offsets: HashSet<u64> = d.blocks.iter().map(|b| b.offset).collect();
        let max_block = d.blocks.iter().map(|b| 8 + b.stored).max().unwrap_or(8);
        let io = Io::plain();
        io.0.borrow_mut().log = Some(Vec::new());
        let len = bytes.len() as u64;
        let blocks = d.blocks.len() as u64;
        let bound = 2 * (d.trailer.levels as u64 + 2);
        let reader = Reader::new(Source::new(io.clone(), Rc::new(bytes))).map_err(|x| format!("open: {x}"))?;
        let p = Probe { io, offsets, max_block, bound, blocks, len, cap: 0 };
        for (op, at, n) in p.take() {
            if op == sim::Op::Read && n > 0 {
                ensure!(at + 22 >= len, "opening a file of {len} bytes read {n} bytes at {at}, before its trailer");
            }
        }
        Ok((p, reader))
    }
    fn take(&self) -> Vec<(sim::Op, u64, u64)> {
        std::mem::take(self.io.0.borrow_mut().log.as_mut().unwrap())
    }
    /// Judges what happened since the last call; `ops` cursor operations were performed.
    pub fn judge(&mut self, what: impl FnOnce() -> String, ops: u64) -> CaseResult {
        let log = self.take();
        let mut loads = 0;
        let mut bytes = 0;
        for (op, at, n) in &log {
            if *op == sim::Op::Read && *n > 0 {
                bytes += n;
                loads += self.offsets.contains(at) as u64;
            }
        }
        self.cap = self.cap.max(loads);
        let bound = self.bound * ops;
        if loads > bound || bytes > bound * self.max_block {
            return Err(format!(
                "{} loaded {loads} blocks and read {bytes} bytes of a file of {} blocks and {} bytes; the bound is {bound} blocks",
                what(),
                self.blocks,
                self.len
            ));
        }
        Ok(())
    }
    fn finish(&self, ctx: &mut Ctx) {
        if self.blocks > self.bound {
            ctx.nontrivial();
        }
        ctx.label(match self.cap {
            0 => "no load",
            1..=2 => "at most 2 loads per operation",
            3..=6 => "at most 6 loads per operation",
            7..=12 => "at most 12 loads per operation",
            _ => "more than 12 loads in an operation",
        });
    }
}

type Cur = ReaderCursor<Source>;

fn act(c: &mut Cur, op: &Op) -> Result<bool, String> {
    match op {
        Op::First => c.move_on_first(),
        Op::Last => c.move_on_last(),
        Op::Next => c.move_on_next(),
        Op::Prev => c.move_on_prev(),
        Op::Ge(q) => c.move_on_key_greater_than_or_equal_to(q),
        Op::Le(q) => c.move_on_key_lower_than_or_equal_to(q),
        Op::Eq(q) => c.move_on_key_equal_to(q),
        Op::Reset => {
            c.reset();
            return Ok(false);
        }
        Op::Current => {
            return Ok(c.current().is_some());
        }
    }
    .map(|r| r.is_some())
    .map_err(|x| format!("{} failed: {x}", op.show()))
}

/// A file of many blocks (V2, sometimes V1).
fn gen_file(src: &mut Src, scale: u64) -> Result<(Cfg, Entries, Vec<u8>), String> {
    let (mut cfg, e) = match src.weighted(&[4, 3, 3]) {
        0 => c03::deep_file(src),
        1 => {
            let cfg = src.span(|s| cfg(s, CFG_DEEP));
            let e = entries(src, EntOpts::new(800 * scale, 200_000 * scale as usize), 1024);
            (cfg, e)
        }
        _ => {
            let klen = src.range(4, 400) as usize;
            let n = src.range(1, 400 * scale) as u32;
            let vlen = src.pick(&[0usize, 8, 300, 1100]);
            let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
            cfg.block = Some(1024);
            let e = (0..n)
                .map(|i| {
                    let mut k = (i * 2).to_be_bytes().to_vec();
                    k.resize(klen, b'z');
                    (k, vec![i as u8; vlen])
                })
                .collect();
            (cfg, e)
        }
    };
    let v1 = src.chance(1, 10);
    if v1 {
        cfg.levels = Some(0);
    }
    let mut bytes = file(&cfg, &e)?;
    if v1 {
        let t = crate::decode::trailer(&bytes[bytes.len() - 22..]).ok_or("no trailer")?;
        bytes.truncate(bytes.len() - 22);
        bytes.extend(encode::trailer_v1(t.root, encode::codec_id(cfg.codec), e.len() as u64));
    }
    Ok((cfg, e, bytes))
}

fn histories(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e, bytes) = gen_file(src, 1)?;
    let (mut p, reader) = Probe::open(bytes)?;
    let mut cs = vec![reader.into_cursor().map_err(|x| x.to_string())?];
    p.judge(|| "into_cursor".into(), 1)?;
    ctx.sample(|| format!("{} | {} | {} blocks, bound {}", cfg.desc(), describe(&e), p.blocks, p.bound));
    let n = src.range(1, 60);
    for _ in 0..n {
        let i = src.index(cs.len());
        if src.chance(1, 20) && cs.len() < 4 {
            let c = cs[i].clone();
            p.judge(|| "clone".into(), 1)?;
            cs.push(c);
            continue;
        }
        let op = c03::gen_op(src, &e);
        act(&mut cs[i], &op)?;
        ctx.note(|| op.show());
        p.judge(|| op.show(), 1)?;
    }
    p.finish(ctx);
    Ok(())
}

/// Whole scans in both directions, with turns.
fn walks(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e, bytes) = gen_file(src, 1)?;
    let (mut p, reader) = Probe::open(bytes)?;
    let mut c = reader.into_cursor().map_err(|x| x.to_string())?;
    ctx.sample(|| format!("{} | {} | {} blocks, bound {}", cfg.desc(), describe(&e), p.blocks, p.bound));
    let turn = src.range(2, 9);
    for op in [Op::Next, Op::Prev] {
        let back = if op == Op::Next { Op::Prev } else { Op::Next };
        c.reset();
        let mut steps = 0u64;
        loop {
            let more = act(&mut c, &op)?;
            p.judge(|| format!("{} (step {steps} of a scan)", op.show()), 1)?;
            steps += 1;
            if !more || steps > 2 * e.len() as u64 {
                break;
            }
            if steps % turn == 0 {
                for o in [&back, &op] {
                    act(&mut c, o)?;
                    p.judge(|| format!("{} (turn at step {steps})", o.show()), 1)?;
                }
            }
        }
        // the boundary itself, repeatedly
        for o in [&op, &op, &back, &op] {
            act(&mut c, o)?;
            p.judge(|| format!("{} (after the end of a scan)", o.show()), 1)?;
        }
    }
    p.finish(ctx);
    Ok(())
}

fn every_probe(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e, bytes) = gen_file(src, 1)?;
    let (mut p, reader) = Probe::open(bytes)?;
    let fresh = reader.into_cursor().map_err(|x| x.to_string())?;
    ctx.sample(|| format!("{} | {} | {} blocks, bound {}", cfg.desc(), describe(&e), p.blocks, p.bound));
    let mut used = fresh.clone();
    let mut probes = super::c02::classes(&e);
    if probes.len() > 400 {
        let mut rng = Rng::new(src.seed());
        for i in 0..400 {
            let j = i + rng.below((probes.len() - i) as u64) as usize;
            probes.swap(i, j);
        }
        probes.truncate(400);
    }
    for q in probes {
        for op in [Op::Ge(q.clone()), Op::Le(q.clone()), Op::Eq(q)] {
            act(&mut fresh.clone(), &op)?;
            p.judge(|| format!("{} on a new cursor", op.show()), 1)?;
            act(&mut used, &op)?;
            p.judge(|| format!("{} on a used cursor", op.show()), 1)?;
        }
    }
    p.finish(ctx);
    Ok(())
}

fn iterators(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e, bytes) = gen_file(src, 1)?;
    let (mut p, reader) = Probe::open(bytes)?;
    ctx.sample(|| format!("{} | {} | {} blocks, bound {}", cfg.desc(), describe(&e), p.blocks, p.bound));
    let cap = e.len() as u64 + 2;
    macro_rules! steps {
        ($it:expr, $what:expr) => {{
            let mut it = $it.map_err(|x| x.to_string())?;
            p.judge(|| format!("creating {}", $what), 1)?;
            for i in 0..cap {
                let more = it.next().map_err(|x| x.to_string())?.is_some();
                p.judge(|| format!("step {i} of {}", $what), 3)?;
                if !more {
                    break;
                }
            }
        }};
    }
    for _ in 0..src.range(1, 5) {
        match src.index(4) {
            0 | 1 => {
                let (lo, hi) = (super::c04::gen_bound(src, &e), super::c04::gen_bound(src, &e));
                let r: (Bound<Vec<u8>>, Bound<Vec<u8>>) = (lo, hi);
                steps!(reader.clone().into_range_iter(r.clone()), format!("a range iterator over {}..{}", super::c04::show(&r.0), super::c04::show(&r.1)));
                steps!(reader.clone().into_rev_range_iter(r.clone()), format!("a reverse range iterator over {}..{}", super::c04::show(&r.0), super::c04::show(&r.1)));
            }
            2 => {
                let q = super::c05::gen_prefix(src, &e);
                steps!(reader.clone().into_prefix_iter(q.clone()), format!("a prefix iterator on {}", hx(&q)));
            }
            _ => {
                let q = super::c05::gen_prefix(src, &e);
                steps!(reader.clone().into_rev_prefix_iter(q.clone()), format!("a reverse prefix iterator on {}", hx(&q)));
            }
        }
    }
    p.finish(ctx);
    Ok(())
}

/// Opening reads the trailer only, whatever the depth.
fn open_only(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(256 * 8);
    let cfg = Cfg { levels: Some((i % 256) as u8), block: Some(1024), codec: codec(src), ..Cfg::plain() };
    let e: Entries = match i / 256 {
        0 => (0..src.range(0, 3) as u8).map(|i| (vec![i], vec![i; 5])).collect(),
        _ => entries(src, EntOpts::new(100, 20_000), 1024),
    };
    let (mut p, reader) = Probe::open(file(&cfg, &e)?)?;
    let mut c = reader.into_cursor().map_err(|x| x.to_string())?;
    p.judge(|| "into_cursor".into(), 1)?;
    for _ in 0..4 {
        let op = c03::gen_op(src, &e);
        act(&mut c, &op)?;
        p.judge(|| op.show(), 1)?;
    }
    p.finish(ctx);
    if cfg.levels_eff() >= 2 {
        ctx.nontrivial();
    }
    Ok(())
}

/// Tens of thousands of blocks.
fn large(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(24);
    let levels = (i % 6) as u8;
    let n = 20_000u32 * (1 + (i / 6) as u32);
    let cfg = Cfg { levels: Some(levels), block: Some(1024), ..Cfg::plain() };
    let klen = src.pick(&[4usize, 60, 150]);
    let e: Entries = (0..n)
        .map(|i| {
            let mut k = (i * 2).to_be_bytes().to_vec();
            k.resize(klen, b'x');
            (k, vec![i as u8; 1010])
        })
        .collect();
    let (mut p, reader) = Probe::open(file(&cfg, &e)?)?;
    ctx.sample(|| format!("{} | {} | {} blocks, bound {}", cfg.desc(), describe(&e), p.blocks, p.bound));
    let mut c = reader.into_cursor().map_err(|x| x.to_string())?;
    for _ in 0..400 {
        let op = c03::gen_op(src, &e);
        act(&mut c, &op)?;
        p.judge(|| op.show(), 1)?;
    }
    // a whole scan in each direction
    for op in [Op::Next, Op::Prev] {
        c.reset();
        while act(&mut c, &op)? {
            p.judge(|| format!("{} of a scan", op.show()), 1)?;
        }
        p.judge(|| format!("{} at the end", op.show()), 1)?;
    }
    p.finish(ctx);
    Ok(())
}
