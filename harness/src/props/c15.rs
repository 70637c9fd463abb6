//! C15: blocks are cut at the configured size.

use super::{c01, c03};
use crate::decode::{decode, Decoded, Strict};
use crate::engine::*;
use crate::gen::*;
use crate::sim::*;
use crate::sorterkit::*;
use crate::util::*;
use grenad::CompressionType;
use std::cell::RefCell;
use std::io::{self, Cursor, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a case is a finished file (written directly or as a sorter chunk) whose every block is measured by the \
               independent decoder; non-trivial when a data block or a deep index block other than the last of its \
               level was cut; distinct by choice sequence",
        assumptions: &["the size of a block is the length of its uncompressed bytes: payload + 8 per table offset + 4"],
        phases: vec![
            Phase::random("exact", 20_000, 600_000, exact),
            Phase::random("exact-index", 10_000, 300_000, exact_index),
            Phase::random("mix", 25_000, 800_000, |s, c| {
                let (cfg, e) = c01::mix_gen(s);
                one(c, &cfg, &e)
            }),
            Phase::random("deep", 15_000, 500_000, |s, c| {
                let (cfg, e) = c03::deep_file(s);
                one(c, &cfg, &e)
            }),
            Phase::random("big", 300, 8_000, big),
            Phase::enumerate("jumbo", 6, 12, |s, c| {
                let (cfg, e) = c01::jumbo_gen(s);
                one(c, &cfg, &e)
            })
            .threads(6),
            Phase::random("chunks", 4_000, 100_000, chunks).hook(),
        ],
    }
}

/// Bytes of a block of these many entries bytes.
fn footer(n: usize, interval: usize) -> usize {
    8 * n.div_ceil(interval).max(1) + 4
}

/// The cut rule on every block of a decoded file.
pub fn check(ctx: &mut Ctx, cfg: &Cfg, d: &Decoded) -> CaseResult {
    let b = cfg.block_eff();
    let interval = cfg.interval_eff();
    let data = d.trailer.levels as usize + 1;
    let mut last_of: std::collections::BTreeMap<usize, u64> = Default::default();
    for blk in &d.blocks {
        last_of.insert(blk.depth, blk.offset);
    }
    let (mut cut_data, mut cut_index) = (0, 0);
    for blk in &d.blocks {
        if blk.depth != data && blk.depth < 2 {
            continue;
        }
        let what = if blk.depth == data { "data block" } else { "index block" };
        let n = blk.entries.len();
        if n > 0 {
            let without = blk.starts[n - 1] as usize + footer(n - 1, interval);
            ensure!(
                without < b,
                "{what} at {} (depth {} of {data}): {} bytes for a block size of {b}; it still has {without} bytes \
                 without the last of its {n} entries, so it should have been emitted earlier",
                blk.offset,
                blk.depth,
                blk.raw_len
            );
        }
        let is_last = last_of[&blk.depth] == blk.offset;
        if !is_last {
            ensure!(
                blk.raw_len >= b,
                "{what} at {} (depth {} of {data}) was emitted with {} bytes, before reaching the block size {b}",
                blk.offset,
                blk.depth,
                blk.raw_len
            );
            if blk.depth == data {
                cut_data += 1;
            } else {
                cut_index += 1;
            }
        }
        match blk.raw_len as i128 - b as i128 {
            0 => ctx.label("block of exactly the block size"),
            -1 => ctx.label("block one byte short"),
            _ => {}
        }
    }
    ctx.count("cut data blocks", cut_data);
    ctx.count("cut deep index blocks", cut_index);
    if cut_data + cut_index > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

fn one(ctx: &mut Ctx, cfg: &Cfg, e: &Entries) -> CaseResult {
    let bytes = file(cfg, e)?;
    let d = decode(bytes.as_slice(), Strict { interval: Some(cfg.interval_eff()), tiling: true, unordered: false })
        .map_err(|x| format!("the file cannot be measured: {x}"))?;
    ctx.sample(|| format!("{} | {} | {} blocks", cfg.desc(), describe(e), d.blocks.len()));
    check(ctx, cfg, &d)
}

fn vlen(n: usize) -> usize {
    match n {
        0..=0x7f => 1,
        0x80..=0x3fff => 2,
        0x4000..=0x1f_ffff => 3,
        0x20_0000..=0xfff_ffff => 4,
        _ => 5,
    }
}

/// The value length that makes an entry of `total` bytes with this key length, if any.
fn value_for(total: usize, klen: usize) -> Option<usize> {
    (1..=4).find_map(|l| {
        let v = total.checked_sub(vlen(klen) + klen + l)?;
        (vlen(v) == l).then_some(v)
    })
}

/// Data blocks that end exactly at, just below or just above the block size.
fn exact(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
    cfg.block = Some(match src.weighted(&[4, 3, 3, 2]) {
        0 => 1024,
        1 => src.pick(&[0, 1, 4, 12, 512, 1000, 1023]),
        2 => src.range(1025, 5000) as usize,
        _ => src.pick(&[8191, 8192, 16384, 65536]),
    });
    if src.chance(1, 2) {
        cfg.interval = Some(src.range(1, 9) as usize);
    }
    let b = cfg.block_eff();
    let interval = cfg.interval_eff();
    let nblocks = src.range(1, 6);
    let mut e: Entries = Vec::new();
    let mut id = 0u32;
    for _ in 0..nblocks {
        let m = src.range(0, 20) as usize;
        let d = src.range(0, 6) as i64 - 3;
        let mut size = 0;
        let mut n = 0;
        let add = |e: &mut Entries, klen: usize, v: usize, id: &mut u32| {
            let mut k = id.to_be_bytes().to_vec();
            k.resize(klen.max(4), b'k');
            let sz = vlen(k.len()) + vlen(v) + k.len() + v;
            e.push((k, vec![*id as u8; v]));
            *id += 1;
            sz
        };
        for _ in 0..m {
            let (kl, vl) = (src.range(4, 12) as usize, src.index(b / (2 * (m + 1))));
            size += add(&mut e, kl, vl, &mut id);
            n += 1;
        }
        // the entry that brings the estimate to b + d
        let klen = src.range(4, 30) as usize;
        let want = (b as i64 + d) as usize;
        let rest = want as i64 - (size + footer(n + 1, interval)) as i64;
        if rest > 0 {
            if let Some(v) = value_for(rest as usize, klen) {
                add(&mut e, klen, v, &mut id);
            }
        }
        if d < 0 {
            // a small entry right after: may be the one that crosses
            let v = src.index(4);
            add(&mut e, 4, v, &mut id);
        }
    }
    one(ctx, &cfg, &e)
}

/// Index blocks that end exactly at, just below or just above the block size.
fn exact_index(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let b = src.pick(&[1024usize, 1024, 1025, 1100, 1500, 2048]);
    let interval = src.pick(&[1usize, 2, 3, 8, 100]);
    let cfg = Cfg {
        foreign: None,
        block: Some(b),
        interval: Some(interval),
        levels: Some(src.range(2, 5) as u8),
        codec: codec(src),
        level: None,
        order: 0,
    };
    let nblocks = src.range(1, 8);
    let mut e: Entries = Vec::new();
    let mut id = 0u32;
    for _ in 0..nblocks {
        // the sizes of one index block, each of its entries being the key of a one-entry data block
        let m = src.range(0, 5) as usize;
        let d = src.range(0, 6) as i64 - 3;
        let mut lens: Vec<usize> = (0..m).map(|_| src.range(4, (b / (m + 1)) as u64 - 20) as usize).collect();
        let size: usize = lens.iter().map(|k| vlen(*k) + 1 + k + 8).sum();
        let rest = b as i64 + d - (size + footer(m + 1, interval)) as i64 - 9;
        for l in 1..3 {
            if rest - l >= 4 && vlen((rest - l) as usize) as i64 == l {
                lens.push((rest - l) as usize);
                break;
            }
        }
        for l in lens {
            let mut k = id.to_be_bytes().to_vec();
            k.resize(l, b'k');
            e.push((k, vec![id as u8; b]));
            id += 1;
        }
    }
    one(ctx, &cfg, &e)
}

/// Many blocks, so that the third and fourth levels are cut too.
fn big(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let n = src.range(500, 8_000);
    let klen = src.range(4, 300) as usize;
    let cfg = Cfg {
        foreign: None,
        block: Some(src.pick(&[0usize, 1024, 1024, 2000, 4096])),
        interval: [None, Some(1), Some(5), Some(usize::MAX)][src.index(4)],
        levels: Some(src.range(2, 6) as u8),
        codec: codec(src),
        level: None,
        order: 0,
    };
    let vmax = src.pick(&[1u64, 20, 300, 1200]);
    let n = n.min(4_000_000 / (klen as u64 + vmax));
    let mut rng = Rng::new(src.seed());
    let vary = src.chance(1, 2);
    let e: Entries = (0..n as u32)
        .map(|i| {
            let mut k = i.to_be_bytes().to_vec();
            let l = if vary { 4 + rng.below(klen as u64 - 3) as usize } else { klen };
            k.resize(l, b'k');
            (k, vec![i as u8; rng.below(vmax) as usize])
        })
        .collect();
    one(ctx, &cfg, &e)
}

// ---------------------------------------------------------------- sorter chunks

/// A chunk whose bytes survive it.
struct Kept {
    io: Cursor<Vec<u8>>,
    slot: Rc<RefCell<Vec<Vec<u8>>>>,
}
impl Read for Kept {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.io.read(buf)
    }
}
impl Write for Kept {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.io.write(buf)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl Seek for Kept {
    fn seek(&mut self, p: SeekFrom) -> io::Result<u64> {
        self.io.seek(p)
    }
}
impl Drop for Kept {
    fn drop(&mut self) {
        self.slot.borrow_mut().push(std::mem::take(self.io.get_mut()));
    }
}
struct Keeper(Rc<RefCell<Vec<Vec<u8>>>>);
impl grenad::ChunkCreator for Keeper {
    type Chunk = Kept;
    type Error = io::Error;
    fn create(&self) -> io::Result<Kept> {
        Ok(Kept { io: Cursor::new(Vec::new()), slot: self.0.clone() })
    }
}

/// The chunks of a sorter are files too: spilled ones and merged ones.
fn chunks(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = small_scfg(src);
    s.parallel = false;
    s.storage = Storage::CursorVec;
    if src.chance(2, 3) {
        s.threshold = src.range(4096, 40_000) as usize;
        s.init = s.init.map(|_| s.threshold);
    }
    let e = raw_entries(src, EntOpts::new(600, 120_000), s.chunk.block_eff());
    let slot = Rc::new(RefCell::new(Vec::new()));
    let mut sorter = s.build(Merge::new(MergeKind::First), Keeper(slot.clone()));
    for (k, v) in &e {
        sorter.insert(k, v).map_err(|x| format!("insert: {x}"))?;
    }
    drop(sorter.into_reader_cursors().map_err(|x| format!("into_reader_cursors: {x}"))?);
    let files = slot.borrow();
    ctx.sample(|| format!("{} | {} | {} chunks", s.desc(), describe(&e), files.len()));
    for (i, f) in files.iter().enumerate() {
        let d = decode(f.as_slice(), Strict::default()).map_err(|x| format!("chunk {i} cannot be measured: {x}"))?;
        let codec = if s.chunk.codec == CompressionType::None { d.trailer.codec } else { s.chunk.codec };
        ensure!(d.trailer.codec == codec, "chunk {i} uses {:?}, configured {codec:?}", d.trailer.codec);
        ensure!(
            d.trailer.levels == s.chunk.levels_eff(),
            "chunk {i} has {} index levels, configured {}",
            d.trailer.levels,
            s.chunk.levels_eff()
        );
        check(ctx, &s.chunk, &d).map_err(|x| format!("chunk {i} of {}: {x}", files.len()))?;
    }
    Ok(())
}
