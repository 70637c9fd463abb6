//! C10: version-1 files.

use super::{c04, c05};
use crate::encode;
use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use grenad::{FileVersion, Reader};
use std::io::Cursor;

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "a case is a V1 file (a V2 single-level file with its trailer replaced, or one built by the independent \
               encoder with arbitrary cuts, its blocks in writing order or anywhere in the file) and a list of scans, seeks, ranges and prefixes run on it and on its V2 \
               twin; non-trivial when it has at least two entries; distinct by choice sequence",
        assumptions: &["the independent encoder implements the V1 trailer of the statement"],
        phases: vec![
            Phase::random("retrailed", 25_000, 800_000, retrailed),
            Phase::random("encoded", 25_000, 800_000, encoded),
            Phase::random("scattered", 15_000, 400_000, scattered),
        ],
    }
}

fn check(src: &mut Src, ctx: &mut Ctx, v1: &[u8], v2: &[u8], cfg: &Cfg, e: &Entries, count: u64) -> CaseResult {
    let r1 = Reader::new(Cursor::new(v1)).map_err(|x| format!("a V1 file does not open: {x}"))?;
    let r2 = Reader::new(Cursor::new(v2)).map_err(|x| format!("the V2 twin does not open: {x}"))?;
    ensure!(r1.file_version() == FileVersion::FormatV1, "file_version is {:?}", r1.file_version());
    ensure!(r1.len() == count, "len is {}, stored {count}", r1.len());
    ensure!(r1.is_empty() == (count == 0), "is_empty is {} with a stored count of {count}", r1.is_empty());
    ensure!(r1.compression_type() == cfg.codec, "codec is {:?}, stored {:?}", r1.compression_type(), cfg.codec);
    ctx.sample(|| format!("{} | {} | V1 file of {} bytes, stored count {count}", cfg.desc(), describe(e), v1.len()));
    for (name, r) in [("V1", &r1), ("V2", &r2)] {
        let fail = |x: String| format!("{name}: {x}");
        let mut c = r.clone().into_cursor().map_err(|x| x.to_string())?;
        for i in 0..=e.len() {
            let got = c.move_on_next().map_err(|x| fail(format!("next: {x}")))?;
            ensure!(got == entry(e, Some(i)), "{name}: forward scan, {i}: got {}, want {}", hkv(got), hkv(entry(e, Some(i))));
        }
        c.reset();
        for i in (0..e.len()).rev().map(Some).chain([None]) {
            let got = c.move_on_prev().map_err(|x| fail(format!("prev: {x}")))?;
            ensure!(got == entry(e, i), "{name}: backward scan, {i:?}: got {}, want {}", hkv(got), hkv(entry(e, i)));
        }
    }
    let mut c1 = r1.clone().into_cursor().map_err(|x| x.to_string())?;
    let mut c2 = r2.clone().into_cursor().map_err(|x| x.to_string())?;
    let n = src.range(0, 10);
    for _ in 0..n {
        let q = probe(src, e);
        super::c02::check_probe(&mut c1, e, &q, "V1, reset").map_err(|x| x.to_string())?;
        super::c02::check_probe(&mut c2, e, &q, "V2, reset").map_err(|x| x.to_string())?;
    }
    // a history on the V1 cursor
    let mut m = super::c03::Model::default();
    c1.reset();
    for _ in 0..src.range(0, 12) {
        let q = probe(src, e);
        use super::c03::Op;
        let op = match src.index(7) {
            0 => Op::First,
            1 => Op::Last,
            2 => Op::Next,
            3 => Op::Prev,
            4 => Op::Ge(q),
            5 => Op::Le(q),
            _ => Op::Eq(q),
        };
        m.step(&mut c1, e, &op, ctx).map_err(|x| format!("V1: {x}"))?;
    }
    for _ in 0..src.range(0, 4) {
        let (lo, hi) = (c04::gen_bound(src, e), c04::gen_bound(src, e));
        let form = if src.chance(1, 2) { 0 } else { src.index(1 << 12) };
        c04::check_range(&r1, e, &lo, &hi, form).map_err(|x| format!("V1: {x}"))?;
        c04::check_range(&r2, e, &lo, &hi, form).map_err(|x| format!("V2: {x}"))?;
        let p = c05::gen_prefix(src, e);
        c05::check_prefix(&r1, e, &p, form).map_err(|x| format!("V1: {x}"))?;
        c05::check_prefix(&r2, e, &p, form).map_err(|x| format!("V2: {x}"))?;
    }
    if e.len() >= 2 {
        ctx.nontrivial();
    }
    if e.is_empty() {
        ctx.label("empty file");
    }
    if count != e.len() as u64 {
        ctx.label("arbitrary stored count");
    }
    Ok(())
}

fn stored_count(src: &mut Src, e: &Entries) -> u64 {
    match src.weighted(&[6, 1, 1]) {
        0 => e.len() as u64,
        1 => src.pick(&[0, 1, 255, 256, u32::MAX as u64, 1 << 32, u64::MAX, u64::MAX - 1, 1 << 63]),
        _ => src.u64(),
    }
}

fn retrailed(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = src.span(|s| cfg(s, CFG_ANY));
    cfg.levels = if src.chance(1, 2) { None } else { Some(0) };
    let e = entries(src, EntOpts::new(300, 40_000), cfg.block_eff());
    let v2 = file(&cfg, &e)?;
    let n = v2.len();
    let t = crate::decode::trailer(&v2[n - 22..]).ok_or("the V2 twin has no V2 trailer")?;
    let count = stored_count(src, &e);
    let mut v1 = v2[..n - 22].to_vec();
    v1.extend_from_slice(&encode::trailer_v1(t.root, encode::codec_id(cfg.codec), count));
    check(src, ctx, &v1, &v2, &cfg, &e, count)
}

fn encoded_blocks(src: &mut Src) -> (Entries, Vec<(Vec<u8>, Vec<u8>)>, Cfg) {
    let codec = codec(src);
    let interval = src.pick(&[8usize, 1, 2, 3, 7, 100, usize::MAX]);
    let e = entries(src, EntOpts::new(300, 40_000), 1024);
    let mode = src.index(4);
    let mut rng = Rng::new(src.seed());
    let every = 1 + rng.below(20) as usize;
    let blocks = encode::cut_blocks(&e, interval, |i, size| match mode {
        0 => size >= 1024,
        1 => size >= 8192,
        2 => i % every == 0,
        _ => rng.below(5) == 0,
    });
    (e, blocks, Cfg { codec, interval: Some(interval), ..Cfg::plain() })
}

fn encoded(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (e, blocks, cfg) = encoded_blocks(src);
    let (mut v1, root) = encode::single_level(&blocks, cfg.codec, cfg.interval_eff());
    let mut v2 = v1.clone();
    let id = encode::codec_id(cfg.codec);
    let count = stored_count(src, &e);
    v1.extend_from_slice(&encode::trailer_v1(root, id, count));
    v2.extend_from_slice(&encode::trailer_v2(root, id, count, 0));
    check(src, ctx, &v1, &v2, &cfg, &e, count)
}

/// A single-level index whose blocks lie anywhere in the file, the root index included.
fn scattered(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (e, blocks, cfg) = encoded_blocks(src);
    let mut order: Vec<usize> = (0..=blocks.len()).collect();
    let mut rng = Rng::new(src.seed());
    match src.index(4) {
        0 => order.rotate_right(1),
        1 => order.reverse(),
        2 => {}
        _ => (1..order.len()).rev().for_each(|i| order.swap(i, rng.below(i as u64 + 1) as usize)),
    }
    let gaps = src.pick(&[0u64, 0, 12, 300]);
    let (mut v1, root) = encode::scattered(&blocks, cfg.codec, cfg.interval_eff(), &order, || {
        (0..rng.below(gaps + 1)).map(|_| rng.next() as u8).collect()
    });
    let (mut v2, root2) = encode::single_level(&blocks, cfg.codec, cfg.interval_eff());
    let id = encode::codec_id(cfg.codec);
    let count = stored_count(src, &e);
    v1.extend_from_slice(&encode::trailer_v1(root, id, count));
    v2.extend_from_slice(&encode::trailer_v2(root2, id, count, 0));
    if root == 0 {
        ctx.label("root index at the start");
    }
    check(src, ctx, &v1, &v2, &cfg, &e, count)
}
