//! C09: format conformance and interoperability with grenad 0.4.7.

use super::{c01, c02};
use crate::decode::{self, decode, ReadAt, Strict};
use crate::encode;
use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use grenad::{CompressionType, FileVersion, Reader};
use grenad_0_4 as old;
use std::io::{Cursor, Read, Seek};
use std::num::NonZeroUsize;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "a case is a writer configuration and a strictly ascending entry list, sent through the current writer \
               (independent decoder and 0.4.7 reader) and/or the 0.4.7 writer (current reader); non-trivial as in C01; \
               distinct by choice sequence",
        assumptions: &[
            "the independent decoder implements the format of the statement; the codec crates are shared",
            "0.4.7's own writer is not asked for 255 index levels or zlib levels above 9, where it fails in its own code",
        ],
        phases: vec![
            Phase::random("mix", 35_000, 1_200_000, |s, c| {
                let (cfg, e) = c01::mix_gen(s);
                both(s, c, cfg, e)
            }),
            Phase::random("deep", 15_000, 500_000, |s, c| {
                let (cfg, e) = c01::deep_gen(s);
                both(s, c, cfg, e)
            }),
            Phase::enumerate("levels", 256 * 3, 256 * 24, |s, c| {
                let (cfg, e) = c01::levels_gen(s);
                c.nontrivial();
                both(s, c, cfg, e)
            }),
            Phase::enumerate("codec-levels", c01::CL, c01::CL * 6, |s, c| {
                let (cfg, e) = c01::codec_levels_gen(s);
                c.nontrivial();
                both(s, c, cfg, e)
            }),
            Phase::enumerate("block-edges", c01::BE, c01::BE * 8, |s, c| {
                let (cfg, e) = c01::block_edges_gen(s);
                c.nontrivial();
                both(s, c, cfg, e)
            }),
            Phase::enumerate("jumbo", 6, 12, |s, c| {
                let (cfg, e) = c01::jumbo_gen(s);
                c.nontrivial();
                both(s, c, cfg, e)
            })
            .threads(6),
            Phase::enumerate("over-4gib", 1, 3, over_4gib).threads(1),
            #[cfg(not(feature = "full"))]
            Phase::random("disabled", 10_000, 200_000, c01::disabled),
        ],
    }
}

/// The bytes of a finished file, checked by the independent decoder.
pub fn conform(cfg: &Cfg, e: &Entries, bytes: &[u8]) -> CaseResult {
    let d = decode(bytes, Strict { interval: Some(cfg.interval_eff()), tiling: true, unordered: false })?;
    let t = &d.trailer;
    ensure!(t.version == 2, "the trailer is the one of version {}", t.version);
    ensure!(t.codec == cfg.codec, "the trailer names {:?}, configured {:?}", t.codec, cfg.codec);
    ensure!(t.count == e.len() as u64, "the trailer counts {}, {} inserted", t.count, e.len());
    ensure!(t.levels == cfg.levels_eff(), "the trailer has {} index levels, configured {}", t.levels, cfg.levels_eff());
    if let Some(x) = diff(&d.entries, e) {
        return Err(format!("independent decoder: {x}"));
    }
    // the trailer, byte for byte
    let want = encode::trailer_v2(t.root, encode::codec_id(cfg.codec), e.len() as u64, cfg.levels_eff());
    ensure!(bytes[bytes.len() - 22..] == want[..], "trailer bytes {:02x?}, want {want:02x?}", &bytes[bytes.len() - 22..]);
    Ok(())
}

fn old_codec(c: CompressionType) -> old::CompressionType {
    match c {
        CompressionType::None => old::CompressionType::None,
        CompressionType::SnappyPre05 => old::CompressionType::SnappyPre05,
        CompressionType::Zlib => old::CompressionType::Zlib,
        CompressionType::Lz4 => old::CompressionType::Lz4,
        CompressionType::Zstd => old::CompressionType::Zstd,
        CompressionType::Snappy => old::CompressionType::Snappy,
    }
}

fn old_open<R: Read + Seek>(r: R) -> Result<old::Reader<R>, String> {
    old::Reader::new(r).map_err(|x| format!("0.4.7 does not open the file: {x}"))
}

/// The file as grenad 0.4.7 reads it.  Only operations 0.4.7 gets right on any file: scans of new
/// cursors and seeks on new cursors.
pub fn old_reads(cfg: &Cfg, e: &Entries, bytes: &[u8], probes: &[Vec<u8>]) -> CaseResult {
    let r = old_open(Cursor::new(bytes))?;
    ensure!(r.len() == e.len() as u64, "0.4.7 reads a length of {}, {} inserted", r.len(), e.len());
    ensure!(r.compression_type() == old_codec(cfg.codec), "0.4.7 reads the codec {:?}", r.compression_type());
    ensure!(r.file_version() == old::FileVersion::FormatV2, "0.4.7 reads the version {:?}", r.file_version());
    let mut c = r.clone().into_cursor().map_err(|x| x.to_string())?;
    for i in 0..=e.len() {
        let got = c.move_on_next().map_err(|x| format!("0.4.7, move_on_next {i}: {x}"))?;
        ensure!(got == entry(e, Some(i)), "0.4.7 forward scan, {i}: got {}, want {}", hkv(got), hkv(entry(e, Some(i))));
    }
    let mut c = r.clone().into_cursor().map_err(|x| x.to_string())?;
    for i in (0..e.len()).rev().map(Some).chain([None]) {
        let got = c.move_on_prev().map_err(|x| format!("0.4.7, move_on_prev {i:?}: {x}"))?;
        ensure!(got == entry(e, i), "0.4.7 backward scan, {i:?}: got {}, want {}", hkv(got), hkv(entry(e, i)));
    }
    for q in probes {
        let mut c = r.clone().into_cursor().map_err(|x| x.to_string())?;
        let got = c.move_on_key_greater_than_or_equal_to(q).map_err(|x| format!("0.4.7, seek: {x}"))?;
        let want = entry(e, ceil_idx(e, q));
        ensure!(got == want, "0.4.7 greater_than_or_equal_to({}): got {}, want {}", hx(q), hkv(got), hkv(want));
    }
    Ok(())
}

fn old_file(cfg: &Cfg, e: &Entries) -> Result<Vec<u8>, String> {
    let mut b = old::Writer::builder();
    b.compression_type(old_codec(cfg.codec));
    if let Some(l) = cfg.level {
        b.compression_level(if cfg.codec == CompressionType::Zlib { l.min(9) } else { l });
    }
    if let Some(x) = cfg.block {
        b.block_size(x);
    }
    if let Some(x) = cfg.interval {
        b.index_key_interval(NonZeroUsize::new(x).unwrap());
    }
    if let Some(x) = cfg.levels {
        b.index_levels(x.min(254));
    }
    let mut w = b.memory();
    for (k, v) in e {
        w.insert(k, v).map_err(|x| format!("harness: 0.4.7 writer: {x}"))?;
    }
    w.into_inner().map_err(|x| format!("harness: 0.4.7 writer: {x}"))
}

fn both(src: &mut Src, ctx: &mut Ctx, cfg: Cfg, e: Entries) -> CaseResult {
    let probes: Vec<Vec<u8>> = (0..src.range(0, 6)).map(|_| probe(src, &e)).collect();
    let dir = src.below(4);
    if dir != 1 {
        ctx.label("current writer");
        let bytes = if dir == 2 {
            // through `finish` on a borrowed sink
            let mut out = Vec::new();
            let mut w = cfg.builder().build(&mut out);
            for (k, v) in &e {
                w.insert(k, v).map_err(|x| x.to_string())?;
            }
            w.finish().map_err(|x| x.to_string())?;
            out
        } else {
            file(&cfg, &e)?
        };
        conform(&cfg, &e, &bytes)?;
        old_reads(&cfg, &e, &bytes, &probes)?;
        c01::classify(ctx, &cfg, &e, &bytes);
    }
    if dir == 1 || dir == 3 {
        ctx.label("0.4.7 writer");
        let bytes = old_file(&cfg, &e)?;
        let r = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| format!("a 0.4.7 file does not open: {x}"))?;
        ensure!(r.file_version() == FileVersion::FormatV2, "version {:?}", r.file_version());
        let mut c = r.clone().into_cursor().map_err(|x| x.to_string())?;
        c01::check_scan(r, &e, &cfg).map_err(|x| format!("file written by 0.4.7: {x}"))?;
        for q in &probes {
            c02::check_probe(&mut c, &e, q, "0.4.7 file, reset")?;
        }
        c01::classify(ctx, &cfg, &e, &bytes);
    }
    Ok(())
}

/// Offsets above 2^32.
fn over_4gib(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(3);
    let n = 70u32;
    let zero = vec![0u8; 64 << 20];
    let cfg = Cfg { levels: Some(i as u8), block: Some(1024), ..Cfg::plain() };
    let mut w = cfg.builder().build(crate::sim::Sparse::default());
    for k in 0..n {
        w.insert(k.to_be_bytes(), &zero).map_err(|e| e.to_string())?;
    }
    let f = w.into_inner().map_err(|e| e.to_string())?;
    let len = ReadAt::len(&f);
    ensure!(len > 1 << 32, "the scenario must exceed 4 GiB");
    let t = decode::trailer(&f.read_at(len - 22, 22)?).ok_or("no valid trailer")?;
    ensure!(t.count == n as u64 && t.levels == i as u8, "trailer {t:?}");
    let mut offs = vec![t.root];
    let mut keys: Vec<Vec<u8>> = vec![];
    for _ in 0..=i {
        let mut next = Vec::new();
        keys.clear();
        for o in offs {
            let b = decode::read_block(&f, o, CompressionType::None, len - 22)?;
            for (k, v) in &b.entries {
                next.push(u64::from_be_bytes(v.as_slice().try_into().map_err(|_| "index value that is not 8 bytes")?));
                keys.push(k.clone());
            }
        }
        offs = next;
    }
    ensure!(offs.len() == n as usize, "{} data blocks for {n} entries larger than a block", offs.len());
    let mut pos = 0;
    for (k, (o, key)) in offs.iter().zip(&keys).enumerate() {
        ensure!(*o == pos, "data block {k} recorded at {o}, stored at {pos}");
        let head = f.read_at(*o, 8 + 9)?;
        let stored = u64::from_be_bytes(head[..8].try_into().unwrap());
        ensure!(head[8] == 4 && head[13..17] == (k as u32).to_be_bytes(), "data block {k}: {head:02x?}");
        ensure!(key[..] == (k as u32).to_be_bytes(), "index key of block {k}");
        pos = o + 8 + stored;
    }
    // 0.4.7 around the boundary
    let mut c = old_open(f.reader())?.into_cursor().map_err(|x| x.to_string())?;
    for k in [0u32, 62, 63, 64, 69] {
        let got = c.move_on_key_greater_than_or_equal_to(k.to_be_bytes()).map_err(|x| x.to_string())?;
        let ok = matches!(got, Some((kk, v)) if kk == k.to_be_bytes() && v == zero.as_slice());
        ensure!(ok, "0.4.7 on the >4 GiB file, key {k}: got {}", hkv(got));
    }
    ctx.nontrivial();
    ctx.label("file larger than 4 GiB");
    ctx.sample(|| format!("{} | {n} values of 64 MiB | {len} bytes", cfg.desc()));
    Ok(())
}
