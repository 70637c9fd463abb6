//! C01: write/read round trip.

use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use grenad::{CompressionType, Reader};
use std::io::{Cursor, Read, Seek};

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "a case is a writer configuration and a strictly ascending entry list; non-trivial when the file has at \
               least two data blocks, or an entry larger than a block, or an empty key/value, or is the empty file, \
               or its configuration axis (level, depth) is the enumerated one; distinct by choice sequence",
        assumptions: &["codec crates (snap, flate2, lz4_flex, zstd) are deterministic", "in-memory sink/source"],
        phases: vec![
            Phase::random("mix", 60_000, 2_000_000, mix),
            Phase::random("deep", 20_000, 500_000, deep),
            Phase::random("constructors", 6_000, 150_000, constructors),
            Phase::enumerate("levels", 256 * 4, 256 * 24, levels),
            Phase::enumerate("codec-levels", CL, CL * 6, codec_levels),
            Phase::enumerate("block-edges", BE, BE * 8, block_edges),
            Phase::enumerate("jumbo", 6, 12, jumbo).threads(6),
            Phase::enumerate("over-4gib", 1, 3, over_4gib).threads(1),
            Phase::enumerate("block-over-4gib", 1, 3, block_over_4gib).threads(1),
            #[cfg(not(feature = "full"))]
            Phase::random("disabled", 10_000, 200_000, disabled),
        ],
    }
}

pub fn check_scan<R: Read + Seek>(reader: Reader<R>, e: &Entries, cfg: &Cfg) -> Result<(), String> {
    ensure!(reader.len() == e.len() as u64, "Reader::len is {}, {} entries were inserted", reader.len(), e.len());
    ensure!(reader.is_empty() == e.is_empty(), "Reader::is_empty is {}, {} entries were inserted", reader.is_empty(), e.len());
    ensure!(
        reader.compression_type() == cfg.codec,
        "Reader::compression_type is {:?}, configured {:?}",
        reader.compression_type(),
        cfg.codec
    );
    let mut c = reader.into_cursor().map_err(|x| format!("into_cursor: {x}"))?;
    for i in 0..=e.len() {
        let got = c.move_on_next().map_err(|x| format!("move_on_next {i}: {x}"))?;
        let want = entry(e, Some(i));
        ensure!(got == want, "forward scan, position {i}: got {}, want {}", hkv(got), hkv(want));
    }
    c.reset();
    for i in (0..e.len()).rev().map(Some).chain([None]) {
        let got = c.move_on_prev().map_err(|x| format!("move_on_prev {i:?}: {x}"))?;
        let want = entry(e, i);
        ensure!(got == want, "backward scan, position {i:?}: got {}, want {}", hkv(got), hkv(want));
    }
    Ok(())
}

pub fn round_trip(cfg: &Cfg, e: &Entries) -> Result<Vec<u8>, String> {
    let bytes = file(cfg, e)?;
    let reader = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| format!("a finished file does not open: {x}"))?;
    check_scan(reader, e, cfg)?;
    // the backward scan of a cursor that never did anything else
    if let Some((k, v)) = e.last() {
        let mut c = Reader::new(Cursor::new(bytes.as_slice())).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())?;
        let got = c.move_on_prev().map_err(|x| x.to_string())?;
        ensure!(got == Some((k.as_slice(), v.as_slice())), "first move_on_prev of a new cursor: got {}", hkv(got));
    }
    Ok(bytes)
}

pub fn classify(ctx: &mut Ctx, cfg: &Cfg, e: &Entries, bytes: &[u8]) {
    let total: usize = e.iter().map(|(k, v)| k.len() + v.len() + 2).sum();
    let b = cfg.block_eff();
    if e.is_empty() {
        ctx.label("empty file");
        ctx.nontrivial();
    }
    if total > b.saturating_mul(2) {
        ctx.label("several blocks");
        ctx.nontrivial();
    }
    if e.iter().any(|(k, v)| k.len() + v.len() > b) {
        ctx.label("entry larger than a block");
        ctx.nontrivial();
    }
    if e.first().is_some_and(|(k, _)| k.is_empty()) {
        ctx.label("empty key");
        ctx.nontrivial();
    }
    if e.iter().any(|(_, v)| v.is_empty()) {
        ctx.label("empty value");
        ctx.nontrivial();
    }
    if cfg.levels_eff() >= 2 {
        ctx.label("levels >= 2");
    }
    ctx.label(match cfg.codec {
        CompressionType::None => "codec None",
        CompressionType::Snappy => "codec Snappy",
        CompressionType::SnappyPre05 => "codec SnappyPre05",
        CompressionType::Zlib => "codec Zlib",
        CompressionType::Lz4 => "codec Lz4",
        CompressionType::Zstd => "codec Zstd",
    });
    ctx.sample(|| format!("{} | {} | file of {} bytes", cfg.desc(), describe(e), bytes.len()));
}

pub fn mix_gen(src: &mut Src) -> (Cfg, Entries) {
    let cfg = src.span(|s| cfg(s, CFG_ANY));
    let max_n = if matches!(cfg.levels, Some(l) if l > 5) { 60 } else { 1500 };
    let e = entries(src, EntOpts::new(max_n, 120_000), cfg.block_eff());
    (cfg, e)
}

fn mix(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = mix_gen(src);
    let bytes = round_trip(&cfg, &e)?;
    classify(ctx, &cfg, &e, &bytes);
    Ok(())
}

/// Every public way to get a writer, with the default configuration and with a chosen one; keys and values of
/// several types; the sink looked at while the file is written.
fn constructors(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = if src.chance(1, 2) { Cfg::plain() } else { src.span(|s| cfg(s, CFG_ANY)) };
    let e = entries(src, EntOpts::new(400, 60_000), cfg.block_eff());
    let fin = |w: std::io::Result<Vec<u8>>| w.map_err(|x| format!("into_inner failed without any fault: {x}"));
    let fill = |mut w: grenad::Writer<Vec<u8>>| -> Result<Vec<u8>, String> {
        let mut seen = 0;
        for (i, (k, v)) in e.iter().enumerate() {
            match i % 4 {
                0 => w.insert(k, v),
                1 => w.insert(k.clone(), v.as_slice()),
                2 => w.insert(k.as_slice(), std::borrow::Cow::Borrowed(v.as_slice())),
                _ => w.insert(k.clone().into_boxed_slice(), std::rc::Rc::<[u8]>::from(v.as_slice())),
            }
            .map_err(|x| format!("insert failed without any fault: {x}"))?;
            ensure!(w.as_ref().len() >= seen, "the sink shrank");
            seen = w.as_ref().len();
        }
        fin(w.into_inner())
    };
    let b = cfg.builder();
    let want = fill(b.build(Vec::new()))?;
    let mut all = vec![("WriterBuilder::memory", fill(b.memory())?), ("WriterBuilder::build again", fill(b.build(Vec::new()))?)];
    let mut sunk = Vec::new();
    let mut w = b.build(&mut sunk);
    for (k, v) in &e {
        w.insert(k, v).map_err(|x| x.to_string())?;
    }
    w.finish().map_err(|x| format!("finish failed without any fault: {x}"))?;
    all.push(("finish", sunk));
    if cfg == Cfg::plain() {
        all.push(("Writer::new", fill(grenad::Writer::new(Vec::new()))?));
        all.push(("Writer::memory", fill(grenad::Writer::memory())?));
        all.push(("Writer::builder", fill(grenad::Writer::builder().build(Vec::new()))?));
        all.push(("WriterBuilder::default", fill(grenad::WriterBuilder::default().memory())?));
    }
    all.push(("WriterBuilder::build", want));
    for (how, bytes) in &all {
        let reader = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| format!("{how}: a finished file does not open: {x}"))?;
        check_scan(reader, &e, &cfg).map_err(|x| format!("{how}: {x}"))?;
    }
    classify(ctx, &cfg, &e, &all[0].1);
    Ok(())
}

pub fn deep_gen(src: &mut Src) -> (Cfg, Entries) {
    let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
    if src.chance(1, 4) {
        cfg.levels = Some(src.range(2, 9) as u8);
    }
    let e = entries(src, EntOpts::new(600, 250_000), 1024);
    (cfg, e)
}

fn deep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = deep_gen(src);
    let bytes = round_trip(&cfg, &e)?;
    classify(ctx, &cfg, &e, &bytes);
    Ok(())
}

/// Every index depth 0..=255.
pub fn levels_gen(src: &mut Src) -> (Cfg, Entries) {
    let i = src.below(256 * 24);
    let lv = (i % 256) as u8;
    let round = i / 256;
    let mut c = Cfg { levels: Some(lv), ..Cfg::plain() };
    c.block = Some(1024);
    let e: Entries = match round {
        0 => vec![],
        1 => (0..(1 + src.range(0, 30))).map(|i| (vec![i as u8], vec![i as u8; 3])).collect(),
        _ => {
            c.codec = codec(src);
            c.interval = [None, Some(1), Some(3)][src.index(3)];
            entries(src, EntOpts::new(120, 40_000), 1024)
        }
    };
    (c, e)
}

fn levels(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = levels_gen(src);
    let bytes = round_trip(&cfg, &e)?;
    ctx.nontrivial();
    classify(ctx, &cfg, &e, &bytes);
    Ok(())
}

const LEVELS: [u32; 36] = [
    0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 50, 100, 127, 128, 255, 256, 1000,
    65_536, i32::MAX as u32, 1 << 31, u32::MAX - 1, u32::MAX,
];
pub const CL: u64 = 36 * 6;

/// Every codec at every level of interest.
pub fn codec_levels_gen(src: &mut Src) -> (Cfg, Entries) {
    let i = src.below(CL * 6);
    let level = LEVELS[(i % 36) as usize];
    let codec = CODECS[(i / 36) as usize % CODECS.len()];
    let e = if i / CL == 0 {
        (0..src.range(1, 60)).map(|i| (format!("key-{i:05}").into_bytes(), vec![(i * 7) as u8; (i % 50) as usize])).collect()
    } else {
        entries(src, EntOpts::new(60, 5_000), 1024)
    };
    let cfg = Cfg { codec, level: Some(level), levels: Some(1), ..Cfg::plain() };
    (cfg, e)
}

fn codec_levels(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = codec_levels_gen(src);
    let bytes = round_trip(&cfg, &e)?;
    ctx.nontrivial();
    classify(ctx, &cfg, &e, &bytes);
    Ok(())
}

/// Raw block sizes around the internal block sizes of the codecs.
const EDGES: [usize; 12] = [65_536, 65_535, 65_537, 131_072, 131_073, 32_768, 262_144, 1 << 20, (1 << 20) + 1, 4 << 20, (4 << 20) + 1, 16_384];
pub const BE: u64 = 12 * 6 * 3;

pub fn block_edges_gen(src: &mut Src) -> (Cfg, Entries) {
    let i = src.below(BE * 8) % BE;
    let edge = EDGES[(i % 12) as usize];
    let codec = CODECS[(i / 12) as usize % CODECS.len()];
    let kind = i / 72;
    // a single entry: payload = key 3 + value + lengths, footer 12
    let vl = edge + 2 - src.index(5) - 12 - 3 - 1 - if edge > 2_097_152 { 4 } else { 3 };
    let mut rng = Rng::new(src.seed());
    let v: Vec<u8> = match kind {
        0 => vec![7; vl],
        1 => (0..vl).map(|_| rng.next() as u8).collect(),
        _ => (0..vl).map(|i| if (i / 1000) % 2 == 0 { rng.next() as u8 } else { 0 }).collect(),
    };
    let e = vec![(b"aaa".to_vec(), vec![1, 2, 3]), (b"bbb".to_vec(), v), (b"ccc".to_vec(), vec![])];
    let cfg = Cfg { codec, block: Some(src.pick(&[1024, 1 << 16, 1 << 23])), levels: Some(src.index(3) as u8), ..Cfg::plain() };
    (cfg, e)
}

fn block_edges(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = block_edges_gen(src);
    let bytes = round_trip(&cfg, &e)?;
    ctx.nontrivial();
    classify(ctx, &cfg, &e, &bytes);
    Ok(())
}

/// Counts that do not fit in 16 bits.
pub fn jumbo_gen(src: &mut Src) -> (Cfg, Entries) {
    let i = src.below(12);
    let codec = if i < 6 { CompressionType::None } else { CODECS[1 + (i as usize) % (CODECS.len() - 1)] };
    let (cfg, n, vlen) = match i % 6 {
        // more than 65536 offsets in a single block
        0 => (Cfg { block: Some(usize::MAX), interval: Some(1), codec, ..Cfg::plain() }, 70_000, 4),
        // one huge block, sparse offsets
        1 => (Cfg { block: Some(1 << 24), interval: Some(1000), codec, ..Cfg::plain() }, 400_000, 40),
        // more than 65536 data blocks directly under the root
        2 => (Cfg { block: Some(1024), codec, ..Cfg::plain() }, 66_000, 1100),
        3 => (Cfg { block: Some(1024), levels: Some(2), codec, ..Cfg::plain() }, 66_000, 1100),
        4 => (Cfg { block: Some(2048), levels: Some(4), interval: Some(65_536), codec, ..Cfg::plain() }, 300_000, 12),
        _ => (Cfg { levels: Some(3), interval: Some(3), codec, ..Cfg::plain() }, 500_000, 8),
    };
    let e: Entries = (0..n as u32).map(|i| (i.to_be_bytes().to_vec(), vec![(i % 251) as u8; vlen])).collect();
    (cfg, e)
}

fn jumbo(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = jumbo_gen(src);
    let bytes = round_trip(&cfg, &e)?;
    ctx.nontrivial();
    classify(ctx, &cfg, &e, &bytes);
    Ok(())
}

/// A file larger than 4 GiB, kept sparse in memory.
fn over_4gib(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(3);
    let vlen: usize = 64 << 20;
    let n = 70u32;
    let cfg = Cfg { levels: Some(i as u8), block: Some(1024), ..Cfg::plain() };
    let zero = vec![0u8; vlen];
    let mut w = cfg.builder().build(crate::sim::Sparse::default());
    for k in 0..n {
        w.insert(k.to_be_bytes(), &zero).map_err(|e| e.to_string())?;
        w.insert([&k.to_be_bytes()[..], b"x"].concat(), k.to_le_bytes()).map_err(|e| e.to_string())?;
    }
    let f = w.into_inner().map_err(|e| e.to_string())?;
    ensure!(f.len() > 1 << 32, "the scenario must exceed 4 GiB");
    let mut c = Reader::new(f.reader()).and_then(|r| r.into_cursor()).map_err(|e| format!("open: {e}"))?;
    ensure!(c.len() == 2 * n as u64, "len {}", c.len());
    // the forward scan over 4 GiB costs seconds: in the quick tier it starts shortly before the boundary
    let from = if ctx.thorough { 0 } else { 62 };
    if from > 0 {
        let got = c.move_on_key_equal_to([&(from - 1u32).to_be_bytes()[..], b"x"].concat()).map_err(|e| e.to_string())?;
        ensure!(matches!(got, Some((_, v)) if v == (from - 1).to_le_bytes()), "seek: got {}", hkv(got));
    }
    for k in from..n {
        let got = c.move_on_next().map_err(|e| e.to_string())?;
        let ok = matches!(got, Some((kk, v)) if kk == k.to_be_bytes() && v == zero.as_slice());
        ensure!(ok, "entry {k} of the >4 GiB file: got {}", hkv(got));
        let got = c.move_on_next().map_err(|e| e.to_string())?;
        let ok = matches!(got, Some((kk, v)) if kk[..4] == k.to_be_bytes() && kk.len() == 5 && v == k.to_le_bytes());
        ensure!(ok, "small entry {k} of the >4 GiB file: got {}", hkv(got));
    }
    ensure!(c.move_on_next().map_err(|e| e.to_string())?.is_none(), "extra entry");
    c.reset();
    for k in (from..n).rev() {
        let got = c.move_on_prev().map_err(|e| e.to_string())?;
        ensure!(matches!(got, Some((kk, _)) if kk[..4] == k.to_be_bytes() && kk.len() == 5), "backward {k}: {}", hkv(got));
        let got = c.move_on_prev().map_err(|e| e.to_string())?;
        ensure!(matches!(got, Some((kk, _)) if kk == k.to_be_bytes()), "backward {k}: {}", hkv(got));
    }
    ctx.nontrivial();
    ctx.label("file larger than 4 GiB");
    ctx.sample(|| format!("{} | {n} values of 64 MiB interleaved with small ones | {} bytes", cfg.desc(), f.len()));
    Ok(())
}

/// One block of more than 4 GiB: offsets inside of a block that do not fit in 32 bits.
fn block_over_4gib(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(3) as usize;
    let interval = [1, 2, 8][i];
    let vlen: usize = (11 << 27) + 11;
    let cfg = Cfg { interval: Some(interval), block: Some(usize::MAX), ..Cfg::plain() };
    let mut zero = vec![0u8; vlen];
    zero[vlen - 1] = 7;
    let n = 20u8;
    // the big values come first: what follows lies beyond 4 GiB
    let val = |k: u8| if k < 3 { zero.clone() } else { vec![k; k as usize] };
    let sink = crate::sim::Sparse::default();
    let mut w = cfg.builder().build(sink.clone());
    for k in 0..n {
        if k < 3 {
            w.insert([k], &zero).map_err(|e| e.to_string())?;
        } else {
            w.insert([k], val(k)).map_err(|e| e.to_string())?;
        }
    }
    w.finish().map_err(|e| e.to_string())?;
    ensure!(sink.len() > 1 << 32, "the scenario must exceed 4 GiB");
    let mut c = Reader::new(sink.reader()).and_then(|r| r.into_cursor()).map_err(|e| format!("open: {e}"))?;
    ensure!(c.len() == n as u64, "len {}", c.len());
    let check = |got: Option<(&[u8], &[u8])>, k: u8, how: &str| -> CaseResult {
        let ok = matches!(got, Some((kk, v)) if kk == [k] && if k < 3 { v == zero.as_slice() } else { v == val(k).as_slice() });
        ensure!(ok, "{how} entry {k} of the block of more than 4 GiB: got {}", hkv(got));
        Ok(())
    };
    for k in 0..n {
        check(c.move_on_next().map_err(|e| e.to_string())?, k, "forward")?;
    }
    ensure!(c.move_on_next().map_err(|e| e.to_string())?.is_none(), "extra entry");
    for k in (0..n - 1).rev() {
        check(c.move_on_prev().map_err(|e| e.to_string())?, k, "backward")?;
    }
    ensure!(c.move_on_prev().map_err(|e| e.to_string())?.is_none(), "extra entry at the start");
    ctx.nontrivial();
    ctx.label("block larger than 4 GiB");
    ctx.sample(|| format!("{} | 3 values of {vlen} bytes then {} small ones in one block | {} bytes", cfg.desc(), n - 3, sink.len()));
    Ok(())
}

/// Bare engine: a codec the library was compiled without. Nothing promises that it works, but what is not an error
/// must be right: a finished file is well-formed and holds the entries, and what a file yields is what it holds.
#[cfg(not(feature = "full"))]
pub fn disabled(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use crate::{decode, encode};
    let all = [CompressionType::Snappy, CompressionType::SnappyPre05, CompressionType::Lz4, CompressionType::Zlib, CompressionType::Zstd];
    let codec = src.pick(&all);
    if CODECS.contains(&codec) {
        return Ok(());
    }
    let c = Cfg { codec, ..src.span(|s| cfg(s, CFG_DEEP)) };
    let e = entries(src, EntOpts::new(60, 8_000), 1024);
    ctx.nontrivial();
    let written = file(&c, &e);
    ctx.label(if written.is_ok() { "written" } else { "refused by the writer" });
    ctx.sample(|| format!("{} {}", c.desc(), describe(&e)));
    if let Ok(bytes) = &written {
        let d = decode::decode(bytes.as_slice(), decode::Strict::default()).map_err(|x| format!("finished without an error: {x}"))?;
        ensure!(d.trailer.codec == codec, "finished without an error with the codec {:?}", d.trailer.codec);
        if let Some(x) = diff(&d.entries, &e) {
            return Err(format!("finished without an error: {x}"));
        }
    }
    let cut = src.range(1, 40) as usize;
    let blocks = encode::cut_blocks(&e, c.interval_eff(), |i, _| i % cut == cut - 1);
    let (mut bytes, root) = encode::single_level(&blocks, codec, c.interval_eff());
    bytes.extend_from_slice(&encode::trailer_v2(root, encode::codec_id(codec), e.len() as u64, 0));
    let r = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| format!("a valid trailer is rejected: {x}"))?;
    ensure!(r.len() == e.len() as u64 && r.compression_type() == codec, "opened as {:?} with {} entries", r.compression_type(), r.len());
    let Ok(mut cur) = r.into_cursor() else {
        ctx.label("refused by into_cursor");
        return Ok(());
    };
    let q = probe(src, &e);
    let op = src.index(5);
    let (got, want) = match op {
        0 => (cur.move_on_first(), entry(&e, Some(0))),
        1 => (cur.move_on_last(), e.len().checked_sub(1).and_then(|i| entry(&e, Some(i)))),
        2 => (cur.move_on_key_greater_than_or_equal_to(&q), ceil_idx(&e, &q).and_then(|i| entry(&e, Some(i)))),
        3 => (cur.move_on_key_lower_than_or_equal_to(&q), floor_idx(&e, &q).and_then(|i| entry(&e, Some(i)))),
        _ => (cur.move_on_key_equal_to(&q), eq_idx(&e, &q).and_then(|i| entry(&e, Some(i)))),
    };
    match got {
        Ok(got) => ensure!(got == want, "operation {op}, a codec that is not compiled in: got {}, want {}", hkv(got), hkv(want)),
        Err(_) => ctx.label("refused by the cursor"),
    }
    Ok(())
}
