//! C14: lengths are framed losslessly.

use crate::encode;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::sim::*;
use crate::sorterkit;
use crate::util::*;
use grenad::{CompressionType, Reader, ReaderCursor};
use std::io::{Cursor, Read, Seek, SeekFrom, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a case of the exhaustive phase is a range of 2^24 lengths, each encoded and decoded; a case of the other \
               phases is a file or sorter run whose entries have lengths at the framing boundaries; non-trivial when a \
               length needs two or more bytes; distinct by choice sequence",
        assumptions: &["lengths above 2^32-1 are outside the property", "2^32-1 byte keys (which the index duplicates) are not built; values of that length are "],
        phases: vec![
            Phase::enumerate("exhaustive", 256, 256, exhaustive).hook(),
            Phase::enumerate("pairs", 13 * 13 * 6, 13 * 13 * 6, pairs),
            Phase::random("mix", 1_500, 30_000, mix),
            Phase::random("sorter", 400, 10_000, sorter),
            Phase::enumerate("large", 4, 12, large).threads(3),
            Phase::enumerate("limit", 2, 3, limit).threads(1),
            Phase::enumerate("sorter-large", 3, 5, sorter_large).threads(2),
            Phase::enumerate("sorter-limit", 1, 1, sorter_limit).threads(1),
        ],
    }
}

#[cfg(not(feature = "hook"))]
fn exhaustive(_: &mut Src, _: &mut Ctx) -> CaseResult {
    Ok(())
}

#[cfg(feature = "hook")]
fn exhaustive(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use grenad::verif::{varint_decode32, varint_encode32};
    let c = src.below(256) as u32;
    let (lo, hi) = (c << 24, (c << 24) | 0xff_ffff);
    ctx.sample(|| format!("every length in {lo}..={hi}"));
    let mut buf = [0u8; 10];
    let mut dec = [0u8; 16];
    // what follows the framing in a block: bytes that look like a continuation, or like an end
    let follow = [0x00u8, 0xff, 0x80, 0x7f][(c % 4) as usize];
    for v in lo..=hi {
        let mut want = [0u8; 5];
        let mut n = 0;
        let mut x = v;
        while x >= 0x80 {
            want[n] = (x & 0x7f) as u8 | 0x80;
            x >>= 7;
            n += 1;
        }
        want[n] = x as u8;
        n += 1;
        let got = varint_encode32(&mut buf, v);
        if got.len() != n || got[..n] != want[..n] {
            return Err(format!("length {v} is encoded as {got:02x?}, its LEB128 form is {:02x?}", &want[..n]));
        }
        let got = &*got;
        dec[..got.len()].copy_from_slice(got);
        dec[got.len()..].fill(follow);
        let (mut a, mut b) = (!v, !v);
        let used = varint_decode32(&dec, &mut a);
        if a != v || used != n {
            return Err(format!("length {v} followed by {follow:#x}: decoded as {a} consuming {used} of {n} bytes"));
        }
        let used = varint_decode32(got, &mut b);
        if b != v || used != n {
            return Err(format!("length {v}: decoded as {b} consuming {used} of {n} bytes"));
        }
    }
    ctx.nontrivial();
    ctx.count("lengths", 1 << 24);
    Ok(())
}

/// Position-dependent content, so that a shifted slice never compares equal.
fn content(seed: u64, n: usize) -> Vec<u8> {
    let mut r = Rng::new(seed);
    let mut v = Vec::with_capacity(n + 8);
    while v.len() < n {
        v.extend_from_slice(&r.next().to_le_bytes());
    }
    v.truncate(n);
    v
}

fn same(got: Option<(&[u8], &[u8])>, e: &Entries, i: Option<usize>, how: &str) -> CaseResult {
    let want = entry(e, i);
    if got == want {
        return Ok(());
    }
    let lens = |x: Option<(&[u8], &[u8])>| x.map(|(k, v)| (k.len(), v.len()));
    Err(format!("{how}: got {:?} {}, want {:?} {}", lens(got), hkv(got), lens(want), hkv(want)))
}

fn verify<R: Read + Seek>(mut c: ReaderCursor<R>, e: &Entries) -> CaseResult {
    let x = |r: grenad::Error| r.to_string();
    for i in 0..e.len() {
        same(c.move_on_next().map_err(x)?, e, Some(i), &format!("entry {i} going forward"))?;
        same(c.current(), e, Some(i), &format!("current at entry {i}"))?;
    }
    same(c.move_on_next().map_err(x)?, e, None, "after the last entry")?;
    c.reset();
    for i in (0..e.len()).rev() {
        same(c.move_on_prev().map_err(x)?, e, Some(i), &format!("entry {i} going backward"))?;
    }
    for i in 0..e.len() {
        same(c.move_on_key_equal_to(&e[i].0).map_err(x)?, e, Some(i), &format!("entry {i} sought"))?;
        same(c.move_on_key_greater_than_or_equal_to(&e[i].0).map_err(x)?, e, Some(i), &format!("entry {i} sought (ge)"))?;
    }
    Ok(())
}

fn round(cfg: &Cfg, e: &Entries) -> CaseResult {
    let bytes = file(cfg, e)?;
    let r = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| x.to_string())?;
    ensure!(r.len() == e.len() as u64, "len is {}, want {}", r.len(), e.len());
    verify(r.into_cursor().map_err(|x| x.to_string())?, e)
}

const L: [usize; 13] = [0, 1, 127, 128, 129, 16_383, 16_384, 16_385, 2_097_151, 2_097_152, 2_097_153, 255, 65_536];

fn lens(ctx: &mut Ctx, e: &Entries) {
    for (k, v) in e {
        for n in [k.len(), v.len()] {
            if n >= 128 {
                ctx.nontrivial();
            }
            ctx.label(match encode_len(n) {
                1 => "1-byte length",
                2 => "2-byte length",
                3 => "3-byte length",
                4 => "4-byte length",
                _ => "5-byte length",
            });
        }
    }
}

fn encode_len(n: usize) -> usize {
    let mut v = Vec::new();
    encode::leb128(n as u64, &mut v);
    v.len()
}

fn sorted(mut e: Entries) -> Entries {
    e.sort_by(|a, b| a.0.cmp(&b.0));
    e.dedup_by(|a, b| a.0 == b.0);
    e
}

/// Every pair of boundary lengths, between two ordinary neighbours, with every codec.
fn pairs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(13 * 13 * 6) as usize;
    let (kl, vl, codec) = (L[i % 13], L[i / 13 % 13], CODECS[i / 169 % CODECS.len()]);
    let block = src.pick(&[1024usize, 8192, 1 << 20, usize::MAX]);
    let cfg = Cfg {
        foreign: None,
        codec,
        level: Some(1),
        block: Some(block),
        levels: Some(src.index(3) as u8),
        interval: Some(src.pick(&[1usize, 2, 8])),
        order: 0,
    };
    let seed = src.seed();
    let mut k = content(seed, kl);
    if let Some(b) = k.first_mut() {
        *b = 0x80;
    }
    let mut e: Entries = vec![(k, content(seed ^ 1, vl))];
    for j in 0..src.index(4) {
        e.push((vec![0x40, j as u8], content(seed ^ 2, src.index(300))));
        e.push((vec![0xc0, j as u8], content(seed ^ 3, src.index(300))));
    }
    let e = sorted(e);
    ctx.sample(|| format!("key of {kl} bytes, value of {vl} bytes, {}", cfg.desc()));
    lens(ctx, &e);
    round(&cfg, &e)
}

fn boundary(src: &mut Src, big: bool) -> usize {
    let base = match src.weighted(&[2, 6, 6, if big { 1 } else { 0 }, 2]) {
        0 => 0,
        1 => 1 << 7,
        2 => 1 << 14,
        3 => 1 << 21,
        _ => 1 << src.range(0, 13),
    };
    (base + src.index(7)).saturating_sub(3)
}

fn mix_entries(src: &mut Src) -> Entries {
    let n = src.range(1, 12) as usize;
    let same_prefix = src.chance(1, 2);
    let seed = src.seed();
    let e = (0..n)
        .map(|i| {
            let (kl, vl) = (boundary(src, i == 0), boundary(src, i == 1));
            let mut k = content(if same_prefix { seed } else { seed ^ i as u64 }, kl);
            if let (Some(b), true) = (k.last_mut(), src.chance(1, 2)) {
                *b = i as u8;
            }
            (k, content(seed ^ 77 ^ i as u64, vl))
        })
        .collect();
    sorted(e)
}

fn mix(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = src.span(|s| cfg(s, CFG_DEEP));
    let e = mix_entries(src);
    ctx.sample(|| format!("{} {}", cfg.desc(), describe(&e)));
    lens(ctx, &e);
    round(&cfg, &e)
}

fn sorter(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut s = src.span(sorterkit::small_scfg);
    if !cfg!(feature = "hook") {
        s.init = None;
    }
    let e = mix_entries(src);
    let mut ins = e.clone();
    for i in (1..ins.len()).rev() {
        ins.swap(i, src.index(i + 1));
    }
    let out = src.span(|s| cfg(s, CFG_DEEP));
    let route = src.index(sorterkit::ROUTES);
    ctx.sample(|| format!("sorter {} route {route} {}", s.desc(), describe(&ins)));
    lens(ctx, &e);
    let got = sorterkit::run(&s, MergeKind::First, &ins, &out, route)?;
    match diff(&got, &e) {
        Some(d) => Err(d),
        None => Ok(()),
    }
}

/// Lengths around 2^28, as a value, as a key, as both.
fn large(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(12);
    let b = 1usize << 28;
    let (kl, vl, codec, levels) = match i {
        0 => (3, b, CompressionType::None, 0),
        1 => (3, b - 1, CompressionType::None, 1),
        2 => (b, 7, CompressionType::None, 1),
        3 => (b - 1, 7, CompressionType::None, 0),
        4 => (b + 1, b + 1, CompressionType::None, 2),
        5 => (5, b + 1, CompressionType::Snappy, 0),
        6 => (b - 1, b - 1, CompressionType::None, 0),
        7 => (5, b, CompressionType::Lz4, 0),
        8 => (5, b, CompressionType::Zstd, 0),
        9 => (5, b, CompressionType::Zlib, 0),
        10 => (5, b - 1, CompressionType::SnappyPre05, 0),
        _ => (b + 2, 0, CompressionType::Snappy, 1),
    };
    #[cfg(not(feature = "full"))]
    let codec = if CODECS.contains(&codec) { codec } else { CompressionType::None };
    huge(ctx, kl, vl, Cfg { codec, level: Some(1), levels: Some(levels), ..Cfg::plain() })
}

/// The largest lengths: 2^32-1 byte value, a value past 2^31, a key past 2^31.
fn limit(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (kl, vl) = match src.below(3) {
        0 => (3, u32::MAX as usize),
        1 => (3, (1usize << 31) + 1),
        _ => ((1usize << 31) + 1, 3),
    };
    huge(ctx, kl, vl, Cfg::plain())
}

/// Mostly zeros with marks at both ends and in the middle, so that a sparse sink can hold it.
fn marked(n: usize, first: u8) -> Vec<u8> {
    let mut v = vec![0u8; n];
    if n > 64 {
        v[0] = first;
        for i in 1..16 {
            v[i] = i as u8;
            v[n - i] = 0x90 + i as u8;
            v[n / 2 + i] = i as u8 ^ 0x5a;
        }
    } else {
        v.fill(first);
    }
    v
}

fn huge(ctx: &mut Ctx, kl: usize, vl: usize, cfg: Cfg) -> CaseResult {
    ctx.sample(|| format!("key of {kl} bytes, value of {vl} bytes, {}", cfg.desc()));
    let e: Entries = vec![
        (b"\x01before".to_vec(), b"one".to_vec()),
        (marked(kl, 0x80), marked(vl, 0x42)),
        (b"\xf0after".to_vec(), vec![9; 200]),
    ];
    lens(ctx, &e);
    let sink = Sparse::default();
    write_to(&cfg, &e, sink.clone())?;
    let r = Reader::new(sink.reader()).map_err(|x| x.to_string())?;
    ensure!(r.len() == 3, "len is {}, want 3", r.len());
    let mut c = r.into_cursor().map_err(|x| x.to_string())?;
    for i in 0..3 {
        same(c.move_on_next().map_err(|x| x.to_string())?, &e, Some(i), &format!("entry {i}"))?;
    }
    ensure!(c.move_on_next().map_err(|x| x.to_string())?.is_none(), "a fourth entry");
    Ok(())
}

/// A chunk that stores runs of zeros as a length only.
struct SparseChunk {
    f: Sparse,
    pos: u64,
}

impl Write for SparseChunk {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        if self.pos != self.f.len() {
            return Err(std::io::Error::other("a chunk is only appended to"));
        }
        let n = self.f.write(buf)?;
        self.pos += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

impl Read for SparseChunk {
    fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
        let n = self.f.fetch(self.pos, buf);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for SparseChunk {
    fn seek(&mut self, from: SeekFrom) -> std::io::Result<u64> {
        self.pos = do_seek(self.pos, self.f.len(), from)?;
        Ok(self.pos)
    }
}

struct SparseChunks;

impl grenad::ChunkCreator for SparseChunks {
    type Chunk = SparseChunk;
    type Error = std::io::Error;
    fn create(&self) -> Result<SparseChunk, std::io::Error> {
        Ok(SparseChunk { f: Sparse::default(), pos: 0 })
    }
}

/// The longest lengths through the sorter: its buffer, one chunk, and the output file.
fn sorter_limit(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    src.below(1);
    // a key of that length would be copied into the chunk's index as well: more memory than there is
    let (kl, vl) = (3, u32::MAX as usize);
    ctx.sample(|| format!("sorter: key of {kl} bytes, value of {vl} bytes"));
    let mid = (marked(kl, 0x80), marked(vl, 0x42));
    let e: Entries = vec![(b"\x01before".to_vec(), b"one".to_vec()), mid, (b"\xf0after".to_vec(), vec![9; 200])];
    lens(ctx, &e);
    let io = |x: grenad::Error<MergeFault>| x.to_string();
    let mut b = grenad::SorterBuilder::new(Merge::new(MergeKind::First)).chunk_creator(SparseChunks);
    b.chunk_compression_type(CompressionType::None);
    let mut s = b.build();
    for i in [2, 1, 0] {
        s.insert(&e[i].0, &e[i].1).map_err(io)?;
    }
    let sink = Sparse::default();
    let mut w = Cfg::plain().builder().build(sink.clone());
    s.write_into_stream_writer(&mut w).map_err(io)?;
    w.finish().map_err(|x| x.to_string())?;
    let mut c = Reader::new(sink.reader()).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())?;
    for i in 0..3 {
        same(c.move_on_next().map_err(|x| x.to_string())?, &e, Some(i), &format!("entry {i}"))?;
    }
    ensure!(c.move_on_next().map_err(|x| x.to_string())?.is_none(), "a fourth entry");
    Ok(())
}

/// Large entries through the sorter's buffer and its chunks.
fn sorter_large(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let b = 1usize << 28;
    let (kl, vl, route) = match src.below(5) {
        0 => (5, b, 0),
        1 => (b, 5, 1),
        2 => (3 << 24, (1 << 24) + 1, 2),
        3 => (b + 1, b - 1, 0),
        _ => (5, (1usize << 31) + 1, 1),
    };
    ctx.sample(|| format!("sorter: key of {kl} bytes, value of {vl} bytes, route {route}"));
    let e: Entries = vec![
        (b"\x01before".to_vec(), b"one".to_vec()),
        (marked(kl, 0x80), marked(vl, 0x42)),
        (b"\xf0after".to_vec(), vec![9; 200]),
    ];
    lens(ctx, &e);
    let ins: Entries = vec![e[2].clone(), e[1].clone(), e[0].clone()];
    let got = sorterkit::run(&sorterkit::SCfg::plain(), MergeKind::First, &ins, &Cfg::plain(), route)?;
    ensure!(got.len() == 3, "{} entries, want 3", got.len());
    for (i, (k, v)) in got.iter().enumerate() {
        same(Some((k, v)), &e, Some(i), &format!("entry {i}"))?;
    }
    Ok(())
}
