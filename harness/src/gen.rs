//! Generators: writer configurations, entry sets, probes.

use crate::engine::{Ctx, Rng, Src};
use crate::util::*;
use grenad::{CompressionType, WriterBuilder};
use std::num::NonZeroUsize;

#[derive(Clone, Debug, PartialEq)]
pub struct Cfg {
    pub codec: CompressionType,
    pub level: Option<u32>,
    pub block: Option<usize>,
    pub interval: Option<usize>,
    pub levels: Option<u8>,
    /// How the builder is driven: order of the setters (low bits), setters called twice (128), builder
    /// already used for another file (256), codec set explicitly even when it is the default (512).
    pub order: u16,
    /// Not written by grenad but by the independent encoder: blocks of at most so many entries, cut at random.
    pub foreign: Option<Foreign>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Foreign {
    pub data: u8,
    pub index: u8,
    pub seed: u64,
}

impl Cfg {
    pub fn plain() -> Cfg {
        Cfg { codec: CompressionType::None, level: None, block: None, interval: None, levels: None, order: 0, foreign: None }
    }
    pub fn builder(&self) -> WriterBuilder {
        let mut b = match self.order % 3 {
            0 => WriterBuilder::new(),
            1 => WriterBuilder::default(),
            _ => grenad::Writer::builder(),
        };
        let orders = [[0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [1, 0, 3, 4, 2], [2, 4, 1, 3, 0], [3, 2, 0, 1, 4]];
        let order = orders[(self.order & 127) as usize % orders.len()];
        let twice = self.order & 128 != 0;
        for pass in 0..=twice as usize {
            // the first of two passes sets other values
            let other = twice && pass == 0;
            for o in order {
                match o {
                    0 if other => drop(b.compression_type(CODECS[(self.order >> 10) as usize % CODECS.len()])),
                    0 if twice || self.codec != CompressionType::None || self.order & 512 == 0 => drop(b.compression_type(self.codec)),
                    1 => drop(self.level.map(|l| b.compression_level(if other { l.wrapping_add(3) } else { l }))),
                    2 => drop(self.block.map(|x| b.block_size(if other { x / 2 + 5000 } else { x }))),
                    3 => drop(self.interval.map(|x| b.index_key_interval(NonZeroUsize::new(if other { x / 2 + 5 } else { x }).unwrap()))),
                    4 => drop(self.levels.map(|l| b.index_levels(if other { l / 2 + 3 } else { l }))),
                    _ => {}
                }
            }
        }
        if self.order & 256 != 0 && self.codec != CompressionType::Zstd {
            let mut w = b.build(std::io::sink());
            let _ = w.insert("first", "file");
            let _ = w.into_inner();
        }
        b
    }
    pub fn block_eff(&self) -> usize {
        self.block.unwrap_or(8192).max(1024)
    }
    pub fn interval_eff(&self) -> usize {
        self.interval.unwrap_or(8)
    }
    pub fn levels_eff(&self) -> u8 {
        self.levels.unwrap_or(0)
    }
    pub fn desc(&self) -> String {
        let o = |x: Option<usize>| x.map_or("default".to_string(), |x| x.to_string());
        format!(
            "{:?}/level={} block={} interval={} levels={}{}",
            self.codec,
            self.level.map_or("default".into(), |l| l.to_string()),
            o(self.block),
            o(self.interval),
            self.levels.map_or("default".into(), |l| l.to_string()),
            if let Some(f) = self.foreign {
                format!(" encoder, blocks of 1..={} and index blocks of 1..={} entries", f.data, f.index)
            } else if self.order == 0 { String::new() } else { format!(" setters={:#x}", self.order) }
        )
    }
}

/// The codecs the library was compiled with.
#[cfg(feature = "full")]
pub const CODECS: [CompressionType; 6] = [
    CompressionType::None,
    CompressionType::Snappy,
    CompressionType::SnappyPre05,
    CompressionType::Lz4,
    CompressionType::Zlib,
    CompressionType::Zstd,
];
#[cfg(all(feature = "snappy", not(feature = "full")))]
pub const CODECS: [CompressionType; 3] =
    [CompressionType::None, CompressionType::Snappy, CompressionType::SnappyPre05];
#[cfg(not(feature = "snappy"))]
pub const CODECS: [CompressionType; 1] = [CompressionType::None];

#[derive(Clone, Copy)]
pub struct CfgOpts {
    /// Any number of index levels up to 255 (else up to 5).
    pub wide_levels: bool,
    /// Extreme compression levels.
    pub wild_level: bool,
    /// Favour small blocks and deep indexes.
    pub deep: bool,
}

pub const CFG_ANY: CfgOpts = CfgOpts { wide_levels: true, wild_level: true, deep: false };
pub const CFG_DEEP: CfgOpts = CfgOpts { wide_levels: false, wild_level: false, deep: true };

pub fn codec(src: &mut Src) -> CompressionType {
    CODECS[src.weighted(&[8, 3, 3, 3, 3, 3][..CODECS.len()])]
}

pub fn cfg(src: &mut Src, o: CfgOpts) -> Cfg {
    let codec = codec(src);
    let level = match src.weighted(&[6, 4, if o.wild_level { 1 } else { 0 }]) {
        0 => None,
        1 => Some(match codec {
            CompressionType::Zlib => src.range(0, 9) as u32,
            CompressionType::Zstd => src.range(0, 5) as u32,
            _ => src.range(0, 12) as u32,
        }),
        _ => Some(match codec {
            // huge zstd levels cost hundreds of megabytes per block: see the directed phases
            CompressionType::Zstd => src.pick(&[6, 9, 12, u32::MAX, 1 << 31, u32::MAX - 6]),
            _ => src.pick(&[9, 10, 11, 19, 22, 255, 256, 1 << 16, i32::MAX as u32, u32::MAX]),
        }),
    };
    let block = match src.weighted(if o.deep { &[1, 10, 2, 2, 1, 1] } else { &[4, 6, 3, 2, 2, 2] }) {
        0 => None,
        1 => Some(1024),
        2 => Some(src.pick(&[0, 1, 512, 1023, 1025, 1100, 1500])),
        3 => Some(src.range(1024, 4096) as usize),
        4 => Some(src.pick(&[8192, 16384, 65535, 65536, 65537])),
        _ => match src.below(4) {
            0..=2 => Some(src.pick(&[1 << 20, usize::MAX, usize::MAX - 1, usize::MAX / 2])),
            _ => Some((1usize << src.pick(&[16, 32])) + src.pick(&[0, 1, 1024, 1500, 4096])),
        },
    };
    let interval = match src.weighted(&[5, 4, 3, 1]) {
        0 => None,
        1 => Some(1),
        2 => Some(src.range(2, 20) as usize),
        // also what is small once truncated to 8, 16 or 32 bits
        _ => match src.below(5) {
            0..=2 => Some(src.pick(&[64, 255, 256, 1000, 65536, usize::MAX])),
            _ => Some((1usize << src.pick(&[8, 16, 32])) + src.range(0, 12) as usize),
        },
    };
    let levels = match src.weighted(&if o.deep { [1, 2, 10, 0] } else { [3, 2, 6, o.wide_levels as u64] }) {
        0 => None,
        1 => Some(0),
        2 => Some(src.range(1, 5) as u8),
        _ => Some(src.pick(&[6, 7, 8, 16, 31, 32, 63, 64, 127, 128, 129, 200, 254, 255])),
    };
    let order = if src.chance(1, 2) { 0 } else { src.below(1 << 13) as u16 };
    Cfg { codec, level, block, interval, levels, order, foreign: None }
}

/// For properties about any valid file: a share of the files come from the independent encoder, with blocks and
/// index blocks of one to four entries, far below what a writer cuts.
pub fn any_file(src: &mut Src, c: &mut Cfg, ctx: &mut Ctx) {
    if src.chance(1, 4) {
        c.foreign = Some(Foreign { data: src.range(1, 4) as u8, index: src.range(1, 4) as u8, seed: src.seed() });
        c.levels = c.levels.map(|l| if l > 5 { l % 6 } else { l });
        ctx.label("file of the independent encoder");
    }
}

#[derive(Clone, Copy)]
pub struct EntOpts {
    pub max_n: u64,
    pub max_bytes: usize,
    pub long_keys: bool,
}

impl EntOpts {
    pub const fn new(max_n: u64, max_bytes: usize) -> EntOpts {
        EntOpts { max_n, max_bytes, long_keys: true }
    }
}

fn fill(rng: &mut Rng, out: &mut Vec<u8>, n: usize, kind: u64) {
    match kind {
        0 => {
            // incompressible
            let mut left = n;
            while left > 0 {
                let x = rng.next().to_le_bytes();
                let m = left.min(8);
                out.extend_from_slice(&x[..m]);
                left -= m;
            }
        }
        1 => {
            let b = rng.next() as u8;
            out.resize(out.len() + n, b);
        }
        _ => {
            let pat = (rng.next() as u32).to_le_bytes();
            out.extend((0..n).map(|i| pat[i % 3]));
        }
    }
}

/// One value drawn from value style `style`.
fn value(rng: &mut Rng, style: u64, block: usize, out: &mut Vec<u8>) {
    let block = block.min(1 << 16);
    let style = if style == 6 { rng.below(6) } else { style };
    let n = match style {
        0 => 0,
        1 => rng.below(17) as usize,
        2 => rng.below(300) as usize,
        3 => (block + 64).saturating_sub(rng.below(200) as usize),
        4 => block + rng.below(2 * block as u64) as usize,
        5 => [126, 127, 128, 129, 16382, 16383, 16384, 16385][rng.below(8) as usize],
        _ => 65_530 + rng.below(1 << 20) as usize,
    };
    let kind = rng.below(3);
    fill(rng, out, n, kind);
}

pub const KEY_STYLES: u64 = 9;

/// The `i`-th raw key of a style (not necessarily sorted or unique).
fn key(rng: &mut Rng, style: u64, i: u64, p: &KeyParams, out: &mut Vec<u8>) {
    match style {
        0 => out.extend_from_slice(&((p.a as u32).wrapping_add((i as u32).wrapping_mul(p.stride))).to_be_bytes()),
        1 => {
            // small alphabet, short
            let n = rng.below(p.maxlen + 1) as usize;
            for _ in 0..n {
                out.push(p.alphabet[rng.below(p.alphabet.len() as u64) as usize]);
            }
        }
        2 => {
            // long shared prefix then counter
            out.resize(p.prefix, p.alphabet[0]);
            out.extend_from_slice(&((i as u32).wrapping_mul(p.stride)).to_be_bytes()[4 - p.width..]);
        }
        3 => {
            let n = rng.below(20) as usize;
            fill(rng, out, n, 0);
        }
        4 => {
            // prefixes of one long string, sometimes with an extension
            let n = rng.below(p.maxlen * 8 + 1) as usize;
            out.extend((0..n).map(|j| p.alphabet[(j * 7 / 3) % p.alphabet.len()]));
            if rng.below(3) == 0 {
                out.push(rng.next() as u8);
            }
        }
        5 => {
            let n = [126, 127, 128, 129, 130, 300, 16383, 16384, 16385][rng.below(if p.prefix > 450 { 9 } else { 6 }) as usize];
            fill(rng, out, n, 0);
        }
        6 => out.extend_from_slice(format!("{}", (i * p.stride as u64) ^ p.a).as_bytes()),
        7 => {
            // variable, long, diverging at both ends
            let n = 100 + rng.below(600) as usize;
            let b = p.alphabet[rng.below(p.alphabet.len() as u64) as usize];
            out.push(b);
            out.resize(n, b);
            out.extend_from_slice(&(i as u16).to_be_bytes());
        }
        _ => {
            let s = rng.below(8);
            key(rng, s, i, p, out)
        }
    }
}

struct KeyParams {
    a: u64,
    stride: u32,
    maxlen: u64,
    alphabet: &'static [u8],
    prefix: usize,
    width: usize,
}

const ALPHABETS: [&[u8]; 6] = [b"ab", b"a", &[0x00, 0xff], &[0xfe, 0xff], b"abcdefgh", &[0, 1, 2, 0x7f, 0x80, 0xff]];

/// Sorted entries with distinct keys.
pub fn entries(src: &mut Src, o: EntOpts, block: usize) -> Entries {
    let mut e = raw_entries(src, o, block);
    e.sort_by(|a, b| a.0.cmp(&b.0));
    e.dedup_by(|a, b| a.0 == b.0);
    e
}

/// Entries in generation order, possibly with duplicate keys.
pub fn raw_entries(src: &mut Src, o: EntOpts, block: usize) -> Entries {
    if src.chance(1, 6) {
        // explicit little lists shrink best
        let max = (o.max_n as usize).min(12);
        return src.list(0, max, |s| {
            let alphabet = ALPHABETS[s.index(ALPHABETS.len())];
            let k: Vec<u8> = s.list(0, 5, |s| alphabet[s.index(alphabet.len())]);
            let n = s.weighted(&[3, 3, 1]);
            let vl = match n {
                0 => s.index(4),
                1 => s.index(300),
                _ => s.index(2 * block.min(1 << 16)),
            };
            let seed = s.seed();
            let mut v = Vec::new();
            fill(&mut Rng::new(seed), &mut v, vl, seed % 3);
            (k, v)
        });
    }
    let n = match src.weighted(&[1, 12, 8]) {
        0 => src.range(0, 3.min(o.max_n)),
        1 => src.log_range(0, o.max_n),
        _ => src.range(0, o.max_n),
    };
    let style = src.weighted(&[4, 4, if o.long_keys { 6 } else { 1 }, 2, 3, 1, 2, if o.long_keys { 4 } else { 1 }, 2]) as u64;
    let vstyle = src.weighted(&[2, 8, 3, 2, 2, 2, 4, 1]) as u64;
    let p = KeyParams {
        a: src.range(0, 1 << 20),
        stride: src.pick(&[1u32, 1, 2, 3, 7, 256, 1000, 65_537]),
        maxlen: src.range(1, 12),
        alphabet: ALPHABETS[src.index(ALPHABETS.len())],
        prefix: src.range(0, 700) as usize,
        width: src.pick(&[2usize, 3, 4]),
    };
    let mut rng = Rng::new(src.seed());
    let mut out = Vec::new();
    let mut total = 0usize;
    for i in 0..n {
        let mut k = Vec::new();
        key(&mut rng, style, i, &p, &mut k);
        let mut v = Vec::new();
        value(&mut rng, vstyle, block, &mut v);
        total += k.len() + v.len();
        if total > o.max_bytes && !out.is_empty() {
            break;
        }
        out.push((k, v));
    }
    out
}

pub fn write_to<W: std::io::Write>(cfg: &Cfg, entries: &[(Vec<u8>, Vec<u8>)], w: W) -> Result<W, String> {
    let mut writer = cfg.builder().build(w);
    for (k, v) in entries {
        writer.insert(k, v).map_err(|e| format!("insert failed without any fault: {e}"))?;
    }
    writer.into_inner().map_err(|e| format!("into_inner failed without any fault: {e}"))
}

pub fn file(cfg: &Cfg, entries: &[(Vec<u8>, Vec<u8>)]) -> Result<Vec<u8>, String> {
    if let Some(f) = cfg.foreign.filter(|_| !entries.is_empty()) {
        let mut rng = Rng::new(f.seed);
        let mut cap = |level: usize| 1 + rng.below(if level == 0 { f.data } else { f.index } as u64) as usize;
        return Ok(crate::encode::multi_level(entries, cfg.codec, cfg.interval_eff(), cfg.levels_eff(), &mut cap));
    }
    write_to(cfg, entries, Vec::new())
}

/// The byte string right after `k` in lexicographic order of strings of the same or smaller length.
pub fn inc(k: &[u8]) -> Option<Vec<u8>> {
    let mut v = k.to_vec();
    while let Some(x) = v.pop() {
        if x < 255 {
            v.push(x + 1);
            return Some(v);
        }
    }
    None
}

/// A string just below `k` (not the exact predecessor, which is infinite).
pub fn dec(k: &[u8]) -> Option<Vec<u8>> {
    let mut v = k.to_vec();
    match v.pop() {
        None => None,
        Some(0) => Some(v),
        Some(x) => {
            v.push(x - 1);
            v.push(0xff);
            v.push(0xff);
            Some(v)
        }
    }
}

/// A probe: stored keys, neighbours, prefixes, extensions, mutations, constants, random strings.
pub fn probe(src: &mut Src, e: &Entries) -> Vec<u8> {
    let kind = src.weighted(&[6, 3, 3, 3, 3, 3, 1, 1, 1, 2, 2]);
    if kind >= 6 || e.is_empty() {
        return match kind {
            6 => vec![],
            7 => vec![0xff; src.urange(1, 40)],
            8 => vec![0x00; src.urange(1, 40)],
            9 => e.last().map(|(k, _)| inc(k).unwrap_or_else(|| [k.as_slice(), &[0xff]].concat())).unwrap_or_default(),
            _ => {
                let n = src.index(12);
                let mut r = Rng::new(src.seed());
                let mut v = Vec::new();
                fill(&mut r, &mut v, n, 0);
                v
            }
        };
    }
    let i = src.index(e.len());
    let k = &e[i].0;
    match kind {
        0 => k.clone(),
        1 => [k.as_slice(), &[src.pick(&[0u8, 1, 0x7f, 0xff])]].concat(),
        2 => k[..src.index(k.len() + 1)].to_vec(),
        3 => dec(k).unwrap_or_default(),
        4 => inc(k).unwrap_or_else(|| vec![0xff; k.len() + 1]),
        _ => {
            let mut v = k.clone();
            if !v.is_empty() {
                let j = src.index(v.len());
                v[j] = src.below(256) as u8;
            }
            v
        }
    }
}
