//! Independent encoder of the grenad file formats (V1 and V2), sharing no code with grenad.

use grenad::CompressionType;
use std::io::Write;

pub const MAGIC_V1: u32 = 0x7632_4D4C;
pub const MAGIC_V2: u32 = 0x6723_D4C4;

pub fn codec_id(c: CompressionType) -> u8 {
    match c {
        CompressionType::None => 0,
        CompressionType::SnappyPre05 => 1,
        CompressionType::Zlib => 2,
        CompressionType::Lz4 => 3,
        CompressionType::Zstd => 4,
        CompressionType::Snappy => 5,
    }
}

pub fn leb128(mut v: u64, out: &mut Vec<u8>) {
    loop {
        let b = (v & 0x7f) as u8;
        v >>= 7;
        if v == 0 {
            out.push(b);
            return;
        }
        out.push(b | 0x80);
    }
}

pub fn compress(c: CompressionType, data: &[u8]) -> Vec<u8> {
    match c {
        CompressionType::None => data.to_vec(),
        CompressionType::SnappyPre05 => snap::raw::Encoder::new().compress_vec(data).unwrap(),
        CompressionType::Snappy => {
            let mut e = snap::write::FrameEncoder::new(Vec::new());
            e.write_all(data).unwrap();
            e.into_inner().map_err(|_| ()).unwrap()
        }
        #[cfg(feature = "codecs")]
        CompressionType::Zlib => {
            let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(6));
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        #[cfg(feature = "codecs")]
        CompressionType::Lz4 => {
            let mut e = lz4_flex::frame::FrameEncoder::new(Vec::new());
            e.write_all(data).unwrap();
            e.finish().unwrap()
        }
        #[cfg(feature = "codecs")]
        CompressionType::Zstd => zstd::stream::encode_all(data, 1).unwrap(),
        #[cfg(not(feature = "codecs"))]
        _ => unimplemented!(),
    }
}

/// One raw (uncompressed) block.
pub fn block(entries: &[(&[u8], &[u8])], interval: usize) -> Vec<u8> {
    let mut out = Vec::new();
    let mut offsets = vec![0u64];
    for (i, (k, v)) in entries.iter().enumerate() {
        if i > 0 && i % interval == 0 {
            offsets.push(out.len() as u64);
        }
        leb128(k.len() as u64, &mut out);
        leb128(v.len() as u64, &mut out);
        out.extend_from_slice(k);
        out.extend_from_slice(v);
    }
    for o in &offsets {
        out.extend_from_slice(&o.to_be_bytes());
    }
    out.extend_from_slice(&(offsets.len() as u32).to_be_bytes());
    out
}

pub fn emit(out: &mut Vec<u8>, codec: CompressionType, raw: &[u8]) -> u64 {
    let off = out.len() as u64;
    let c = compress(codec, raw);
    out.extend_from_slice(&(c.len() as u64).to_be_bytes());
    out.extend_from_slice(&c);
    off
}

pub fn trailer_v1(root: u64, codec: u8, count: u64) -> Vec<u8> {
    let mut t = root.to_le_bytes().to_vec();
    t.push(codec);
    t.extend_from_slice(&count.to_le_bytes());
    t.extend_from_slice(&MAGIC_V1.to_le_bytes());
    t
}

pub fn trailer_v2(root: u64, codec: u8, count: u64, levels: u8) -> Vec<u8> {
    let mut t = root.to_le_bytes().to_vec();
    t.push(codec);
    t.extend_from_slice(&count.to_le_bytes());
    t.push(levels);
    t.extend_from_slice(&MAGIC_V2.to_le_bytes());
    t
}

/// Entries cut into data blocks where `cut(i, size)` says.
pub fn cut_blocks(
    entries: &[(Vec<u8>, Vec<u8>)],
    interval: usize,
    mut cut: impl FnMut(usize, usize) -> bool,
) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut out = Vec::new();
    let mut cur: Vec<(&[u8], &[u8])> = Vec::new();
    let mut size = 0;
    for (i, (k, v)) in entries.iter().enumerate() {
        cur.push((k, v));
        size += k.len() + v.len() + 2;
        if cut(i, size) || i + 1 == entries.len() {
            out.push((k.clone(), block(&cur, interval)));
            cur.clear();
            size = 0;
        }
    }
    out
}

fn root_block(blocks: &[(Vec<u8>, Vec<u8>)], offsets: &[u64], interval: usize) -> Vec<u8> {
    let offs: Vec<[u8; 8]> = offsets.iter().map(|o| o.to_be_bytes()).collect();
    let refs: Vec<(&[u8], &[u8])> = blocks.iter().zip(&offs).map(|((k, _), o)| (k.as_slice(), o.as_slice())).collect();
    block(&refs, interval)
}

/// A complete single-level file in the order a writer emits it: data blocks (last key, raw bytes), then the root index.
/// Returns the bytes before the trailer and the root offset.
pub fn single_level(blocks: &[(Vec<u8>, Vec<u8>)], codec: CompressionType, interval: usize) -> (Vec<u8>, u64) {
    let mut out = Vec::new();
    let offsets: Vec<u64> = blocks.iter().map(|(_, b)| emit(&mut out, codec, b)).collect();
    let root = emit(&mut out, codec, &root_block(blocks, &offsets, interval));
    (out, root)
}

/// The same content with the blocks in any order: `order` is a permutation of `0..=blocks.len()`, in which the last
/// number stands for the root index; `gap()` gives unused bytes to leave before each block.
pub fn scattered(
    blocks: &[(Vec<u8>, Vec<u8>)],
    codec: CompressionType,
    interval: usize,
    order: &[usize],
    mut gap: impl FnMut() -> Vec<u8>,
) -> (Vec<u8>, u64) {
    let data: Vec<Vec<u8>> = blocks.iter().map(|(_, b)| compress(codec, b)).collect();
    let gaps: Vec<Vec<u8>> = order.iter().map(|_| gap()).collect();
    let mut room = compress(codec, &root_block(blocks, &vec![0; blocks.len()], interval)).len() + 16;
    loop {
        let (mut at, mut offsets, mut root_at) = (0u64, vec![0; blocks.len()], 0);
        for (g, i) in gaps.iter().zip(order) {
            at += g.len() as u64;
            match data.get(*i) {
                Some(d) => {
                    offsets[*i] = at;
                    at += 8 + d.len() as u64;
                }
                None => {
                    root_at = at;
                    at += 8 + room as u64;
                }
            }
        }
        let root = compress(codec, &root_block(blocks, &offsets, interval));
        if root.len() > room {
            room = root.len() + room / 4;
            continue;
        }
        let mut out = Vec::new();
        for (g, i) in gaps.iter().zip(order) {
            out.extend_from_slice(g);
            let d = data.get(*i).unwrap_or(&root);
            out.extend_from_slice(&(d.len() as u64).to_be_bytes());
            out.extend_from_slice(d);
            if *i == blocks.len() {
                out.resize(out.len() + room - root.len(), 0xa5);
            }
        }
        return (out, root_at);
    }
}

/// A complete V2 file with `levels` index levels below the root: `cap(level)` gives the number of entries of the next
/// block of a level, 0 being the data.
pub fn multi_level(
    entries: &[(Vec<u8>, Vec<u8>)],
    codec: CompressionType,
    interval: usize,
    levels: u8,
    cap: &mut dyn FnMut(usize) -> usize,
) -> Vec<u8> {
    let mut out = Vec::new();
    let mut refs: Vec<(&[u8], Vec<u8>)> = entries.iter().map(|(k, v)| (k.as_slice(), v.clone())).collect();
    for level in 0..=levels as usize {
        let mut up = Vec::new();
        let mut rest = refs.as_slice();
        while !rest.is_empty() {
            let n = cap(level).min(rest.len());
            let (now, later) = rest.split_at(n);
            let b: Vec<(&[u8], &[u8])> = now.iter().map(|(k, v)| (*k, v.as_slice())).collect();
            let at = emit(&mut out, codec, &block(&b, interval));
            up.push((now[n - 1].0, at.to_be_bytes().to_vec()));
            rest = later;
        }
        refs = up;
    }
    let b: Vec<(&[u8], &[u8])> = refs.iter().map(|(k, v)| (*k, v.as_slice())).collect();
    let root = emit(&mut out, codec, &block(&b, interval));
    out.extend_from_slice(&trailer_v2(root, codec_id(codec), entries.len() as u64, levels));
    out
}
