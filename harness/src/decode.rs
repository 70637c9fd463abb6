//! Independent decoder and validator of grenad files.  Shares no code with grenad; only the codec
//! crates are common.

use grenad::CompressionType;
use std::io::Read;

pub trait ReadAt {
    fn len(&self) -> u64;
    fn read_at(&self, off: u64, len: u64) -> Result<Vec<u8>, String>;
}

impl ReadAt for [u8] {
    fn len(&self) -> u64 {
        <[u8]>::len(self) as u64
    }
    fn read_at(&self, off: u64, len: u64) -> Result<Vec<u8>, String> {
        let end = off.checked_add(len).ok_or("offset overflow")?;
        if end > <[u8]>::len(self) as u64 {
            return Err(format!("read {off}..{end} beyond the end {}", <[u8]>::len(self)));
        }
        Ok(self[off as usize..end as usize].to_vec())
    }
}

#[derive(Clone, Debug, PartialEq)]
pub struct Trailer {
    pub version: u8,
    pub root: u64,
    pub codec: CompressionType,
    pub count: u64,
    pub levels: u8,
}

pub fn codec_of(id: u8) -> Option<CompressionType> {
    Some(match id {
        0 => CompressionType::None,
        1 => CompressionType::SnappyPre05,
        2 => CompressionType::Zlib,
        3 => CompressionType::Lz4,
        4 => CompressionType::Zstd,
        5 => CompressionType::Snappy,
        _ => return None,
    })
}

/// The predicate of C13: does this tail (the last min(22, len) bytes) end in a complete trailer?
pub fn trailer(tail: &[u8]) -> Option<Trailer> {
    let n = tail.len();
    if n < 4 {
        return None;
    }
    let le64 = |b: &[u8]| b.iter().rev().fold(0u64, |a, x| (a << 8) | *x as u64);
    let magic = le64(&tail[n - 4..]);
    if magic == 0x7632_4D4C {
        if n < 21 {
            return None;
        }
        let t = &tail[n - 21..];
        Some(Trailer { version: 1, root: le64(&t[..8]), codec: codec_of(t[8])?, count: le64(&t[9..17]), levels: 0 })
    } else if magic == 0x6723_D4C4 {
        if n < 22 {
            return None;
        }
        let t = &tail[n - 22..];
        Some(Trailer { version: 2, root: le64(&t[..8]), codec: codec_of(t[8])?, count: le64(&t[9..17]), levels: t[17] })
    } else {
        None
    }
}

fn read_all<R: Read>(mut r: R) -> Result<Vec<u8>, String> {
    let mut v = Vec::new();
    r.read_to_end(&mut v).map_err(|e| format!("decompression: {e}"))?;
    Ok(v)
}

pub fn decompress(c: CompressionType, data: &[u8]) -> Result<Vec<u8>, String> {
    match c {
        CompressionType::None => Ok(data.to_vec()),
        CompressionType::SnappyPre05 => {
            snap::raw::Decoder::new().decompress_vec(data).map_err(|e| format!("snappy: {e}"))
        }
        CompressionType::Snappy => read_all(snap::read::FrameDecoder::new(data)),
        #[cfg(feature = "codecs")]
        CompressionType::Zlib => {
            let mut rest = data;
            let v = read_all(flate2::bufread::ZlibDecoder::new(&mut rest))?;
            if !rest.is_empty() {
                return Err(format!("{} bytes after the zlib stream", rest.len()));
            }
            Ok(v)
        }
        #[cfg(feature = "codecs")]
        CompressionType::Lz4 => read_all(lz4_flex::frame::FrameDecoder::new(data)),
        #[cfg(feature = "codecs")]
        CompressionType::Zstd => zstd::stream::decode_all(data).map_err(|e| format!("zstd: {e}")),
        #[cfg(not(feature = "codecs"))]
        _ => Err("codec not built".into()),
    }
}

fn leb128(b: &[u8], pos: &mut usize) -> Result<u64, String> {
    let mut v = 0u64;
    for i in 0..5 {
        let x = *b.get(*pos + i).ok_or("length runs past the payload")?;
        v |= ((x & 0x7f) as u64) << (7 * i);
        if x & 0x80 == 0 {
            *pos += i + 1;
            if v > u32::MAX as u64 {
                return Err("length above 2^32-1".into());
            }
            return Ok(v);
        }
    }
    Err("length of more than five bytes".into())
}

#[derive(Clone, Debug)]
pub struct RawBlock {
    pub offset: u64,
    /// Stored length, without the 8 byte prefix.
    pub stored: u64,
    /// Uncompressed size.
    pub raw_len: usize,
    pub payload_len: usize,
    pub entries: Vec<(Vec<u8>, Vec<u8>)>,
    /// Payload offset of each entry.
    pub starts: Vec<u64>,
    pub offsets: Vec<u64>,
    pub depth: usize,
}

pub fn parse_block(raw: &[u8]) -> Result<RawBlock, String> {
    let n = raw.len();
    if n < 4 {
        return Err(format!("block of {n} bytes"));
    }
    let count = u32::from_be_bytes(raw[n - 4..].try_into().unwrap()) as usize;
    let table = count.checked_mul(8).filter(|t| t + 4 <= n).ok_or("offset table larger than the block")?;
    let payload_len = n - 4 - table;
    let offsets: Vec<u64> =
        raw[payload_len..n - 4].chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
    let payload = &raw[..payload_len];
    let mut pos = 0;
    let mut entries = Vec::new();
    let mut starts = Vec::new();
    while pos < payload_len {
        starts.push(pos as u64);
        let kl = leb128(payload, &mut pos)? as usize;
        let vl = leb128(payload, &mut pos)? as usize;
        let k = payload.get(pos..pos + kl).ok_or("key runs past the payload")?.to_vec();
        pos += kl;
        let v = payload.get(pos..pos + vl).ok_or("value runs past the payload")?.to_vec();
        pos += vl;
        entries.push((k, v));
    }
    Ok(RawBlock { offset: 0, stored: 0, raw_len: n, payload_len, entries, starts, offsets, depth: 0 })
}

pub fn read_block<F: ReadAt + ?Sized>(f: &F, offset: u64, codec: CompressionType, limit: u64) -> Result<RawBlock, String> {
    let head = f.read_at(offset, 8).map_err(|e| format!("block length at {offset}: {e}"))?;
    let stored = u64::from_be_bytes(head.try_into().unwrap());
    if offset.checked_add(8 + stored).is_none_or(|e| e > limit) {
        return Err(format!("block at {offset} with stored length {stored} runs past {limit}"));
    }
    let data = f.read_at(offset + 8, stored)?;
    let raw = decompress(codec, &data).map_err(|e| format!("block at {offset}: {e}"))?;
    let mut b = parse_block(&raw).map_err(|e| format!("block at {offset}: {e}"))?;
    b.offset = offset;
    b.stored = stored;
    Ok(b)
}

pub struct Decoded {
    pub trailer: Trailer,
    /// In file order; `depth` 0 is the root, `levels + 1` the data blocks.
    pub blocks: Vec<RawBlock>,
    pub entries: Vec<(Vec<u8>, Vec<u8>)>,
}

/// Options of the structural validation.
#[derive(Clone, Copy, Default)]
pub struct Strict {
    /// Check the offset table against this interval.
    pub interval: Option<usize>,
    /// Stored blocks must tile the file exactly up to the trailer.
    pub tiling: bool,
    /// Only the order inside each block is required.
    pub unordered: bool,
}

/// Walks the index from the root and validates everything the format promises.
pub fn decode<F: ReadAt + ?Sized>(f: &F, strict: Strict) -> Result<Decoded, String> {
    let len = f.len();
    let tail_len = len.min(22);
    let tail = f.read_at(len - tail_len, tail_len)?;
    let t = trailer(&tail).ok_or("no valid trailer")?;
    let body_end = len - if t.version == 1 { 21 } else { 22 };
    let mut blocks = Vec::new();
    let mut entries: Vec<(Vec<u8>, Vec<u8>)> = Vec::new();
    let depth_data = t.levels as usize + 1;
    walk(f, t.root, 0, depth_data, &t, body_end, None, &mut blocks, &mut entries, strict)?;
    if entries.len() as u64 != t.count {
        return Err(format!("trailer counts {} entries, the blocks hold {}", t.count, entries.len()));
    }
    if let Some(w) = entries.windows(2).find(|w| !strict.unordered && w[0].0 >= w[1].0) {
        return Err(format!("keys not strictly ascending: {} then {}", crate::util::hx(&w[0].0), crate::util::hx(&w[1].0)));
    }
    blocks.sort_by_key(|b: &RawBlock| b.offset);
    if strict.tiling {
        let mut pos = 0;
        for b in &blocks {
            if b.offset != pos {
                return Err(format!("blocks do not tile the file: expected a block at {pos}, next is at {}", b.offset));
            }
            pos = b.offset + 8 + b.stored;
        }
        if pos != body_end {
            return Err(format!("{} bytes between the last block and the trailer", body_end - pos));
        }
    }
    Ok(Decoded { trailer: t, blocks, entries })
}

fn walk<F: ReadAt + ?Sized>(
    f: &F,
    off: u64,
    depth: usize,
    depth_data: usize,
    t: &Trailer,
    body_end: u64,
    last: Option<&[u8]>,
    blocks: &mut Vec<RawBlock>,
    out: &mut Vec<(Vec<u8>, Vec<u8>)>,
    strict: Strict,
) -> Result<(), String> {
    let mut b = read_block(f, off, t.codec, body_end)?;
    b.depth = depth;
    check_block(&b, strict).map_err(|e| format!("block at {off} (depth {depth}): {e}"))?;
    if let Some(last) = last {
        match b.entries.last() {
            None => return Err(format!("empty block at {off} referenced by the index")),
            Some((k, _)) if k.as_slice() != last => {
                return Err(format!(
                    "index key {} is not the last key {} of the block at {off}",
                    crate::util::hx(last),
                    crate::util::hx(k)
                ))
            }
            _ => {}
        }
    }
    if depth == depth_data {
        out.extend(b.entries.iter().cloned());
        blocks.push(b);
        return Ok(());
    }
    let mut prev: Option<u64> = None;
    let children: Vec<(Vec<u8>, Vec<u8>)> = std::mem::take(&mut b.entries);
    for (k, v) in &children {
        if v.len() != 8 {
            return Err(format!("index value of {} bytes in the block at {off}", v.len()));
        }
        let child = u64::from_be_bytes(v.as_slice().try_into().unwrap());
        if prev.is_some_and(|p| p >= child) {
            return Err(format!("child offsets do not ascend in the index block at {off}"));
        }
        prev = Some(child);
        walk(f, child, depth + 1, depth_data, t, body_end, Some(k), blocks, out, strict)?;
    }
    b.entries = children;
    blocks.push(b);
    Ok(())
}

pub fn check_block(b: &RawBlock, strict: Strict) -> Result<(), String> {
    if let Some(w) = b.entries.windows(2).find(|w| w[0].0 >= w[1].0) {
        return Err(format!("keys not strictly ascending: {} then {}", crate::util::hx(&w[0].0), crate::util::hx(&w[1].0)));
    }
    if b.offsets.first() != Some(&0) {
        return Err("first offset of the table is not 0".into());
    }
    if let Some(interval) = strict.interval {
        let mut want: Vec<u64> = b.starts.iter().step_by(interval).copied().collect();
        if want.is_empty() {
            want.push(0);
        }
        if want != b.offsets {
            return Err(format!("offset table {:?} is not one per {interval} entries {:?}", b.offsets, want));
        }
    }
    Ok(())
}
