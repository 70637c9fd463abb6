//! C13: opening accepts exactly the strings that end in a complete trailer and never panics.

use crate::decode;
use crate::encode;
use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::c01;
use crate::sim::*;
use crate::util::*;
use grenad::{FileVersion, Reader};
use std::io::{Cursor, Seek, SeekFrom};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a case is a finished file with all its truncations / trailer corruptions, or a batch of byte strings, each \
               opened and compared with an independent predicate on the last 22 bytes; non-trivial when both accepted \
               and rejected strings occurred in it, or for a string phase when a known magic is present; distinct by \
               choice sequence; 'strings opened' in the classes counts the individual opens",
        assumptions: &[
            "opening is Reader::new; what is read after a successful open on a file that is not a grenad file is out of scope",
            "codec ids are known whether or not the codec feature is compiled in (the harness compiles all of them in)",
        ],
        phases: vec![
            Phase::random("truncations", 12_000, 60_000, truncations),
            Phase::random("trailer-bytes", 6_000, 40_000, trailer_bytes),
            Phase::enumerate("structured", 41 * 8, 41 * 8, structured),
            Phase::random("strings", 400_000, 2_000_000, strings),
            Phase::random("embedded", 20_000, 60_000, embedded),
            Phase::random("crash", 12_000, 60_000, crash),
            Phase::random("v1", 6_000, 60_000, v1),
        ],
    }
}

#[derive(Default)]
struct Tally {
    opened: u64,
    accepted: u64,
}

impl Tally {
    fn done(&self, ctx: &mut Ctx) {
        ctx.count("strings opened", self.opened);
        ctx.count("strings accepted", self.accepted);
        if self.accepted > 0 && self.accepted < self.opened {
            ctx.nontrivial();
        }
    }
}

fn judge<R: std::io::Read + Seek>(got: Result<Result<Reader<R>, grenad::Error>, String>, s: &[u8], what: &dyn Fn() -> String) -> Result<bool, String> {
    let want = decode::trailer(&s[s.len().saturating_sub(22)..]);
    let tail = || hex(&s[s.len().saturating_sub(22)..]);
    match (got, want) {
        (Err(p), _) => Err(format!("{}: opening panics: {p} (length {}, tail {})", what(), s.len(), tail())),
        (Ok(Ok(_)), None) => Err(format!("{}: accepted although the tail is not a valid trailer (length {}, tail {})", what(), s.len(), tail())),
        (Ok(Err(e)), Some(t)) => Err(format!("{}: rejected ({e}) although the tail is a valid trailer {t:?} (length {})", what(), s.len())),
        (Ok(Err(_)), None) => Ok(false),
        (Ok(Ok(r)), Some(t)) => {
            let v = match r.file_version() {
                FileVersion::FormatV1 => 1,
                FileVersion::FormatV2 => 2,
            };
            ensure!(
                v == t.version && r.compression_type() == t.codec && r.len() == t.count && r.is_empty() == (t.count == 0),
                "{}: opened as version {v} codec {:?} with {} entries, the trailer says {t:?}",
                what(),
                r.compression_type(),
                r.len()
            );
            Ok(true)
        }
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn open(t: &mut Tally, s: &[u8], what: &dyn Fn() -> String) -> CaseResult {
    t.opened += 1;
    let got = catch(|| Reader::new(Cursor::new(s)));
    t.accepted += judge(got, s, what)? as u64;
    Ok(())
}

fn small_file(src: &mut Src) -> Result<(Cfg, Entries, Vec<u8>), String> {
    let (cfg, e) = match src.weighted(&[4, 3, 2]) {
        0 => {
            let c = src.span(|s| cfg(s, CFG_ANY));
            let e = entries(src, EntOpts::new(40, 4_000), 1024);
            (c, e)
        }
        1 => {
            let c = src.span(|s| cfg(s, CFG_DEEP));
            let e = entries(src, EntOpts::new(60, 20_000), 1024);
            (c, e)
        }
        _ => c01::levels_gen(src),
    };
    let bytes = file(&cfg, &e)?;
    Ok((cfg, e, bytes))
}

fn truncations(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e, bytes) = small_file(src)?;
    ctx.sample(|| format!("all {} truncations of a file of {} bytes: {} {}", bytes.len() + 1, bytes.len(), cfg.desc(), describe(&e)));
    let mut t = Tally::default();
    let cap = if ctx.thorough { 200_000 } else { 20_000 };
    // every length near both ends, and all of them in between unless the file is very large
    let step = (bytes.len() / cap).max(1);
    for n in 0..=bytes.len() {
        if n > 64 && n + 64 < bytes.len() && n % step != 0 {
            continue;
        }
        open(&mut t, &bytes[..n], &|| format!("the first {n} of {} bytes of a file", bytes.len()))?;
    }
    t.done(ctx);
    Ok(())
}

fn trailer_bytes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e, mut bytes) = small_file(src)?;
    ctx.sample(|| format!("every byte of the trailer replaced by every value: {} {}", cfg.desc(), describe(&e)));
    let mut t = Tally::default();
    let n = bytes.len();
    for i in 1..=22 {
        let old = bytes[n - i];
        for v in 0..=255u8 {
            bytes[n - i] = v;
            open(&mut t, &bytes, &|| format!("trailer byte {i} from the end set to {v:#x}"))?;
        }
        bytes[n - i] = old;
    }
    // the other magic at the end, bytes appended, two corruptions at once
    for m in [encode::MAGIC_V1, encode::MAGIC_V2] {
        let mut b = bytes.clone();
        b[n - 4..].copy_from_slice(&m.to_le_bytes());
        open(&mut t, &b, &|| format!("magic replaced by {m:#x}"))?;
        b[n - 4..].copy_from_slice(&m.to_be_bytes());
        open(&mut t, &b, &|| format!("magic replaced by {m:#x} in the wrong byte order"))?;
    }
    for extra in 1..24usize {
        let mut b = bytes.clone();
        b.resize(n + extra, src.below(256) as u8);
        open(&mut t, &b, &|| format!("{extra} bytes appended"))?;
        let b = &bytes[..n - extra.min(n)];
        open(&mut t, b, &|| format!("{extra} bytes removed"))?;
    }
    for _ in 0..300 {
        let mut b = bytes.clone();
        for _ in 0..2 {
            let i = n - 1 - src.index(22.min(n));
            b[i] = src.below(256) as u8;
        }
        open(&mut t, &b, &|| "two bytes of the trailer replaced".into())?;
    }
    t.done(ctx);
    Ok(())
}

const MAGICS: [u32; 8] = [
    encode::MAGIC_V1,
    encode::MAGIC_V2,
    encode::MAGIC_V1.swap_bytes(),
    encode::MAGIC_V2.swap_bytes(),
    encode::MAGIC_V1 ^ 1,
    encode::MAGIC_V2 ^ 0x8000_0000,
    0,
    u32::MAX,
];

/// Every total length 0..=40 x magic x codec id at the place each version expects it.
fn structured(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(41 * 8) as usize;
    let (len, magic) = (i % 41, MAGICS[i / 41]);
    let mut t = Tally::default();
    ctx.sample(|| format!("length {len}, magic {magic:#x}, every codec id at every position, fills 0x00/0xff/0x05/random"));
    for fill in 0..4 {
        let mut s = vec![[0, 0xff, 5, 0][fill]; len];
        if fill == 3 {
            for b in s.iter_mut() {
                *b = src.below(256) as u8;
            }
        }
        let m = magic.to_le_bytes();
        let k = len.min(4);
        s[len - k..].copy_from_slice(&m[4 - k..]);
        open(&mut t, &s, &|| format!("length {len} magic {magic:#x}"))?;
        for at in 5..=len.min(26) {
            let old = s[len - at];
            for id in 0..=255u8 {
                s[len - at] = id;
                open(&mut t, &s, &|| format!("length {len} magic {magic:#x} byte {id} at {at} from the end"))?;
            }
            s[len - at] = old;
        }
    }
    t.done(ctx);
    ctx.nontrivial();
    Ok(())
}

fn strings(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut rng = Rng::new(src.seed());
    let len = src.range(0, 64) as usize;
    let mut s: Vec<u8> = (0..len).map(|_| rng.next() as u8).collect();
    let kind = src.weighted(&[2, 6, 4]);
    if kind > 0 {
        let m = src.pick(&MAGICS[..if kind == 1 { 2 } else { 8 }]).to_le_bytes();
        let off = src.weighted(&[6, 1, 1]).min(s.len());
        let end = s.len() - off;
        let k = end.min(4);
        s[end - k..end].copy_from_slice(&m[4 - k..]);
        for back in [13 + 0, 14] {
            // the codec byte of the two versions
            if src.chance(2, 3) && s.len() >= back {
                let n = s.len();
                s[n - back] = src.below(8) as u8;
            }
        }
        ctx.nontrivial();
    }
    ctx.sample(|| hex(&s));
    let mut t = Tally::default();
    open(&mut t, &s, &|| "string".into())?;
    // the initial position of the source does not matter
    let mut r = Source::new(Io::plain(), Rc::new(s.clone()));
    let pos = src.pick(&[0u64, 1, 4, 21, 22, 64, 100, u64::MAX]);
    r.seek(SeekFrom::Start(pos)).unwrap();
    t.opened += 1;
    t.accepted += judge(catch(|| Reader::new(r)), &s, &|| format!("source positioned at {pos}"))? as u64;
    ctx.count("strings opened", t.opened);
    ctx.count("strings accepted", t.accepted);
    Ok(())
}

/// Files whose keys and values contain trailers: some truncations are valid, most are not.
fn embedded(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = Cfg { codec: grenad::CompressionType::None, ..src.span(|s| cfg(s, CFG_DEEP)) };
    let n = src.range(1, 12) as usize;
    let mut e: Entries = Vec::new();
    for i in 0..n {
        let mut k = vec![i as u8; 1 + src.index(3)];
        let mut v: Vec<u8> = Vec::new();
        let mut t = if src.chance(1, 2) {
            encode::trailer_v2(src.u64(), src.below(8) as u8, src.u64(), src.below(256) as u8)
        } else {
            encode::trailer_v1(src.u64(), src.below(8) as u8, src.u64())
        };
        match src.weighted(&[4, 1, 1, 1]) {
            0 => {}
            1 => {
                let i = src.index(t.len());
                t.remove(i);
            }
            2 => {
                let n = t.len();
                t[n - 4..].reverse();
            }
            _ => t.truncate(4 + src.index(t.len() - 4)),
        }
        v.resize(src.index(40), 0);
        if src.chance(1, 4) {
            k.extend_from_slice(&t);
        } else {
            v.extend_from_slice(&t);
        }
        e.push((k, v));
    }
    let bytes = file(&c, &e)?;
    ctx.sample(|| format!("all truncations of a file with {n} embedded trailers: {}", describe(&e)));
    let mut t = Tally::default();
    for n in 0..=bytes.len() {
        open(&mut t, &bytes[..n], &|| format!("the first {n} of {} bytes of a file with embedded trailers", bytes.len()))?;
    }
    t.done(ctx);
    Ok(())
}

/// What a writer leaves behind when its sink fails or it is abandoned.
fn crash(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let c = src.span(|s| cfg(s, CFG_DEEP));
    let e = entries(src, EntOpts::new(60, 20_000), 1024);
    let whole = file(&c, &e)?;
    let mut t = Tally::default();
    let run = |io: Io, stop: usize| -> (Vec<u8>, bool) {
        let sink = Sink::new(io);
        let mut w = c.builder().build(sink.clone());
        let mut ok = true;
        for (i, (k, v)) in e.iter().enumerate() {
            if i == stop {
                return (sink.bytes(), false);
            }
            if w.insert(k, v).is_err() {
                ok = false;
                break;
            }
        }
        if ok && stop == usize::MAX {
            ok = w.into_inner().is_ok();
        }
        (sink.bytes(), ok)
    };
    let io = Io::plain();
    let (bytes, ok) = run(io.clone(), usize::MAX);
    ensure!(ok && bytes == whole, "the sink received {} bytes, an in-memory sink {}", bytes.len(), whole.len());
    let calls = io.calls();
    ctx.sample(|| format!("sink failing at each of {calls} calls: {} {}", c.desc(), describe(&e)));
    open(&mut t, &bytes, &|| "a finished file".into())?;
    ensure!(t.accepted == 1, "a finished file is not accepted");
    let step = (calls / 400).max(1);
    for k in (0..calls).filter(|k| k % step == 0 || k + 30 > calls) {
        let split = Split { max: src.pick(&[0usize, 0, 1, 3, 16]), short: 0, intr: 0 };
        let io = Io::new(split, k);
        io.0.borrow_mut().fail_at = Some((k, Fault::Kind(std::io::ErrorKind::Other)));
        let (bytes, _) = run(io, usize::MAX);
        open(&mut t, &bytes, &|| format!("the sink failed at call {k}, leaving {} bytes", bytes.len()))?;
    }
    for stop in 0..e.len() {
        let (bytes, _) = run(Io::plain(), stop);
        open(&mut t, &bytes, &|| format!("the writer was dropped after {stop} inserts"))?;
    }
    t.done(ctx);
    Ok(())
}

fn v1(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let codec = codec(src);
    let e = entries(src, EntOpts::new(40, 8_000), 1024);
    let c = Cfg { codec, ..Cfg::plain() };
    let v2 = file(&c, &e)?;
    let tr = decode::trailer(&v2[v2.len() - 22..]).ok_or("a finished file has no trailer")?;
    let mut bytes = v2[..v2.len() - 22].to_vec();
    bytes.extend(encode::trailer_v1(tr.root, encode::codec_id(codec), tr.count));
    ctx.sample(|| format!("V1 file, every truncation and trailer byte: {:?} {}", codec, describe(&e)));
    let mut t = Tally::default();
    for n in 0..=bytes.len() {
        open(&mut t, &bytes[..n], &|| format!("the first {n} of {} bytes of a V1 file", bytes.len()))?;
    }
    let n = bytes.len();
    for i in 1..=22.min(n) {
        let old = bytes[n - i];
        for v in 0..=255u8 {
            bytes[n - i] = v;
            open(&mut t, &bytes, &|| format!("V1 trailer byte {i} from the end set to {v:#x}"))?;
        }
        bytes[n - i] = old;
    }
    // an empty body: the trailer alone
    open(&mut t, &bytes[n - 21..], &|| "a V1 trailer alone".into())?;
    open(&mut t, &bytes[n - 20..], &|| "a V1 trailer without its first byte".into())?;
    t.done(ctx);
    Ok(())
}
