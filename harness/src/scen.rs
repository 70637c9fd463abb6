//! Scenarios of C01-C07 that can be run any number of times over instrumented I/O, recording every
//! result of every public call.  Used by C11 (schedules), C12 (faults) and C17 (memory).

use crate::engine::*;
use crate::gen::*;
use crate::props::{c01, c03, c04, c05};
use crate::{decode, encode};
use crate::sim::*;
use crate::sorterkit::{self, SCfg};
use crate::util::*;
use grenad::{Merger, MergerBuilder, MergerIter, Reader, ReaderCursor, Writer};
use std::io::{self, BufWriter, Read, Seek, Write};
use std::ops::Bound;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Unit,
    Num(u64),
    Text(String),
    Pair(Option<(Vec<u8>, Vec<u8>)>),
    Bytes(Vec<u8>),
}

impl Out {
    pub fn show(&self) -> String {
        match self {
            Out::Unit => "ok".into(),
            Out::Num(n) => n.to_string(),
            Out::Text(s) => s.clone(),
            Out::Pair(p) => hkv(p.as_ref().map(|(k, v)| (k.as_slice(), v.as_slice()))),
            Out::Bytes(b) => format!("{} bytes {}", b.len(), hx(b)),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Fail {
    Io { kind: io::ErrorKind, text: String, os: Option<i32> },
    Merge(u64),
    Codec,
    Version,
    Panic(String),
    Other(String),
}

impl From<io::Error> for Fail {
    fn from(e: io::Error) -> Fail {
        Fail::Io { kind: e.kind(), text: e.to_string(), os: e.raw_os_error() }
    }
}

impl From<grenad::Error> for Fail {
    fn from(e: grenad::Error) -> Fail {
        match e {
            grenad::Error::Io(e) => e.into(),
            grenad::Error::InvalidCompressionType => Fail::Codec,
            grenad::Error::InvalidFormatVersion => Fail::Version,
            grenad::Error::Merge(m) => match m {},
        }
    }
}

impl From<grenad::Error<MergeFault>> for Fail {
    fn from(e: grenad::Error<MergeFault>) -> Fail {
        match e {
            grenad::Error::Io(e) => e.into(),
            grenad::Error::InvalidCompressionType => Fail::Codec,
            grenad::Error::InvalidFormatVersion => Fail::Version,
            grenad::Error::Merge(m) => Fail::Merge(m.0),
        }
    }
}

#[derive(Default, Debug, PartialEq)]
pub struct Trace {
    pub calls: Vec<(&'static str, Out)>,
    /// The first call that failed.
    pub fail: Option<(&'static str, Fail)>,
    /// The call that returned success although a component failed during it.
    pub swallowed: Option<(&'static str, Op)>,
}

impl Trace {
    /// First difference.
    pub fn diff(&self, want: &Trace) -> Option<String> {
        for (i, (a, b)) in self.calls.iter().zip(&want.calls).enumerate() {
            if a != b {
                return Some(format!("call {i} {}: got {}, want {} {}", a.0, a.1.show(), b.0, b.1.show()));
            }
        }
        if let Some((n, f)) = &self.fail {
            if self.fail != want.fail {
                return Some(format!("call {} {n}: failed with {f:?}", self.calls.len()));
            }
        }
        if self.calls.len() != want.calls.len() {
            return Some(format!("{} calls succeeded, want {}", self.calls.len(), want.calls.len()));
        }
        None
    }
}

pub struct Run<'a> {
    pub io: &'a Io,
    /// Go on after a fault that was absorbed.
    pub tolerant: bool,
    pub t: Trace,
}

impl Run<'_> {
    fn call<T>(&mut self, name: &'static str, f: impl FnOnce() -> Result<T, Fail>, out: impl FnOnce(&T) -> Out) -> Option<T> {
        let before = self.io.fired();
        match catch(f) {
            Err(p) => {
                self.t.fail = Some((name, Fail::Panic(p)));
                None
            }
            Ok(Err(e)) => {
                self.t.fail = Some((name, e));
                None
            }
            Ok(Ok(t)) => {
                if let (None, Some(op), false) = (before, self.io.fired(), self.tolerant) {
                    self.t.swallowed = Some((name, op));
                    return None;
                }
                let o = out(&t);
                self.t.calls.push((name, o));
                Some(t)
            }
        }
    }
    fn pair<E: Into<Fail>>(&mut self, name: &'static str, f: impl FnOnce() -> Result<Option<(Vec<u8>, Vec<u8>)>, E>) -> Option<Option<(Vec<u8>, Vec<u8>)>> {
        self.call(name, || f().map_err(Into::into), |p| Out::Pair(p.clone()))
    }
}

pub fn own(e: Option<(&[u8], &[u8])>) -> Option<(Vec<u8>, Vec<u8>)> {
    e.map(|(k, v)| (k.to_vec(), v.to_vec()))
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum How {
    IntoInner,
    Finish,
    /// Through a `BufWriter`, whose pending bytes only reach the sink when it is flushed.
    BufInto(usize),
    BufFinish(usize),
}

#[derive(Clone)]
pub enum Step {
    Op(c03::Op),
    Clone,
}

pub enum Scen {
    Write { cfg: Cfg, e: Entries, how: How },
    Read { desc: String, data: Rc<Vec<u8>>, steps: Vec<(usize, Step)>, shared_pos: bool },
    Iter { desc: String, data: Rc<Vec<u8>>, kind: usize, lo: c04::B, hi: c04::B, prefix: Vec<u8>, limit: usize },
    Merge { desc: String, files: Vec<Rc<Vec<u8>>>, kind: MergeKind, out: Option<Cfg>, shared_pos: bool },
    Sort { s: SCfg, kind: MergeKind, ins: Entries, out: Cfg, route: usize },
}

/// Size class of a scenario.
#[derive(Clone, Copy, PartialEq)]
pub enum Size {
    /// Few calls: every call x every fault.
    Tiny,
    Small,
    Large,
}

fn size_entries(src: &mut Src, z: Size, block: usize) -> Entries {
    let o = match z {
        Size::Tiny => EntOpts::new(14, 3_000),
        Size::Small => EntOpts::new(60, 12_000),
        Size::Large => EntOpts::new(400, 300_000),
    };
    let mut e = entries(src, o, block);
    for (_, v) in e.iter_mut() {
        v.truncate(o.max_bytes);
    }
    e
}

pub fn gen_file(src: &mut Src, z: Size) -> Result<(String, Entries, Rc<Vec<u8>>), String> {
    let (cfg, e) = match src.weighted(&[5, if z == Size::Tiny { 0 } else { 4 }, if z == Size::Large { 2 } else { 0 }]) {
        0 => {
            let c = src.span(|s| cfg(s, CFG_DEEP));
            let e = size_entries(src, z, 1024);
            (c, e)
        }
        1 => c03::deep_file(src),
        _ => c01::deep_gen(src),
    };
    if src.chance(1, 8) {
        let cfg = Cfg { levels: None, ..cfg };
        let mut b = file(&cfg, &e)?;
        let n = b.len() - 22;
        let t = decode::trailer(&b[n..]).ok_or("a finished file has no trailer")?;
        b.truncate(n);
        b.extend(encode::trailer_v1(t.root, encode::codec_id(cfg.codec), t.count));
        return Ok((format!("V1 {} {}", cfg.desc(), describe(&e)), e, Rc::new(b)));
    }
    let bytes = file(&cfg, &e)?;
    Ok((format!("{} {}", cfg.desc(), describe(&e)), e, Rc::new(bytes)))
}

impl Scen {
    pub fn kind(&self) -> &'static str {
        match self {
            Scen::Write { how: How::BufInto(_) | How::BufFinish(_), .. } => "write-buffered",
            Scen::Write { .. } => "write",
            Scen::Read { .. } => "read",
            Scen::Iter { .. } => "iterate",
            Scen::Merge { .. } => "merge",
            Scen::Sort { .. } => "sort",
        }
    }

    /// Rough cost of one run, apart from its I/O calls.
    pub fn weight(&self) -> u64 {
        let codec = |c: &Cfg| match c.codec {
            grenad::CompressionType::None => 1,
            grenad::CompressionType::Zlib | grenad::CompressionType::Zstd => 20,
            _ => 4,
        };
        let blocks = |c: &Cfg, n: u64| codec(c) * (n + 2000 * (n / c.block_eff() as u64 + c.levels_eff() as u64 + 1));
        let size = |e: &Entries| e.iter().map(|(k, v)| (k.len() + v.len() + 20) as u64).sum::<u64>();
        match self {
            Scen::Write { cfg, e, .. } => blocks(cfg, size(e)),
            Scen::Read { data, steps, .. } => data.len() as u64 * (1 + steps.len() as u64 / 4),
            Scen::Iter { data, .. } => data.len() as u64 * 2,
            Scen::Merge { files, out, .. } => {
                let n: u64 = files.iter().map(|f| f.len() as u64).sum();
                n * 2 + out.as_ref().map_or(0, |c| blocks(c, n))
            }
            Scen::Sort { s, ins, out, .. } => {
                let n = size(ins);
                let dumps = 1 + n / s.threshold as u64;
                let merges = dumps / s.max_chunks_eff() as u64 + 1;
                blocks(out, n) + dumps * blocks(&s.chunk, n / dumps) + merges * blocks(&s.chunk, n)
            }
        }
    }

    pub fn desc(&self) -> String {
        match self {
            Scen::Write { cfg, e, how } => format!("write ({how:?}) {} {}", cfg.desc(), describe(e)),
            Scen::Read { desc, steps, shared_pos, .. } => {
                let s: Vec<String> = steps
                    .iter()
                    .take(12)
                    .map(|(w, s)| match s {
                        Step::Op(o) => format!("{}:{}", w % 8, o.show()),
                        Step::Clone => format!("{}:clone", w % 8),
                    })
                    .collect();
                format!("read {desc} shared_pos={shared_pos} {} steps [{}]", steps.len(), s.join(" "))
            }
            Scen::Iter { desc, kind, lo, hi, prefix, .. } => match kind {
                0 | 1 => format!("{} {} {} over {desc}", ["range", "rev range"][*kind], c04::show(lo), c04::show(hi)),
                _ => format!("{} {} over {desc}", ["prefix", "rev prefix"][*kind - 2], hx(prefix)),
            },
            Scen::Merge { desc, kind, out, .. } => format!("merge {kind:?} into {} of {desc}", if out.is_some() { "a writer" } else { "a stream" }),
            Scen::Sort { s, kind, ins, route, .. } => format!("sort {kind:?} route {route} {} {}", s.desc(), describe(ins)),
        }
    }

    pub fn write(src: &mut Src, z: Size) -> Result<Scen, String> {
        let (cfg, e) = match (src.weighted(&[4, 4, 2]), z) {
            (0, _) => {
                let c = src.span(|s| cfg(s, CFG_ANY));
                // a large block never ends: keep the entries few
                let e = size_entries(src, z, 1024);
                (c, e)
            }
            (1, Size::Large) => c01::deep_gen(src),
            (2, Size::Large) => c01::mix_gen(src),
            _ => {
                let c = src.span(|s| cfg(s, CFG_DEEP));
                let e = size_entries(src, z, 1024);
                (c, e)
            }
        };
        let how = match src.weighted(&[4, 2, 1, 3]) {
            0 => How::IntoInner,
            1 => How::Finish,
            2 => How::BufInto(src.pick(&[16usize, 512, 8192, 1 << 20])),
            _ => How::BufFinish(src.pick(&[1usize, 16, 512, 8192, 1 << 20])),
        };
        Ok(Scen::Write { cfg, e, how })
    }

    pub fn read(src: &mut Src, z: Size) -> Result<Scen, String> {
        let (desc, e, data) = gen_file(src, z)?;
        let max = match z {
            Size::Tiny => 12,
            Size::Small => 30,
            Size::Large => 120,
        };
        let steps = src.list(1, max, |s| {
            let w = s.below(1 << 16) as usize;
            let st = if s.chance(1, 12) { Step::Clone } else { Step::Op(c03::gen_op(s, &e)) };
            (w, st)
        });
        Ok(Scen::Read { desc, data, steps, shared_pos: src.chance(1, 3) })
    }

    pub fn iter(src: &mut Src, z: Size) -> Result<Scen, String> {
        let (desc, e, data) = gen_file(src, z)?;
        Ok(Scen::Iter {
            desc,
            data,
            kind: src.index(4),
            lo: if src.chance(1, 3) { Bound::Unbounded } else { c04::gen_bound(src, &e) },
            hi: if src.chance(1, 3) { Bound::Unbounded } else { c04::gen_bound(src, &e) },
            prefix: c05::gen_prefix(src, &e),
            limit: e.len() + 2,
        })
    }

    pub fn merge(src: &mut Src, z: Size) -> Result<Scen, String> {
        let n = src.range(0, if z == Size::Tiny { 3 } else { 6 }) as usize;
        let mut files = Vec::new();
        let mut descs = Vec::new();
        let shared = if src.chance(2, 3) { Some(size_entries(src, z, 1024)) } else { None };
        for _ in 0..n {
            let (d, f) = match &shared {
                // overlapping keys: subsets of one set
                Some(all) => {
                    let mut rng = Rng::new(src.seed());
                    let e: Entries = all
                        .iter()
                        .filter_map(|(k, v)| {
                            let mut v = v.clone();
                            v.push(rng.next() as u8);
                            (rng.below(3) > 0).then(|| (k.clone(), v))
                        })
                        .collect();
                    let c = src.span(|s| cfg(s, CFG_DEEP));
                    let f = file(&c, &e)?;
                    (format!("{} {}", c.desc(), describe(&e)), Rc::new(f))
                }
                None => {
                    let (d, _, f) = gen_file(src, if z == Size::Large { Size::Small } else { Size::Tiny })?;
                    (d, f)
                }
            };
            descs.push(d);
            files.push(f);
        }
        let kind = src.pick(&MERGE_KINDS);
        let out = if src.chance(1, 2) { Some(src.span(|s| cfg(s, CFG_DEEP))) } else { None };
        Ok(Scen::Merge { desc: descs.join(" | "), files, kind, out, shared_pos: src.chance(1, 4) })
    }

    pub fn sort(src: &mut Src, z: Size) -> Result<Scen, String> {
        let mut s = src.span(sorterkit::small_scfg);
        s.storage = sorterkit::Storage::Sim;
        // the order of equal keys of a parallel unstable sort is not fixed
        if s.unstable {
            s.parallel = false;
        }
        if !cfg!(feature = "hook") {
            s.init = None;
        }
        let (n, vmax) = match z {
            Size::Tiny => (src.range(0, 12), 60),
            Size::Small => (src.range(0, 50), 200),
            Size::Large => (src.range(0, 300), 600),
        };
        // every dump may merge all chunks: bound the number of dumps
        let n = n.min(12 + s.threshold as u64 / 6);
        if z == Size::Tiny {
            s.threshold = s.threshold.min(1024);
            s.init = s.init.map(|i| i.min(s.threshold));
        }
        let keys = src.range(1, 40);
        let mut rng = Rng::new(src.seed());
        let klen = src.pick(&[1usize, 2, 4, 8, 30]);
        let ins = (0..n)
            .map(|_| {
                let id = rng.below(keys) as u8;
                let mut k = vec![id; 1 + rng.below(klen as u64) as usize];
                if rng.below(9) == 0 {
                    k.clear();
                }
                let v = (0..rng.below(vmax)).map(|_| rng.next() as u8).collect();
                (k, v)
            })
            .collect();
        Ok(Scen::Sort {
            s,
            kind: src.pick(&MERGE_KINDS),
            ins,
            out: src.span(|x| cfg(x, CFG_DEEP)),
            route: src.index(sorterkit::ROUTES),
        })
    }

    pub fn any(src: &mut Src, z: Size) -> Result<Scen, String> {
        match src.weighted(&[4, 3, 2, 3, 5]) {
            0 => Scen::write(src, z),
            1 => Scen::read(src, z),
            2 => Scen::iter(src, z),
            3 => Scen::merge(src, z),
            _ => Scen::sort(src, z),
        }
    }

    pub fn run(&self, io: &Io, tolerant: bool) -> Trace {
        let mut r = Run { io, tolerant, t: Trace::default() };
        // the result only says how far the scenario went
        let _ = self.go(&mut r);
        r.t
    }

    fn go(&self, r: &mut Run) -> Option<()> {
        let io = r.io.clone();
        match self {
            Scen::Write { cfg, e, how } => {
                let sink = Sink::new(io);
                let done = match how {
                    How::IntoInner => {
                        let mut w = cfg.builder().build(sink.clone());
                        inserts(r, &mut w, e).and_then(|_| {
                            r.call("Writer::into_inner", || Ok(w.into_inner()?), |s| Out::Num(s.len() as u64)).map(drop)
                        })
                    }
                    How::Finish => {
                        let mut w = cfg.builder().build(sink.clone());
                        inserts(r, &mut w, e)
                            .and_then(|_| r.call("Writer::finish", || Ok(w.finish()?), |_| Out::Unit).map(drop))
                    }
                    How::BufInto(n) => {
                        let mut w = cfg.builder().build(BufWriter::with_capacity(*n, sink.clone()));
                        inserts(r, &mut w, e).and_then(|_| {
                            r.call("Writer::into_inner", || Ok(w.into_inner()?), |b| Out::Num(b.get_ref().len() as u64))
                                .map(drop)
                        })
                    }
                    How::BufFinish(n) => {
                        let mut w = cfg.builder().build(BufWriter::with_capacity(*n, sink.clone()));
                        inserts(r, &mut w, e)
                            .and_then(|_| r.call("Writer::finish", || Ok(w.finish()?), |_| Out::Unit).map(drop))
                    }
                };
                if done.is_some() {
                    r.t.calls.push(("bytes received", Out::Bytes(sink.bytes())));
                    // flushed after the last byte, before the sink is handed back
                    r.t.calls.push(("bytes flushed", Out::Num(sink.flushed.get())));
                }
                done
            }
            Scen::Read { data, steps, shared_pos, .. } => {
                let mut source = Source::new(io, data.clone());
                source.shared_pos = *shared_pos;
                let first = open(r, source)?;
                let mut cursors = vec![first];
                for (w, st) in steps {
                    let w = w % cursors.len();
                    match st {
                        Step::Clone => {
                            if cursors.len() < 4 {
                                let c = cursors[w].clone();
                                cursors.push(c);
                            }
                        }
                        Step::Op(op) => {
                            step(r, &mut cursors[w], op)?;
                        }
                    }
                }
                Some(())
            }
            Scen::Iter { data, kind, lo, hi, prefix, limit, .. } => {
                let source = Source::new(io, data.clone());
                let reader = r.call("Reader::new", || Ok(Reader::new(source)?), |x| Out::Num(x.len()))?;
                let range = (lo.clone(), hi.clone());
                macro_rules! drive {
                    ($open:expr, $a:literal, $b:literal) => {{
                        let mut it = r.call($a, || Ok($open?), |_| Out::Unit)?;
                        for _ in 0..*limit {
                            if r.pair($b, || it.next().map(own))?.is_none() {
                                break;
                            }
                        }
                    }};
                }
                match kind {
                    0 => drive!(reader.into_range_iter(range), "into_range_iter", "RangeIter::next"),
                    1 => drive!(reader.into_rev_range_iter(range), "into_rev_range_iter", "RevRangeIter::next"),
                    2 => drive!(reader.into_prefix_iter(prefix.clone()), "into_prefix_iter", "PrefixIter::next"),
                    _ => drive!(reader.into_rev_prefix_iter(prefix.clone()), "into_rev_prefix_iter", "RevPrefixIter::next"),
                }
                Some(())
            }
            Scen::Merge { files, kind, out, shared_pos, .. } => {
                let mut cursors = Vec::new();
                let mut cap = 0;
                for f in files {
                    let mut source = Source::new(io.clone(), f.clone());
                    source.shared_pos = *shared_pos;
                    let c = open(r, source)?;
                    cap += c.len();
                    cursors.push(c);
                }
                let merge = Merge { kind: *kind, log: None, io: Some(io.clone()) };
                let mut b = match files.len() % 2 {
                    0 => Merger::builder(adapted(&merge, files.len() / 2)),
                    _ => MergerBuilder::new(adapted(&merge, files.len() / 2)),
                };
                b.extend(cursors);
                let merger = b.build();
                match out {
                    Some(cfg) => {
                        let sink = Sink::new(io);
                        let mut w = cfg.builder().build(sink.clone());
                        r.call("Merger::write_into_stream_writer", || Ok(merger.write_into_stream_writer(&mut w)?), |_| Out::Unit)?;
                        r.call("Writer::into_inner", || Ok(w.into_inner()?), |s| Out::Bytes(s.bytes()))?;
                    }
                    None => {
                        let it = r.call("Merger::into_stream_merger_iter", || Ok(merger.into_stream_merger_iter()?), |_| Out::Unit)?;
                        drain(r, it, cap)?;
                    }
                }
                Some(())
            }
            Scen::Sort { s, kind, ins, out, route } => {
                let merge = Merge { kind: *kind, log: None, io: Some(io.clone()) };
                let mut sorter = s.build(adapted(&merge, ins.len()), Creator { io: io.clone() });
                for (k, v) in ins {
                    r.call("Sorter::insert", || Ok(sorter.insert(k, v)?), |_| Out::Unit)?;
                }
                match route {
                    0 => {
                        let it = r.call("Sorter::into_stream_merger_iter", || Ok(sorter.into_stream_merger_iter()?), |_| Out::Unit)?;
                        drain(r, it, ins.len() as u64)?;
                    }
                    1 => {
                        let sink = Sink::new(io);
                        let mut w = out.builder().build(sink.clone());
                        r.call("Sorter::write_into_stream_writer", || Ok(sorter.write_into_stream_writer(&mut w)?), |_| Out::Unit)?;
                        r.call("Writer::into_inner", || Ok(w.into_inner()?), |s| Out::Bytes(s.bytes()))?;
                    }
                    _ => {
                        let mut cursors = r.call("Sorter::into_reader_cursors", || Ok(sorter.into_reader_cursors()?), |c| Out::Num(c.len() as u64))?;
                        if let Some(c) = cursors.first_mut() {
                            step(r, c, &c03::Op::Last)?;
                            step(r, c, &c03::Op::Prev)?;
                            c.reset();
                        }
                        let mut b = Merger::builder(adapted(&merge, ins.len() + 1));
                        b.extend(cursors);
                        let it = r.call("Merger::into_stream_merger_iter", || Ok(b.build().into_stream_merger_iter()?), |_| Out::Unit)?;
                        drain(r, it, ins.len() as u64)?;
                    }
                }
                Some(())
            }
        }
    }
}

fn inserts<W: Write>(r: &mut Run, w: &mut Writer<W>, e: &Entries) -> Option<()> {
    for (k, v) in e {
        r.call("Writer::insert", || Ok(w.insert(k, v)?), |_| Out::Unit)?;
    }
    Some(())
}

fn open<R: Read + Seek>(r: &mut Run, source: R) -> Option<ReaderCursor<R>> {
    let reader = r.call("Reader::new", || Ok(Reader::new(source)?), |x| {
        Out::Text(format!("{:?} {:?} {} entries", x.file_version(), x.compression_type(), x.len()))
    })?;
    r.call("Reader::into_cursor", || Ok(reader.into_cursor()?), |_| Out::Unit)
}

fn step<R: Read + Seek>(r: &mut Run, c: &mut ReaderCursor<R>, op: &c03::Op) -> Option<()> {
    use c03::Op::*;
    match op {
        First => r.pair("move_on_first", || c.move_on_first().map(own)).map(drop),
        Last => r.pair("move_on_last", || c.move_on_last().map(own)).map(drop),
        Next => r.pair("move_on_next", || c.move_on_next().map(own)).map(drop),
        Prev => r.pair("move_on_prev", || c.move_on_prev().map(own)).map(drop),
        Ge(q) => r.pair("move_on_key_greater_than_or_equal_to", || c.move_on_key_greater_than_or_equal_to(q).map(own)).map(drop),
        Le(q) => r.pair("move_on_key_lower_than_or_equal_to", || c.move_on_key_lower_than_or_equal_to(q).map(own)).map(drop),
        Eq(q) => r.pair("move_on_key_equal_to", || c.move_on_key_equal_to(q).map(own)).map(drop),
        Reset => {
            c.reset();
            Some(())
        }
        Current => r.pair("current", || Ok::<_, Fail>(own(c.current()))).map(drop),
    }
}

fn drain<R: Read + Seek, MF: grenad::MergeFunction<Error = MergeFault>>(r: &mut Run, mut it: MergerIter<R, MF>, cap: u64) -> Option<()> {
    for _ in 0..=cap {
        if r.pair("MergerIter::next", || it.next().map(own))?.is_none() {
            return Some(());
        }
    }
    r.t.fail = Some(("MergerIter::next", Fail::Panic(format!("more than {cap} entries come out"))));
    None
}
