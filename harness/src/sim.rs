//! Instrumented, scheduled and faulty I/O objects, chunk creators and merge functions.

use crate::engine::Rng;
use crate::memprobe::exempt;
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::io::{self, Read, Seek, SeekFrom, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Op {
    Read,
    Write,
    Seek,
    Flush,
    Create,
    Merge,
}

/// How transfers are split and interrupted.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Split {
    /// Largest number of bytes transferred per call (0 = unlimited).
    pub max: usize,
    /// Probability (of 256) that a call transfers a random shorter piece.
    pub short: u32,
    /// Probability (of 256) that a call is interrupted.
    pub intr: u32,
}

pub const WHOLE: Split = Split { max: 0, short: 0, intr: 0 };

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Kind(io::ErrorKind),
    /// Raw OS error.
    Os(i32),
    /// `write` returns `Ok(0)`.
    ZeroWrite,
    /// The chunk creator's own error type: `grenad::Error` variants.
    BadVersion,
    BadCodec,
    /// Not a failure: a transfer of at most this many bytes.
    Short(usize),
    /// The component panics.
    Panic,
}

pub struct IoState {
    pub split: Split,
    rng: Rng,
    consecutive: u32,
    pub calls: u64,
    pub per_op: [u64; 6],
    /// Fail the k-th (0-based) call.
    pub fail_at: Option<(u64, Fault)>,
    /// Operation that failed.
    pub fired: Option<Op>,
    /// Also fail every later call.
    pub sticky: bool,
    pub call_cap: u64,
    /// Writes fail once this many bytes were accepted.
    pub write_cap: u64,
    pub written: u64,
    pub read: u64,
    pub log: Option<Vec<(Op, u64, u64)>>,
    pub ops: Option<Vec<Op>>,
    pub shorts: u64,
    pub intrs: u64,
    pub chunks_live: i64,
    pub chunks_max: i64,
    pub chunks_created: u64,
    /// bytes held by live chunks
    pub chunk_bytes: i64,
    /// Digest of the buffers handed to `read`, before they are filled.
    pub spy: Option<u64>,
}

#[derive(Clone)]
pub struct Io(pub Rc<RefCell<IoState>>);

pub const MARK: &str = "injected-fault-7f3a";

impl Io {
    pub fn new(split: Split, seed: u64) -> Io {
        Io(Rc::new(RefCell::new(IoState {
            split,
            rng: Rng::new(seed),
            consecutive: 0,
            calls: 0,
            per_op: [0; 6],
            fail_at: None,
            fired: None,
            sticky: false,
            call_cap: u64::MAX,
            write_cap: u64::MAX,
            written: 0,
            read: 0,
            log: None,
            ops: None,
            shorts: 0,
            intrs: 0,
            chunks_live: 0,
            chunks_max: 0,
            chunks_created: 0,
            chunk_bytes: 0,
            spy: None,
        })))
    }
    pub fn plain() -> Io {
        Io::new(WHOLE, 0)
    }
    pub fn calls(&self) -> u64 {
        self.0.borrow().calls
    }
    pub fn fired(&self) -> Option<Op> {
        self.0.borrow().fired
    }

    /// Accounts for one call; returns the fault to inject, if any.
    fn account(&self, op: Op) -> Option<Fault> {
        let mut s = self.0.borrow_mut();
        let k = s.calls;
        s.calls += 1;
        s.per_op[op as usize] += 1;
        if let Some(o) = &mut s.ops {
            o.push(op);
        }
        if s.calls > s.call_cap {
            drop(s);
            panic!("far more I/O calls than over plain I/O: no progress");
        }
        match s.fail_at {
            Some((at, Fault::Short(n))) => (k == at).then_some(Fault::Short(n)),
            Some((at, f)) if k == at || (s.sticky && k > at) => {
                if s.fired.is_none() {
                    s.fired = Some(op);
                }
                if f == Fault::Panic {
                    drop(s);
                    if !std::thread::panicking() {
                        panic!("{MARK}");
                    }
                    return None;
                }
                Some(f)
            }
            _ => None,
        }
    }

    fn err(f: Fault) -> io::Error {
        match f {
            Fault::Kind(k) => io::Error::new(k, MARK),
            Fault::Os(n) => io::Error::from_raw_os_error(n),
            _ => io::Error::new(io::ErrorKind::Other, MARK),
        }
    }

    /// A run that does the same work as this one is stopped when it moves far more than it.
    pub fn bound_like(&self, reference: &Io) {
        let r = reference.0.borrow();
        let mut s = self.0.borrow_mut();
        s.write_cap = r.written * 2 + (1 << 20);
        // transfers may be of one byte and interrupted three times each
        s.call_cap = 64 * (r.calls + r.written + r.read) + 100_000;
    }

    /// How many of `len` bytes this transfer may move.
    fn transfer(&self, op: Op, len: usize) -> io::Result<usize> {
        let n = self.transfer_inner(op, len)?;
        let mut s = self.0.borrow_mut();
        match op {
            Op::Read => s.read += n as u64,
            _ => s.written += n as u64,
        }
        if s.written > s.write_cap {
            let w = s.written;
            drop(s);
            panic!("{w} bytes written, far more than over plain I/O");
        }
        Ok(n)
    }

    fn transfer_inner(&self, op: Op, len: usize) -> io::Result<usize> {
        if let Some(f) = self.account(op) {
            if f == Fault::ZeroWrite && op == Op::Write {
                return Ok(0);
            }
            if let Fault::Short(n) = f {
                return Ok(n.min(len));
            }
            return Err(Io::err(f));
        }
        let mut s = self.0.borrow_mut();
        if len == 0 || s.split == WHOLE {
            return Ok(len);
        }
        if s.split.intr > 0 && s.consecutive < 3 {
            let r = s.rng.below(256) as u32;
            if r < s.split.intr {
                s.consecutive += 1;
                s.intrs += 1;
                return Err(io::Error::from(io::ErrorKind::Interrupted));
            }
        }
        s.consecutive = 0;
        let mut n = len;
        if s.split.max > 0 {
            n = n.min(s.split.max);
        }
        if n > 1 && s.split.short > 0 && (s.rng.below(256) as u32) < s.split.short {
            n = match s.rng.below(4) {
                0 => 1,
                1 => n - 1,
                2 => 1 + s.rng.below(n.min(9) as u64 - 1) as usize,
                _ => 1 + s.rng.below(n as u64) as usize,
            };
        }
        if n < len {
            s.shorts += 1;
        }
        Ok(n)
    }

    fn plain_call(&self, op: Op) -> io::Result<()> {
        match self.account(op) {
            Some(Fault::Short(_)) => Ok(()),
            Some(f) => Err(Io::err(f)),
            None => Ok(()),
        }
    }

    /// The library must only hand out initialised memory.
    fn spy(&self, buf: &[u8]) {
        if let Some(h) = &mut self.0.borrow_mut().spy {
            // a sample of it
            let step = buf.len() / 64 + 1;
            for b in buf.iter().step_by(step).chain(buf.iter().rev().take(8)) {
                *h = (*h ^ *b as u64).wrapping_mul(0x0100_0000_01b3);
            }
        }
    }

    fn log(&self, op: Op, a: u64, b: u64) {
        if let Some(l) = &mut self.0.borrow_mut().log {
            l.push((op, a, b));
        }
    }
}

// ---------------------------------------------------------------- sink

/// A sink whose content stays visible to the harness whatever happens to the writer.
#[derive(Clone)]
pub struct Sink {
    pub io: Io,
    pub data: Rc<RefCell<Vec<u8>>>,
    pub flushed: Rc<Cell<u64>>,
}

impl Sink {
    pub fn new(io: Io) -> Sink {
        Sink { io, data: Rc::new(RefCell::new(Vec::new())), flushed: Rc::new(Cell::new(u64::MAX)) }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.data.borrow().clone()
    }
    pub fn len(&self) -> usize {
        self.data.borrow().len()
    }
}

impl Write for Sink {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.io.transfer(Op::Write, buf.len())?;
        self.io.log(Op::Write, self.len() as u64, n as u64);
        self.data.borrow_mut().extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.io.plain_call(Op::Flush)?;
        self.flushed.set(self.len() as u64);
        Ok(())
    }
}

// ---------------------------------------------------------------- source

/// Seekable source; `Clone` shares the data, and the position too when `shared_pos` is set
/// (the behaviour of `&File` or of a dup'ed descriptor).
pub struct Source {
    pub io: Io,
    pub data: Rc<Vec<u8>>,
    pos: Rc<Cell<u64>>,
    pub shared_pos: bool,
}

impl Source {
    pub fn new(io: Io, data: Rc<Vec<u8>>) -> Source {
        Source { io, data, pos: Rc::new(Cell::new(0)), shared_pos: false }
    }
}

impl Clone for Source {
    fn clone(&self) -> Source {
        let pos = if self.shared_pos { self.pos.clone() } else { Rc::new(Cell::new(self.pos.get())) };
        Source { io: self.io.clone(), data: self.data.clone(), pos, shared_pos: self.shared_pos }
    }
}

pub fn do_seek(cur: u64, len: u64, from: SeekFrom) -> io::Result<u64> {
    let t = match from {
        SeekFrom::Start(n) => return Ok(n),
        SeekFrom::End(d) => len as i128 + d as i128,
        SeekFrom::Current(d) => cur as i128 + d as i128,
    };
    if t < 0 {
        return Err(io::Error::new(io::ErrorKind::InvalidInput, "invalid seek to a negative position"));
    }
    Ok(t as u64)
}

impl Read for Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.io.spy(buf);
        let pos = self.pos.get();
        let avail = (self.data.len() as u64).saturating_sub(pos) as usize;
        let want = avail.min(buf.len());
        let n = self.io.transfer(Op::Read, want)?;
        self.io.log(Op::Read, pos, n as u64);
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[pos as usize..pos as usize + n]);
            self.pos.set(pos + n as u64);
        }
        Ok(n)
    }
}

impl Seek for Source {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        self.io.plain_call(Op::Seek)?;
        let p = do_seek(self.pos.get(), self.data.len() as u64, from)?;
        self.pos.set(p);
        self.io.log(Op::Seek, p, 0);
        Ok(p)
    }
}

// ---------------------------------------------------------------- chunks

pub struct Chunk {
    pub io: Io,
    pub data: Vec<u8>,
    pos: u64,
}

impl Drop for Chunk {
    fn drop(&mut self) {
        if let Ok(mut s) = self.io.0.try_borrow_mut() {
            s.chunks_live -= 1;
            s.chunk_bytes -= self.data.capacity() as i64;
        }
        exempt(|| drop(std::mem::take(&mut self.data)));
    }
}

impl Read for Chunk {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.io.spy(buf);
        let avail = (self.data.len() as u64).saturating_sub(self.pos) as usize;
        let want = avail.min(buf.len());
        let n = self.io.transfer(Op::Read, want)?;
        if n > 0 {
            buf[..n].copy_from_slice(&self.data[self.pos as usize..self.pos as usize + n]);
            self.pos += n as u64;
        }
        Ok(n)
    }
}

impl Write for Chunk {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.io.transfer(Op::Write, buf.len())?;
        let before = self.data.capacity() as i64;
        let p = self.pos as usize;
        exempt(|| {
            if p > self.data.len() {
                self.data.resize(p, 0);
            }
            let over = n.min(self.data.len() - p);
            self.data[p..p + over].copy_from_slice(&buf[..over]);
            self.data.extend_from_slice(&buf[over..n]);
        });
        self.pos += n as u64;
        self.io.0.borrow_mut().chunk_bytes += self.data.capacity() as i64 - before;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.io.plain_call(Op::Flush)
    }
}

impl Seek for Chunk {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        self.io.plain_call(Op::Seek)?;
        self.pos = do_seek(self.pos, self.data.len() as u64, from)?;
        Ok(self.pos)
    }
}

#[derive(Clone)]
pub struct Creator {
    pub io: Io,
}

impl grenad::ChunkCreator for Creator {
    type Chunk = Chunk;
    type Error = grenad::Error;

    fn create(&self) -> Result<Chunk, grenad::Error> {
        if let Some(f) = self.io.account(Op::Create).filter(|f| !matches!(f, Fault::Short(_))) {
            return Err(match f {
                Fault::BadVersion => grenad::Error::InvalidFormatVersion,
                Fault::BadCodec => grenad::Error::InvalidCompressionType,
                f => grenad::Error::Io(Io::err(f)),
            });
        }
        let mut s = self.io.0.borrow_mut();
        s.chunks_live += 1;
        s.chunks_max = s.chunks_max.max(s.chunks_live);
        s.chunks_created += 1;
        drop(s);
        Ok(Chunk { io: self.io.clone(), data: Vec::new(), pos: 0 })
    }
}

// ---------------------------------------------------------------- merge functions

#[derive(Debug, PartialEq, Clone)]
pub struct MergeFault(pub u64);

impl std::fmt::Display for MergeFault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "merge fault {}", self.0)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum MergeKind {
    /// Concatenation, always owned.
    Concat,
    /// Concatenation, borrowed for lone values.
    ConcatCow,
    First,
    Last,
    /// Smallest value (commutative, associative, idempotent).
    Min,
    /// Byte-wise longest then first.
    Longest,
    /// Concatenation that counts the empty values too: among several values an empty one counts as one byte.
    Marker,
    /// Lone values unchanged, else "(a,b,..)": neither associative nor commutative.
    Bracket,
    /// Smallest or largest value, depending on the key.
    ByKey,
}

fn takes_max(key: &[u8]) -> bool {
    crate::util::fnv(key) >> 7 & 1 == 1
}

fn bracket(values: &[&[u8]]) -> Vec<u8> {
    let mut v = b"(".to_vec();
    for (i, x) in values.iter().enumerate() {
        if i > 0 {
            v.push(b',');
        }
        v.extend_from_slice(x);
    }
    v.push(b')');
    v
}

pub const MERGE_KINDS: [MergeKind; 8] = [
    MergeKind::Concat,
    MergeKind::ConcatCow,
    MergeKind::First,
    MergeKind::Last,
    MergeKind::Min,
    MergeKind::Longest,
    MergeKind::Marker,
    MergeKind::ByKey,
];

/// Stands for an empty value ([`MergeKind::Marker`]); no token starts with it.
pub const MARKER: u8 = 0xee;

fn marker(values: &[&[u8]]) -> Vec<u8> {
    let mut out = Vec::new();
    for v in values {
        match v {
            [] => out.push(MARKER),
            v => out.extend_from_slice(v),
        }
    }
    out
}

pub fn merge_model(kind: MergeKind, key: &[u8], values: &[&[u8]]) -> Vec<u8> {
    match kind {
        MergeKind::Concat | MergeKind::ConcatCow => values.concat(),
        MergeKind::First => values[0].to_vec(),
        MergeKind::Last => values[values.len() - 1].to_vec(),
        MergeKind::Min => values.iter().min().unwrap().to_vec(),
        MergeKind::ByKey if takes_max(key) => values.iter().max().unwrap().to_vec(),
        MergeKind::ByKey => values.iter().min().unwrap().to_vec(),
        MergeKind::Longest => {
            let m = values.iter().map(|v| v.len()).max().unwrap();
            values.iter().find(|v| v.len() == m).unwrap().to_vec()
        }
        MergeKind::Bracket | MergeKind::Marker => match values {
            [v] => v.to_vec(),
            _ if kind == MergeKind::Marker => marker(values),
            _ => bracket(values),
        },
    }
}

pub type MergeLog = Rc<RefCell<Vec<(Vec<u8>, Vec<Vec<u8>>)>>>;

/// Associative merge functions that return a lone value unchanged: all of [`MERGE_KINDS`].
/// A deterministic merge function with an optional call log and fault.
#[derive(Clone)]
pub struct Merge {
    pub kind: MergeKind,
    pub log: Option<MergeLog>,
    pub io: Option<Io>,
}

impl Merge {
    pub fn new(kind: MergeKind) -> Merge {
        Merge { kind, log: None, io: None }
    }
    pub fn logged(kind: MergeKind) -> (Merge, MergeLog) {
        let log: MergeLog = Rc::new(RefCell::new(Vec::new()));
        (Merge { kind, log: Some(log.clone()), io: None }, log)
    }
}

/// A merge function behind the adaptors of the crate.
pub type Adapted<'a> = either::Either<Merge, either::Either<&'a Merge, Merge>>;

pub fn adapted(m: &Merge, how: usize) -> Adapted<'_> {
    use either::Either::{Left, Right};
    match how % 3 {
        0 => Left(m.clone()),
        1 => Right(Left(m)),
        _ => Right(Right(m.clone())),
    }
}

impl grenad::MergeFunction for Merge {
    type Error = MergeFault;

    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, MergeFault> {
        if let Some(l) = &self.log {
            l.borrow_mut().push((key.to_vec(), values.iter().map(|v| v.to_vec()).collect()));
        }
        if let Some(io) = &self.io {
            let k = io.calls();
            if io.account(Op::Merge).is_some_and(|f| !matches!(f, Fault::Short(_))) {
                return Err(MergeFault(k));
            }
        }
        let pos = |f: &dyn Fn(&[u8]) -> bool| values.iter().position(|v| f(v)).unwrap();
        Ok(match self.kind {
            MergeKind::Concat => Cow::Owned(values.iter().flat_map(|v| v.iter().copied()).collect()),
            MergeKind::ConcatCow => {
                if values.len() == 1 {
                    values[0].clone()
                } else {
                    Cow::Owned(values.iter().flat_map(|v| v.iter().copied()).collect())
                }
            }
            MergeKind::First => values[0].clone(),
            MergeKind::Last => values[values.len() - 1].clone(),
            MergeKind::Min => {
                let m = values.iter().min().unwrap().to_vec();
                values[pos(&|v| v == m.as_slice())].clone()
            }
            MergeKind::ByKey => {
                let all = values.iter().map(|v| v.as_ref());
                let m: &[u8] = if takes_max(key) { all.max() } else { all.min() }.unwrap();
                values[pos(&|v| v == m)].clone()
            }
            MergeKind::Longest => {
                let m = values.iter().map(|v| v.len()).max().unwrap();
                values[pos(&|v| v.len() == m)].clone()
            }
            MergeKind::Bracket | MergeKind::Marker => {
                if values.len() == 1 {
                    values[0].clone()
                } else {
                    let refs: Vec<&[u8]> = values.iter().map(|v| v.as_ref()).collect();
                    Cow::Owned(if self.kind == MergeKind::Marker { marker(&refs) } else { bracket(&refs) })
                }
            }
        })
    }
}

// ---------------------------------------------------------------- sparse file

/// An append-only file that stores long runs of zeros as a length only.
#[derive(Default, Clone)]
pub struct Sparse {
    /// (start, data or None for zeros, length)
    segs: Rc<RefCell<Vec<(u64, Option<Vec<u8>>, u64)>>>,
    len: Rc<Cell<u64>>,
}

impl Sparse {
    pub fn len(&self) -> u64 {
        self.len.get()
    }
    fn push(&self, data: &[u8], zeros: bool) {
        let start = self.len.get();
        let mut segs = self.segs.borrow_mut();
        self.len.set(start + data.len() as u64);
        if let Some((_, d, n)) = segs.last_mut() {
            match (d, zeros) {
                (None, true) => {
                    *n += data.len() as u64;
                    return;
                }
                (Some(d), false) => {
                    d.extend_from_slice(data);
                    *n += data.len() as u64;
                    return;
                }
                _ => {}
            }
        }
        segs.push((start, (!zeros).then(|| data.to_vec()), data.len() as u64));
    }
    pub fn reader(&self) -> SparseReader {
        SparseReader { f: self.clone(), pos: 0 }
    }
    pub fn fetch(&self, pos: u64, out: &mut [u8]) -> usize {
        let segs = self.segs.borrow();
        let mut done = 0;
        let mut pos = pos;
        while done < out.len() && pos < self.len.get() {
            let i = segs.partition_point(|(s, _, _)| *s <= pos) - 1;
            let (s, d, n) = &segs[i];
            let off = pos - s;
            let m = ((n - off) as usize).min(out.len() - done);
            match d {
                Some(d) => out[done..done + m].copy_from_slice(&d[off as usize..off as usize + m]),
                None => out[done..done + m].fill(0),
            }
            done += m;
            pos += m as u64;
        }
        done
    }
}

impl Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        const B: usize = 1 << 16;
        for c in buf.chunks(B) {
            let (pre, mid, post) = unsafe { c.align_to::<u64>() };
            let zeros = c.len() == B && pre.iter().chain(post).all(|x| *x == 0) && mid.iter().all(|x| *x == 0);
            self.push(c, zeros);
        }
        Ok(buf.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

impl crate::decode::ReadAt for Sparse {
    fn len(&self) -> u64 {
        self.len.get()
    }
    fn read_at(&self, off: u64, len: u64) -> Result<Vec<u8>, String> {
        if off.checked_add(len).is_none_or(|e| e > self.len.get()) {
            return Err("read beyond the end".into());
        }
        let mut v = vec![0; len as usize];
        self.fetch(off, &mut v);
        Ok(v)
    }
}

#[derive(Clone)]
pub struct SparseReader {
    f: Sparse,
    pos: u64,
}

impl Read for SparseReader {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.f.fetch(self.pos, buf);
        self.pos += n as u64;
        Ok(n)
    }
}

impl Seek for SparseReader {
    fn seek(&mut self, from: SeekFrom) -> io::Result<u64> {
        self.pos = do_seek(self.pos, self.f.len(), from)?;
        Ok(self.pos)
    }
}
