//! C03: cursor histories against a (sorted list, logical position) model.

use crate::engine::*;
use crate::gen::*;
use crate::sim::*;
use crate::util::*;
use grenad::{Reader, ReaderCursor};
use std::io::{Cursor, Read, Seek};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "a case is a file and an operation history over one or more (cloned) cursors; non-trivial when the file \
               has at least four entries and the history contains an absolute move after a relative one; distinct by \
               choice sequence; the exhaustive phase counts one case per (file, first operation) subtree",
        assumptions: &[
            "relative moves issued after an operation returned None are unspecified until the next absolute move or reset",
            "after a reset 'current' is None",
        ],
        phases: vec![
            Phase::random("histories", 40_000, 1_500_000, histories),
            Phase::random("walks", 6_000, 200_000, walks),
            Phase::random("after-failure", 12_000, 400_000, after_failure),
            Phase::enumerate("exhaustive", EX_FILES * 24, EX_FILES * 24, exhaustive),
            Phase::enumerate("jumbo", 4, 16, jumbo).threads(4),
        ],
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    First,
    Last,
    Next,
    Prev,
    Ge(Vec<u8>),
    Le(Vec<u8>),
    Eq(Vec<u8>),
    Reset,
    Current,
}

impl Op {
    pub fn show(&self) -> String {
        match self {
            Op::Ge(q) => format!("ge({})", hx(q)),
            Op::Le(q) => format!("le({})", hx(q)),
            Op::Eq(q) => format!("eq({})", hx(q)),
            o => format!("{o:?}").to_lowercase(),
        }
    }
}

/// What `current` must be.
#[derive(Clone, Debug, PartialEq)]
enum Cur {
    /// The last returned entry (None: never positioned or reset).
    Entry(Option<usize>),
    /// Left unspecified.
    Any,
    /// After a miss of an `eq` / `le` seek: the last returned entry by the statement; grenad points at `actual`.
    Miss { stated: Option<usize>, actual: usize, sig: &'static str },
    /// The bytes returned by an unspecified relative move.
    Bytes(Vec<u8>, Vec<u8>),
}

#[derive(Clone, Debug)]
pub struct Model {
    pos: Option<usize>,
    /// The last move returned None: relative moves are unspecified.
    after_none: bool,
    /// An operation failed since the last absolute move that returned an entry, or reset.
    after_err: bool,
    /// One of them was a lower-or-equal seek.
    err_le: bool,
    cur: Cur,
}

impl Default for Model {
    fn default() -> Model {
        Model { pos: None, after_none: false, after_err: false, err_le: false, cur: Cur::Entry(None) }
    }
}

impl Model {
    /// Applies `op` to the real cursor and checks it.
    pub fn step<R: Read + Seek>(
        &mut self,
        c: &mut ReaderCursor<R>,
        e: &Entries,
        op: &Op,
        ctx: &mut Ctx,
    ) -> Result<(), String> {
        self.step_over(c, e, op, ctx, &|| false)
    }

    /// The same over a source that can fail: `failed` tells whether it did.
    fn step_over<R: Read + Seek>(
        &mut self,
        c: &mut ReaderCursor<R>,
        e: &Entries,
        op: &Op,
        ctx: &mut Ctx,
        failed: &dyn Fn() -> bool,
    ) -> Result<(), String> {
        let n = e.len();
        let relative = matches!(op, Op::Next | Op::Prev);
        let want = match op {
            Op::First => (n > 0).then_some(0),
            Op::Last => n.checked_sub(1),
            Op::Next => self.pos.map_or((n > 0).then_some(0), |p| (p + 1 < n).then_some(p + 1)),
            Op::Prev => self.pos.map_or(n.checked_sub(1), |p| p.checked_sub(1)),
            Op::Ge(q) => ceil_idx(e, q),
            Op::Le(q) => floor_idx(e, q),
            Op::Eq(q) => eq_idx(e, q),
            Op::Reset => {
                c.reset();
                *self = Model::default();
                return Ok(());
            }
            Op::Current => return self.check_current(c, e, ctx),
        };
        let got = match op {
            Op::First => c.move_on_first(),
            Op::Last => c.move_on_last(),
            Op::Next => c.move_on_next(),
            Op::Prev => c.move_on_prev(),
            Op::Ge(q) => c.move_on_key_greater_than_or_equal_to(q),
            Op::Le(q) => c.move_on_key_lower_than_or_equal_to(q),
            Op::Eq(q) => c.move_on_key_equal_to(q),
            _ => unreachable!(),
        };
        let got = match got {
            Ok(got) => got,
            // the position stays the one of the last operation that returned an entry
            Err(_) if failed() => {
                self.after_err = true;
                self.err_le |= matches!(op, Op::Le(_));
                ctx.label("failed operation");
                return Ok(());
            }
            Err(x) => return Err(format!("{} failed: {x}", op.show())),
        };
        if relative && self.after_none {
            ctx.label("unspecified relative move");
            self.cur = match got {
                Some((k, v)) => Cur::Bytes(k.to_vec(), v.to_vec()),
                None => Cur::Any,
            };
            return Ok(());
        }
        let want_e = entry(e, want);
        if relative && self.after_err && got != want_e {
            self.cur = match got {
                Some((k, v)) => Cur::Bytes(k.to_vec(), v.to_vec()),
                None => Cur::Any,
            };
            self.after_none = true;
            let got = hkv(got);
            return ctx.known("relative-after-error", || {
                format!("{} at position {:?} after a failed operation: got {got}, want {}", op.show(), self.pos, hkv(want_e))
            });
        }
        ensure!(got == want_e, "{} at position {:?}: got {}, want {}", op.show(), self.pos, hkv(got), hkv(want_e));
        match want {
            Some(i) => {
                let after_err = self.after_err && relative;
                *self = Model { pos: Some(i), after_none: false, after_err, err_le: false, cur: Cur::Entry(Some(i)) }
            }
            None => {
                if n > 0 {
                    self.after_none = true;
                    ctx.label("move returned None");
                }
                // `current` stays the last returned entry, if that is known
                let stated = match &self.cur {
                    Cur::Entry(p) => Some(*p),
                    Cur::Miss { stated, .. } => Some(*stated),
                    _ => None,
                };
                let actual = match op {
                    Op::Eq(q) => ceil_idx(e, q).map(|i| (i, "eq-miss-current")),
                    Op::Le(_) => (n > 0).then_some((0, "le-miss-current")),
                    _ => None,
                };
                self.cur = match (&self.cur, stated, actual) {
                    (_, Some(stated), Some((actual, sig))) => Cur::Miss { stated, actual, sig },
                    // a miss that moves nothing leaves whatever was there
                    (c, _, None) => c.clone(),
                    (_, None, Some(_)) => Cur::Any,
                };
            }
        }
        Ok(())
    }

    pub fn check_current<R>(&self, c: &ReaderCursor<R>, e: &Entries, ctx: &mut Ctx) -> Result<(), String> {
        let got = c.current();
        let last = match &self.cur {
            Cur::Entry(p) => entry(e, *p),
            Cur::Bytes(k, v) => Some((&k[..], &v[..])),
            _ => got,
        };
        if self.err_le && got != last {
            return ctx.known("current-after-error", || {
                format!("current after a failed operation: got {}, the last returned entry is {}", hkv(got), hkv(last))
            });
        }
        match &self.cur {
            Cur::Miss { .. } if self.after_err => Ok(()),
            Cur::Any => Ok(()),
            Cur::Bytes(k, v) => {
                ensure!(got == Some((k, v)), "current: got {}, the last returned entry is {}", hkv(got), hkv(Some((k, v))));
                Ok(())
            }
            Cur::Entry(p) => {
                ensure!(got == entry(e, *p), "current: got {}, the last returned entry is {}", hkv(got), hkv(entry(e, *p)));
                Ok(())
            }
            Cur::Miss { stated, actual, sig } => {
                if got == entry(e, *stated) {
                    return Ok(());
                }
                if got == entry(e, Some(*actual)) {
                    return ctx.known(sig, || {
                        format!("current after a missed seek: got {}, the last returned entry is {}", hkv(got), hkv(entry(e, *stated)))
                    });
                }
                Err(format!("current after a missed seek: got {}, the last returned entry is {}", hkv(got), hkv(entry(e, *stated))))
            }
        }
    }
}

pub fn gen_op(src: &mut Src, e: &Entries) -> Op {
    match src.weighted(&[3, 3, 10, 10, 5, 5, 4, 2, 4]) {
        0 => Op::First,
        1 => Op::Last,
        2 => Op::Next,
        3 => Op::Prev,
        4 => Op::Ge(probe(src, e)),
        5 => Op::Le(probe(src, e)),
        6 => Op::Eq(probe(src, e)),
        7 => Op::Reset,
        _ => Op::Current,
    }
}

/// Key sets that need several blocks at several index levels with few entries.
pub fn deep_file(src: &mut Src) -> (Cfg, Entries) {
    let mut c = src.span(|s| cfg(s, CFG_DEEP));
    match src.weighted(&[5, 3]) {
        0 => {
            c.block = Some(1024);
            c.levels = Some(src.range(0, 5) as u8);
            let klen = src.range(100, 600) as usize;
            let n = src.range(0, 70) as usize;
            let vlen = src.pick(&[0usize, 10, 500, 1100]);
            let step = src.range(1, 3) as usize;
            let pad_front = src.chance(1, 2);
            let e = (0..n)
                .map(|i| {
                    let id = ((i * step) as u16).to_be_bytes();
                    let k = if pad_front { [vec![b'p'; klen], id.to_vec()].concat() } else { [id.to_vec(), vec![b'q'; klen]].concat() };
                    (k, vec![i as u8; vlen])
                })
                .collect();
            (c, e)
        }
        _ => {
            let e = entries(src, EntOpts::new(150, 60_000), 1024);
            (c, e)
        }
    }
}

fn histories(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut cfg, e) = deep_file(src);
    any_file(src, &mut cfg, ctx);
    let data = Rc::new(file(&cfg, &e)?);
    let mut s = Source::new(Io::plain(), data);
    s.shared_pos = src.chance(1, 3);
    let first = Reader::new(s).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())?;
    let mut cursors = vec![(first, Model::default())];
    let mut trace = Vec::new();
    let (mut rel, mut abs_after_rel) = (false, false);
    let max = if src.chance(1, 8) { 200 } else { 40 };
    let ops = src.list(1, max, |s| {
        let which = s.below(1 << 16) as usize;
        // bursts of relative moves cross blocks
        let (op, rep) = match s.weighted(&[24, 6, 2, 1]) {
            0 => (Some(gen_op(s, &e)), 1),
            1 => (Some(if s.chance(1, 2) { Op::Next } else { Op::Prev }), 1 + s.index(20)),
            2 => (None, 1),
            _ => (None, 2 + s.index(2)),
        };
        (which, op, rep)
    });
    for (which, op, rep) in ops {
        let w = which % cursors.len();
        match op {
            // a cursor made again from the reader, or the source, of a used one is never positioned
            None if rep > 1 => {
                let (c, _) = cursors.remove(w);
                trace.push(format!("{w}:into_{}", if rep == 2 { "reader" } else { "inner" }));
                let r = if rep == 2 { Ok(c.into_reader()) } else { Reader::new(c.into_inner()) };
                let c = r.and_then(|r| r.into_cursor()).map_err(|x| format!("opening the source of a used cursor: {x}"))?;
                cursors.insert(w, (c, Model::default()));
                ctx.label("rewrapped");
            }
            None if cursors.len() < 5 => {
                let c = cursors[w].0.clone();
                let m = cursors[w].1.clone();
                trace.push(format!("{w}:clone"));
                cursors.push((c, m));
                ctx.label("clone");
            }
            None => {}
            Some(op) => {
                for _ in 0..rep {
                    trace.push(format!("{w}:{}", op.show()));
                    ctx.note(|| trace.last().unwrap().clone());
                    let (c, m) = &mut cursors[w];
                    match op {
                        Op::Next | Op::Prev => rel = true,
                        Op::Current | Op::Reset => {}
                        _ => abs_after_rel |= rel,
                    }
                    if let Err(x) = m.step(c, &e, &op, ctx) {
                        ctx.sample(|| format!("{} | {} | {}", cfg.desc(), describe(&e), trace.join(" ")));
                        return Err(x);
                    }
                }
            }
        }
        // the other cursors did not move
        if which % 3 == 0 {
            let i = (which / 3) % cursors.len();
            let (c, m) = &cursors[i];
            m.check_current(c, &e, ctx)?;
        }
    }
    if cfg.levels_eff() >= 2 && e.len() > 6 {
        ctx.label("levels >= 2");
    }
    if e.len() >= 4 && abs_after_rel {
        ctx.nontrivial();
    }
    ctx.sample(|| {
        let t: Vec<_> = trace.iter().take(25).cloned().collect();
        format!("{} | {} | {} ops: {}..", cfg.desc(), describe(&e), trace.len(), t.join(" "))
    });
    Ok(())
}

/// Long relative walks over bigger files, interleaved with absolute moves.
fn walks(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
    any_file(src, &mut cfg, ctx);
    let e = entries(src, EntOpts::new(800, 300_000), 1024);
    let bytes = file(&cfg, &e)?;
    let mut c = Reader::new(Cursor::new(bytes.as_slice())).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())?;
    let mut m = Model::default();
    for _ in 0..src.range(2, 12) {
        let op = gen_op(src, &e);
        m.step(&mut c, &e, &op, ctx)?;
        let dir = if src.chance(1, 2) { Op::Next } else { Op::Prev };
        for _ in 0..src.log_range(0, e.len() as u64 + 2) {
            m.step(&mut c, &e, &dir, ctx)?;
            if m.after_none {
                break;
            }
        }
        m.step(&mut c, &e, &Op::Current, ctx)?;
    }
    if e.len() >= 4 {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{} | {} | walks", cfg.desc(), describe(&e)));
    Ok(())
}

/// A source which fails now and then: what follows does not depend on what the failed operation left behind.
fn after_failure(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    use std::io::ErrorKind::*;
    let (mut cfg, e) = deep_file(src);
    any_file(src, &mut cfg, ctx);
    let io = Io::plain();
    let mut s = Source::new(io.clone(), Rc::new(file(&cfg, &e)?));
    s.shared_pos = src.chance(1, 4);
    let first = Reader::new(s).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())?;
    let mut cursors = vec![(first, Model::default())];
    let mut trace = Vec::new();
    let mut failures = 0;
    let ops = src.list(2, 40, |s| {
        let which = s.index(1 << 8);
        let op = gen_op(s, &e);
        let rep = if matches!(op, Op::Next | Op::Prev) && s.chance(1, 3) { 1 + s.index(12) } else { 1 };
        let fault = s.chance(1, 3).then(|| (s.log_range(0, 40), s.pick(&[Other, UnexpectedEof, WouldBlock, InvalidData])));
        (which, op, rep, fault, s.chance(1, 12))
    });
    for (which, op, rep, fault, split) in ops {
        let w = which % cursors.len();
        if split && cursors.len() < 4 {
            cursors.push(cursors[w].clone());
            trace.push(format!("{w}:clone"));
        }
        // the failure is the (n+1)-th call from here
        {
            let mut i = io.0.borrow_mut();
            i.fired = None;
            i.fail_at = fault.map(|(n, k)| (i.calls + n, Fault::Kind(k)));
            if let Some((n, k)) = fault {
                trace.push(format!("[call {n} fails: {k:?}]"));
            }
        }
        for _ in 0..rep {
            trace.push(format!("{w}:{}", op.show()));
            ctx.note(|| trace.last().unwrap().clone());
            let (c, m) = &mut cursors[w];
            let before = io.fired().is_some();
            let r = m.step_over(c, &e, &op, ctx, &|| !before && io.fired().is_some());
            if let Err(x) = r {
                ctx.sample(|| format!("{} | {} | {}", cfg.desc(), describe(&e), trace.join(" ")));
                return Err(x);
            }
            if !before && io.fired().is_some() {
                failures += 1;
            }
        }
        let i = which / 5 % cursors.len();
        let (c, m) = &cursors[i];
        m.check_current(c, &e, ctx)?;
    }
    if failures > 0 && e.len() >= 4 {
        ctx.nontrivial();
    }
    ctx.sample(|| {
        let t: Vec<_> = trace.iter().take(25).cloned().collect();
        format!("{} | {} | {failures} failures: {}..", cfg.desc(), describe(&e), t.join(" "))
    });
    Ok(())
}

const EX_FILES: u64 = 12;

/// Every history up to a fixed length on small deep files, by cloning the cursor at each node.
fn exhaustive(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(EX_FILES * 24);
    let (file_no, first) = (i / 24, (i % 24) as usize);
    // (entries, key length, value length, levels): one or two entries per block, two or three children per index block
    let (n, klen, vlen, levels, interval) = [
        (0usize, 1usize, 0usize, 0u8, 8usize),
        (1, 5, 3, 0, 8),
        (1, 5, 3, 3, 8),
        (5, 3, 1100, 0, 1),
        (9, 400, 700, 1, 8),
        (9, 400, 700, 2, 1),
        (13, 400, 700, 3, 8),
        (17, 400, 700, 3, 1),
        (17, 400, 100, 2, 2),
        (12, 600, 10, 4, 8),
        (20, 300, 800, 2, 3),
        (30, 400, 650, 5, 8),
    ][file_no as usize];
    let cfg = Cfg { block: Some(1024), levels: Some(levels), interval: Some(interval), ..Cfg::plain() };
    let key = |j: usize| [vec![b'k'; klen], vec![(2 * j + 1) as u8]].concat();
    let e: Entries = (0..n).map(|j| (key(j), vec![j as u8; vlen])).collect();
    let bytes = file(&cfg, &e)?;
    let c = Reader::new(Cursor::new(bytes.as_slice())).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())?;
    let mut ops = vec![Op::First, Op::Last, Op::Next, Op::Prev, Op::Reset];
    let gap = |j: usize| [vec![b'k'; klen], vec![(2 * j) as u8]].concat();
    let ks = [0, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    for (a, j) in ks.into_iter().enumerate() {
        ops.push(Op::Ge(if a % 2 == 0 { key(j) } else { gap(j) }));
        ops.push(Op::Le(if a % 2 == 1 { key(j) } else { gap(j) }));
        if a % 2 == 0 {
            ops.push(Op::Eq(key(j)));
        }
    }
    ops.push(Op::Ge(gap(n)));
    ops.push(Op::Le(gap(n)));
    ops.push(Op::Eq(gap(n / 2)));
    if first >= ops.len() {
        return Ok(());
    }
    let depth = if ctx.thorough { 5 } else { 4 };
    let mut count = 0u64;
    let mut path = Vec::new();
    let r = dfs(&c, &Model::default(), &e, &ops, Some(first), depth, &mut path, &mut count, ctx);
    ctx.count("histories", count);
    ctx.nontrivial();
    ctx.sample(|| format!("{} | {} | {count} histories of length <= {depth} starting with {}", cfg.desc(), describe(&e), ops[first].show()));
    r.map_err(|x| {
        let p: Vec<String> = path.iter().map(|i: &usize| ops[*i].show()).collect();
        format!("{x}\nhistory: {}", p.join(" "))
    })
}

fn dfs<R: Read + Seek + Clone>(
    c: &ReaderCursor<R>,
    m: &Model,
    e: &Entries,
    ops: &[Op],
    first: Option<usize>,
    depth: usize,
    path: &mut Vec<usize>,
    count: &mut u64,
    ctx: &mut Ctx,
) -> Result<(), String> {
    for (i, op) in ops.iter().enumerate() {
        if first.is_some_and(|f| f != i) {
            continue;
        }
        // an unspecified move teaches nothing
        if m.after_none && matches!(op, Op::Next | Op::Prev) {
            continue;
        }
        let mut c2 = c.clone();
        let mut m2 = m.clone();
        path.push(i);
        *count += 1;
        m2.step(&mut c2, e, op, ctx)?;
        m2.check_current(&c2, e, ctx)?;
        if depth > 1 {
            dfs(&c2, &m2, e, ops, None, depth - 1, path, count, ctx)?;
        }
        path.pop();
    }
    Ok(())
}

fn jumbo(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(16);
    let (cfg, n, vlen) = match i % 4 {
        0 => (Cfg { block: Some(usize::MAX), interval: Some(1), ..Cfg::plain() }, 70_000u32, 4),
        1 => (Cfg { block: Some(1024), ..Cfg::plain() }, 66_000, 1100),
        2 => (Cfg { block: Some(1024), levels: Some(2), ..Cfg::plain() }, 120_000, 10),
        _ => (Cfg { block: Some(1500), levels: Some(5), interval: Some(2), ..Cfg::plain() }, 120_000, 10),
    };
    let e: Entries = (0..n).map(|i| ((i * 3 + 1).to_be_bytes().to_vec(), vec![(i % 251) as u8; vlen])).collect();
    let bytes = file(&cfg, &e)?;
    let mut c = Reader::new(Cursor::new(bytes.as_slice())).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())?;
    let mut m = Model::default();
    for _ in 0..400 {
        let q = src.below(3 * n as u64 + 3) as u32;
        let q = q.to_be_bytes().to_vec();
        let op = match src.index(7) {
            0 => Op::Ge(q),
            1 => Op::Le(q),
            2 => Op::Eq(q),
            3 => Op::First,
            4 => Op::Last,
            5 => Op::Next,
            _ => Op::Prev,
        };
        let reps = if matches!(op, Op::Next | Op::Prev) && !m.after_none { src.log_range(1, 600) } else { 1 };
        for _ in 0..reps {
            m.step(&mut c, &e, &op, ctx)?;
            if m.after_none {
                break;
            }
        }
    }
    ctx.nontrivial();
    ctx.sample(|| format!("{} | {} | 400 bursts", cfg.desc(), describe(&e)));
    Ok(())
}
