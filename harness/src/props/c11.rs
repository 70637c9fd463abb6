//! C11: results and emitted bytes do not depend on how transfers are split or interrupted.

use crate::engine::*;
use crate::ensure;
use crate::gen::*;
use crate::props::c01;
use crate::scen::*;
use crate::sim::*;
use crate::util::*;
use std::io::{ErrorKind, Write};
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "a case is a scenario (write, read, iterate, merge or sort) run over plain I/O and again over split and \
               interrupted I/O; non-trivial when at least one transfer was actually split or interrupted; distinct by \
               choice sequence; 'schedules' in the classes counts the compared runs",
        assumptions: &[
            "only read and write calls are split or interrupted (seek and flush either succeed or fail, see C12)",
            "at most three interruptions in a row",
            "a parallel unstable sort is not compared: the order of equal keys is not fixed there",
        ],
        phases: vec![
            Phase::random("schedules", 12_000, 400_000, schedules),
            Phase::random("every-call", 2_500, 100_000, every_call),
            Phase::random("large", 600, 20_000, large),
            Phase::enumerate("codec-blocks", c01::BE, c01::BE * 8, codec_blocks),
            Phase::enumerate("jumbo", 6, 12, jumbo).threads(4),
        ],
    }
}

fn split(src: &mut Src) -> Split {
    match src.weighted(&[3, 2, 3, 3, 2]) {
        0 => Split { max: 1, short: 0, intr: 0 },
        1 => Split { max: 1, short: 0, intr: 128 },
        2 => Split { max: src.range(2, 40) as usize, short: src.pick(&[0u32, 128]), intr: src.pick(&[0u32, 20, 200]) },
        3 => Split { max: 0, short: src.pick(&[30u32, 128, 255]), intr: src.pick(&[0u32, 20, 200]) },
        _ => Split { max: 0, short: 0, intr: src.pick(&[10u32, 128, 250]) },
    }
}

fn plain(sc: &Scen, ops: bool) -> Result<(Trace, Io), String> {
    let io = Io::plain();
    if ops {
        io.0.borrow_mut().ops = Some(Vec::new());
    }
    let t = sc.run(&io, true);
    if let Some((n, f)) = &t.fail {
        return Err(format!("over plain I/O: {n} failed with {f:?}"));
    }
    // an in-memory sink receives the same bytes
    if let (Scen::Write { cfg, e, .. }, Some((_, Out::Bytes(b)))) = (sc, t.calls.iter().find(|(n, _)| *n == "bytes received")) {
        let m = file(cfg, e)?;
        ensure!(*b == m, "{} bytes reached the sink, {} an in-memory sink, or they differ", b.len(), m.len());
    }
    Ok((t, io))
}

fn compare(ctx: &mut Ctx, sc: &Scen, (want, plain): (&Trace, &Io), io: Io, how: &str) -> CaseResult {
    io.bound_like(plain);
    let got = sc.run(&io, true);
    ctx.label("schedules");
    let s = io.0.borrow();
    if s.shorts + s.intrs > 0 || s.fail_at.is_some() {
        ctx.nontrivial();
    }
    ctx.count("short transfers", s.shorts);
    ctx.count("interruptions", s.intrs);
    if let Some(d) = got.diff(want) {
        return Err(format!("{} over {how} differs from plain I/O: {d}", sc.kind()));
    }
    Ok(())
}

fn random_schedules(src: &mut Src, ctx: &mut Ctx, sc: &Scen, n: usize) -> CaseResult {
    ctx.label(sc.kind());
    ctx.sample(|| sc.desc());
    let (want, io0) = plain(sc, false)?;
    let (again, _) = plain(sc, false)?;
    if let Some(d) = again.diff(&want) {
        return Err(format!("a second run differs from the first: {d}"));
    }
    for _ in 0..n {
        let (sp, seed) = src.span(|s| (split(s), s.seed()));
        compare(ctx, sc, (&want, &io0), Io::new(sp, seed), &format!("{sp:?}"))?;
    }
    Ok(())
}

fn schedules(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let z = src.pick(&[Size::Small, Size::Tiny, Size::Small]);
    let sc = Scen::any(src, z)?;
    random_schedules(src, ctx, &sc, 4)
}

fn large(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sc = Scen::any(src, Size::Large)?;
    random_schedules(src, ctx, &sc, 2)
}

/// One single call interrupted or shortened, for every call.
fn every_call(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sc = Scen::any(src, Size::Tiny)?;
    ctx.label(sc.kind());
    ctx.sample(|| sc.desc());
    let (want, io0) = plain(&sc, true)?;
    let ops = io0.0.borrow_mut().ops.take().unwrap();
    let step = (ops.len() as u64 / 150).max(1);
    let phase = src.below(step);
    for (k, op) in ops.iter().enumerate() {
        if !matches!(op, Op::Read | Op::Write) || k as u64 % step != phase {
            continue;
        }
        for f in [Fault::Kind(ErrorKind::Interrupted), Fault::Short(1), Fault::Short(2 + src.index(9))] {
            let io = Io::plain();
            io.0.borrow_mut().fail_at = Some((k as u64, f));
            compare(ctx, &sc, (&want, &io0), io, &format!("call {k} ({op:?}) {f:?}"))?;
        }
    }
    Ok(())
}

/// Writes and scans one file under schedules.
fn file_schedules(src: &mut Src, ctx: &mut Ctx, cfg: Cfg, e: Entries, splits: &[Split]) -> CaseResult {
    ctx.sample(|| format!("{} {}", cfg.desc(), describe(&e)));
    let bytes = Rc::new(file(&cfg, &e)?);
    for sp in splits {
        let io = Io::new(*sp, src.seed());
        {
            let mut s = io.0.borrow_mut();
            s.write_cap = bytes.len() as u64 + (1 << 20);
            s.call_cap = 64 * bytes.len() as u64 + 100_000;
        }
        let sink = Sink::new(io.clone());
        let mut w = cfg.builder().build(sink.clone());
        for (k, v) in &e {
            w.insert(k, v).map_err(|x| format!("insert over {sp:?}: {x}"))?;
        }
        w.into_inner().and_then(|mut s| s.flush()).map_err(|x| format!("into_inner over {sp:?}: {x}"))?;
        ensure!(*sink.data.borrow() == *bytes, "the bytes emitted over {sp:?} differ from those emitted into memory");
        let io = Io::new(*sp, src.seed());
        // a forward and a backward scan, of which every block is read a few times
        io.0.borrow_mut().call_cap = 1024 * bytes.len() as u64 + 10_000_000;
        let r = grenad::Reader::new(Source::new(io.clone(), bytes.clone())).map_err(|x| format!("open over {sp:?}: {x}"))?;
        c01::check_scan(r, &e, &cfg).map_err(|x| format!("reading over {sp:?}: {x}"))?;
        ctx.label("schedules");
    }
    ctx.nontrivial();
    Ok(())
}

/// Blocks whose size is around the internal block sizes of the codecs.
fn codec_blocks(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = c01::block_edges_gen(src);
    let splits = [
        Split { max: src.pick(&[1usize, 2, 3, 5, 7]), short: 0, intr: 20 },
        Split { max: 0, short: 200, intr: 60 },
        Split { max: src.pick(&[4096usize, 8191, 65_537]), short: 20, intr: 0 },
    ];
    file_schedules(src, ctx, cfg, e, &splits)
}

fn jumbo(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (cfg, e) = c01::jumbo_gen(src);
    let splits = [Split { max: 0, short: 128, intr: 30 }, Split { max: 1000, short: 0, intr: 5 }];
    file_schedules(src, ctx, cfg, e, &splits)
}
