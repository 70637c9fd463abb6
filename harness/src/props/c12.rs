//! C12: any failure of a user-supplied component surfaces as an error of the call in progress.

use crate::engine::*;
use crate::scen::*;
use crate::sim::*;
use std::io::ErrorKind;

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a case is a scenario (write, read, iterate, merge or sort) whose every call to write / flush / read / seek / \
               create / merge is failed in turn; non-trivial when at least one fault was injected; distinct by choice \
               sequence; 'faults injected' in the classes counts the individual failing runs",
        assumptions: &[
            "Interrupted is injected only into flush, seek and create: a read or write reporting it is retried (C11)",
            "a write that accepts zero bytes must surface as WriteZero, as std::io::Write::write_all defines",
            "calls made after the failed one are not judged",
        ],
        phases: vec![
            Phase::random("all-kinds", 4_000, 40_000, all_kinds),
            Phase::random("every-call", 25_000, 300_000, every_call),
            Phase::random("large", 1_500, 8_000, large),
            Phase::random("sorters", 8_000, 80_000, sorters),
            Phase::random("no-fault", 20_000, 200_000, no_fault),
        ],
    }
}

const KINDS: [ErrorKind; 18] = [
    ErrorKind::Other,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::PermissionDenied,
    ErrorKind::BrokenPipe,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::OutOfMemory,
    ErrorKind::Unsupported,
    ErrorKind::AlreadyExists,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::StorageFull,
];

/// The faults that make sense for a call.
fn faults(op: Op) -> Vec<Fault> {
    let mut v: Vec<Fault> = KINDS.iter().map(|k| Fault::Kind(*k)).collect();
    match op {
        Op::Read => v.push(Fault::Os(5)),
        Op::Write => v.extend([Fault::Os(28), Fault::Os(32), Fault::ZeroWrite]),
        Op::Flush | Op::Seek => v.extend([Fault::Kind(ErrorKind::Interrupted), Fault::Os(5), Fault::Os(29)]),
        Op::Create => v.extend([Fault::Kind(ErrorKind::Interrupted), Fault::Os(24), Fault::BadVersion, Fault::BadCodec]),
        Op::Merge => return vec![Fault::Kind(ErrorKind::Other)],
    }
    v
}

fn label(op: Op) -> &'static str {
    match op {
        Op::Read => "fault in read",
        Op::Write => "fault in write",
        Op::Seek => "fault in seek",
        Op::Flush => "fault in flush",
        Op::Create => "fault in create",
        Op::Merge => "fault in merge",
    }
}

fn judge(ctx: &mut Ctx, sc: &Scen, sp: (Split, u64), k: u64, op: Op, f: Fault, sticky: bool) -> CaseResult {
    let io = Io::new(sp.0, sp.1);
    {
        let mut s = io.0.borrow_mut();
        s.fail_at = Some((k, f));
        s.sticky = sticky;
    }
    let t = sc.run(&io, false);
    ctx.label("faults injected");
    ctx.label(label(op));
    let how = || {
        format!(
            "{}: call {k} ({op:?}) fails with {f:?}{}{}",
            sc.kind(),
            if sticky { " and so do all later ones" } else { "" },
            if sp.0 == WHOLE { String::new() } else { format!(" (transfers split by {:?})", sp.0) }
        )
    };
    if io.fired() != Some(op) {
        return Err(format!("{}: the fault was not reached (the number of calls changes between runs)", how()));
    }
    if let Some((n, _)) = &t.swallowed {
        return Err(format!("{}: {n} reports success", how()));
    }
    let Some((n, fail)) = &t.fail else {
        return Err(format!("{}: no public call reports it", how()));
    };
    let carried = match (f, op, fail) {
        (_, _, Fail::Panic(p)) => return Err(format!("{}: {n} panics: {p}", how())),
        (_, Op::Merge, Fail::Merge(m)) => *m == k,
        (_, Op::Merge, _) => false,
        (Fault::Kind(want), _, Fail::Io { kind, text, .. }) => *kind == want && text.contains(MARK),
        (Fault::Os(want), _, Fail::Io { kind, os, .. }) => {
            *kind == std::io::Error::from_raw_os_error(want).kind() && os.is_none_or(|o| o == want)
        }
        (Fault::ZeroWrite, _, Fail::Io { kind, .. }) => *kind == ErrorKind::WriteZero,
        (Fault::BadVersion, _, Fail::Version) => true,
        (Fault::BadCodec, _, Fail::Codec) => true,
        _ => false,
    };
    if !carried {
        return Err(format!("{}: {n} returns an error that does not carry it: {fail:?}", how()));
    }
    Ok(())
}

fn fault_free(sc: &Scen, sp: (Split, u64)) -> Result<Vec<Op>, String> {
    let io = Io::new(sp.0, sp.1);
    io.0.borrow_mut().ops = Some(Vec::new());
    let t = sc.run(&io, false);
    if let Some((n, f)) = &t.fail {
        return Err(format!("{}: no component fails, {n} returns {f:?}", sc.kind()));
    }
    let ops = io.0.borrow_mut().ops.take().unwrap();
    Ok(ops)
}

fn each(src: &mut Src, ctx: &mut Ctx, sc: &Scen, all: bool, cap: u64) -> CaseResult {
    ctx.label(sc.kind());
    ctx.sample(|| sc.desc());
    // a failure in the middle of a transfer needs transfers of several calls
    let split = match src.weighted(&[3, 1, 1]) {
        0 => WHOLE,
        1 => Split { max: src.log_range(1, 300) as usize, short: 0, intr: 0 },
        _ => Split { max: 0, short: src.pick(&[60u32, 200]), intr: 0 },
    };
    if split != WHOLE {
        ctx.label("split transfers");
    }
    let sp = (split, src.seed());
    let ops = fault_free(sc, sp)?;
    let n = ops.len() as u64;
    // expensive scenarios get fewer fault points
    let cap = (6_000_000 / (40 * n + sc.weight() + 1)).clamp(12, cap);
    let step = n.div_ceil(cap).max(1);
    let phase = src.below(step);
    let rot = src.index(1 << 10);
    if n > 0 {
        ctx.nontrivial();
    }
    for (k, op) in ops.iter().enumerate() {
        // with a step: a slice of the calls, and the last ones
        if k as u64 % step != phase && (k as u64) + 12 < n {
            continue;
        }
        let fs = faults(*op);
        if all {
            for (i, f) in fs.iter().enumerate() {
                judge(ctx, sc, sp, k as u64, *op, *f, (i + k + rot) % 2 == 0)?;
            }
        } else {
            let i = (k * 7 + rot) % fs.len();
            judge(ctx, sc, sp, k as u64, *op, fs[i], rot % 2 == 0)?;
            if i != 1 && fs.len() > 1 {
                // an unexpected end of file is the kind most easily taken for something else
                judge(ctx, sc, sp, k as u64, *op, fs[1], rot % 2 == 1)?;
            }
        }
    }
    Ok(())
}

fn all_kinds(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sc = Scen::any(src, Size::Tiny)?;
    each(src, ctx, &sc, true, 120)
}

fn every_call(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let sc = Scen::any(src, Size::Tiny)?;
    each(src, ctx, &sc, false, 400)
}

fn large(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let z = src.pick(&[Size::Small, Size::Large]);
    let sc = Scen::any(src, z)?;
    each(src, ctx, &sc, false, 250)
}

fn sorters(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let z = src.pick(&[Size::Tiny, Size::Small, Size::Tiny]);
    let sc = Scen::sort(src, z)?;
    each(src, ctx, &sc, false, 200)
}

fn no_fault(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let z = src.pick(&[Size::Small, Size::Large]);
    let sc = Scen::any(src, z)?;
    ctx.label(sc.kind());
    ctx.sample(|| sc.desc());
    fault_free(&sc, (WHOLE, 0))?;
    ctx.nontrivial();
    Ok(())
}
