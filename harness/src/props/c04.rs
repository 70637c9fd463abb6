//! C04: range iterators.

use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use grenad::Reader;
use std::io::{Cursor, Read, Seek};
use std::ops::Bound;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "a case is a file and a list of bound pairs, each run forward and backward; non-trivial when some range \
               selects a proper non-empty subset of the entries; distinct by choice sequence",
        assumptions: &["iterators are only observed up to their first None"],
        phases: vec![
            Phase::random("ranges", 30_000, 1_000_000, ranges),
            Phase::random("deep", 10_000, 300_000, deep),
            Phase::random("all-pairs", 600, 20_000, all_pairs),
        ],
    }
}

pub type B = Bound<Vec<u8>>;

pub fn show(b: &B) -> String {
    match b {
        Bound::Unbounded => "unbounded".into(),
        Bound::Included(x) => format!("included {}", hx(x)),
        Bound::Excluded(x) => format!("excluded {}", hx(x)),
    }
}

pub fn inside(k: &[u8], lo: &B, hi: &B) -> bool {
    (match lo {
        Bound::Unbounded => true,
        Bound::Included(a) => k >= a.as_slice(),
        Bound::Excluded(a) => k > a.as_slice(),
    }) && (match hi {
        Bound::Unbounded => true,
        Bound::Included(b) => k <= b.as_slice(),
        Bound::Excluded(b) => k < b.as_slice(),
    })
}

pub fn gen_bound(src: &mut Src, e: &Entries) -> B {
    match src.weighted(&[1, 3, 3]) {
        0 => Bound::Unbounded,
        1 => Bound::Included(probe(src, e)),
        _ => Bound::Excluded(probe(src, e)),
    }
}

/// The four iterator types.
pub trait EntryIter: Clone {
    fn step(&mut self) -> Result<Option<(&[u8], &[u8])>, grenad::Error>;
}

macro_rules! entry_iter {
    ($($t:ident),*) => {$(
        impl<R: Read + Seek + Clone> EntryIter for grenad::$t<R> {
            fn step(&mut self) -> Result<Option<(&[u8], &[u8])>, grenad::Error> {
                self.next()
            }
        }
    )*};
}
entry_iter!(RangeIter, RevRangeIter, PrefixIter, RevPrefixIter);

/// Drives an iterator to its first None against the wanted entries (from `from` on).  At item `fork` the iterator is
/// cloned and the clone is driven to the end before (or after) the original goes on.
pub fn drive<I: EntryIter>(
    mut it: I,
    want: &[(&[u8], &[u8])],
    from: usize,
    fork: Option<(usize, bool)>,
    what: &dyn Fn() -> String,
) -> Result<(), String> {
    for i in from..=want.len() {
        if let Some((at, first)) = fork {
            if at == i {
                let other = it.clone();
                let (a, b) = if first { (other, it) } else { (it, other) };
                let on = |n: &'static str| move || format!("{} ({n} of a clone at item {at})", what());
                drive(a, want, i, None, &on("first"))?;
                return drive(b, want, i, None, &on("second"));
            }
        }
        let got = it.step().map_err(|x| format!("{}: {x}", what()))?;
        let w = want.get(i).copied();
        ensure!(got == w, "{}, item {i}: got {}, want {}", what(), hkv(got), hkv(w));
    }
    Ok(())
}

/// A reader that was already used through a cursor.
pub fn used<R: Read + Seek + Clone>(r: &Reader<R>, form: usize) -> Result<Reader<R>, String> {
    if form & 4 == 0 {
        return Ok(r.clone());
    }
    let mut c = r.clone().into_cursor().map_err(|x| x.to_string())?;
    if form & 1 == 0 { c.move_on_last() } else { c.move_on_next() }.map_err(|x| x.to_string())?;
    Ok(c.into_reader())
}

/// `form`: bit 0 other range types, bits 1.. used readers and cloned iterators.
pub fn check_range<R: Read + Seek + Clone>(r: &Reader<R>, e: &Entries, lo: &B, hi: &B, form: usize) -> Result<usize, String> {
    let mut want: Vec<(&[u8], &[u8])> =
        e.iter().filter(|(k, _)| inside(k, lo, hi)).map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
    let what = || format!("range ({}, {})", show(lo), show(hi));
    let r = &used(r, form)?;
    let fork = (form & 2 != 0).then_some(((form >> 3) % (want.len() + 1), form & 16 == 0));
    // several ways of naming the same range
    let range = (lo.clone(), hi.clone());
    let it = match (form & 1, lo, hi) {
        (1, Bound::Included(a), Bound::Excluded(b)) => r.clone().into_range_iter(a.clone()..b.clone()),
        (1, Bound::Included(a), Bound::Included(b)) => r.clone().into_range_iter(a.as_slice()..=b.as_slice()),
        (1, Bound::Unbounded, Bound::Excluded(b)) => r.clone().into_range_iter(..b.clone()),
        (1, Bound::Unbounded, Bound::Included(b)) => r.clone().into_range_iter(..=b.as_slice()),
        (1, Bound::Included(a), Bound::Unbounded) => r.clone().into_range_iter(a.as_slice()..),
        (1, Bound::Unbounded, Bound::Unbounded) => r.clone().into_range_iter::<_, Vec<u8>>(..),
        _ => r.clone().into_range_iter(range.clone()),
    }
    .map_err(|x| format!("{}: {x}", what()))?;
    drive(it, &want, 0, fork, &what)?;
    let what = || format!("reverse range ({}, {})", show(lo), show(hi));
    let it = match (form & 1, lo, hi) {
        (1, Bound::Included(a), Bound::Excluded(b)) => r.clone().into_rev_range_iter(a.clone()..b.clone()),
        (1, Bound::Included(a), Bound::Included(b)) => r.clone().into_rev_range_iter(a.as_slice()..=b.as_slice()),
        (1, Bound::Unbounded, Bound::Excluded(b)) => r.clone().into_rev_range_iter(..b.clone()),
        (1, Bound::Unbounded, Bound::Included(b)) => r.clone().into_rev_range_iter(..=b.as_slice()),
        (1, Bound::Included(a), Bound::Unbounded) => r.clone().into_rev_range_iter(a.as_slice()..),
        (1, Bound::Unbounded, Bound::Unbounded) => r.clone().into_rev_range_iter::<_, Vec<u8>>(..),
        _ => r.clone().into_rev_range_iter(range),
    }
    .map_err(|x| format!("{}: {x}", what()))?;
    want.reverse();
    drive(it, &want, 0, fork, &what)?;
    Ok(want.len())
}

fn run(src: &mut Src, ctx: &mut Ctx, cfg: &Cfg, e: &Entries, m: u64) -> CaseResult {
    let bytes = file(cfg, e)?;
    let r = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| x.to_string())?;
    let ranges = src.list(1, m as usize, |s| {
        let mut lo = gen_bound(s, e);
        let mut hi = gen_bound(s, e);
        if s.chance(1, 8) {
            // equal or adjacent bounds
            if let Bound::Included(a) | Bound::Excluded(a) = &lo {
                let a = if s.chance(1, 3) { [a.as_slice(), &[0]].concat() } else { a.clone() };
                hi = if s.chance(1, 2) { Bound::Included(a) } else { Bound::Excluded(a) };
            }
        } else if s.chance(1, 2) {
            // mostly not inverted
            let key = |b: &B| match b {
                Bound::Included(a) | Bound::Excluded(a) => Some(a.clone()),
                _ => None,
            };
            if let (Some(a), Some(b)) = (key(&lo), key(&hi)) {
                if a > b {
                    std::mem::swap(&mut lo, &mut hi);
                }
            }
        }
        let form = if s.chance(2, 3) { s.index(2) } else { s.index(1 << 12) };
        (lo, hi, form)
    });
    ctx.sample(|| {
        let (lo, hi, _) = &ranges[0];
        format!("{} | {} | {} ranges, e.g. ({}, {})", cfg.desc(), describe(e), ranges.len(), show(lo), show(hi))
    });
    for (lo, hi, form) in &ranges {
        let n = check_range(&r, e, lo, hi, *form)?;
        if n > 0 && n < e.len() {
            ctx.nontrivial();
        }
        ctx.label(match n {
            0 => "empty result",
            n if n == e.len() => "everything",
            _ => "proper subset",
        });
    }
    Ok(())
}

fn ranges(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = src.span(|s| cfg(s, CFG_ANY));
    let max_n = if cfg.levels_eff() > 5 { 40 } else { 300 };
    let e = entries(src, EntOpts::new(max_n, 40_000), cfg.block_eff());
    let m = if cfg.levels_eff() > 20 { 3 } else { 12 };
    run(src, ctx, &cfg, &e, m)
}

fn deep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut cfg, e) = super::c03::deep_file(src);
    any_file(src, &mut cfg, ctx);
    run(src, ctx, &cfg, &e, 15)
}

/// Every pair of bounds over all probe classes of a small file.
fn all_pairs(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
    any_file(src, &mut cfg, ctx);
    let e = entries(src, EntOpts::new(6, 6_000), 1024);
    let bytes = file(&cfg, &e)?;
    let r = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| x.to_string())?;
    let mut probes = super::c02::classes(&e);
    while probes.len() > 24 {
        let i = src.index(probes.len());
        probes.remove(i);
    }
    let mut bounds: Vec<B> = vec![Bound::Unbounded];
    for p in probes {
        bounds.push(Bound::Included(p.clone()));
        bounds.push(Bound::Excluded(p));
    }
    let mut n = 0u64;
    for lo in &bounds {
        for hi in &bounds {
            check_range(&r, &e, lo, hi, 0)?;
            n += 1;
        }
    }
    ctx.count("ranges", n);
    if e.len() >= 2 {
        ctx.nontrivial();
    }
    ctx.sample(|| format!("{} | {} | all {n} bound pairs", cfg.desc(), describe(&e)));
    Ok(())
}
