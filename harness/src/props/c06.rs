//! C06: k-way merge.

use crate::decode;
use crate::engine::*;
use crate::gen::*;
use crate::sim::*;
use crate::util::*;
use grenad::{Merger, MergerBuilder, Reader, ReaderCursor};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::rc::Rc;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a case is a list of sorted sources, a merge function and an output route; non-trivial when at least one \
               key is held by two sources; distinct by choice sequence",
        assumptions: &["cursors are handed over fresh or reset", "merge functions return a lone value unchanged"],
        phases: vec![
            Phase::random("overlaps", 25_000, 800_000, overlaps),
            Phase::random("few-keys", 20_000, 600_000, few_keys),
            Phase::enumerate("patterns", 65_536, 65_536, patterns),
            Phase::enumerate("many-sources", 6, 12, many_sources).threads(4),
        ],
    }
}

type Bytes = Rc<[u8]>;
type Union = BTreeMap<Vec<u8>, Vec<Vec<u8>>>;

pub const KINDS: [MergeKind; 8] = [
    MergeKind::Concat,
    MergeKind::ConcatCow,
    MergeKind::First,
    MergeKind::Last,
    MergeKind::Min,
    MergeKind::Longest,
    MergeKind::Bracket,
    MergeKind::ByKey,
];

fn union(sources: &[Entries]) -> Union {
    let mut u = Union::new();
    for s in sources {
        for (k, v) in s {
            u.entry(k.clone()).or_default().push(v.clone());
        }
    }
    u
}

fn cursor(bytes: &Bytes) -> Result<ReaderCursor<Cursor<Bytes>>, String> {
    Reader::new(Cursor::new(bytes.clone())).and_then(|r| r.into_cursor()).map_err(|x| x.to_string())
}

fn check(sources: &[Entries], cfgs: &[Cfg], out: &Cfg, kind: MergeKind, route: usize, dirty: bool) -> CaseResult {
    let u = union(sources);
    let mut files: Vec<Bytes> = Vec::new();
    for (i, s) in sources.iter().enumerate() {
        files.push(file(&cfgs[i % cfgs.len()], s)?.into());
    }
    let (merge, log) = Merge::logged(kind);
    let mut cursors = Vec::new();
    for (i, f) in files.iter().enumerate() {
        let mut c = cursor(f)?;
        if dirty && i % 2 == 0 {
            c.move_on_last().map_err(|x| x.to_string())?;
            c.move_on_prev().map_err(|x| x.to_string())?;
            c.reset();
        }
        cursors.push(c);
    }
    match files.len() % 4 {
        0 => check_with(MergerBuilder::new(merge), cursors, &log, kind, &u, route, out),
        1 => check_with(Merger::builder(merge), cursors, &log, kind, &u, route, out),
        n => check_with(Merger::builder(adapted(&merge, n + files.len() / 4)), cursors, &log, kind, &u, route, out),
    }
}

/// Entries which go before and after the content in a file.
pub fn around(first: Option<&[u8]>, last: Option<&[u8]>) -> (Entries, Entries) {
    let mut before = Entries::new();
    if first.is_none_or(|k| !k.is_empty()) {
        before.push((vec![], vec![b'p'; 700]));
    }
    if first.and_then(|k| k.first()).is_some_and(|b| *b > 0) {
        before.extend((1..9).map(|i| (vec![0; i], vec![b'q'; i * 40])));
    }
    let mut end = last.map(|k| k.to_vec()).unwrap_or_default();
    end.push(0);
    (before, vec![(end, b"end".to_vec())])
}

/// Takes the entries out again.
pub fn between(mut all: Entries, before: &Entries, after: &Entries) -> Result<Entries, String> {
    let n = all.len();
    ensure!(n >= before.len() + after.len(), "{n} entries in a file that got {} others", before.len() + after.len());
    ensure!(all[..before.len()] == before[..], "the entries inserted before the merge are not there as they were inserted");
    ensure!(all[n - after.len()..] == after[..], "the entries inserted after the merge are not there as they were inserted");
    all.truncate(n - after.len());
    Ok(all.split_off(before.len()))
}

fn check_with<MF: grenad::MergeFunction<Error = MergeFault>>(
    mut b: MergerBuilder<Cursor<Bytes>, MF>,
    cursors: Vec<ReaderCursor<Cursor<Bytes>>>,
    log: &MergeLog,
    kind: MergeKind,
    u: &Union,
    route: usize,
    out: &Cfg,
) -> CaseResult {
    match route % 4 {
        0 => b.extend(cursors),
        1 => {
            for c in cursors {
                b.push(c);
            }
        }
        2 => {
            for c in cursors {
                b = b.add(c);
            }
        }
        _ => {
            // all of them, one after the other
            let mut cursors = cursors.into_iter();
            while let Some(c) = cursors.next() {
                b = b.add(c);
                b.extend(cursors.by_ref().take(2));
                if let Some(c) = cursors.next() {
                    b.push(c);
                }
            }
        }
    }
    let merger = b.build();
    let got: Entries = if route >= 4 {
        let mut w = out.builder().build(Vec::new());
        // a writer which already holds entries, and gets more of them afterwards
        let (before, after) = if route >= 8 { around(u.keys().next().map(|k| &k[..]), u.keys().next_back().map(|k| &k[..])) } else { Default::default() };
        for (k, v) in &before {
            w.insert(k, v).map_err(|x| x.to_string())?;
        }
        merger.write_into_stream_writer(&mut w).map_err(|x| format!("write_into_stream_writer: {x}"))?;
        for (k, v) in &after {
            w.insert(k, v).map_err(|x| x.to_string())?;
        }
        let bytes = w.into_inner().map_err(|x| x.to_string())?;
        let all = decode::decode(bytes.as_slice(), decode::Strict { interval: Some(out.interval_eff()), tiling: true, unordered: false })
            .map_err(|x| format!("the merged file: {x}"))?
            .entries;
        between(all, &before, &after)?
    } else {
        let mut it = merger.into_stream_merger_iter().map_err(|x| format!("into_stream_merger_iter: {x}"))?;
        let mut got = Vec::new();
        loop {
            match it.next().map_err(|x| format!("next: {x}"))? {
                Some((k, v)) => got.push((k.to_vec(), v.to_vec())),
                None => break,
            }
            ensure!(got.len() <= u.len(), "the merger yields more than the {} distinct keys", u.len());
        }
        let again = it.next().map_err(|x| format!("next after the end: {x}"))?;
        ensure!(again.is_none(), "the merger yields {} after its end", hkv(again));
        got
    };
    let want: Entries = u
        .iter()
        .map(|(k, vs)| {
            let refs: Vec<&[u8]> = vs.iter().map(|v| v.as_slice()).collect();
            (k.clone(), merge_model(kind, k, &refs))
        })
        .collect();
    if let Some(d) = diff(&got, &want) {
        return Err(format!("merged content: {d}"));
    }
    // calls of the merge function
    let mut seen: BTreeMap<&[u8], u64> = BTreeMap::new();
    let log = log.borrow();
    for (k, vs) in log.iter() {
        let Some(w) = u.get(k) else { return Err(format!("merge called with the key {} held by no source", hx(k))) };
        ensure!(vs == w, "merge called for {} with {} values that are not the sources' {} values in order", hx(k), vs.len(), w.len());
        *seen.entry(k).or_default() += 1;
    }
    for (k, vs) in u {
        let n = seen.get(k.as_slice()).copied().unwrap_or(0);
        ensure!(n == 1 || vs.len() == 1, "merge called {n} times for {} held by {} sources", hx(k), vs.len());
    }
    Ok(())
}

fn finish(ctx: &mut Ctx, src: &mut Src, sources: &[Entries], cfgs: &[Cfg]) -> CaseResult {
    let out = src.span(|s| cfg(s, CFG_DEEP));
    let kind = src.pick(&KINDS);
    let route = src.index(10);
    let dirty = src.chance(1, 4);
    let u = union(sources);
    if u.values().any(|v| v.len() > 1) {
        ctx.nontrivial();
        ctx.label("shared keys");
    }
    if sources.iter().any(|s| s.is_empty()) {
        ctx.label("empty source");
    }
    match sources.len() {
        0 => ctx.label("no source"),
        1 => ctx.label("one source"),
        _ => {}
    }
    if route >= 4 {
        ctx.label("into a writer");
    }
    ctx.sample(|| {
        let m = u.values().map(|v| v.len()).max().unwrap_or(0);
        format!(
            "{kind:?}, route {route}, {} sources of {:?} entries, {} distinct keys, up to {m} values per key; first source {} {}",
            sources.len(),
            sources.iter().map(|s| s.len()).take(12).collect::<Vec<_>>(),
            u.len(),
            cfgs[0].desc(),
            sources.first().map(|s| describe(s)).unwrap_or_default()
        )
    });
    check(sources, cfgs, &out, kind, route, dirty)
}

fn gen_cfgs(src: &mut Src) -> Vec<Cfg> {
    src.list(1, 3, |s| cfg(s, CFG_DEEP))
}

/// Subsets of a generated pool.
fn overlaps(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfgs = gen_cfgs(src);
    let pool = entries(src, EntOpts::new(200, 30_000), 1024);
    let max = if src.chance(1, 10) { 30 } else { 8 };
    let n_pool = pool.len();
    let mut tag = 0u32;
    let sources: Vec<Entries> = src.list(0, max, |s| {
        let mode = s.weighted(&[6, 2, 1, 2, 2]);
        let (lo, hi) = (s.index(n_pool + 1), s.index(n_pool + 1));
        let mut rng = Rng::new(s.seed());
        let p = 1 + rng.below(100);
        tag += 1;
        let style = rng.below(4);
        pool.iter()
            .enumerate()
            .filter(|(i, _)| match mode {
                0 => rng.below(100) < p,
                1 => true,
                2 => false,
                3 => *i >= lo.min(hi) && *i < lo.max(hi),
                _ => i % (1 + lo % 7) == 0,
            })
            .map(|(i, (k, v))| {
                let v = match style {
                    0 => format!("{tag}:{i};").into_bytes(),
                    1 => [tag.to_le_bytes().as_slice(), v].concat(),
                    2 => v.clone(),
                    _ => vec![tag as u8; tag as usize % 3],
                };
                (k.clone(), v)
            })
            .collect()
    });
    finish(ctx, src, &sources, &cfgs)
}

/// Explicit small sources, big values: block boundaries everywhere.
fn few_keys(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfgs = gen_cfgs(src);
    let alphabet: &[u8] = &[0, 1, b'a', b'b', 0xff];
    let mut tag = 0u8;
    let sources: Vec<Entries> = src.list(0, 7, |s| {
        tag += 1;
        let mut e: Entries = s.list(0, 8, |s| {
            let n = s.index(3);
            let k: Vec<u8> = (0..n).map(|_| alphabet[s.index(5)]).collect();
            let vl = s.pick(&[0usize, 1, 2, 900, 1100]);
            (k, vec![b'A' + tag; vl])
        });
        e.sort_by(|a, b| a.0.cmp(&b.0));
        e.dedup_by(|a, b| a.0 == b.0);
        e
    });
    finish(ctx, src, &sources, &cfgs)
}

/// All ways to give 4 keys to 4 sources.
fn patterns(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let x = src.below(65_536);
    let sources: Vec<Entries> = (0..4u64)
        .map(|s| {
            (0..4u64)
                .filter(|k| x >> (s * 4 + k) & 1 == 1)
                .map(|k| (vec![k as u8; k as usize], format!("{s}{k}").into_bytes()))
                .collect()
        })
        .collect();
    finish(ctx, src, &sources, &[Cfg::plain()])
}

fn many_sources(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(12);
    let (n, mode) = [(257usize, 0), (300, 1), (1000, 2), (66_000, 0), (66_000, 1), (66_000, 2)][i as usize % 6];
    let sources: Vec<Entries> = (0..n)
        .map(|s| {
            let v = |t: u8| [&[t][..], &(s as u32).to_be_bytes()].concat();
            let solo = [b"k".as_slice(), &(s as u32).to_be_bytes()].concat();
            match mode {
                0 => vec![(b"k".to_vec(), v(0))],
                1 => vec![(b"a".to_vec(), v(1)), (solo, v(2)), (b"z".to_vec(), v(3))],
                _ if s % 3 == 0 => vec![],
                _ => vec![(solo, v(0)), (format!("y{}", s % 5).into_bytes(), v(1))],
            }
        })
        .collect();
    let kind = [MergeKind::Concat, MergeKind::Bracket, MergeKind::Last][src.index(3)];
    let route = src.index(10);
    ctx.nontrivial();
    ctx.sample(|| format!("{n} sources, mode {mode}, {kind:?}, route {route}"));
    check(&sources, &[Cfg::plain()], &Cfg::plain(), kind, route, false)
}
