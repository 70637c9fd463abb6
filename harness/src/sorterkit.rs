//! Sorter configurations, runs and the reference model shared by several properties.

use crate::engine::*;
use crate::gen::*;
use crate::sim::*;
use crate::util::*;
use grenad::{ChunkCreator, CompressionType, CursorVec, Merger, MergerIter, Reader, SortAlgorithm, Sorter, SorterBuilder};
use std::collections::BTreeMap;
use std::io::{Cursor, Read, Seek};
use std::num::NonZeroUsize;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Storage {
    CursorVec,
    Sim,
    #[cfg(feature = "full")]
    TempFile,
}

#[derive(Clone, Debug)]
pub struct SCfg {
    /// Memory budget; below the library's minimum only with the hooks.
    pub threshold: usize,
    pub realloc: bool,
    /// Initial buffer size override (hooks only), when reallocation is allowed.
    pub init: Option<usize>,
    pub max_chunks: Option<usize>,
    pub unstable: bool,
    pub parallel: bool,
    pub chunk: Cfg,
    pub set_codec: bool,
    pub storage: Storage,
}

pub const MIN_MEMORY: usize = 10_485_760;

impl SCfg {
    pub fn plain() -> SCfg {
        SCfg {
            threshold: MIN_MEMORY,
            realloc: true,
            init: None,
            max_chunks: None,
            unstable: false,
            parallel: false,
            chunk: Cfg::plain(),
            set_codec: false,
            storage: Storage::CursorVec,
        }
    }
    /// The effective budget.
    pub fn budget(&self) -> usize {
        if cfg!(feature = "hook") {
            self.threshold
        } else {
            self.threshold.max(MIN_MEMORY)
        }
    }
    pub fn max_chunks_eff(&self) -> usize {
        self.max_chunks.unwrap_or(25).max(1)
    }
    pub fn desc(&self) -> String {
        format!(
            "budget={} realloc={} init={:?} max_chunks={:?} {}{} storage={:?} chunks: {}",
            self.threshold,
            self.realloc,
            self.init,
            self.max_chunks,
            if self.unstable { "unstable" } else { "stable" },
            if self.parallel { " parallel" } else { "" },
            self.storage,
            self.chunk.desc()
        )
    }
    /// Drives setter `which` (0..9); `other` sets another value, to be overwritten.
    fn set<MF, CC>(&self, b: &mut SorterBuilder<MF, CC>, which: usize, other: bool) {
        let c = &self.chunk;
        match which {
            0 => {
                let t = if other { self.threshold / 2 + 77 } else { self.threshold };
                #[cfg(feature = "hook")]
                if t < MIN_MEMORY {
                    b.verif_dump_threshold(t);
                    return;
                }
                b.dump_threshold(t);
            }
            1 => drop(b.allow_realloc(self.realloc ^ other)),
            2 => drop(self.max_chunks.map(|m| b.max_nb_chunks(if other { m / 2 + 3 } else { m }))),
            3 if other => drop(b.sort_algorithm(if self.unstable { SortAlgorithm::Stable } else { SortAlgorithm::Unstable })),
            3 if self.unstable => drop(b.sort_algorithm(SortAlgorithm::Unstable)),
            3 if c.order & 128 != 0 => drop(b.sort_algorithm(SortAlgorithm::Stable)),
            #[cfg(feature = "full")]
            4 => drop(b.sort_in_parallel(self.parallel ^ other)),
            5 if other => drop(b.chunk_compression_type(CODECS[(c.order >> 10) as usize % CODECS.len()])),
            5 if self.set_codec || c.order & 128 != 0 || c.codec != CompressionType::None => drop(b.chunk_compression_type(c.codec)),
            6 => drop(c.level.map(|l| b.chunk_compression_level(if other { l.wrapping_add(3) } else { l }))),
            7 => drop(c.block.map(|x| b.block_size(if other { x / 2 + 5000 } else { x }))),
            8 => drop(c.interval.map(|x| b.index_key_interval(NonZeroUsize::new(if other { x / 2 + 5 } else { x }).unwrap()))),
            9 => drop(c.levels.map(|x| b.index_levels(if other { x / 2 + 3 } else { x }))),
            _ => {}
        }
    }
    /// `chunk.order`: order of the setters, setters called twice (128), chunk creator given first (256) or in the
    /// middle (512).
    pub fn builder<MF, CC: ChunkCreator>(&self, merge: MF, creator: CC) -> SorterBuilder<MF, CC> {
        let o = self.chunk.order as usize;
        let order: Vec<usize> = match o & 127 {
            0 => (0..10).collect(),
            r => (0..10).map(|i| (i * [1, 3, 7, 9][r % 4] + r) % 10).collect(),
        };
        let twice = o & 128 != 0;
        let at = if o & 256 != 0 {
            0
        } else if o & 512 != 0 {
            3 + o % 5
        } else {
            10
        };
        let mut b = if o & 1 == 0 { SorterBuilder::new(merge) } else { Sorter::builder(merge) };
        for &w in &order[..at] {
            if twice {
                self.set(&mut b, w, true);
            }
            self.set(&mut b, w, false);
        }
        let mut b = b.chunk_creator(creator);
        for &w in &order[at..] {
            if twice {
                self.set(&mut b, w, true);
            }
            self.set(&mut b, w, false);
        }
        b
    }
    pub fn build<MF, CC: ChunkCreator>(&self, merge: MF, creator: CC) -> Sorter<MF, CC> {
        with_init(self.init, || self.builder(merge, creator).build())
    }
}

pub fn with_init<T>(init: Option<usize>, f: impl FnOnce() -> T) -> T {
    #[cfg(feature = "hook")]
    grenad::verif::set_sorter_initial_capacity(init);
    let t = f();
    #[cfg(feature = "hook")]
    grenad::verif::set_sorter_initial_capacity(None);
    let _ = init;
    t
}

/// Small budgets (hooked builds).
pub fn small_scfg(src: &mut Src) -> SCfg {
    let threshold = match src.weighted(&[4, 3, 2, 1]) {
        0 => src.range(64, 600) as usize,
        1 => src.range(256, 4096) as usize,
        2 => src.pick(&[64, 128, 1024, 2048, 8192, 16384]),
        _ => src.range(4096, 40_000) as usize,
    };
    let realloc = src.chance(2, 3);
    // the real initial size (128 KiB) never exceeds the real budget
    let init = realloc.then(|| match src.weighted(&[3, 3, 2]) {
        0 => threshold / (1 + src.index(8)),
        1 => src.range(16, threshold as u64) as usize,
        _ => threshold,
    });
    let init = init.map(|i| i.max(16));
    let max_chunks = match src.weighted(&[2, 6, 2]) {
        0 => None,
        1 => Some(src.range(0, 5) as usize),
        _ => Some(src.range(6, 40) as usize),
    };
    let chunk = src.span(|s| cfg(s, CFG_DEEP));
    SCfg {
        threshold,
        realloc,
        init,
        max_chunks,
        unstable: src.chance(1, 3),
        parallel: src.chance(1, 3),
        set_codec: src.chance(1, 2),
        chunk,
        storage: match src.weighted(&[6, 6, if cfg!(feature = "full") { 1 } else { 0 }]) {
            #[cfg(feature = "full")]
            2 => Storage::TempFile,
            1 => Storage::Sim,
            _ => Storage::CursorVec,
        },
    }
}

/// Grouped inserts, values in insertion order.
pub fn group(inserts: &[(Vec<u8>, Vec<u8>)]) -> BTreeMap<&[u8], Vec<&[u8]>> {
    let mut m: BTreeMap<&[u8], Vec<&[u8]>> = BTreeMap::new();
    for (k, v) in inserts {
        m.entry(k).or_default().push(v);
    }
    m
}

pub const ROUTES: usize = 3;

pub fn drain<R: Read + Seek, MF: grenad::MergeFunction>(mut it: MergerIter<R, MF>, cap: usize) -> Result<Entries, String>
where
    MF::Error: std::fmt::Display,
{
    let mut got: Entries = Vec::new();
    while let Some((k, v)) = it.next().map_err(|x| format!("next: {x}"))? {
        got.push((k.to_vec(), v.to_vec()));
        if got.len() > cap {
            return Err(format!("the stream yields more than {cap} entries"));
        }
    }
    if it.next().map_err(|x| format!("next after the end: {x}"))?.is_some() {
        return Err("the stream goes on after its end".into());
    }
    Ok(got)
}

pub fn scan_bytes(bytes: &[u8]) -> Result<Entries, String> {
    let r = Reader::new(Cursor::new(bytes)).map_err(|x| x.to_string())?;
    let n = r.len();
    let mut c = r.into_cursor().map_err(|x| x.to_string())?;
    let mut got: Entries = Vec::new();
    while let Some((k, v)) = c.move_on_next().map_err(|x| x.to_string())? {
        got.push((k.to_vec(), v.to_vec()));
        if got.len() as u64 > n {
            return Err(format!("more than {n} entries"));
        }
    }
    if got.len() as u64 != n {
        return Err(format!("{} entries in a file that counts {n}", got.len()));
    }
    Ok(got)
}

fn outputs<CC: ChunkCreator>(
    s: &SCfg,
    kind: MergeKind,
    inserts: &[(Vec<u8>, Vec<u8>)],
    out: &Cfg,
    route: usize,
    creator: CC,
) -> Result<Entries, String> {
    let merge = Merge::new(kind);
    match inserts.len() % 4 {
        n @ 0..=2 => outputs_with(s, adapted(&merge, n), kind, inserts, out, route, creator),
        _ => outputs_with(s, merge, kind, inserts, out, route, creator),
    }
}

fn outputs_with<CC: ChunkCreator, MF: grenad::MergeFunction<Error = MergeFault>>(
    s: &SCfg,
    merge: MF,
    kind: MergeKind,
    inserts: &[(Vec<u8>, Vec<u8>)],
    out: &Cfg,
    route: usize,
    creator: CC,
) -> Result<Entries, String> {
    let mut sorter = s.build(merge, creator);
    for (i, (k, v)) in inserts.iter().enumerate() {
        sorter.insert(k, v).map_err(|x| format!("insert {i}: {x}"))?;
    }
    let cap = inserts.len();
    match route {
        0 => drain(sorter.into_stream_merger_iter().map_err(|x| format!("into_stream_merger_iter: {x}"))?, cap),
        1 => {
            let mut w = out.builder().build(Vec::new());
            // a writer which already holds entries, and gets more of them afterwards
            let (before, after) = if inserts.len() % 3 == 1 {
                let g = group(inserts);
                crate::props::c06::around(g.keys().next().copied(), g.keys().next_back().copied())
            } else {
                Default::default()
            };
            for (k, v) in &before {
                w.insert(k, v).map_err(|x| x.to_string())?;
            }
            sorter.write_into_stream_writer(&mut w).map_err(|x| format!("write_into_stream_writer: {x}"))?;
            for (k, v) in &after {
                w.insert(k, v).map_err(|x| x.to_string())?;
            }
            let bytes = w.into_inner().map_err(|x| x.to_string())?;
            let all = scan_bytes(&bytes).map_err(|x| format!("the written file: {x}"))?;
            crate::props::c06::between(all, &before, &after)
        }
        _ => {
            let cursors = sorter.into_reader_cursors().map_err(|x| format!("into_reader_cursors: {x}"))?;
            let mut b = Merger::builder(Merge::new(kind));
            b.extend(cursors);
            drain(b.build().into_stream_merger_iter().map_err(|x| format!("merging the cursors: {x}"))?, cap)
        }
    }
}

/// Inserts everything and returns the output of one route.
pub fn run(s: &SCfg, kind: MergeKind, inserts: &[(Vec<u8>, Vec<u8>)], out: &Cfg, route: usize) -> Result<Entries, String> {
    match s.storage {
        Storage::CursorVec => outputs(s, kind, inserts, out, route, CursorVec),
        Storage::Sim => outputs(s, kind, inserts, out, route, Creator { io: Io::plain() }),
        #[cfg(feature = "full")]
        Storage::TempFile => outputs(s, kind, inserts, out, route, grenad::TempFileChunk),
    }
}

/// Value `i` of an insert sequence: a self-delimiting unique token, so that any concatenation can be parsed.
pub fn token(i: u32, pad: usize, fill: u8) -> Vec<u8> {
    let mut v = Vec::with_capacity(8 + pad);
    v.extend_from_slice(&((8 + pad) as u32).to_be_bytes());
    v.extend_from_slice(&i.to_be_bytes());
    v.resize(8 + pad, fill);
    v
}

/// Splits a concatenation of tokens.
pub fn split_tokens(mut v: &[u8]) -> Option<Vec<&[u8]>> {
    let mut out = Vec::new();
    while !v.is_empty() {
        if v[0] == MARKER {
            out.push(&v[..1]);
            v = &v[1..];
            continue;
        }
        let n = u32::from_be_bytes(v.get(..4)?.try_into().ok()?) as usize;
        if n < 8 || n > v.len() {
            return None;
        }
        out.push(&v[..n]);
        v = &v[n..];
    }
    Some(out)
}

/// Compares an output with the model.  `concat` values are token sequences when the order is free.
pub fn check_output(s: &SCfg, kind: MergeKind, inserts: &[(Vec<u8>, Vec<u8>)], got: &Entries, tokens: bool) -> CaseResult {
    let want = group(inserts);
    for (i, (g, (k, vs))) in got.iter().zip(&want).enumerate() {
        ensure!(g.0 == *k, "output {i}: key {}, want {}", hx(&g.0), hx(k));
        let exact = || -> CaseResult {
            let w = merge_model(kind, k, vs);
            ensure!(g.1 == w, "value of {} ({} inserts): got {}, want {}", hx(k), vs.len(), hx(&g.1), hx(&w));
            Ok(())
        };
        if !s.unstable || vs.len() == 1 || matches!(kind, MergeKind::Min | MergeKind::ByKey) {
            exact()?;
            continue;
        }
        // unstable: the merge of the values in some order
        match kind {
            MergeKind::Concat | MergeKind::ConcatCow | MergeKind::Marker if tokens => {
                let mut a = split_tokens(&g.1)
                    .ok_or_else(|| format!("value of {} is not a concatenation of inserted values: {}", hx(k), hx(&g.1)))?;
                let mut b: Vec<&[u8]> = match kind {
                    MergeKind::Marker => vs.iter().map(|v| if v.is_empty() { &[MARKER] } else { *v }).collect(),
                    _ => vs.iter().copied().filter(|v| !v.is_empty()).collect(),
                };
                a.sort();
                b.sort();
                ensure!(a == b, "value of {}: {} tokens that are not the {} inserted ones", hx(k), a.len(), b.len());
            }
            MergeKind::Concat | MergeKind::ConcatCow | MergeKind::Marker => {
                let (mut a, mut b) = (g.1.clone(), merge_model(kind, k, vs));
                a.sort();
                b.sort();
                ensure!(a == b, "value of {} is not a concatenation of the inserted values in some order", hx(k));
            }
            MergeKind::Longest => {
                let m = vs.iter().map(|v| v.len()).max().unwrap();
                ensure!(g.1.len() == m && vs.contains(&g.1.as_slice()), "value of {} is not a longest inserted value", hx(k));
            }
            _ => ensure!(vs.contains(&g.1.as_slice()), "value of {} is none of the inserted values: {}", hx(k), hx(&g.1)),
        }
    }
    ensure!(got.len() == want.len(), "{} entries, want the {} distinct keys", got.len(), want.len());
    Ok(())
}
