//! C02: seeks on new and reset cursors.

use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use grenad::{Reader, ReaderCursor};
use std::io::Cursor;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "a case is a file and a list of probes, each sent to the three seeks on a new and on a reset cursor; \
               non-trivial when the file has at least two entries and at least one probe is absent and one present or \
               the file spans several blocks; distinct by choice sequence",
        assumptions: &["in-memory source"],
        phases: vec![
            Phase::random("all-classes", 12_000, 400_000, all_classes),
            Phase::random("deep", 8_000, 300_000, deep),
            Phase::random("any-config", 20_000, 600_000, any_config),
            Phase::enumerate("depths", 256, 256 * 8, depths),
            Phase::enumerate("jumbo", 4, 12, jumbo).threads(4),
        ],
    }
}

type Cur<'a> = ReaderCursor<Cursor<&'a [u8]>>;

pub fn check_probe(c: &mut Cur, e: &Entries, q: &[u8], how: &str) -> Result<(), String> {
    for op in 0..3 {
        c.reset();
        one_seek(c, e, q, op, how)?;
    }
    Ok(())
}

fn one_seek(c: &mut Cur, e: &Entries, q: &[u8], op: usize, how: &str) -> Result<(), String> {
    let (name, got, want) = match op {
        0 => ("greater_than_or_equal_to", c.move_on_key_greater_than_or_equal_to(q), ceil_idx(e, q)),
        1 => ("lower_than_or_equal_to", c.move_on_key_lower_than_or_equal_to(q), floor_idx(e, q)),
        _ => ("equal_to", c.move_on_key_equal_to(q), eq_idx(e, q)),
    };
    let got = got.map_err(|x| format!("{name} {}: {x}", hx(q)))?;
    let want = entry(e, want);
    ensure!(got == want, "{how} cursor, {name}({}): got {}, want {}", hx(q), hkv(got), hkv(want));
    Ok(())
}

/// Every equivalence class of probes around the entries.
pub fn classes(e: &Entries) -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0xff; 3], vec![0xff; 800]];
    for (k, _) in e {
        v.push(k.clone());
        v.push([k.as_slice(), &[0]].concat());
        v.push([k.as_slice(), &[0xff, 0xff]].concat());
        if let Some(d) = dec(k) {
            v.push(d);
        }
        if let Some(d) = inc(k) {
            v.push(d);
        }
        if !k.is_empty() {
            v.push(k[..k.len() - 1].to_vec());
            v.push(k[..k.len() / 2].to_vec());
        }
    }
    v.sort();
    v.dedup();
    v
}

fn open(bytes: &[u8]) -> Result<Cur<'_>, String> {
    Reader::new(Cursor::new(bytes)).and_then(|r| r.into_cursor()).map_err(|x| format!("open: {x}"))
}

fn run(src: &mut Src, ctx: &mut Ctx, cfg: &Cfg, e: &Entries, probes: Vec<Vec<u8>>, dirty: bool) -> CaseResult {
    let bytes = file(cfg, e)?;
    let mut reused = open(&bytes)?;
    let fresh = reused.clone();
    ctx.sample(|| format!("{} | {} | {} probes, e.g. {}", cfg.desc(), describe(e), probes.len(), probes.first().map_or("".into(), |p| hx(p))));
    let (mut present, mut absent) = (0u64, 0u64);
    for q in &probes {
        if eq_idx(e, q).is_some() {
            present += 1;
        } else {
            absent += 1;
        }
        for op in 0..3 {
            // a new cursor
            one_seek(&mut fresh.clone(), e, q, op, "new")?;
            // a cursor with any past, reset
            if dirty {
                for _ in 0..src.index(3) {
                    let r = match src.index(5) {
                        0 => reused.move_on_next(),
                        1 => reused.move_on_prev(),
                        2 => reused.move_on_first(),
                        3 => reused.move_on_last(),
                        _ => {
                            let i = src.index(probes.len());
                            reused.move_on_key_lower_than_or_equal_to(&probes[i])
                        }
                    };
                    r.map_err(|x| format!("history operation failed: {x}"))?;
                }
            }
            reused.reset();
            one_seek(&mut reused, e, q, op, "reset")?;
        }
    }
    ctx.count("probes", probes.len() as u64);
    ctx.count("present probes", present);
    ctx.count("absent probes", absent);
    let total: usize = e.iter().map(|(k, v)| k.len() + v.len() + 2).sum();
    if total > 2 * cfg.block_eff().min(1 << 40) {
        ctx.label("several blocks");
    }
    if e.len() >= 2 && ((present > 0 && absent > 0) || total > 2 * cfg.block_eff().min(1 << 40)) {
        ctx.nontrivial();
    }
    if e.is_empty() {
        ctx.label("empty file");
    }
    if cfg.levels_eff() >= 2 {
        ctx.label("levels >= 2");
    }
    Ok(())
}

fn all_classes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
    any_file(src, &mut cfg, ctx);
    let e = entries(src, EntOpts::new(24, 30_000), 1024);
    let p = classes(&e);
    run(src, ctx, &cfg, &e, p, false)
}

fn deep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
    if src.chance(1, 3) {
        cfg.levels = Some(src.range(2, 8) as u8);
    }
    any_file(src, &mut cfg, ctx);
    let e = entries(src, EntOpts::new(300, 200_000), 1024);
    let probes = (0..src.range(1, 40)).map(|_| probe(src, &e)).collect();
    run(src, ctx, &cfg, &e, probes, true)
}

fn any_config(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = src.span(|s| cfg(s, CFG_ANY));
    let max_n = if cfg.levels_eff() > 5 { 40 } else { 1000 };
    let e = entries(src, EntOpts::new(max_n, 60_000), cfg.block_eff());
    let m = if cfg.levels_eff() > 20 { 4 } else { 20 };
    let probes = (0..src.range(1, m)).map(|_| probe(src, &e)).collect();
    run(src, ctx, &cfg, &e, probes, true)
}

fn depths(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(256 * 8);
    let cfg = Cfg { levels: Some((i % 256) as u8), block: Some(1024), interval: Some(1 + (i / 256) as usize), ..Cfg::plain() };
    let n = if i % 256 < 12 { 60 } else { 6 };
    let e: Entries = (0..n).map(|j| ([vec![b'k'; 400], vec![2 * j as u8 + 1]].concat(), vec![j as u8; 100])).collect();
    let probes = (0..=2 * n + 1).map(|j| [vec![b'k'; 400], vec![j as u8]].concat()).collect();
    run(src, ctx, &cfg, &e, probes, false)
}

fn jumbo(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let i = src.below(12);
    let (cfg, n, vlen) = match i % 4 {
        0 => (Cfg { block: Some(usize::MAX), interval: Some(1), ..Cfg::plain() }, 70_000u32, 4),
        1 => (Cfg { block: Some(1 << 22), interval: Some(5000), ..Cfg::plain() }, 100_000, 4),
        2 => (Cfg { block: Some(1024), ..Cfg::plain() }, 66_000, 1100),
        _ => (Cfg { block: Some(1024), levels: Some(3), interval: Some(3), ..Cfg::plain() }, 200_000, 20),
    };
    let e: Entries = (0..n).map(|i| ((i * 3 + 1).to_be_bytes().to_vec(), vec![(i % 251) as u8; vlen])).collect();
    let bytes = file(&cfg, &e)?;
    let mut c = open(&bytes)?;
    for _ in 0..150 {
        let q = match src.index(4) {
            0 => src.range(0, 8) as u32,
            1 => 3 * n - src.range(0, 6) as u32,
            2 => 3 * 65_536 + src.range(0, 12) as u32 - 6,
            _ => src.below(3 * n as u64 + 3) as u32,
        };
        check_probe(&mut c, &e, &q.to_be_bytes(), "reset")?;
    }
    ctx.nontrivial();
    ctx.sample(|| format!("{} | {} | 150 probes", cfg.desc(), describe(&e)));
    Ok(())
}
