//! C05: prefix iterators.

use super::c04::{drive, used};
use crate::engine::*;
use crate::gen::*;
use crate::util::*;
use grenad::Reader;
use std::io::{Cursor, Read, Seek};

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a case is a file and a list of prefixes, each run forward and backward; non-trivial when some prefix \
               selects a proper non-empty subset of the entries; distinct by choice sequence",
        assumptions: &["iterators are only observed up to their first None"],
        phases: vec![
            Phase::random("prefixes", 30_000, 1_000_000, prefixes),
            Phase::random("dense", 20_000, 600_000, dense),
            Phase::random("deep", 8_000, 200_000, deep),
        ],
    }
}

/// `form` as in `check_range`.
pub fn check_prefix<R: Read + Seek + Clone>(r: &Reader<R>, e: &Entries, p: &[u8], form: usize) -> Result<usize, String> {
    let mut want: Vec<(&[u8], &[u8])> =
        e.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.as_slice(), v.as_slice())).collect();
    let r = used(r, form)?;
    let fork = (form & 2 != 0).then_some(((form >> 3) % (want.len() + 1), form & 16 == 0));
    let it = r.clone().into_prefix_iter(p.to_vec()).map_err(|x| x.to_string())?;
    drive(it, &want, 0, fork, &|| format!("prefix {}", hx(p)))?;
    let it = r.into_rev_prefix_iter(p.to_vec()).map_err(|x| x.to_string())?;
    want.reverse();
    drive(it, &want, 0, fork, &|| format!("reverse prefix {}", hx(p)))?;
    Ok(want.len())
}

pub fn gen_prefix(src: &mut Src, e: &Entries) -> Vec<u8> {
    if !e.is_empty() && src.chance(1, 2) {
        let i = src.index(e.len());
        let k = &e[i].0;
        let n = src.index(k.len() + 1);
        let mut p = k[..n].to_vec();
        match src.index(8) {
            0 => p.push(0xff),
            1 => {
                if let Some(x) = p.last_mut() {
                    *x = x.wrapping_add(1)
                }
            }
            2 => {
                if let Some(x) = p.last_mut() {
                    *x = x.wrapping_sub(1)
                }
            }
            _ => {}
        }
        return p;
    }
    match src.index(4) {
        0 => vec![0xff; src.urange(0, 4)],
        1 => vec![],
        2 => {
            let mut p = probe(src, e);
            p.extend(vec![0xff; src.urange(0, 3)]);
            p
        }
        _ => probe(src, e),
    }
}

fn run(src: &mut Src, ctx: &mut Ctx, cfg: &Cfg, e: &Entries, prefixes: &[Vec<u8>]) -> CaseResult {
    let bytes = file(cfg, e)?;
    let r = Reader::new(Cursor::new(bytes.as_slice())).map_err(|x| x.to_string())?;
    ctx.sample(|| format!("{} | {} | {} prefixes, e.g. {}", cfg.desc(), describe(e), prefixes.len(), hx(&prefixes[0])));
    // cloned iterators and used readers for some
    let mut forms = if src.chance(1, 2) { None } else { Some(Rng::new(src.seed())) };
    for p in prefixes {
        let form = forms.as_mut().map_or(0, |r| r.below(1 << 12) as usize);
        let n = check_prefix(&r, e, p, form)?;
        if p.iter().all(|b| *b == 0xff) && !p.is_empty() {
            ctx.label("only 0xFF");
        } else if p.last() == Some(&0xff) {
            ctx.label("ends in 0xFF");
        }
        if inc(p).is_some_and(|s| eq_idx(e, &s).is_some()) {
            ctx.label("successor stored");
        }
        if n > 0 && n < e.len() {
            ctx.nontrivial();
        }
        ctx.label(match n {
            0 => "empty result",
            n if n == e.len() => "everything",
            _ => "proper subset",
        });
    }
    Ok(())
}

fn prefixes(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let cfg = src.span(|s| cfg(s, CFG_ANY));
    let max_n = if cfg.levels_eff() > 5 { 40 } else { 300 };
    let e = entries(src, EntOpts::new(max_n, 40_000), cfg.block_eff());
    let m = if cfg.levels_eff() > 20 { 3 } else { 12 };
    let p = src.list(1, m, |s| gen_prefix(s, &e));
    run(src, ctx, &cfg, &e, &p)
}

/// All strings over a two or three letter alphabet, most of them stored; every prefix of that universe.
fn dense(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let mut cfg = src.span(|s| cfg(s, CFG_DEEP));
    any_file(src, &mut cfg, ctx);
    let alphabet: &[u8] = src.pick(&[&[0xfe, 0xff][..], &[0x00, 0xff], &[0x61, 0x62, 0xff], &[0xff]]);
    let depth = src.range(1, 4) as usize;
    let mut all: Vec<Vec<u8>> = vec![vec![]];
    let mut from = 0;
    for _ in 0..depth {
        let to = all.len();
        for i in from..to {
            for a in alphabet {
                let mut s = all[i].clone();
                s.push(*a);
                all.push(s);
            }
        }
        from = to;
    }
    let keep = src.range(1, 4);
    let vlen = src.pick(&[0usize, 3, 400, 1100]);
    let mut rng = Rng::new(src.seed());
    let mut e: Entries = all.iter().filter(|_| rng.below(4) < keep).map(|k| (k.clone(), vec![k.len() as u8; vlen])).collect();
    e.sort();
    all.push(vec![0xff; depth + 1]);
    all.push(vec![0x61; depth + 2]);
    run(src, ctx, &cfg, &e, &all)
}

fn deep(src: &mut Src, ctx: &mut Ctx) -> CaseResult {
    let (mut cfg, e) = super::c03::deep_file(src);
    any_file(src, &mut cfg, ctx);
    let p = src.list(1, 15, |s| gen_prefix(s, &e));
    run(src, ctx, &cfg, &e, &p)
}
