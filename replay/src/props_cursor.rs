//! C02 C03 C04 C05 C16
use crate::decode;
use crate::gen::*;
use crate::io::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{ensure, note};
use std::ops::Bound;

fn file(r: &mut Rng, size: usize) -> Result<(Config, Entries, Vec<u8>), String> {
    let cfg = Config::gen_deep(r);
    let es = entries(r, size);
    note!("config {cfg:?}\n{}", show(&es));
    let mut bytes = write_file(&cfg, &es)?;
    if cfg.effective_levels() == 0 && r.chance(1, 8) {
        note!("as a version 1 file");
        bytes = to_v1(&bytes);
    }
    Ok((cfg, es, bytes))
}

pub fn ceil(es: &Entries, q: &[u8]) -> Option<usize> {
    let i = es.partition_point(|(k, _)| k.as_slice() < q);
    (i < es.len()).then_some(i)
}
pub fn floor(es: &Entries, q: &[u8]) -> Option<usize> {
    es.partition_point(|(k, _)| k.as_slice() <= q).checked_sub(1)
}
pub fn exact(es: &Entries, q: &[u8]) -> Option<usize> {
    es.binary_search_by(|(k, _)| k.as_slice().cmp(q)).ok()
}

pub fn c02(r: &mut Rng, size: usize, _id: u64) -> Res {
    let (_cfg, es, bytes) = file(r, size)?;
    let mut reused = cursor(&bytes[..])?;
    for _ in 0..60 {
        let q = probe(r, &es);
        let op = r.below(3);
        let fresh = r.chance(1, 3);
        let mut new;
        let c = if fresh {
            new = cursor(&bytes[..])?;
            &mut new
        } else {
            reused.reset();
            &mut reused
        };
        let (name, got, want) = match op {
            0 => ("greater than or equal to", own(c.move_on_key_greater_than_or_equal_to(&q).map_err(|e| e.to_string())?), ceil(&es, &q)),
            1 => ("lower than or equal to", own(c.move_on_key_lower_than_or_equal_to(&q).map_err(|e| e.to_string())?), floor(&es, &q)),
            _ => ("equal to", own(c.move_on_key_equal_to(&q).map_err(|e| e.to_string())?), exact(&es, &q)),
        };
        let want = want.map(|i| es[i].clone());
        ensure!(got == want, "seek {name} {} on a {} cursor gives {} instead of {}", hex(&q), if fresh { "fresh" } else { "reset" }, showo(&got), showo(&want));
    }
    Ok(())
}

pub fn c03(r: &mut Rng, size: usize, _id: u64) -> Res {
    let (_cfg, es, bytes) = file(r, size.min(5))?;
    let n = es.len();
    // (cursor, logical position, unspecified relative moves, current not checked)
    let mut cs = vec![(cursor(&bytes[..])?, None::<usize>, false, false)];
    let mut steps = r.range(10, 120);
    if size >= 5 {
        steps *= 3;
    }
    let mut walk = 0usize;
    let mut walk_op = 0;
    for _ in 0..steps {
        let w = r.below(cs.len());
        let mut op = r.below(10);
        if walk > 0 {
            walk -= 1;
            op = walk_op;
        } else if r.chance(1, 12) {
            // a run of relative moves, to cross block boundaries
            walk = r.range(2, 40);
            walk_op = 2 + r.below(2);
        }
        let (c, pos, vague, vague_current) = &mut cs[w];
        if *vague && (op == 2 || op == 3) {
            op = *r.pick(&[0usize, 1, 4, 5, 6]);
        }
        let err = |e: grenad::Error| e.to_string();
        let q = if op >= 4 && op <= 6 { probe(r, &es) } else { Vec::new() };
        let (name, got, want) = match op {
            0 => ("first", own(c.move_on_first().map_err(err)?), n.checked_sub(n.max(1)).or(None).filter(|_| n > 0)),
            1 => ("last", own(c.move_on_last().map_err(err)?), n.checked_sub(1)),
            2 => ("next", own(c.move_on_next().map_err(err)?), match *pos { None => Some(0), Some(i) => Some(i + 1) }.filter(|i| *i < n)),
            3 => ("prev", own(c.move_on_prev().map_err(err)?), match *pos { None => n.checked_sub(1), Some(i) => i.checked_sub(1) }),
            4 => ("ge", own(c.move_on_key_greater_than_or_equal_to(&q).map_err(err)?), ceil(&es, &q)),
            5 => ("le", own(c.move_on_key_lower_than_or_equal_to(&q).map_err(err)?), floor(&es, &q)),
            6 => ("eq", own(c.move_on_key_equal_to(&q).map_err(err)?), exact(&es, &q)),
            7 => {
                if r.chance(1, 3) {
                    note!("#{w} reset");
                    c.reset();
                    *pos = None;
                    *vague = false;
                    *vague_current = false;
                    ensure!(c.current().is_none(), "current of a reset cursor is {}", showo(&own(c.current())));
                }
                continue;
            }
            8 => {
                if cs.len() < 4 && r.chance(1, 2) {
                    note!("#{w} clone -> #{}", cs.len());
                    let new = cs[w].clone();
                    cs.push(new);
                }
                continue;
            }
            _ => {
                if !*vague_current {
                    let got = own(c.current());
                    let want = pos.map(|i| es[i].clone());
                    ensure!(got == want, "#{w} current gives {} instead of {}", showo(&got), showo(&want));
                }
                continue;
            }
        };
        note!("#{w} {name} {} -> {}", hex(&q), showo(&got));
        let want = want.map(|i| (i, es[i].clone()));
        ensure!(got == want.as_ref().map(|x| x.1.clone()), "#{w} {name} {} gives {} instead of {}", hex(&q), showo(&got), showo(&want.map(|x| x.1)));
        match want {
            Some((i, _)) => {
                *pos = Some(i);
                *vague = false;
                *vague_current = false;
            }
            None => {
                *vague = n > 0;
                // known finding: `current` after a missed equal-to/lower-or-equal seek
                if op == 5 || op == 6 {
                    *vague_current = true;
                }
            }
        }
        if !*vague_current {
            let got = own(c.current());
            let want = pos.map(|i| es[i].clone());
            ensure!(got == want, "#{w} current after {name} gives {} instead of {}", showo(&got), showo(&want));
        }
    }
    Ok(())
}

/// The listed known finding of C03, reproduced: Ok(Some(text)) when it is still there.
pub fn c03_known() -> Option<String> {
    let es: Entries = vec![(b"b".to_vec(), b"1".to_vec()), (b"d".to_vec(), b"2".to_vec())];
    let bytes = write_file(&Config::plain(), &es).ok()?;
    let mut c = cursor(&bytes[..]).ok()?;
    let last = own(c.move_on_last().ok()?);
    let miss = own(c.move_on_key_equal_to("a").ok()?);
    let cur = own(c.current());
    (last.is_some() && miss.is_none() && cur != last).then(|| format!("current() is {} after a missed equal-to seek, the last returned entry is {}", showo(&cur), showo(&last)))
}

fn show_bound(b: &Bound<Vec<u8>>) -> String {
    match b {
        Bound::Unbounded => "unbounded".into(),
        Bound::Included(k) => format!("included {}", hex(k)),
        Bound::Excluded(k) => format!("excluded {}", hex(k)),
    }
}

pub fn c04(r: &mut Rng, size: usize, _id: u64) -> Res {
    let (_cfg, es, bytes) = file(r, size)?;
    for _ in 0..if es.len() > 500 { 6 } else { 40 } {
        let mut bound = |r: &mut Rng| match r.below(5) {
            0 => Bound::Unbounded,
            1 | 2 => Bound::Included(probe(r, &es)),
            _ => Bound::Excluded(probe(r, &es)),
        };
        let start = bound(r);
        let mut end = bound(r);
        if r.chance(1, 6) {
            if let Bound::Included(k) | Bound::Excluded(k) = &start {
                end = if r.chance(1, 2) { Bound::Included(k.clone()) } else { Bound::Excluded(k.clone()) };
            }
        }
        let inside = |k: &Vec<u8>| {
            (match &start {
                Bound::Unbounded => true,
                Bound::Included(s) => k >= s,
                Bound::Excluded(s) => k > s,
            }) && (match &end {
                Bound::Unbounded => true,
                Bound::Included(e) => k <= e,
                Bound::Excluded(e) => k < e,
            })
        };
        let mut want: Vec<KV> = es.iter().filter(|(k, _)| inside(k)).cloned().collect();
        let what = format!("range ({}, {})", show_bound(&start), show_bound(&end));
        let mut it = open(&bytes[..])?.into_range_iter::<_, Vec<u8>>((start.clone(), end.clone())).map_err(|e| e.to_string())?;
        let mut got = Vec::new();
        while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
            got.push(x);
            ensure!(got.len() <= es.len(), "{what}: too many entries");
        }
        same(&what, &got, &want)?;
        want.reverse();
        let mut it = open(&bytes[..])?.into_rev_range_iter::<_, Vec<u8>>((start, end)).map_err(|e| e.to_string())?;
        let mut got = Vec::new();
        while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
            got.push(x);
            ensure!(got.len() <= es.len(), "reverse {what}: too many entries");
        }
        same(&format!("reverse {what}"), &got, &want)?;
    }
    Ok(())
}

pub fn c05(r: &mut Rng, size: usize, _id: u64) -> Res {
    let (_cfg, es, bytes) = file(r, size)?;
    for _ in 0..if es.len() > 500 { 8 } else { 40 } {
        let mut p = probe(r, &es);
        match r.below(6) {
            0 => p = vec![0xff; r.below(5)],
            1 => p.push(0xff),
            2 => {
                let n = r.below(p.len() + 1);
                p.truncate(n)
            }
            _ => (),
        }
        let mut want: Vec<KV> = es.iter().filter(|(k, _)| k.starts_with(&p)).cloned().collect();
        let mut it = open(&bytes[..])?.into_prefix_iter(p.clone()).map_err(|e| e.to_string())?;
        let mut got = Vec::new();
        while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
            got.push(x);
            ensure!(got.len() <= es.len(), "prefix {}: too many entries", hex(&p));
        }
        same(&format!("prefix {}", hex(&p)), &got, &want)?;
        want.reverse();
        let mut it = open(&bytes[..])?.into_rev_prefix_iter(p.clone()).map_err(|e| e.to_string())?;
        let mut got = Vec::new();
        while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
            got.push(x);
            ensure!(got.len() <= es.len(), "reverse prefix {}: too many entries", hex(&p));
        }
        same(&format!("reverse prefix {}", hex(&p)), &got, &want)?;
    }
    Ok(())
}

pub fn c16(r: &mut Rng, size: usize, _id: u64) -> Res {
    let (cfg, es, bytes) = file(r, size)?;
    let offsets: std::collections::HashSet<u64> = if decode::trailer(&bytes).map_or(false, |t| t.version == 2) {
        decode::file(&bytes, None)?.blocks.iter().map(|(_, b)| b.offset).collect()
    } else {
        return Ok(());
    };
    let ctl = Ctl::new(Plan::default(), 1);
    ctl.with(|s| s.log_reads = true);
    let rd = inst_reader(&bytes, &ctl).map_err(|e| e.to_string())?;
    ctl.with(|s| {
        ensure!(s.bytes_read <= 4 + 22 && (s.bytes_read == 0 || s.lowest_read >= bytes.len() as u64 - 22), "opening reads {} bytes from offset {} of a file of {}", s.bytes_read, s.lowest_read, bytes.len());
        Ok(())
    })?;
    let mut c = rd.into_cursor().map_err(|e| e.to_string())?;
    let max = 2 * (cfg.effective_levels() as u64 + 2);
    let mut steps = 120;
    while steps > 0 {
        steps -= 1;
        ctl.with(|s| {
            s.read_positions.clear();
            s.seeks = 0;
            s.bytes_read = 0;
        });
        let err = |e: grenad::Error| e.to_string();
        let q = probe(r, &es);
        let op = r.below(9);
        let name = ["first", "last", "next", "prev", "ge", "le", "eq", "reset", "next"][op];
        let n = if (op == 2 || op == 3) && r.chance(1, 3) { 20 } else { 1 };
        for _ in 0..n {
            match op {
                0 => drop(c.move_on_first().map_err(err)?),
                1 => drop(c.move_on_last().map_err(err)?),
                2 | 8 => drop(c.move_on_next().map_err(err)?),
                3 => drop(c.move_on_prev().map_err(err)?),
                4 => drop(c.move_on_key_greater_than_or_equal_to(&q).map_err(err)?),
                5 => drop(c.move_on_key_lower_than_or_equal_to(&q).map_err(err)?),
                6 => drop(c.move_on_key_equal_to(&q).map_err(err)?),
                _ => c.reset(),
            }
            note!("{name} {}", hex(&q));
            ctl.with(|s| {
                let loads = s.read_positions.iter().filter(|p| offsets.contains(p)).count() as u64;
                ensure!(loads.max(s.seeks) <= max, "{name} {} loads {loads} blocks with {} seeks, at most {max} are allowed with {} index levels", hex(&q), s.seeks, cfg.effective_levels());
                s.read_positions.clear();
                s.seeks = 0;
                Ok(())
            })?;
        }
    }
    Ok(())
}
