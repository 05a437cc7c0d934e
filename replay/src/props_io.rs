//! C01 C09 C10 C11 C13 C14 C15 C18
use crate::decode;
use crate::gen::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{ensure, note};
use std::io::Cursor;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn check_scans<T: AsRef<[u8]> + Clone>(bytes: T, es: &[KV]) -> Res {
    let mut c = cursor(bytes.clone())?;
    same("forward scan", &forward(&mut c, es.len())?, es)?;
    let mut rev: Vec<KV> = es.to_vec();
    rev.reverse();
    let mut c = cursor(bytes)?;
    same("backward scan", &backward(&mut c, es.len())?, &rev)
}

/// A file of more than 4 GiB, of which the long runs of zeros are not kept.
#[derive(Clone, Default)]
struct Sparse {
    len: u64,
    pos: u64,
    parts: std::collections::BTreeMap<u64, Vec<u8>>,
}

impl std::io::Write for Sparse {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        const EDGE: usize = 1 << 16;
        if b.len() > 4 * EDGE {
            self.parts.insert(self.len, b[..EDGE].to_vec());
            self.parts.insert(self.len + (b.len() - EDGE) as u64, b[b.len() - EDGE..].to_vec());
        } else {
            self.parts.insert(self.len, b.to_vec());
        }
        self.len += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl std::io::Read for Sparse {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        let n = (b.len() as u64).min(self.len.saturating_sub(self.pos));
        let (from, to) = (self.pos, self.pos + n);
        b[..n as usize].fill(0);
        for (&at, x) in self.parts.range(..to).rev() {
            let end = at + x.len() as u64;
            if end <= from.saturating_sub(1 << 20) {
                break;
            }
            let (lo, hi) = (at.max(from), end.min(to));
            if lo < hi {
                b[(lo - from) as usize..(hi - from) as usize].copy_from_slice(&x[(lo - at) as usize..(hi - at) as usize]);
            }
        }
        self.pos = to;
        Ok(n as usize)
    }
}
impl std::io::Seek for Sparse {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        let to = match p {
            std::io::SeekFrom::Start(n) => n as i128,
            std::io::SeekFrom::End(d) => self.len as i128 + d as i128,
            std::io::SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        self.pos = u64::try_from(to).map_err(|_| std::io::Error::from(std::io::ErrorKind::InvalidInput))?;
        Ok(self.pos)
    }
}

fn huge(levels: u8) -> Res {
    note!("five values of 1 GiB, a small entry around each, {levels} index levels");
    let err = |e: grenad::Error| e.to_string();
    let mut w = grenad::WriterBuilder::new().index_levels(levels).build(Sparse::default());
    let big = vec![0u8; 1 << 30];
    let mut lens = Vec::new();
    for i in 0..5u8 {
        for (k, v) in [(vec![i, 0], &[][..]), (vec![i, 1], &big[..]), (vec![i, 2], &[7, i][..])] {
            w.insert(&k, v).map_err(|e| e.to_string())?;
            lens.push((k, v.len()));
        }
    }
    let f = w.into_inner().map_err(|e| e.to_string())?;
    let mut c = grenad::Reader::new(f).map_err(err)?.into_cursor().map_err(err)?;
    for q in [14usize, 12, 2, 0] {
        let got = c.move_on_key_greater_than_or_equal_to(&lens[q].0).map_err(err)?.map(|(k, v)| (k.to_vec(), v.len()));
        ensure!(got.as_ref() == Some(&lens[q]), "seek in a file of 5 GiB gives {got:?} instead of {:?}", lens[q]);
    }
    let mut n = 0;
    c.reset();
    while let Some((k, v)) = c.move_on_next().map_err(err)? {
        ensure!(n < 15 && lens[n].0 == k && lens[n].1 == v.len(), "entry {n} of a file of 5 GiB is {} of {}B", hex(k), v.len());
        n += 1;
    }
    ensure!(n == 15, "{n} entries of 15 in a file of 5 GiB");
    Ok(())
}

pub fn c01(r: &mut Rng, size: usize, id: u64) -> Res {
    if deep() && id == 3 {
        return huge(1);
    }
    let cfg = if r.chance(1, 2) { Config::gen(r) } else { Config::gen_deep(r) };
    let es = entries(r, size);
    note!("config {cfg:?}\n{}", show(&es));
    let bytes = write_file(&cfg, &es)?;
    let rd = open(&bytes[..])?;
    ensure!(rd.len() == es.len() as u64, "Reader::len is {} for {} inserts", rd.len(), es.len());
    ensure!(rd.is_empty() == es.is_empty(), "Reader::is_empty is {}", rd.is_empty());
    ensure!(rd.compression_type() == cfg.codec, "Reader::compression_type is {:?}", rd.compression_type());
    check_scans(&bytes[..], &es)
}

pub fn c09(r: &mut Rng, size: usize, id: u64) -> Res {
    let cfg = if r.chance(1, 2) { Config::gen(r) } else { Config::gen_deep(r) };
    let es = entries(r, size);
    note!("config {cfg:?}\n{}", show(&es));
    if id % 4 != 3 || cfg.codec == grenad::CompressionType::Snappy {
        let bytes = write_file(&cfg, &es)?;
        let f = decode::file(&bytes, Some(cfg.effective_interval())).map_err(|e| format!("independent decoder: {e}"))?;
        ensure!(f.trailer.codec == codec_id(cfg.codec), "trailer codec {}", f.trailer.codec);
        ensure!(f.trailer.levels as usize == cfg.effective_levels(), "trailer index levels {}", f.trailer.levels);
        ensure!(f.trailer.count == es.len() as u64, "trailer count {}", f.trailer.count);
        same("independent decoder", &f.entries, &es)?;
        if cfg.codec != grenad::CompressionType::Snappy {
            // grenad 0.4.7 reads it
            let rd = grenad_0_4::Reader::new(Cursor::new(&bytes[..])).map_err(|e| format!("0.4.7 Reader::new: {e}"))?;
            let mut c = rd.into_cursor().map_err(|e| format!("0.4.7 into_cursor: {e}"))?;
            let mut got = Vec::new();
            while let Some((k, v)) = c.move_on_next().map_err(|e| format!("0.4.7 next: {e}"))? {
                got.push((k.to_vec(), v.to_vec()));
                ensure!(got.len() <= es.len(), "0.4.7 reads more entries than inserted");
            }
            same("grenad 0.4.7 reader", &got, &es)?;
        }
    } else {
        // grenad 0.4.7 writes, the current one reads
        use grenad_0_4::CompressionType as Old;
        let mut b = grenad_0_4::WriterBuilder::new();
        b.compression_type(match codec_id(cfg.codec) {
            0 => Old::None,
            1 => Old::Snappy,
            2 => Old::Zlib,
            3 => Old::Lz4,
            _ => Old::Zstd,
        });
        if let Some(l) = cfg.level {
            b.compression_level(l.min(9));
        }
        if let Some(s) = cfg.block_size {
            b.block_size(s);
        }
        if let Some(i) = cfg.interval {
            b.index_key_interval(std::num::NonZeroUsize::new(i).unwrap());
        }
        if let Some(l) = cfg.levels {
            b.index_levels(l.min(40));
        }
        let mut w = b.memory();
        for (k, v) in &es {
            w.insert(k, v).unwrap();
        }
        let bytes = w.into_inner().unwrap();
        let rd = open(&bytes[..])?;
        ensure!(rd.len() == es.len() as u64, "0.4.7 file: len {}", rd.len());
        check_scans(&bytes[..], &es).map_err(|e| format!("0.4.7 file: {e}"))?;
        for _ in 0..10 {
            let q = probe(r, &es);
            let mut c = cursor(&bytes[..])?;
            let got = own(c.move_on_key_greater_than_or_equal_to(&q).map_err(|e| e.to_string())?);
            let want = es.iter().find(|(k, _)| *k >= q).cloned();
            ensure!(got == want, "0.4.7 file: ge {} gives {} instead of {}", hex(&q), showo(&got), showo(&want));
        }
    }
    Ok(())
}

pub fn c10(r: &mut Rng, size: usize, _id: u64) -> Res {
    let mut cfg = Config::gen(r);
    cfg.levels = None;
    let es = entries(r, size);
    note!("config {cfg:?}\n{}", show(&es));
    let v2 = write_file(&cfg, &es)?;
    let v1 = to_v1(&v2);
    let rd = open(&v1[..])?;
    ensure!(rd.file_version() == grenad::FileVersion::FormatV1, "version {:?}", rd.file_version());
    ensure!(rd.len() == es.len() as u64, "len {}", rd.len());
    ensure!(rd.compression_type() == cfg.codec, "codec {:?}", rd.compression_type());
    check_scans(&v1[..], &es)?;
    for _ in 0..12 {
        let q = probe(r, &es);
        let p = probe(r, &es);
        macro_rules! both {
            ($what:expr, $f:expr) => {{
                let f = $f;
                let a: Result<_, String> = f(&v1[..]);
                let b: Result<_, String> = f(&v2[..]);
                ensure!(a == b, "{} on {} {}: version 1 gives {:?}, version 2 gives {:?}", $what, hex(&q), hex(&p), a, b);
            }};
        }
        both!("ge", |b: &[u8]| Ok(own(cursor(b)?.move_on_key_greater_than_or_equal_to(&q).map_err(|e| e.to_string())?)));
        both!("le", |b: &[u8]| Ok(own(cursor(b)?.move_on_key_lower_than_or_equal_to(&q).map_err(|e| e.to_string())?)));
        both!("eq", |b: &[u8]| Ok(own(cursor(b)?.move_on_key_equal_to(&q).map_err(|e| e.to_string())?)));
        both!("range", |b: &[u8]| {
            let mut it = open(b)?.into_range_iter::<_, Vec<u8>>((std::ops::Bound::Included(q.clone()), std::ops::Bound::Excluded(p.clone()))).map_err(|e| e.to_string())?;
            let mut out = Vec::new();
            while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
                out.push(x);
            }
            Ok(out)
        });
        both!("rev range", |b: &[u8]| {
            let mut it = open(b)?.into_rev_range_iter::<_, Vec<u8>>((std::ops::Bound::Excluded(q.clone()), std::ops::Bound::Included(p.clone()))).map_err(|e| e.to_string())?;
            let mut out = Vec::new();
            while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
                out.push(x);
            }
            Ok(out)
        });
        both!("prefix", |b: &[u8]| {
            let mut it = open(b)?.into_prefix_iter(q.clone()).map_err(|e| e.to_string())?;
            let mut out = Vec::new();
            while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
                out.push(x);
            }
            Ok(out)
        });
        both!("rev prefix", |b: &[u8]| {
            let mut it = open(b)?.into_rev_prefix_iter(q.clone()).map_err(|e| e.to_string())?;
            let mut out = Vec::new();
            while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
                out.push(x);
            }
            Ok(out)
        });
    }
    Ok(())
}

pub fn c13(r: &mut Rng, size: usize, id: u64) -> Res {
    let check = |bytes: &[u8]| -> Res {
        let want = decode::trailer(bytes);
        let got = catch_unwind(AssertUnwindSafe(|| {
            grenad::Reader::new(Cursor::new(bytes)).map(|rd| (rd.len(), codec_id(rd.compression_type()), rd.file_version() == grenad::FileVersion::FormatV1))
        }));
        let tail: Vec<u8> = bytes[bytes.len().saturating_sub(26)..].to_vec();
        match got {
            Err(_) => Err(format!("Reader::new panics on {} bytes ending in {:02x?}", bytes.len(), tail)),
            Ok(Ok((len, codec, v1))) => match want {
                Some(t) => {
                    ensure!(t.count == len && t.codec == codec && (t.version == 1) == v1, "trailer {t:?} opened as len {len} codec {codec} v1 {v1}");
                    Ok(())
                }
                None => Err(format!("Reader::new accepts {} bytes ending in {:02x?}", bytes.len(), tail)),
            },
            Ok(Err(e)) => match want {
                Some(t) => Err(format!("Reader::new rejects ({e}) {} bytes with the trailer {t:?}", bytes.len())),
                None => Ok(()),
            },
        }
    };
    match id % 3 {
        0 => {
            let cfg = Config::gen(r);
            let n = count(r, size.min(3));
            let es = entries_n(r, n);
            note!("truncations/mutations of the file of {cfg:?} {}", show(&es));
            let bytes = write_file(&cfg, &es)?;
            check(&bytes)?;
            let v1 = to_v1(&bytes);
            check(&v1)?;
            for b in [&bytes, &v1] {
                if b.len() > 40_000 {
                    continue;
                }
                for i in 0..b.len() {
                    if b.len() < 400 || i + 60 > b.len() || r.chance(100, b.len()) {
                        check(&b[..i])?;
                        if i < 60 {
                            check(&b[b.len() - i..])?;
                        }
                    }
                }
                for _ in 0..60 {
                    let mut m = b.clone();
                    let n = m.len();
                    let i = n - 1 - r.below(n.min(24));
                    m[i] = if r.chance(1, 2) { r.below(8) as u8 } else { r.next() as u8 };
                    check(&m)?;
                }
            }
        }
        1 => {
            // synthetic trailers on short strings
            note!("synthetic trailers");
            for _ in 0..400 {
                let n = r.below(48);
                let mut b = r.bytes(n);
                let magic = *r.pick(&[decode::MAGIC_V1, decode::MAGIC_V2, decode::MAGIC_V1.swap_bytes(), decode::MAGIC_V2.swap_bytes(), decode::MAGIC_V2 ^ 1]);
                b.extend(magic.to_le_bytes());
                for back in [13, 14, 12, 22, 21] {
                    if r.chance(1, 2) && b.len() >= back {
                        let i = b.len() - back;
                        b[i] = r.below(8) as u8;
                    }
                }
                check(&b)?;
            }
        }
        _ => {
            note!("random strings");
            for _ in 0..400 {
                let n = r.below(64);
                check(&r.bytes(n))?;
            }
        }
    }
    Ok(())
}

pub fn c14(r: &mut Rng, size: usize, id: u64) -> Res {
    #[cfg(feature = "hooks")]
    {
        let codec = |v: u32| -> Res {
            let mut buf = [0x5a; 10];
            let enc = grenad::verif::varint_encode32(&mut buf, v).to_vec();
            ensure!((1..=5).contains(&enc.len()), "{v} encoded in {} bytes", enc.len());
            let mut at = 0;
            let (mut x, mut sh) = (0u64, 0);
            loop {
                let b = *enc.get(at).ok_or(format!("{v} encoded as {enc:02x?}: not terminated"))?;
                at += 1;
                x |= ((b & 0x7f) as u64) << sh;
                sh += 7;
                if b & 0x80 == 0 {
                    break;
                }
            }
            ensure!(x == v as u64 && at == enc.len(), "{v} encoded as {enc:02x?}");
            for tail in [&[][..], &[0xff; 6][..], &[0; 3][..]] {
                let mut data = enc.clone();
                data.extend_from_slice(tail);
                let mut out = 7;
                let n = grenad::verif::varint_decode32(&data, &mut out);
                ensure!(out == v && n == enc.len(), "{v} encoded as {enc:02x?} followed by {tail:02x?} decodes to {out} in {n} bytes");
            }
            Ok(())
        };
        if id == 0 {
            note!("length codec around every power of two");
            for p in 0..32u32 {
                for d in -300i64..300 {
                    if let Ok(v) = u32::try_from((1i64 << p) + d) {
                        codec(v)?;
                    }
                }
            }
            for v in 0..70_000u32 {
                codec(v)?;
                codec(u32::MAX - v)?;
            }
        } else if id % 4 == 1 {
            note!("length codec on random lengths");
            for _ in 0..40_000 {
                let v = (r.next() as u32) >> r.below(32);
                codec(v)?;
            }
        } else if size == 8 {
            // thorough: slices of the full domain, 4096 slices in total
            let slice = (id / 9) % 4096;
            note!("length codec, slice {slice} of 4096 of the full domain");
            for v in 0..(1u32 << 20) {
                codec((slice as u32) << 20 | v)?;
            }
            return Ok(());
        }
    }
    let _ = size;
    // API level
    let mut lens: Vec<usize> = vec![0, 1, 127, 128, 129, 255, 256, 16383, 16384, 16385, 65535, 65536];
    if id % 8 == 2 {
        lens.extend([(1 << 21) - 1, 1 << 21, (1 << 21) + 1]);
    }
    if id == 3 {
        lens = vec![3, (1 << 28) - 1, (1 << 28) + 1];
    }
    for _ in 0..3 {
        lens.push(r.range(0, 40_000));
    }
    let as_key = id % 2 == 0;
    let mut es: Entries = Vec::new();
    if as_key {
        lens.sort();
        lens.dedup();
        // prefixes of one another: ascending by length
        for &l in &lens {
            es.push((vec![b'k'; l], vec![l as u8; 3]));
        }
    } else {
        for (i, &l) in lens.iter().enumerate() {
            es.push((vec![i as u8], vec![l as u8; l]));
        }
    }
    let cfg = Config { block_size: Some(if id % 3 == 0 { 1024 } else { 1 << 20 }), ..Config::plain() };
    note!("{} lengths {lens:?}", if as_key { "key" } else { "value" });
    let bytes = write_file(&cfg, &es)?;
    let mut c = cursor(&bytes[..])?;
    let mut i = 0;
    while let Some((k, v)) = c.move_on_next().map_err(|e| e.to_string())? {
        ensure!(i < es.len(), "too many entries");
        ensure!(k == es[i].0 && v == es[i].1, "entry {i} of lengths {} {} read back with lengths {} {} or other bytes", es[i].0.len(), es[i].1.len(), k.len(), v.len());
        i += 1;
    }
    ensure!(i == es.len(), "{i} entries instead of {}", es.len());
    Ok(())
}

fn uncompressed(es: &[KV], interval: usize) -> usize {
    let vl = |n: usize| match n {
        0..=0x7f => 1,
        0x80..=0x3fff => 2,
        0x4000..=0x1f_ffff => 3,
        0x20_0000..=0xfff_ffff => 4,
        _ => 5,
    };
    let payload: usize = es.iter().map(|(k, v)| vl(k.len()) + vl(v.len()) + k.len() + v.len()).sum();
    let offsets = if es.is_empty() { 1 } else { (es.len() - 1) / interval + 1 };
    payload + 8 * offsets + 4
}

pub fn c15(r: &mut Rng, size: usize, _id: u64) -> Res {
    let cfg = Config::gen_deep(r);
    let es = entries(r, size.max(2));
    note!("config {cfg:?}\n{}", show(&es));
    let bytes = write_file(&cfg, &es)?;
    let f = decode::file(&bytes, None).map_err(|e| format!("independent decoder: {e}"))?;
    let b = cfg.effective_block_size();
    let i = cfg.effective_interval();
    let depth = cfg.effective_levels() + 1;
    for (level, blk) in &f.blocks {
        if *level != depth && *level < 2 {
            continue;
        }
        let n = blk.entries.len();
        ensure!(n > 0, "empty block at level {level}");
        let without_last = uncompressed(&blk.entries[..n - 1], i);
        ensure!(
            n == 1 || without_last < b,
            "block at {} (level {level} of {depth}) has {n} entries, its size without the last one is {without_last} >= {b}",
            blk.offset
        );
        let last_of_level = f.blocks.iter().filter(|(l, _)| l == level).map(|(_, x)| x.offset).max() == Some(blk.offset);
        ensure!(
            last_of_level || blk.size >= b,
            "block at {} (level {level} of {depth}) was emitted with a size of {} < {b}",
            blk.offset,
            blk.size
        );
    }
    Ok(())
}

pub fn c18(r: &mut Rng, size: usize, id: u64) -> Res {
    let cfg = Config::gen_deep(r);
    let mut es = entries(r, size);
    match id % 4 {
        0 => (),
        1 => {
            // one swap, duplicate or move
            if es.len() >= 2 {
                for _ in 0..r.range(1, 3) {
                    let i = r.below(es.len());
                    let j = if r.chance(1, 2) { (i + 1).min(es.len() - 1) } else { r.below(es.len()) };
                    match r.below(3) {
                        0 => es.swap(i, j),
                        1 => es[j].0 = es[i].0.clone(),
                        _ => {
                            let e = es.remove(i);
                            es.insert(j, e);
                        }
                    }
                }
            }
        }
        2 => {
            // runs: ascending sequences one after the other
            let n = r.range(1, 4);
            let mut out = Vec::new();
            for _ in 0..n {
                out.extend(entries(r, size.min(4)));
            }
            es = out;
        }
        _ => {
            let n = es.len();
            for i in 0..n {
                let j = r.below(n);
                es.swap(i, j);
            }
        }
    }
    note!("config {cfg:?}\n{}", show(&es));
    let ascending = es.windows(2).all(|w| w[0].0 < w[1].0);
    let mut w = cfg.builder().memory();
    // keys of the data block under construction, as seen from the bytes the sink received
    let mut prev: Option<Vec<u8>> = None;
    for (n, (k, v)) in es.iter().enumerate() {
        let before = w.as_ref().len();
        let res = catch_unwind(AssertUnwindSafe(|| w.insert(k, v)));
        match res {
            Err(_) => {
                ensure!(!ascending, "insert {n} of an ascending sequence panics");
                return Ok(());
            }
            Ok(Err(e)) => return Err(format!("insert {n}: {e}")),
            Ok(Ok(())) => {
                if let Some(p) = &prev {
                    ensure!(k > p, "insert {n} of {} right after {} in the same block does not panic", hex(k), hex(p));
                }
                prev = if w.as_ref().len() > before { None } else { Some(k.clone()) };
            }
        }
    }
    let bytes = match catch_unwind(AssertUnwindSafe(|| w.into_inner())) {
        Err(_) => {
            ensure!(!ascending, "into_inner panics on an ascending sequence");
            return Ok(());
        }
        Ok(b) => b.map_err(|e| e.to_string())?,
    };
    for b in decode::sequential_blocks(&bytes)? {
        for w in b.entries.windows(2) {
            ensure!(w[0].0 < w[1].0, "block at {} stores {} then {}", b.offset, hex(&w[0].0), hex(&w[1].0));
        }
    }
    Ok(())
}
