//! C06 C07 C08 C17
use crate::alloc;
use crate::gen::*;
use crate::io::*;
use crate::rng::Rng;
use crate::util::*;
use crate::{ensure, note};
use std::collections::BTreeMap;
use std::io::Cursor;
use std::num::NonZeroUsize;
use std::sync::atomic::Ordering::SeqCst;
use std::sync::{Arc, Mutex};

pub fn c06(r: &mut Rng, size: usize, id: u64) -> Res {
    let n = match r.below(4) {
        0 => r.below(3),
        1 => r.below(6),
        _ => r.range(2, 12),
    };
    let mut sources: Vec<Entries> = Vec::new();
    let style = r.below(8);
    let many = suspicious(r, 40) && r.chance(1, 2);
    let n = if many { boundary(r, 700) } else { n };
    let n = if deep() && id == 3 { 65_600 } else { n };
    let many = many || n > 1000;
    for s in 0..n {
        if many {
            // every source holds few keys, most of them shared
            let mut map = BTreeMap::new();
            for _ in 0..r.range(0, 3) {
                map.insert(vec![r.below(3) as u8], (s as u32).to_be_bytes().to_vec());
            }
            sources.push(map.into_iter().collect());
            continue;
        }
        let m = if r.chance(1, 8) { 0 } else { count(r, size.min(4)) };
        let mut map = BTreeMap::new();
        for i in 0..m {
            let k = if r.chance(1, 3) && s > 0 && !sources[0].is_empty() {
                let j = r.below(s);
                if sources[j].is_empty() { key(r, style, i) } else { let x = r.below(sources[j].len()); sources[j][x].0.clone() }
            } else {
                key(r, style, i)
            };
            let mut v = vec![s as u8];
            v.extend(val(r, 1));
            if r.chance(1, 40) {
                v.resize(3000, 1);
            }
            if r.chance(1, 30) {
                v.clear();
            }
            map.insert(k, v);
        }
        sources.push(map.into_iter().collect());
    }
    note!("{n} sources");
    for s in sources.iter().take(400) {
        note!("source: {}", show(s));
    }
    let mut want: BTreeMap<Vec<u8>, Vec<Vec<u8>>> = BTreeMap::new();
    for s in &sources {
        for (k, v) in s {
            want.entry(k.clone()).or_default().push(v.clone());
        }
    }
    let content: Vec<KV> = want.iter().map(|(k, vs)| (k.clone(), vs.concat())).collect();
    let cfgs: Vec<Config> = (0..n).map(|_| if many { Config::plain() } else { Config::gen_deep(r) }).collect();
    let build = |merge| -> Result<_, String> {
        let mut b = grenad::Merger::builder(merge);
        let mut bulk = Vec::new();
        for (i, s) in sources.iter().enumerate() {
            let bytes = write_file(&cfgs[i], s)?;
            let c = cursor(bytes)?;
            match (n + i) % 3 {
                0 if bulk.is_empty() => b.push(c),
                1 if bulk.is_empty() => b = b.add(c),
                _ => bulk.push(c),
            }
        }
        b.extend(bulk);
        Ok(b.build())
    };
    let merge = Concat::new();
    let mut it = build(&merge)?.into_stream_merger_iter().map_err(|e| e.to_string())?;
    let mut got = Vec::new();
    while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
        got.push(x);
        ensure!(got.len() <= content.len(), "the merger yields too many entries, the last one is {}", showo(&got.last().cloned()));
    }
    same("merger", &got, &content)?;
    drop(it);
    let log = merge.log.borrow();
    let mut calls: BTreeMap<&Vec<u8>, usize> = BTreeMap::new();
    for (k, vs) in log.iter() {
        *calls.entry(k).or_default() += 1;
        ensure!(want.get(k) == Some(vs), "merge of {} called with {:02x?} instead of {:02x?}", hex(k), vs, want.get(k));
    }
    for (k, vs) in &want {
        let n = calls.get(k).copied().unwrap_or(0);
        ensure!(if vs.len() > 1 { n == 1 } else { n <= 1 }, "merge called {n} times for {} held by {} sources", hex(k), vs.len());
    }
    // Streaming into a writer
    let merge = Concat::new();
    let mut w = Config::gen_deep(r).builder().memory();
    build(&merge)?.write_into_stream_writer(&mut w).map_err(|e| e.to_string())?;
    let bytes = w.into_inner().map_err(|e| e.to_string())?;
    let rd = open(&bytes[..])?;
    ensure!(rd.len() == content.len() as u64, "merged file len {}", rd.len());
    let mut c = cursor(&bytes[..])?;
    same("merged file", &forward(&mut c, content.len())?, &content)
}

#[derive(Default)]
pub struct Tracker {
    pub live: usize,
    pub max_live: usize,
    pub creates: usize,
    pub since: u64,
    pub max_since: u64,
}

pub struct Chunk {
    inner: Mem,
    t: Arc<Mutex<Tracker>>,
}

impl Drop for Chunk {
    fn drop(&mut self) {
        self.t.lock().unwrap_or_else(|e| e.into_inner()).live -= 1;
    }
}
impl std::io::Write for Chunk {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.inner.write(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        self.inner.flush()
    }
}
impl std::io::Read for Chunk {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        self.inner.read(b)
    }
}
impl std::io::Seek for Chunk {
    fn seek(&mut self, p: std::io::SeekFrom) -> std::io::Result<u64> {
        self.inner.seek(p)
    }
}

pub struct Creator {
    pub t: Arc<Mutex<Tracker>>,
    pub ctl: Ctl,
}

impl grenad::ChunkCreator for Creator {
    type Chunk = Chunk;
    type Error = grenad::Error;
    fn create(&self) -> Result<Chunk, grenad::Error> {
        let mut t = self.t.lock().unwrap_or_else(|e| e.into_inner());
        t.live += 1;
        t.max_live = t.max_live.max(t.live);
        t.creates += 1;
        t.since = 0;
        Ok(Chunk { inner: mem(Vec::new(), &self.ctl), t: self.t.clone() })
    }
}

#[derive(Clone, Debug)]
pub struct SortCfg {
    pub threshold: Option<usize>,
    /// hook: unclamped threshold and initial capacity
    pub small: Option<(usize, usize)>,
    pub realloc: Option<bool>,
    pub max_chunks: Option<usize>,
    pub codec: Option<grenad::CompressionType>,
    pub level: Option<u32>,
    pub interval: Option<usize>,
    pub block_size: Option<usize>,
    pub levels: Option<u8>,
    pub stable: Option<bool>,
    pub parallel: bool,
}

impl SortCfg {
    pub fn gen(r: &mut Rng) -> SortCfg {
        let c = Config::gen_deep(r);
        let realloc = *r.pick(&[None, Some(true), Some(false), Some(false)]);
        let t = *r.pick(&[256usize, 300, 1000, 1024, 2500, 5000, 10_000, 64_000]);
        let small = if cfg!(feature = "hooks") {
            Some((t, if realloc == Some(false) { t } else { *r.pick(&[16usize, 32, 64, 100, 128, 256]) }))
        } else {
            None
        };
        SortCfg {
            threshold: *r.pick(&[None, Some(0), Some(10_485_760)]),
            small,
            realloc,
            max_chunks: if suspicious(r, 30) { Some(boundary(r, 700)) } else { *r.pick(&[None, Some(0), Some(1), Some(2), Some(3), Some(10)]) },
            codec: if r.chance(1, 2) { None } else { Some(c.codec) },
            level: c.level.map(|l| l.min(9)),
            interval: c.interval,
            block_size: c.block_size,
            levels: c.levels.map(|l| l.min(5)),
            stable: *r.pick(&[None, Some(true), Some(true), Some(false)]),
            parallel: r.chance(1, 4),
        }
    }
    pub fn is_stable(&self) -> bool {
        self.stable != Some(false)
    }
    pub fn builder<MF>(&self, merge: MF) -> grenad::SorterBuilder<MF, grenad::DefaultChunkCreator> {
        let mut b = grenad::SorterBuilder::new(merge);
        if let Some(t) = self.threshold {
            b.dump_threshold(t);
        }
        if let Some(x) = self.realloc {
            b.allow_realloc(x);
        }
        if let Some(n) = self.max_chunks {
            b.max_nb_chunks(n);
        }
        if let Some(c) = self.codec {
            b.chunk_compression_type(c);
        }
        if let Some(l) = self.level {
            b.chunk_compression_level(l);
        }
        if let Some(i) = self.interval {
            b.index_key_interval(NonZeroUsize::new(i).unwrap());
        }
        if let Some(s) = self.block_size {
            b.block_size(s);
        }
        if let Some(l) = self.levels {
            b.index_levels(l);
        }
        if let Some(s) = self.stable {
            b.sort_algorithm(if s { grenad::SortAlgorithm::Stable } else { grenad::SortAlgorithm::Unstable });
        }
        if self.parallel {
            b.sort_in_parallel(true);
        }
        #[cfg(feature = "hooks")]
        if let Some((t, _)) = self.small {
            b.verif_dump_threshold(t);
        }
        b
    }
    pub fn finish<MF, CC: grenad::ChunkCreator>(&self, s: grenad::Sorter<MF, CC>) -> grenad::Sorter<MF, CC> {
        #[cfg(feature = "hooks")]
        if let Some((_, cap)) = self.small {
            if self.realloc != Some(false) {
                return s.verif_initial_capacity(cap);
            }
        }
        s
    }
    pub fn effective_budget(&self) -> usize {
        match self.small {
            Some((t, _)) => t,
            None => self.threshold.map_or(1 << 30, |t| t.max(10_485_760)),
        }
    }
    pub fn effective_max_chunks(&self) -> usize {
        self.max_chunks.map_or(25, |n| n.max(1))
    }
}

/// All the ways to get the content of a sorter.
pub fn content<CC: grenad::ChunkCreator>(s: grenad::Sorter<&Concat, CC>, merge: &Concat, way: usize, max: usize) -> Result<Vec<KV>, String> {
    let mut got = Vec::new();
    match way {
        0 => {
            let mut it = s.into_stream_merger_iter().map_err(|e| e.to_string())?;
            while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
                got.push(x);
                ensure!(got.len() <= max, "the sorter yields too many entries");
            }
        }
        1 => {
            let mut w = grenad::Writer::memory();
            s.write_into_stream_writer(&mut w).map_err(|e| e.to_string())?;
            let bytes = w.into_inner().map_err(|e| e.to_string())?;
            got = forward(&mut cursor(bytes)?, max)?;
        }
        _ => {
            let cs = s.into_reader_cursors().map_err(|e| e.to_string())?;
            let mut b = grenad::Merger::builder(merge);
            b.extend(cs);
            let mut it = b.build().into_stream_merger_iter().map_err(|e| e.to_string())?;
            while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
                got.push(x);
                ensure!(got.len() <= max, "merging the cursors yields too many entries");
            }
        }
    }
    Ok(got)
}

/// Pairs with duplicates, in any order.
pub fn pairs(r: &mut Rng, size: usize, fixed_values: bool) -> Entries {
    let odd = suspicious(r, 40);
    let n = if odd && r.chance(1, 2) { boundary(r, 5000) } else { count(r, size) };
    let style = r.below(8);
    let vs = r.below(7);
    let distinct = *r.pick(&[1usize, 2, 5, 50, 1000]);
    let odd = odd && n <= 50;
    let keys: Vec<Vec<u8>> = (0..distinct.min(n.max(1))).map(|i| key(r, style, i)).collect();
    (0..n)
        .map(|i| {
            let mut k = r.pick(&keys).clone();
            if odd && r.chance(1, 6) {
                let n = boundary(r, 70_000);
                k = vec![b'k'; n];
            }
            let v = if fixed_values {
                (i as u32).to_be_bytes().to_vec()
            } else if odd && r.chance(1, 6) {
                let n = boundary(r, 140_000);
                vec![i as u8; n]
            } else if vs == 3 && n > 200 {
                val(r, 2)
            } else {
                val(r, vs)
            };
            (k, v)
        })
        .collect()
}

pub fn c07(r: &mut Rng, size: usize, id: u64) -> Res {
    let mut cfg = SortCfg::gen(r);
    let way = r.below(3);
    let creator = r.below(3);
    let ps;
    if id % 24 == 5 {
        // real thresholds: about 30 MB
        cfg.small = None;
        cfg.threshold = Some(0);
        cfg.codec = None;
        let n = r.range(200, 3000);
        let len = 30_000_000 / n;
        let keys = r.range(2, n);
        ps = (0..n)
            .map(|i| {
                let mut v = vec![i as u8; r.range(len / 2, len)];
                if cfg.stable == Some(false) {
                    v.truncate(4);
                }
                (((r.below(keys)) as u32).to_be_bytes().to_vec(), v)
            })
            .collect::<Vec<_>>();
        let mut ps2 = ps.clone();
        if cfg.stable == Some(false) {
            for (i, p) in ps2.iter_mut().enumerate() {
                p.1 = (i as u32).to_be_bytes().to_vec();
            }
        }
        note!("real thresholds {cfg:?} {}", show(&ps2));
        return run_sorter(&cfg, &ps2, way, creator);
    }
    ps = pairs(r, size, !cfg.is_stable());
    note!("{cfg:?} output {way} creator {creator}\n{}", show(&ps));
    run_sorter(&cfg, &ps, way, creator)
}

pub fn expected(ps: &[KV], stable: bool) -> Vec<KV> {
    let mut m: BTreeMap<Vec<u8>, Vec<Vec<u8>>> = BTreeMap::new();
    for (k, v) in ps {
        m.entry(k.clone()).or_default().push(v.clone());
    }
    m.into_iter()
        .map(|(k, mut vs)| {
            if !stable {
                vs.sort();
            }
            (k, vs.concat())
        })
        .collect()
}

fn run_sorter(cfg: &SortCfg, ps: &[KV], way: usize, creator: usize) -> Res {
    let merge = Concat::new();
    let max = ps.len();
    macro_rules! go {
        ($b:expr) => {{
            let mut s = cfg.finish($b.build());
            for (k, v) in ps {
                s.insert(k, v).map_err(|e| e.to_string())?;
            }
            content(s, &merge, way, max)?
        }};
    }
    let fixed = cfg.is_stable() || ps.iter().all(|(_, v)| v.len() == 4);
    let mut got = match creator {
        0 => go!(cfg.builder(&merge).chunk_creator(grenad::CursorVec)),
        1 => go!(cfg.builder(&merge)),
        _ => {
            let ctl = Ctl::new(Plan { short: true, interrupt: true, ..Plan::default() }, 3);
            go!(cfg.builder(&merge).chunk_creator(Creator { t: Default::default(), ctl }))
        }
    };
    if !cfg.is_stable() {
        for (_, v) in &mut got {
            let mut vs: Vec<Vec<u8>> = v.chunks(if fixed { 4 } else { 1 }).map(|c| c.to_vec()).collect();
            vs.sort();
            *v = vs.concat();
        }
    }
    let mut want = expected(ps, cfg.is_stable());
    if !fixed {
        // the order of the values is free, and so are their limits: compare their bytes
        for (_, v) in &mut want {
            v.sort();
        }
    }
    same("sorter", &got, &want)
}

pub fn c08(r: &mut Rng, size: usize, id: u64) -> Res {
    let mut cfg = SortCfg::gen(r);
    cfg.max_chunks = *r.pick(&[Some(0), Some(1), Some(2), Some(3), Some(5), None]);
    let real = cfg.small.is_none() || id % 24 == 5;
    if real {
        cfg.small = None;
        cfg.threshold = Some(*r.pick(&[0usize, 10_485_760, 11_000_000]));
        cfg.codec = None;
    }
    let budget = cfg.effective_budget();
    if !real && cfg.realloc == Some(false) && budget < 1000 {
        return Ok(());
    }
    // small relative to the budget
    let max_entry = (budget / 16).max(8);
    let total = if real { 6 * budget } else { budget * r.range(1, 30 + 3 * size) };
    let merge = Concat::new();
    let t: Arc<Mutex<Tracker>> = Default::default();
    let ctl = Ctl::new(Plan::default(), 3);
    let mut s = cfg.finish(cfg.builder(&merge).chunk_creator(Creator { t: t.clone(), ctl }).build());
    let fixed = r.chance(1, 3);
    let len = r.range(1, max_entry.min(if real { 200_000 } else { 100 }));
    let limit = if cfg.realloc == Some(false) { budget } else { 2 * budget } as u64;
    note!("{cfg:?} budget {budget} inserting {total} bytes in entries of {} {len} bytes", if fixed { "exactly" } else { "at most" });
    let mut sum = 0;
    let mut n = 0u64;
    let payload = vec![3u8; len];
    while sum < total {
        let l = if fixed { len } else { r.range(0, len) };
        let k = (n % 37).to_be_bytes();
        n += 1;
        let kl = l.min(8);
        s.insert(&k[8 - kl..], &payload[..l - kl]).map_err(|e| e.to_string())?;
        sum += l.max(1);
        let mut t = t.lock().unwrap();
        // the spill happens inside insert, before the new entry is stored
        t.since += l as u64;
        t.max_since = t.max_since.max(t.since);
        ensure!(t.since <= limit, "insert {n}: {} bytes inserted since the last spill, the limit is {limit}", t.since);
        ensure!(t.max_live <= cfg.effective_max_chunks() + 2, "insert {n}: {} chunks exist at the same time, the maximum is {}", t.max_live, cfg.effective_max_chunks());
    }
    let got = content(s, &merge, r.below(3), 40_000)?;
    let t = t.lock().unwrap();
    ensure!(t.max_live <= cfg.effective_max_chunks() + 2, "{} chunks exist at the same time, the maximum is {}", t.max_live, cfg.effective_max_chunks());
    ensure!(t.creates > 0 && t.live == 0, "{} chunks created, {} still alive", t.creates, t.live);
    ensure!(got.windows(2).all(|w| w[0].0 < w[1].0), "unsorted output");
    Ok(())
}

pub fn c17(r: &mut Rng, size: usize, id: u64) -> Res {
    let mut cfg = SortCfg::gen(r);
    cfg.parallel = false;
    let exact = r.chance(1, 2);
    let mut ps = pairs(r, size.min(4), false);
    if let (true, Some((t, cap))) = (exact, cfg.small) {
        // entries that exactly fill what remains, minus or plus a few bytes
        let mut room = (if cfg.realloc == Some(false) { t } else { cap }).div_ceil(16) * 16;
        ps.clear();
        for i in 0..r.range(2, 12) {
            let d = *r.pick(&[0i64, 0, -1, 1, 16, -16, 15, -15]);
            let want = (room as i64 - 16 + d).max(0) as usize;
            let kl = r.below(want.min(40) + 1);
            ps.push((vec![i as u8; kl], vec![7; want - kl]));
            room = *r.pick(&[room, room * 2, (room * 2).saturating_sub(want + 16), 64]);
        }
    }
    if id == 7 && !cfg!(feature = "hooks") {
        return Ok(());
    }
    if id % 40 == 8 {
        // huge budgets are refused cleanly, without overflowing
        let t = *r.pick(&[usize::MAX, usize::MAX - 3, usize::MAX - 20, isize::MAX as usize, 1 << 62]);
        note!("budget of {t} bytes without reallocation");
        let e0 = alloc::ERRORS.load(SeqCst);
        let res = std::panic::catch_unwind(|| {
            let mut b = grenad::Sorter::builder(Concat::new());
            b.dump_threshold(t).allow_realloc(false);
            let mut s = b.build();
            s.insert("a", "b").map(drop).map_err(|e| e.to_string())
        });
        ensure!(alloc::ERRORS.load(SeqCst) == e0, "{}", alloc::describe(alloc::LAST_ERROR.load(SeqCst)));
        if let Err(p) = res {
            let msg = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            ensure!(!msg.contains("with overflow"), "arithmetic overflow: {msg}");
        }
        return Ok(());
    }
    note!("{cfg:?}\n{}", show(&ps));
    alloc::STRICT.store(true, SeqCst);
    let e0 = alloc::ERRORS.load(SeqCst);
    let mut leak = [0isize; 3];
    let mut result = Ok(());
    for round in 0..3 {
        alloc::flush_quarantine();
        let live0 = alloc::LIVE.load(SeqCst) as isize;
        result = run_sorter(&cfg, &ps, round, round % 2);
        if result.is_ok() {
            result = read_paths(&ps, &cfg);
        }
        if result.is_err() {
            break;
        }
        leak[round] = alloc::LIVE.load(SeqCst) as isize - live0;
    }
    alloc::flush_quarantine();
    alloc::STRICT.store(false, SeqCst);
    let errors = alloc::ERRORS.load(SeqCst) - e0;
    ensure!(errors == 0, "allocator: {}", alloc::describe(alloc::LAST_ERROR.load(SeqCst)));
    ensure!(leak[1] <= 0 || leak[2] <= 0, "memory leak: {} then {} bytes", leak[1], leak[2]);
    result
}

/// Borrowed keys and values stay valid until the next operation (freed memory is poisoned).
fn read_paths(ps: &[KV], cfg: &SortCfg) -> Res {
    let es = expected(ps, true);
    let wcfg = Config { codec: cfg.codec.unwrap_or(grenad::CompressionType::None), level: None, block_size: Some(1024), interval: cfg.interval, levels: cfg.levels };
    let bytes = write_file(&wcfg, &es)?;
    let check = |x: Option<(&[u8], &[u8])>, i: Option<usize>, what: &str| -> Res {
        // churn the allocator while the borrowed entry is alive
        let junk: Vec<Vec<u8>> = (0..8).map(|n| vec![0x11u8; 64 << n]).collect();
        drop(junk);
        let want = i.map(|i| es[i].clone());
        ensure!(own(x) == want, "{what}: borrowed entry {} instead of {}", showo(&own(x)), showo(&want));
        Ok(())
    };
    let n = es.len();
    let err = |e: grenad::Error| e.to_string();
    let mut c = cursor(&bytes[..])?;
    for i in 0..n {
        check(c.move_on_next().map_err(err)?, Some(i), "next")?;
        check(c.current(), Some(i), "current")?;
    }
    for i in (0..n.saturating_sub(1)).rev() {
        check(c.move_on_prev().map_err(err)?, Some(i), "prev")?;
    }
    for i in 0..n {
        check(c.move_on_key_equal_to(&es[i].0).map_err(err)?, Some(i), "eq")?;
        check(c.move_on_key_lower_than_or_equal_to(&es[i].0).map_err(err)?, Some(i), "le")?;
        check(c.move_on_key_greater_than_or_equal_to(&es[i].0).map_err(err)?, Some(i), "ge")?;
    }
    let mut it = open(Cursor::new(&bytes[..]).into_inner())?.into_range_iter::<_, &[u8]>(..).map_err(err)?;
    for i in 0..n {
        check(it.next().map_err(err)?, Some(i), "range")?;
    }
    let mut it = open(&bytes[..])?.into_rev_range_iter::<_, &[u8]>(..).map_err(err)?;
    for i in (0..n).rev() {
        check(it.next().map_err(err)?, Some(i), "rev range")?;
    }
    let mut it = open(&bytes[..])?.into_prefix_iter(Vec::new()).map_err(err)?;
    for i in 0..n {
        check(it.next().map_err(err)?, Some(i), "prefix")?;
    }
    let mut it = open(&bytes[..])?.into_rev_prefix_iter(Vec::new()).map_err(err)?;
    for i in (0..n).rev() {
        check(it.next().map_err(err)?, Some(i), "rev prefix")?;
    }
    Ok(())
}
