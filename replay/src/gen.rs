//! Input generators.
use crate::rng::Rng;
use grenad::CompressionType as CT;
use std::collections::BTreeMap;
use std::num::NonZeroUsize;

pub type Entries = Vec<(Vec<u8>, Vec<u8>)>;

pub fn hex(b: &[u8]) -> String {
    let mut s: String = b.iter().take(24).map(|x| format!("{x:02x}")).collect();
    if b.len() > 24 {
        s += &format!("..({}B)", b.len());
    }
    if b.is_empty() {
        s += "<empty>";
    }
    s
}

pub fn show(es: &[(Vec<u8>, Vec<u8>)]) -> String {
    let mut s = format!("{} entries:", es.len());
    for (k, v) in es.iter().take(40) {
        s += &format!(" {}={}", hex(k), hex(v));
    }
    if es.len() > 40 {
        s += " ...";
    }
    s
}

/// `size` goes from 0 (tiny) to 7 (large).
pub fn count(r: &mut Rng, size: usize) -> usize {
    match size {
        0 => r.range(0, 3),
        1 => r.range(0, 12),
        2 => r.range(1, 40),
        3 => r.range(5, 120),
        4 => r.range(20, 400),
        5 => r.range(50, 1200),
        6 => r.range(100, 2500),
        _ => r.range(500, 6000),
    }
}

/// Sizes that are suspicious: around powers of two, and around the literals of the code (VERIF_DICT, `new;all`).
fn dict() -> &'static (Vec<usize>, Vec<usize>) {
    static D: std::sync::OnceLock<(Vec<usize>, Vec<usize>)> = std::sync::OnceLock::new();
    D.get_or_init(|| {
        let v = std::env::var("VERIF_DICT").unwrap_or_default();
        let list = |s: &str| s.split(',').filter_map(|x| x.parse().ok()).collect::<Vec<usize>>();
        let mut it = v.split(';');
        let new = list(it.next().unwrap_or(""));
        let mut all = list(it.next().unwrap_or(""));
        all.extend([255, 256, 511, 512, 1024, 4096, 32768, 65535, 65536]);
        (new, all)
    })
}

/// Whether a case is to look at sizes around the literals that are new in the code.
pub fn suspicious(r: &mut Rng, one_in: usize) -> bool {
    if dict().0.is_empty() { r.chance(1, one_in) } else { r.chance(1, 3) }
}

/// Whether the very large cases are run (they take seconds each).
pub fn deep() -> bool {
    std::env::var_os("VERIF_DEEP").is_some()
}

pub fn boundary(r: &mut Rng, max: usize) -> usize {
    let (new, all) = dict();
    for _ in 0..20 {
        let b = if !new.is_empty() && r.chance(1, 2) { *r.pick(new) } else { *r.pick(all) };
        let n = (b + 4).saturating_sub(r.below(8));
        if n <= max {
            return n;
        }
    }
    r.below(max.min(300) + 1)
}

/// Few entries whose keys share a long prefix or that have long values, or many tiny ones.
pub fn boundary_entries(r: &mut Rng) -> Entries {
    let mut m = BTreeMap::new();
    match r.below(4) {
        0 => {
            // long keys: one shared prefix, with differences before, at and after its end
            let n = boundary(r, 70_000);
            let c = *r.pick(&[b'k', 0x00, 0xff]);
            for d in [0usize, 0, 1, 1, 2, 3] {
                let mut k = vec![c; n.saturating_sub(2) + d];
                if r.chance(2, 3) {
                    let j = r.below(4);
                    k.extend([b'a', b'b', 0x00, 0xff].into_iter().take(j));
                    k.push(*r.pick(&[b'a', b'b', 0x00, 0xff]));
                }
                m.insert(k, val(r, 1));
            }
            for x in [b'a', b'b', b'c', 0xff] {
                let mut k = vec![c; n + 60];
                k.push(x);
                m.insert(k, val(r, 1));
            }
        }
        1 => {
            // now and then a huge value, if the code has a new literal of that size
            let (many, max) = if dict().0.iter().any(|n| (140_000..1 << 26).contains(n)) && r.chance(1, 3) { (2, 1 << 26) } else { (12, 140_000) };
            for i in 0..r.range(1, many) {
                let n = boundary(r, max);
                m.insert(key(r, 0, i), vec![r.next() as u8; n]);
            }
        }
        2 => {
            let n = boundary(r, 5000);
            for i in 0..n {
                m.insert((i as u32).to_be_bytes().to_vec(), Vec::new());
            }
        }
        _ => {
            let n = boundary(r, 70_000);
            for i in 0..n {
                m.insert((i as u32).to_be_bytes()[1..].to_vec(), Vec::new());
            }
        }
    }
    m.into_iter().collect()
}

pub fn key(r: &mut Rng, style: usize, i: usize) -> Vec<u8> {
    const ALPHA: [u8; 6] = [0x00, 0x01, b'a', 0x7f, 0xfe, 0xff];
    match style {
        0 => {
            let n = r.below(5);
            (0..n).map(|_| *r.pick(&ALPHA)).collect()
        }
        1 => (i as u32).to_be_bytes().to_vec(),
        2 => {
            let n = r.below(12);
            r.bytes(n)
        }
        3 => {
            // long shared prefixes
            let n = r.range(100, 420);
            let mut k = vec![*r.pick(&ALPHA); n];
            k.extend((r.below(5000) as u16).to_be_bytes());
            k
        }
        4 => {
            let n = r.below(4);
            let mut k = vec![0xff; n];
            let m = r.below(3);
            k.extend(r.bytes(m));
            k
        }
        5 => {
            let mut k = (r.below(100_000) as u32).to_be_bytes().to_vec();
            let n = *r.pick(&[100usize, 120, 124, 250, 300]);
            k.resize(n, b'k');
            k
        }
        6 => {
            let n = r.range(120, 135);
            r.bytes(n)
        }
        _ => {
            let s = r.below(7);
            key(r, s, i)
        }
    }
}

pub fn val(r: &mut Rng, style: usize) -> Vec<u8> {
    match style {
        0 => Vec::new(),
        1 => {
            let n = r.below(9);
            r.bytes(n)
        }
        2 => {
            let n = r.range(0, 200);
            r.bytes(n)
        }
        3 => {
            let n = *r.pick(&[0usize, 1, 127, 128, 129, 16383, 16384, 16385]);
            vec![r.next() as u8; n]
        }
        4 => {
            let n = r.range(300, 1300);
            vec![r.next() as u8; n]
        }
        5 => {
            // sometimes larger than a block
            let n = if r.chance(1, 20) { r.range(1000, 30_000) } else { r.below(30) };
            r.bytes(n)
        }
        _ => {
            let s = r.below(6);
            val(r, s)
        }
    }
}

pub fn entries_n(r: &mut Rng, n: usize) -> Entries {
    let ks = r.below(8);
    let mut vs = r.below(7);
    if n > 800 && vs == 3 {
        vs = 2;
    }
    let mut m = BTreeMap::new();
    for i in 0..n {
        m.insert(key(r, ks, i), val(r, vs));
    }
    if r.chance(1, 6) {
        m.insert(Vec::new(), val(r, vs));
    }
    if n <= 60 && r.chance(1, 60) {
        let n = *r.pick(&[(1usize << 21) - 1, 1 << 21, (1 << 21) + 1]);
        m.insert(vec![b'b'; 3], vec![7; n]);
    }
    m.into_iter().collect()
}

pub fn entries(r: &mut Rng, size: usize) -> Entries {
    if suspicious(r, 60) {
        return boundary_entries(r);
    }
    let n = count(r, size);
    entries_n(r, n)
}

#[derive(Clone, Debug)]
pub struct Config {
    pub codec: CT,
    pub level: Option<u32>,
    pub block_size: Option<usize>,
    pub interval: Option<usize>,
    pub levels: Option<u8>,
}

pub const CODECS: [CT; 6] = [CT::None, CT::Snappy, CT::SnappyPre05, CT::Zlib, CT::Lz4, CT::Zstd];

impl Config {
    pub fn plain() -> Config {
        Config { codec: CT::None, level: None, block_size: None, interval: None, levels: None }
    }
    pub fn gen(r: &mut Rng) -> Config {
        let codec = if r.chance(1, 2) { CT::None } else { *r.pick(&CODECS) };
        let level = match r.below(4) {
            0 | 1 => None,
            2 => Some(r.below(10) as u32),
            _ => Some(*r.pick(&[0u32, 1, 3, 9, 10, 12, 19, 300, u32::MAX, u32::MAX - 5])),
        };
        // the highest levels of zstd need a lot of memory
        let level = if codec == CT::Zstd && matches!(level, Some(19 | 300)) { Some(4) } else { level };
        let block_size = match r.below(5) {
            0 => None,
            1 | 2 => Some(*r.pick(&[0usize, 1, 1023, 1024, 1025])),
            3 => Some(if r.chance(1, 3) { boundary(r, 1 << 24) } else { r.range(1024, 5000) }),
            _ => Some(*r.pick(&[2048usize, 8192, 100_000, usize::MAX])),
        };
        let interval = match r.below(3) {
            0 => None,
            1 => Some(if r.chance(1, 5) { boundary(r, 100_000).max(1) } else { r.range(1, 10) }),
            _ => Some(*r.pick(&[1usize, 2, 3, 8, 100, 1000, usize::MAX])),
        };
        let levels = match r.below(6) {
            0 => None,
            1 => Some(0),
            2 => Some(1),
            3 => Some(2),
            4 => Some(r.range(2, 6) as u8),
            _ => {
                if r.chance(1, 8) {
                    Some(*r.pick(&[40u8, 254, 255]))
                } else {
                    Some(3)
                }
            }
        };
        Config { codec, level, block_size, interval, levels }
    }
    /// small blocks so that the index is deep
    pub fn gen_deep(r: &mut Rng) -> Config {
        let mut c = Config::gen(r);
        if r.chance(2, 3) {
            c.block_size = Some(1024);
            c.levels = Some(r.range(0, 4) as u8);
        }
        c
    }
    pub fn effective_block_size(&self) -> usize {
        self.block_size.map_or(8192, |b| b.max(1024))
    }
    pub fn effective_interval(&self) -> usize {
        self.interval.unwrap_or(8)
    }
    pub fn effective_levels(&self) -> usize {
        self.levels.unwrap_or(0) as usize
    }
    pub fn builder(&self) -> grenad::WriterBuilder {
        let mut b = grenad::WriterBuilder::new();
        b.compression_type(self.codec);
        if let Some(l) = self.level {
            b.compression_level(l);
        }
        if let Some(s) = self.block_size {
            b.block_size(s);
        }
        if let Some(i) = self.interval {
            b.index_key_interval(NonZeroUsize::new(i).unwrap());
        }
        if let Some(l) = self.levels {
            b.index_levels(l);
        }
        b
    }
}

pub fn codec_id(c: CT) -> u8 {
    match c {
        CT::None => 0,
        CT::SnappyPre05 => 1,
        CT::Zlib => 2,
        CT::Lz4 => 3,
        CT::Zstd => 4,
        CT::Snappy => 5,
    }
}

/// Probes: stored keys, neighbours, prefixes, extensions, extremes.
pub fn probe(r: &mut Rng, es: &Entries) -> Vec<u8> {
    if es.is_empty() || r.chance(1, 8) {
        return match r.below(5) {
            0 => Vec::new(),
            1 => vec![0xff; r.clone().range(1, 6)],
            2 => vec![0],
            _ => {
                let s = r.below(8);
                key(r, s, 3)
            }
        };
    }
    let i = match r.below(6) {
        0 => 0,
        1 => es.len() - 1,
        _ => r.below(es.len()),
    };
    let mut k = es[i].0.clone();
    if k.len() > 250 && r.chance(1, 4) {
        let n = boundary(r, k.len());
        k.truncate(n);
    }
    match r.below(8) {
        0 | 1 | 2 => (),
        3 => k.push(*r.pick(&[0u8, 1, 0xff])),
        4 => {
            k.pop();
        }
        5 => {
            if let Some(x) = k.last_mut() {
                *x = x.wrapping_add(1);
            }
        }
        6 => {
            if let Some(x) = k.last_mut() {
                *x = x.wrapping_sub(1);
            }
        }
        _ => {
            let n = r.below(k.len() + 1);
            k.truncate(n);
            if r.chance(1, 2) {
                k.push(r.next() as u8);
            }
        }
    }
    k
}
