//! Independent decoder of the version 2 (and 1) file format, written from the property text (C09).
use std::io::Read;

#[derive(Debug, Clone)]
pub struct Trailer {
    pub version: u8,
    pub root: u64,
    pub codec: u8,
    pub count: u64,
    pub levels: u8,
    pub len: usize,
}

pub const MAGIC_V1: u32 = 0x76324D4C;
pub const MAGIC_V2: u32 = 0x6723D4C4;

/// What C13 calls a complete trailer.
pub fn trailer(bytes: &[u8]) -> Option<Trailer> {
    let n = bytes.len();
    if n < 4 {
        return None;
    }
    let le64 = |o: usize| u64::from_le_bytes(bytes[o..o + 8].try_into().unwrap());
    let magic = u32::from_le_bytes(bytes[n - 4..].try_into().unwrap());
    let t = if magic == MAGIC_V2 && n >= 22 {
        let b = n - 22;
        Trailer { version: 2, root: le64(b), codec: bytes[b + 8], count: le64(b + 9), levels: bytes[b + 17], len: 22 }
    } else if magic == MAGIC_V1 && n >= 21 {
        let b = n - 21;
        Trailer { version: 1, root: le64(b), codec: bytes[b + 8], count: le64(b + 9), levels: 0, len: 21 }
    } else {
        return None;
    };
    (t.codec <= 5).then_some(t)
}

pub fn decompress(codec: u8, data: &[u8]) -> Result<Vec<u8>, String> {
    let mut out = Vec::new();
    match codec {
        0 => out.extend_from_slice(data),
        1 => out = snap::raw::Decoder::new().decompress_vec(data).map_err(|e| e.to_string())?,
        2 => drop(flate2::read::ZlibDecoder::new(data).read_to_end(&mut out).map_err(|e| e.to_string())?),
        3 => drop(lz4_flex::frame::FrameDecoder::new(data).read_to_end(&mut out).map_err(|e| e.to_string())?),
        4 => out = zstd::stream::decode_all(data).map_err(|e| e.to_string())?,
        5 => drop(snap::read::FrameDecoder::new(data).read_to_end(&mut out).map_err(|e| e.to_string())?),
        _ => return Err(format!("unknown codec {codec}")),
    }
    Ok(out)
}

#[derive(Debug, Clone)]
pub struct DBlock {
    pub offset: u64,
    pub stored: u64,
    /// uncompressed size
    pub size: usize,
    pub payload_size: usize,
    pub offsets: Vec<u64>,
    pub starts: Vec<u64>,
    pub entries: Vec<(Vec<u8>, Vec<u8>)>,
}

fn varint(data: &[u8], at: &mut usize) -> Result<u32, String> {
    let mut v: u64 = 0;
    for i in 0..5 {
        let b = *data.get(*at).ok_or("truncated varint")?;
        *at += 1;
        v |= ((b & 0x7f) as u64) << (7 * i);
        if b & 0x80 == 0 {
            return u32::try_from(v).map_err(|_| "varint over 32 bits".into());
        }
    }
    Err("varint longer than 5 bytes".into())
}

pub fn block(file: &[u8], codec: u8, offset: u64) -> Result<DBlock, String> {
    let o = usize::try_from(offset).map_err(|e| e.to_string())?;
    let head = o.checked_add(8).and_then(|e| file.get(o..e)).ok_or(format!("block header at {o} out of file"))?;
    let stored = u64::from_be_bytes(head.try_into().unwrap());
    let end = (o + 8).checked_add(usize::try_from(stored).map_err(|e| e.to_string())?).ok_or("length")?;
    let body = file.get(o + 8..end).ok_or(format!("block body at {o} len {stored} out of file"))?;
    let raw = decompress(codec, body)?;
    let n = raw.len();
    if n < 4 {
        return Err(format!("block at {o}: {n} bytes"));
    }
    let count = u32::from_be_bytes(raw[n - 4..].try_into().unwrap()) as usize;
    let table = count.checked_mul(8).and_then(|t| (n - 4).checked_sub(t)).ok_or(format!("block at {o}: bad offset count {count}"))?;
    let offsets: Vec<u64> = raw[table..n - 4].chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
    let payload = &raw[..table];
    let mut at = 0;
    let mut entries = Vec::new();
    let mut starts = Vec::new();
    while at < payload.len() {
        starts.push(at as u64);
        let k = varint(payload, &mut at)? as usize;
        let v = varint(payload, &mut at)? as usize;
        let key = payload.get(at..at + k).ok_or("key out of payload")?.to_vec();
        at += k;
        let val = payload.get(at..at + v).ok_or("value out of payload")?.to_vec();
        at += v;
        entries.push((key, val));
    }
    Ok(DBlock { offset, stored, size: n, payload_size: table, offsets, starts, entries })
}

pub struct File {
    pub trailer: Trailer,
    /// blocks in file order, with their level: 0 = root, levels+1 = data
    pub blocks: Vec<(usize, DBlock)>,
    pub entries: Vec<(Vec<u8>, Vec<u8>)>,
}

/// Decodes everything and checks that the file is a well-formed version 2 file.
pub fn file(bytes: &[u8], interval: Option<usize>) -> Result<File, String> {
    let t = trailer(bytes).ok_or("no valid trailer")?;
    if t.version != 2 {
        return Err("not a version 2 trailer".into());
    }
    let body = &bytes[..bytes.len() - t.len];
    let mut blocks: Vec<(usize, DBlock)> = Vec::new();
    let mut entries = Vec::new();
    let depth = t.levels as usize + 1;
    // level by level from the root, in order
    let root = block(body, t.codec, t.root)?;
    if root.entries.is_empty() {
        // empty file
        if t.count != 0 {
            return Err(format!("empty root index with an entry count of {}", t.count));
        }
        blocks.push((0, root));
    } else {
        let mut current = vec![root];
        for level in 0..depth {
            let mut children = Vec::new();
            for b in &current {
                if b.entries.is_empty() {
                    return Err(format!("empty index block at {}", b.offset));
                }
                for (k, v) in &b.entries {
                    let off: [u8; 8] = v.as_slice().try_into().map_err(|_| format!("index value of {} bytes", v.len()))?;
                    let child = block(body, t.codec, u64::from_be_bytes(off)).map_err(|e| format!("child of {}: {e}", b.offset))?;
                    match child.entries.last() {
                        Some((last, _)) if last == k => (),
                        other => return Err(format!("index block {} maps {:?} to the child {} whose last key is {:?}", b.offset, k, child.offset, other.map(|x| &x.0))),
                    }
                    children.push(child);
                }
            }
            blocks.extend(current.into_iter().map(|b| (level, b)));
            current = children;
        }
        for b in &current {
            entries.extend(b.entries.iter().cloned());
        }
        blocks.extend(current.into_iter().map(|b| (depth, b)));
    }
    blocks.sort_by_key(|(_, b)| b.offset);
    // The blocks tile the file.
    let mut at = 0u64;
    for (_, b) in &blocks {
        if b.offset != at {
            return Err(format!("block at {} but the previous one ends at {at}", b.offset));
        }
        at = b.offset + 8 + b.stored;
    }
    if at != body.len() as u64 {
        return Err(format!("blocks end at {at}, trailer starts at {}", body.len()));
    }
    if t.count != entries.len() as u64 {
        return Err(format!("trailer count {} but {} entries", t.count, entries.len()));
    }
    for (_, b) in &blocks {
        if b.offsets.first() != Some(&0) {
            return Err(format!("block {}: first offset is not 0: {:?}", b.offset, b.offsets.first()));
        }
        if let Some(i) = interval {
            let expected: Vec<u64> = b.starts.iter().step_by(i).copied().collect();
            let expected = if expected.is_empty() { vec![0] } else { expected };
            if expected != b.offsets {
                return Err(format!("block {}: offset table {:?}, expected {:?}", b.offset, b.offsets, expected));
            }
        }
        for w in b.entries.windows(2) {
            if w[0].0 >= w[1].0 {
                return Err(format!("block {}: keys not strictly ascending: {:?} {:?}", b.offset, w[0].0, w[1].0));
            }
        }
    }
    Ok(File { trailer: t, blocks, entries })
}

/// Scans the blocks sequentially, whatever the tree says (used for unsorted inserts).
pub fn sequential_blocks(bytes: &[u8]) -> Result<Vec<DBlock>, String> {
    let t = trailer(bytes).ok_or("no valid trailer")?;
    let body = &bytes[..bytes.len() - t.len];
    let mut at = 0u64;
    let mut out = Vec::new();
    while (at as usize) < body.len() {
        let b = block(body, t.codec, at)?;
        at += 8 + b.stored;
        out.push(b);
    }
    Ok(out)
}
