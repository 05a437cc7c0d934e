use crate::gen::*;
use crate::io::*;
use std::borrow::Cow;
use std::cell::RefCell;
use std::io::{Cursor, Read, Seek};

thread_local!(pub static NOTES: RefCell<Vec<String>> = const { RefCell::new(Vec::new()) });

pub fn note(s: String) {
    NOTES.with(|n| {
        let mut n = n.borrow_mut();
        if n.len() < 400 {
            n.push(s)
        } else {
            n.remove(200);
            n.push(s);
        }
    })
}

#[macro_export]
macro_rules! note {
    ($($t:tt)*) => { $crate::util::note(format!($($t)*)) };
}

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err(format!($($t)*)); } };
}

pub type Res = Result<(), String>;
pub type KV = (Vec<u8>, Vec<u8>);

pub fn own(x: Option<(&[u8], &[u8])>) -> Option<KV> {
    x.map(|(k, v)| (k.to_vec(), v.to_vec()))
}

pub fn showo(x: &Option<KV>) -> String {
    match x {
        None => "None".into(),
        Some((k, v)) => format!("Some({}, {})", hex(k), hex(v)),
    }
}

pub fn write_file(cfg: &Config, es: &[KV]) -> Result<Vec<u8>, String> {
    let mut w = cfg.builder().memory();
    for (k, v) in es {
        w.insert(k, v).map_err(|e| format!("Writer::insert failed: {e}"))?;
    }
    w.into_inner().map_err(|e| format!("Writer::into_inner failed: {e}"))
}

pub fn to_v1(bytes: &[u8]) -> Vec<u8> {
    let t = crate::decode::trailer(bytes).unwrap();
    assert_eq!(t.version, 2);
    let mut out = bytes[..bytes.len() - 22].to_vec();
    out.extend(t.root.to_le_bytes());
    out.push(t.codec);
    out.extend(t.count.to_le_bytes());
    out.extend(crate::decode::MAGIC_V1.to_le_bytes());
    out
}

pub fn open<T: AsRef<[u8]>>(bytes: T) -> Result<grenad::Reader<Cursor<T>>, String> {
    grenad::Reader::new(Cursor::new(bytes)).map_err(|e| format!("Reader::new failed: {e}"))
}

pub fn cursor<T: AsRef<[u8]>>(bytes: T) -> Result<grenad::ReaderCursor<Cursor<T>>, String> {
    open(bytes)?.into_cursor().map_err(|e| format!("into_cursor failed: {e}"))
}

pub fn forward<R: Read + Seek>(c: &mut grenad::ReaderCursor<R>, max: usize) -> Result<Vec<KV>, String> {
    let mut out = Vec::new();
    while let Some((k, v)) = c.move_on_next().map_err(|e| format!("move_on_next failed: {e}"))? {
        out.push((k.to_vec(), v.to_vec()));
        if out.len() > max {
            return Err(format!("the forward scan returns more than {max} entries"));
        }
    }
    Ok(out)
}

pub fn backward<R: Read + Seek>(c: &mut grenad::ReaderCursor<R>, max: usize) -> Result<Vec<KV>, String> {
    let mut out = Vec::new();
    while let Some((k, v)) = c.move_on_prev().map_err(|e| format!("move_on_prev failed: {e}"))? {
        out.push((k.to_vec(), v.to_vec()));
        if out.len() > max {
            return Err(format!("the backward scan returns more than {max} entries"));
        }
    }
    Ok(out)
}

pub fn same(what: &str, got: &[KV], want: &[KV]) -> Res {
    if got == want {
        return Ok(());
    }
    let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
    Err(format!(
        "{what}: got {} entries, expected {}; first difference at {i}: got {} expected {}",
        got.len(),
        want.len(),
        showo(&got.get(i).cloned()),
        showo(&want.get(i).cloned())
    ))
}

/// Concatenates the values, returns lone values unchanged; logs its calls; can fail.
pub struct Concat {
    pub log: RefCell<Vec<(Vec<u8>, Vec<Vec<u8>>)>>,
    pub fail_at: Option<usize>,
    pub calls: RefCell<usize>,
    pub failed: RefCell<bool>,
}

impl Concat {
    pub fn new() -> Concat {
        Concat { log: Default::default(), fail_at: None, calls: RefCell::new(0), failed: RefCell::new(false) }
    }
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct MergeFailed(pub u32);
impl std::fmt::Display for MergeFailed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "merge failed {}", self.0)
    }
}

impl grenad::MergeFunction for Concat {
    type Error = MergeFailed;
    fn merge<'a>(&self, key: &[u8], values: &[Cow<'a, [u8]>]) -> Result<Cow<'a, [u8]>, MergeFailed> {
        let n = *self.calls.borrow();
        *self.calls.borrow_mut() += 1;
        if self.fail_at == Some(n) {
            *self.failed.borrow_mut() = true;
            return Err(MergeFailed(4242));
        }
        self.log.borrow_mut().push((key.to_vec(), values.iter().map(|v| v.to_vec()).collect()));
        if values.len() == 1 {
            return Ok(values[0].clone());
        }
        Ok(Cow::Owned(values.concat()))
    }
}

pub fn inst_reader(bytes: &[u8], ctl: &Ctl) -> Result<grenad::Reader<Mem>, grenad::Error> {
    grenad::Reader::new(mem(bytes.to_vec(), ctl))
}
