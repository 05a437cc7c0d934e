//! Instrumented sinks, sources, chunks.
use crate::rng::Rng;
use std::io::{self, Cursor, ErrorKind, Read, Seek, SeekFrom, Write};
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug, Default)]
pub struct Plan {
    /// serve/accept only pieces
    pub short: bool,
    /// report interruptions now and then
    pub interrupt: bool,
    /// fail the n-th call (0 based) of the component
    pub fail_at: Option<u64>,
    /// keep failing afterwards
    pub fail_forever: bool,
    pub kind: Option<ErrorKind>,
}

pub struct State {
    pub plan: Plan,
    pub rng: Rng,
    pub calls: u64,
    pub faults: u64,
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub bytes_read: u64,
    /// positions at which a read call started
    pub read_positions: Vec<u64>,
    pub log_reads: bool,
    pub lowest_read: u64,
}

#[derive(Clone)]
pub struct Ctl(pub Arc<Mutex<State>>);

impl Ctl {
    pub fn new(plan: Plan, seed: u64) -> Ctl {
        Ctl(Arc::new(Mutex::new(State {
            plan,
            rng: Rng::new(seed, 77),
            calls: 0,
            faults: 0,
            reads: 0,
            writes: 0,
            seeks: 0,
            bytes_read: 0,
            read_positions: Vec::new(),
            log_reads: false,
            lowest_read: u64::MAX,
        })))
    }
    pub fn with<T>(&self, f: impl FnOnce(&mut State) -> T) -> T {
        f(&mut self.0.lock().unwrap_or_else(|e| e.into_inner()))
    }
    pub fn faults(&self) -> u64 {
        self.with(|s| s.faults)
    }
    pub fn calls(&self) -> u64 {
        self.with(|s| s.calls)
    }
    /// Counts a call and fails it when the plan says so.
    pub fn call(&self) -> io::Result<()> {
        self.with(|s| {
            let n = s.calls;
            s.calls += 1;
            let fail = match s.plan.fail_at {
                Some(at) => n == at || (s.plan.fail_forever && n > at),
                None => false,
            };
            if fail {
                s.faults += 1;
                return Err(io::Error::new(s.plan.kind.unwrap_or(ErrorKind::Other), "injected failure"));
            }
            Ok(())
        })
    }
    fn interrupted(&self) -> io::Result<()> {
        self.with(|s| {
            if s.plan.interrupt && s.rng.chance(1, 3) {
                return Err(io::Error::new(ErrorKind::Interrupted, "interrupted"));
            }
            Ok(())
        })
    }
    fn size(&self, n: usize) -> usize {
        self.with(|s| {
            if s.plan.short && n > 1 {
                let max = *s.rng.pick(&[1usize, 2, 3, 7, 64, 1000]);
                1 + s.rng.below(max.min(n))
            } else {
                n
            }
        })
    }
}

pub struct Inst<T> {
    pub inner: T,
    pub ctl: Ctl,
}

impl<T> Inst<T> {
    pub fn new(inner: T, ctl: &Ctl) -> Inst<T> {
        Inst { inner, ctl: ctl.clone() }
    }
}

impl<T: Clone> Clone for Inst<T> {
    fn clone(&self) -> Self {
        Inst { inner: self.inner.clone(), ctl: self.ctl.clone() }
    }
}

impl<T: Write> Write for Inst<T> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.ctl.interrupted()?;
        self.ctl.call()?;
        let n = self.ctl.size(buf.len());
        let w = self.inner.write(&buf[..n])?;
        self.ctl.with(|s| s.writes += 1);
        Ok(w)
    }
    fn flush(&mut self) -> io::Result<()> {
        self.ctl.call()?;
        self.inner.flush()
    }
}

impl<T: Read + Seek> Read for Inst<T> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.ctl.interrupted()?;
        self.ctl.call()?;
        let n = self.ctl.size(buf.len());
        let pos = self.inner.stream_position()?;
        let r = self.inner.read(&mut buf[..n])?;
        self.ctl.with(|s| {
            s.reads += 1;
            s.bytes_read += r as u64;
            s.lowest_read = s.lowest_read.min(pos);
            if s.log_reads {
                s.read_positions.push(pos);
            }
        });
        Ok(r)
    }
}

impl<T: Seek> Seek for Inst<T> {
    fn seek(&mut self, pos: SeekFrom) -> io::Result<u64> {
        self.ctl.call()?;
        if let SeekFrom::Start(_) = pos {
            self.ctl.with(|s| s.seeks += 1);
        }
        self.inner.seek(pos)
    }
}

pub type Mem = Inst<Cursor<Vec<u8>>>;
pub fn mem(bytes: Vec<u8>, ctl: &Ctl) -> Mem {
    Inst::new(Cursor::new(bytes), ctl)
}
