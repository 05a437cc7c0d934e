//! C11 C12
use crate::gen::*;
use crate::io::*;
use crate::props_merge::{pairs, Creator, SortCfg};
use crate::rng::Rng;
use crate::util::*;
use crate::{ensure, note};
use grenad::Error;
use std::io::{ErrorKind, Read, Seek};
use std::ops::Bound;
use std::panic::{catch_unwind, AssertUnwindSafe};

fn plan(r: &mut Rng) -> Plan {
    let (short, interrupt) = *r.pick(&[(true, false), (false, true), (true, true)]);
    Plan { short, interrupt, ..Plan::default() }
}

/// Every read API, results as a list.
fn read_everything<R: Read + Seek + Clone>(rd: grenad::Reader<R>, r: &mut Rng, es: &Entries) -> Result<Vec<Option<KV>>, String> {
    let err = |e: Error| e.to_string();
    let mut out = Vec::new();
    let mut c = rd.clone().into_cursor().map_err(err)?;
    let cap = 4 * es.len() + 10;
    let n = 10;
    for _ in 0..n {
        let q = probe(r, es);
        out.push(own(c.move_on_key_greater_than_or_equal_to(&q).map_err(err)?));
        out.push(own(c.move_on_key_lower_than_or_equal_to(&q).map_err(err)?));
        out.push(own(c.move_on_key_equal_to(&q).map_err(err)?));
        out.push(own(c.move_on_first().map_err(err)?));
        out.push(own(c.move_on_last().map_err(err)?));
    }
    c.reset();
    for _ in 0..cap {
        let x = own(c.move_on_next().map_err(err)?);
        let end = x.is_none();
        out.push(x);
        if end {
            break;
        }
    }
    c.reset();
    for _ in 0..cap {
        let x = own(c.move_on_prev().map_err(err)?);
        let end = x.is_none();
        out.push(x);
        if end {
            break;
        }
    }
    let (a, b) = (probe(r, es), probe(r, es));
    macro_rules! drain {
        ($it:expr) => {{
            let mut it = $it.map_err(err)?;
            for _ in 0..cap {
                let x = own(it.next().map_err(err)?);
                let end = x.is_none();
                out.push(x);
                if end {
                    break;
                }
            }
        }};
    }
    drain!(rd.clone().into_range_iter::<_, Vec<u8>>((Bound::Included(a.clone()), Bound::Excluded(b.clone()))));
    drain!(rd.clone().into_rev_range_iter::<_, Vec<u8>>((Bound::Excluded(a.clone()), Bound::Included(b.clone()))));
    drain!(rd.clone().into_prefix_iter(a.clone()));
    drain!(rd.into_rev_prefix_iter(b.clone()));
    Ok(out)
}

pub fn c11(r: &mut Rng, size: usize, id: u64) -> Res {
    let cfg = Config::gen_deep(r);
    let es = entries(r, size.min(5));
    note!("config {cfg:?}\n{}", show(&es));
    let full = write_file(&cfg, &es)?;
    match id % 4 {
        0 | 1 => {
            ensure!(write_file(&cfg, &es)? == full, "two runs emit different bytes");
            for _ in 0..3 {
                let ctl = Ctl::new(plan(r), r.next());
                note!("sink {:?}", ctl.with(|s| s.plan.clone()));
                let mut w = cfg.builder().build(Inst::new(Vec::new(), &ctl));
                for (k, v) in &es {
                    w.insert(k, v).map_err(|e| format!("insert over a partial sink: {e}"))?;
                }
                let got = w.into_inner().map_err(|e| format!("into_inner over a partial sink: {e}"))?.inner;
                let i = got.iter().zip(&full).take_while(|(a, b)| a == b).count();
                ensure!(got == full, "the sink received {} bytes instead of {}, first difference at {i}", got.len(), full.len());
            }
        }
        2 => {
            let whole = Ctl::new(Plan::default(), 1);
            let mut r2 = r.clone();
            let want = read_everything(inst_reader(&full, &whole).map_err(|e| e.to_string())?, &mut r2, &es)?;
            for _ in 0..2 {
                let ctl = Ctl::new(plan(r), r2.next());
                note!("source {:?}", ctl.with(|s| s.plan.clone()));
                // the probes must be the same
                let mut rr = r.clone();
                let mut base = r.clone();
                let want2 = read_everything(inst_reader(&full, &whole).map_err(|e| e.to_string())?, &mut base, &es)?;
                let got = read_everything(inst_reader(&full, &ctl).map_err(|e| format!("open over a partial source: {e}"))?, &mut rr, &es)?;
                let i = got.iter().zip(&want2).take_while(|(a, b)| a == b).count();
                ensure!(got == want2, "result {i} differs: {} instead of {}", showo(&got.get(i).cloned().flatten()), showo(&want2.get(i).cloned().flatten()));
            }
            drop(want);
        }
        _ => {
            // merger and sorter
            let scfg = SortCfg { parallel: false, ..SortCfg::gen(r) };
            let ps = pairs(r, size.min(4), false);
            note!("{scfg:?} {}", show(&ps));
            let way = r.below(3);
            let run = |plan: Plan, seed: u64| -> Result<(Vec<KV>, Vec<KV>), String> {
                let ctl = Ctl::new(plan, seed);
                let merge = Concat::new();
                let mut s = scfg.finish(scfg.builder(&merge).chunk_creator(Creator { t: Default::default(), ctl: ctl.clone() }).build());
                for (k, v) in &ps {
                    s.insert(k, v).map_err(|e| format!("Sorter::insert: {e}"))?;
                }
                let a = crate::props_merge::content(s, &merge, way, ps.len())?;
                let mut b = grenad::Merger::builder(&merge);
                for _ in 0..3 {
                    b.push(inst_reader(&full, &ctl).and_then(|r| r.into_cursor()).map_err(|e| e.to_string())?);
                }
                let mut it = b.build().into_stream_merger_iter().map_err(|e| e.to_string())?;
                let mut out = Vec::new();
                while let Some(x) = own(it.next().map_err(|e| e.to_string())?) {
                    out.push(x);
                    ensure!(out.len() <= es.len(), "too many merged entries");
                }
                Ok((a, out))
            };
            let want = run(Plan::default(), 1)?;
            let p = plan(r);
            note!("chunks and sources {p:?}");
            let got = run(p, r.next())?;
            same("sorter", &got.0, &want.0)?;
            same("merger", &got.1, &want.1)?;
        }
    }
    Ok(())
}

const KINDS: [ErrorKind; 7] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::UnexpectedEof,
    ErrorKind::InvalidData,
    ErrorKind::WouldBlock,
    ErrorKind::TimedOut,
];

fn check_io(e: &std::io::Error, kind: ErrorKind) -> Res {
    ensure!(e.kind() == kind || e.to_string().contains("injected failure"), "the error returned is {e:?}, the component failed with {kind:?}");
    Ok(())
}

/// Runs a public call, checks that it fails exactly when the component failed meanwhile.
/// Returns None when the scenario is over.
fn call<T, U: std::fmt::Debug>(what: &str, ctl: &Ctl, kind: ErrorKind, f: impl FnOnce() -> Result<T, Error<U>>) -> Result<Option<T>, String> {
    let before = ctl.faults();
    let res = catch_unwind(AssertUnwindSafe(f));
    let failed = ctl.faults() > before;
    match res {
        Err(_) => Err(format!("{what} panics{}", if failed { " on a component failure" } else { "" })),
        Ok(Ok(x)) => {
            ensure!(!failed, "{what} succeeds although the component failed ({kind:?})");
            Ok(Some(x))
        }
        Ok(Err(e)) => {
            ensure!(failed, "{what} fails ({e:?}) although no component failed");
            match e {
                Error::Io(e) => check_io(&e, kind)?,
                e => return Err(format!("{what} returns {e:?}, the component failed with the I/O error {kind:?}")),
            }
            Ok(None)
        }
    }
}

macro_rules! step {
    ($x:expr) => {
        match $x? {
            Some(x) => x,
            None => return Ok(()),
        }
    };
}

fn writer_scenario(cfg: &Config, es: &Entries, ctl: &Ctl, kind: ErrorKind, finish: bool) -> Res {
    let mut w = cfg.builder().build(Inst::new(Vec::new(), ctl));
    for (i, (k, v)) in es.iter().enumerate() {
        step!(call(&format!("Writer::insert #{i}"), ctl, kind, || w.insert(k, v).map_err(Error::<()>::Io)));
    }
    if finish {
        step!(call("Writer::finish", ctl, kind, || w.finish().map_err(Error::<()>::Io)));
    } else {
        step!(call("Writer::into_inner", ctl, kind, || w.into_inner().map_err(Error::<()>::Io)));
    }
    Ok(())
}

fn reader_scenario(bytes: &[u8], ctl: &Ctl, kind: ErrorKind, r: &mut Rng, es: &Entries, which: usize) -> Res {
    let rd = step!(call("Reader::new", ctl, kind, || inst_reader(bytes, ctl)));
    macro_rules! drain {
        ($name:expr, $it:expr) => {{
            let mut it = step!(call($name, ctl, kind, || $it));
            for _ in 0..es.len() + 2 {
                if !step!(call(concat!($name, " next"), ctl, kind, || it.next().map(|x| x.is_some()))) {
                    break;
                }
            }
        }};
    }
    let (a, b) = (probe(r, es), probe(r, es));
    match which {
        0 => drain!("into_range_iter", rd.into_range_iter::<_, Vec<u8>>((Bound::Excluded(a), Bound::Included(b)))),
        1 => drain!("into_rev_range_iter", rd.into_rev_range_iter::<_, Vec<u8>>((Bound::Included(a), Bound::Excluded(b)))),
        2 => drain!("into_prefix_iter", rd.into_prefix_iter(a)),
        3 => drain!("into_rev_prefix_iter", rd.into_rev_prefix_iter(a)),
        4 => drain!("into_range_iter all", rd.into_range_iter::<_, &[u8]>(..)),
        5 => drain!("into_rev_range_iter all", rd.into_rev_range_iter::<_, &[u8]>(..)),
        _ => {
            let mut c = step!(call("into_cursor", ctl, kind, || rd.into_cursor()));
            for _ in 0..60 {
                let q = probe(r, es);
                let op = r.below(7);
                let name = ["first", "last", "next", "prev", "ge", "le", "eq"][op];
                step!(call(&format!("{name} {}", hex(&q)), ctl, kind, || match op {
                    0 => c.move_on_first().map(|x| x.is_some()),
                    1 => c.move_on_last().map(|x| x.is_some()),
                    2 => c.move_on_next().map(|x| x.is_some()),
                    3 => c.move_on_prev().map(|x| x.is_some()),
                    4 => c.move_on_key_greater_than_or_equal_to(&q).map(|x| x.is_some()),
                    5 => c.move_on_key_lower_than_or_equal_to(&q).map(|x| x.is_some()),
                    _ => c.move_on_key_equal_to(&q).map(|x| x.is_some()),
                }));
            }
        }
    }
    Ok(())
}

fn merger_scenario(files: &[Vec<u8>], ctl: &Ctl, sink: &Ctl, kind: ErrorKind, into_writer: bool) -> Res {
    let merge = Concat::new();
    let mut b = grenad::Merger::builder(&merge);
    for f in files {
        let rd = step!(call("Reader::new", ctl, kind, || inst_reader(f, ctl)));
        b.push(step!(call("into_cursor", ctl, kind, || rd.into_cursor())));
    }
    let m = b.build();
    if into_writer {
        let faulty = if sink.with(|s| s.plan.fail_at.is_some()) { sink } else { ctl };
        let mut w = grenad::Writer::new(Inst::new(Vec::new(), sink));
        step!(call("Merger::write_into_stream_writer", faulty, kind, || m.write_into_stream_writer(&mut w)));
        step!(call("Writer::into_inner", faulty, kind, || w.into_inner().map_err(Error::<()>::Io)));
    } else {
        let mut it = step!(call("into_stream_merger_iter", ctl, kind, || m.into_stream_merger_iter()));
        while step!(call("MergerIter::next", ctl, kind, || it.next().map(|x| x.is_some()))) {}
    }
    Ok(())
}

fn sorter_scenario(scfg: &SortCfg, ps: &Entries, ctl: &Ctl, kind: ErrorKind, way: usize) -> Res {
    let merge = Concat::new();
    let mut s = scfg.finish(scfg.builder(&merge).chunk_creator(Creator { t: Default::default(), ctl: ctl.clone() }).build());
    for (i, (k, v)) in ps.iter().enumerate() {
        step!(call(&format!("Sorter::insert #{i}"), ctl, kind, || s.insert(k, v)));
    }
    match way {
        0 => {
            let mut it = step!(call("Sorter::into_stream_merger_iter", ctl, kind, || s.into_stream_merger_iter()));
            while step!(call("MergerIter::next", ctl, kind, || it.next().map(|x| x.is_some()))) {}
        }
        1 => {
            let mut w = grenad::Writer::memory();
            step!(call("Sorter::write_into_stream_writer", ctl, kind, || s.write_into_stream_writer(&mut w)));
        }
        _ => {
            step!(call("Sorter::into_reader_cursors", ctl, kind, || s.into_reader_cursors()));
        }
    }
    Ok(())
}

/// Chunk creators failing with each kind of error, converted through `Into<Error>`.
struct FailingCreator {
    at: usize,
    n: std::cell::Cell<usize>,
    kind: usize,
}

impl grenad::ChunkCreator for FailingCreator {
    type Chunk = std::io::Cursor<Vec<u8>>;
    type Error = Error;
    fn create(&self) -> Result<Self::Chunk, Error> {
        let n = self.n.get();
        self.n.set(n + 1);
        if n == self.at {
            return Err(match self.kind {
                0 => Error::Io(std::io::Error::new(ErrorKind::Other, "creator failure")),
                1 => Error::InvalidCompressionType,
                2 => Error::InvalidFormatVersion,
                _ => std::io::Error::new(ErrorKind::NotFound, "creator failure").into(),
            });
        }
        Ok(Default::default())
    }
}

pub fn c12(r: &mut Rng, size: usize, id: u64) -> Res {
    let size = size.min(4);
    let cfg = Config::gen_deep(r);
    let es = entries(r, size);
    let kind = *r.pick(&KINDS);
    let choose = |r: &mut Rng, n: u64| match r.below(6) {
        0 => 0,
        1 => n.saturating_sub(1),
        2 => n.saturating_sub(1 + r.below(12) as u64),
        _ => r.next() % n.max(1),
    };
    let partial = r.chance(1, 4);
    let mk = |at: Option<u64>, forever: bool| Plan { short: partial, interrupt: false, fail_at: at, fail_forever: forever, kind: Some(kind) };
    let forever = r.chance(1, 2);
    note!("config {cfg:?}\n{}\nerror kind {kind:?}", show(&es));
    match id % 5 {
        0 => {
            let finish = r.chance(1, 2);
            let dry = Ctl::new(mk(None, false), 9);
            writer_scenario(&cfg, &es, &dry, kind, finish)?;
            for _ in 0..6 {
                let at = choose(r, dry.calls());
                note!("writer: failing call {at} of {} of the sink", dry.calls());
                writer_scenario(&cfg, &es, &Ctl::new(mk(Some(at), forever), 9), kind, finish)?;
            }
        }
        1 | 2 => {
            let bytes = write_file(&cfg, &es)?;
            let which = r.below(10);
            let dry = Ctl::new(mk(None, false), 9);
            reader_scenario(&bytes, &dry, kind, &mut r.clone(), &es, which)?;
            for _ in 0..10 {
                let at = choose(&mut r.clone(), dry.calls()) + r.next() % 3;
                let at = if r.chance(1, 2) { r.next() % dry.calls().max(1) } else { at };
                note!("reader api {which}: failing call {at} of {} of the source", dry.calls());
                reader_scenario(&bytes, &Ctl::new(mk(Some(at), forever), 9), kind, &mut r.clone(), &es, which)?;
            }
        }
        3 => {
            let mut files = vec![write_file(&cfg, &es)?];
            for _ in 0..r.below(3) {
                files.push(write_file(&cfg, &entries(r, size))?);
            }
            let into_writer = r.chance(1, 2);
            let dry = Ctl::new(mk(None, false), 9);
            let dry_sink = Ctl::new(mk(None, false), 9);
            merger_scenario(&files, &dry, &dry_sink, kind, into_writer)?;
            for _ in 0..6 {
                let ok = Ctl::new(mk(None, false), 9);
                let at = choose(r, dry.calls());
                note!("merger: failing call {at} of {} of the sources", dry.calls());
                merger_scenario(&files, &Ctl::new(mk(Some(at), forever), 9), &ok, kind, into_writer)?;
                if into_writer {
                    let at = choose(r, dry_sink.calls());
                    note!("merger: failing call {at} of {} of the sink", dry_sink.calls());
                    merger_scenario(&files, &ok, &Ctl::new(mk(Some(at), forever), 9), kind, into_writer)?;
                }
            }
            // merge function failures
            let total = {
                let merge = Concat::new();
                let mut b = grenad::Merger::builder(&merge);
                for f in &files {
                    b.push(cursor(&f[..])?);
                }
                let mut it = b.build().into_stream_merger_iter().map_err(|e| e.to_string())?;
                while it.next().map_err(|e| e.to_string())?.is_some() {}
                drop(it);
                merge.calls.into_inner()
            };
            if total > 0 {
                let mut merge = Concat::new();
                merge.fail_at = Some(r.below(total));
                note!("merge call {:?} of {total} fails", merge.fail_at);
                let mut b = grenad::Merger::builder(&merge);
                for f in &files {
                    b.push(cursor(&f[..])?);
                }
                let mut it = b.build().into_stream_merger_iter().map_err(|e| e.to_string())?;
                loop {
                    let res = it.next().map(|x| x.is_some());
                    let failed = *merge.failed.borrow();
                    match res {
                        Ok(true) => ensure!(!failed, "MergerIter::next succeeds although the merge function failed"),
                        Ok(false) => {
                            ensure!(failed, "the failing merge call was never made");
                            return Err("MergerIter::next returns None although the merge function failed".into());
                        }
                        Err(Error::Merge(MergeFailed(4242))) => {
                            ensure!(failed, "merge error without merge failure");
                            break;
                        }
                        Err(e) => return Err(format!("MergerIter::next returns {e:?} for a merge failure")),
                    }
                }
            }
        }
        _ => {
            let scfg = SortCfg { parallel: false, ..SortCfg::gen(r) };
            let ps = pairs(r, size, false);
            let way = r.below(3);
            note!("{scfg:?} way {way} {}", show(&ps));
            let dry = Ctl::new(mk(None, false), 9);
            sorter_scenario(&scfg, &ps, &dry, kind, way)?;
            for _ in 0..6 {
                let at = choose(r, dry.calls());
                note!("sorter: failing call {at} of {} of the chunks", dry.calls());
                sorter_scenario(&scfg, &ps, &Ctl::new(mk(Some(at), forever), 9), kind, way)?;
            }
            // chunk creator failures
            for kind in 0..4 {
                let merge = Concat::new();
                let creator = FailingCreator { at: if r.chance(1, 2) { 0 } else { r.below(4) }, n: Default::default(), kind };
                let at = creator.at;
                note!("chunk creation {at} fails, kind {kind}");
                let res = catch_unwind(AssertUnwindSafe(|| {
                    let cell = std::rc::Rc::new(creator);
                    struct Rc2(std::rc::Rc<FailingCreator>);
                    impl grenad::ChunkCreator for Rc2 {
                        type Chunk = std::io::Cursor<Vec<u8>>;
                        type Error = Error;
                        fn create(&self) -> Result<Self::Chunk, Error> {
                            self.0.create()
                        }
                    }
                    let mut s = scfg.finish(scfg.builder(&merge).chunk_creator(Rc2(cell.clone())).build());
                    for (k, v) in &ps {
                        let res = s.insert(k, v);
                        let made = cell.n.get() > at;
                        match res {
                            Ok(()) if made => return Err("Sorter::insert succeeds although the chunk creator failed".to_string()),
                            Ok(()) => (),
                            Err(e) => return Ok(Some((made, e))),
                        }
                    }
                    let res = s.into_reader_cursors();
                    let made = cell.n.get() > at;
                    match res {
                        Ok(_) if made => Err("into_reader_cursors succeeds although the chunk creator failed".to_string()),
                        Ok(_) => Ok(None),
                        Err(e) => Ok(Some((made, e))),
                    }
                }));
                match res {
                    Err(_) => return Err("the sorter panics when the chunk creator fails".into()),
                    Ok(Err(e)) => return Err(e),
                    Ok(Ok(None)) => (),
                    Ok(Ok(Some((made, e)))) => {
                        ensure!(made, "sorter error {e:?} although nothing failed");
                        let ok = match (&e, kind) {
                            (Error::Io(e), 0 | 3) => e.to_string().contains("creator failure"),
                            (Error::InvalidCompressionType, 1) => true,
                            (Error::InvalidFormatVersion, 2) => true,
                            _ => false,
                        };
                        ensure!(ok, "the sorter returns {e:?} for a chunk creator failure of kind {kind}");
                    }
                }
            }
            // merge function failures
            let total = {
                let merge = Concat::new();
                let mut s = scfg.finish(scfg.builder(&merge).chunk_creator(grenad::CursorVec).build());
                for (k, v) in &ps {
                    s.insert(k, v).map_err(|e| e.to_string())?;
                }
                let mut it = s.into_stream_merger_iter().map_err(|e| e.to_string())?;
                while it.next().map_err(|e| e.to_string())?.is_some() {}
                drop(it);
                merge.calls.into_inner()
            };
            for _ in 0..3 {
                if total == 0 {
                    break;
                }
                let mut merge = Concat::new();
                merge.fail_at = Some(r.below(total));
                note!("merge call {:?} of {total} fails", merge.fail_at);
                let mut s = scfg.finish(scfg.builder(&merge).chunk_creator(grenad::CursorVec).build());
                let mut end: Option<Result<(), Error<MergeFailed>>> = None;
                for (k, v) in &ps {
                    let res = s.insert(k, v);
                    if res.is_err() || *merge.failed.borrow() {
                        end = Some(res);
                        break;
                    }
                }
                if end.is_none() {
                    match s.into_stream_merger_iter() {
                        Err(e) => end = Some(Err(e)),
                        Ok(_) if *merge.failed.borrow() => end = Some(Ok(())),
                        Ok(mut it) => loop {
                            let res = it.next().map(|x| x.is_some());
                            match res {
                                Err(e) => {
                                    end = Some(Err(e));
                                    break;
                                }
                                Ok(more) => {
                                    if *merge.failed.borrow() || !more {
                                        end = Some(Ok(()));
                                        break;
                                    }
                                }
                            }
                        },
                    }
                }
                match end {
                    Some(Err(Error::Merge(MergeFailed(4242)))) if *merge.failed.borrow() => (),
                    other => return Err(format!("the merge function failed: {}; the sorter call gives {other:?}", merge.failed.borrow())),
                }
            }
        }
    }
    Ok(())
}
