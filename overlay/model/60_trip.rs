// needs: writer lib reader reader::reader_cursor reader::range_iter reader::prefix_iter
// ---------------------------------------------------------------------------------------------
// Clients of the public functions: whole-history theorems over their contracts (C01, C02, C03)
// ---------------------------------------------------------------------------------------------
pub mod trip {
use super::*;
use super::spec::*;
use super::lex::*;
use super::rt::*;
use super::pos::*;
use super::fmt::*;
use super::ws::*;
use super::blk::*;
use super::fs::*;
use super::io::{Read, Seek, Stream};
use super::error::{Error, fault};
use super::writer::*;
use super::reader::Reader;
use super::reader::reader_cursor::*;
use super::compression::*;
use super::rng::*;
use super::rng::{above, below};
use super::reader::range_iter::*;
use super::reader::prefix_iter::*;
broadcast use {crate::rt::limits, crate::rt::asref_views, crate::rt::int_bytes};

pub struct KV { pub k: Vec<u8>, pub v: Vec<u8> }
pub open spec fn ent(x: KV) -> Entry { Entry { k: x.k@, v: x.v@ } }
pub open spec fn ents(v: Seq<KV>) -> Seq<Entry> { Seq::new(v.len(), |i: int| ent(v[i])) }

fn kv(k: &[u8], v: &[u8]) -> (r: KV)
    ensures ent(r) == (Entry { k: k@, v: v@ }),
{
    let r = KV { k: k.to_vec(), v: v.to_vec() };
    assert(r.k@ =~= k@ && r.v@ =~= v@);
    r
}

/// C01: what is written to memory is a valid file holding exactly the inserted pairs, under the configured codec
pub fn write_all(b: &WriterBuilder, es: &Vec<KV>) -> (r: io::Result<Vec<u8>>)
    requires b.ok(), !permissive(), sorted(ents(es@)), lens_ok(ents(es@)),
    ensures
        match r {
            Ok(d) => {
                &&& valid(d@) && content(file_of(d@)) == ents(es@)
                &&& ftrailer(file_of(d@)) == Trailer { v2: true, root: file_of(d@).root, codec: codec_id(b.compression_type), count: es@.len(), levels: b.index_levels as nat }
                &&& d@ == wfile(b.cfg(), ents(es@))
            }
            Err(e) => io::is_fault(e),
        },
{
    let ghost all = ents(es@);
    let sink: Vec<u8> = Vec::new();
    let mut w = b.build(sink);
    let mut i: usize = 0;
    while i < es.len()
        invariant
            w.inv(), !permissive(), all == ents(es@), sorted(all), lens_ok(all), i <= es@.len(),
            w.f0@ == 0, w.pre@ =~= Seq::<u8>::empty(), w.g@ == wstate(b.cfg(), all.take(i as int)), w.g@.ins == all.take(i as int), w.g@.cfg == b.cfg(),
        decreases es@.len() - i,
    {
        proof {
            lemma_lens_at(all, i as int);
            if i > 0 { lemma_sorted_at(all, i - 1, i as int); assert(all.take(i as int).last() == all[i - 1]); }
            assert(all.take(i + 1).drop_last() =~= all.take(i as int));
            assert(all.take(i + 1) =~= all.take(i as int).push(all[i as int]));
        }
        match w.insert(&es[i].k, &es[i].v) {
            Ok(_) => {}
            Err(_) => { proof { assert(false); } }
        }
        i += 1;
    }
    assert(all.take(i as int) =~= all);
    match w.into_inner() {
        Ok(r) => {
            proof { assert(Seq::<u8>::empty() + wfinish(w.g@).out =~= wfinish(w.g@).out); }
            Ok(r)
        }
        Err(e) => Err(e),
    }
}

#[verifier::loop_isolation(false)]
/// C01: the forward scan of a valid file returns its content, in order
pub fn scan<R: Read + Seek>(src: R) -> (r: crate::Result<Vec<KV>>)
    requires src.sinv(), valid(src.data()),
    ensures match r { Ok(v) => ents(v@) == content(file_of(src.data())), Err(e) => fault(e) },
{
    let ghost d = src.data();
    let ghost c = content(file_of(d));
    proof { lemma_valid_trailer(d); }
    let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
    let n = reader.len();
    let t = reader.compression_type();
    proof { lemma_level(d, file_of(d), 0); assert(n == c.len() && t == file_of(d).t); }
    let mut cur = match reader.into_cursor() { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut out: Vec<KV> = Vec::new();
    loop
        invariant
            c == content(file_of(d)), cur.rc_inv(), cur.reader.d() == d,
            out@.len() <= c.len(), ents(out@) == c.take(out@.len() as int),
            out@.len() == 0 ==> cur.current_cursor is None,
            out@.len() > 0 ==> cur.rc_at(out@.len() - 1),
        decreases c.len() - out@.len(),
    {
        let ghost o0 = out@;
        match cur.move_on_next() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
                assert(c.take(out@.len() as int) =~= c.take(o0.len() as int).push(c[o0.len() as int]));
            }
            Ok(None) => {
                assert(ents(out@) =~= c);
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

#[verifier::loop_isolation(false)]
/// C01: the backward scan returns it in reverse
pub fn scan_back<R: Read + Seek>(src: R) -> (r: crate::Result<Vec<KV>>)
    requires src.sinv(), valid(src.data()),
    ensures match r { Ok(v) => ents(v@) == content(file_of(src.data())).reverse(), Err(e) => fault(e) },
{
    let ghost d = src.data();
    let ghost c = content(file_of(d));
    proof { lemma_valid_trailer(d); }
    let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut cur = match reader.into_cursor() { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut out: Vec<KV> = Vec::new();
    loop
        invariant
            c == content(file_of(d)), cur.rc_inv(), cur.reader.d() == d,
            out@.len() <= c.len(), ents(out@) == c.reverse().take(out@.len() as int),
            out@.len() == 0 ==> cur.current_cursor is None,
            out@.len() > 0 ==> cur.rc_at(c.len() - out@.len()),
        decreases c.len() - out@.len(),
    {
        let ghost o0 = out@;
        match cur.move_on_prev() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
                assert(c.reverse().take(out@.len() as int) =~= c.reverse().take(o0.len() as int).push(c[c.len() - 1 - o0.len()]));
            }
            Ok(None) => {
                assert(ents(out@) =~= c.reverse());
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

// ------------------------------------------------------------------------ iterators (C04, C05)
pub open spec fn in_range(s: BK, e: BK) -> spec_fn(Entry) -> bool { |x: Entry| above(s, x.k) && below(e, x.k) }
pub open spec fn has_prefix(p: Seq<u8>) -> spec_fn(Entry) -> bool { |x: Entry| starts(x.k, p) }

/// the run of entries a filter selects
proof fn lemma_run(c: Seq<Entry>, f: spec_fn(Entry) -> bool, lo: int, hi: int)
    requires 0 <= lo <= hi <= c.len(), forall|i: int| 0 <= i < c.len() ==> (f(#[trigger] c[i]) <==> lo <= i < hi),
    ensures c.filter(f) == c.subrange(lo, hi),
{
    lemma_filter_run(c, f, lo, hi);
}
proof fn lemma_rev_step(c: Seq<Entry>, hi: int, n: int)
    requires 0 <= n < hi <= c.len(),
    ensures c.subrange(hi - n - 1, hi).reverse() == c.subrange(hi - n, hi).reverse().push(c[hi - n - 1]),
{
    assert(c.subrange(hi - n - 1, hi).reverse() =~= c.subrange(hi - n, hi).reverse().push(c[hi - n - 1]));
}

#[verifier::loop_isolation(false)]
/// C04: the forward range iterator yields the entries within both bounds, in order
pub fn range<R: Read + Seek, S: RangeBounds<A>, A: AsRef<[u8]>>(src: R, rg: S) -> (r: crate::Result<Vec<KV>>)
    requires src.sinv(), valid(src.data()),
    ensures match r { Ok(v) => ents(v@) == content(file_of(src.data())).filter(in_range(bk_of(rg.start_spec()), bk_of(rg.end_spec()))), Err(e) => fault(e) },
{
    let ghost d = src.data();
    let ghost c = content(file_of(d));
    let ghost s = bk_of(rg.start_spec());
    let ghost e = bk_of(rg.end_spec());
    let ghost lo = match from_t(c, s) { Some(i) => i, None => c.len() as int };
    proof {
        lemma_valid_trailer(d); lemma_level(d, file_of(d), 0);
        lemma_from(c, s); lemma_upto(c, e);
    }
    let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut it = match reader.into_range_iter(rg) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut out: Vec<KV> = Vec::new();
    loop
        invariant
            it.cursor.rc_inv(), it.cursor.reader.d() == d, bk(it.range.0) == s, bk(it.range.1) == e,
            0 <= lo <= lo + out@.len() <= c.len(), ents(out@) == c.subrange(lo, lo + out@.len()),
            forall|j: int| lo <= j < lo + out@.len() ==> below(e, #[trigger] c[j].k),
            it.move_on_start == (out@.len() == 0),
            out@.len() > 0 ==> it.cursor.rc_at(lo + out@.len() - 1),
        decreases c.len() - out@.len(),
    {
        let ghost o0 = out@;
        match it.next() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
                assert(c.subrange(lo, lo + out@.len()) =~= c.subrange(lo, lo + o0.len()).push(c[lo + o0.len()]));
            }
            Ok(None) => {
                proof { lemma_run(c, in_range(s, e), lo, lo + out@.len()); }
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

#[verifier::loop_isolation(false)]
/// C04: the reverse one yields the same in descending order
pub fn rev_range<R: Read + Seek, S: RangeBounds<A>, A: AsRef<[u8]>>(src: R, rg: S) -> (r: crate::Result<Vec<KV>>)
    requires src.sinv(), valid(src.data()),
    ensures match r { Ok(v) => ents(v@) == content(file_of(src.data())).filter(in_range(bk_of(rg.start_spec()), bk_of(rg.end_spec()))).reverse(), Err(e) => fault(e) },
{
    let ghost d = src.data();
    let ghost c = content(file_of(d));
    let ghost s = bk_of(rg.start_spec());
    let ghost e = bk_of(rg.end_spec());
    let ghost hi = match upto_t(c, e) { Some(i) => i + 1, None => 0 };
    proof {
        lemma_valid_trailer(d); lemma_level(d, file_of(d), 0);
        lemma_from(c, s); lemma_upto(c, e);
    }
    let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut it = match reader.into_rev_range_iter(rg) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut out: Vec<KV> = Vec::new();
    proof { assert(ents(out@) =~= c.subrange(hi, hi).reverse()); }
    loop
        invariant
            it.cursor.rc_inv(), it.cursor.reader.d() == d, bk(it.range.0) == s, bk(it.range.1) == e,
            0 <= hi - out@.len() <= hi <= c.len(), ents(out@) == c.subrange(hi - out@.len(), hi).reverse(),
            forall|j: int| hi - out@.len() <= j < hi ==> above(s, #[trigger] c[j].k),
            it.move_on_start == (out@.len() == 0),
            out@.len() > 0 ==> it.cursor.rc_at(hi - out@.len()),
        decreases c.len() - out@.len(),
    {
        let ghost o0 = out@;
        match it.next() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
                proof { lemma_rev_step(c, hi, o0.len() as int); }
            }
            Ok(None) => {
                proof { lemma_run(c, in_range(s, e), hi - out@.len(), hi); }
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

#[verifier::loop_isolation(false)]
/// C05: the forward prefix iterator yields the entries with the prefix, in order
pub fn prefix<R: Read + Seek>(src: R, p: Vec<u8>) -> (r: crate::Result<Vec<KV>>)
    requires src.sinv(), valid(src.data()),
    ensures match r { Ok(v) => ents(v@) == content(file_of(src.data())).filter(has_prefix(p@)), Err(e) => fault(e) },
{
    let ghost d = src.data();
    let ghost c = content(file_of(d));
    let ghost lo = match ge_t(c, p@) { Some(i) => i, None => c.len() as int };
    let ghost pre = p@;
    proof {
        lemma_valid_trailer(d); lemma_level(d, file_of(d), 0);
        lemma_ge(c, pre); lemma_prefix_run(c, pre);
    }
    let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut it = match reader.into_prefix_iter(p) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut out: Vec<KV> = Vec::new();
    loop
        invariant
            it.cursor.rc_inv(), it.cursor.reader.d() == d, it.prefix@ == pre,
            0 <= lo <= lo + out@.len() <= c.len(), ents(out@) == c.subrange(lo, lo + out@.len()),
            forall|j: int| lo <= j < lo + out@.len() ==> starts(#[trigger] c[j].k, pre),
            it.move_on_first_prefix == (out@.len() == 0),
            out@.len() > 0 ==> it.cursor.rc_at(lo + out@.len() - 1),
        decreases c.len() - out@.len(),
    {
        let ghost o0 = out@;
        match it.next() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
                assert(c.subrange(lo, lo + out@.len()) =~= c.subrange(lo, lo + o0.len()).push(c[lo + o0.len()]));
            }
            Ok(None) => {
                proof { lemma_run(c, has_prefix(pre), lo, lo + out@.len()); }
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

#[verifier::loop_isolation(false)]
/// C05: the reverse one yields the same in descending order
pub fn rev_prefix<R: Read + Seek>(src: R, p: Vec<u8>) -> (r: crate::Result<Vec<KV>>)
    requires src.sinv(), valid(src.data()),
    ensures match r { Ok(v) => ents(v@) == content(file_of(src.data())).filter(has_prefix(p@)).reverse(), Err(e) => fault(e) },
{
    let ghost d = src.data();
    let ghost c = content(file_of(d));
    let ghost pre = p@;
    let ghost hi = match last_prefix_t(c, pre) { Some(i) => i + 1, None => 0 };
    proof {
        lemma_valid_trailer(d); lemma_level(d, file_of(d), 0);
        lemma_last_prefix(c, pre);
    }
    let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut it = match reader.into_rev_prefix_iter(p) { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut out: Vec<KV> = Vec::new();
    proof { assert(ents(out@) =~= c.subrange(hi, hi).reverse()); }
    loop
        invariant
            it.cursor.rc_inv(), it.cursor.reader.d() == d, it.prefix@ == pre,
            0 <= hi - out@.len() <= hi <= c.len(), ents(out@) == c.subrange(hi - out@.len(), hi).reverse(),
            forall|j: int| hi - out@.len() <= j < hi ==> starts(#[trigger] c[j].k, pre),
            it.move_on_last_prefix == (out@.len() == 0),
            out@.len() > 0 ==> it.cursor.rc_at(hi - out@.len()),
        decreases c.len() - out@.len(),
    {
        let ghost o0 = out@;
        match it.next() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
                proof { lemma_rev_step(c, hi, o0.len() as int); }
            }
            Ok(None) => {
                proof { lemma_run(c, has_prefix(pre), hi - out@.len(), hi); }
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

// --------------------------------------------------------------------------- histories (C03)
pub enum Op { First, Last, Next, Prev, Ge(Vec<u8>), Le(Vec<u8>), Eq(Vec<u8>), Reset, Current, Clone }

pub enum PosG { Fresh, At(int), Unspec }
/// logical position; `cur`: what `current` returns (None: unspecified)
pub struct CurG { pub pos: PosG, pub cur: Option<Option<int>> }

/// the entry an operation returns, as a function of content and logical position (None: unspecified)
pub open spec fn expect(c: Seq<Entry>, s: CurG, op: Op) -> Option<Option<int>> {
    match op {
        Op::First => Some(first_t(c)),
        Op::Last => Some(last_t(c)),
        Op::Next => match s.pos { PosG::Fresh => Some(first_t(c)), PosG::At(p) => Some(next_t(c, p)), PosG::Unspec => None },
        Op::Prev => match s.pos { PosG::Fresh => Some(last_t(c)), PosG::At(p) => Some(prev_t(c, p)), PosG::Unspec => None },
        Op::Ge(k) => Some(ge_t(c, k@)),
        Op::Le(k) => Some(le_t(c, k@)),
        Op::Eq(k) => Some(eq_t(c, k@)),
        Op::Current => s.cur,
        Op::Reset => Some(None),
        Op::Clone => Some(None),
    }
}
pub open spec fn after(c: Seq<Entry>, s: CurG, op: Op) -> CurG {
    match op {
        Op::Reset => CurG { pos: PosG::Fresh, cur: Some(None) },
        Op::Current | Op::Clone => s,
        _ => match expect(c, s, op) {
            Some(Some(p)) => CurG { pos: PosG::At(p), cur: Some(Some(p)) },
            Some(None) => CurG { pos: PosG::Unspec, cur: match op {
                Op::First | Op::Last => Some(None),
                // known finding: what `current` returns after these returned None depends on the block layout
                Op::Le(_) | Op::Eq(_) => None,
                _ => s.cur,
            } },
            None => CurG { pos: PosG::Unspec, cur: None },
        },
    }
}
pub open spec fn step_all(c: Seq<Entry>, ss: Seq<CurG>, o: (usize, Op)) -> Seq<CurG> {
    if o.0 >= ss.len() { ss } else if o.1 is Clone { ss.push(ss[o.0 as int]) } else { ss.update(o.0 as int, after(c, ss[o.0 as int], o.1)) }
}
/// logical positions of the cursors after `n` operations
pub open spec fn states(c: Seq<Entry>, ops: Seq<(usize, Op)>, n: int) -> Seq<CurG>
    decreases n,
{
    if n <= 0 { seq![CurG { pos: PosG::Fresh, cur: Some(None) }] } else { step_all(c, states(c, ops, n - 1), ops[n - 1]) }
}
/// the result of operation `i` is the one the content and the logical position determine
pub open spec fn right(c: Seq<Entry>, ops: Seq<(usize, Op)>, i: int, x: Option<KV>) -> bool {
    let ss = states(c, ops, i);
    ops[i].0 < ss.len() ==> same(c, expect(c, ss[ops[i].0 as int], ops[i].1), x)
}
pub open spec fn same(c: Seq<Entry>, t: Option<Option<int>>, x: Option<KV>) -> bool {
    match t {
        None => true,
        Some(None) => x is None,
        Some(Some(p)) => x is Some && 0 <= p < c.len() && ent(x->Some_0) == c[p],
    }
}
pub open spec fn lnk<R: Read + Seek>(x: ReaderCursor<R>, d: Seq<u8>, s: CurG) -> bool {
    &&& x.rc_inv() && x.reader.d() == d
    &&& s.pos is Fresh ==> x.current_cursor is None
    &&& s.pos is At ==> x.rc_at(s.pos->At_0)
    &&& match s.cur { None => true, Some(None) => x.current_cursor is None, Some(Some(p)) => x.cur_at(p) }
}

fn own(x: Option<(&[u8], &[u8])>) -> (r: Option<KV>)
    ensures x is None ==> r is None, x is Some ==> r is Some && ent(r->Some_0) == (Entry { k: (x->Some_0).0@, v: (x->Some_0).1@ }),
{
    match x { Some((k, v)) => Some(kv(k, v)), None => None }
}

/// one operation on one cursor
pub fn step<R: Read + Seek>(x: &mut ReaderCursor<R>, d: Ghost<Seq<u8>>, s: Ghost<CurG>, op: &Op) -> (r: crate::Result<Option<KV>>)
    requires lnk(*old(x), d@, s@), valid(d@), !(op is Clone),
    ensures
        match r {
            Ok(k) => lnk(*final(x), d@, after(content(file_of(d@)), s@, *op)) && same(content(file_of(d@)), expect(content(file_of(d@)), s@, *op), k),
            Err(e) => fault(e),
        },
{
    let ghost f = file_of(d@);
    proof {
        lemma_valid_trailer(d@); lemma_level(d@, f, f.depth as int + 1);
        assert(x.f() == f);
        assert forall|q: int| 0 <= q < f.lev[f.depth as int + 1].len() implies good(d@, f.t, #[trigger] f.lev[f.depth as int + 1][q]) by {}
    }
    let ghost x0 = *x;
    let r = match op {
        Op::First => match x.move_on_first() { Ok(e) => Ok(own(e)), Err(e) => Err(e) },
        Op::Last => match x.move_on_last() { Ok(e) => Ok(own(e)), Err(e) => Err(e) },
        Op::Next => match x.move_on_next() { Ok(e) => Ok(own(e)), Err(e) => Err(e) },
        Op::Prev => match x.move_on_prev() { Ok(e) => Ok(own(e)), Err(e) => Err(e) },
        Op::Ge(k) => match x.move_on_key_greater_than_or_equal_to(k) { Ok(e) => Ok(own(e)), Err(e) => Err(e) },
        Op::Le(k) => match x.move_on_key_lower_than_or_equal_to(k) { Ok(e) => Ok(own(e)), Err(e) => Err(e) },
        Op::Eq(k) => match x.move_on_key_equal_to(k) { Ok(e) => Ok(own(e)), Err(e) => Err(e) },
        Op::Reset => { x.reset(); return Ok(None); }
        Op::Current => {
            let r = own(x.current());
            proof {
                match s@.cur {
                    Some(Some(p)) => {
                        let q = choose|q: int| #[trigger] x0.cur2(q) && p == start(f.lev[f.depth as int + 1], q) + x0.ci();
                        lemma_data(d@, f, f.depth as int + 1, q);
                        lemma_start(f.lev[f.depth as int + 1], q);
                    }
                    _ => {}
                }
            }
            return Ok(r);
        }
        Op::Clone => { return Ok(None); }
    };
    proof {
        if r is Ok {
            assert(x.f() == f);
            match expect(content(f), s@, *op) {
                Some(Some(p)) => { assert(x.rc_at(p)); assert(x.cur2(x.ib())); assert(x.cur_at(p)); }
                _ => {
                    match s@.cur {
                        Some(Some(p)) => {
                            let q = choose|q: int| #[trigger] x0.cur2(q) && p == start(f.lev[f.depth as int + 1], q) + x0.ci();
                            if x.current_cursor == x0.current_cursor { assert(x.cur2(q)); }
                        }
                        _ => {}
                    }
                }
            }
        }
    }
    r
}

proof fn lemma_clone<R: Read + Seek>(x: ReaderCursor<R>, y: ReaderCursor<R>, d: Seq<u8>, s: CurG)
    requires
        lnk(x, d, s), y.index_block_cursor == x.index_block_cursor, y.current_cursor == x.current_cursor, y.reader.metadata == x.reader.metadata,
        y.reader.reader.sinv(), y.reader.reader.data() == x.reader.reader.data(),
    ensures lnk(y, d, s),
{
    assert(y.f() == x.f());
    let f = x.f();
    assert(y.rc_inv());
    if s.pos is At { assert(y.rc_at2(y.ib()) == x.rc_at2(x.ib())); }
    match s.cur {
        Some(Some(p)) => {
            let q = choose|q: int| #[trigger] x.cur2(q) && p == start(f.lev[f.depth as int + 1], q) + x.ci();
            assert(y.cur2(q));
        }
        _ => {}
    }
}

/// C03: every result of every history over any number of clones
#[verifier::loop_isolation(false)]
pub fn history<R: Read + Seek + Clone>(src: R, ops: &Vec<(usize, Op)>) -> (r: crate::Result<Vec<Option<KV>>>)
    requires
        src.sinv(), valid(src.data()),
        forall|a: R, b: R| #[trigger] cloned(a, b) && a.sinv() ==> b.sinv() && b.data() == a.data(),
    ensures match r {
        Ok(v) => v@.len() == ops@.len() && forall|i: int| 0 <= i < ops@.len() ==> right(content(file_of(src.data())), ops@, i, #[trigger] v@[i]),
        Err(e) => fault(e),
    },
{
    let ghost d = src.data();
    let ghost c = content(file_of(d));
    proof { lemma_valid_trailer(d); }
    let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
    let x0 = match reader.into_cursor() { Ok(x) => x, Err(e) => { return Err(e); } };
    let mut cs: Vec<ReaderCursor<R>> = Vec::new();
    cs.push(x0);
    let mut out: Vec<Option<KV>> = Vec::new();
    let mut i: usize = 0;
    while i < ops.len()
        invariant
            c == content(file_of(d)), 0 <= i <= ops@.len(), out@.len() == i,
            cs@.len() == states(c, ops@, i as int).len(),
            forall|j: int| 0 <= j < cs@.len() ==> lnk(#[trigger] cs@[j], d, states(c, ops@, i as int)[j]),
            forall|k: int| 0 <= k < i ==> right(c, ops@, k, #[trigger] out@[k]),
        decreases ops@.len() - i,
    {
        let ghost ss = states(c, ops@, i as int);
        let j = ops[i].0;
        if j < cs.len() {
            match &ops[i].1 {
                Op::Clone => {
                    let y = cs[j].clone();
                    proof { lemma_clone(cs@[j as int], y, d, ss[j as int]); }
                    cs.push(y);
                    out.push(None);
                }
                op => {
                    let x = &mut cs[j];
                    match step(x, Ghost(d), Ghost(ss[j as int]), op) {
                        Ok(k) => { out.push(k); }
                        Err(e) => { return Err(e); }
                    }
                }
            }
        } else {
            out.push(None);
        }
        i += 1;
    }
    Ok(out)
}

} // mod trip
