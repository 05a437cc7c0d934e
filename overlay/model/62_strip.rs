// needs: writer lib reader reader::reader_cursor reader::range_iter reader::prefix_iter merger merge_function sorter
// ---------------------------------------------------------------------------------------------
// Clients of the sorter: whole-run theorems over its contracts (C07, C08)
// ---------------------------------------------------------------------------------------------
pub mod strip {
use super::*;
use super::spec::*;
use super::lex::*;
use super::rt::*;
use super::fmt::*;
use super::ws::*;
use super::blk::*;
use super::fs::*;
use super::mrg::*;
use super::srt::*;
use super::io::{Read, Seek, Write, Stream};
use super::error::{Error, fault};
use super::writer::*;
use super::reader::reader_cursor::*;
use super::merger::*;
use super::merge_function::*;
use super::sorter::*;
use super::spec::Entry;
use super::trip::{KV, ent, ents};
use super::mtrip::kv;
broadcast use {crate::rt::limits, crate::rt::asref_views, crate::error::b_no_merge, crate::merger::b_failure};

/// the unspilled volume is that of the unspilled entries
pub open spec fn weighed<MF, CC: ChunkCreator>(s: &Sorter<MF, CC>) -> bool { s.volume() == vsum(s.entries.ents()) }
pub open spec fn small(es: Seq<Entry>, budget: int) -> bool { forall|i: int| 0 <= i < es.len() ==> 4 * (16 + (#[trigger] es[i]).k.len() + es[i].v.len()) <= budget }

proof fn lemma_weighed<MF, CC: ChunkCreator>(a: &Sorter<MF, CC>, b: &Sorter<MF, CC>, e: Entry)
    requires weighed(a), stored(a, b, e),
    ensures weighed(b),
{
    assert(a.entries.ents().push(e).drop_last() =~= a.entries.ents());
    let s = seq![e];
    assert(s.drop_last() =~= Seq::<Entry>::empty());
    assert(vsum(s) == vsum(s.drop_last()) + e.k.len() + e.v.len());
}

#[verifier::loop_isolation(false)]
/// C07, C08: the sorter holds what was inserted; with small entries the unspilled volume and the number of chunks are bounded after every insert
pub fn fill<MF: MergeFunction, CC: ChunkCreator>(b: SorterBuilder<MF, CC>, es: &Vec<KV>) -> (r: crate::Result<Sorter<MF, CC>, MF::Error>)
    requires
        b.bok(), b.allow_realloc || b.dump_threshold < 0x2_0000_0000_0000, total(b.merge), !permissive(), lens_u32(ents(es@)),
    ensures match r {
        Ok(s) => {
            &&& s.inv() && s.merge_function == b.merge && s.sort_algorithm == b.sort_algorithm && s.hist() == ents(es@)
            &&& small(ents(es@), b.dump_threshold as int) ==> {
                &&& vsum(s.entries.ents()) <= if b.allow_realloc { 2 * b.dump_threshold } else { b.dump_threshold as int }
                &&& s.chunks@.len() <= b.max_nb_chunks
            }
        },
        Err(e) => excused(b.merge, e),
    },
{
    let ghost all = ents(es@);
    let ghost b0 = b;
    let ghost sm = small(all, b.dump_threshold as int);
    let mut s = b.build();
    assert(s.inv());
    let n = es.len();
    let mut i: usize = 0;
    assert(s.hist() =~= all.take(0));
    assert(s.entries.ents() =~= Seq::<Entry>::empty());
    while i < n
        invariant
            n == es@.len(), 0 <= i <= n, s.inv(), s.merge_function == b0.merge, s.sort_algorithm == b0.sort_algorithm, s.hist() == all.take(i as int),
            s.allow_realloc == b0.allow_realloc, s.dump_threshold == b0.dump_threshold, s.max_nb_chunks == b0.max_nb_chunks,
            weighed(&s), s.counted(), sm ==> s.within(),
        decreases n - i,
    {
        let ghost s0 = s;
        let x = &es[i];
        proof {
            assert(all[i as int] == ent(*x));
            assert(all.take(i + 1) =~= all.take(i as int).push(all[i as int]));
        }
        let k: &[u8] = x.k.as_slice();
        let v: &[u8] = x.v.as_slice();
        match s.insert(k, v) { Ok(_) => {} Err(e) => { return Err(e); } }
        proof {
            lemma_weighed(&s0, &s, ent(*x));
            // what C08 states, after every insert
            if sm { theorem_volume(&s); }
            assert(sm ==> vsum(s.entries.ents()) <= if b0.allow_realloc { 2 * b0.dump_threshold } else { b0.dump_threshold as int });
            assert(s.chunks@.len() <= b0.max_nb_chunks);
        }
        i = i + 1;
    }
    proof {
        assert(all.take(n as int) =~= all);
        if sm { theorem_volume(&s); }
    }
    Ok(s)
}

#[verifier::loop_isolation(false)]
/// collects what a merger iterator gives
fn collect<R: Read + Seek, MF: MergeFunction>(m: MergerIter<R, MF>) -> (r: crate::Result<Vec<KV>, MF::Error>)
    requires m.minv(), srcs_ok(m.rem@), srcs_lens(m.rem@), total(m.merge_function),
    ensures match r { Ok(v) => union_of(m.merge_function, m.rem@, ents(v@)), Err(e) => excused(m.merge_function, e) },
{
    let ghost r0 = m.rem@;
    let ghost mf = m.merge_function;
    let mut it = m;
    let mut out: Vec<KV> = Vec::new();
    proof { lemma_total(mf, r0); lemma_ready(mf, r0, Seq::<Entry>::empty()); }
    assert(ents(out@) =~= Seq::<Entry>::empty());
    loop
        invariant
            it.minv(), it.merge_function == mf, it.rem@ == after(r0, ents(out@)), runs(mf, r0, ents(out@)), ready(mf, it.rem@),
        decreases left(it.rem@),
    {
        let ghost o0 = out@;
        match it.next() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                proof { lemma_step(mf, r0, ents(o0), ent(x)); lemma_left(after(r0, ents(o0)), k@); lemma_ready(mf, r0, ents(o0).push(ent(x))); }
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
            }
            Ok(None) => {
                proof { theorem_union(mf, r0, ents(out@)); }
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

/// C07, by streaming
pub fn sort_stream<MF: MergeFunction, CC: ChunkCreator>(b: SorterBuilder<MF, CC>, es: &Vec<KV>) -> (r: crate::Result<Vec<KV>, MF::Error>)
    requires
        b.bok(), b.allow_realloc || b.dump_threshold < 0x2_0000_0000_0000, total(b.merge), !permissive(), lens_u32(ents(es@)),
    ensures match r {
        Ok(v) => sort_of(b.merge, b.sort_algorithm is Stable, ents(es@), ents(v@)),
        Err(e) => excused(b.merge, e),
    },
{
    let ghost m0 = b.merge;
    let ghost st = b.sort_algorithm is Stable;
    let s = match fill(b, es) { Ok(s) => s, Err(e) => { return Err(e); } };
    let it = match s.into_stream_merger_iter() { Ok(x) => x, Err(e) => { return Err(e); } };
    let ghost r0 = it.rem@;
    match collect(it) {
        Ok(v) => { proof { theorem_parts(m0, st, ents(es@), r0, ents(v@)); } Ok(v) }
        Err(e) => Err(e),
    }
}

/// C07, by merging the returned cursors
pub fn sort_cursors<MF: MergeFunction, CC: ChunkCreator>(b: SorterBuilder<MF, CC>, es: &Vec<KV>, mf: MF) -> (r: crate::Result<Vec<KV>, MF::Error>)
    requires
        b.bok(), b.allow_realloc || b.dump_threshold < 0x2_0000_0000_0000, total(b.merge), !permissive(), lens_u32(ents(es@)), mf == b.merge,
    ensures match r {
        Ok(v) => sort_of(mf, b.sort_algorithm is Stable, ents(es@), ents(v@)),
        Err(e) => excused(mf, e),
    },
{
    let ghost st = b.sort_algorithm is Stable;
    let s = match fill(b, es) { Ok(s) => s, Err(e) => { return Err(e); } };
    let v = match s.into_reader_cursors() { Ok(x) => x, Err(e) => { return Err(e); } };
    let ghost all = v@;
    let mut mb = Merger::builder(mf);
    for c in it: v
        invariant
            it.seq() == all, mb.merge == mf, mb.sources@ =~= all.take(it.index@),
    {
        assert(all.take(it.index@ + 1) =~= all.take(it.index@).push(all[it.index@]));
        mb.push(c);
    }
    assert(all.take(all.len() as int) =~= all);
    let m = mb.build();
    proof { lemma_srcs(m.sources@); }
    let it = match m.into_stream_merger_iter() { Ok(x) => x, Err(e) => { return Err(Error::convert_merge_error(e)); } };
    let ghost r0 = it.rem@;
    match collect(it) {
        Ok(v) => { proof { theorem_parts(mf, st, ents(es@), r0, ents(v@)); } Ok(v) }
        Err(e) => Err(e),
    }
}

/// C07, by writing into a writer: a valid file with that content
pub fn sort_file<MF: MergeFunction, CC: ChunkCreator>(b: SorterBuilder<MF, CC>, es: &Vec<KV>, wb: &WriterBuilder) -> (r: crate::Result<Vec<u8>, MF::Error>)
    requires
        b.bok(), b.allow_realloc || b.dump_threshold < 0x2_0000_0000_0000, total(b.merge), !permissive(), lens_u32(ents(es@)), wb.ok(),
    ensures match r {
        Ok(d) => valid(d@) && sort_of(b.merge, b.sort_algorithm is Stable, ents(es@), content(file_of(d@))) && d@ == wfile(wb.cfg(), content(file_of(d@))),
        Err(e) => excused(b.merge, e),
    },
{
    let ghost m0 = b.merge;
    let ghost st = b.sort_algorithm is Stable;
    let s = match fill(b, es) { Ok(s) => s, Err(e) => { return Err(e); } };
    let sink: Vec<u8> = Vec::new();
    let mut w = wb.build(sink);
    let ghost g0 = w.g@;
    match s.write_into_stream_writer(&mut w) { Ok(_) => {} Err(e) => { return Err(e); } }
    proof {
        let out = choose|out: Seq<Entry>| #[trigger] sort_of(m0, st, ents(es@), out) && w.g@.ins == g0.ins + out && (g0 == wstate(g0.cfg, g0.ins) ==> w.g@ == wstate(g0.cfg, w.g@.ins));
        assert(g0.ins + out =~= out);
    }
    match w.into_inner() {
        Ok(r) => {
            proof { assert(Seq::<u8>::empty() + wfinish(w.g@).out =~= wfinish(w.g@).out); }
            Ok(r)
        }
        Err(e) => Err(Error::Io(e)),
    }
}
} // mod strip
