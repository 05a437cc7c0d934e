// needs: writer lib reader reader::reader_cursor reader::range_iter reader::prefix_iter merger merge_function
// ---------------------------------------------------------------------------------------------
// Clients of the merger: whole-run theorems over its contracts (C06)
// ---------------------------------------------------------------------------------------------
pub mod mtrip {
use super::*;
use super::spec::*;
use super::lex::*;
use super::rt::*;
use super::fmt::*;
use super::ws::*;
use super::blk::*;
use super::fs::*;
use super::mrg::*;
use super::io::{Read, Seek, Stream};
use super::error::{Error, fault};
use super::writer::*;
use super::reader::Reader;
use super::reader::reader_cursor::*;
use super::merger::*;
use super::merge_function::*;
use super::spec::Entry;
use super::trip::{KV, ent, ents};
broadcast use {crate::rt::limits, crate::rt::asref_views, crate::error::b_no_merge};

/// what the files hold
pub open spec fn contents<R: Read + Seek>(s: Seq<R>) -> Rem { s.map_values(|x: R| content(file_of(x.data()))) }

pub fn kv(k: &[u8], v: &[u8]) -> (r: KV)
    ensures ent(r) == (Entry { k: k@, v: v@ }),
{
    let r = KV { k: k.to_vec(), v: v.to_vec() };
    assert(r.k@ =~= k@ && r.v@ =~= v@);
    r
}

/// opens the files and registers them in order
fn sources<R: Read + Seek, MF: MergeFunction>(srcs: Vec<R>, mf: MF) -> (r: crate::Result<Merger<R, MF>>)
    requires forall|i: int| 0 <= i < srcs@.len() ==> (#[trigger] srcs@[i]).sinv() && valid(srcs@[i].data()),
    ensures match r { Ok(m) => m.merge == mf && srcs_inv(m.sources@) && rems(m.sources@) == contents(srcs@), Err(e) => fault(e) },
{
    let ghost all = srcs@;
    let mut b = Merger::builder(mf);
    for src in it: srcs
        invariant
            it.seq() == all,
            forall|i: int| 0 <= i < all.len() ==> (#[trigger] all[i]).sinv() && valid(all[i].data()),
            b.merge == mf, srcs_inv(b.sources@), rems(b.sources@) =~= contents(all.take(it.index@)),
    {
        let ghost i = it.index@;
        proof { lemma_valid_trailer(src.data()); }
        let reader = match Reader::new(src) { Ok(x) => x, Err(e) => { return Err(e); } };
        let cur = match reader.into_cursor() { Ok(x) => x, Err(e) => { return Err(e); } };
        assert(src_ok(cur) && src_rem(cur) == content(file_of(all[i].data())));
        let ghost b0 = b.sources@;
        b.push(cur);
        assert forall|j: int| 0 <= j < b.sources@.len() implies src_ok(#[trigger] b.sources@[j]) by { if j < b0.len() { assert(b.sources@[j] == b0[j]); } }
        assert(rems(b.sources@) =~= rems(b0).push(src_rem(cur)));
        assert(all.take(i + 1) =~= all.take(i).push(all[i]));
    }
    assert(all.take(all.len() as int) =~= all);
    Ok(b.build())
}

#[verifier::loop_isolation(false)]
/// C06: the merger gives the ordered key union of the files, each key with the merge of its values in source order
pub fn merge_all<R: Read + Seek, MF: MergeFunction>(srcs: Vec<R>, mf: MF) -> (r: crate::Result<Vec<KV>, MF::Error>)
    requires
        forall|i: int| 0 <= i < srcs@.len() ==> (#[trigger] srcs@[i]).sinv() && valid(srcs@[i].data()),
        ready_all(mf, contents(srcs@)),
    ensures match r {
        Ok(v) => union_of(mf, contents(srcs@), ents(v@)),
        Err(Error::Merge(e)) => failed_at(mf, contents(srcs@), e),
        Err(e) => fault(e),
    },
{
    let ghost r0 = contents(srcs@);
    let m = match sources(srcs, mf) { Ok(m) => m, Err(e) => { return Err(Error::convert_merge_error(e)); } };
    proof { lemma_srcs(m.sources@); lemma_ready(mf, r0, Seq::<Entry>::empty()); }
    let mut it = match m.into_stream_merger_iter() { Ok(x) => x, Err(e) => { return Err(Error::convert_merge_error(e)); } };
    let mut out: Vec<KV> = Vec::new();
    assert(ents(out@) =~= Seq::<Entry>::empty());
    loop
        invariant
            it.minv(), it.merge_function == mf, it.rem@ == after(r0, ents(out@)), runs(mf, r0, ents(out@)), ready(mf, it.rem@),
        decreases left(it.rem@),
    {
        let ghost o0 = out@;
        match it.next() {
            Ok(Some((k, v))) => {
                let x = kv(k, v);
                proof { lemma_step(mf, r0, ents(o0), ent(x)); lemma_left(after(r0, ents(o0)), k@); lemma_ready(mf, r0, ents(o0).push(ent(x))); }
                out.push(x);
                assert(ents(out@) =~= ents(o0).push(ent(x)));
            }
            Ok(None) => {
                proof { theorem_union(mf, r0, ents(out@)); }
                return Ok(out);
            }
            Err(e) => { return Err(e); }
        }
    }
}

/// C06: what the merger writes is a valid file holding that union
pub fn merge_file<R: Read + Seek, MF: MergeFunction>(srcs: Vec<R>, mf: MF, b: &WriterBuilder) -> (r: crate::Result<Vec<u8>, MF::Error>)
    requires
        forall|i: int| 0 <= i < srcs@.len() ==> (#[trigger] srcs@[i]).sinv() && valid(srcs@[i].data()),
        ready_all(mf, contents(srcs@)), fits(mf, contents(srcs@)), b.ok(), !permissive(),
    ensures match r {
        Ok(d) => valid(d@) && union_of(mf, contents(srcs@), content(file_of(d@))) && d@ == wfile(b.cfg(), content(file_of(d@))),
        Err(Error::Merge(e)) => failed_at(mf, contents(srcs@), e),
        Err(e) => fault(e),
    },
{
    let ghost r0 = contents(srcs@);
    let m = match sources(srcs, mf) { Ok(m) => m, Err(e) => { return Err(Error::convert_merge_error(e)); } };
    proof { lemma_srcs(m.sources@); }
    let sink: Vec<u8> = Vec::new();
    let mut w = b.build(sink);
    let ghost g0 = w.g@;
    match m.write_into_stream_writer(&mut w) { Ok(_) => {} Err(e) => { return Err(e); } }
    proof {
        let out = choose|out: Seq<Entry>| #[trigger] merge_of(mf, r0, out) && w.g@.ins == g0.ins + out && (g0 == wstate(g0.cfg, g0.ins) ==> w.g@ == wstate(g0.cfg, w.g@.ins));
        assert(g0.ins + out =~= out);
        theorem_union(mf, r0, out);
    }
    match w.into_inner() {
        Ok(r) => {
            proof { assert(Seq::<u8>::empty() + wfinish(w.g@).out =~= wfinish(w.g@).out); }
            Ok(r)
        }
        Err(e) => Err(Error::Io(e)),
    }
}
} // mod mtrip
