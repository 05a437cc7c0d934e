// needs: compression
// ---------------------------------------------------------------------------------------------
// The writer as a function of its inserts (C01, C09, C11, C15, C18)
// ---------------------------------------------------------------------------------------------
pub mod ws {
use super::*;
use super::spec::*;
use super::lex::*;
use super::blk::*;
use super::rt::*;
use super::fmt::*;
use super::compression::*;

/// a block of the file: the offset of its length prefix, and its entries
pub struct Blk { pub off: nat, pub es: Seq<Entry> }

pub struct Cfg { pub codec: CompressionType, pub level: u32, pub iv: nat, pub bs: nat, pub depth: nat }

/// `pend[l]` are the entries of the block under construction at level `l`: 0 is the root index, `depth` the lowest
/// index level, `depth + 1` the data. `lev[l]` are the blocks already emitted at that level.
pub struct WS {
    pub cfg: Cfg,
    pub pend: Seq<Seq<Entry>>,
    pub lev: Seq<Seq<Blk>>,
    pub log: Seq<Seq<Entry>>,
    pub out: Seq<u8>,
    pub ins: Seq<Entry>,
}

/// C09: length prefix and stored bytes of a block
pub open spec fn frame(c: Cfg, es: Seq<Entry>) -> Seq<u8> {
    let p = comp(c.codec, c.level, enc_block(es, c.iv));
    be64(p.len()) + p
}

pub open spec fn frames(c: Cfg, log: Seq<Seq<Entry>>) -> Seq<u8>
    decreases log.len(),
{
    if log.len() == 0 { Seq::empty() } else { frames(c, log.drop_last()) + frame(c, log.last()) }
}

pub open spec fn size(es: Seq<Entry>, iv: nat) -> nat { enc_block(es, iv).len() }

/// the entries of consecutive blocks
pub open spec fn flat(bs: Seq<Blk>) -> Seq<Entry>
    decreases bs.len(),
{
    if bs.len() == 0 { Seq::empty() } else { flat(bs.drop_last()) + bs.last().es }
}

/// the index entry of a block: its last key and its offset
pub open spec fn blkref(b: Blk) -> Entry { Entry { k: b.es.last().k, v: be64(b.off) } }

pub open spec fn refs(bs: Seq<Blk>) -> Seq<Entry> { bs.map_values(|b: Blk| blkref(b)) }

// ------------------------------------------------------------------------------- transitions
/// the block under construction at level `l` is written at `off`
pub open spec fn emit(w: WS, l: int, off: nat) -> WS {
    let es = w.pend[l];
    let p1 = if l > 0 { w.pend.update(l - 1, w.pend[l - 1].push(Entry { k: es.last().k, v: be64(off) })) } else { w.pend };
    WS {
        pend: p1.update(l, Seq::empty()),
        lev: w.lev.update(l, w.lev[l].push(Blk { off, es })),
        log: w.log.push(es),
        out: w.out + frame(w.cfg, es),
        ..w
    }
}

/// levels `l` to 2, from the lowest to the highest: emit the index blocks that reached the block size
pub open spec fn cascade(w: WS, l: int) -> WS
    decreases l,
{
    if l < 2 { w }
    else if size(w.pend[l], w.cfg.iv) >= w.cfg.bs && w.pend[l].len() > 0 { cascade(emit(w, l, w.out.len()), l - 1) }
    else { cascade(w, l - 1) }
}

pub open spec fn put(w: WS, e: Entry) -> WS {
    let d = w.cfg.depth as int + 1;
    WS { pend: w.pend.update(d, w.pend[d].push(e)), ins: w.ins.push(e), ..w }
}

pub open spec fn winsert(w: WS, e: Entry) -> WS {
    let d = w.cfg.depth as int + 1;
    let w1 = put(w, e);
    if size(w1.pend[d], w.cfg.iv) >= w.cfg.bs { cascade(emit(w1, d, w1.out.len()), d - 1) } else { w1 }
}

/// levels `l` to 0: emit what is left
pub open spec fn flush(w: WS, l: int) -> WS
    decreases l + 1,
{
    if l < 0 { w }
    else if w.pend[l].len() > 0 || l == 0 { flush(emit(w, l, w.out.len()), l - 1) }
    else { flush(w, l - 1) }
}

pub open spec fn wfinish(w: WS) -> WS { flush(w, w.cfg.depth as int + 1) }

pub open spec fn wtrailer(w: WS) -> Trailer {
    Trailer { v2: true, root: w.lev[0][0].off, codec: codec_id(w.cfg.codec), count: w.ins.len(), levels: w.cfg.depth }
}

/// C11: the bytes of a finished file are a function of the configuration and the inserted entries
pub open spec fn wempty(c: Cfg) -> WS {
    WS {
        cfg: c,
        pend: Seq::new(c.depth + 2, |i: int| Seq::<Entry>::empty()),
        lev: Seq::new(c.depth + 2, |i: int| Seq::<Blk>::empty()),
        log: Seq::empty(), out: Seq::empty(), ins: Seq::empty(),
    }
}

pub open spec fn wstate(c: Cfg, es: Seq<Entry>) -> WS
    decreases es.len(),
{
    if es.len() == 0 { wempty(c) } else { winsert(wstate(c, es.drop_last()), es.last()) }
}

pub open spec fn wfile(c: Cfg, es: Seq<Entry>) -> Seq<u8> {
    let f = wfinish(wstate(c, es));
    f.out + enc_trailer(wtrailer(f))
}

// ------------------------------------------------------------------------------- invariants
pub open spec fn wshape(w: WS) -> bool {
    &&& w.pend.len() == w.cfg.depth + 2 && w.lev.len() == w.cfg.depth + 2
    &&& w.cfg.iv > 0 && w.cfg.bs >= 1024 && w.cfg.depth < 256
}

/// the bytes of a block are in the file
pub open spec fn has_frame(d: Seq<u8>, c: Cfg, b: Blk) -> bool {
    let f = frame(c, b.es);
    b.off + f.len() <= d.len() && d.subrange(b.off as int, (b.off + f.len()) as int) == f
}

/// C15: without its last entry the block is smaller than the block size
pub open spec fn cutok(es: Seq<Entry>, c: Cfg) -> bool {
    es.len() > 0 ==> size(es.drop_last(), c.iv) < c.bs
}

/// C15: the data level and the index levels more than one below the root
pub open spec fn cutlev(l: int, d: int) -> bool { 2 <= l <= d || l == d }

/// a block that fits in memory: fewer than 2^32 offsets, fewer than 2^47 bytes
#[verifier::opaque]
pub open spec fn small(es: Seq<Entry>, iv: nat) -> bool { offs(es, iv).len() < 0x1_0000_0000 && size(es, iv) < 0x8000_0000_0000 }

pub open spec fn blk_ok(w: WS, l: int, b: Blk) -> bool {
    &&& has_frame(w.out, w.cfg, b)
    &&& small(b.es, w.cfg.iv)
    &&& sorted(b.es) && lens_ok(b.es)
    &&& l > 0 ==> b.es.len() > 0
    &&& cutlev(l, w.cfg.depth as int + 1) ==> cutok(b.es, w.cfg)
    &&& b.off < 0x8000_0000_0000_0000
}

/// everything about the bytes written so far; `n` is the one level that may have reached the block size
#[verifier::opaque]
pub open spec fn wf_out(w: WS, n: int) -> bool {
    let d = w.cfg.depth as int + 1;
    &&& wshape(w)
    &&& w.out == frames(w.cfg, w.log)
    &&& w.out.len() < 0x7fff_ffff_ffff_ffff
    &&& flat(w.lev[d]) + w.pend[d] == w.ins
    &&& forall|l: int| 1 <= l <= d ==> refs(#[trigger] w.lev[l]) == flat(w.lev[l - 1]) + w.pend[l - 1]
    &&& forall|l: int, i: int| 0 <= l <= d && 0 <= i < w.lev[l].len() ==> #[trigger] blk_ok(w, l, w.lev[l][i])
    &&& forall|l: int| cutlev(l, d) ==> cutok(#[trigger] w.pend[l], w.cfg)
    &&& forall|l: int| cutlev(l, d) && l != n ==> size(#[trigger] w.pend[l], w.cfg.iv) < w.cfg.bs
}

/// a finished file
pub open spec fn wdone(w: WS) -> bool {
    &&& wf_out(w, -1)
    &&& forall|l: int| 0 <= l < w.pend.len() ==> (#[trigger] w.pend[l]).len() == 0
    &&& w.lev[0].len() == 1
}

/// keys at a level are below the keys at the levels under it
pub open spec fn below(a: Seq<Entry>, b: Seq<Entry>) -> bool {
    forall|i: int, j: int| 0 <= i < a.len() && 0 <= j < b.len() ==> lex_lt(#[trigger] a[i].k, #[trigger] b[j].k)
}

/// how the keys under construction are ordered when the inserts are ordered
pub open spec fn pend_le(w: WS) -> bool {
    forall|l: int, i: int| 0 <= l < w.pend.len() && 0 <= i < w.pend[l].len() ==> w.ins.len() > 0 && lex_le((#[trigger] w.pend[l][i]).k, w.ins.last().k)
}

#[verifier::opaque]
pub open spec fn wf_order(w: WS) -> bool {
    &&& wshape(w)
    &&& forall|l: int, m: int| 0 <= l < m < w.pend.len() ==> below(#[trigger] w.pend[l], #[trigger] w.pend[m])
    &&& pend_le(w)
    &&& sorted(w.ins) && lens_ok(w.ins)
}

pub proof fn lemma_out_facts(w: WS, n: int)
    requires wf_out(w, n),
    ensures wshape(w), w.out.len() < 0x7fff_ffff_ffff_ffff,
{
    reveal(wf_out);
}

pub proof fn lemma_order_facts(w: WS)
    requires wf_order(w),
    ensures
        sorted(w.ins), lens_ok(w.ins), pend_le(w),
{
    reveal(wf_order);
}

pub proof fn lemma_flat_push(bs: Seq<Blk>, b: Blk)
    ensures flat(bs.push(b)) == flat(bs) + b.es, refs(bs.push(b)) == refs(bs).push(blkref(b)),
{
    assert(bs.push(b).drop_last() =~= bs);
    assert(refs(bs.push(b)) =~= refs(bs).push(blkref(b)));
}

pub proof fn lemma_size_mono(es: Seq<Entry>, iv: nat)
    requires es.len() > 0,
    ensures size(es.drop_last(), iv) <= size(es, iv),
{
    broadcast use int_bytes;
    lemma_be64s_len(offs(es, iv));
    lemma_be64s_len(offs(es.drop_last(), iv));
}

pub proof fn lemma_size_empty(iv: nat)
    ensures size(Seq::empty(), iv) == 12,
{
    broadcast use int_bytes;
    lemma_be64s_len(offs(Seq::empty(), iv));
}

/// an emission keeps what is known about the bytes
pub proof fn lemma_emit_out(w: WS, l: int)
    requires
        wf_out(w, l),
        0 <= l <= w.cfg.depth + 1,
        w.pend[l].len() > 0 || l == 0,
        sorted(w.pend[l]), lens_ok(w.pend[l]), small(w.pend[l], w.cfg.iv),
        (w.out + frame(w.cfg, w.pend[l])).len() < 0x7fff_ffff_ffff_ffff,
    ensures
        wf_out(emit(w, l, w.out.len()), l - 1),
{
    reveal(wf_out);
    let off = w.out.len();
    let r = emit(w, l, off);
    let d = w.cfg.depth as int + 1;
    let es = w.pend[l];
    let b = Blk { off, es };
    assert(r.log.drop_last() =~= w.log);
    lemma_flat_push(w.lev[l], b);
    if l == d {
        assert(flat(r.lev[d]) + r.pend[d] =~= flat(w.lev[d]) + w.pend[d]);
    }
    assert forall|m: int| 1 <= m <= d implies refs(#[trigger] r.lev[m]) == flat(r.lev[m - 1]) + r.pend[m - 1] by {
        assert(refs(w.lev[m]) == flat(w.lev[m - 1]) + w.pend[m - 1]);
        if m == l {
            assert(refs(r.lev[m]) =~= flat(r.lev[m - 1]) + r.pend[m - 1]);
        } else if m - 1 == l {
            assert(refs(r.lev[m]) =~= flat(r.lev[m - 1]) + r.pend[m - 1]);
        }
    }
    assert forall|m: int, i: int| 0 <= m <= d && 0 <= i < r.lev[m].len() implies #[trigger] blk_ok(r, m, r.lev[m][i]) by {
        let x = r.lev[m][i];
        if m == l && i == w.lev[l].len() {
            assert(x == b);
            assert(r.out.subrange(off as int, (off + frame(w.cfg, es).len()) as int) =~= frame(w.cfg, es));
        } else {
            assert(x == w.lev[m][i]);
            assert(blk_ok(w, m, w.lev[m][i]));
            let f = frame(w.cfg, x.es);
            assert(r.out.subrange(x.off as int, (x.off + f.len()) as int) =~= w.out.subrange(x.off as int, (x.off + f.len()) as int));
        }
    }
    lemma_size_empty(w.cfg.iv);
    assert forall|m: int| cutlev(m, d) implies cutok(#[trigger] r.pend[m], r.cfg) by {
        assert(cutok(w.pend[m], w.cfg));
        if m == l - 1 {
            assert(r.pend[m].drop_last() =~= w.pend[m]);
        }
    }
}

pub proof fn lemma_put_out(w: WS, e: Entry)
    requires wf_out(w, 0),
    ensures wf_out(put(w, e), w.cfg.depth as int + 1),
{
    reveal(wf_out);
    let d = w.cfg.depth as int + 1;
    let r = put(w, e);
    assert(flat(r.lev[d]) + r.pend[d] =~= (flat(w.lev[d]) + w.pend[d]).push(e));
    assert forall|m: int| 1 <= m <= d implies refs(#[trigger] r.lev[m]) == flat(r.lev[m - 1]) + r.pend[m - 1] by {
        assert(refs(w.lev[m]) == flat(w.lev[m - 1]) + w.pend[m - 1]);
    }
    assert forall|m: int, i: int| 0 <= m <= d && 0 <= i < r.lev[m].len() implies #[trigger] blk_ok(r, m, r.lev[m][i]) by {
        assert(blk_ok(w, m, w.lev[m][i]));
    }
    assert forall|m: int| cutlev(m, d) implies cutok(#[trigger] r.pend[m], r.cfg) by {
        assert(cutok(w.pend[m], w.cfg));
        if m == d { assert(r.pend[m].drop_last() =~= w.pend[m]); }
    }
}

/// a level under the block size needs no emission
pub proof fn lemma_skip_out(w: WS, l: int, n: int)
    requires wf_out(w, l), cutlev(l, w.cfg.depth as int + 1) ==> size(w.pend[l], w.cfg.iv) < w.cfg.bs,
    ensures wf_out(w, n),
{
    reveal(wf_out);
}

pub proof fn lemma_empty_out(c: Cfg)
    requires c.iv > 0, c.bs >= 1024, c.depth < 256,
    ensures wf_out(wempty(c), 0), wf_order(wempty(c)),
{
    lemma_sorted_empty();
    reveal(wf_out);
    reveal(wf_order);
    let w = wempty(c);
    let d = c.depth as int + 1;
    lemma_size_empty(c.iv);
    assert(flat(w.lev[d]) + w.pend[d] =~= w.ins);
    assert forall|m: int| 1 <= m <= d implies refs(#[trigger] w.lev[m]) == flat(w.lev[m - 1]) + w.pend[m - 1] by {
        assert(refs(w.lev[m]) =~= flat(w.lev[m - 1]) + w.pend[m - 1]);
    }
}

// ------------------------------------------------------------------------------------- order
pub proof fn lemma_put_order(w: WS, e: Entry)
    requires
        wf_order(w),
        w.ins.len() > 0 ==> lex_lt(w.ins.last().k, e.k),
        e.k.len() <= max_len(), e.v.len() <= max_len(),
    ensures wf_order(put(w, e)),
{
    reveal(wf_order);
    broadcast use lex_order;
    let d = w.cfg.depth as int + 1;
    let r = put(w, e);
    lemma_sorted_push(w.ins, e);
    lemma_lens_push(w.ins, e);
    assert forall|l: int, m: int| 0 <= l < m < r.pend.len() implies below(#[trigger] r.pend[l], #[trigger] r.pend[m]) by {
        assert(below(w.pend[l], w.pend[m]));
        assert forall|i: int, j: int| 0 <= i < r.pend[l].len() && 0 <= j < r.pend[m].len() implies lex_lt(#[trigger] r.pend[l][i].k, #[trigger] r.pend[m][j].k) by {
            if m == d && j == w.pend[d].len() {
                assert(lex_le(w.pend[l][i].k, w.ins.last().k));
            } else {
                assert(lex_lt(w.pend[l][i].k, w.pend[m][j].k));
            }
        }
    }
    assert forall|l: int, i: int| 0 <= l < r.pend.len() && 0 <= i < r.pend[l].len() implies r.ins.len() > 0 && lex_le((#[trigger] r.pend[l][i]).k, r.ins.last().k) by {
        if l == d && i == w.pend[d].len() {
        } else {
            assert(lex_le(w.pend[l][i].k, w.ins.last().k));
        }
    }
}

/// an emission keeps the order, and the last key of the block is above the keys of the parent block
pub proof fn lemma_emit_order(w: WS, l: int, off: nat)
    requires wf_order(w), 0 <= l <= w.cfg.depth + 1, w.pend[l].len() > 0 || l == 0, sorted(w.pend[l]),
    ensures
        wf_order(emit(w, l, off)),
        l > 0 && w.pend[l - 1].len() > 0 ==> lex_lt(w.pend[l - 1].last().k, w.pend[l].last().k),
{
    reveal(wf_order);
    broadcast use lex_order;
    let r = emit(w, l, off);
    if l > 0 { assert(below(w.pend[l - 1], w.pend[l])); }
    assert forall|a: int, m: int| 0 <= a < m < r.pend.len() implies below(#[trigger] r.pend[a], #[trigger] r.pend[m]) by {
        assert(below(w.pend[a], w.pend[m]));
        if l > 0 && a < l { assert(below(w.pend[a], w.pend[l])); }
        if l > 0 && m > l { assert(below(w.pend[l], w.pend[m])); }
        assert forall|i: int, j: int| 0 <= i < r.pend[a].len() && 0 <= j < r.pend[m].len() implies lex_lt(#[trigger] r.pend[a][i].k, #[trigger] r.pend[m][j].k) by {
            if a == l - 1 && i == w.pend[a].len() {
                assert(r.pend[a][i].k == w.pend[l].last().k);
                assert(m > l);
                assert(lex_lt(w.pend[l][w.pend[l].len() - 1].k, w.pend[m][j].k));
            } else if m == l - 1 && j == w.pend[m].len() {
                assert(r.pend[m][j].k == w.pend[l].last().k);
                assert(lex_lt(w.pend[a][i].k, w.pend[l][w.pend[l].len() - 1].k));
            } else {
                assert(lex_lt(w.pend[a][i].k, w.pend[m][j].k));
            }
        }
    }
    assert forall|a: int, i: int| 0 <= a < r.pend.len() && 0 <= i < r.pend[a].len() implies r.ins.len() > 0 && lex_le((#[trigger] r.pend[a][i]).k, r.ins.last().k) by {
        if a == l - 1 && i == w.pend[a].len() {
            assert(lex_le(w.pend[l][w.pend[l].len() - 1].k, w.ins.last().k));
        } else {
            assert(lex_le(w.pend[a][i].k, w.ins.last().k));
        }
    }
}

} // mod ws
