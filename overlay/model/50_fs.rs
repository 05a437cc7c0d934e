// needs: compression
// ---------------------------------------------------------------------------------------------
// A finished file as a tree of blocks, seen from the reader (C01, C02, C03, C10, C16)
// ---------------------------------------------------------------------------------------------
pub mod fs {
use super::*;
use super::spec::*;
use super::lex::*;
use super::blk::*;
use super::rt::*;
use super::fmt::*;
use super::pos::*;
use super::ws::*;
use super::compression::*;

/// the bytes of the block are at its offset, length-prefixed and compressed
pub open spec fn stored_as(d: Seq<u8>, t: CompressionType, b: Blk, iv: nat, p: Seq<u8>) -> bool {
    &&& iv > 0 && offs(b.es, iv).len() < 0x1_0000_0000 && p.len() < 0x8000_0000_0000_0000
    &&& b.off + 8 + p.len() <= d.len()
    &&& d.subrange(b.off as int, b.off as int + 8) == be64(p.len())
    &&& d.subrange(b.off as int + 8, (b.off + 8 + p.len()) as int) == p
    &&& decomp(t, p) == Some(enc_block(b.es, iv))
}

/// interval and stored bytes of a block
pub open spec fn stored_wit(d: Seq<u8>, t: CompressionType, b: Blk) -> (nat, Seq<u8>) { choose|iv: nat, p: Seq<u8>| stored_as(d, t, b, iv, p) }

/// a readable block
pub open spec fn good(d: Seq<u8>, t: CompressionType, b: Blk) -> bool {
    &&& sorted(b.es) && lens_ok(b.es)
    &&& exists|iv: nat, p: Seq<u8>| stored_as(d, t, b, iv, p)
}

/// a block is determined by its offset
pub proof fn lemma_good_unique(d: Seq<u8>, t: CompressionType, a: Blk, b: Blk)
    requires good(d, t, a), good(d, t, b), a.off == b.off,
    ensures a == b,
{
    let (i, p) = choose|iv: nat, p: Seq<u8>| stored_as(d, t, a, iv, p);
    let (j, q) = choose|iv: nat, p: Seq<u8>| stored_as(d, t, b, iv, p);
    lemma_pow256();
    lemma_be_inj(p.len(), q.len(), 8);
    lemma_block_inj(a.es, i, b.es, j);
}

// ------------------------------------------------------------------------------------ sequences
/// number of entries before block `b`
#[verifier::opaque]
pub open spec fn start(bs: Seq<Blk>, b: int) -> int { flat(bs.take(b)).len() as int }

pub open spec fn nonempty(bs: Seq<Blk>) -> bool { forall|b: int| 0 <= b < bs.len() ==> (#[trigger] bs[b]).es.len() > 0 }

pub proof fn lemma_start(bs: Seq<Blk>, b: int)
    requires 0 <= b < bs.len(),
    ensures
        start(bs, b + 1) == start(bs, b) + bs[b].es.len(), 0 <= start(bs, b), start(bs, b + 1) <= flat(bs).len(),
        forall|i: int| 0 <= i < bs[b].es.len() ==> #[trigger] flat(bs)[start(bs, b) + i] == bs[b].es[i],
        flat(bs).subrange(start(bs, b), start(bs, b + 1)) == bs[b].es,
    decreases bs.len(),
{
    reveal(start);
    let x = bs.take(b + 1);
    assert(x.drop_last() =~= bs.take(b));
    if b + 1 == bs.len() {
        assert(x =~= bs);
    } else {
        let p = bs.drop_last();
        lemma_start(p, b);
        assert(p.take(b) =~= bs.take(b));
        assert(p.take(b + 1) =~= bs.take(b + 1));
        assert forall|i: int| 0 <= i < bs[b].es.len() implies #[trigger] flat(bs)[start(bs, b) + i] == bs[b].es[i] by {
            assert(flat(p)[start(p, b) + i] == p[b].es[i]);
        }
    }
    assert(flat(bs).subrange(start(bs, b), start(bs, b + 1)) =~= bs[b].es);
}

pub proof fn lemma_start_ends(bs: Seq<Blk>)
    ensures start(bs, 0) == 0, start(bs, bs.len() as int) == flat(bs).len(),
{
    reveal(start);
    assert(bs.take(0) =~= Seq::empty());
    assert(bs.take(bs.len() as int) =~= bs);
}

pub proof fn lemma_start_mono(bs: Seq<Blk>, b: int, c: int)
    requires 0 <= b <= c <= bs.len(),
    ensures 0 <= start(bs, b) <= start(bs, c), start(bs, c) <= flat(bs).len(), nonempty(bs) && b < c ==> start(bs, b) < start(bs, c),
    decreases c - b,
{
    lemma_start_ends(bs);
    if b < c { lemma_start_mono(bs, b, c - 1); lemma_start(bs, c - 1); }
    else { if c < bs.len() { lemma_start(bs, c); } }
}

/// block and index of an entry
pub proof fn lemma_locate(bs: Seq<Blk>, p: int) -> (r: (int, int))
    requires 0 <= p < flat(bs).len(),
    ensures 0 <= r.0 < bs.len(), 0 <= r.1 < bs[r.0].es.len(), p == start(bs, r.0) + r.1, flat(bs)[p] == bs[r.0].es[r.1],
    decreases bs.len(),
{
    let n = bs.len() as int;
    lemma_start(bs, n - 1);
    lemma_start_ends(bs);
    if p >= start(bs, n - 1) {
        (n - 1, p - start(bs, n - 1))
    } else {
        let q = bs.drop_last();
        lemma_start_ends(q);
        reveal(start);
        assert(bs.take(n - 1) =~= q);
        let r = lemma_locate(q, p);
        assert(q.take(r.0) =~= bs.take(r.0));
        lemma_start(bs, r.0);
        r
    }
}

pub proof fn lemma_locate_unique(bs: Seq<Blk>, b: int, i: int, c: int, j: int)
    requires 0 <= b < bs.len(), 0 <= i < bs[b].es.len(), 0 <= c < bs.len(), 0 <= j < bs[c].es.len(), start(bs, b) + i == start(bs, c) + j,
    ensures b == c, i == j,
{
    lemma_start(bs, b); lemma_start(bs, c);
    if b < c { lemma_start_mono(bs, b + 1, c); }
    if c < b { lemma_start_mono(bs, c + 1, b); }
}

pub open spec fn at(bs: Seq<Blk>, b: int, t: Option<int>) -> Option<int> { match t { Some(i) => Some(start(bs, b) + i), None => None } }

/// a move that starts from nowhere, seen in a level and in the level of references above it
pub proof fn lemma_target_flat(bs: Seq<Blk>, m: MK)
    requires nonempty(bs), forall|b: int| 0 <= b < bs.len() ==> sorted((#[trigger] bs[b]).es),
    ensures match target(m, refs(bs), None) {
        Some(b) => 0 <= b < bs.len() && target(m, bs[b].es, None) is Some && target(m, flat(bs), None) == at(bs, b, target(m, bs[b].es, None)),
        None => target(m, flat(bs), None) is None,
    },
{
    let n = bs.len() as int;
    lemma_start_ends(bs);
    if n == 0 { lemma_ge(flat(bs), seq![]); }
    match m {
        MK::Ge(key) => {
            let rs = refs(bs);
            let fl = flat(bs);
            lemma_ge(rs, key); lemma_ge(fl, key);
            broadcast use lex_order;
            let upto = match ge_t(rs, key) { Some(b) => b, None => n };
            assert forall|p: int| 0 <= p < start(bs, upto) implies lex_lt(#[trigger] fl[p].k, key) by {
                lemma_start_mono(bs, upto, n);
                let (c, i) = lemma_locate(bs, p);
                if c >= upto { lemma_start_mono(bs, upto, c); }
                assert(rs[c].k == bs[c].es.last().k);
                assert(lex_lt(rs[c].k, key));
                if i < bs[c].es.len() - 1 { lemma_sorted_at(bs[c].es, i, bs[c].es.len() - 1); }
            }
            match ge_t(rs, key) {
                Some(b) => {
                    let es = bs[b].es;
                    lemma_ge(es, key);
                    assert(rs[b].k == es.last().k);
                    assert(!lex_lt(es[es.len() - 1].k, key));
                    let i = ge_t(es, key)->Some_0;
                    lemma_start(bs, b);
                    assert(fl[start(bs, b) + i] == es[i]);
                    assert forall|p: int| 0 <= p < start(bs, b) + i implies lex_lt(#[trigger] fl[p].k, key) by {
                        if p >= start(bs, b) { assert(fl[start(bs, b) + (p - start(bs, b))] == es[p - start(bs, b)]); }
                    }
                    assert(is_ge(fl, key, Some(start(bs, b) + i)));
                }
                None => { assert(is_ge(fl, key, None)); }
            }
        }
        _ => {
            if n > 0 {
                lemma_start(bs, 0); lemma_start(bs, n - 1);
            }
        }
    }
}

/// a move from an entry to the next or the previous one
pub proof fn lemma_step_flat(bs: Seq<Blk>, b: int, i: int, m: MK)
    requires
        relative(m), 0 <= b < bs.len(), 0 <= i < bs[b].es.len(), nonempty(bs) || bs.len() == 1,
    ensures
        target(m, flat(bs), Some(start(bs, b) + i)) == match target(m, bs[b].es, Some(i)) {
            Some(j) => Some(start(bs, b) + j),
            None => match target(m, refs(bs), Some(b)) {
                Some(c) => at(bs, c, target(m, bs[c].es, None)),
                None => None,
            },
        },
        target(m, refs(bs), Some(b)) is Some ==> 0 <= target(m, refs(bs), Some(b))->Some_0 < bs.len() && target(m, bs[target(m, refs(bs), Some(b))->Some_0].es, None) is Some,
{
    lemma_start_ends(bs);
    lemma_start(bs, b);
    if b + 1 < bs.len() { lemma_start(bs, b + 1); lemma_start_mono(bs, b + 2, bs.len() as int); }
    if b > 0 { lemma_start(bs, b - 1); }
}

// ------------------------------------------------------------------------------------- files
pub struct FileG { pub v2: bool, pub t: CompressionType, pub root: nat, pub count: nat, pub depth: nat, pub lev: Seq<Seq<Blk>> }

pub open spec fn content(f: FileG) -> Seq<Entry> { flat(f.lev[f.depth as int + 1]) }

pub open spec fn ftrailer(f: FileG) -> Trailer { Trailer { v2: f.v2, root: f.root, codec: codec_id(f.t), count: f.count, levels: f.depth } }

/// the bytes are a valid file with these blocks
#[verifier::opaque]
pub open spec fn file_ok(d: Seq<u8>, f: FileG) -> bool {
    &&& has_trailer(d, ftrailer(f))
    &&& f.lev.len() == f.depth + 2
    &&& f.lev[0].len() == 1 && f.lev[0][0].off == f.root
    &&& forall|l: int, i: int| 0 <= l < f.lev.len() && 0 <= i < f.lev[l].len() ==> good(d, f.t, #[trigger] f.lev[l][i]) && f.lev[l][i].off < 0x8000_0000_0000_0000
    &&& forall|l: int| 1 <= l < f.lev.len() ==> nonempty(#[trigger] f.lev[l]) && refs(f.lev[l]) == flat(f.lev[l - 1])
    &&& sorted(content(f))
    &&& f.count == content(f).len()
}

/// the tree of a valid file
pub open spec fn file_of(d: Seq<u8>) -> FileG { choose|f: FileG| file_ok(d, f) }
pub open spec fn valid(d: Seq<u8>) -> bool { exists|f: FileG| file_ok(d, f) }

/// C10, C13: a valid file opens with the metadata of its tree
pub proof fn lemma_valid_trailer(d: Seq<u8>)
    requires valid(d),
    ensures file_ok(d, file_of(d)), has_trailer(d, ftrailer(file_of(d))), forall|t: Trailer| #[trigger] has_trailer(d, t) ==> t == ftrailer(file_of(d)),
{
    let f = choose|f: FileG| file_ok(d, f);
    assert(file_ok(d, file_of(d)));
    reveal(file_ok);
    assert forall|t: Trailer| #[trigger] has_trailer(d, t) implies t == ftrailer(file_of(d)) by { lemma_trailer_unique(d, t, ftrailer(file_of(d))); }
}

/// facts about one level
pub proof fn lemma_level(d: Seq<u8>, f: FileG, l: int)
    requires file_ok(d, f), 0 <= l <= f.depth + 1,
    ensures
        f.lev.len() == f.depth + 2, f.depth < 256, f.lev[0].len() == 1, f.lev[0][0].off == f.root,
        forall|i: int| 0 <= i < f.lev[l].len() ==> good(d, f.t, #[trigger] f.lev[l][i]) && f.lev[l][i].off < 0x8000_0000_0000_0000,
        nonempty(f.lev[l]) || f.lev[l].len() == 1,
        l >= 1 ==> nonempty(f.lev[l]) && refs(f.lev[l]) == flat(f.lev[l - 1]) && f.lev[l].len() == flat(f.lev[l - 1]).len(),
        l <= f.depth ==> refs(f.lev[l + 1]) == flat(f.lev[l]) && f.lev[l + 1].len() == flat(f.lev[l]).len(),
        l == 0 ==> flat(f.lev[0]) == f.lev[0][0].es && start(f.lev[0], 0) == 0,
        sorted(content(f)), f.count == content(f).len(),
{
    reveal(file_ok);
    if l == 0 {
        lemma_start(f.lev[0], 0); lemma_start_ends(f.lev[0]);
        assert(flat(f.lev[0]) =~= f.lev[0][0].es) by {
            assert(f.lev[0].drop_last() =~= Seq::empty());
            assert(flat(f.lev[0]) =~= Seq::empty() + f.lev[0][0].es);
        }
    }
}

proof fn lemma_flat_lens(bs: Seq<Blk>)
    requires forall|i: int| 0 <= i < bs.len() ==> lens_ok((#[trigger] bs[i]).es),
    ensures lens_ok(flat(bs)),
    decreases bs.len(),
{
    reveal(lens_ok);
    if bs.len() > 0 {
        let q = bs.drop_last();
        assert forall|i: int| 0 <= i < q.len() implies lens_ok((#[trigger] q[i]).es) by { assert(q[i] == bs[i]); }
        lemma_flat_lens(q);
        assert(lens_ok(bs.last().es));
    }
}
/// keys and values of a valid file fit in its format
pub proof fn lemma_content_lens(d: Seq<u8>, f: FileG)
    requires file_ok(d, f),
    ensures lens_ok(content(f)),
{
    lemma_level(d, f, f.depth as int + 1);
    lemma_flat_lens(f.lev[f.depth as int + 1]);
}

/// block reached by a move that starts from nowhere, after `n` levels
pub open spec fn walk(f: FileG, m: MK, n: int) -> Option<int>
    decreases n,
{
    if n <= 0 { Some(0) }
    else { match walk(f, m, n - 1) { Some(b) => at(f.lev[n - 1], b, target(m, f.lev[n - 1][b].es, None)), None => None } }
}

pub proof fn lemma_walk_none(f: FileG, m: MK, n: int, k: int)
    requires 0 <= n <= k, walk(f, m, n) is None,
    ensures walk(f, m, k) is None,
    decreases k,
{
    if n < k { lemma_walk_none(f, m, n, k - 1); }
}

/// the walk from the root finds the target of the move in the level (C02)
pub proof fn lemma_walk(d: Seq<u8>, f: FileG, m: MK, n: int)
    requires file_ok(d, f), 1 <= n <= f.depth + 2,
    ensures walk(f, m, n) == target(m, flat(f.lev[n - 1]), None),
    decreases n,
{
    lemma_level(d, f, n - 1);
    let bs = f.lev[n - 1];
    if n == 1 {
        assert(walk(f, m, 0) == Some(0int));
        assert(at(bs, 0, target(m, bs[0].es, None)) == target(m, bs[0].es, None));
    } else {
        lemma_walk(d, f, m, n - 1);
        assert forall|b: int| 0 <= b < bs.len() implies sorted((#[trigger] bs[b]).es) by { assert(good(d, f.t, bs[b])); }
        lemma_target_flat(bs, m);
    }
}

// ---------------------------------------------------------------- the tree is the file's
proof fn lemma_lev_unique(d: Seq<u8>, f: FileG, g: FileG, l: int)
    requires file_ok(d, f), file_ok(d, g), ftrailer(f) == ftrailer(g), f.t == g.t, 0 <= l <= f.depth + 1,
    ensures f.lev[l] == g.lev[l],
    decreases l,
{
    lemma_level(d, f, l); lemma_level(d, g, l);
    if l == 0 {
        assert(good(d, f.t, f.lev[0][0])); assert(good(d, f.t, g.lev[0][0]));
        lemma_good_unique(d, f.t, f.lev[0][0], g.lev[0][0]);
    } else {
        lemma_lev_unique(d, f, g, l - 1);
        let a = f.lev[l]; let b = g.lev[l];
        assert forall|i: int| 0 <= i < a.len() implies a[i] == b[i] by {
            assert(good(d, f.t, a[i])); assert(good(d, f.t, b[i]));
            assert(refs(a)[i] == blkref(a[i])); assert(refs(b)[i] == blkref(b[i]));
            lemma_pow256();
            lemma_be_inj(a[i].off, b[i].off, 8);
            lemma_good_unique(d, f.t, a[i], b[i]);
        }
    }
    assert(f.lev[l] =~= g.lev[l]);
}

/// a byte string is a valid file in at most one way
pub proof fn lemma_file_unique(d: Seq<u8>, f: FileG, g: FileG)
    requires file_ok(d, f), file_ok(d, g),
    ensures f == g,
{
    assert(has_trailer(d, ftrailer(f)) && has_trailer(d, ftrailer(g)) && f.lev.len() == f.depth + 2 && g.lev.len() == g.depth + 2) by { reveal(file_ok); }
    lemma_trailer_unique(d, ftrailer(f), ftrailer(g));
    assert forall|l: int| 0 <= l < f.lev.len() implies f.lev[l] == g.lev[l] by { lemma_lev_unique(d, f, g, l); }
    assert(f.lev =~= g.lev);
}

// ---------------------------------------------------------------- a finished file is valid
/// the tree of a finished writer
pub open spec fn wtree(w: WS) -> FileG {
    FileG { v2: true, t: w.cfg.codec, root: w.lev[0][0].off, count: w.ins.len(), depth: w.cfg.depth, lev: w.lev }
}

/// C01, C09: what the writer produces is a valid file whose content is what was inserted
pub proof fn lemma_done_file(w: WS, d: Seq<u8>)
    requires
        wdone(w), sorted(w.ins), w.ins.len() < 0x1_0000_0000_0000_0000,
        d == w.out + enc_trailer(wtrailer(w)),
    ensures
        file_ok(d, wtree(w)), file_of(d) == wtree(w), valid(d), content(wtree(w)) == w.ins,
{
    let f = wtree(w);
    let dd = w.cfg.depth as int + 1;
    lemma_trailer_len(wtrailer(w));
    assert(wshape(w) && w.out.len() < 0x7fff_ffff_ffff_ffff && flat(w.lev[dd]) == w.ins
        && (forall|l: int, i: int| 0 <= l <= dd && 0 <= i < w.lev[l].len() ==> #[trigger] blk_ok(w, l, w.lev[l][i]))
        && (forall|l: int| 1 <= l <= dd ==> refs(#[trigger] w.lev[l]) == flat(w.lev[l - 1]))) by {
        reveal(wf_out);
        assert(flat(w.lev[dd]) =~= flat(w.lev[dd]) + w.pend[dd]);
        assert forall|l: int| 1 <= l <= dd implies refs(#[trigger] w.lev[l]) == flat(w.lev[l - 1]) by {
            assert(w.pend[l - 1].len() == 0);
            assert(flat(w.lev[l - 1]) =~= flat(w.lev[l - 1]) + w.pend[l - 1]);
        }
    }
    assert(blk_ok(w, 0, w.lev[0][0]));
    assert(d.skip(d.len() - enc_trailer(wtrailer(w)).len()) =~= enc_trailer(wtrailer(w)));
    assert forall|l: int, i: int| 0 <= l < w.lev.len() && 0 <= i < w.lev[l].len() implies good(d, f.t, #[trigger] w.lev[l][i]) && w.lev[l][i].off < 0x8000_0000_0000_0000 by {
        assert(blk_ok(w, l, w.lev[l][i]));
        assert(d.take(w.out.len() as int) =~= w.out);
        lemma_stored(w, d, w.lev[l][i]);
    }
    assert forall|l: int| 1 <= l < w.lev.len() implies nonempty(#[trigger] w.lev[l]) && refs(w.lev[l]) == flat(w.lev[l - 1]) by {
        assert forall|b: int| 0 <= b < w.lev[l].len() implies (#[trigger] w.lev[l][b]).es.len() > 0 by { assert(blk_ok(w, l, w.lev[l][b])); }
    }
    assert(file_ok(d, f)) by { reveal(file_ok); }
    lemma_file_unique(d, f, file_of(d));
}

proof fn lemma_stored(w: WS, d: Seq<u8>, b: Blk)
    requires has_frame(w.out, w.cfg, b), small(b.es, w.cfg.iv), sorted(b.es), lens_ok(b.es), w.cfg.iv > 0, w.out.len() <= d.len(), d.take(w.out.len() as int) == w.out,
    ensures good(d, w.cfg.codec, b),
{
    broadcast use int_bytes;
    reveal(small);
    let e = enc_block(b.es, w.cfg.iv);
    let p = comp(w.cfg.codec, w.cfg.level, e);
    ax_lossless(w.cfg.codec, w.cfg.level, e);
    let f = frame(w.cfg, b.es);
    let x = w.out.subrange(b.off as int, (b.off + f.len()) as int);
    assert(d.subrange(b.off as int, b.off as int + 8) =~= x.subrange(0, 8));
    assert(x.subrange(0, 8) =~= be64(p.len()));
    assert(d.subrange(b.off as int + 8, (b.off + 8 + p.len()) as int) =~= x.subrange(8, f.len() as int));
    assert(x.subrange(8, f.len() as int) =~= p);
    assert(stored_as(d, w.cfg.codec, b, w.cfg.iv, p));
}

/// finishing adds no entry
pub proof fn lemma_flush_keeps(w: WS, l: int)
    requires l < w.pend.len(), w.pend.len() == w.lev.len(),
    ensures flush(w, l).ins == w.ins, flush(w, l).cfg == w.cfg,
    decreases l + 1,
{
    if l >= 0 {
        if w.pend[l].len() > 0 || l == 0 { lemma_flush_keeps(emit(w, l, w.out.len()), l - 1); } else { lemma_flush_keeps(w, l - 1); }
    }
}

/// inserting keeps the inserted entries and the configuration
pub proof fn lemma_cascade_keeps(w: WS, l: int)
    ensures cascade(w, l).ins == w.ins, cascade(w, l).cfg == w.cfg,
    decreases l,
{
    if l >= 2 {
        if size(w.pend[l], w.cfg.iv) >= w.cfg.bs && w.pend[l].len() > 0 { lemma_cascade_keeps(emit(w, l, w.out.len()), l - 1); } else { lemma_cascade_keeps(w, l - 1); }
    }
}
pub proof fn lemma_state_keeps(c: Cfg, es: Seq<Entry>)
    ensures wstate(c, es).ins == es, wstate(c, es).cfg == c,
    decreases es.len(),
{
    if es.len() > 0 {
        let w = wstate(c, es.drop_last());
        lemma_state_keeps(c, es.drop_last());
        let d = w.cfg.depth as int + 1;
        let w1 = put(w, es.last());
        lemma_cascade_keeps(emit(w1, d, w1.out.len()), d - 1);
        assert(es.drop_last().push(es.last()) =~= es);
    } else { assert(es =~= Seq::empty()); }
}

} // mod fs
