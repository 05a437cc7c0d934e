// ---------------------------------------------------------------------------------------------
// Bounds, prefixes, and which entries of a sorted sequence they select
// ---------------------------------------------------------------------------------------------
pub mod rng {
use super::*;
use super::spec::*;
use super::lex::*;
use super::blk::*;
use super::pos::*;
use core::ops::Bound;
use super::rt::AsRef;

/// a bound, by its bytes
pub enum BK { Unb, Inc(Seq<u8>), Exc(Seq<u8>) }
pub open spec fn bk_of<A: AsRef<[u8]>>(b: Bound<&A>) -> BK {
    match b { Bound::Unbounded => BK::Unb, Bound::Included(x) => BK::Inc(x.asref()@), Bound::Excluded(x) => BK::Exc(x.asref()@) }
}
pub open spec fn bk(b: Bound<Vec<u8>>) -> BK {
    match b { Bound::Unbounded => BK::Unb, Bound::Included(x) => BK::Inc(x@), Bound::Excluded(x) => BK::Exc(x@) }
}
pub open spec fn bkr(b: Bound<&Vec<u8>>) -> BK {
    match b { Bound::Unbounded => BK::Unb, Bound::Included(x) => BK::Inc(x@), Bound::Excluded(x) => BK::Exc(x@) }
}
/// the key satisfies a start bound
pub open spec fn above(s: BK, k: Seq<u8>) -> bool {
    match s { BK::Unb => true, BK::Inc(x) => lex_le(x, k), BK::Exc(x) => lex_lt(x, k) }
}
/// the key satisfies an end bound
pub open spec fn below(e: BK, k: Seq<u8>) -> bool {
    match e { BK::Unb => true, BK::Inc(x) => lex_le(k, x), BK::Exc(x) => lex_lt(k, x) }
}
pub open spec fn starts(k: Seq<u8>, p: Seq<u8>) -> bool { p.len() <= k.len() && k.take(p.len() as int) == p }

pub broadcast proof fn b_starts(k: Seq<u8>, p: Seq<u8>)
    ensures #[trigger] starts(k, p) == (p.len() <= k.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] k[i] == p[i]),
{
    if p.len() <= k.len() {
        if starts(k, p) { assert forall|i: int| 0 <= i < p.len() implies #[trigger] k[i] == p[i] by { assert(k.take(p.len() as int)[i] == k[i]); } }
        else if forall|i: int| 0 <= i < p.len() ==> #[trigger] k[i] == p[i] { assert(k.take(p.len() as int) =~= p); }
    }
}

/// first entry that satisfies a start bound, last one that satisfies an end bound
pub open spec fn from_t(es: Seq<Entry>, s: BK) -> Option<int> {
    match s {
        BK::Unb => first_t(es),
        BK::Inc(x) => ge_t(es, x),
        BK::Exc(x) => match ge_t(es, x) { Some(i) => if es[i].k == x { next_t(es, i) } else { Some(i) }, None => None },
    }
}
pub open spec fn upto_t(es: Seq<Entry>, e: BK) -> Option<int> {
    match e {
        BK::Unb => last_t(es),
        BK::Inc(x) => le_t(es, x),
        BK::Exc(x) => match le_t(es, x) { Some(i) => if es[i].k == x { prev_t(es, i) } else { Some(i) }, None => None },
    }
}

pub proof fn lemma_from(es: Seq<Entry>, s: BK)
    requires sorted(es),
    ensures
        match from_t(es, s) {
            Some(i) => 0 <= i < es.len() && (forall|j: int| 0 <= j < es.len() ==> (above(s, #[trigger] es[j].k) <==> j >= i)),
            None => forall|j: int| 0 <= j < es.len() ==> !above(s, #[trigger] es[j].k),
        },
{
    broadcast use lex_order;
    match s {
        BK::Unb => {}
        BK::Inc(x) | BK::Exc(x) => {
            lemma_ge(es, x);
            match ge_t(es, x) {
                Some(i) => {
                    assert forall|j: int| 0 <= j < es.len() implies (j < i ==> lex_lt(#[trigger] es[j].k, x)) && (j > i ==> lex_lt(x, es[j].k)) by { if j > i { lemma_sorted_at(es, i, j); } }
                }
                None => {}
            }
        }
    }
}
pub proof fn lemma_upto(es: Seq<Entry>, e: BK)
    requires sorted(es),
    ensures
        match upto_t(es, e) {
            Some(i) => 0 <= i < es.len() && (forall|j: int| 0 <= j < es.len() ==> (below(e, #[trigger] es[j].k) <==> j <= i)),
            None => forall|j: int| 0 <= j < es.len() ==> !below(e, #[trigger] es[j].k),
        },
{
    broadcast use lex_order;
    match e {
        BK::Unb => {}
        BK::Inc(x) | BK::Exc(x) => {
            lemma_le(es, x);
            match le_t(es, x) {
                Some(i) => {
                    assert forall|j: int| 0 <= j < es.len() implies (j < i ==> lex_lt(#[trigger] es[j].k, x)) && (j > i ==> lex_lt(x, es[j].k)) by { if j < i { lemma_sorted_at(es, j, i); } }
                }
                None => {}
            }
        }
    }
}

/// the keys above `x` are the ones from `x` followed by a zero byte on
pub proof fn lemma_lex_succ(x: Seq<u8>, k: Seq<u8>)
    ensures lex_lt(x, k) == !lex_lt(k, x.push(0)),
    decreases x.len(),
{
    broadcast use lex_order;
    reveal(lex_lt);
    if x.len() == 0 {
        if k.len() > 0 && k[0] == 0 { assert(x.push(0).skip(1) =~= Seq::empty()); assert(!lex_lt(k.skip(1), Seq::empty())); }
    } else if k.len() > 0 {
        assert(x.push(0).skip(1) =~= x.skip(1).push(0));
        assert(x.push(0)[0] == x[0]);
        lemma_lex_succ(x.skip(1), k.skip(1));
    }
}
/// an exclusive start bound, as the least key above it
pub proof fn lemma_from_exc(es: Seq<Entry>, x: Seq<u8>)
    requires sorted(es),
    ensures ge_t(es, x.push(0)) == from_t(es, BK::Exc(x)),
{
    let y = x.push(0);
    let t = from_t(es, BK::Exc(x));
    lemma_from(es, BK::Exc(x));
    lemma_ge(es, y);
    assert forall|j: int| 0 <= j < es.len() implies lex_lt(#[trigger] es[j].k, y) == !lex_lt(x, es[j].k) by { lemma_lex_succ(x, es[j].k); }
    match t {
        Some(i) => { assert forall|j: int| 0 <= j < i implies lex_lt(#[trigger] es[j].k, y) by { assert(!above(BK::Exc(x), es[j].k)); } assert(above(BK::Exc(x), es[i].k)); }
        None => { assert forall|j: int| 0 <= j < es.len() implies lex_lt(#[trigger] es[j].k, y) by { assert(!above(BK::Exc(x), es[j].k)); } }
    }
    assert(is_ge(es, y, t));
}

// ---------------------------------------------------------------------------------- prefixes
/// lexicographic order after a common start
pub proof fn lemma_lex_common(p: Seq<u8>, a: Seq<u8>, b: Seq<u8>)
    ensures lex_lt(p + a, p + b) == lex_lt(a, b),
    decreases p.len(),
{
    reveal(lex_lt);
    if p.len() == 0 { assert(p + a =~= a); assert(p + b =~= b); }
    else {
        assert((p + a).skip(1) =~= p.skip(1) + a);
        assert((p + b).skip(1) =~= p.skip(1) + b);
        lemma_lex_common(p.skip(1), a, b);
    }
}
pub proof fn lemma_starts(k: Seq<u8>, p: Seq<u8>)
    requires starts(k, p),
    ensures k == p + k.skip(p.len() as int), lex_le(p, k),
{
    assert(k =~= p + k.skip(p.len() as int));
    let r = k.skip(p.len() as int);
    lemma_lex_common(p, Seq::empty(), r);
    assert(p + Seq::<u8>::empty() =~= p);
    reveal(lex_lt);
    if r.len() == 0 { assert(k =~= p); }
}
/// the bytes after the longest run of 0xFF at the end, the last one incremented
pub open spec fn adv(p: Seq<u8>) -> Option<Seq<u8>>
    decreases p.len(),
{
    if p.len() == 0 { None } else if p.last() == 255 { adv(p.drop_last()) } else { Some(p.drop_last().push((p.last() + 1) as u8)) }
}
/// keys that start with `p` are exactly those from `p` up to `adv(p)`
pub proof fn lemma_adv(k: Seq<u8>, p: Seq<u8>)
    ensures starts(k, p) <==> lex_le(p, k) && (match adv(p) { Some(n) => lex_lt(k, n), None => true }),
    decreases p.len(),
{
    broadcast use lex_order;
    if starts(k, p) { lemma_starts(k, p); }
    if p.len() == 0 {
        reveal(lex_lt);
        assert(k.take(0) =~= p);
        if k.len() == 0 { assert(k =~= p); }
    } else {
        let q = p.drop_last(); let x = p.last();
        assert(p =~= q.push(x));
        lemma_adv(k, q);
        assert(starts(p, q)) by { assert(p.take(q.len() as int) =~= q); }
        lemma_starts(p, q);
        if starts(k, p) {
            assert(k.take(q.len() as int) =~= p.take(q.len() as int));
            assert(starts(k, q));
        }
        if starts(k, q) {
            lemma_starts(k, q);
            let r = k.skip(q.len() as int);
            assert(p =~= q + seq![x]);
            lemma_lex_common(q, seq![x], r);
            lemma_lex_common(q, r, seq![x]);
            assert(starts(k, p) <==> r.len() > 0 && r[0] == x) by {
                if r.len() > 0 && r[0] == x { assert(k.take(p.len() as int) =~= p); }
                if starts(k, p) { assert(k.take(p.len() as int)[q.len() as int] == x); }
            }
            if x != 255 {
                let y = (x + 1) as u8;
                assert(q.push(y) =~= q + seq![y]);
                lemma_lex_common(q, r, seq![y]);
                reveal(lex_lt);
                if r.len() > 0 && r[0] == x {
                    assert(lex_lt(r, seq![y]));
                } else if r.len() > 0 && r[0] < x {
                    assert(lex_lt(r, seq![x]));
                    assert(!lex_le(p, k));
                } else if r.len() > 0 {
                    assert(!lex_lt(r, seq![y])) by { if r[0] == y { assert(seq![y].skip(1) =~= Seq::empty()); assert(!lex_lt(r.skip(1), Seq::<u8>::empty())); } }
                } else {
                    assert(lex_lt(r, seq![x]));
                }
            } else {
                reveal(lex_lt);
                if r.len() == 0 || r[0] != x { assert(lex_lt(r, seq![x])); }
            }
        } else {
            // not even the shorter prefix
            if lex_le(p, k) {
                assert(lex_le(q, k));
                if x != 255 {
                    // k is above every key that starts with q
                    match adv(q) {
                        Some(n) => {
                            assert(!lex_lt(k, n));
                            let m = adv(p)->Some_0;
                            assert(starts(m, q)) by { assert(m.take(q.len() as int) =~= q); }
                            lemma_adv(m, q);
                            assert(lex_lt(m, n));
                        }
                        None => {}
                    }
                }
            }
        }
    }
}

/// entries with a prefix are contiguous
pub proof fn lemma_prefix_run(es: Seq<Entry>, p: Seq<u8>)
    requires sorted(es),
    ensures
        forall|i: int| 0 <= i < es.len() && starts(#[trigger] es[i].k, p) ==> ge_t(es, p) is Some && ge_t(es, p)->Some_0 <= i,
        ge_t(es, p) matches Some(i) ==> forall|j: int, k: int| i <= j <= k < es.len() && starts(#[trigger] es[k].k, p) ==> starts(#[trigger] es[j].k, p),
{
    broadcast use lex_order;
    lemma_ge(es, p);
    assert forall|i: int| 0 <= i < es.len() && starts(#[trigger] es[i].k, p) implies ge_t(es, p) is Some && ge_t(es, p)->Some_0 <= i by {
        lemma_starts(es[i].k, p);
    }
    if ge_t(es, p) is Some {
        let i = ge_t(es, p)->Some_0;
        assert forall|j: int, k: int| i <= j <= k < es.len() && starts(#[trigger] es[k].k, p) implies starts(#[trigger] es[j].k, p) by {
            lemma_adv(es[k].k, p); lemma_adv(es[j].k, p);
            if j < k { lemma_sorted_at(es, j, k); }
            if i < j { lemma_sorted_at(es, i, j); }
        }
    }
}

/// last entry with the prefix, or the one after which those would stand
pub open spec fn last_prefix_t(es: Seq<Entry>, p: Seq<u8>) -> Option<int> {
    match adv(p) { Some(n) => upto_t(es, BK::Exc(n)), None => last_t(es) }
}
pub proof fn lemma_last_prefix(es: Seq<Entry>, p: Seq<u8>)
    requires sorted(es),
    ensures
        match last_prefix_t(es, p) {
            Some(i) => 0 <= i < es.len() && (forall|j: int| i < j < es.len() ==> !starts(#[trigger] es[j].k, p))
                && forall|j: int, k: int| 0 <= k <= j <= i && starts(#[trigger] es[k].k, p) ==> starts(#[trigger] es[j].k, p),
            None => forall|j: int| 0 <= j < es.len() ==> !starts(#[trigger] es[j].k, p),
        },
{
    broadcast use lex_order;
    let e = match adv(p) { Some(n) => BK::Exc(n), None => BK::Unb };
    lemma_upto(es, e);
    assert forall|j: int| 0 <= j < es.len() && starts(#[trigger] es[j].k, p) implies below(e, es[j].k) by { lemma_adv(es[j].k, p); }
    match last_prefix_t(es, p) {
        Some(i) => {
            assert forall|j: int, k: int| 0 <= k <= j <= i && starts(#[trigger] es[k].k, p) implies starts(#[trigger] es[j].k, p) by {
                lemma_adv(es[k].k, p); lemma_adv(es[j].k, p);
                assert(below(e, es[j].k));
                if k < j { lemma_sorted_at(es, k, j); }
            }
        }
        None => {}
    }
}

// ---------------------------------------------------------------------------------- filters
/// the filter of a run
pub proof fn lemma_filter_run(es: Seq<Entry>, f: spec_fn(Entry) -> bool, lo: int, hi: int)
    requires 0 <= lo <= hi <= es.len(), forall|i: int| 0 <= i < es.len() ==> (f(#[trigger] es[i]) <==> lo <= i < hi),
    ensures es.filter(f) == es.subrange(lo, hi),
    decreases es.len(),
{
    reveal(Seq::filter);
    if es.len() == 0 { assert(es.filter(f) =~= es.subrange(lo, hi)); }
    else {
        let s = es.drop_last(); let n = s.len() as int;
        assert forall|i: int| 0 <= i < s.len() implies (f(#[trigger] s[i]) <==> lo <= i < (if hi > n { n } else { hi })) by { assert(s[i] == es[i]); }
        assert(f(es[n]) <==> lo <= n < hi);
        if hi > n {
            if lo > n {
                lemma_filter_run(s, f, n, n);
                assert(es.filter(f) =~= es.subrange(lo, hi));
            } else {
                lemma_filter_run(s, f, lo, n);
                assert(es.filter(f) =~= es.subrange(lo, hi));
            }
        } else {
            lemma_filter_run(s, f, lo, hi);
            assert(es.filter(f) =~= es.subrange(lo, hi));
        }
    }
}

} // mod rng
