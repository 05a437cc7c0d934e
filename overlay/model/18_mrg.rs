// ---------------------------------------------------------------------------------------------
// Merging sorted sequences of entries, from its definition (C06)
// ---------------------------------------------------------------------------------------------
pub mod mrg {
use super::*;
use super::spec::*;
use super::lex::*;
use super::blk::sorted;

pub type Rem = Seq<Seq<Entry>>;

/// source `s` has key `k` next
pub open spec fn heads(r: Rem, k: Seq<u8>, s: int) -> bool { r[s].len() > 0 && r[s][0].k == k }
/// the smallest of the next keys
pub open spec fn is_min(r: Rem, k: Seq<u8>) -> bool {
    &&& exists|s: int| 0 <= s < r.len() && #[trigger] heads(r, k, s)
    &&& forall|s: int| 0 <= s < r.len() && (#[trigger] r[s]).len() > 0 ==> lex_le(k, r[s][0].k)
}
pub open spec fn done(r: Rem) -> bool { forall|s: int| 0 <= s < r.len() ==> (#[trigger] r[s]).len() == 0 }
/// the values the sources have for the key that is next, in source order
pub open spec fn vals(r: Rem, k: Seq<u8>) -> Seq<Seq<u8>>
    decreases r.len(),
{
    if r.len() == 0 { Seq::empty() }
    else if heads(r, k, r.len() - 1) { vals(r.drop_last(), k).push(r.last()[0].v) }
    else { vals(r.drop_last(), k) }
}
/// what is left after the entries with that key
pub open spec fn past(r: Rem, k: Seq<u8>) -> Rem { Seq::new(r.len(), |s: int| if heads(r, k, s) { r[s].skip(1) } else { r[s] }) }
pub open spec fn srcs_ok(r: Rem) -> bool { forall|s: int| 0 <= s < r.len() ==> sorted(#[trigger] r[s]) }

/// a user-supplied merge function
pub trait MergeRel {
    /// the arguments it is to be called with
    spec fn takes(&self, k: Seq<u8>, vs: Seq<Seq<u8>>) -> bool;
    /// the values it may give
    spec fn val(&self, k: Seq<u8>, vs: Seq<Seq<u8>>, r: Seq<u8>) -> bool;
}
/// one key: the merge function applied to its values; a lone value may be given as it is
pub open spec fn merged<M: MergeRel>(m: M, k: Seq<u8>, vs: Seq<Seq<u8>>, v: Seq<u8>) -> bool {
    m.val(k, vs, v) || (vs.len() == 1 && v == vs[0])
}
/// what is left after the entries `out` were merged
pub open spec fn after(r: Rem, out: Seq<Entry>) -> Rem
    decreases out.len(),
{
    if out.len() == 0 { r } else { past(after(r, out.drop_last()), out.last().k) }
}
pub open spec fn step_ok<M: MergeRel>(m: M, r: Rem, x: Entry) -> bool { is_min(r, x.k) && merged(m, x.k, vals(r, x.k), x.v) }
/// `out` are the first merged entries of the sources
pub open spec fn runs<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>) -> bool
    decreases out.len(),
{
    out.len() == 0 || (runs(m, r, out.drop_last()) && step_ok(m, after(r, out.drop_last()), out.last()))
}
/// `out` is the merge of the sources
pub open spec fn merge_of<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>) -> bool { runs(m, r, out) && done(after(r, out)) }

// ------------------------------------------------- what it means, on the whole sources
pub open spec fn has_key(s: Seq<Entry>, k: Seq<u8>) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k == k }
pub open spec fn val_at(s: Seq<Entry>, k: Seq<u8>) -> Seq<u8> { s[choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).k == k].v }
/// the values the sources hold for `k`, ordered by source
pub open spec fn all_vals(r: Rem, k: Seq<u8>) -> Seq<Seq<u8>>
    decreases r.len(),
{
    if r.len() == 0 { Seq::empty() }
    else if has_key(r.last(), k) { all_vals(r.drop_last(), k).push(val_at(r.last(), k)) }
    else { all_vals(r.drop_last(), k) }
}
/// the ordered key union with merged values: the statement of C06
pub open spec fn union_of<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>) -> bool {
    &&& sorted(out)
    &&& forall|k: Seq<u8>| #[trigger] has_key(out, k) <==> exists|s: int| 0 <= s < r.len() && has_key(#[trigger] r[s], k)
    &&& forall|i: int| 0 <= i < out.len() ==> merged(m, (#[trigger] out[i]).k, all_vals(r, out[i].k), out[i].v)
}

/// what is left of a source once everything up to `k` was merged
pub open spec fn rest(a: Seq<Entry>, b: Seq<Entry>, k: Option<Seq<u8>>) -> bool {
    exists|n: int| #[trigger] rest_n(a, b, k, n)
}
pub open spec fn rest_n(a: Seq<Entry>, b: Seq<Entry>, k: Option<Seq<u8>>, n: int) -> bool {
    &&& 0 <= n <= a.len() && b == a.skip(n)
    &&& forall|i: int| 0 <= i < n ==> k is Some && lex_le((#[trigger] a[i]).k, k->Some_0)
    &&& forall|i: int| n <= i < a.len() && k is Some ==> lex_lt(k->Some_0, (#[trigger] a[i]).k)
}
pub open spec fn rests(a: Rem, b: Rem, k: Option<Seq<u8>>) -> bool {
    b.len() == a.len() && forall|s: int| 0 <= s < a.len() ==> rest(a[s], #[trigger] b[s], k)
}
pub open spec fn last_key(out: Seq<Entry>) -> Option<Seq<u8>> { if out.len() == 0 { None } else { Some(out.last().k) } }

proof fn lemma_rest_step(a: Seq<Entry>, b: Seq<Entry>, k0: Option<Seq<u8>>, k: Seq<u8>)
    requires sorted(a), rest(a, b, k0), k0 is Some ==> lex_lt(k0->Some_0, k), b.len() > 0 ==> lex_le(k, b[0].k),
    ensures rest(a, if b.len() > 0 && b[0].k == k { b.skip(1) } else { b }, Some(k)),
{
    broadcast use lex_order;
    let n = choose|n: int| #[trigger] rest_n(a, b, k0, n);
    let n2 = if b.len() > 0 && b[0].k == k { n + 1 } else { n };
    let b2 = if b.len() > 0 && b[0].k == k { b.skip(1) } else { b };
    assert(b2 =~= a.skip(n2));
    assert forall|i: int| n2 <= i < a.len() implies lex_lt(k, (#[trigger] a[i]).k) by {
        assert(b[0] == a[n]);
        if i > n { super::blk::lemma_sorted_at(a, n, i); }
    }
    assert(rest_n(a, b2, Some(k), n2));
}
/// keys ascend, and each source is consumed up to the last merged key
pub proof fn lemma_runs<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>)
    requires srcs_ok(r), runs(m, r, out),
    ensures
        rests(r, after(r, out), last_key(out)),
        out.len() > 1 ==> lex_lt(out[out.len() - 2].k, out.last().k),
    decreases out.len(),
{
    let b = after(r, out);
    if out.len() == 0 {
        assert forall|s: int| 0 <= s < r.len() implies rest(r[s], #[trigger] b[s], None) by {
            assert(r[s].skip(0) =~= r[s]);
            assert(rest_n(r[s], b[s], None, 0));
        }
    } else {
        let o = out.drop_last();
        let p = after(r, o);
        let k = out.last().k;
        lemma_runs(m, r, o);
        let s0 = choose|s: int| 0 <= s < p.len() && #[trigger] heads(p, k, s);
        if o.len() > 0 {
            assert(rest(r[s0], p[s0], last_key(o)));
            let n = choose|n: int| #[trigger] rest_n(r[s0], p[s0], last_key(o), n);
            assert(p[s0][0] == r[s0][n]);
            assert(lex_lt(o.last().k, k));
        }
        assert forall|s: int| 0 <= s < r.len() implies rest(r[s], #[trigger] b[s], Some(k)) by {
            assert(rest(r[s], p[s], last_key(o)));
            assert(p[s].len() > 0 ==> lex_le(k, p[s][0].k));
            lemma_rest_step(r[s], p[s], last_key(o), k);
        }
    }
}
pub proof fn lemma_runs_take<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>, i: int)
    requires runs(m, r, out), 0 <= i <= out.len(),
    ensures runs(m, r, out.take(i)),
    decreases out.len(),
{
    if i == out.len() { assert(out.take(i) =~= out); } else {
        assert(out.drop_last().take(i) =~= out.take(i));
        lemma_runs_take(m, r, out.drop_last(), i);
    }
}
proof fn lemma_up(out: Seq<Entry>, i: int, j: int)
    requires forall|i: int| 0 <= i < out.len() - 1 ==> lex_lt((#[trigger] out[i]).k, out[i + 1].k), 0 <= i < j < out.len(),
    ensures lex_lt(out[i].k, out[j].k),
    decreases j - i,
{
    broadcast use lex_order;
    if i + 1 < j { lemma_up(out, i, j - 1); let m = j - 1; assert(lex_lt(out[m].k, out[m + 1].k)); }
}
pub proof fn lemma_sorted_of_steps(out: Seq<Entry>)
    requires forall|i: int| 0 <= i < out.len() - 1 ==> lex_lt((#[trigger] out[i]).k, out[i + 1].k),
    ensures sorted(out),
{
    reveal(super::blk::sorted);
    assert forall|i: int, j: int| 0 <= i < j < out.len() implies lex_lt(#[trigger] out[i].k, #[trigger] out[j].k) by { lemma_up(out, i, j); }
}
pub proof fn lemma_runs_sorted<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>)
    requires srcs_ok(r), runs(m, r, out),
    ensures sorted(out),
{
    broadcast use lex_order;
    assert forall|i: int| 0 <= i < out.len() - 1 implies lex_lt((#[trigger] out[i]).k, out[i + 1].k) by {
        lemma_runs_take(m, r, out, i + 2);
        lemma_runs(m, r, out.take(i + 2));
    }
    lemma_sorted_of_steps(out);
}
proof fn lemma_key_index(a: Seq<Entry>, n: int, k: Seq<u8>)
    requires sorted(a), 0 <= n < a.len(), a[n].k == k,
    ensures has_key(a, k), val_at(a, k) == a[n].v,
{
    broadcast use lex_order;
    let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k;
    if i < n { super::blk::lemma_sorted_at(a, i, n); }
    if n < i { super::blk::lemma_sorted_at(a, n, i); }
}
/// the values next in the sources are the values of the whole sources
proof fn lemma_vals(r: Rem, p: Rem, k0: Option<Seq<u8>>, k: Seq<u8>)
    requires
        srcs_ok(r), rests(r, p, k0), k0 is Some ==> lex_lt(k0->Some_0, k),
        forall|s: int| 0 <= s < p.len() && (#[trigger] p[s]).len() > 0 ==> lex_le(k, p[s][0].k),
    ensures vals(p, k) == all_vals(r, k),
    decreases r.len(),
{
    broadcast use lex_order;
    if r.len() > 0 {
        let (r1, p1) = (r.drop_last(), p.drop_last());
        assert forall|s: int| 0 <= s < p1.len() implies rest(r1[s], #[trigger] p1[s], k0) by { assert(p1[s] == p[s]); }
        assert forall|s: int| 0 <= s < r1.len() implies sorted(#[trigger] r1[s]) by { assert(r1[s] == r[s]); }
        assert forall|s: int| 0 <= s < p1.len() && (#[trigger] p1[s]).len() > 0 implies lex_le(k, p1[s][0].k) by { assert(p1[s] == p[s]); }
        lemma_vals(r1, p1, k0, k);
        let s = r.len() - 1;
        assert(rest(r[s], p[s], k0));
        let n = choose|n: int| #[trigger] rest_n(r[s], p[s], k0, n);
        assert(sorted(r[s]));
        if p[s].len() > 0 { assert(p[s][0] == r[s][n]); }
        if heads(p, k, s) {
            lemma_key_index(r[s], n, k);
        } else if has_key(r[s], k) {
            let i = choose|i: int| 0 <= i < r[s].len() && (#[trigger] r[s][i]).k == k;
            if i >= n {
                if i > n { super::blk::lemma_sorted_at(r[s], n, i); }
            }
            assert(false);
        }
    }
}
proof fn lemma_no_more(r: Rem, p: Rem, k0: Option<Seq<u8>>, s: int, k: Seq<u8>)
    requires rests(r, p, k0), 0 <= s < r.len(), has_key(r[s], k), p[s].len() == 0,
    ensures k0 is Some, lex_le(k, k0->Some_0),
{
    assert(rest(r[s], p[s], k0));
    let n = choose|n: int| #[trigger] rest_n(r[s], p[s], k0, n);
    let i = choose|i: int| 0 <= i < r[s].len() && (#[trigger] r[s][i]).k == k;
}
/// a key that was passed was output
proof fn lemma_passed<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>, s: int, k: Seq<u8>)
    requires srcs_ok(r), runs(m, r, out), 0 <= s < r.len(), has_key(r[s], k), out.len() > 0, lex_le(k, out.last().k),
    ensures has_key(out, k),
    decreases out.len(),
{
    broadcast use lex_order;
    let o = out.drop_last();
    if out.last().k == k { assert(out[out.len() - 1].k == k); } else {
        lemma_runs(m, r, o);
        let p = after(r, o);
        assert(rest(r[s], p[s], last_key(o)));
        let n = choose|n: int| #[trigger] rest_n(r[s], p[s], last_key(o), n);
        let i = choose|i: int| 0 <= i < r[s].len() && (#[trigger] r[s][i]).k == k;
        if i >= n {
            assert(p[s][0] == r[s][n]);
            assert(lex_le(out.last().k, p[s][0].k));
            if i > n { super::blk::lemma_sorted_at(r[s], n, i); }
            assert(false);
        }
        assert(lex_le(k, o.last().k));
        lemma_passed(m, r, o, s, k);
        let j = choose|j: int| 0 <= j < o.len() && (#[trigger] o[j]).k == k;
        assert(out[j].k == k);
    }
}
/// C06: the merge of sorted sources is their ordered key union
pub proof fn theorem_union<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>)
    requires srcs_ok(r), merge_of(m, r, out),
    ensures union_of(m, r, out),
{
    lemma_runs_sorted(m, r, out);
    lemma_runs(m, r, out);
    assert forall|i: int| 0 <= i < out.len() implies merged(m, (#[trigger] out[i]).k, all_vals(r, out[i].k), out[i].v) && exists|s: int| 0 <= s < r.len() && has_key(#[trigger] r[s], out[i].k) by {
        let o = out.take(i);
        lemma_runs_take(m, r, out, i + 1);
        assert(out.take(i + 1).drop_last() =~= o);
        assert(out.take(i + 1).last() == out[i]);
        lemma_runs(m, r, o);
        lemma_runs(m, r, out.take(i + 1));
        let p = after(r, o);
        let k = out[i].k;
        if i > 0 { assert(out.take(i + 1)[i - 1] == o.last()); }
        lemma_vals(r, p, last_key(o), k);
        let s = choose|s: int| 0 <= s < p.len() && #[trigger] heads(p, k, s);
        assert(rest(r[s], p[s], last_key(o)));
        let n = choose|n: int| #[trigger] rest_n(r[s], p[s], last_key(o), n);
        assert(p[s][0] == r[s][n]);
        assert(has_key(r[s], k));
    }
    assert forall|k: Seq<u8>| #[trigger] has_key(out, k) <==> exists|s: int| 0 <= s < r.len() && has_key(#[trigger] r[s], k) by {
        if has_key(out, k) {
            let i = choose|i: int| 0 <= i < out.len() && (#[trigger] out[i]).k == k;
            assert(out[i].k == k);
        }
        if exists|s: int| 0 <= s < r.len() && has_key(#[trigger] r[s], k) {
            let s = choose|s: int| 0 <= s < r.len() && has_key(#[trigger] r[s], k);
            let p = after(r, out);
            assert(p[s].len() == 0);
            lemma_no_more(r, p, last_key(out), s, k);
            lemma_passed(m, r, out, s, k);
        }
    }
}
/// the merge function may be called at every step
pub open spec fn ready<M: MergeRel>(m: M, r: Rem) -> bool { forall|k: Seq<u8>| #[trigger] is_min(r, k) ==> m.takes(k, vals(r, k)) }
#[verifier::opaque]
pub open spec fn ready_all<M: MergeRel>(m: M, r: Rem) -> bool { forall|out: Seq<Entry>| #[trigger] runs(m, r, out) ==> ready(m, after(r, out)) }
/// what is merged can be stored
#[verifier::opaque]
pub open spec fn fits<M: MergeRel>(m: M, r: Rem) -> bool {
    forall|out: Seq<Entry>| #[trigger] runs(m, r, out) && out.len() > 0 ==> out.last().v.len() <= max_len()
}
pub open spec fn srcs_lens(r: Rem) -> bool { forall|s: int| 0 <= s < r.len() ==> super::blk::lens_ok(#[trigger] r[s]) }
pub open spec fn above_all(r: Rem, k: Seq<u8>) -> bool { forall|s: int, i: int| 0 <= s < r.len() && 0 <= i < r[s].len() ==> lex_lt(k, (#[trigger] r[s][i]).k) }

/// one more merged entry
pub proof fn lemma_step<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>, x: Entry)
    requires srcs_ok(r), runs(m, r, out), step_ok(m, after(r, out), x),
    ensures
        runs(m, r, out.push(x)), after(r, out.push(x)) == past(after(r, out), x.k),
        out.len() > 0 ==> lex_lt(out.last().k, x.k),
        srcs_lens(r) ==> x.k.len() <= max_len(),
        fits(m, r) ==> x.v.len() <= max_len(),
        forall|k: Seq<u8>| #[trigger] above_all(r, k) ==> lex_lt(k, x.k),
{
    let o = out.push(x);
    assert(o.drop_last() =~= out);
    assert(runs(m, r, o));
    lemma_runs(m, r, o);
    lemma_runs(m, r, out);
    if out.len() > 0 { assert(o[o.len() - 2] == out.last()); }
    reveal(fits);
    let p = after(r, out);
    let s = choose|s: int| 0 <= s < p.len() && #[trigger] heads(p, x.k, s);
    assert(rest(r[s], p[s], last_key(out)));
    let n = choose|n: int| #[trigger] rest_n(r[s], p[s], last_key(out), n);
    assert(p[s][0] == r[s][n]);
    if srcs_lens(r) { super::blk::lemma_lens_at(r[s], n); }
}
/// number of entries left
pub open spec fn left(r: Rem) -> nat
    decreases r.len(),
{
    if r.len() == 0 { 0 } else { left(r.drop_last()) + r.last().len() }
}
pub proof fn lemma_left(r: Rem, k: Seq<u8>)
    requires exists|s: int| 0 <= s < r.len() && #[trigger] heads(r, k, s),
    ensures left(past(r, k)) < left(r),
{
    let s = choose|s: int| 0 <= s < r.len() && #[trigger] heads(r, k, s);
    lemma_left_at(r, k, s);
}
proof fn lemma_left_at(r: Rem, k: Seq<u8>, s: int)
    requires 0 <= s < r.len() ==> heads(r, k, s),
    ensures left(past(r, k)) + if 0 <= s < r.len() { 1nat } else { 0 } <= left(r),
    decreases r.len(),
{
    if r.len() > 0 {
        let q = r.drop_last();
        assert(past(r, k).drop_last() =~= past(q, k));
        if s < r.len() - 1 && s >= 0 { assert(heads(q, k, s) == heads(r, k, s)); lemma_left_at(q, k, s); } else { lemma_left_at(q, k, -1); }
    }
}
pub proof fn lemma_ready<M: MergeRel>(m: M, r: Rem, out: Seq<Entry>)
    requires ready_all(m, r), runs(m, r, out),
    ensures ready(m, after(r, out)),
{
    reveal(ready_all);
}
} // mod mrg
