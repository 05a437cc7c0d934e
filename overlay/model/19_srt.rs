// ---------------------------------------------------------------------------------------------
// Sorting and merging inserted entries, from its definition (C07)
// ---------------------------------------------------------------------------------------------
pub mod srt {
use super::*;
use super::spec::*;
use super::lex::*;
use super::blk::sorted;
use super::mrg::*;

/// the values inserted for `k`, in order
pub open spec fn occ(h: Seq<Entry>, k: Seq<u8>) -> Seq<Seq<u8>>
    decreases h.len(),
{
    if h.len() == 0 { Seq::empty() } else if h.last().k == k { occ(h.drop_last(), k).push(h.last().v) } else { occ(h.drop_last(), k) }
}
/// the same values, in the same order if `stable`
pub open spec fn arranged(stable: bool, vs: Seq<Seq<u8>>, ws: Seq<Seq<u8>>) -> bool {
    if stable { ws == vs } else { ws.to_multiset() == vs.to_multiset() }
}
pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() }
}
pub open spec fn groups<M: MergeRel>(m: M, k: Seq<u8>, gs: Seq<Seq<Seq<u8>>>, rs: Seq<Seq<u8>>) -> bool {
    gs.len() == rs.len() && forall|i: int| 0 <= i < gs.len() ==> (#[trigger] gs[i]).len() > 0 && merged(m, k, gs[i], rs[i])
}
/// merging the results of groups gives a result of the whole; a lone value is a result of itself
#[verifier::opaque]
pub open spec fn assoc<M: MergeRel>(m: M) -> bool {
    forall|k: Seq<u8>, gs: Seq<Seq<Seq<u8>>>, rs: Seq<Seq<u8>>, v: Seq<u8>| #[trigger] groups(m, k, gs, rs) && #[trigger] merged(m, k, rs, v) ==> merged(m, k, flat(gs), v)
}
/// `v` is the merge of the values inserted for `k`
pub open spec fn value_ok<M: MergeRel>(m: M, stable: bool, h: Seq<Entry>, k: Seq<u8>, v: Seq<u8>) -> bool {
    exists|vs: Seq<Seq<u8>>| arranged(stable, occ(h, k), vs) && #[trigger] merged(m, k, vs, v)
}
/// the statement of C07: `out` is what sorting and merging the inserted entries `h` gives
pub open spec fn sort_of<M: MergeRel>(m: M, stable: bool, h: Seq<Entry>, out: Seq<Entry>) -> bool {
    &&& sorted(out)
    &&& forall|k: Seq<u8>| #[trigger] has_key(out, k) <==> has_key(h, k)
    &&& assoc(m) ==> forall|i: int| 0 <= i < out.len() ==> value_ok(m, stable, h, (#[trigger] out[i]).k, out[i].v)
}
/// the sources are what sorting the parts of the history gave
pub open spec fn stands<M: MergeRel>(m: M, stable: bool, segs: Seq<Seq<Entry>>, r: Rem) -> bool {
    segs.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> sort_of(m, stable, segs[i], #[trigger] r[i])
}
/// the sources are what sorting the parts of `h` gave, for some way to part it
pub open spec fn stands_for<M: MergeRel>(m: M, stable: bool, h: Seq<Entry>, r: Rem) -> bool {
    exists|segs: Seq<Seq<Entry>>| flat(segs) == h && #[trigger] stands(m, stable, segs, r)
}
/// the merge function may be called with any values, and what it gives can be stored
pub open spec fn total<M: MergeRel>(m: M) -> bool {
    &&& forall|k: Seq<u8>, vs: Seq<Seq<u8>>| vs.len() > 0 ==> #[trigger] m.takes(k, vs)
    &&& forall|k: Seq<u8>, vs: Seq<Seq<u8>>, v: Seq<u8>| #[trigger] m.val(k, vs, v) ==> v.len() <= max_len()
}

pub proof fn lemma_occ_add(a: Seq<Entry>, b: Seq<Entry>, k: Seq<u8>)
    ensures occ(a + b, k) == occ(a, k) + occ(b, k),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(occ(a, k) + occ(b, k) =~= occ(a, k));
    } else {
        lemma_occ_add(a, b.drop_last(), k);
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last());
        assert(occ(a + b, k) =~= occ(a, k) + occ(b, k));
    }
}
pub proof fn lemma_occ_some(h: Seq<Entry>, k: Seq<u8>)
    ensures occ(h, k).len() > 0 <==> has_key(h, k),
    decreases h.len(),
{
    if h.len() > 0 {
        let g = h.drop_last();
        lemma_occ_some(g, k);
        if h.last().k == k { assert(h[h.len() - 1].k == k); }
        if has_key(g, k) { let i = choose|i: int| 0 <= i < g.len() && (#[trigger] g[i]).k == k; assert(h[i].k == k); }
        if has_key(h, k) { let i = choose|i: int| 0 <= i < h.len() && (#[trigger] h[i]).k == k; if i < g.len() { assert(g[i].k == k); } }
    }
}
pub proof fn lemma_has_add(a: Seq<Entry>, b: Seq<Entry>, k: Seq<u8>)
    ensures has_key(a + b, k) <==> has_key(a, k) || has_key(b, k),
{
    lemma_occ_add(a, b, k);
    lemma_occ_some(a, k);
    lemma_occ_some(b, k);
    lemma_occ_some(a + b, k);
}
pub proof fn lemma_has_flat(segs: Seq<Seq<Entry>>, k: Seq<u8>)
    ensures has_key(flat(segs), k) <==> exists|s: int| 0 <= s < segs.len() && has_key(#[trigger] segs[s], k),
    decreases segs.len(),
{
    if segs.len() > 0 {
        let d = segs.drop_last();
        lemma_has_flat(d, k);
        lemma_has_add(flat(d), segs.last(), k);
        if exists|s: int| 0 <= s < segs.len() && has_key(#[trigger] segs[s], k) {
            let s = choose|s: int| 0 <= s < segs.len() && has_key(#[trigger] segs[s], k);
            if s < d.len() { assert(has_key(d[s], k)); }
        }
        if has_key(flat(d), k) {
            let s = choose|s: int| 0 <= s < d.len() && has_key(#[trigger] d[s], k);
            assert(has_key(segs[s], k));
        }
        if has_key(segs.last(), k) { assert(has_key(segs[segs.len() - 1], k)); }
    }
}
proof fn lemma_arranged_add(stable: bool, a: Seq<Seq<u8>>, a2: Seq<Seq<u8>>, b: Seq<Seq<u8>>, b2: Seq<Seq<u8>>)
    requires arranged(stable, a, a2), arranged(stable, b, b2),
    ensures arranged(stable, a + b, a2 + b2), a.len() == a2.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    vstd::seq_lib::lemma_multiset_commutative(a, b);
    vstd::seq_lib::lemma_multiset_commutative(a2, b2);
    assert(a.to_multiset().len() == a.len() && a2.to_multiset().len() == a2.len());
}
/// the values the sources hold for a key are results of groups that make up all its values
proof fn lemma_groups<M: MergeRel>(m: M, stable: bool, segs: Seq<Seq<Entry>>, r: Rem, k: Seq<u8>) -> (gs: Seq<Seq<Seq<u8>>>)
    requires stands(m, stable, segs, r), assoc(m),
    ensures groups(m, k, gs, all_vals(r, k)), arranged(stable, occ(flat(segs), k), flat(gs)),
    decreases r.len(),
{
    if r.len() == 0 {
        let gs = Seq::<Seq<Seq<u8>>>::empty();
        assert(occ(flat(segs), k) =~= flat(gs));
        gs
    } else {
        let (d, q) = (segs.drop_last(), r.drop_last());
        let n = r.len() - 1;
        assert forall|i: int| 0 <= i < q.len() implies sort_of(m, stable, d[i], #[trigger] q[i]) by { assert(q[i] == r[i]); }
        let g0 = lemma_groups(m, stable, d, q, k);
        lemma_occ_add(flat(d), segs.last(), k);
        lemma_occ_some(segs.last(), k);
        assert(sort_of(m, stable, segs[n], r[n]));
        assert(has_key(r[n], k) <==> has_key(segs[n], k));
        if has_key(r.last(), k) {
            let i = choose|i: int| 0 <= i < r.last().len() && (#[trigger] r.last()[i]).k == k;
            assert(value_ok(m, stable, segs[n], r[n][i].k, r[n][i].v));
            let vs = choose|vs: Seq<Seq<u8>>| arranged(stable, occ(segs[n], k), vs) && #[trigger] merged(m, k, vs, r[n][i].v);
            let gs = g0.push(vs);
            assert(gs.drop_last() =~= g0);
            lemma_arranged_add(stable, occ(flat(d), k), flat(g0), occ(segs[n], k), vs);
            lemma_arranged_add(stable, occ(segs[n], k), vs, Seq::empty(), Seq::empty());
            assert forall|j: int| 0 <= j < gs.len() implies (#[trigger] gs[j]).len() > 0 && merged(m, k, gs[j], all_vals(r, k)[j]) by { if j < g0.len() { assert(gs[j] == g0[j]); } }
            gs
        } else {
            assert(occ(flat(d), k) + occ(segs.last(), k) =~= occ(flat(d), k));
            g0
        }
    }
}
/// C07: merging the sorted parts of a history gives its sort
pub proof fn theorem_parts<M: MergeRel>(m: M, stable: bool, h: Seq<Entry>, r: Rem, out: Seq<Entry>)
    requires stands_for(m, stable, h, r), union_of(m, r, out),
    ensures sort_of(m, stable, h, out),
{
    let segs = choose|segs: Seq<Seq<Entry>>| flat(segs) == h && #[trigger] stands(m, stable, segs, r);
    assert forall|k: Seq<u8>| #[trigger] has_key(out, k) <==> has_key(h, k) by {
        lemma_has_flat(segs, k);
        if exists|s: int| 0 <= s < r.len() && has_key(#[trigger] r[s], k) {
            let s = choose|s: int| 0 <= s < r.len() && has_key(#[trigger] r[s], k);
            assert(sort_of(m, stable, segs[s], r[s]));
            assert(has_key(segs[s], k));
        }
        if exists|s: int| 0 <= s < segs.len() && has_key(#[trigger] segs[s], k) {
            let s = choose|s: int| 0 <= s < segs.len() && has_key(#[trigger] segs[s], k);
            assert(sort_of(m, stable, segs[s], r[s]));
            assert(has_key(r[s], k));
        }
    }
    if assoc(m) {
        assert forall|i: int| 0 <= i < out.len() implies value_ok(m, stable, h, (#[trigger] out[i]).k, out[i].v) by {
            let k = out[i].k;
            let gs = lemma_groups(m, stable, segs, r, k);
            reveal(assoc);
            assert(merged(m, k, all_vals(r, k), out[i].v));
            assert(merged(m, k, flat(gs), out[i].v));
        }
    }
}

// ------------------------------------------------------------------ one sorted run of entries
/// keys never descend
pub open spec fn ascends(s: Seq<Entry>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> !lex_lt(#[trigger] s[j].k, #[trigger] s[i].k) }
/// `out` has one entry for each key of `s`, the merge of its values
pub open spec fn grouped<M: MergeRel>(m: M, s: Seq<Entry>, out: Seq<Entry>) -> bool {
    &&& sorted(out)
    &&& forall|k: Seq<u8>| #[trigger] has_key(out, k) <==> has_key(s, k)
    &&& forall|i: int| 0 <= i < out.len() ==> merged(m, (#[trigger] out[i]).k, occ(s, out[i].k), out[i].v)
}
/// the entries `j` to `n` are the ones with key `k` so far
pub open spec fn same_key(s: Seq<Entry>, j: int, n: int, k: Seq<u8>, vs: Seq<Seq<u8>>) -> bool {
    &&& 0 <= j < n <= s.len()
    &&& forall|i: int| j <= i < n ==> (#[trigger] s[i]).k == k
    &&& j > 0 ==> s[j - 1].k != k
    &&& vs == Seq::new((n - j) as nat, |i: int| s[j + i].v)
}
proof fn lemma_occ_same(s: Seq<Entry>, k: Seq<u8>, k2: Seq<u8>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).k == k,
    ensures occ(s, k2) == if k2 == k { s.map_values(|e: Entry| e.v) } else { Seq::empty() },
    decreases s.len(),
{
    if s.len() > 0 {
        let d = s.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).k == k by { assert(d[i] == s[i]); }
        lemma_occ_same(d, k, k2);
        assert(s[s.len() - 1].k == k);
        if k2 == k { assert(occ(s, k2) =~= s.map_values(|e: Entry| e.v)); }
    } else { assert(occ(s, k2) =~= s.map_values(|e: Entry| e.v)); }
}
/// a key is complete
pub proof fn lemma_grouped<M: MergeRel>(m: M, s: Seq<Entry>, j: int, n: int, k: Seq<u8>, vs: Seq<Seq<u8>>, out: Seq<Entry>, v: Seq<u8>)
    requires ascends(s), same_key(s, j, n, k, vs), grouped(m, s.take(j), out), merged(m, k, vs, v),
    ensures grouped(m, s.take(n), out.push(Entry { k, v })), out.len() > 0 ==> lex_lt(out.last().k, k),
{
    broadcast use lex_order;
    let (a, b, c) = (s.take(j), s.subrange(j, n), s.take(n));
    let o = out.push(Entry { k, v });
    assert(c =~= a + b);
    assert forall|i: int| 0 <= i < b.len() implies (#[trigger] b[i]).k == k by { assert(b[i] == s[j + i]); }
    assert(s[j].k == k);
    assert forall|i: int| 0 <= i < j implies lex_lt((#[trigger] s[i]).k, k) by {
        let l = j - 1;
        assert(!lex_lt(s[j].k, s[l].k));
        if i < l { assert(!lex_lt(s[l].k, s[i].k)); }
    }
    assert forall|k2: Seq<u8>| has_key(out, k2) implies lex_lt(k2, k) by {
        assert(has_key(a, k2));
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k2;
        assert(lex_lt(s[i].k, k));
    }
    assert forall|i: int| 0 <= i < out.len() implies lex_lt((#[trigger] out[i]).k, k) by { assert(has_key(out, out[i].k)); }
    assert(sorted(o)) by {
        reveal(super::blk::sorted);
        assert forall|x: int, y: int| 0 <= x < y < o.len() implies lex_lt(#[trigger] o[x].k, #[trigger] o[y].k) by { assert(o[x] == out[x]); }
    }
    lemma_occ_same(b, k, k);
    assert(occ(b, k) =~= vs);
    lemma_occ_some(a, k);
    if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k; assert(lex_lt(s[i].k, k)); }
    assert forall|i: int| 0 <= i < o.len() implies merged(m, (#[trigger] o[i]).k, occ(c, o[i].k), o[i].v) by {
        lemma_occ_add(a, b, o[i].k);
        if i < out.len() {
            assert(o[i] == out[i]);
            lemma_occ_same(b, k, o[i].k);
            assert(occ(a, o[i].k) + occ(b, o[i].k) =~= occ(a, o[i].k));
        } else {
            assert(occ(a, k) + occ(b, k) =~= vs);
        }
    }
    assert forall|k2: Seq<u8>| #[trigger] has_key(o, k2) <==> has_key(c, k2) by {
        lemma_has_add(a, b, k2);
        assert(has_key(out, k2) <==> has_key(a, k2));
        assert(b[0].k == k);
        assert(has_key(b, k2) <==> k2 == k);
        assert(o[out.len() as int].k == k);
        if has_key(out, k2) { let i = choose|i: int| 0 <= i < out.len() && (#[trigger] out[i]).k == k2; assert(o[i].k == k2); }
        if has_key(o, k2) { let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).k == k2; if i < out.len() { assert(out[i].k == k2); } }
    }
}

// -------------------------------------------------------------------------------- reordering
/// `p` is a permutation of `0..n`, `q` its inverse
pub open spec fn is_perm(p: Seq<int>, q: Seq<int>, n: nat) -> bool {
    &&& p.len() == n && q.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i
}
/// `b` is `a` reordered by `p` so that its keys ascend, entries with equal keys keeping their order if `stable`
pub open spec fn esorted(a: Seq<Entry>, b: Seq<Entry>, stable: bool, p: Seq<int>, q: Seq<int>) -> bool {
    &&& is_perm(p, q, a.len())
    &&& b.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
    &&& ascends(b)
    &&& stable ==> forall|i: int, j: int| 0 <= i < j < a.len() && b[i].k == b[j].k ==> #[trigger] p[i] < #[trigger] p[j]
}
pub open spec fn esorts(a: Seq<Entry>, b: Seq<Entry>, stable: bool) -> bool { exists|p: Seq<int>, q: Seq<int>| #[trigger] esorted(a, b, stable, p, q) }

proof fn lemma_occ_remove(h: Seq<Entry>, t: int, k: Seq<u8>)
    requires 0 <= t < h.len(),
    ensures
        h[t].k != k ==> occ(h.remove(t), k) == occ(h, k),
        h[t].k == k && (forall|i: int| t < i < h.len() ==> (#[trigger] h[i]).k != k) ==> occ(h, k) == occ(h.remove(t), k).push(h[t].v),
        h[t].k == k ==> occ(h, k).to_multiset() == occ(h.remove(t), k).push(h[t].v).to_multiset(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    let (a, b) = (h.take(t), h.skip(t + 1));
    let x = seq![h[t]];
    assert(h =~= a + x + b);
    assert(h.remove(t) =~= a + b);
    lemma_occ_add(a + x, b, k);
    lemma_occ_add(a, x, k);
    lemma_occ_add(a, b, k);
    lemma_occ_some(b, k);
    assert(x.drop_last() =~= Seq::<Entry>::empty());
    assert(occ(x.drop_last(), k) =~= Seq::<Seq<u8>>::empty());
    assert(occ(x, k) =~= if h[t].k == k { seq![h[t].v] } else { Seq::empty() });
    if h[t].k != k { assert(occ(a, k) + occ(x, k) =~= occ(a, k)); } else {
        if forall|i: int| t < i < h.len() ==> (#[trigger] h[i]).k != k {
            if has_key(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).k == k; assert(h[t + 1 + i].k == k); }
            assert(occ(h, k) =~= occ(h.remove(t), k).push(h[t].v));
        }
        let (oa, ob, ox) = (occ(a, k), occ(b, k), seq![h[t].v]);
        vstd::seq_lib::lemma_multiset_commutative(oa + ox, ob);
        vstd::seq_lib::lemma_multiset_commutative(oa, ox);
        vstd::seq_lib::lemma_multiset_commutative(oa, ob);
        vstd::seq_lib::lemma_multiset_commutative(oa + ob, ox);
        assert((oa + ob) + ox =~= (oa + ob).push(h[t].v));
        assert((oa + ox + ob).to_multiset() =~= (oa + ob + ox).to_multiset());
    }
}
proof fn lemma_occ_sorted(a: Seq<Entry>, b: Seq<Entry>, stable: bool, p: Seq<int>, q: Seq<int>, k: Seq<u8>)
    requires esorted(a, b, stable, p, q),
    ensures arranged(stable, occ(a, k), occ(b, k)),
    decreases b.len(),
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    if b.len() == 0 { assert(occ(a, k) =~= occ(b, k)); } else {
        let n = b.len() - 1;
        let t = p[n];
        let (a1, b1) = (a.remove(t), b.drop_last());
        let p1 = Seq::new(n as nat, |i: int| if p[i] > t { p[i] - 1 } else { p[i] });
        let q1 = Seq::new(n as nat, |i: int| if i < t { q[i] } else { q[i + 1] });
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] p1[i] < n && q1[p1[i]] == i && b1[i] == a1[p1[i]] by {
            assert(b[i] == a[p[i]]);
            assert(q[p[i]] == i && q[t] == n);
            assert(p[i] != t);
        }
        assert forall|i: int| 0 <= i < n implies 0 <= #[trigger] q1[i] < n && p1[q1[i]] == i by {
            let i0 = if i < t { i } else { i + 1 };
            assert(p[q[i0]] == i0);
            assert(q[i0] != n);
        }
        assert forall|i: int| 0 <= i < a1.len() implies #[trigger] b1[i] == a1[p1[i]] by { assert(p1[i] == p1[i]); }
        assert forall|i: int, j: int| stable && 0 <= i < j < n && b1[i].k == b1[j].k implies #[trigger] p1[i] < #[trigger] p1[j] by {
            assert(b[i] == b1[i] && b[j] == b1[j]);
            assert(p[i] < p[j]);
            assert(q[p[i]] == i && q[p[j]] == j && q[t] == n);
        }
        assert(esorted(a1, b1, stable, p1, q1));
        lemma_occ_sorted(a1, b1, stable, p1, q1, k);
        lemma_occ_remove(a, t, k);
        assert(b[n] == a[t]);
        if stable && a[t].k == k {
            assert forall|i: int| t < i < a.len() implies (#[trigger] a[i]).k != k by {
                if a[i].k == k {
                    let j = q[i];
                    assert(p[j] == i);
                    assert(b[j] == a[p[j]]);
                    assert(j != n);
                    assert(p[j] < p[n]);
                }
            }
        }
        if !stable && a[t].k == k {
            assert(occ(a1, k).push(a[t].v).to_multiset() =~= occ(b1, k).push(a[t].v).to_multiset());
        }
    }
}
proof fn lemma_has_sorted(a: Seq<Entry>, b: Seq<Entry>, stable: bool, p: Seq<int>, q: Seq<int>, k: Seq<u8>)
    requires esorted(a, b, stable, p, q),
    ensures has_key(a, k) <==> has_key(b, k),
{
    if has_key(a, k) { let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).k == k; assert(p[q[i]] == i); assert(b[q[i]] == a[p[q[i]]]); }
    if has_key(b, k) { let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).k == k; assert(0 <= p[i] < a.len()); assert(a[p[i]].k == k); }
}
/// C07: sorting the entries and merging those with equal keys gives their sort
pub proof fn theorem_sorted<M: MergeRel>(m: M, stable: bool, a: Seq<Entry>, b: Seq<Entry>, out: Seq<Entry>)
    requires esorts(a, b, stable), grouped(m, b, out),
    ensures sort_of(m, stable, a, out),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] esorted(a, b, stable, p, q);
    assert forall|k: Seq<u8>| #[trigger] has_key(out, k) <==> has_key(a, k) by { lemma_has_sorted(a, b, stable, p, q, k); }
    assert forall|i: int| 0 <= i < out.len() implies value_ok(m, stable, a, (#[trigger] out[i]).k, out[i].v) by {
        lemma_occ_sorted(a, b, stable, p, q, out[i].k);
        assert(merged(m, out[i].k, occ(b, out[i].k), out[i].v));
    }
}
pub proof fn lemma_ascends(a: Seq<Entry>, b: Seq<Entry>, stable: bool)
    requires esorts(a, b, stable),
    ensures ascends(b), b.len() == a.len(),
{
    let (p, q) = choose|p: Seq<int>, q: Seq<int>| #[trigger] esorted(a, b, stable, p, q);
}
// ------------------------------------------------- a merge function that takes anything
proof fn lemma_vals_from(r: Rem, k: Seq<u8>, s: int)
    requires 0 <= s < r.len() && heads(r, k, s),
    ensures vals(r, k).len() > 0,
    decreases r.len(),
{
    if s < r.len() - 1 { assert(heads(r.drop_last(), k, s)); lemma_vals_from(r.drop_last(), k, s); }
}
pub proof fn lemma_vals(r: Rem, k: Seq<u8>)
    requires is_min(r, k),
    ensures vals(r, k).len() > 0,
{
    let s = choose|s: int| 0 <= s < r.len() && #[trigger] heads(r, k, s);
    lemma_vals_from(r, k, s);
}
proof fn lemma_vals_at(r: Rem, k: Seq<u8>, i: int)
    requires 0 <= i < vals(r, k).len(),
    ensures exists|s: int| 0 <= s < r.len() && #[trigger] heads(r, k, s) && r[s][0].v == vals(r, k)[i],
    decreases r.len(),
{
    let q = r.drop_last();
    if heads(r, k, r.len() - 1) && i == vals(r, k).len() - 1 {} else {
        lemma_vals_at(q, k, i);
        let s = choose|s: int| 0 <= s < q.len() && #[trigger] heads(q, k, s) && q[s][0].v == vals(q, k)[i];
        assert(heads(r, k, s));
    }
}
pub proof fn lemma_total<M: MergeRel>(m: M, r: Rem)
    requires total(m),
    ensures
        ready(m, r), ready_all(m, r),
        srcs_ok(r) && srcs_lens(r) ==> fits(m, r),
{
    assert forall|p: Rem| #[trigger] ready(m, p) by {
        assert forall|k: Seq<u8>| #[trigger] is_min(p, k) implies m.takes(k, vals(p, k)) by {
            let s = choose|s: int| 0 <= s < p.len() && #[trigger] heads(p, k, s);
            lemma_vals_from(p, k, s);
        }
    }
    reveal(ready_all);
    if srcs_ok(r) && srcs_lens(r) {
        reveal(fits);
        assert forall|out: Seq<Entry>| #[trigger] runs(m, r, out) && out.len() > 0 implies out.last().v.len() <= max_len() by {
            let (o, x) = (out.drop_last(), out.last());
            let p = after(r, o);
            lemma_runs(m, r, o);
            assert(merged(m, x.k, vals(p, x.k), x.v));
            if !m.val(x.k, vals(p, x.k), x.v) {
                lemma_vals_at(p, x.k, 0);
                let s = choose|s: int| 0 <= s < p.len() && #[trigger] heads(p, x.k, s) && p[s][0].v == vals(p, x.k)[0];
                assert(rest(r[s], p[s], last_key(o)));
                let n = choose|n: int| #[trigger] rest_n(r[s], p[s], last_key(o), n);
                assert(p[s][0] == r[s][n]);
                super::blk::lemma_lens_at(r[s], n);
            }
        }
    }
}
} // mod srt
