// ---------------------------------------------------------------------------------------------
// Where the entries of a block lie in its bytes; targets of moves inside a sorted sequence
// ---------------------------------------------------------------------------------------------
pub mod pos {
use super::*;
use super::spec::*;
use super::lex::*;
use super::blk::*;
use super::rt::*;

/// byte offset of entry `i`
#[verifier::opaque]
pub open spec fn pos_of(es: Seq<Entry>, i: int) -> int { enc_entries(es.take(i)).len() as int }

pub open spec fn is_pos(es: Seq<Entry>, p: int) -> bool { exists|i: int| 0 <= i <= es.len() && #[trigger] pos_of(es, i) == p }

pub open spec fn ix_of(es: Seq<Entry>, p: int) -> int { choose|i: int| 0 <= i <= es.len() && #[trigger] pos_of(es, i) == p }

pub proof fn lemma_pos_step(es: Seq<Entry>, i: int)
    requires 0 <= i < es.len(),
    ensures
        pos_of(es, i + 1) == pos_of(es, i) + enc_entry(es[i]).len(),
        enc_entry(es[i]).len() == varint(es[i].k.len()).len() + varint(es[i].v.len()).len() + es[i].k.len() + es[i].v.len(),
        pos_of(es, i + 1) >= pos_of(es, i) + 2,
        enc_entries(es.take(i + 1)) == enc_entries(es.take(i)) + enc_entry(es[i]),
{
    reveal(pos_of);
    assert(es.take(i + 1).drop_last() =~= es.take(i));
    lemma_varint_len(es[i].k.len());
    lemma_varint_len(es[i].v.len());
}

pub proof fn lemma_pos_ends(es: Seq<Entry>)
    ensures pos_of(es, 0) == 0, pos_of(es, es.len() as int) == enc_entries(es).len(),
{
    reveal(pos_of);
    assert(es.take(0) =~= Seq::empty());
    assert(es.take(es.len() as int) =~= es);
}

pub proof fn lemma_pos_up(es: Seq<Entry>, i: int, j: int)
    requires 0 <= i < j <= es.len(),
    ensures pos_of(es, i) < pos_of(es, j), 0 <= pos_of(es, i),
    decreases j - i,
{
    lemma_pos_step(es, j - 1);
    if i < j - 1 { lemma_pos_up(es, i, j - 1); }
    reveal(pos_of);
}

pub proof fn lemma_pos_ix(es: Seq<Entry>, i: int)
    requires 0 <= i <= es.len(),
    ensures is_pos(es, pos_of(es, i)), ix_of(es, pos_of(es, i)) == i, 0 <= pos_of(es, i) <= enc_entries(es).len(), i < es.len() ==> pos_of(es, i) < enc_entries(es).len(),
        i == es.len() ==> pos_of(es, i) == enc_entries(es).len(),
{
    let p = pos_of(es, i);
    assert(is_pos(es, p));
    let j = ix_of(es, p);
    if i < j { lemma_pos_up(es, i, j); }
    if j < i { lemma_pos_up(es, j, i); }
    lemma_pos_ends(es);
    if i < es.len() { lemma_pos_up(es, i, es.len() as int); }
    reveal(pos_of);
}

/// what is at a position
pub proof fn lemma_is_pos(es: Seq<Entry>, p: int)
    requires is_pos(es, p),
    ensures
        0 <= ix_of(es, p) <= es.len(), pos_of(es, ix_of(es, p)) == p, 0 <= p <= enc_entries(es).len(),
        ix_of(es, p) < es.len() <==> p < enc_entries(es).len(),
{
    lemma_pos_ix(es, ix_of(es, p));
}

pub proof fn lemma_prefix(es: Seq<Entry>, i: int)
    requires 0 <= i <= es.len(),
    ensures
        enc_entries(es.take(i)).len() <= enc_entries(es).len(),
        enc_entries(es).take(enc_entries(es.take(i)).len() as int) == enc_entries(es.take(i)),
    decreases es.len(),
{
    if i == es.len() {
        assert(es.take(i) =~= es);
        assert(enc_entries(es).take(enc_entries(es).len() as int) =~= enc_entries(es));
    } else {
        let p = es.drop_last();
        lemma_prefix(p, i);
        assert(p.take(i) =~= es.take(i));
        assert(enc_entries(es).take(enc_entries(es.take(i)).len() as int) =~= enc_entries(p).take(enc_entries(es.take(i)).len() as int));
    }
}

/// the bytes of entry `i`
pub proof fn lemma_entry_bytes(es: Seq<Entry>, i: int)
    requires 0 <= i < es.len(),
    ensures
        0 <= pos_of(es, i), pos_of(es, i + 1) <= enc_entries(es).len(),
        enc_entries(es).subrange(pos_of(es, i), pos_of(es, i + 1)) == enc_entry(es[i]),
{
    lemma_pos_step(es, i);
    lemma_prefix(es, i + 1);
    reveal(pos_of);
    let a = enc_entries(es.take(i)); let b = enc_entries(es.take(i + 1));
    assert(b.subrange(a.len() as int, b.len() as int) =~= enc_entry(es[i]));
    assert(enc_entries(es).subrange(a.len() as int, b.len() as int) =~= b.subrange(a.len() as int, b.len() as int));
}

/// the pieces a decoder sees at the position of entry `i` (C14)
pub open spec fn framed(d: Seq<u8>, p: int, e: Entry) -> bool {
    let a = varint(e.k.len()).len(); let b = varint(e.v.len()).len();
    &&& 0 <= p && p + a + b + e.k.len() + e.v.len() <= d.len()
    &&& decodes_to(d.subrange(p, d.len() as int), e.k.len())
    &&& decodes_to(d.subrange(p + a, d.len() as int), e.v.len())
    &&& d.subrange(p + a + b, p + a + b + e.k.len()) == e.k
    &&& d.subrange(p + a + b + e.k.len(), p + a + b + e.k.len() + e.v.len()) == e.v
}

proof fn lemma_four(d: Seq<u8>, p: int, q: int, x: Seq<u8>, s: Seq<u8>, t: Seq<u8>, k: Seq<u8>, v: Seq<u8>)
    requires 0 <= p <= q <= d.len(), d.subrange(p, q) == x, x == s + t + k + v,
    ensures ({
        let a = s.len() as int; let b = t.len() as int;
        &&& q == p + a + b + k.len() + v.len()
        &&& d.subrange(p, d.len() as int).take(a) == s
        &&& d.subrange(p + a, d.len() as int).take(b) == t
        &&& d.subrange(p + a + b, p + a + b + k.len()) == k
        &&& d.subrange(p + a + b + k.len(), p + a + b + k.len() + v.len()) == v
    }),
{
    let a = s.len() as int; let b = t.len() as int; let n = d.len() as int;
    let y = d.subrange(p, q);
    assert(y.len() == a + b + k.len() + v.len());
    assert forall|i: int| 0 <= i < y.len() implies d[p + i] == #[trigger] x[i] by { assert(y[i] == d[p + i]); }
    assert(d.subrange(p, n).take(a) =~= s) by {
        assert forall|i: int| 0 <= i < a implies #[trigger] d.subrange(p, n).take(a)[i] == s[i] by { assert(x[i] == s[i]); }
    }
    assert(d.subrange(p + a, n).take(b) =~= t) by {
        assert forall|i: int| 0 <= i < b implies #[trigger] d.subrange(p + a, n).take(b)[i] == t[i] by { assert(x[a + i] == t[i]); }
    }
    assert(d.subrange(p + a + b, p + a + b + k.len()) =~= k) by {
        assert forall|i: int| 0 <= i < k.len() implies #[trigger] d.subrange(p + a + b, p + a + b + k.len())[i] == k[i] by { assert(x[a + b + i] == k[i]); }
    }
    let l = k.len() as int;
    assert(d.subrange(p + a + b + l, p + a + b + l + v.len()) =~= v) by {
        assert forall|i: int| 0 <= i < v.len() implies #[trigger] d.subrange(p + a + b + l, p + a + b + l + v.len())[i] == v[i] by { assert(x[a + b + l + i] == v[i]); }
    }
}
pub proof fn lemma_framed(es: Seq<Entry>, i: int)
    requires 0 <= i < es.len(), es[i].k.len() <= max_len(), es[i].v.len() <= max_len(),
    ensures framed(enc_entries(es), pos_of(es, i), es[i]), pos_of(es, i + 1) == pos_of(es, i) + enc_entry(es[i]).len(),
{
    hide(varint); hide(enc_entries); hide(pos_of);
    lemma_entry_bytes(es, i);
    lemma_pos_step(es, i);
    let e = es[i];
    assert(enc_entry(e) == varint(e.k.len()) + varint(e.v.len()) + e.k + e.v);
    lemma_four(enc_entries(es), pos_of(es, i), pos_of(es, i + 1), enc_entry(e), varint(e.k.len()), varint(e.v.len()), e.k, e.v);
}

pub proof fn lemma_framed_unique(d: Seq<u8>, p: int, a: Entry, b: Entry)
    requires framed(d, p, a), framed(d, p, b),
    ensures a == b,
{
    lemma_varint_unique(a.k.len(), b.k.len(), d.subrange(p, d.len() as int));
    let q = p + varint(a.k.len()).len();
    lemma_varint_unique(a.v.len(), b.v.len(), d.subrange(q, d.len() as int));
}

/// the entries of a block are determined by its payload
pub proof fn lemma_entries_inj_upto(a: Seq<Entry>, b: Seq<Entry>, n: int)
    requires enc_entries(a) == enc_entries(b), lens_ok(a), lens_ok(b), 0 <= n <= a.len(), n <= b.len(),
    ensures pos_of(a, n) == pos_of(b, n), forall|i: int| 0 <= i < n ==> a[i] == b[i],
    decreases n,
{
    if n == 0 { lemma_pos_ends(a); lemma_pos_ends(b); }
    else {
        lemma_entries_inj_upto(a, b, n - 1);
        lemma_lens_at(a, n - 1); lemma_lens_at(b, n - 1);
        lemma_framed(a, n - 1); lemma_framed(b, n - 1);
        lemma_framed_unique(enc_entries(a), pos_of(a, n - 1), a[n - 1], b[n - 1]);
    }
}

pub proof fn lemma_entries_inj(a: Seq<Entry>, b: Seq<Entry>)
    requires enc_entries(a) == enc_entries(b), lens_ok(a), lens_ok(b),
    ensures a == b,
{
    let n = if a.len() <= b.len() { a.len() as int } else { b.len() as int };
    lemma_entries_inj_upto(a, b, n);
    lemma_pos_ix(a, n); lemma_pos_ix(b, n);
    assert(a =~= b);
}

/// the entries of a block are determined by its bytes
pub proof fn lemma_block_inj(a: Seq<Entry>, i: nat, b: Seq<Entry>, j: nat)
    requires
        enc_block(a, i) == enc_block(b, j), lens_ok(a), lens_ok(b),
        offs(a, i).len() < 0x1_0000_0000, offs(b, j).len() < 0x1_0000_0000,
    ensures a == b, offs(a, i) == offs(b, j),
{
    broadcast use int_bytes;
    lemma_be64s_len(offs(a, i)); lemma_be64s_len(offs(b, j));
    let x = enc_block(a, i); let y = enc_block(b, j);
    let n = x.len() as int;
    assert(x.subrange(n - 4, n) =~= be32(offs(a, i).len()));
    assert(y.subrange(n - 4, n) =~= be32(offs(b, j).len()));
    lemma_pow256();
    lemma_be_inj(offs(a, i).len(), offs(b, j).len(), 4);
    let m = enc_entries(a).len() as int;
    assert(x.take(m) =~= enc_entries(a));
    assert(y.take(m) =~= enc_entries(b));
    lemma_entries_inj(a, b);
    assert(x.subrange(m, n - 4) =~= be64s(offs(a, i)));
    assert(y.subrange(m, n - 4) =~= be64s(offs(b, j)));
    lemma_be64s_inj(offs(a, i), offs(b, j));
}

pub proof fn lemma_be64s_inj(a: Seq<u64>, b: Seq<u64>)
    requires be64s(a) == be64s(b),
    ensures a == b,
    decreases a.len(),
{
    broadcast use int_bytes;
    lemma_be64s_len(a); lemma_be64s_len(b);
    if a.len() > 0 {
        let n = be64s(a).len() as int;
        assert(be64s(a).take(n - 8) =~= be64s(a.drop_last()));
        assert(be64s(b).take(n - 8) =~= be64s(b.drop_last()));
        assert(be64s(a).skip(n - 8) =~= be64(a.last() as nat));
        assert(be64s(b).skip(n - 8) =~= be64(b.last() as nat));
        lemma_pow256();
        lemma_be_inj(a.last() as nat, b.last() as nat, 8);
        lemma_be64s_inj(a.drop_last(), b.drop_last());
        assert(a =~= a.drop_last().push(a.last()));
        assert(b =~= b.drop_last().push(b.last()));
    } else {
        assert(a =~= b);
    }
}

// --------------------------------------------------------------------------------- offset table
/// every recorded offset is the position of an entry (or of the end, in an empty block)
pub open spec fn offs_pos(es: Seq<Entry>, o: Seq<u64>) -> bool {
    &&& o.len() > 0 && o[0] == 0
    &&& forall|j: int| 0 <= j < o.len() ==> is_pos(es, #[trigger] o[j] as int) && (es.len() > 0 ==> ix_of(es, o[j] as int) < es.len())
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> #[trigger] o[i] < #[trigger] o[j]
}

pub proof fn lemma_pos_drop(es: Seq<Entry>, i: int)
    requires 0 <= i < es.len(),
    ensures pos_of(es.drop_last(), i) == pos_of(es, i),
{
    reveal(pos_of);
    assert(es.drop_last().take(i) =~= es.take(i));
}

pub proof fn lemma_offs_pos(es: Seq<Entry>, iv: nat)
    requires iv > 0, enc_entries(es).len() < 0x1_0000_0000_0000_0000,
    ensures offs_pos(es, offs(es, iv)),
    decreases es.len(),
{
    let o = offs(es, iv);
    lemma_pos_ends(es);
    if es.len() == 0 {
        lemma_pos_ix(es, 0);
    } else {
        let p = es.drop_last();
        let n = es.len() as int;
        lemma_pos_ix(es, n - 1);
        lemma_pos_step(es, n - 1);
        lemma_offs_pos(p, iv);
        lemma_offs0(es, iv);
        let q = offs(p, iv);
        lemma_since(p.len(), iv);
        lemma_pos_drop(es, n - 1);
        lemma_pos_ends(p);
        assert forall|j: int| 0 <= j < o.len() implies is_pos(es, #[trigger] o[j] as int) && ix_of(es, o[j] as int) < es.len() by {
            if j < q.len() {
                assert(o[j] == q[j]);
                lemma_is_pos(p, q[j] as int);
                let i = ix_of(p, q[j] as int);
                lemma_pos_drop(es, i);
                lemma_pos_ix(es, i);
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < o.len() implies #[trigger] o[i] < #[trigger] o[j] by {
            assert(o[i] == q[i]);
            if j < q.len() { assert(o[j] == q[j]); }
            else {
                lemma_is_pos(p, q[i] as int);
                if p.len() > 0 {
                    lemma_pos_ix(p, ix_of(p, q[i] as int));
                }
            }
        }
    }
}

/// positions are ordered like indexes
pub proof fn lemma_pos_lt(es: Seq<Entry>, p: int, q: int)
    requires is_pos(es, p), is_pos(es, q),
    ensures p < q <==> ix_of(es, p) < ix_of(es, q), 0 <= ix_of(es, p) <= es.len(), 0 <= ix_of(es, q) <= es.len(),
{
    lemma_is_pos(es, p); lemma_is_pos(es, q);
    let i = ix_of(es, p); let j = ix_of(es, q);
    if i < j { lemma_pos_up(es, i, j); }
    if j < i { lemma_pos_up(es, j, i); }
}

/// the keys at the recorded offsets ascend
pub proof fn lemma_table(es: Seq<Entry>, o: Seq<u64>)
    requires offs_pos(es, o), sorted(es),
    ensures
        forall|i: int| 0 <= i < o.len() ==> 0 <= ix_of(es, #[trigger] o[i] as int) <= es.len() && (es.len() > 0 <==> o[i] < enc_entries(es).len()),
        forall|i: int, j: int| 0 <= i < j < o.len() ==> ix_of(es, #[trigger] o[i] as int) < ix_of(es, #[trigger] o[j] as int),
        forall|i: int, j: int| 0 <= i < j < o.len() && es.len() > 0 ==> lex_lt(es[ix_of(es, #[trigger] o[i] as int)].k, es[ix_of(es, #[trigger] o[j] as int)].k),
        forall|i: int, j: int| 0 <= i < j < o.len() && es.len() > 0 ==> !lex_lt(es[ix_of(es, #[trigger] o[j] as int)].k, es[ix_of(es, #[trigger] o[i] as int)].k),
        es.len() == 0 ==> o.len() == 1,
{
    assert forall|i: int| 0 <= i < o.len() implies 0 <= ix_of(es, #[trigger] o[i] as int) <= es.len() && (es.len() > 0 <==> o[i] < enc_entries(es).len()) by {
        lemma_is_pos(es, o[i] as int);
    }
    assert forall|i: int, j: int| 0 <= i < j < o.len() implies ix_of(es, #[trigger] o[i] as int) < ix_of(es, #[trigger] o[j] as int)
        && (es.len() > 0 ==> lex_lt(es[ix_of(es, o[i] as int)].k, es[ix_of(es, o[j] as int)].k) && !lex_lt(es[ix_of(es, o[j] as int)].k, es[ix_of(es, o[i] as int)].k)) by {
        lemma_pos_lt(es, o[i] as int, o[j] as int);
        if es.len() > 0 {
            lemma_sorted_at(es, ix_of(es, o[i] as int), ix_of(es, o[j] as int));
            lemma_lex_asym(es[ix_of(es, o[i] as int)].k, es[ix_of(es, o[j] as int)].k);
        }
    }
    if es.len() == 0 && o.len() > 1 {
        lemma_pos_lt(es, o[0] as int, o[1] as int);
    }
}

/// an entry below the key: so are the ones before it
pub proof fn lemma_below(es: Seq<Entry>, i: int, key: Seq<u8>)
    requires sorted(es), 0 <= i < es.len(), lex_le(es[i].k, key),
    ensures forall|j: int| 0 <= j <= i ==> lex_le(#[trigger] es[j].k, key), forall|j: int| 0 <= j < i ==> lex_lt(#[trigger] es[j].k, key),
{
    broadcast use lex_order;
    assert forall|j: int| 0 <= j < i implies lex_lt(#[trigger] es[j].k, key) by { lemma_sorted_at(es, j, i); }
}
/// an entry above the key: so are the ones after it
pub proof fn lemma_above(es: Seq<Entry>, i: int, key: Seq<u8>)
    requires sorted(es), 0 <= i < es.len(), lex_le(key, es[i].k),
    ensures forall|j: int| i < j < es.len() ==> lex_lt(key, #[trigger] es[j].k),
{
    broadcast use lex_order;
    assert forall|j: int| i < j < es.len() implies lex_lt(key, #[trigger] es[j].k) by { lemma_sorted_at(es, i, j); }
}

// ------------------------------------------------------------------------------- move targets
pub enum MK { First, Last, Next, Prev, Ge(Seq<u8>) }

pub open spec fn is_ge(es: Seq<Entry>, key: Seq<u8>, t: Option<int>) -> bool {
    match t {
        Some(i) => 0 <= i < es.len() && !lex_lt(es[i].k, key) && forall|j: int| 0 <= j < i ==> lex_lt(#[trigger] es[j].k, key),
        None => forall|j: int| 0 <= j < es.len() ==> lex_lt(#[trigger] es[j].k, key),
    }
}
pub open spec fn is_le(es: Seq<Entry>, key: Seq<u8>, t: Option<int>) -> bool {
    match t {
        Some(i) => 0 <= i < es.len() && lex_le(es[i].k, key) && forall|j: int| i < j < es.len() ==> lex_lt(key, #[trigger] es[j].k),
        None => forall|j: int| 0 <= j < es.len() ==> lex_lt(key, #[trigger] es[j].k),
    }
}
pub open spec fn is_eq(es: Seq<Entry>, key: Seq<u8>, t: Option<int>) -> bool {
    match t {
        Some(i) => 0 <= i < es.len() && es[i].k == key,
        None => forall|j: int| 0 <= j < es.len() ==> (#[trigger] es[j]).k != key,
    }
}
pub open spec fn ge_t(es: Seq<Entry>, key: Seq<u8>) -> Option<int> { choose|t: Option<int>| is_ge(es, key, t) }
pub open spec fn le_t(es: Seq<Entry>, key: Seq<u8>) -> Option<int> { choose|t: Option<int>| is_le(es, key, t) }
pub open spec fn eq_t(es: Seq<Entry>, key: Seq<u8>) -> Option<int> { match ge_t(es, key) { Some(i) => if es[i].k == key { Some(i) } else { None }, None => None } }
pub open spec fn first_t(es: Seq<Entry>) -> Option<int> { if es.len() > 0 { Some(0) } else { None } }
pub open spec fn last_t(es: Seq<Entry>) -> Option<int> { if es.len() > 0 { Some(es.len() - 1) } else { None } }
pub open spec fn next_t(es: Seq<Entry>, i: int) -> Option<int> { if i + 1 < es.len() { Some(i + 1) } else { None } }
pub open spec fn prev_t(es: Seq<Entry>, i: int) -> Option<int> { if 0 < i <= es.len() { Some(i - 1) } else { None } }

/// target of a move in a sequence: `at` is the position before it, if there is one
pub open spec fn target(m: MK, es: Seq<Entry>, at: Option<int>) -> Option<int> {
    match m {
        MK::First => first_t(es),
        MK::Last => last_t(es),
        MK::Next => match at { Some(i) => next_t(es, i), None => first_t(es) },
        MK::Prev => match at { Some(i) => prev_t(es, i), None => last_t(es) },
        MK::Ge(key) => ge_t(es, key),
    }
}
pub open spec fn relative(m: MK) -> bool { m is Next || m is Prev }

pub proof fn lemma_ge_exists(es: Seq<Entry>, key: Seq<u8>, n: int)
    requires 0 <= n <= es.len(), forall|j: int| 0 <= j < n ==> lex_lt(#[trigger] es[j].k, key),
    ensures is_ge(es, key, ge_t(es, key)), ge_t(es, key) is Some ==> ge_t(es, key)->Some_0 >= n,
    decreases es.len() - n,
{
    if n == es.len() { assert(is_ge(es, key, None)); }
    else if lex_lt(es[n].k, key) { lemma_ge_exists(es, key, n + 1); }
    else { assert(is_ge(es, key, Some(n))); }
}

pub proof fn lemma_ge(es: Seq<Entry>, key: Seq<u8>)
    ensures is_ge(es, key, ge_t(es, key)), forall|t: Option<int>| #[trigger] is_ge(es, key, t) ==> t == ge_t(es, key),
{
    lemma_ge_exists(es, key, 0);
    assert forall|t: Option<int>| #[trigger] is_ge(es, key, t) implies t == ge_t(es, key) by {
        let u = ge_t(es, key);
        if t is Some && u is Some {
            if t->Some_0 < u->Some_0 { assert(lex_lt(es[t->Some_0].k, key)); }
            if u->Some_0 < t->Some_0 { assert(lex_lt(es[u->Some_0].k, key)); }
        } else if t is Some { assert(lex_lt(es[t->Some_0].k, key)); }
        else if u is Some { assert(lex_lt(es[u->Some_0].k, key)); }
    }
}

/// the floor is the ceiling if it is equal, and the entry before the ceiling otherwise
pub proof fn lemma_le(es: Seq<Entry>, key: Seq<u8>)
    requires sorted(es),
    ensures
        is_le(es, key, le_t(es, key)), forall|t: Option<int>| #[trigger] is_le(es, key, t) ==> t == le_t(es, key),
        le_t(es, key) == match ge_t(es, key) {
            Some(i) => if es[i].k == key { Some(i) } else if i > 0 { Some(i - 1) } else { None },
            None => last_t(es),
        },
{
    broadcast use lex_order;
    lemma_ge(es, key);
    let g = ge_t(es, key);
    let c = match g {
        Some(i) => if es[i].k == key { Some(i) } else if i > 0 { Some(i - 1) } else { None },
        None => last_t(es),
    };
    match g {
        Some(i) => {
            assert forall|j: int| i < j < es.len() implies lex_lt(key, #[trigger] es[j].k) by { lemma_sorted_at(es, i, j); }
        }
        None => {}
    }
    assert(is_le(es, key, c));
    assert forall|t: Option<int>| #[trigger] is_le(es, key, t) implies t == c by {
        if t is Some && c is Some {
            if t->Some_0 < c->Some_0 { assert(lex_lt(key, es[c->Some_0].k)); }
            if c->Some_0 < t->Some_0 { assert(lex_lt(key, es[t->Some_0].k)); }
        } else if t is Some { assert(lex_lt(key, es[t->Some_0].k)); }
        else if c is Some { assert(lex_lt(key, es[c->Some_0].k)); }
    }
    assert(is_le(es, key, le_t(es, key)));
}

/// the match is the ceiling if it is equal
pub proof fn lemma_eq(es: Seq<Entry>, key: Seq<u8>)
    requires sorted(es),
    ensures is_eq(es, key, eq_t(es, key)),
{
    broadcast use lex_order;
    lemma_ge(es, key);
    match ge_t(es, key) {
        Some(i) => {
            assert forall|j: int| 0 <= j < es.len() && j != i implies (#[trigger] es[j]).k != key by {
                if j < i { lemma_sorted_at(es, j, i); assert(lex_lt(es[j].k, key)); } else { lemma_sorted_at(es, i, j); }
            }
        }
        None => {
            assert forall|j: int| 0 <= j < es.len() implies (#[trigger] es[j]).k != key by { assert(lex_lt(es[j].k, key)); }
        }
    }
}

} // mod pos
