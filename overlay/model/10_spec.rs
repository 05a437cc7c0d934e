// ---------------------------------------------------------------------------------------------
// Mathematical specification: independent of the code, taken from the property statements.
// ---------------------------------------------------------------------------------------------
pub mod spec {
use super::*;

pub struct Entry { pub k: Seq<u8>, pub v: Seq<u8> }

pub open spec fn is_prefix(p: Seq<u8>, s: Seq<u8>) -> bool {
    p.len() <= s.len() && s.take(p.len() as int) == p
}

/// LEB128 framing of a length, one to five bytes, 7 bits per byte, least significant first.
pub open spec fn varint(n: nat) -> Seq<u8> {
    let q1 = n / 128; let q2 = q1 / 128; let q3 = q2 / 128; let q4 = q3 / 128;
    if n < 0x80 { seq![n as u8] }
    else if n < 0x4000 { seq![(n % 128 + 128) as u8, q1 as u8] }
    else if n < 0x20_0000 { seq![(n % 128 + 128) as u8, (q1 % 128 + 128) as u8, q2 as u8] }
    else if n < 0x1000_0000 { seq![(n % 128 + 128) as u8, (q1 % 128 + 128) as u8, (q2 % 128 + 128) as u8, q3 as u8] }
    else { seq![(n % 128 + 128) as u8, (q1 % 128 + 128) as u8, (q2 % 128 + 128) as u8, (q3 % 128 + 128) as u8, q4 as u8] }
}

pub open spec fn max_len() -> nat { 0xffff_ffff }

/// what the length decoder returns for a length `n`
pub open spec fn decodes_to(data: Seq<u8>, n: nat) -> bool {
    n <= max_len() && is_prefix(varint(n), data)
}

/// the bytes the encoder writes, in terms of machine words
pub proof fn lemma_varint_bits(v: u32)
    ensures
        (v as u8) as nat == v as nat % 256,
        (v | 128) as u8 == (v as nat % 128 + 128) as u8,
        ((v >> 7) | 128) as u8 == (v as nat / 128 % 128 + 128) as u8,
        ((v >> 14) | 128) as u8 == (v as nat / 128 / 128 % 128 + 128) as u8,
        ((v >> 21) | 128) as u8 == (v as nat / 128 / 128 / 128 % 128 + 128) as u8,
        (v >> 7) as nat == v as nat / 128,
        (v >> 14) as nat == v as nat / 128 / 128,
        (v >> 21) as nat == v as nat / 128 / 128 / 128,
        (v >> 28) as nat == v as nat / 128 / 128 / 128 / 128,
        1u32 << 7 == 0x80, 1u32 << 14 == 0x4000, 1u32 << 21 == 0x20_0000, 1u32 << 28 == 0x1000_0000,
{
    assert((v as u8) as u32 == v % 256) by (bit_vector);
    assert((v | 128) as u8 == (v % 128 + 128) as u8) by (bit_vector);
    assert(((v >> 7) | 128) as u8 == (v / 128 % 128 + 128) as u8) by (bit_vector);
    assert(((v >> 14) | 128) as u8 == (v / 128 / 128 % 128 + 128) as u8) by (bit_vector);
    assert(((v >> 21) | 128) as u8 == (v / 128 / 128 / 128 % 128 + 128) as u8) by (bit_vector);
    assert(v >> 7 == v / 128) by (bit_vector);
    assert(v >> 14 == v / 128 / 128) by (bit_vector);
    assert(v >> 21 == v / 128 / 128 / 128) by (bit_vector);
    assert(v >> 28 == v / 128 / 128 / 128 / 128) by (bit_vector);
    assert(1u32 << 7 == 0x80) by (bit_vector);
    assert(1u32 << 14 == 0x4000) by (bit_vector);
    assert(1u32 << 21 == 0x20_0000) by (bit_vector);
    assert(1u32 << 28 == 0x1000_0000) by (bit_vector);
}

/// what one encoded byte looks like to the decoder
pub proof fn lemma_byte(b: u8)
    ensures
        (b & 0x80 == 0) == (b < 128),
        (b & 0x7f) as nat == b as nat % 128,
{
    assert((b & 0x80 == 0) == (b < 128)) by (bit_vector);
    assert(b & 0x7f == b % 128) by (bit_vector);
}

/// reassembling five groups of bits
pub proof fn lemma_or5(a: u32, b: u32, c: u32, d: u32, e: u32)
    requires a < 128, b < 128, c < 128, d < 128, e < 16,
    ensures
        (a | b << 7) as nat == a as nat + b as nat * 128,
        (a | b << 7 | c << 14) as nat == a as nat + b as nat * 128 + c as nat * 0x4000,
        (a | b << 7 | c << 14 | d << 21) as nat == a as nat + b as nat * 128 + c as nat * 0x4000 + d as nat * 0x20_0000,
        (a | b << 7 | c << 14 | d << 21 | e << 28) as nat == a as nat + b as nat * 128 + c as nat * 0x4000 + d as nat * 0x20_0000 + e as nat * 0x1000_0000,
{
    assert((a | b << 7) == a + b * 128) by (bit_vector) requires a < 128, b < 128;
    assert((a | b << 7 | c << 14) == a + b * 128 + c * 0x4000) by (bit_vector) requires a < 128, b < 128, c < 128;
    assert((a | b << 7 | c << 14 | d << 21) == a + b * 128 + c * 0x4000 + d * 0x20_0000) by (bit_vector) requires a < 128, b < 128, c < 128, d < 128;
    assert((a | b << 7 | c << 14 | d << 21 | e << 28) == a + b * 128 + c * 0x4000 + d * 0x20_0000 + e * 0x1000_0000) by (bit_vector) requires a < 128, b < 128, c < 128, d < 128, e < 16;
}

/// C14: distinct lengths have distinct encodings, and no encoding is a prefix of another one
pub proof fn lemma_varint_unique(a: nat, b: nat, data: Seq<u8>)
    requires decodes_to(data, a), decodes_to(data, b),
    ensures a == b,
{
    lemma_decode_bytes(data, a);
    lemma_decode_bytes(data, b);
}

pub proof fn lemma_varint_len(n: nat)
    ensures 1 <= varint(n).len() <= 5,
{
}

/// facts used by the decoder about the first bytes of its input
pub proof fn lemma_decode(data: Seq<u8>)
    ensures
        forall|j: int| 0 <= j < data.len() ==> (#[trigger] data[j] & 0x80 == 0) == (data[j] < 128),
        forall|j: int| 0 <= j < data.len() ==> ((#[trigger] data[j] & 0x7f) as u32) as nat == data[j] as nat % 128,
        data.len() > 1 ==> (((data[0] & 0x7f) as u32) | ((data[1] & 0x7f) as u32) << 7) as nat == data[0] as nat % 128 + data[1] as nat % 128 * 128,
        data.len() > 2 ==> (((data[0] & 0x7f) as u32) | ((data[1] & 0x7f) as u32) << 7 | ((data[2] & 0x7f) as u32) << 14) as nat == data[0] as nat % 128 + data[1] as nat % 128 * 128 + data[2] as nat % 128 * 0x4000,
        data.len() > 3 ==> (((data[0] & 0x7f) as u32) | ((data[1] & 0x7f) as u32) << 7 | ((data[2] & 0x7f) as u32) << 14 | ((data[3] & 0x7f) as u32) << 21) as nat == data[0] as nat % 128 + data[1] as nat % 128 * 128 + data[2] as nat % 128 * 0x4000 + data[3] as nat % 128 * 0x20_0000,
        data.len() > 4 && data[4] < 16 ==> (((data[0] & 0x7f) as u32) | ((data[1] & 0x7f) as u32) << 7 | ((data[2] & 0x7f) as u32) << 14 | ((data[3] & 0x7f) as u32) << 21 | (data[4] as u32) << 28) as nat
            == data[0] as nat % 128 + data[1] as nat % 128 * 128 + data[2] as nat % 128 * 0x4000 + data[3] as nat % 128 * 0x20_0000 + data[4] as nat * 0x1000_0000,
        forall|n: nat| #[trigger] decodes_to(data, n) ==> decoded(data, n),
{
    assert forall|j: int| 0 <= j < data.len() implies (#[trigger] data[j] & 0x80 == 0) == (data[j] < 128) && ((data[j] & 0x7f) as u32) as nat == data[j] as nat % 128 by { lemma_byte(data[j]); }
    let z = |i: int| if i < data.len() { data[i] } else { 0 };
    let e = if z(4) < 16 { z(4) } else { 0 };
    lemma_byte(z(0)); lemma_byte(z(1)); lemma_byte(z(2)); lemma_byte(z(3));
    lemma_or5((z(0) & 0x7f) as u32, (z(1) & 0x7f) as u32, (z(2) & 0x7f) as u32, (z(3) & 0x7f) as u32, e as u32);
    assert forall|n: nat| #[trigger] decodes_to(data, n) implies decoded(data, n) by { lemma_decode_bytes(data, n); }
}

pub proof fn lemma_decode_bytes(data: Seq<u8>, n: nat)
    requires decodes_to(data, n),
    ensures decoded(data, n),
{
    let x = varint(n);
    let p = data.take(x.len() as int);
    assert(p == x);
    assert(x.len() >= 1 ==> data[0] == p[0]);
    assert(x.len() >= 2 ==> data[1] == p[1]);
    assert(x.len() >= 3 ==> data[2] == p[2]);
    assert(x.len() >= 4 ==> data[3] == p[3]);
    assert(x.len() >= 5 ==> data[4] == p[4]);
    let q1 = n / 128; let q2 = q1 / 128; let q3 = q2 / 128; let q4 = q3 / 128;
    assert(n == q1 * 128 + n % 128);
    assert(q1 == q2 * 128 + q1 % 128);
    assert(q2 == q3 * 128 + q2 % 128);
    assert(q3 == q4 * 128 + q3 % 128);
}

/// `n` in terms of the bytes
pub open spec fn decoded(data: Seq<u8>, n: nat) -> bool {
    let l = varint(n).len();
    &&& 1 <= l <= 5 && l <= data.len()
    &&& data[l - 1] < 128
    &&& l > 1 ==> data[0] >= 128
    &&& l > 2 ==> data[1] >= 128
    &&& l > 3 ==> data[2] >= 128
    &&& l > 4 ==> data[3] >= 128 && data[4] < 16
    &&& l == 1 ==> n == data[0]
    &&& l == 2 ==> n == data[0] as nat % 128 + data[1] as nat % 128 * 128
    &&& l == 3 ==> n == data[0] as nat % 128 + data[1] as nat % 128 * 128 + data[2] as nat % 128 * 0x4000
    &&& l == 4 ==> n == data[0] as nat % 128 + data[1] as nat % 128 * 128 + data[2] as nat % 128 * 0x4000 + data[3] as nat % 128 * 0x20_0000
    &&& l == 5 ==> n == data[0] as nat % 128 + data[1] as nat % 128 * 128 + data[2] as nat % 128 * 0x4000 + data[3] as nat % 128 * 0x20_0000 + data[4] as nat * 0x1000_0000
}

} // mod spec

// ---------------------------------------------------------------------------------------------
// Blocks
// ---------------------------------------------------------------------------------------------
pub mod blk {
use super::*;
use super::spec::*;
use super::lex::*;
use super::rt::*;

pub open spec fn enc_entry(e: Entry) -> Seq<u8> {
    varint(e.k.len()) + varint(e.v.len()) + e.k + e.v
}

/// C09: varint-framed entries, one after the other
pub open spec fn enc_entries(es: Seq<Entry>) -> Seq<u8>
    decreases es.len(),
{
    if es.len() == 0 { Seq::empty() } else { enc_entries(es.drop_last()) + enc_entry(es.last()) }
}

/// keys strictly ascending
#[verifier::opaque]
pub open spec fn sorted(es: Seq<Entry>) -> bool {
    forall|i: int, j: int| 0 <= i < j < es.len() ==> lex_lt(#[trigger] es[i].k, #[trigger] es[j].k)
}

#[verifier::opaque]
pub open spec fn lens_ok(es: Seq<Entry>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).k.len() <= max_len() && es[i].v.len() <= max_len()
}

/// number of entries since the last recorded offset
pub open spec fn since(n: nat, iv: nat) -> nat
    decreases n,
{
    if n == 0 { 0 } else { let p = since((n - 1) as nat, iv); if p == iv { 1 } else { p + 1 } }
}

/// C09: the table of entry offsets: first 0, then one per index interval
pub open spec fn offs(es: Seq<Entry>, iv: nat) -> Seq<u64>
    decreases es.len(),
{
    if es.len() == 0 { seq![0u64] }
    else {
        let p = es.drop_last();
        if since(p.len(), iv) == iv { offs(p, iv).push(enc_entries(p).len() as u64) } else { offs(p, iv) }
    }
}

/// `since` is the position in the current interval: an offset is recorded exactly for the entries
/// whose index is a positive multiple of the interval
pub proof fn lemma_since(n: nat, iv: nat)
    requires iv > 0,
    ensures
        n == 0 ==> since(n, iv) == 0,
        n > 0 ==> since(n, iv) == (n - 1) % (iv as int) + 1,
        n > 0 ==> (since(n, iv) == iv <==> n as int % iv as int == 0),
    decreases n,
{
    if n > 0 {
        lemma_since((n - 1) as nat, iv);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, iv as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - 1, iv as int);
        vstd::arithmetic::div_mod::lemma_mod_bound(n as int, iv as int);
        vstd::arithmetic::div_mod::lemma_mod_bound(n - 1, iv as int);
        let q = (n - 1) / iv as int; let m = (n - 1) % iv as int;
        assert(n - 1 == iv as int * q + m);
        if m + 1 == iv {
            assert(n == iv as int * (q + 1)) by (nonlinear_arith) requires n - 1 == iv as int * q + m, m + 1 == iv;
            vstd::arithmetic::div_mod::lemma_mod_multiples_basic(q + 1, iv as int);
            assert((q + 1) * iv as int == iv as int * (q + 1)) by (nonlinear_arith);
            assert(n as int % iv as int == 0);
        } else {
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n as int, iv as int, q, m + 1);
            assert(n as int % iv as int == m + 1);
        }
        if n > 1 {
            let q2 = (n - 2) / iv as int; let m2 = (n - 2) % iv as int;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n - 2, iv as int);
            vstd::arithmetic::div_mod::lemma_mod_bound(n - 2, iv as int);
            if m2 + 1 == iv {
                assert(n - 1 == iv as int * (q2 + 1) + 0) by (nonlinear_arith) requires n - 2 == iv as int * q2 + m2, m2 + 1 == iv;
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, iv as int, q2 + 1, 0);
            } else {
                vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n - 1, iv as int, q2, m2 + 1);
            }
        } else {
            vstd::arithmetic::div_mod::lemma_small_mod(0, iv);
        }
    }
}

/// C09: a whole uncompressed block
pub open spec fn enc_block(es: Seq<Entry>, iv: nat) -> Seq<u8> {
    enc_entries(es) + be64s(offs(es, iv)) + be32(offs(es, iv).len())
}

pub proof fn lemma_sorted_push(es: Seq<Entry>, e: Entry)
    requires sorted(es), es.len() > 0 ==> lex_lt(es.last().k, e.k),
    ensures sorted(es.push(e)),
{
    reveal(sorted);
    let n = es.push(e);
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies lex_lt(#[trigger] n[i].k, #[trigger] n[j].k) by {
        if j == es.len() && i < es.len() - 1 {
            lemma_lex_trans(es[i].k, es.last().k, e.k);
        }
    }
}

pub proof fn lemma_lens_push(es: Seq<Entry>, e: Entry)
    requires lens_ok(es), e.k.len() <= max_len(), e.v.len() <= max_len(),
    ensures lens_ok(es.push(e)),
{
    reveal(lens_ok);
}

pub proof fn lemma_lens_at(es: Seq<Entry>, i: int)
    requires lens_ok(es), 0 <= i < es.len(),
    ensures es[i].k.len() <= max_len(), es[i].v.len() <= max_len(),
{
    reveal(lens_ok);
}

pub proof fn lemma_sorted_at(es: Seq<Entry>, i: int, j: int)
    requires sorted(es), 0 <= i < j < es.len(),
    ensures lex_lt(es[i].k, es[j].k),
{
    reveal(sorted);
}

pub proof fn lemma_sorted_empty()
    ensures sorted(Seq::empty()), lens_ok(Seq::empty()),
{
    reveal(sorted);
    reveal(lens_ok);
}

pub open spec fn is_prefix0(o: Seq<u64>) -> bool { o.len() > 0 && o[0] == 0 }

pub proof fn lemma_offs0(es: Seq<Entry>, iv: nat)
    ensures is_prefix0(offs(es, iv)),
    decreases es.len(),
{
    if es.len() > 0 { lemma_offs0(es.drop_last(), iv); }
}

} // mod blk
