// ---------------------------------------------------------------------------------------------
// File format (C09, C10, C13): the trailer, and blocks inside a file
// ---------------------------------------------------------------------------------------------
pub mod fmt {
use super::*;
use super::spec::*;
use super::lex::*;
use super::blk::*;
use super::rt::*;

/// logical content of a trailer
pub struct Trailer { pub v2: bool, pub root: nat, pub codec: nat, pub count: nat, pub levels: nat }

pub open spec fn trailer_ok(t: Trailer) -> bool {
    &&& t.root < 0x1_0000_0000_0000_0000 && t.count < 0x1_0000_0000_0000_0000
    &&& t.codec <= 5
    &&& if t.v2 { t.levels < 256 } else { t.levels == 0 }
}

pub open spec fn enc_trailer(t: Trailer) -> Seq<u8> {
    if t.v2 {
        le64(t.root) + seq![t.codec as u8] + le64(t.count) + seq![t.levels as u8] + le32(0x6723D4C4)
    } else {
        le64(t.root) + seq![t.codec as u8] + le64(t.count) + le32(0x76324D4C)
    }
}

/// the byte string ends with that trailer
pub open spec fn has_trailer(d: Seq<u8>, t: Trailer) -> bool {
    let e = enc_trailer(t);
    trailer_ok(t) && d.len() >= e.len() && d.skip(d.len() - e.len()) == e
}

pub proof fn lemma_trailer_len(t: Trailer)
    ensures enc_trailer(t).len() == if t.v2 { 22nat } else { 21nat },
{
    broadcast use int_bytes;
}

/// the same, as the pieces a reader sees
pub open spec fn trailer_fields(d: Seq<u8>, t: Trailer) -> bool {
    let b = d.len() - (if t.v2 { 22int } else { 21int });
    &&& trailer_ok(t) && b >= 0
    &&& d.subrange(d.len() - 4, d.len() as int) == le32(if t.v2 { 0x6723D4C4 } else { 0x76324D4C })
    &&& d.subrange(b, b + 8) == le64(t.root)
    &&& d[b + 8] == t.codec
    &&& d.subrange(b + 9, b + 17) == le64(t.count)
    &&& t.v2 ==> d[b + 17] == t.levels
}

pub broadcast proof fn lemma_trailer_fields(d: Seq<u8>, t: Trailer)
    ensures #[trigger] has_trailer(d, t) <==> trailer_fields(d, t),
{
    broadcast use int_bytes;
    let e = enc_trailer(t);
    lemma_trailer_len(t);
    let b = d.len() - e.len();
    if has_trailer(d, t) {
        let s = d.skip(b);
        assert(d.subrange(d.len() - 4, d.len() as int) =~= e.subrange(e.len() - 4, e.len() as int));
        assert(d.subrange(b, b + 8) =~= e.subrange(0, 8));
        assert(d.subrange(b + 9, b + 17) =~= e.subrange(9, 17));
        assert(e.subrange(0, 8) =~= le64(t.root));
        assert(s[8] == t.codec as u8 && s[8] == d[b + 8]);
        assert(e.subrange(9, 17) =~= le64(t.count));
        if t.v2 {
            assert(s[17] == t.levels as u8 && s[17] == d[b + 17]);
            assert(e.subrange(18, 22) =~= le32(0x6723D4C4));
        } else {
            assert(e.subrange(17, 21) =~= le32(0x76324D4C));
        }
    }
    if trailer_fields(d, t) {
        assert(d.subrange(b + 8, b + 9) =~= seq![t.codec as u8]);
        if t.v2 {
            assert(d.subrange(b + 17, b + 18) =~= seq![t.levels as u8]);
            assert(d.skip(b) =~= d.subrange(b, b + 8) + d.subrange(b + 8, b + 9) + d.subrange(b + 9, b + 17) + d.subrange(b + 17, b + 18) + d.subrange(d.len() - 4, d.len() as int));
        } else {
            assert(d.skip(b) =~= d.subrange(b, b + 8) + d.subrange(b + 8, b + 9) + d.subrange(b + 9, b + 17) + d.subrange(d.len() - 4, d.len() as int));
        }
    }
}

/// C13: a byte string ends with at most one trailer
pub proof fn lemma_trailer_unique(d: Seq<u8>, a: Trailer, b: Trailer)
    requires has_trailer(d, a), has_trailer(d, b),
    ensures a == b,
{
    broadcast use {int_bytes, int_vals};
    lemma_trailer_fields(d, a);
    lemma_trailer_fields(d, b);
    lemma_pow256();
    if a.v2 != b.v2 {
        lemma_le_inj(0x6723D4C4, 0x76324D4C, 4);
    }
}

} // mod fmt
