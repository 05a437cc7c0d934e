// ---------------------------------------------------------------------------------------------
// Contracts of the parts of std used by grenad that vstd does not specify, and model traits.
// Everything marked external_body / axiom / assume_specification here is trusted.
// ---------------------------------------------------------------------------------------------
pub mod lex {
use super::*;

/// lexicographic byte order, written from its definition
#[verifier::opaque]
pub open spec fn lex_lt(a: Seq<u8>, b: Seq<u8>) -> bool
    decreases a.len(),
{
    if b.len() == 0 { false }
    else if a.len() == 0 { true }
    else if a[0] != b[0] { a[0] < b[0] }
    else { lex_lt(a.skip(1), b.skip(1)) }
}

pub open spec fn lex_le(a: Seq<u8>, b: Seq<u8>) -> bool { a == b || lex_lt(a, b) }

pub proof fn lemma_lex_irrefl(a: Seq<u8>)
    ensures !lex_lt(a, a),
    decreases a.len(),
{
    reveal(lex_lt);
    if a.len() > 0 { lemma_lex_irrefl(a.skip(1)); }
}

pub proof fn lemma_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires lex_lt(a, b), lex_lt(b, c),
    ensures lex_lt(a, c),
    decreases a.len(),
{
    reveal(lex_lt);
    if a.len() > 0 && b.len() > 0 && c.len() > 0 && a[0] == b[0] && b[0] == c[0] {
        lemma_lex_trans(a.skip(1), b.skip(1), c.skip(1));
    }
}

pub proof fn lemma_lex_total(a: Seq<u8>, b: Seq<u8>)
    ensures lex_lt(a, b) || lex_lt(b, a) || a == b,
    decreases a.len(),
{
    reveal(lex_lt);
    if a.len() > 0 && b.len() > 0 && a[0] == b[0] {
        lemma_lex_total(a.skip(1), b.skip(1));
        if a.skip(1) == b.skip(1) {
            assert(a =~= seq![a[0]] + a.skip(1));
            assert(b =~= seq![b[0]] + b.skip(1));
        }
    } else if a.len() == 0 && b.len() == 0 {
        assert(a =~= b);
    }
}

pub proof fn lemma_lex_asym(a: Seq<u8>, b: Seq<u8>)
    requires lex_lt(a, b),
    ensures !lex_lt(b, a), a != b,
{
    lemma_lex_irrefl(a);
    if lex_lt(b, a) { lemma_lex_trans(a, b, a); }
}

/// the order facts, for use where keys are compared
pub broadcast proof fn b_lex_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>)
    requires #[trigger] lex_lt(a, b), #[trigger] lex_lt(b, c),
    ensures lex_lt(a, c),
{ lemma_lex_trans(a, b, c); }

pub broadcast proof fn b_lex_asym(a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] lex_lt(a, b) ==> !lex_lt(b, a) && a != b, !lex_lt(a, b) ==> lex_lt(b, a) || a == b,
{ if lex_lt(a, b) { lemma_lex_asym(a, b); } lemma_lex_total(a, b); }

pub broadcast group lex_order { b_lex_trans, b_lex_asym }

} // mod lex

/// the comparison operators of byte slices
pub mod cmpax {
use super::*;
use super::lex::*;
use vstd::std_specs::cmp::{PartialEqSpec, PartialOrdSpec};

pub broadcast axiom fn ax_slice_eq_obeys()
    ensures #[trigger] <[u8] as PartialEqSpec>::obeys_eq_spec();
pub broadcast axiom fn ax_slice_eq(a: &[u8], b: &[u8])
    ensures (#[trigger] vstd::std_specs::cmp::PartialEqSpec::eq_spec(a, b)) == (a@ == b@);
pub broadcast axiom fn ax_slice_cmp_obeys()
    ensures #[trigger] <[u8] as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_slice_cmp(a: &[u8], b: &[u8])
    ensures (#[trigger] vstd::std_specs::cmp::PartialOrdSpec::partial_cmp_spec(a, b)) == Some(
        if a@ == b@ { core::cmp::Ordering::Equal } else if lex_lt(a@, b@) { core::cmp::Ordering::Less } else { core::cmp::Ordering::Greater });
pub broadcast axiom fn ax_slice_vec_obeys()
    ensures #[trigger] <[u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn ax_slice_vec_eq(a: &[u8], b: &Vec<u8>)
    ensures (#[trigger] PartialEqSpec::eq_spec(a, b)) == (a@ == b@);
pub broadcast axiom fn ax_rslice_vec_obeys()
    ensures #[trigger] <&[u8] as PartialEqSpec<Vec<u8>>>::obeys_eq_spec();
pub broadcast axiom fn ax_rslice_vec_eq(a: &&[u8], b: &Vec<u8>)
    ensures (#[trigger] PartialEqSpec::eq_spec(a, b)) == (a@ == b@);
pub broadcast group slice_vec_eq { ax_slice_vec_obeys, ax_slice_vec_eq, ax_rslice_vec_obeys, ax_rslice_vec_eq }
pub broadcast group slice_order { ax_slice_eq_obeys, ax_slice_eq, ax_slice_cmp_obeys, ax_slice_cmp }
} // mod cmpax

pub mod rt {
use super::*;

#[verifier::external_body]
pub struct Infallible { x: () }
/// std's type has no values
pub axiom fn no_infallible(x: Infallible)
    ensures false;

/// either::Either
pub enum Either<L, R> { Left(L), Right(R) }

/// true in the runs in which the caller breaks the documented contract and a panic is an allowed outcome
pub uninterp spec fn permissive() -> bool;

/// `assert!` / `debug_assert!`: the condition holds afterwards, and a panic is a failure unless allowed
#[verifier::external_body]
pub fn rt_assert(c: bool)
    requires c || permissive(),
    ensures c,
{
    assert!(c)
}

/// `debug_assert!`: absent from release builds, nothing may be concluded from it
#[verifier::external_body]
pub fn rt_debug_assert(c: bool)
    requires c || permissive(),
{
    debug_assert!(c)
}

/// `panic!` / `unreachable!`
#[verifier::external_body]
pub fn rt_panic() -> !
    requires permissive(),
{
    panic!()
}

pub fn vec_from_elem<T: Clone>(x: T, n: usize) -> (r: Vec<T>)
    ensures r@.len() == n, forall|i: int| 0 <= i < n ==> cloned(x, #[trigger] r@[i]),
{
    let mut v = Vec::new();
    let mut i = 0;
    while i < n
        invariant v@.len() == i, i <= n, forall|j: int| 0 <= j < i ==> cloned(x, #[trigger] v@[j]),
        decreases n - i,
    {
        v.push(x.clone());
        i += 1;
    }
    v
}

// ------------------------------------------------------------------ machine limits (assumed)
/// no Vec<u8> or byte slice in a run reaches 2^47 bytes (user address space of the platform)
pub broadcast axiom fn limit_vec_u8(v: Vec<u8>)
    ensures #[trigger] v@.len() < 0x8000_0000_0000;
pub broadcast axiom fn limit_slice_u8(v: &[u8])
    ensures #[trigger] v@.len() < 0x8000_0000_0000;
/// no block holds 2^32 index offsets or more (32 GiB of offsets)
pub broadcast axiom fn limit_vec_u64(v: Vec<u64>)
    ensures #[trigger] v@.len() < 0xffff_ffff;
/// the value of a NonZeroUsize
pub broadcast axiom fn ax_nonzero(n: core::num::NonZeroUsize)
    ensures #[trigger] n.get() > 0;
pub broadcast proof fn mul_size_of_u64(a: int)
    ensures #[trigger] (a * (size_of::<u64>() as int)) == a * 8,
{
    broadcast use vstd::layout::layout_of_primitives;
}
pub broadcast proof fn mul_size_of_u64_left(a: int)
    ensures #[trigger] ((size_of::<u64>() as int) * a) == a * 8,
{
    broadcast use vstd::layout::layout_of_primitives;
    assert(size_of::<u64>() as int * a == a * size_of::<u64>() as int) by (nonlinear_arith);
}
pub broadcast group limits { mul_size_of_u64, mul_size_of_u64_left, limit_vec_u8, limit_slice_u8, limit_vec_u64, ax_nonzero, vstd::layout::layout_of_primitives }

// --------------------------------------------------------------------------- model traits
pub trait AsRef<T: ?Sized> {
    spec fn asref(&self) -> &T;
    fn as_ref(&self) -> (r: &T)
        ensures r == self.asref();
}

impl AsRef<[u8]> for Vec<u8> {
    uninterp spec fn asref(&self) -> &[u8];
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { self.as_slice() }
}
pub broadcast axiom fn ax_vec_asref(v: &Vec<u8>)
    ensures (#[trigger] AsRef::<[u8]>::asref(v))@ == v@;

impl<T: ?Sized, U: ?Sized + AsRef<T>> AsRef<T> for &U {
    open spec fn asref(&self) -> &T { (**self).asref() }
    fn as_ref(&self) -> (r: &T) { (**self).as_ref() }
}

impl<T: ?Sized, U: ?Sized + AsRef<T>> AsRef<T> for &mut U {
    open spec fn asref(&self) -> &T { (**self).asref() }
    fn as_ref(&self) -> (r: &T) { (**self).as_ref() }
}

/// a Cow is what it borrows or owns
impl AsRef<[u8]> for std::borrow::Cow<'_, [u8]> {
    uninterp spec fn asref(&self) -> &[u8];
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { unimplemented!() }
}
pub broadcast axiom fn ax_cow_asref(v: &std::borrow::Cow<'_, [u8]>)
    ensures (#[trigger] AsRef::<[u8]>::asref(v))@ == match *v { std::borrow::Cow::Borrowed(b) => b@, std::borrow::Cow::Owned(o) => o@ };

impl<const N: usize> AsRef<[u8]> for [u8; N] {
    uninterp spec fn asref(&self) -> &[u8];
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[u8]) { self.as_slice() }
}
pub broadcast axiom fn ax_array_asref<const N: usize>(v: &[u8; N])
    ensures (#[trigger] AsRef::<[u8]>::asref(v))@ == v@;

impl AsRef<[u8]> for [u8] {
    open spec fn asref(&self) -> &[u8] { self }
    fn as_ref(&self) -> (r: &[u8]) { self }
}

/// model of core::ops::RangeBounds
pub trait RangeBounds<T: ?Sized> {
    spec fn start_spec(&self) -> core::ops::Bound<&T>;
    spec fn end_spec(&self) -> core::ops::Bound<&T>;
    fn start_bound(&self) -> (r: core::ops::Bound<&T>)
        ensures r == self.start_spec();
    fn end_bound(&self) -> (r: core::ops::Bound<&T>)
        ensures r == self.end_spec();
}
pub open spec fn bound_ref<T>(b: &core::ops::Bound<T>) -> core::ops::Bound<&T> {
    match b { core::ops::Bound::Included(x) => core::ops::Bound::Included(x), core::ops::Bound::Excluded(x) => core::ops::Bound::Excluded(x), core::ops::Bound::Unbounded => core::ops::Bound::Unbounded }
}
fn as_bound_ref<T>(b: &core::ops::Bound<T>) -> (r: core::ops::Bound<&T>)
    ensures r == bound_ref(b),
{
    match b { core::ops::Bound::Included(x) => core::ops::Bound::Included(x), core::ops::Bound::Excluded(x) => core::ops::Bound::Excluded(x), core::ops::Bound::Unbounded => core::ops::Bound::Unbounded }
}
impl<T> RangeBounds<T> for (core::ops::Bound<T>, core::ops::Bound<T>) {
    open spec fn start_spec(&self) -> core::ops::Bound<&T> { bound_ref(&self.0) }
    open spec fn end_spec(&self) -> core::ops::Bound<&T> { bound_ref(&self.1) }
    fn start_bound(&self) -> (r: core::ops::Bound<&T>) { as_bound_ref(&self.0) }
    fn end_bound(&self) -> (r: core::ops::Bound<&T>) { as_bound_ref(&self.1) }
}

pub broadcast group asref_views {ax_cow_asref,  ax_vec_asref, ax_array_asref }

// ------------------------------------------------------------------------------ integers
pub open spec fn le_seq(n: nat, k: nat) -> Seq<u8>
    decreases k,
{
    if k == 0 { Seq::empty() } else { seq![(n % 256) as u8] + le_seq(n / 256, (k - 1) as nat) }
}
pub open spec fn be_seq(n: nat, k: nat) -> Seq<u8>
    decreases k,
{
    if k == 0 { Seq::empty() } else { be_seq(n / 256, (k - 1) as nat).push((n % 256) as u8) }
}
pub open spec fn be64(n: nat) -> Seq<u8> { be_seq(n, 8) }
pub open spec fn be32(n: nat) -> Seq<u8> { be_seq(n, 4) }
pub open spec fn le64(n: nat) -> Seq<u8> { le_seq(n, 8) }
pub open spec fn le32(n: nat) -> Seq<u8> { le_seq(n, 4) }

pub broadcast proof fn lemma_be_len(n: nat, k: nat)
    ensures (#[trigger] be_seq(n, k)).len() == k,
    decreases k,
{
    if k > 0 { lemma_be_len(n / 256, (k - 1) as nat); }
}
pub broadcast proof fn lemma_le_len(n: nat, k: nat)
    ensures (#[trigger] le_seq(n, k)).len() == k,
    decreases k,
{
    if k > 0 { lemma_le_len(n / 256, (k - 1) as nat); }
}
pub open spec fn pow256(k: nat) -> nat
    decreases k,
{
    if k == 0 { 1 } else { 256 * pow256((k - 1) as nat) }
}
pub proof fn lemma_be_inj(a: nat, b: nat, k: nat)
    requires be_seq(a, k) == be_seq(b, k), a < pow256(k), b < pow256(k),
    ensures a == b,
    decreases k,
{
    if k > 0 {
        let p = be_seq(a / 256, (k - 1) as nat); let q = be_seq(b / 256, (k - 1) as nat);
        lemma_be_len(a / 256, (k - 1) as nat); lemma_be_len(b / 256, (k - 1) as nat);
        let x = be_seq(a, k); let y = be_seq(b, k);
        assert(x.last() == (a % 256) as u8 && y.last() == (b % 256) as u8);
        assert(x.drop_last() =~= p && y.drop_last() =~= q);
        lemma_be_inj(a / 256, b / 256, (k - 1) as nat);
    }
}
pub proof fn lemma_le_inj(a: nat, b: nat, k: nat)
    requires le_seq(a, k) == le_seq(b, k), a < pow256(k), b < pow256(k),
    ensures a == b,
    decreases k,
{
    if k > 0 {
        let p = le_seq(a / 256, (k - 1) as nat); let q = le_seq(b / 256, (k - 1) as nat);
        let x = le_seq(a, k); let y = le_seq(b, k);
        assert(x[0] == (a % 256) as u8 && y[0] == (b % 256) as u8);
        assert(x.skip(1) =~= p && y.skip(1) =~= q);
        lemma_le_inj(a / 256, b / 256, (k - 1) as nat);
    }
}
pub proof fn lemma_pow256()
    ensures pow256(4) == 0x1_0000_0000, pow256(8) == 0x1_0000_0000_0000_0000,
{
    reveal_with_fuel(pow256, 9);
}

/// inverses, so that equal encodings give equal numbers
pub open spec fn le_val(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { s[0] as nat + 256 * le_val(s.skip(1)) }
}
pub open spec fn be_val(s: Seq<u8>) -> nat
    decreases s.len(),
{
    if s.len() == 0 { 0 } else { 256 * be_val(s.drop_last()) + s.last() as nat }
}
pub proof fn lemma_le_val(n: nat, k: nat)
    requires n < pow256(k),
    ensures le_val(le_seq(n, k)) == n,
    decreases k,
{
    if k > 0 {
        lemma_le_val(n / 256, (k - 1) as nat);
        assert(le_seq(n, k).skip(1) =~= le_seq(n / 256, (k - 1) as nat));
    }
}
pub proof fn lemma_be_val(n: nat, k: nat)
    requires n < pow256(k),
    ensures be_val(be_seq(n, k)) == n,
    decreases k,
{
    if k > 0 {
        lemma_be_val(n / 256, (k - 1) as nat);
        assert(be_seq(n, k).drop_last() =~= be_seq(n / 256, (k - 1) as nat));
    }
}
pub broadcast proof fn b_le_val(n: nat, k: nat)
    ensures (k == 8 && n < 0x1_0000_0000_0000_0000) || (k == 4 && n < 0x1_0000_0000) ==> le_val(#[trigger] le_seq(n, k)) == n,
{
    lemma_pow256();
    if n < pow256(k) { lemma_le_val(n, k); }
}
pub broadcast proof fn b_be_val(n: nat, k: nat)
    ensures (k == 8 && n < 0x1_0000_0000_0000_0000) || (k == 4 && n < 0x1_0000_0000) ==> be_val(#[trigger] be_seq(n, k)) == n,
{
    lemma_pow256();
    if n < pow256(k) { lemma_be_val(n, k); }
}
pub broadcast group int_vals { b_le_val, b_be_val }

/// model of the inherent to_be_bytes / to_le_bytes
pub trait IntBytes: Sized {
    type Bytes;
    spec fn be_spec(self) -> Self::Bytes;
    spec fn le_spec(self) -> Self::Bytes;
    fn be_bytes(self) -> (r: Self::Bytes)
        ensures r == self.be_spec();
    fn le_bytes(self) -> (r: Self::Bytes)
        ensures r == self.le_spec();
}
impl IntBytes for u64 {
    type Bytes = [u8; 8];
    uninterp spec fn be_spec(self) -> [u8; 8];
    uninterp spec fn le_spec(self) -> [u8; 8];
    #[verifier::external_body]
    fn be_bytes(self) -> (r: [u8; 8]) { self.to_be_bytes() }
    #[verifier::external_body]
    fn le_bytes(self) -> (r: [u8; 8]) { self.to_le_bytes() }
}
impl IntBytes for u32 {
    type Bytes = [u8; 4];
    uninterp spec fn be_spec(self) -> [u8; 4];
    uninterp spec fn le_spec(self) -> [u8; 4];
    #[verifier::external_body]
    fn be_bytes(self) -> (r: [u8; 4]) { self.to_be_bytes() }
    #[verifier::external_body]
    fn le_bytes(self) -> (r: [u8; 4]) { self.to_le_bytes() }
}
pub broadcast axiom fn ax_be64(n: u64)
    ensures (#[trigger] n.be_spec())@ == be64(n as nat);
pub broadcast axiom fn ax_be32(n: u32)
    ensures (#[trigger] n.be_spec())@ == be32(n as nat);
pub broadcast axiom fn ax_le64(n: u64)
    ensures (#[trigger] n.le_spec())@ == le64(n as nat);
pub broadcast axiom fn ax_le32(n: u32)
    ensures (#[trigger] n.le_spec())@ == le32(n as nat);
pub broadcast group int_bytes { ax_be64, ax_be32, ax_le64, ax_le32, lemma_be_len, lemma_le_len }

pub open spec fn be64s(o: Seq<u64>) -> Seq<u8>
    decreases o.len(),
{
    if o.len() == 0 { Seq::empty() } else { be64s(o.drop_last()) + be64(o.last() as nat) }
}
pub proof fn lemma_be64s_len(o: Seq<u64>)
    ensures be64s(o).len() == 8 * o.len(),
    decreases o.len(),
{
    if o.len() > 0 { lemma_be64s_len(o.drop_last()); lemma_be_len(o.last() as nat, 8); }
}

/// `buf.extend(offsets.iter().copied().flat_map(u64::to_be_bytes))`
#[verifier::external_body]
pub fn extend_be_u64s(buf: &mut Vec<u8>, offsets: &Vec<u64>)
    ensures final(buf)@ == old(buf)@ + be64s(offsets@),
{
    buf.extend(offsets.iter().copied().flat_map(u64::to_be_bytes))
}

pub assume_specification<T: core::cmp::Ord> [core::cmp::max] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) is Greater { a } else { b });
pub assume_specification<T: core::cmp::Ord> [core::cmp::min] (a: T, b: T) -> (r: T)
    ensures <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() ==> r == (if vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) is Greater { b } else { a });
pub assume_specification<T> [core::mem::drop] (x: T);

pub assume_specification<T: Clone> [<[T]>::to_vec] (s: &[T]) -> (r: Vec<T>)
    ensures r@.len() == s@.len(), forall|i: int| 0 <= i < s@.len() ==> cloned(s@[i], #[trigger] r@[i]);

pub assume_specification<T> [<[T]>::split_last_mut] (s: &mut [T]) -> (r: Option<(&mut T, &mut [T])>)
    ensures
        old(s)@.len() == 0 ==> r is None && final(s)@ == old(s)@,
        old(s)@.len() > 0 ==> r is Some
            && *r.unwrap().0 == old(s)@.last() && (*r.unwrap().1)@ == old(s)@.drop_last()
            && final(s)@ == final(r.unwrap().1)@.push(*final(r.unwrap().0)),
;

// ------------------------------------------------------------------------- read side of std
pub trait Borrow<T: ?Sized> {
    spec fn borrowed(&self) -> &T;
    fn borrow(&self) -> (r: &T)
        ensures r == self.borrowed();
}
impl<T> Borrow<T> for T {
    open spec fn borrowed(&self) -> &T { self }
    fn borrow(&self) -> (r: &T) { self }
}

/// `x.try_into().map(u64::from_be_bytes).unwrap()`
#[verifier::external_body]
pub fn u64_of_be(s: &[u8]) -> (r: u64)
    requires s@.len() == 8,
    ensures be64(r as nat) == s@,
{ unimplemented!() }
#[verifier::external_body]
pub fn u32_of_be(s: &[u8]) -> (r: u32)
    requires s@.len() == 4,
    ensures be32(r as nat) == s@,
{ unimplemented!() }

/// the complete 8-byte chunks, read big-endian
#[verifier::external_body]
pub fn be_u64_chunks(s: &[u8]) -> (r: Vec<u64>)
    ensures s@.len() % 8 == 0 ==> be64s(r@) == s@ && r@.len() * 8 == s@.len(),
{ unimplemented!() }
pub fn extend_u64s(a: &mut Vec<u64>, b: Vec<u64>)
    ensures final(a)@ == old(a)@ + b@,
{
    let mut b = b;
    a.append(&mut b);
}

pub open spec fn okey_lt(a: Option<&[u8]>, b: Option<&[u8]>) -> bool {
    match (a, b) { (None, Some(_)) => true, (Some(x), Some(y)) => super::lex::lex_lt(x@, y@), _ => false }
}
pub open spec fn okey_eq(a: Option<&[u8]>, b: Option<&[u8]>) -> bool {
    match (a, b) { (None, None) => true, (Some(x), Some(y)) => x@ == y@, _ => false }
}
/// `<[u64]>::binary_search_by_key`, on a slice sorted by that key
#[verifier::external_body]
pub fn bsearch_by_key<'k, F: Fn(&u64) -> Option<&'k [u8]>>(s: &[u64], b: &Option<&[u8]>, f: F) -> (r: core::result::Result<usize, usize>)
    requires
        forall|i: int| 0 <= i < s@.len() ==> #[trigger] f.requires((&s@[i],)),
        forall|i: int, j: int, x: Option<&'k [u8]>, y: Option<&'k [u8]>| 0 <= i < j < s@.len() && #[trigger] f.ensures((&s@[i],), x) && #[trigger] f.ensures((&s@[j],), y) ==> !okey_lt(y, x),
    ensures
        match r {
            Ok(i) => i < s@.len() && exists|y: Option<&'k [u8]>| #[trigger] f.ensures((&s@[i as int],), y) && okey_eq(y, *b),
            Err(i) => i <= s@.len()
                && (i > 0 ==> exists|y: Option<&'k [u8]>| #[trigger] f.ensures((&s@[i - 1],), y) && okey_lt(y, *b))
                && (i < s@.len() ==> exists|y: Option<&'k [u8]>| #[trigger] f.ensures((&s@[i as int],), y) && okey_lt(*b, y)),
        },
{ unimplemented!() }

/// `<[u64]>::binary_search`, on a sorted slice
pub open spec fn strictly_up(s: Seq<u64>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] < #[trigger] s[j] }
pub assume_specification<T: core::cmp::Ord> [<[T]>::binary_search] (s: &[T], x: &T) -> (r: core::result::Result<usize, usize>)
    ensures
        <T as vstd::std_specs::cmp::OrdSpec>::obeys_cmp_spec() && (forall|i: int, j: int| 0 <= i < j < s@.len() ==> !(vstd::std_specs::cmp::OrdSpec::cmp_spec(& #[trigger] s@[i], & #[trigger] s@[j]) is Greater)) ==> match r {
            Ok(i) => i < s@.len() && vstd::std_specs::cmp::OrdSpec::cmp_spec(&s@[i as int], x) is Equal,
            Err(i) => i <= s@.len()
                && (forall|j: int| 0 <= j < i ==> vstd::std_specs::cmp::OrdSpec::cmp_spec(& #[trigger] s@[j], x) is Less)
                && (forall|j: int| i <= j < s@.len() ==> vstd::std_specs::cmp::OrdSpec::cmp_spec(& #[trigger] s@[j], x) is Greater),
        },
;

/// `mem::transmute` of a slice reference to a longer lifetime: the same bytes
#[verifier::external_body]
pub unsafe fn rt_transmute<'a>(k: &'a [u8]) -> (r: &'static [u8])
    ensures r@ == k@,
{ unimplemented!() }

} // mod rt
