// ---------------------------------------------------------------------------------------------
// Allocation, raw slices, bytemuck and slice sorting, as used by the sorter
// ---------------------------------------------------------------------------------------------
pub mod mem {
use super::*;
use vstd::std_specs::cmp::OrdSpec;
use super::srt::is_perm;
use super::io::{self, Stream, Write, Read, Seek, SeekFrom};

// --------------------------------------------------------------------------- allocation
#[verifier::external_body]
#[derive(Debug)]
pub struct LayoutError { x: () }
pub struct Layout { pub size: usize, pub align: usize }
pub open spec fn pow2(n: usize) -> bool { n == 1 || n == 2 || n == 4 || n == 8 || n == 16 || n == 32 || n == 64 }
impl Layout {
    #[verifier::external_body]
    pub fn from_size_align(size: usize, align: usize) -> (r: LayoutResult)
        ensures match r {
            LayoutResult::Ok(l) => l.size == size && l.align == align,
            LayoutResult::Err(_) => !pow2(align) || size > isize::MAX - (align - 1),
        },
        opens_invariants none
        no_unwind
    { unimplemented!() }
}
/// Result<Layout, LayoutError>, with an `unwrap` that may be used where nothing may unwind
pub enum LayoutResult { Ok(Layout), Err(LayoutError) }
impl LayoutResult {
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: Layout)
        requires self is Ok,
        ensures r == self->Ok_0,
        opens_invariants none
        no_unwind
    { unimplemented!() }
    #[verifier::external_body]
    pub fn expect(self, m: &str) -> (r: Layout)
        requires self is Ok,
        ensures r == self->Ok_0,
        opens_invariants none
        no_unwind
    { unimplemented!() }
}
/// size and alignment of the allocation a pointer was returned for
pub uninterp spec fn asize(p: *mut u8) -> nat;
pub uninterp spec fn aalign(p: *mut u8) -> nat;
/// the slice starts at a multiple of `n`
pub uninterp spec fn based(s: &[u8], n: nat) -> bool;
/// what an allocation holds at first
pub uninterp spec fn raw(p: *mut u8) -> Seq<u8>;
/// the allocation of the pointer was given back
pub uninterp spec fn freed(p: *mut u8) -> bool;
/// std::alloc::alloc, assumed not to fail; no allocation reaches 2^47 bytes
#[verifier::external_body]
pub unsafe fn alloc(l: Layout) -> (r: *mut u8)
    requires l.size > 0,
    ensures asize(r) == l.size, aalign(r) == l.align, raw(r).len() == l.size, r@.addr != 0, l.size < 0x8000_0000_0000,
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn dealloc(p: *mut u8, l: Layout)
    requires asize(p) == l.size, aalign(p) == l.align,
    ensures freed(p),
    opens_invariants none
    no_unwind
{ unimplemented!() }

pub struct NonNull<T> { pub p: *mut T }
impl<T> NonNull<T> {
    #[verifier::external_body]
    pub fn new(p: *mut T) -> (r: Option<NonNull<T>>)
        ensures r is Some <==> p@.addr != 0, r is Some ==> r->Some_0.p == p,
    { unimplemented!() }
    pub fn as_ptr(self) -> (r: *mut T)
        ensures r == self.p,
        opens_invariants none
        no_unwind
    { self.p }
}
impl<T> Clone for NonNull<T> { fn clone(&self) -> (r: Self) ensures r == *self { NonNull { p: self.p } } }
impl<T> Copy for NonNull<T> {}

/// slices made of a pointer: of a whole live allocation, whose content is the ghost value
pub mod slice {
use super::*;
#[verifier::external_body]
pub unsafe fn from_raw_parts<'a>(p: *mut u8, n: usize, g: &'a Ghost<Seq<u8>>) -> (r: &'a [u8])
    requires n <= asize(p), g@.len() == n,
    ensures r@ == g@, based(r, aalign(p)),
{ unimplemented!() }
#[verifier::external_body]
pub unsafe fn from_raw_parts_mut<'a>(p: *mut u8, n: usize, g: &'a mut Ghost<Seq<u8>>) -> (r: &'a mut [u8])
    requires n <= asize(p), old(g)@.len() == n,
    ensures r@ == old(g)@, final(g)@ == final(r)@, final(g)@.len() == old(g)@.len(),
    no_unwind
{ unimplemented!() }
}

// ----------------------------------------------------------------------------- bytemuck
/// the value a bit pattern stands for
pub uninterp spec fn dec<T>(s: Seq<u8>) -> T;
pub open spec fn decs<T>(s: Seq<u8>) -> Seq<T> {
    Seq::new(s.len() / (size_of::<T>() as nat), |i: int| dec::<T>(s.subrange(i * (size_of::<T>() as int), i * (size_of::<T>() as int) + size_of::<T>() as int)))
}
/// only bytes are cast
pub trait Byte: Sized { spec fn bs(s: Seq<Self>) -> Seq<u8>; }
impl Byte for u8 { open spec fn bs(s: Seq<u8>) -> Seq<u8> { s } }
#[verifier::external_body]
pub fn cast_slice<'a, A: Byte, T>(s: &'a [A]) -> (r: &'a [T])
    requires size_of::<T>() > 0, s@.len() % (size_of::<T>() as nat) == 0,
    ensures r@ == decs::<T>(A::bs(s@)),
{ unimplemented!() }
#[verifier::external_body]
pub fn cast_slice_mut<'a, A: Byte, T>(s: &'a mut [A]) -> (r: &'a mut [T])
    requires size_of::<T>() > 0, old(s)@.len() % (size_of::<T>() as nat) == 0,
    ensures r@ == decs::<T>(A::bs(old(s)@)), final(s)@.len() == old(s)@.len(), final(r)@.len() == r@.len() ==> decs::<T>(A::bs(final(s)@)) == final(r)@,
{ unimplemented!() }

pub assume_specification<T, U> [<[T]>::align_to::<U>] (s: &[T]) -> (r: (&[T], &[U], &[T]))
    ensures
        size_of::<U>() > 0 ==> r.1@.len() * size_of::<U>() <= s@.len() * size_of::<T>(),
        aligned_whole::<T, U>(s) ==> r.1@.len() == s@.len() / size_of::<U>() as nat;
/// the slice starts at an address aligned for `U`
pub uninterp spec fn aligned_whole<T, U>(s: &[T]) -> bool;
pub broadcast axiom fn ax_aligned<U>(s: &[u8])
    ensures based(s, vstd::layout::align_of::<U>()) ==> #[trigger] aligned_whole::<u8, U>(s);

// ------------------------------------------------------------------------------- sorting
/// `b` is `a` sorted by the keys `ks`, by the permutation `p` with inverse `q`
pub open spec fn sorted_keys<T, K: core::cmp::Ord>(a: Seq<T>, b: Seq<T>, stable: bool, p: Seq<int>, q: Seq<int>, ks: Seq<K>) -> bool {
    &&& is_perm(p, q, a.len())
    &&& b.len() == a.len() && ks.len() == a.len()
    &&& forall|i: int| 0 <= i < a.len() ==> #[trigger] b[i] == a[p[i]]
    &&& forall|i: int, j: int| 0 <= i < j < a.len() ==> !(OrdSpec::cmp_spec(& #[trigger] ks[i], & #[trigger] ks[j]) is Greater) && (stable && OrdSpec::cmp_spec(&ks[i], &ks[j]) is Equal ==> p[i] < p[j])
}
/// `b` is `a` sorted by the keys that `f` gives
pub open spec fn sorts<T, K: core::cmp::Ord, F: FnMut(&T) -> K>(f: F, a: Seq<T>, b: Seq<T>, stable: bool) -> bool {
    exists|p: Seq<int>, q: Seq<int>, ks: Seq<K>| #[trigger] sorted_keys(a, b, stable, p, q, ks) && forall|i: int| 0 <= i < a.len() ==> f.ensures((&b[i],), #[trigger] ks[i])
}
/// the key function may be applied to every element, and gives one key for each
pub open spec fn keyed<T, K: core::cmp::Ord, F: FnMut(&T) -> K>(f: F, a: Seq<T>) -> bool {
    &&& <K as OrdSpec>::obeys_cmp_spec()
    &&& forall|i: int| 0 <= i < a.len() ==> f.requires((& #[trigger] a[i],))
    &&& forall|i: int, x: K, y: K| 0 <= i < a.len() && #[trigger] f.ensures((&a[i],), x) && #[trigger] f.ensures((&a[i],), y) ==> OrdSpec::cmp_spec(&x, &y) is Equal
}
pub assume_specification<T, K: core::cmp::Ord, F: FnMut(&T) -> K> [<[T]>::sort_by_key] (s: &mut [T], f: F)
    requires keyed(f, old(s)@),
    ensures sorts(f, old(s)@, final(s)@, true);
pub assume_specification<T, K: core::cmp::Ord, F: FnMut(&T) -> K> [<[T]>::sort_unstable_by_key] (s: &mut [T], f: F)
    requires keyed(f, old(s)@),
    ensures sorts(f, old(s)@, final(s)@, false);
/// rayon::slice::ParallelSliceMut
pub trait ParallelSliceMut<T> {
    spec fn pview(&self) -> Seq<T>;
    fn par_sort_by_key<K: core::cmp::Ord, F: FnMut(&T) -> K>(&mut self, f: F)
        requires keyed(f, old(self).pview()),
        ensures sorts(f, old(self).pview(), final(self).pview(), true);
    fn par_sort_unstable_by_key<K: core::cmp::Ord, F: FnMut(&T) -> K>(&mut self, f: F)
        requires keyed(f, old(self).pview()),
        ensures sorts(f, old(self).pview(), final(self).pview(), false);
}
impl<T> ParallelSliceMut<T> for [T] {
    open spec fn pview(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn par_sort_by_key<K: core::cmp::Ord, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn par_sort_unstable_by_key<K: core::cmp::Ord, F: FnMut(&T) -> K>(&mut self, f: F) { unimplemented!() }
}

// --------------------------------------------------------------------- chunks and conversions
/// core::convert::Into
pub trait Into<T>: Sized {
    spec fn maps(self, t: T) -> bool;
    fn into(self) -> (r: T)
        ensures self.maps(r);
}
/// std::fs::File, used as a fresh chunk
#[verifier::external_body]
pub struct File { x: () }
/// std::io::Cursor
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Cursor<T> { x: T }
impl Cursor<Vec<u8>> {
    #[verifier::external_body]
    pub fn new(v: Vec<u8>) -> (r: Self)
        ensures r.sinv(), r.data() == v@,
    { unimplemented!() }
}
pub mod tempfile {
use super::*;
#[verifier::external_body]
pub fn tempfile() -> (r: io::Result<File>)
    ensures match r { Ok(f) => f.sinv() && f.data().len() == 0, Err(e) => io::is_fault(e) },
{ unimplemented!() }
}
impl Stream for File {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> nat;
    uninterp spec fn faults(&self) -> nat;
    uninterp spec fn seeks(&self) -> nat;
    uninterp spec fn rbytes(&self) -> nat;
    uninterp spec fn loads(&self) -> nat;
    uninterp spec fn base(&self) -> int;
    uninterp spec fn sinv(&self) -> bool;
}
impl Write for File {
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
impl Read for File {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
impl Seek for File {
    #[verifier::external_body]
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) { unimplemented!() }
}
impl Stream for Cursor<Vec<u8>> {
    uninterp spec fn data(&self) -> Seq<u8>;
    uninterp spec fn pos(&self) -> nat;
    uninterp spec fn faults(&self) -> nat;
    uninterp spec fn seeks(&self) -> nat;
    uninterp spec fn rbytes(&self) -> nat;
    uninterp spec fn loads(&self) -> nat;
    uninterp spec fn base(&self) -> int;
    uninterp spec fn sinv(&self) -> bool;
}
impl Write for Cursor<Vec<u8>> {
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
}
impl Read for Cursor<Vec<u8>> {
    #[verifier::external_body]
    fn read(&mut self, buf: &mut [u8]) -> (r: io::Result<usize>) { unimplemented!() }
}
impl Seek for Cursor<Vec<u8>> {
    #[verifier::external_body]
    fn seek(&mut self, p: SeekFrom) -> (r: io::Result<u64>) { unimplemented!() }
}
} // mod mem
