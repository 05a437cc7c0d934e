// ---------------------------------------------------------------------------------------------
// Model of std::io and byteorder: contracts of user-supplied sinks and sources (trusted: they are
// assumptions about the implementations passed in, not about grenad).
// ---------------------------------------------------------------------------------------------
pub mod io {
use super::*;
use super::rt::*;

#[verifier::external_body]
pub struct Error { inner: () }
pub type Result<T> = core::result::Result<T, Error>;

/// the error value carries a failure reported by a user-supplied component
pub uninterp spec fn is_fault(e: Error) -> bool;
/// ErrorKind::Interrupted
pub uninterp spec fn is_interrupted(e: Error) -> bool;

#[verifier::external_body]
pub fn interrupted(e: &Error) -> (r: bool)
    ensures r == is_interrupted(*e),
{ unimplemented!() }

#[verifier::external_body]
pub fn write_zero() -> (e: Error)
{ unimplemented!() }

/// ghost state of a sink or source
pub trait Stream {
    /// the bytes handed to the sink so far / the content of the source
    spec fn data(&self) -> Seq<u8>;
    /// read position
    spec fn pos(&self) -> nat;
    /// number of failures reported so far
    spec fn faults(&self) -> nat;
    /// number of seeks so far
    spec fn seeks(&self) -> nat;
    /// number of bytes read so far
    spec fn rbytes(&self) -> nat;
    /// number of blocks loaded and decompressed so far
    spec fn loads(&self) -> nat;
    /// a value that writes leave unchanged (used by the counting wrapper)
    spec fn base(&self) -> int;
    spec fn sinv(&self) -> bool;
}

/// nothing but the written bytes changed
pub open spec fn wrote<W: Stream + ?Sized>(a: &W, b: &W, bytes: Seq<u8>) -> bool {
    &&& b.data() =~= a.data() + bytes
    &&& b.faults() == a.faults()
    &&& b.base() == a.base()
    &&& b.data().len() < 0x7fff_ffff_ffff_ffff
    &&& b.sinv()
}
/// the call failed because the sink failed
pub open spec fn wfailed<W: Stream + ?Sized>(a: &W, b: &W, e: Error) -> bool {
    &&& is_fault(e)
    &&& b.faults() > a.faults()
    &&& b.base() == a.base()
    &&& b.sinv()
}

/// ... before anything was accepted
pub open spec fn wfailed0<W: Stream + ?Sized>(a: &W, b: &W, e: Error) -> bool {
    wfailed(a, b, e) && b.data() == a.data()
}

pub trait Write: Stream + Sized {
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>)
        requires old(self).sinv(),
        ensures match r {
            Ok(n) => n <= buf@.len() && wrote(old(self), final(self), buf@.take(n as int)),
            Err(e) => if is_interrupted(e) { wrote(old(self), final(self), Seq::empty()) } else { wfailed0(old(self), final(self), e) },
        };
    fn flush(&mut self) -> (r: Result<()>)
        requires old(self).sinv(),
        ensures match r {
            Ok(_) => wrote(old(self), final(self), Seq::empty()),
            Err(e) => wfailed0(old(self), final(self), e),
        };
    /// std: retries partial writes and interruptions; a sink that accepts nothing has failed
    #[verifier::external_body]
    fn write_all(&mut self, buf: &[u8]) -> (r: Result<()>)
        requires old(self).sinv(),
        ensures match r {
            Ok(_) => wrote(old(self), final(self), buf@),
            Err(e) => wfailed(old(self), final(self), e),
        },
    { unimplemented!() }
}

pub trait ByteOrder {
    spec fn enc(n: nat, k: nat) -> Seq<u8>;
}
pub struct BigEndian;
pub struct LittleEndian;
impl ByteOrder for BigEndian { open spec fn enc(n: nat, k: nat) -> Seq<u8> { be_seq(n, k) } }
impl ByteOrder for LittleEndian { open spec fn enc(n: nat, k: nat) -> Seq<u8> { le_seq(n, k) } }

pub trait WriteBytesExt: Write {
    #[verifier::external_body]
    fn write_u64<T: ByteOrder>(&mut self, n: u64) -> (r: Result<()>)
        requires old(self).sinv(),
        ensures match r { Ok(_) => wrote(old(self), final(self), T::enc(n as nat, 8)), Err(e) => wfailed(old(self), final(self), e) },
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u32<T: ByteOrder>(&mut self, n: u32) -> (r: Result<()>)
        requires old(self).sinv(),
        ensures match r { Ok(_) => wrote(old(self), final(self), T::enc(n as nat, 4)), Err(e) => wfailed(old(self), final(self), e) },
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u16<T: ByteOrder>(&mut self, n: u16) -> (r: Result<()>)
        requires old(self).sinv(),
        ensures match r { Ok(_) => wrote(old(self), final(self), T::enc(n as nat, 2)), Err(e) => wfailed(old(self), final(self), e) },
    { unimplemented!() }
    #[verifier::external_body]
    fn write_u8(&mut self, n: u8) -> (r: Result<()>)
        requires old(self).sinv(),
        ensures match r { Ok(_) => wrote(old(self), final(self), seq![n]), Err(e) => wfailed(old(self), final(self), e) },
    { unimplemented!() }
}
impl<W: Write> WriteBytesExt for W {}

impl Stream for Vec<u8> {
    open spec fn data(&self) -> Seq<u8> { self@ }
    open spec fn pos(&self) -> nat { 0 }
    open spec fn faults(&self) -> nat { 0 }
    open spec fn seeks(&self) -> nat { 0 }
    open spec fn rbytes(&self) -> nat { 0 }
    open spec fn loads(&self) -> nat { 0 }
    open spec fn base(&self) -> int { 0 }
    open spec fn sinv(&self) -> bool { true }
}
impl Write for Vec<u8> {
    #[verifier::external_body]
    fn write(&mut self, buf: &[u8]) -> (r: Result<usize>) { unimplemented!() }
    #[verifier::external_body]
    fn flush(&mut self) -> (r: Result<()>) { unimplemented!() }
}

// ------------------------------------------------------------------------------- sources
/// nothing but the position (and the counters) changed
pub open spec fn same_source<R: Stream + ?Sized>(a: &R, b: &R) -> bool {
    b.data() == a.data() && b.sinv() && b.base() == a.base() && b.rbytes() >= a.rbytes() && b.seeks() >= a.seeks() && b.loads() >= a.loads()
}
/// an error of a read: either the source failed or the data ends before the requested bytes
pub open spec fn rfailed<R: Stream + ?Sized>(a: &R, b: &R, e: Error, n: nat) -> bool {
    &&& same_source(a, b)
    &&& b.seeks() == a.seeks()
    &&& b.loads() == a.loads()
    &&& b.rbytes() <= a.rbytes() + n
    &&& ((is_fault(e) && b.faults() > a.faults()) || (!is_fault(e) && b.faults() == a.faults() && a.pos() + n > a.data().len()))
}
pub open spec fn readn<R: Stream + ?Sized>(a: &R, b: &R, bytes: Seq<u8>) -> bool {
    &&& same_source(a, b)
    &&& b.seeks() == a.seeks()
    &&& b.loads() == a.loads()
    &&& b.faults() == a.faults()
    &&& b.rbytes() == a.rbytes() + bytes.len()
    &&& a.pos() + bytes.len() <= a.data().len()
    &&& b.pos() == a.pos() + bytes.len()
    &&& bytes == a.data().subrange(a.pos() as int, (a.pos() + bytes.len()) as int)
}

pub trait Read: Stream + Sized {
    /// any number of bytes, possibly fewer than requested, possibly an interruption
    fn read(&mut self, buf: &mut [u8]) -> (r: Result<usize>)
        requires old(self).sinv(),
        ensures final(buf)@.len() == old(buf)@.len(), match r {
            Ok(n) => n <= old(buf)@.len() && readn(old(self), final(self), final(buf)@.take(n as int)),
            Err(e) => same_source(old(self), final(self)) && final(self).seeks() == old(self).seeks() && final(self).loads() == old(self).loads()
                && (if is_interrupted(e) { final(self).faults() == old(self).faults() && final(self).pos() == old(self).pos() } else { is_fault(e) && final(self).faults() > old(self).faults() }),
        };
    fn take(&mut self, limit: u64) -> (t: Take<'_, Self>)
        ensures *t.inner == *old(self), *final(t.inner) == *final(self), t.limit == limit,
    { Take { inner: self, limit } }
    /// std: retries short reads and interruptions
    #[verifier::external_body]
    fn read_exact(&mut self, buf: &mut [u8]) -> (r: Result<()>)
        requires old(self).sinv(),
        ensures final(buf)@.len() == old(buf)@.len(), match r {
            Ok(_) => readn(old(self), final(self), final(buf)@),
            Err(e) => rfailed(old(self), final(self), e, old(buf)@.len()),
        },
    { unimplemented!() }
}

pub enum SeekFrom { Start(u64), End(i64), Current(i64) }

pub open spec fn seek_target<R: Stream + ?Sized>(s: &R, p: SeekFrom) -> int {
    match p { SeekFrom::Start(n) => n as int, SeekFrom::End(d) => s.data().len() + d, SeekFrom::Current(d) => s.pos() + d }
}

pub trait Seek: Stream + Sized {
    fn seek(&mut self, p: SeekFrom) -> (r: Result<u64>)
        requires old(self).sinv(),
        ensures same_source(old(self), final(self)), final(self).seeks() == old(self).seeks() + 1, final(self).rbytes() == old(self).rbytes(), final(self).loads() == old(self).loads(), match r {
            Ok(n) => seek_target(old(self), p) >= 0 && final(self).pos() == seek_target(old(self), p) && n == final(self).pos() && final(self).faults() == old(self).faults(),
            Err(e) => (is_fault(e) && final(self).faults() > old(self).faults()) || (!is_fault(e) && final(self).faults() == old(self).faults() && seek_target(old(self), p) < 0),
        };
}

pub trait ReadBytesExt: Read {
    #[verifier::external_body]
    fn read_u64<T: ByteOrder>(&mut self) -> (r: Result<u64>)
        requires old(self).sinv(),
        ensures match r { Ok(n) => readn(old(self), final(self), T::enc(n as nat, 8)), Err(e) => rfailed(old(self), final(self), e, 8) },
    { unimplemented!() }
    #[verifier::external_body]
    fn read_u32<T: ByteOrder>(&mut self) -> (r: Result<u32>)
        requires old(self).sinv(),
        ensures match r { Ok(n) => readn(old(self), final(self), T::enc(n as nat, 4)), Err(e) => rfailed(old(self), final(self), e, 4) },
    { unimplemented!() }
    #[verifier::external_body]
    fn read_u16<T: ByteOrder>(&mut self) -> (r: Result<u16>)
        requires old(self).sinv(),
        ensures match r { Ok(n) => readn(old(self), final(self), T::enc(n as nat, 2)), Err(e) => rfailed(old(self), final(self), e, 2) },
    { unimplemented!() }
    #[verifier::external_body]
    fn read_u8(&mut self) -> (r: Result<u8>)
        requires old(self).sinv(),
        ensures match r { Ok(n) => readn(old(self), final(self), seq![n]) && n == old(self).data()[old(self).pos() as int], Err(e) => rfailed(old(self), final(self), e, 1) },
    { unimplemented!() }
}
impl<R: Read> ReadBytesExt for R {}

// ------------------------------------------------------------------------- limited sources
/// std::io::Take over a borrowed source
pub struct Take<'a, R: Stream> { pub inner: &'a mut R, pub limit: u64 }

/// what a decoder reads to its end
pub trait Src: Sized {
    /// the bytes that are still to be served
    spec fn bytes(self) -> Seq<u8>;
    spec fn ready(self) -> bool;
    /// its reads neither fail nor are interrupted
    spec fn reliable(self) -> bool;
    /// the state of the source after some of these bytes were read (`ok`: no read failed)
    #[verifier::prophetic]
    spec fn spent(self, ok: bool) -> bool;
}
/// at most `n` bytes were read, by calls of `read` only
pub open spec fn drained<R: Stream>(a: &R, b: &R, n: nat, ok: bool) -> bool {
    &&& same_source(a, b)
    &&& b.seeks() == a.seeks()
    &&& b.loads() == a.loads() + 1
    &&& b.rbytes() <= a.rbytes() + n
    &&& if ok { b.faults() == a.faults() } else { b.faults() > a.faults() }
}
impl<'a, R: Read> Src for Take<'a, R> {
    open spec fn bytes(self) -> Seq<u8> {
        let d = (*self.inner).data(); let p = (*self.inner).pos() as int;
        d.subrange(p, if p + self.limit <= d.len() { p + self.limit } else { d.len() as int })
    }
    open spec fn ready(self) -> bool { (*self.inner).sinv() && (*self.inner).pos() <= (*self.inner).data().len() }
    open spec fn reliable(self) -> bool { false }
    #[verifier::prophetic]
    open spec fn spent(self, ok: bool) -> bool { drained(&*self.inner, &*final(self.inner), self.limit as nat, ok) }
}
impl<'b, 'a, R: Read> Src for &'b mut Take<'a, R> {
    open spec fn bytes(self) -> Seq<u8> { (*self).bytes() }
    open spec fn ready(self) -> bool { (*self).ready() }
    open spec fn reliable(self) -> bool { false }
    #[verifier::prophetic]
    open spec fn spent(self, ok: bool) -> bool {
        drained(&*self.inner, &*(*final(self)).inner, self.limit as nat, ok) && *final((*final(self)).inner) == *final((*self).inner)
    }
}
impl<'a> Src for &'a [u8] {
    open spec fn bytes(self) -> Seq<u8> { self@ }
    open spec fn ready(self) -> bool { true }
    open spec fn reliable(self) -> bool { true }
    open spec fn spent(self, ok: bool) -> bool { ok }
}
impl<'a, R: Read> Take<'a, R> {
    /// std: retries interruptions
    #[verifier::external_body]
    pub fn read_to_end(&mut self, out: &mut Vec<u8>) -> (r: Result<usize>)
        requires old(self).ready(),
        ensures
            *final(final(self).inner) == *final(old(self).inner),
            drained(&*old(self).inner, &*final(self).inner, old(self).limit as nat, r is Ok),
            match r { Ok(_) => final(out)@ == old(out)@ + old(self).bytes(), Err(e) => is_fault(e) },
    { unimplemented!() }
}
/// std: everything is copied, with `write_all`
#[verifier::external_body]
pub fn copy<W: Write>(r: &mut &[u8], w: &mut W) -> (n: Result<u64>)
    requires old(w).sinv(),
    ensures match n { Ok(_) => wrote(old(w), final(w), old(r)@), Err(e) => wfailed(old(w), final(w), e) },
{ unimplemented!() }

#[verifier::external_body]
pub struct ErrorKind { inner: () }
impl Error {
    #[verifier::external_body]
    pub fn kind(&self) -> ErrorKind { unimplemented!() }
}
impl ErrorKind {
    #[verifier::external_body]
    pub fn into(self) -> Error { unimplemented!() }
}

} // mod io
