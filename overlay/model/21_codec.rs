// needs: compression
// ---------------------------------------------------------------------------------------------
// The codec crates (trusted): what an encoder makes of the bytes it is fed, and what a decoder recovers. Encoders that
// write into memory do not fail; decoders of valid data fail only if their source does.
// ---------------------------------------------------------------------------------------------
pub mod codec {
use super::*;
use crate::rt::*;
pub uninterp spec fn zlib_c(level: u32, d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn zlib_d(d: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn zstd_c(level: i32, d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn zstd_d(d: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn lz4_c(d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lz4_d(d: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn snap_c(d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn snap_d(d: Seq<u8>) -> Option<Seq<u8>>;
pub uninterp spec fn snapraw_c(d: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn snapraw_d(d: Seq<u8>) -> Option<Seq<u8>>;
/// assumption: the codecs are lossless
pub axiom fn ax_codecs(d: Seq<u8>)
    requires d.len() < 0x8000_0000_0000,
    ensures
        forall|l: u32| l <= 9 ==> zlib_d(#[trigger] zlib_c(l, d)) == Some(d) && zlib_c(l, d).len() < 0x8000_0000_0000,
        forall|l: i32| zstd_d(#[trigger] zstd_c(l, d)) == Some(d) && zstd_c(l, d).len() < 0x8000_0000_0000,
        lz4_d(lz4_c(d)) == Some(d), lz4_c(d).len() < 0x8000_0000_0000,
        snap_d(snap_c(d)) == Some(d), snap_c(d).len() < 0x8000_0000_0000,
        snapraw_d(snapraw_c(d)) == Some(d), snapraw_c(d).len() < 0x8000_0000_0000;

/// std::borrow::Cow<[u8]>
pub enum Cow<'a, B: ?Sized> { Borrowed(&'a B), Owned(Vec<u8>) }
impl<'a> View for Cow<'a, [u8]> {
    type V = Seq<u8>;
    open spec fn view(&self) -> Seq<u8> { match self { Cow::Borrowed(b) => b@, Cow::Owned(v) => v@ } }
}
impl<'a> Cow<'a, [u8]> {
    pub fn len(&self) -> (n: usize) ensures n == self@.len() { match self { Cow::Borrowed(b) => b.len(), Cow::Owned(v) => v.len() } }
}
impl<'a> core::ops::Deref for Cow<'a, [u8]> {
    type Target = [u8];
    fn deref(&self) -> (r: &[u8]) ensures r@ == self@ { match self { Cow::Borrowed(b) => b, Cow::Owned(v) => v.as_slice() } }
}
/// the conversions of the errors of the codecs into `io::Error`
pub trait Into<T>: Sized { fn into(self) -> T; }
} // mod codec

pub mod flate2 {
    use super::*;
    /// the levels up to `best()` are supported by all backends
    pub struct Compression { pub l: u32 }
    impl Compression {
        pub fn new(level: u32) -> (c: Compression) requires level <= 9 ensures c.l == level { Compression { l: level } }
        pub fn best() -> (c: Compression) ensures c.l == 9 { Compression { l: 9 } }
        pub fn level(&self) -> (l: u32) ensures l == self.l { self.l }
    }
    pub mod read {
        use super::super::*; use crate::io; use crate::io::*; use crate::rt::*; use crate::codec::*;
        pub struct ZlibDecoder<S> { pub inner: S }
        impl<S: Src> ZlibDecoder<S> {
            pub fn new(inner: S) -> (d: Self) ensures d.inner == inner { ZlibDecoder { inner } }
            #[verifier::external_body]
            pub fn read_to_end(self, out: &mut Vec<u8>) -> (r: io::Result<usize>)
                requires self.inner.ready(), zlib_d(self.inner.bytes()) is Some, 
                ensures
                    self.inner.spent(r is Ok),
                    match r { Ok(_) => final(out)@ == old(out)@ + zlib_d(self.inner.bytes())->Some_0, Err(e) => is_fault(e) },
            { unimplemented!() }
        }
    }
    pub mod write {
        use super::super::*; use crate::io; use crate::io::*; use crate::rt::*; use crate::codec::*;
        pub struct ZlibEncoder<W> { pub w: W, pub fed: Ghost<Seq<u8>>, pub level: u32 }
        impl Stream for ZlibEncoder<Vec<u8>> {
            open spec fn data(&self) -> Seq<u8> { self.fed@ }
            open spec fn pos(&self) -> nat { 0 }
            open spec fn faults(&self) -> nat { 0 }
            open spec fn seeks(&self) -> nat { 0 }
            open spec fn rbytes(&self) -> nat { 0 }
            open spec fn loads(&self) -> nat { 0 }
            open spec fn base(&self) -> int { self.level as int }
            open spec fn sinv(&self) -> bool { self.w@.len() == 0 }
        }
        impl Write for ZlibEncoder<Vec<u8>> {
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
        }
        impl ZlibEncoder<Vec<u8>> {
            pub fn new(w: Vec<u8>, c: crate::flate2::Compression) -> (e: Self) ensures e.w == w, e.level == c.l, e.fed@ == Seq::<u8>::empty()
            { ZlibEncoder { w, fed: Ghost(Seq::empty()), level: c.l } }
            #[verifier::external_body]
            pub fn finish(self) -> (r: io::Result<Vec<u8>>)
                requires self.sinv(),
                ensures r is Ok, r->Ok_0@ == zlib_c(self.level, self.data()),
            { unimplemented!() }
        }
    }
}

pub mod zstd {
    pub mod stream {
        use super::super::*; use crate::io; use crate::io::*; use crate::rt::*; use crate::codec::*;
        #[verifier::external_body]
        pub fn copy_decode<S: Src>(source: S, out: &mut Vec<u8>) -> (r: io::Result<()>)
            requires source.ready(), zstd_d(source.bytes()) is Some,
            ensures
                source.spent(r is Ok),
                match r { Ok(_) => final(out)@ == old(out)@ + zstd_d(source.bytes())->Some_0, Err(e) => is_fault(e) },
        { unimplemented!() }
        #[verifier::external_body]
        pub fn copy_encode(source: &[u8], out: &mut Vec<u8>, level: i32) -> (r: io::Result<()>)
            ensures r is Ok, final(out)@ == old(out)@ + zstd_c(level, source@),
        { unimplemented!() }
    }
}

pub mod lz4_flex {
    pub mod frame {
        use super::super::*; use crate::io; use crate::io::*; use crate::rt::*; use crate::codec::*;
        // the decoder loses track of the frame when a read is interrupted or fails
        pub struct FrameDecoder<S> { pub inner: S }
        impl<S: Src> FrameDecoder<S> {
            pub fn new(inner: S) -> (d: Self) ensures d.inner == inner { FrameDecoder { inner } }
            #[verifier::external_body]
            pub fn read_to_end(self, out: &mut Vec<u8>) -> (r: io::Result<usize>)
                requires self.inner.ready(), lz4_d(self.inner.bytes()) is Some, self.inner.reliable(),
                ensures
                    self.inner.spent(r is Ok),
                    match r { Ok(_) => final(out)@ == old(out)@ + lz4_d(self.inner.bytes())->Some_0, Err(e) => is_fault(e) },
            { unimplemented!() }
        }
        pub struct FrameEncoder<W> { pub w: W, pub fed: Ghost<Seq<u8>> }
        impl Stream for FrameEncoder<Vec<u8>> {
            open spec fn data(&self) -> Seq<u8> { self.fed@ }
            open spec fn pos(&self) -> nat { 0 }
            open spec fn faults(&self) -> nat { 0 }
            open spec fn seeks(&self) -> nat { 0 }
            open spec fn rbytes(&self) -> nat { 0 }
            open spec fn loads(&self) -> nat { 0 }
            open spec fn base(&self) -> int { 0 }
            open spec fn sinv(&self) -> bool { self.w@.len() == 0 }
        }
        impl Write for FrameEncoder<Vec<u8>> {
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
        }
        #[verifier::external_body]
        pub struct Error { inner: () }
        impl crate::codec::Into<io::Error> for Error { #[verifier::external_body] fn into(self) -> io::Error { unimplemented!() } }
        impl FrameEncoder<Vec<u8>> {
            pub fn new(w: Vec<u8>) -> (e: Self) ensures e.w == w, e.fed@ == Seq::<u8>::empty() { FrameEncoder { w, fed: Ghost(Seq::empty()) } }
            #[verifier::external_body]
            pub fn finish(self) -> (r: core::result::Result<Vec<u8>, Error>)
                requires self.sinv(),
                ensures r is Ok, r->Ok_0@ == lz4_c(self.data()),
            { unimplemented!() }
        }
    }
}

pub mod snap {
    use super::*;
    #[verifier::external_body]
    pub struct Error { inner: () }
    impl crate::codec::Into<io::Error> for Error { #[verifier::external_body] fn into(self) -> io::Error { unimplemented!() } }
    impl core::convert::From<Error> for io::Error { #[verifier::external_body] fn from(e: Error) -> io::Error { unimplemented!() } }
    pub mod raw {
        use super::super::*; use crate::io; use crate::io::*; use crate::rt::*; use crate::codec::*;
        #[verifier::external_body]
        pub fn decompress_len(input: &[u8]) -> (r: core::result::Result<usize, crate::snap::Error>)
            ensures snapraw_d(input@) is Some ==> r is Ok && r->Ok_0 == snapraw_d(input@)->Some_0.len(),
        { unimplemented!() }
        pub struct Decoder { }
        impl Decoder {
            pub fn new() -> Decoder { Decoder { } }
            #[verifier::external_body]
            pub fn decompress(&mut self, input: &[u8], output: &mut [u8]) -> (r: core::result::Result<usize, crate::snap::Error>)
                ensures
                    final(output)@.len() == old(output)@.len(),
                    snapraw_d(input@) is Some && snapraw_d(input@)->Some_0.len() <= old(output)@.len() ==> r is Ok && r->Ok_0 == snapraw_d(input@)->Some_0.len()
                        && final(output)@ == snapraw_d(input@)->Some_0 + old(output)@.skip(snapraw_d(input@)->Some_0.len() as int),
            { unimplemented!() }
        }
        pub struct Encoder { }
        impl Encoder {
            pub fn new() -> Encoder { Encoder { } }
            #[verifier::external_body]
            pub fn compress_vec(&mut self, input: &[u8]) -> (r: core::result::Result<Vec<u8>, crate::snap::Error>)
                ensures r is Ok, r->Ok_0@ == snapraw_c(input@),
            { unimplemented!() }
        }
    }
    pub mod read {
        use super::super::*; use crate::io; use crate::io::*; use crate::rt::*; use crate::codec::*;
        pub struct FrameDecoder<S> { pub inner: S }
        impl<S: Src> FrameDecoder<S> {
            pub fn new(inner: S) -> (d: Self) ensures d.inner == inner { FrameDecoder { inner } }
            #[verifier::external_body]
            pub fn read_to_end(self, out: &mut Vec<u8>) -> (r: io::Result<usize>)
                requires self.inner.ready(), snap_d(self.inner.bytes()) is Some, 
                ensures
                    self.inner.spent(r is Ok),
                    match r { Ok(_) => final(out)@ == old(out)@ + snap_d(self.inner.bytes())->Some_0, Err(e) => is_fault(e) },
            { unimplemented!() }
        }
    }
    pub mod write {
        use super::super::*; use crate::io; use crate::io::*; use crate::rt::*; use crate::codec::*;
        pub struct FrameEncoder<W> { pub w: W, pub fed: Ghost<Seq<u8>> }
        impl Stream for FrameEncoder<Vec<u8>> {
            open spec fn data(&self) -> Seq<u8> { self.fed@ }
            open spec fn pos(&self) -> nat { 0 }
            open spec fn faults(&self) -> nat { 0 }
            open spec fn seeks(&self) -> nat { 0 }
            open spec fn rbytes(&self) -> nat { 0 }
            open spec fn loads(&self) -> nat { 0 }
            open spec fn base(&self) -> int { 0 }
            open spec fn sinv(&self) -> bool { self.w@.len() == 0 }
        }
        impl Write for FrameEncoder<Vec<u8>> {
            #[verifier::external_body]
            fn write(&mut self, buf: &[u8]) -> (r: io::Result<usize>) { unimplemented!() }
            #[verifier::external_body]
            fn flush(&mut self) -> (r: io::Result<()>) { unimplemented!() }
        }
        pub struct IntoInnerError { pub err: io::Error }
        impl IntoInnerError { pub fn error(&self) -> &io::Error { &self.err } }
        impl FrameEncoder<Vec<u8>> {
            pub fn new(w: Vec<u8>) -> (e: Self) ensures e.w == w, e.fed@ == Seq::<u8>::empty() { FrameEncoder { w, fed: Ghost(Seq::empty()) } }
            #[verifier::external_body]
            pub fn into_inner(self) -> (r: core::result::Result<Vec<u8>, IntoInnerError>)
                requires self.sinv(),
                ensures r is Ok, r->Ok_0@ == snap_c(self.data()),
            { unimplemented!() }
        }
    }
}
