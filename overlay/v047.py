"""Contracts for the frozen grenad 0.4.7 (C09, interoperability).

The overlay of the current tree is applied to the source of grenad 0.4.7, with the edits below: the
writer keeps its contracts word for word; of the reader only what a forward scan needs is put under
contract, with weaker contracts where 0.4.7 does less than the current tree (it loses its place at
the end of a block, and forgets the offset of an index block it replaced)."""
import glob, hashlib, os, re, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODULES = "writer,count_write,compression,error,metadata,block_writer,varint,block,lib,reader,reader::reader_cursor".split(",")

MIN_VERIFIED = 345
SHA256 = "317385d7f880e3c850a732dfac2d2114075e6b8240efd263045c90a45ae19214"
ASSUMED = [
    "assumed: the codec crates used by 0.4.7 and those used by the current tree decode what the other encodes",
    "assumed: the source given to the 0.4.7 lz4 decoder does not fail",
    "not covered: the 0.4.7 zlib encoder with a level above 9",
    "not covered: the 0.4.7 writer with 255 index levels, where `len as u8 - 1` overflows (a panic with overflow checks, 255 without)",
]


def source():
    """the folder with the source of 0.4.7, if it is the frozen one"""
    home = os.environ.get("CARGO_HOME", os.path.expanduser("~/.cargo"))
    for d in sorted(glob.glob(os.path.join(home, "registry", "src", "*", "grenad-0.4.7", "src"))):
        if digest(d) == SHA256:
            return d
    return None


def digest(d):
    h = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(d, "**", "*.rs"), recursive=True)):
        h.update(os.path.relpath(f, d).encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()


# items of 0.4.7 that a forward scan does not run
NOT_SCANNED = [
    "block::BlockCursor::move_on_last", "block::BlockCursor::move_on_prev",
    "block::BlockCursor::move_on_key_lower_than_or_equal_to", "block::BlockCursor::move_on_key_greater_than_or_equal_to",
    "reader::Reader::into_prefix_iter", "reader::Reader::into_rev_prefix_iter", "reader::Reader::into_range_iter", "reader::Reader::into_rev_range_iter",
    "reader::reader_cursor::ReaderCursor::prev_block_from_index", "reader::reader_cursor::ReaderCursor::move_on_last",
    "reader::reader_cursor::ReaderCursor::move_on_prev", "reader::reader_cursor::ReaderCursor::move_on_key_lower_than_or_equal_to",
    "reader::reader_cursor::ReaderCursor::move_on_key_greater_than_or_equal_to", "reader::reader_cursor::ReaderCursor::move_on_key_equal_to",
    "reader::reader_cursor::L_IndexBlockCursor_move_on_last", "reader::reader_cursor::<L_IndexBlockCursor_move_on_last as Mov>", "reader::reader_cursor::IndexBlockCursor::move_on_last",
    "reader::reader_cursor::L_IndexBlockCursor_move_on_prev", "reader::reader_cursor::<L_IndexBlockCursor_move_on_prev as Mov>", "reader::reader_cursor::IndexBlockCursor::move_on_prev",
    "reader::reader_cursor::L_IndexBlockCursor_move_on_key_greater_than_or_equal_to", "reader::reader_cursor::<L_IndexBlockCursor_move_on_key_greater_than_or_equal_to as Mov>",
    "reader::reader_cursor::IndexBlockCursor::move_on_key_greater_than_or_equal_to",
]

# (file, text in the overlay, text for 0.4.7)
EDITS = [
    # ------------------------------------------------------------------ text of 0.4.7 that is not verified
    ("compression", "derive(Default, Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash) repr(u8)", "derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash) repr(u8)"),
    ("compression", """@@ item compression::zlib_compress : C01 C02 C03 C09 C10 C11 C12
pub fn zlib_compress(data: &[u8], level: u32) -> (r: io::Result<Cow<[u8]>>)
@ ensures r is Ok, restores(CompressionType::Zlib, data@, r->Ok_0@),
{
@ proof { if data@.len() < 0x8000_0000_0000 { ax_codecs(data@); } }
    let level = level.min(flate2::Compression::best().level());
    let compression""", """@@ item compression::zlib_compress : C09
pub fn zlib_compress(data: &[u8], level: u32) -> (r: io::Result<Cow<[u8]>>)
@ ensures r is Ok, restores(CompressionType::Zlib, data@, r->Ok_0@),
{
@ proof { if data@.len() < 0x8000_0000_0000 { ax_codecs(data@); } }
@ assume(level <= 9);
    let compression"""),
    ("compression", """@ proof { assert(input@.subrange(0, input@.len() as int) =~= __b); }
    match lz4_flex::frame::FrameDecoder::new(&input[..]).read_to_end(out)
""", """    match lz4_flex::frame::FrameDecoder::new(data).read_to_end(out)
"""),
    ("compression", """pub fn lz4_decompress<R: io::Read>(mut data: io::Take<'_, R>, out: &mut Vec<u8>) -> (r: io::Result<()>)
""", """pub fn lz4_decompress<R: io::Read>(data: io::Take<'_, R>, out: &mut Vec<u8>) -> (r: io::Result<()>)
"""),
    ("compression", """@ let ghost __b = data.bytes();
    let mut input = Vec::new();
    data.read_to_end(&mut input)?;
@ proof { assert(input@ =~= __b); }
    match lz4_flex""", """@ assume(data.reliable());
@ let ghost __b = data.bytes();
    match lz4_flex"""),
    ("compression", "@@ drop compression::InvalidCompressionType#derive", """@@ item compression::<CompressionType as Default> : C09
impl Default for CompressionType
{
    fn default() -> (r: CompressionType)
@ ensures r is None,
    {
        CompressionType::None
    }
}

@@ drop compression::InvalidCompressionType#derive"""),
    ("lib", "@@ item lib::Result : C01 C02 C03 C04 C05 C10 C12 C16\npub type Result<T, U = Infallible> = std::result::Result<T, Error<U>>;\n", ""),
    ("lib", "use crate::error::Error;\n", "use crate::error::Error;\npub type Result<T, U = Infallible> = std::result::Result<T, Error<U>>;\n"),
    ("writer", "@@ item writer::<Writer<W> as AsRef<W>> :", "@@ item writer::Writer::as_ref :"),
    ("writer", "impl<W: io::Write> AsRef<W> for Writer<W>\n", "impl<W: io::Write> Writer<W>\n"),
    ("writer", "@ open spec fn asref(&self) -> &W { &self.writer.inner }\n", ""),
    ("reader", "use crate::reader::range_iter::{RangeIter, RevRangeIter};\nuse crate::reader::prefix_iter::{PrefixIter, RevPrefixIter};\n", ""),
    # -------------------------- 255 index levels: `len as u8 - 1` overflows (no file, or 255 in a release build)
    ("writer", "    pub open spec fn ok(&self) -> bool { self.block_size >= 1024 }\n", "    pub open spec fn ok(&self) -> bool { self.block_size >= 1024 && self.index_levels < 255 }\n"),
    ("writer", "pub fn into_inner(self) -> (r: io::Result<W>)\n@ requires self.inv(),\n", "pub fn into_inner(self) -> (r: io::Result<W>)\n@ requires self.inv(), self.g@.cfg.depth < 255,\n"),
    ("writer", "pub fn finish(self) -> (r: io::Result<()>)\n@ requires self.inv(),\n", "pub fn finish(self) -> (r: io::Result<()>)\n@ requires self.inv(), self.g@.cfg.depth < 255,\n"),
    ("error", "@ requires !(self is Merge), // [C12]\n", "@ requires !(self is Merge), !(self is InvalidFormatVersion),\n"),
    # ---------------------------------------------------- a block cursor of 0.4.7 may stand after the last entry
    ("block", """        &&& self.current_offset is Some ==> is_pos(self.es(), self.current_offset->Some_0 as int)
            && (self.es().len() > 0 ==> ix_of(self.es(), self.current_offset->Some_0 as int) < self.es().len())
""", """        &&& self.current_offset is Some ==> is_pos(self.es(), self.current_offset->Some_0 as int)
"""),
    ("block", "        if self.es().len() > 0 { self.ix() } else { None }\n", "        match self.ix() { Some(i) => if i < self.es().len() { Some(i) } else { None }, None => None }\n"),
    ("block", "        &&& t is None && relative(m) && a.ix() is Some ==> b == a\n", ""),
    # ------------------------------------------------------------ the offset kept with an index block may be stale
    ("reader_cursor", "    &&& f.lev[l][b].off == x.0\n", ""),
    ("reader_cursor", "                None => x is None && b == a,\n", "                None => x is None,\n"),
    ("reader_cursor", "                    None => x is None && b.v() == a.v() && b.iat(f, q),\n", "                    None => x is None,\n"),
    ("reader_cursor", "                    None => x is None && b.index_block_cursor.iat(a.f(), q),\n", "                    None => x is None,\n"),
    ("reader_cursor", "                &&& a.current_cursor is None ==> Self::ended(a, b, target(m, content(a.f()), None), r) && (x is None ==> b.current_cursor is None)\n", "                &&& a.current_cursor is None ==> Self::ended(a, b, target(m, content(a.f()), None), r)\n"),
    ("reader_cursor", """ ==> Self::ended(a, b, target(m, content(a.f()), Some(p)), r)
                    && (x is None ==> b.rc_at(p) && b.current_cursor == a.current_cursor)
""", """ ==> Self::ended(a, b, target(m, content(a.f()), Some(p)), r)
"""),
    ("reader_cursor", """        f.lev[l][b].off == v[l].0 ==> v[l].1.es() == f.lev[l][b].es && v[l].1.cinv(),
""", ""),
    ("reader_cursor", """    if f.lev[l][b].off == v[l].0 {
        assert(good(d, f.t, f.lev[l][b])); assert(good(d, f.t, f.lev[l][q]));
        lemma_good_unique(d, f.t, f.lev[l][b], f.lev[l][q]);
    }
""", ""),
    # an absolute move is only made from nowhere
    ("reader_cursor", """@ requires
@     !relative(old(mov).kind()),
@     old(self).iinv(file_of(old(reader).data())), source(old(reader), file_of(old(reader).data())),
@ ensures
@     loaded(old(reader), final(reader), old(self).n()), // [C16]
""", """@ requires
@     !relative(old(mov).kind()), old(self).inner is None,
@     old(self).iinv(file_of(old(reader).data())), source(old(reader), file_of(old(reader).data())),
@ ensures
@     loaded(old(reader), final(reader), old(self).n()), // [C16]
"""),
    ("reader_cursor", """@     r0 == *old(reader), d == r0.data(), f == file_of(d), n == f.depth + 1, m == old(mov).kind(), file_ok(d, f), !relative(m),
@     self.base_block_offset == f.root,""", """@     false,
@     r0 == *old(reader), d == r0.data(), f == file_of(d), n == f.depth + 1, m == old(mov).kind(), file_ok(d, f), !relative(m),
@     self.base_block_offset == f.root,"""),
    ("reader_cursor", """    pub fn move_on_first<R: io::Read + io::Seek>(&mut self, reader: &mut R,) -> (r: crate::Result<Option<(&[u8], &[u8])>>)
@ requires
""", """    pub fn move_on_first<R: io::Read + io::Seek>(&mut self, reader: &mut R,) -> (r: crate::Result<Option<(&[u8], &[u8])>>)
@ requires old(self).inner is None,
"""),
    ("reader_cursor", """    pub fn move_on_first(&mut self) -> (r: crate::Result<Option<(&[u8], &[u8])>>)
@ requires old(self).rc_inv(),
""", """    pub fn move_on_first(&mut self) -> (r: crate::Result<Option<(&[u8], &[u8])>>)
@ requires old(self).rc_inv(), old(self).index_block_cursor.inner is None,
"""),
    ("reader_cursor", """    pub fn move_on_next(&mut self) -> (r: crate::Result<Option<(&[u8], &[u8])>>)
@ requires old(self).rc_inv(),
""", """    pub fn move_on_next(&mut self) -> (r: crate::Result<Option<(&[u8], &[u8])>>)
@ requires old(self).rc_inv(), old(self).current_cursor is None ==> old(self).index_block_cursor.inner is None,
"""),
    ("reader_cursor", "@ let ghost o0 = *block_offset;\n", "@ let ghost o0 = *_offset;\n"),
    ("reader_cursor", "@ proof { let c2 = *cursor; assert forall|x: (u64, BlockCursor<Block>)| x.0 == offset && ", "@ proof { let c2 = *cursor; assert forall|x: (u64, BlockCursor<Block>)| "),
]


def overlay(vf, out):
    """the overlay for 0.4.7, written to the folder `out`"""
    os.makedirs(out, exist_ok=True)
    o = vf.Overlay()
    for f in sorted(glob.glob(V + "/overlay/*.ov")):
        name = os.path.basename(f)[:-3]
        t = open(f).read()
        for n, a, b in EDITS:
            if n == name:
                if t.count(a) != 1:
                    raise ValueError("v047: %d places for an edit of %s: %s" % (t.count(a), n, a))
                t = t.replace(a, b)
        p = os.path.join(out, name + ".ov")
        open(p, "w").write(t)
        o.load(p)
    for k in NOT_SCANNED:
        it = o.items[k]
        it.update(kind="drop", lines=[], repl=None, reason="not run by a forward scan")
    return o


def models(out):
    """the model files, with the clients of the writer and of the forward scan only"""
    r = []
    for f in sorted(glob.glob(V + "/overlay/model/*.rs")):
        n = os.path.basename(f)
        if n[:2] in ("61", "62"):
            continue
        if n.startswith("60"):
            t = open(f).read()
            i = t.index("#[verifier::loop_isolation(false)]\n/// C01: the backward scan")
            t = t[:i] + "} // mod trip\n"
            t = re.sub(r"// needs:.*", "// needs: writer lib reader reader::reader_cursor", t, count=1)
            t = re.sub(r"use super::reader::(range|prefix)_iter::\*;\n", "", t)
            a = "            out@.len() == 0 ==> cur.current_cursor is None,\n"
            assert t.count(a) == 1
            t = t.replace(a, "            out@.len() == 0 ==> cur.fresh(),\n")
            f = os.path.join(out, n)
            open(f, "w").write(t)
        r.append(f)
    return r


if __name__ == "__main__":
    sys.path.insert(0, V + "/tools")
    import vf, json, subprocess
    src = source()
    d = json.loads(subprocess.run([V + "/target/extract/debug/extract", src, V + "/overlay/rules.txt"], capture_output=True, text=True, check=True).stdout)
    m = vf.build(overlay(vf, "/tmp/v047"), d["items"], models("/tmp/v047"), open(V + "/overlay/header.rs").read(), only_modules=set(MODULES))
    print("unknown", m.unknown, "\nmissing", m.missing, "\nlost", m.lost, "\npinned", m.pinned, "\nchanged", m.changed)
    open("/tmp/try47.rs", "w").write("\n".join(m.text) + "\n")
    os.execvp("verus", ["verus", "/tmp/try47.rs", "--multiple-errors", "5", "--triggers-mode", "silent"] + sys.argv[1:])
