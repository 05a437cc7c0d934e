"""Per property: the modules given to the verifier, the goals, and what the proof leaves open."""
WRITER = ["varint", "block_writer", "count_write", "compression", "error", "metadata", "writer"]
WGOALS = ["writer::WriterBuilder::build", "writer::Writer::insert", "writer::Writer::into_inner", "writer::compress_and_write_block"]
READER = WRITER + ["block", "lib", "reader", "reader::reader_cursor", "reader::range_iter", "reader::prefix_iter"]
MERGE = READER + ["merge_function", "merger"]
SORT = MERGE + ["sorter"]
SO, EN, EB, SB = "sorter::Sorter::", "sorter::Entries::", "sorter::EntryBoundAlignedBuffer::", "sorter::SorterBuilder::"
OUTS = [SO + "write_into_stream_writer", SO + "into_stream_merger_iter", SO + "into_reader_cursors", SO + "extract_reader_cursors_and_merger"]
SPILL = [SO + "insert", SO + "write_chunk", SO + "merge_chunks"]
STRIP = ["strip::fill", "strip::sort_stream", "strip::sort_cursors", "strip::sort_file"]
SASSUME = "Requires a merge function that accepts any values and whose results fit in 2^32 bytes. Trusted: the sort contracts of std and rayon, the model of allocation and bytemuck casts. "
MI = ["merger::Merger::into_stream_merger_iter", "merger::Merger::write_into_stream_writer", "merger::MergerIter::next", "merger::<Entry<R> as Ord>", "mtrip::merge_all", "mtrip::merge_file"]
RC = "reader::reader_cursor::ReaderCursor::"
MOVES = [RC + "move_on_first", RC + "move_on_last", RC + "move_on_next", RC + "move_on_prev", RC + "move_on_key_lower_than_or_equal_to", RC + "move_on_key_greater_than_or_equal_to", RC + "move_on_key_equal_to"]
RI, PI = "reader::range_iter::", "reader::prefix_iter::"
ITERS = [RI + "RangeIter::new", RI + "RangeIter::next", RI + "RevRangeIter::new", RI + "RevRangeIter::next", PI + "PrefixIter::next", PI + "RevPrefixIter::next", PI + "move_on_last_prefix", PI + "advance_key"]
BASE = "Trusted: codecs are lossless, std and byteorder contracts, allocator limits (2^47 bytes)"
PROOFS = {
 "C14": {
  "level": "proof",
  "modules": READER,
  "goals": ["varint::varint_encode32", "varint::varint_decode32", "varint::varint_length_packed", "block_writer::BlockWriter::insert", "block::Block::entry_at"],
  "note": "the length codec for all 2^32 lengths; BlockWriter::insert appends exactly the framed entry; Block::entry_at returns exactly the key and value bytes framed at its offset. " + BASE,
 },
 "C02": {
  "level": "proof",
  "modules": READER,
  "goals": MOVES,
  "note": "for every valid file (any depth, block layout, codec, v1 and v2) and every probe: the three seeks return the ceiling, floor and match over the content of the file. " + BASE,
 },
 "C03": {
  "level": "proof",
  "modules": READER,
  "goals": MOVES + [RC + "current", RC + "reset", "trip::history"],
  "note": "each operation is a function of content and the position established by the last operation that returned an entry; trip::history chains the contracts over histories of any length with any number of clones. One known finding (current after a seek that returned None). " + BASE,
 },
 "C16": {
  "level": "proof",
  "modules": READER,
  "goals": MOVES + ["reader::Reader::new"],
  "note": "Reader::new reads at most 26 bytes and loads no block; every move and seek loads at most 2 x (levels + 2) blocks (levels + 2 except for the floor seek). " + BASE,
 },
 "C15": {
  "level": "proof",
  "modules": WRITER,
  "goals": WGOALS + ["block_writer::BlockWriter::current_size_estimate", "writer::WriterBuilder::block_size"],
  "note": "the postcondition of Writer::insert keeps, for every block emitted and under construction, that without its last entry it is smaller than the block size (data level and index levels below the first), for all inputs; into_inner ensures it for the finished file. " + BASE,
 },
 "C18": {
  "level": "proof",
  "modules": WRITER,
  "goals": WGOALS + ["block_writer::BlockWriter::insert"],
  "note": "for every insert sequence, sorted or not: BlockWriter::insert returns only if the key exceeds the last one, and every block in the finished file has strictly ascending keys. " + BASE,
 },
 "C11": {
  "level": "proof",
  "modules": SORT,
  "goals": WGOALS + MOVES + ITERS + MI + SPILL + OUTS + ["count_write::<CountWrite<W> as Write>"],
  "note": "the bytes emitted by the writer and the results of the reader cursor, iterators, merger and sorter are functions of configuration, inserts, content and position, over sinks, sources and chunk storage that split and interrupt calls in any way (the sorter under the unstable algorithm: up to the order of equal keys). " + BASE,
 },
 "C12": {
  "level": "proof",
  "modules": SORT,
  "goals": WGOALS + MOVES + ITERS + MI + SPILL + OUTS + ["metadata::Metadata::read_from", "count_write::<CountWrite<W> as Write>"],
  "note": "writer, opening, reader cursor, iterators, merger and sorter: Ok is returned only if no component failed during the call, an error only if one did (a merge error with the value the merge function gave), and no panic. " + BASE,
 },
 "C09": {
  "level": "proof",
  "modules": READER,
  "interop": True,
  "goals": WGOALS + ["metadata::Metadata::write_into", "block_writer::BlockWriter::finish", "block_writer::BlockWriter::insert", "block::Block::read_from", "trip::write_all", "trip::scan"],
  "note": "the bytes of every finished file (frames, entries, offset tables, index references, trailer), and the reader recovers the content of any file of that format. The source of the frozen 0.4.7 is verified in the same run against the same format: its writer emits the same bytes, its forward scan returns the content of any valid file. Not covered: the 0.4.7 writer with 255 index levels. " + BASE,
 },
 "C01": {
  "level": "proof",
  "modules": READER,
  "goals": WGOALS + MOVES + ["reader::Reader::new", "trip::write_all", "trip::scan", "trip::scan_back"],
  "note": "for every configuration and sorted insert sequence: the finished bytes are a valid file whose content is the inserted sequence and whose trailer carries count and codec (Writer::into_inner, trip::write_all); scanning any valid file forward or backward yields its content (trip::scan, trip::scan_back, clients verified against the contracts). " + BASE,
 },
 "C10": {
  "level": "proof",
  "modules": READER,
  "goals": ["metadata::Metadata::read_from", "reader::Reader::new"] + MOVES + ITERS + ["trip::scan", "trip::scan_back", "trip::range", "trip::rev_range", "trip::prefix", "trip::rev_prefix"],
  "note": "opening, every cursor operation and every iterator have one contract over valid files, which include the version-1 ones: results are a function of the content alone; the fields returned are those of the 21-byte trailer. " + BASE,
 },
 "C04": {
  "level": "proof",
  "modules": READER,
  "goals": ITERS[:4] + [RI + "start_contains", RI + "end_contains", RI + "map_bound", "trip::range", "trip::rev_range"],
  "note": "for every valid file and every pair of bounds: collecting the iterator up to its first None gives the content filtered by both bounds, in order or in reverse (trip::range, trip::rev_range, clients verified against the contracts of new and next). " + BASE,
 },
 "C05": {
  "level": "proof",
  "modules": READER,
  "goals": ITERS[4:] + ["trip::prefix", "trip::rev_prefix"],
  "note": "for every valid file and every prefix: collecting the iterator up to its first None gives the content filtered by the prefix, in order or in reverse (trip::prefix, trip::rev_prefix). " + BASE,
 },
 "C06": {
  "level": "proof",
  "modules": MERGE,
  "goals": MI + ["merger::MergerBuilder::add", "merger::MergerBuilder::push", "merger::<MergerBuilder<R, MF> as Extend<ReaderCursor<R>>>", "merge_function::<&MF as MergeFunction>", "merge_function::<Either<MFA, MFB> as MergeFunction>"],
  "note": "for every number of sources, every valid file and every merge function: the iterator's output up to its first None is the ordered key union, every value is one the merge function gave for that key with all its values in source order (or the lone value), and the merge function is never called with other arguments (mtrip::merge_all, mrg::theorem_union); writing it out gives a valid file with that content (mtrip::merge_file). Open: that it is called once per key (replay counts the calls). Trusted: BinaryHeap and slice iterator contracts. " + BASE,
 },
 "C07": {
  "level": "proof",
  "modules": SORT,
  "goals": SPILL + OUTS + [EN + "insert", EN + "iter", EN + "sort_by_key", EN + "par_sort_by_key", EN + "clear", EN + "fits", SB + "build"] + STRIP,
  "note": "for every insert sequence, every builder setting and every chunk creator: the chunks and the buffer always stand for the sort-and-merge of consecutive parts of what was inserted, and streaming, writing and merging the cursors give keys that ascend and are the inserted ones, each with the merge of its values in insertion order (stable) or some order (unstable), given an associative merge function (strip::sort_stream, sort_file, sort_cursors, srt::theorem_parts). " + SASSUME + BASE,
 },
 "C08": {
  "level": "proof",
  "modules": SORT,
  "goals": SPILL + [EN + "insert", EN + "fits", EN + "reallocate_buffer", EN + "with_capacity", EN + "clear", SO + "threshold_exceeded", SB + "dump_threshold", SB + "max_nb_chunks", SB + "build", "strip::fill"],
  "note": "for every number of inserts of at most a quarter of the budget: the unspilled volume stays within twice the budget (the budget without reallocation), and at most max + 2 chunks exist, after every insert and at every creation (strip::fill, ghost assertions before each creation). Chunks come from the user's creator by parametricity. " + SASSUME + BASE,
 },
 "C17": {
  "level": "proof",
  "ownership": True,
  "modules": SORT,
  "goals": [EB + "new", "sorter::<EntryBoundAlignedBuffer as ops::Deref>", "sorter::<EntryBoundAlignedBuffer as ops::DerefMut>", "sorter::<EntryBoundAlignedBuffer as Drop>"] + [EN + f for f in ("with_capacity", "clear", "insert", "fits", "memory_usage", "sort_by_key", "par_sort_by_key", "iter", "estimated_entries_memory_usage", "remaining", "entry_size", "reallocate_buffer")] + SPILL + OUTS + [SO + "estimated_dumped_memory_usage", "lib::transmute_entry_to_static", "block::BlockCursor::move_on_key_greater_than_or_equal_to"] + MOVES + ITERS,
  "note": "for all entry sizes: the buffer's slices are exactly its live allocation, freed once with its own layout on drop (type invariant); every index, cast and arithmetic operation of the sorter, reader, merger and writer is in range; and the entries handed out by lifetime extension live as long as their signatures say, by the borrow checker on the code with every extension taken back. " + SASSUME + BASE,
 },
 "C13": {
  "level": "proof",
  "modules": READER,
  "goals": ["metadata::Metadata::read_from", "reader::Reader::new"],
  "note": "Metadata::read_from and Reader::new accept exactly the byte strings ending in a valid trailer and never panic, for all byte strings. Trusted: byteorder and std contracts",
 },
}
