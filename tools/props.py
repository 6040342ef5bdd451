prop("C01", "The LAZ header record is written in the documented layout and read back equal",
     "Writing a LAZ header record produces exactly the documented little-endian layout, for any field values and any list of items, and reading those bytes gives an equal record back. Reading arbitrary bytes yields each field from its documented offset, turns a chunk size of zero into the variable-size marker and refuses unknown compressor or item types. The derived facts (size of a point, chunk size, whether chunks vary in size) and the builder's values follow from the fields.",
     "inputs", "all field values, all item types, item lists of any length", "the tests write a few default records; field order, widths and unusual values (large sizes, unknown types) are not covered",
     "src/laszip/vlr.rs", [("write_to / read_from", "src/laszip/vlr.rs"), ("LazVlrBuilder", "src/laszip/vlr.rs")],
     "symbolic byte-layout comparison by " + VGD, "Every written byte and every parsed field is compared for arbitrary values; item lists of up to ten items are evaluated. Trusts rustc's MIR, the value engine and its models of std/byteorder.")
prop("C07", "Both sides support the same items and versions with the same sizes",
     "An item list is accepted for compression exactly when it is accepted for decompression, and exactly when the LASzip format defines a codec for every item in the list at its version, with no mixing of point-wise and layered versions. For an accepted list both sides use the codec of the same item and version for each item in order. The size of a record is the sum of the item sizes on both sides.",
     "configurations", "all item types, versions, sizes and pairs of them", "tests set up a handful of point formats with default versions; the other combinations are never constructed",
     "src/laszip/details.rs src/record.rs", [("set_fields_from", "src/record.rs"), ("record_compressor_from_laz_items", "src/laszip/details.rs")],
     "evaluation of the dispatch code over an enumerated configuration space by " + VGD, "All single items for versions 0-5 and outliers and pairs of items are decided; longer lists rely on the loop being uniform. Trusts rustc's MIR and the value engine.")
prop("C08", "Each point format selects its documented items, sizes and versions",
     "For every point format identifier the chosen items are those of the LAS format, in record order, with the documented sizes and the default codec versions, followed by one extra-bytes item of the given size exactly when that size is not zero; unknown identifiers are refused. The same holds for the item lists requested for an explicit codec version and for items added by hand.",
     "configurations inputs", "all 256 point format identifiers, all point types and versions, any number of extra bytes", "tests use some formats with few extra-byte counts; formats 4, 5, 9, 10 and explicit versions are hardly touched",
     "src/laszip/vlr.rs", [("default_for_point_format_id", "src/laszip/vlr.rs"), ("item tables of the point types", "src/laszip/vlr.rs")],
     "table extraction from MIR by value evaluation, compared with the format's tables", "Complete for the 256 identifiers; the extra-byte count is symbolic. Trusts rustc's MIR and the value engine.")
prop("C09", "Raw points map to the LAS byte layout and accessors touch exactly their field",
     "Unpacking raw bytes gives each field its documented value (offset, width, bit position, little-endian), packing writes back exactly those bytes, the unchecked forms agree with the checked ones, and buffers of the wrong size are refused. The accessors of every point type return their field of the documented layout, and setting a field changes that field and nothing else; the combined point types forward to their parts.",
     "inputs", "all byte values of all raw point fields, all setter arguments", "tests round-trip a few values; bit-field neighbours, oversized setter arguments and the wider formats are not covered",
     "src/packers.rs src/las/point0.rs src/las/point6.rs src/las/rgb.rs src/las/gps.rs src/las/nir.rs src/las/wavepacket.rs src/las/pointtypes.rs", [("Packable", "src/packers.rs"), ("LasPoint6", "src/las/point6.rs"), ("LasPoint0", "src/las/point0.rs")],
     "symbolic byte-layout comparison and frame (unchanged-field) analysis by " + VGD, "Every output byte and accessor result is compared for arbitrary values; complete for the accessors found in the trait implementations. Trusts rustc's MIR and the value engine.")
prop("C10", "Records are assembled from their fields in item order, chunk by chunk",
     "Compressing or decompressing a point gives each field coder, in item order, exactly its own bytes of the record: the first point of a chunk raw, the later ones coded, all with the same coder. Point-wise chunks start the decoder after the raw point and finish the encoder once; layered chunks have, after the raw point, the point count, all layer sizes and all layers (nothing at all without points), on both sides. Whole buffers are processed point by point, reading until the end of the data reports the bytes of complete points, and resetting a record coder and setting its fields equals a new one.",
     "inputs histories configurations", "all item lists and sequences of points and resets", "tests use records whose mix-ups often cancel out and never look at single-point or empty chunks, resets or premature ends field by field",
     "src/record.rs src/byteslice.rs", [("compress_next / decompress_next / done / reset", "src/record.rs"), ("ChunksIrregular", "src/byteslice.rs")],
     "call-trace (typestate) analysis over slices, streams and contexts by " + VGD, "Six item lists with one to four items are evaluated with the field coders' operations recorded; the loops over fields do not depend on the count. Trusts rustc's MIR and the value engine.")
prop("C11", "Point-wise codecs: every decoder undoes its encoder, point after point",
     "For every point-wise (version 1 and 2) field codec, whatever the earlier points of the chunk, encoding any field value and then decoding gives back exactly the same bytes. Encoder and decoder make the same choices (same models, contexts, predictions, order) and are in equivalent states after every point.",
     "inputs histories", "all field byte values and all histories of earlier points in a chunk, all version 1 and 2 codecs", "the tests round-trip one or two files; rare branches (large jumps, special time differences, negative differences, unusual flag combinations) are not reached",
     "src/las/point0.rs src/las/gps.rs src/las/rgb.rs src/las/wavepacket.rs src/las/extra_bytes.rs", [("compress_with / decompress_with", "src/las/*.rs"), ("IntegerCompressor", "src/compressors.rs"), ("IntegerDecompressor", "src/decompressors.rs")],
     "translation-validation style mirror analysis of encoder/decoder pairs by " + VGD, "Inductive over the points of a chunk; assumes the entropy coder returns what was coded under the same model (C16) and wrapping arithmetic. Extra bytes analysed for 1, 2 and 5 bytes per point. Trusts rustc's MIR and the value engine.")
prop("C12", "Layered codecs: every decoder undoes its encoder in every scanner context",
     "For every layered (version 3 and 4) field codec, whatever the earlier points of the chunk and whichever of the four scanner contexts they used, encoding a point and decoding it gives back exactly its bytes, with the same models, contexts, predictions, order and layers on both sides and equivalent states afterwards. A layer is left out only when no point of the chunk changed its bytes, and what the decoder restores for it is then exact. The raw first point of a chunk primes both sides equally.",
     "inputs histories", "all points, all histories, all switches between contexts, any one layer left out", "the tests hold few context switches and few unchanged layers; signs of zeros, first uses of a context after others, rare sequences of times are not reached",
     "src/las/point6.rs src/las/rgb.rs src/las/nir.rs src/las/wavepacket.rs src/las/extra_bytes.rs", [("compress_field_with / decompress_field_with", "src/las/*.rs"), ("init_first_point", "src/las/*.rs")],
     "translation-validation style mirror analysis of encoder/decoder pairs, split by context, by " + VGD, "Inductive over the points of a chunk; assumes the entropy coder returns what was coded under the same model and wrapping arithmetic. Layers left out are analysed one at a time. Extra bytes analysed for 1, 2 and 5 bytes per point. Trusts rustc's MIR and the value engine.")
prop("C13", "Layer sizes are those of the layers, and each layer is loaded or skipped whole",
     "For every layered field codec the size written for a layer is the number of bytes of the layer that follows, zero when it is left out, and sizes and layers come in one fixed order on both sides. The reader loads each non-empty layer completely into that layer's own decoder or moves past exactly its bytes, so that whatever is requested the next layer is found. Which layers were loaded is recorded per layer.",
     "inputs configurations", "all change flags, selections and layer sizes", "the tests read whole files or a few selections of one file",
     "src/las/point6.rs src/las/rgb.rs src/las/nir.rs src/las/wavepacket.rs src/las/extra_bytes.rs", [("write_layers_sizes / write_layers", "src/las/*.rs"), ("read_layers_sizes / read_layers", "src/las/*.rs")],
     "effect analysis of the layer writers and readers by " + VGD, "Assumes layers below 4 GiB; extra bytes analysed for 1, 2 and 5 layers. Trusts rustc's MIR and the value engine.")
prop("C14", "A selection decides exactly which fields are decoded and disturbs nothing else",
     "Each field of the selection stands for one bit that its methods set, clear and read independently of the others, and each decoder takes its requests from exactly the bits of its fields. Leaving a field out affects only that field's own bits of the record (which keep a value seen earlier): everything else decodes to the bytes it had, whatever was left out before. Without a selection every field is decoded.",
     "inputs histories configurations", "all selections, points, histories and contexts, one field left out at a time", "the tests try some selections on one file",
     "src/las/selective.rs src/las/point6.rs src/las/rgb.rs src/las/nir.rs src/las/wavepacket.rs src/las/extra_bytes.rs src/record.rs", [("DecompressionSelection", "src/las/selective.rs"), ("set_selection", "src/las/*.rs")],
     "non-interference analysis (state that may be stale is found by fixpoint) by " + VGD, "Fields left out are analysed one at a time; their stale states are shown not to reach other fields. Extra bytes analysed for 1, 2 and 5 bytes. Trusts rustc's MIR and the value engine.")
SCN = "abstract interpretation of call sequences over an abstract device, by value-numbering dataflow over MIR (no solver)"
prop("C02", "The chunk table is coded as documented and read back equal",
     "Writing a chunk table produces version 0, the number of chunks and the integer-coded byte counts (with point counts when chunks vary in size), each predicted from the one before, exactly as the LAZ format documents. Reading such a table yields the same entries for any values below 2^32, and the nominal size as point count when chunks have a fixed size. Reading leaves the source at the first point.",
     "inputs", "all numbers of entries up to 300, arbitrary values, both kinds of chunks", "tests use tables of small chunks only; entries of 2 GiB and more never occur",
     "src/laszip/chunk_table.rs", [("ChunkTable::write_to", "src/laszip/chunk_table.rs"), ("ChunkTable::read_from / read", "src/laszip/chunk_table.rs")], SCN,
     "Tables of up to 300 entries with symbolic values. Trusts the integer coder (C16), rustc's MIR and the value engine.")
prop("C03", "The chunk table offset is reserved, finalised and followed as documented",
     "Before any point is written the first 8 bytes at the starting position are a placeholder a reader takes for a missing table; done replaces it with the table's position and leaves the destination after the table. Readers find the table through that slot or through the last 8 bytes of the source, and work without a table when the chunks can be told apart without it. Otherwise they report an error.",
     "inputs histories configurations crash_points", "all starting positions, sequences of writing calls cut off at any call, every place of the offset", "tests only read complete files that start at usual positions",
     "src/laszip/sequential/compression.rs src/laszip/sequential/decompression.rs src/laszip/sequential/appender.rs src/laszip/parallel/compression.rs src/laszip/parallel/decompression.rs src/laszip/chunk_table.rs", [("reserve_offset_to_chunk_table / done", "src/laszip/*/compression.rs"), ("ChunkTable::read_offset", "src/laszip/chunk_table.rs")], SCN,
     "Files of a few chunks, arbitrary position of the data and arbitrary coded sizes (each below 2^40). Trusts rustc's MIR and the value engine.")
prop("C04", "The sequential compressor lays points out in chunks, in order, then the table",
     "Whatever the sequence of calls, LasZipCompressor leaves the offset slot, the chunks back to back, each coding exactly its points in order from a fresh coder state, the chunk table with the true point and byte counts, and the table's offset. Fixed-size chunks are full except the last; variable-size chunks end where the caller says. The image does not depend on how the points were split into calls.",
     "inputs histories configurations", "all points, positions and coded sizes; sequences of up to four calls for chunk sizes 1 to 4, and one step across a boundary for any chunk size", "the tests write a few files in one go or point by point",
     "src/laszip/sequential/compression.rs src/laszip/chunk_table.rs src/record.rs", [("LasZipCompressor", "src/laszip/sequential/compression.rs"), ("compress_buffer", "src/laszip/sequential/compression.rs")], SCN,
     "Call sequences are bounded (three to four calls, chunk sizes up to 4, some long ones); the boundary step is decided for any chunk size. Record coders are abstract (C10 to C13).")
prop("C05", "The sequential decompressor returns the points in order however requested",
     "LasZipDecompressor returns the points of the file in order for every way of splitting the requests, for fixed and variable size chunks, with and without chunk table where it is not needed. Each chunk is decoded by a coder set up afresh, with the requested selection. Reading past the last point of variable-size or layered chunks is an error.",
     "inputs histories configurations", "all points, positions and coded sizes; files of 1 to 120 chunks and all splits of the request of a few points", "the tests read a few files in a few ways",
     "src/laszip/sequential/decompression.rs src/laszip/chunk_table.rs src/record.rs", [("LasZipDecompressor::decompress_one / decompress_many", "src/laszip/sequential/decompression.rs"), ("decompress_buffer", "src/laszip/sequential/decompression.rs")], SCN,
     "Files and splits are bounded; the boundary step is decided for any chunk size. Record coders are abstract (C10 to C13).")
prop("C06", "Parallel compression leaves the same image as sequential compression",
     "ParLasZipCompressor and par_compress_buffer leave exactly the image that C04 documents for the same points and chunk limits: same chunks, same table, same offset, for every split of the points into calls and independent of the schedule of the worker threads. Nothing but the chunk's own buffers is written inside the parallel part.",
     "inputs histories schedules configurations", "all points, positions and coded sizes; sequences of up to three calls for chunk sizes 1 to 4; any schedule", "the tests compare a few files written in one go",
     "src/laszip/parallel/compression.rs src/laszip/chunk_table.rs src/record.rs", [("ParLasZipCompressor", "src/laszip/parallel/compression.rs"), ("par_compress_buffer", "src/laszip/parallel/compression.rs")], SCN + "; effect analysis of the parallel part",
     "As C04; that rayon keeps the order of indexed iterators is assumed.")
prop("C15", "Parallel decompression returns the points in order however requested",
     "ParLasZipDecompressor, par_decompress_buffer and par_decompress return the same points as the sequential decompressor for every way of splitting the requests, for fixed and variable size chunks and every selection, independent of the schedule. Requests past the last point and files without chunk table are errors. The source is never used inside the parallel part.",
     "inputs histories schedules configurations", "all points, positions and coded sizes; files of 1 to 120 chunks and all splits of the request of a few points; any schedule", "the tests read a few files in whole chunks",
     "src/laszip/parallel/decompression.rs src/laszip/chunk_table.rs src/record.rs", [("ParLasZipDecompressor::decompress_many", "src/laszip/parallel/decompression.rs"), ("par_decompress", "src/laszip/parallel/decompression.rs")], SCN + "; effect analysis of the parallel part",
     "As C05; that rayon keeps the order of indexed iterators is assumed.")
prop("C16", "The entropy coder returns exactly the values that were coded",
     "Coding a bit, a symbol or raw bits moves the encoder to the interval of that value, and the decoder, for every number inside that interval, returns the value and stays at the same interval with as many bytes taken as were put out. Every byte reaches the stream once and in order, with carries propagated across the output buffer wherever it stands, and finishing leaves the stream inside the last interval and padded to four bytes. Models start, count and update alike on both sides and as published, and the integer decompressor returns the integer the compressor was given, for every number of correction bits.",
     "inputs histories", "all intervals, model states, symbols and raw values; 17 positions in the output buffer with pending carries of 0 to 3 bytes; integers of 8, 16 and 32 bits and of 21 numbers of values up to 2^20, with every number of correction bits", "the tests code a few thousand values: carries across the buffer's halves, the largest corrections and halved models are hardly reached",
     "src/encoders.rs src/decoders.rs src/models.rs src/compressors.rs src/decompressors.rs", [("ArithmeticEncoder", "src/encoders.rs"), ("ArithmeticDecoder", "src/decoders.rs"), ("ArithmeticModel", "src/models.rs"), ("IntegerCompressor", "src/compressors.rs"), ("IntegerDecompressor", "src/decompressors.rs")],
     "inductive step analysis of the coder's interval by " + VGD, "One step from an arbitrary state that satisfies the interval invariant; buffer positions, carry lengths, model sizes and decoder table patterns are enumerated samples. Trusts rustc's MIR and the value engine.")
prop("C18", "I/O failures are reported and no partial transfer is taken for a whole one",
     "When any operation of the underlying stream fails, the call of the compressor, decompressor or appender it happens in returns an error and does not panic; only a chunk table that cannot be read and is not needed may be done without, and then the points are still right. No result of a fallible call is dropped anywhere in the crate. No read or write whose count may fall short is used as if it were complete.",
     "fault_sequences histories configurations", "a failure of every stream operation of representative call sequences; every call site in the crate", "no test injects failures",
     "src/laszip/sequential/compression.rs src/laszip/sequential/decompression.rs src/laszip/sequential/appender.rs src/laszip/parallel/compression.rs src/laszip/parallel/decompression.rs src/laszip/chunk_table.rs src/decoders.rs src/encoders.rs src/record.rs src/las/utils.rs", [("error propagation of the (de)compressors", "src/laszip"), ("Read / Write call sites", "src")],
     SCN + " with one failing operation; use-def census of all Results", "Failures are injected one at a time into representative runs; elsewhere Results are followed to a use, not to the caller.")
prop("C17", "No point makes a codec panic or reach outside its tables",
     "For every item version and whatever points came before, encoding any point and decoding what was encoded for it hits no arithmetic overflow, no index or unchecked access out of range, no division by zero, no impossible shift and no unwrap of nothing. So debug builds and builds with overflow checks compress the same points as release builds, and no unchecked table access is undefined behaviour.",
     "inputs histories", "all points, all earlier points, all scanner contexts, item versions 1 to 4", "overflow needs coordinates, GPS times or offsets at opposite ends of their ranges, which test files do not have",
     "src/las/point0.rs src/las/point6.rs src/las/gps.rs src/las/rgb.rs src/las/nir.rs src/las/wavepacket.rs src/las/extra_bytes.rs src/las/utils.rs src/packers.rs",
     [("field codecs", "src/las"), ("unsafe table accesses", "src/las/utils.rs")], "abstract interpretation: wrapped intervals over gated values of the MIR, with inferred state ranges",
     "Values coded are those of valid streams; the arithmetic coder itself is C16 and C08. Panics of the API on misuse are C06 and C20. Trusts rustc's MIR and the value engine.")
prop("C20", "Unsupported configurations are refused before anything is written or decoded",
     "Constructors of compressors, decompressors and appenders return an error for compressor types they do not support, for item versions that do not exist and for item lists the record coder refuses, and write no point or table first. Variable-size point-wise chunks without a chunk table are refused. None of these cases panics.",
     "inputs configurations", "all compressor types, eight unsupported item versions, all constructors, refusing record coders", "tests only use supported configurations",
     "src/laszip/sequential/compression.rs src/laszip/sequential/decompression.rs src/laszip/sequential/appender.rs src/laszip/parallel/compression.rs src/laszip/parallel/decompression.rs src/record.rs", [("new / selective", "src/laszip"), ("record_compressor_from_laz_items", "src/laszip/details.rs")], SCN,
     "Which item lists a record coder refuses is C07. Trusts rustc's MIR and the value engine.")
prop("C21", "After a seek the next point is the requested one, whatever was read before",
     "After seek(i) the decompressors return the points of the file from i on with the selection they were created with, whatever was read or sought before, for fixed and variable size chunks. After a seek past the last point reading is an error and a later seek works again. Without a chunk table seek is an error.",
     "inputs histories configurations", "all points, positions and coded sizes; files of up to five chunks, every target, from several states", "the tests seek in a few files of fixed-size chunks",
     "src/laszip/sequential/decompression.rs src/laszip/parallel/decompression.rs src/laszip/chunk_table.rs", [("LasZipDecompressor::seek", "src/laszip/sequential/decompression.rs"), ("ParLasZipDecompressor::seek", "src/laszip/parallel/decompression.rs")], SCN,
     "Files, targets and states are bounded. Seeking past the last point but within the nominal size of the last chunk is decided for the parallel decompressor only.")
prop("C22", "Appending leaves the image of a file written in one go",
     "After appending, the chunks before the last are untouched, the points of the last chunk are kept and followed by the new points in chunks as the compressor would have made them, one chunk table describes all chunks, and its offset is found where it was announced. This holds for empty files, full and partial last chunks, fixed and variable size chunks, sequential and parallel.",
     "inputs histories configurations", "all points, positions and coded sizes; files of up to four chunks, sequences of up to two or three appending calls", "the tests append to one or two files",
     "src/laszip/sequential/appender.rs src/laszip/parallel/appender.rs src/laszip/details.rs", [("LasZipAppender", "src/laszip/sequential/appender.rs"), ("ParLasZipAppender", "src/laszip/parallel/appender.rs")], SCN,
     "Files and call sequences are bounded; that decoding and coding a chunk again keeps its points is C10 to C13. Trusts rustc's MIR and the value engine.")
prop("C23", "Readers, writers and coders cross threads exactly when their stream may",
     "Every compressor, decompressor and appender, the record and arithmetic coders, the VLR and the other public data types can be moved to and shared with other threads whenever their stream can, also when the stream borrows. Coders and parallel objects around a stream that cannot be moved or shared cannot either. The hand-written thread traits hide no raw pointer that is public, copied by a clone, or written through a shared reference.",
     "schedules configurations", "all streams (generic witnesses), both feature configurations", "whether a program is accepted by the compiler is no run of it: a type that loses or wrongly gains Send or Sync changes no test",
     "src/encoders.rs src/decoders.rs src/record.rs src/laszip/sequential/compression.rs src/laszip/sequential/decompression.rs src/laszip/sequential/appender.rs src/laszip/parallel/compression.rs src/laszip/parallel/decompression.rs src/laszip/parallel/appender.rs src/laszip/vlr.rs",
     [("unsafe impl Send, Sync for ArithmeticEncoder", "src/encoders.rs"), ("boxed record coders", "src/laszip/details.rs")], "type-level witnesses: programs that must build and programs that must be rejected; audit of hand-written thread traits over MIR",
     "Rests on rustc's auto-trait rules. That the raw pointers stay inside the encoder's own buffer is C16.")
prop("C24", "What a codec yields depends on its own arguments and stream alone",
     "No static, thread-local or shared reference-counted state connects two codec objects, and no copy of an object writes to the memory of the original. No function of the crate reads the clock, the environment, the file system, the thread it runs on or random numbers, or takes the order of a hash table or of threads that finish. So the same points give the same bytes whatever ran before or runs at the same time.",
     "histories schedules", "every static item, field type and function named in the crate, both feature configurations", "tests run each case once in a fresh process: state left by another codec, thread or run does not show",
     "src/encoders.rs src/decoders.rs src/models.rs src/compressors.rs src/decompressors.rs src/record.rs src/laszip/vlr.rs src/laszip/parallel/compression.rs src/laszip/parallel/decompression.rs src/las/utils.rs",
     [("all codec objects", "src/record.rs"), ("parallel iterations", "src/laszip/parallel/compression.rs")], "effect and ownership analysis of MIR: static items, field types, every callee",
     "Library functions outside the table of effects are taken to have none. State kept inside one object from call to call is C04, C05, C10 and C16.")
prop("C25", "The quick LAS reader takes header, VLRs and points from where LAS puts them",
     "Each field of the header is the little-endian value at its place in the LAS specification, with the point count of the right version, and a failed read of the header is an error. The extra bytes of all eleven point formats, marked compressed or not, are the record size less the size of the format. The laszip VLR is found among the others, and points are read in order, compressed or not, exactly as many as the header states.",
     "inputs histories configurations", "all header bytes, all point formats and record sizes; files of up to two VLRs and three points", "the tests read a handful of files of few formats",
     "src/las/file.rs", [("QuickHeader", "src/las/file.rs"), ("read_vlrs_and_get_laszip_vlr", "src/las/file.rs"), ("SimpleReader", "src/las/file.rs")],
     "value analysis of MIR over a symbolic file (abstract interpretation of the reader)",
     "VLR walks and point counts are bounded; a missing or damaged laszip VLR is out of scope. Decompression itself is C03.")
prop("C26", "Field codecs are interchangeable with the published LAZ codecs",
     "For every item version, what a field encoder writes for any point after any earlier points of the chunk is decoded to the same bytes by the published codec of that item and version, and what the published encoder writes is decoded to the same bytes here. The coded form (which models with which alphabets, contexts, predictions, order and layers) is therefore never changed, not even alike on both sides, which every round trip would survive.",
     "inputs histories", "all states reachable or not, all points, all scanner contexts, item versions 1 to 4", "round-trip tests cannot see a change made on both sides, and the reference files exercise few of the contexts",
     "src/las/point0.rs src/las/point6.rs src/las/gps.rs src/las/rgb.rs src/las/nir.rs src/las/wavepacket.rs src/las/extra_bytes.rs src/las/utils.rs",
     [("field codecs", "src/las"), ("set_fields_from", "src/record.rs")], "cross-program mirror analysis (gated values over MIR) against reference codecs",
     "The published codecs are the copy in /verif/ref: laz-rs as pinned, with its repairs, model alphabets and constants reviewed by hand. Trusts rustc's MIR and the value engine.")
na("N01", "Any point data survives compression and decompression through files",
   "Compressing any sequence of points and decompressing the result gives back the same bytes, for every configuration.",
   "inputs histories configurations", "all point sequences and configurations", "a test samples a few files",
   "src/laszip/mod.rs", [("compress_buffer / decompress_buffer", "src/laszip")],
   "As one end-to-end statement it composes the arithmetic coder's interval invariant (unbounded carry propagation over numeric state) with everything else; no static argument in reach bounds it. Its parts are claimed separately.")
na("N02", "Corrupt or hostile compressed data never panics or loops",
   "Decompressing arbitrary bytes returns an error or data, without panicking, without unbounded allocation and in time proportional to the data.",
   "inputs", "all byte strings", "tests only use valid files",
   "src/decoders.rs src/record.rs", [("decode_symbol", "src/decoders.rs")],
   "Depends on numeric invariants of the decoder's interval (divisor not zero, table indices in range) that hold only for well-formed streams; the code does not promise it, and a sound static bound is out of reach.")
na("N03", "Compressed output is identical to that of the reference implementation",
   "For any points and configuration the compressed bytes equal those of LASzip.",
   "inputs", "all point sequences", "no reference implementation is available to the tests",
   "src/encoders.rs", [("encoders", "src/encoders.rs")],
   "The oracle (LASzip) is not in the repository, so there is nothing to decide it against statically.")
