#!/usr/bin/env python3
# Generates properties.jsonl (kept as a script so the list stays reviewable).
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Encoding a table and decoding it returns the same table",
 "Any table of integer, real, double, bitfield and string columns that is encoded through the column-oriented API decodes to the same columns in the same order with the same names and types, and the same rows in the same order. Integers, bitfields, doubles and strings come back exactly and 32-bit reals to single precision; a missing cell comes back as missing and no other cell does. This holds for every row count, rows-per-frame limit, string width, and source memory layout, and in both integer-as-double and integer-as-long modes.",
 ["inputs","configurations"],"all tables, column types, value distributions (constant, tiny range, full range, extremes, missing), string widths, source strides / row or column major layouts, rows per frame, integer mode",
 "tests encode a handful of fixed tables; which codec is used (and its edge: 255/256 distinct values, range exactly 0xfe/0xff/0xfffe/0xffff, a missing value in the first row, single row) depends on the data, so the input space decides",
 ["src/odc/core/Encoder.cc","src/odc/core/Table.cc","src/odc/codec/CodecOptimizer.cc","src/odc/codec/Integer.h","src/odc/codec/IntegerMissing.h","src/odc/codec/Real.h","src/odc/codec/String.h","src/odc/codec/Constant.h","src/odc/api/odc.cc","src/odc/api/Odb.cc","src/odc/api/StridedData.h"],
 [("codec selection from per-column statistics","CodecOptimizer.cc setOptimalCodec"),("value statistics","core/Codec.cc gatherStats"),("row delta marker","core/Encoder.cc encodeFrame / core/Table.cc decode"),("strided views","api/StridedData.h")],
 ["C API odc_encode_to_*/odc_decode output arrays","C++ API encode/Decoder"],
 [("column statistics","min, max, has-missing of the rows of one frame","core/Codec.h"),("last values of the row delta","values of previous row per column","core/Table.cc")])

prop("C02","Encoded output conforms to the documented file format",
 "Every byte stream the library writes is a sequence of frames as the format reference describes: magic, version, byte order, header length and MD5 digest, row count, data length, properties, column definitions and codec parameters, and row data all agree with each other and fill the stream exactly. A decoder written only from the format reference recovers from it exactly the table that was encoded, with the frame row counts the caller asked for.",
 ["inputs","configurations"],"all tables and encoder settings, for the frame encoder and for the row writer",
 "existing tests read back only through the same library, so an error made symmetrically in writer and reader, or in fields the reader ignores, is invisible; the fixed samples reach few codecs",
 ["src/odc/core/Encoder.cc","src/odc/core/Header.cc","src/odc/core/MetaData.cc","src/odc/core/Column.cc","src/odc/core/DataStream.h","src/odc/codec/String.h","src/odc/codec/Integer.h","src/odc/codec/IntegerMissing.h","src/odc/codec/Real.h","src/odc/WriterBufferingIterator.cc"],
 [("header serialisation and digest","core/Header.cc serializeHeader"),("codec parameter serialisation","codec/*.h save"),("row markers","core/Encoder.cc, WriterBufferingIterator.cc doWriteRow")],
 ["bytes written to buffer / file / stream"])

prop("C03","Every valid ODB-2 stream decodes to the values it denotes",
 "For any stream valid under the format reference - written on a machine of either byte order, with any codec legal for a column, any legal choice of how many leading columns a row repeats, any declared missing value and any supported version - reading it yields exactly the frames, metadata, and values the reference assigns to those bytes. The frame API, the row iterator and copies made of a frame all agree on them.",
 ["inputs"],"all valid streams, including encodings this library would not itself produce (suboptimal codecs, full rows, first row omitting leading columns, other-endian producers, older versions)",
 "tests read files this library wrote plus one captured byte array per codec; foreign byte order and suboptimal markers are reached by at most one sample each",
 ["src/odc/core/Table.cc","src/odc/core/Header.cc","src/odc/core/Codec.cc","src/odc/core/CodecFactory.h","src/odc/core/DataStream.h","src/odc/core/Column.cc","src/odc/core/MetaData.cc","src/odc/codec/Integer.h","src/odc/codec/IntegerMissing.h","src/odc/codec/Real.h","src/odc/codec/String.h","src/odc/codec/Constant.h","src/odc/ReaderIterator.cc"],
 [("byte order handling","core/DataStream.h OtherByteOrder, core/Header.cc"),("codec loading","core/CodecFactory.h, codec/*.h load"),("row delta decode","core/Table.cc decode, ReaderIterator.cc next"),("codec cloning","core/Codec.cc clone")],
 ["C API decode output","C++ Reader rows"])

prop("C04","Concatenated streams read as the concatenation of their frames",
 "Concatenating valid ODB-2 streams byte for byte gives a valid stream whose frames are those of the parts, in order, each keeping its own columns, properties, row count and values. The reported byte offset and length of the frames tile the stream from its first byte to its last with no gap or overlap, and the raw encoded bytes a frame hands out are those bytes and decode on their own to the same frame. Iteration returns each frame exactly once and then reports completion, however often it is asked.",
 ["inputs","histories"],"all sequences of streams with differing schemas, sizes and byte orders, and all iteration orders",
 "a test concatenates a couple of fixed files; offsets and raw data are only checked on one sample",
 ["src/odc/core/TablesReader.cc","src/odc/core/Table.cc","src/odc/api/Odb.cc","src/odc/ReaderIterator.cc","src/odc/tools/ODAHeaderTool.cc"],
 [("lazy discovery of the next table","core/TablesReader.cc ensureTable"),("frame extents","core/Table.cc nextPosition, startPosition, readEncodedData")],
 ["odc_next_frame / row counts","Frame::offset/length/encodedData","odc header -offsets"])

prop("C05","Aggregated frames equal their constituent frames joined",
 "Iterating with aggregation partitions the stream's frames, in order, into logical frames: consecutive frames are joined only if they have the same set of columns with the same types and element sizes, a join never exceeds the requested row limit, and joining goes on as long as both allow. Decoding a logical frame gives exactly the rows of its constituents in order, matched by column name even if the constituents order or encode the columns differently.",
 ["inputs","configurations"],"all sequences of frames with equal, permuted, differently typed or differently sized columns; all row limits (none, below, at, above a frame boundary)",
 "tests aggregate one fixed sequence; limits at boundaries, reordered columns and growing string widths are not enumerated",
 ["src/odc/api/Odb.cc","src/odc/core/Table.cc","src/odc/core/MetaData.cc","src/odc/core/DecodeTarget.cc","src/odc/core/Column.cc"],
 [("compatibility test","core/MetaData.cc compatible / core/Column.cc"),("row-limit aggregation","api/Odb.cc ReaderImpl::next"),("target slicing per table","api/Odb.cc DecoderImpl::decode, core/DecodeTarget.cc slice")],
 ["odc_next_frame_aggregated, odc_decode outputs, Frame column info"])

prop("C06","Decoded values do not depend on target layout or column subset",
 "Decoding any subset of a frame's columns, in any order, by full or unambiguous short name, into library-allocated, caller-supplied whole-table (row or column major) or caller-supplied per-column strided memory, yields for each requested cell the value that decoding everything yields. The reported sizes, strides and addresses locate those cells, string cells wider than the data are padded with zero bytes, and no byte outside the requested cells is changed.",
 ["inputs","configurations"],"all frames, all column subsets and orders, all layouts, strides, widths and row capacities",
 "tests use a few fixed layouts and never check surrounding bytes",
 ["src/odc/api/odc.cc","src/odc/api/StridedData.h","src/odc/core/Table.cc","src/odc/core/DecodeTarget.cc","src/odc/api/Odb.cc"],
 [("decoder defaults and layout computation","api/odc.cc fill_in_decoder"),("strided cell addressing","api/StridedData.h"),("column lookup","core/Table.cc simpleColumnLookup / columnLookup")],
 ["decoded arrays and guard bytes","odc_decoder_data_array / odc_decoder_column_data_array"])

prop("C07","Parallel decoding gives the sequential result",
 "Decoding a logical frame with any number of worker threads gives the same bytes, row count and success or failure as decoding it with one. Frames and their copies taken from one reader, and independent readers, may be decoded concurrently without affecting each other's results.",
 ["schedules","inputs"],"all thread counts relative to the number of joined frames, all schedules of the workers, all aggregated inputs",
 "one test decodes one file with a fixed thread count; races on the shared file position or target slicing need particular interleavings and frame counts",
 ["src/odc/api/Odb.cc","src/odc/core/ThreadSharedDataHandle.cc","src/odc/core/Table.cc","src/odc/core/DecodeTarget.cc","src/odc/core/TablesReader.cc"],
 [("shared handle with private position","core/ThreadSharedDataHandle.cc read/seek under mutex"),("work queue","api/Odb.cc DecoderImpl::decode"),("tables reader lock","core/TablesReader.cc")],
 ["decoded arrays under different thread counts", "data-race reports of an instrumented build"])

prop("C08","Every source and sink carries the same bytes and data",
 "Reading a stream through a path, a file descriptor, a memory buffer or a user read callback gives the same frames and data, including when the callback delivers fewer bytes than asked. Encoding through a memory buffer, a file descriptor or a user write callback produces the same bytes and reports exactly the number written; a destination that is too small or fails is reported as an error and never overrun.",
 ["inputs","configurations","fault_sequences"],"all streams, all chunkings of read callbacks, descriptor start offsets, all buffer capacities around the needed size, write callbacks that fail or write short",
 "tests use each source or sink at most once with an exactly fitting or ample destination",
 ["src/odc/api/odc.cc","src/odc/api/Odb.cc","src/odc/core/ThreadSharedDataHandle.cc","src/odc/core/TablesReader.cc","src/odc/core/Encoder.cc"],
 [("stream adaptors","api/odc.cc ReadStreamDataHandle / WriteStreamDataHandle / FileDescriptor handles"),("buffer sink bound","api/odc.cc odc_encode_to_buffer")],
 ["C API return codes, byte counts, buffers with guard bytes"])

prop("C09","Truncated or damaged streams are reported, never misread",
 "If a stream is cut at any byte that is not a frame boundary, or any byte of a frame's fixed or variable header is changed (other than to another supported version number), reading reports an error instead of success, while the complete undamaged frames before the damage are still returned with their correct data, save that an aggregated frame being joined at the damage may give way to the error. A cut exactly at a frame boundary reads as the shorter valid stream, so a writer that dies at any point leaves a file whose whole frames remain readable.",
 ["crash_points","inputs","fault_sequences"],"all cut positions of all streams, all single- and multi-byte header changes, for the frame API, the row iterator and a writer killed at any point",
 "tests include no truncated or damaged inputs beyond one or two samples; the quantifier is over every byte position",
 ["src/odc/core/Header.cc","src/odc/core/Table.cc","src/odc/core/TablesReader.cc","src/odc/core/DataStream.h","src/odc/ReaderIterator.cc","src/odc/api/Odb.cc","src/odc/core/Exceptions.cc"],
 [("header digest check","core/Header.cc"),("magic and version checks","core/Header.cc"),("short read detection","core/TablesReader.cc ensureTable, core/Table.cc readEncodedData, ReaderIterator.cc")],
 ["error codes of iteration and decode; data returned before the damage"])

prop("C10","Hostile input is rejected without memory errors, hangs or aborts",
 "Whatever bytes are presented as an ODB-2 stream - including streams whose header digest is correct but whose counts, sizes, indices, codec parameters or row data are inconsistent - every reading entry point either yields data or reports an error. It never reads or writes outside its buffers, never loops forever, never terminates the process, and never allocates memory out of proportion to the input because of a forged count.",
 ["inputs"],"all byte strings, in particular structure-aware mutations that keep the digest valid",
 "no test feeds malformed input with a correct digest; the malformed space is unbounded",
 ["src/odc/core/Header.cc","src/odc/core/DataStream.h","src/odc/core/MetaData.cc","src/odc/core/Column.cc","src/odc/core/Table.cc","src/odc/codec/String.h","src/odc/codec/Constant.h","src/odc/core/CodecFactory.cc","src/odc/ReaderIterator.cc","src/odc/core/TablesReader.cc","src/odc/core/Span.cc"],
 [("bounds checks on stream reads","core/DataStream.h"),("sanity checks on loaded metadata","core/Header.cc, core/MetaData.cc, codec/String.h load"),("row marker check","core/Table.cc decode")],
 ["process exit, sanitizer reports, return codes"])

prop("C11","C API calls fail cleanly and leave their objects usable",
 "Every C API call either succeeds or returns an error code for which an error description exists, invokes the registered failure handler exactly once with that code, and lets no exception escape. Invalid arguments - out-of-range column, bitfield or property indices, unknown column names or types, missing files, inconsistent sizes, null handles - are reported this way, and after a failed call every object still behaves as if the call had not been made.",
 ["inputs","histories","fault_sequences"],"all sequences of valid and invalid API calls over readers, frames, decoders and encoders",
 "tests check a few error returns individually; the property is about every call in every history",
 ["src/odc/api/odc.cc","src/odc/api/Odb.cc","src/odc/api/odc.h"],
 [("exception translation","api/odc.cc wrapApiFunction / innerWrapFn"),("argument assertions","api/odc.cc ASSERT checks, api/Odb.cc")],
 ["return codes, handler invocations, subsequent results of the same handles"])

prop("C12","Spans describe exactly the distinct values of a frame",
 "The span of a frame over any of its columns, by full or short name, gives for each column exactly the set of distinct values the decoded data has there, of the right type, together with the frame's byte offset and length. Two spans are equal exactly when they hold the same values of the same columns, wherever their frames lie. Asking only for constant columns succeeds with the same result when every requested column is stored as a constant, and fails when one has several values.",
 ["inputs"],"all frames, column types, codecs and column selections",
 "one test computes spans of one file; string, missing, multi-valued and foreign-order columns vary by input",
 ["src/odc/core/Span.cc","src/odc/core/Table.cc","src/odc/api/Odb.cc"],
 [("value collection per column","core/Table.cc decodeSpan / span"),("span visiting and extending","core/Span.cc")],
 ["Frame::span / Span::visit in the C++ API"])

prop("C13","Metadata survives encode, decode, aggregation and copy",
 "Column names, types, decoded element sizes, bitfield member names, sizes and bit offsets, and the key/value properties attached to an encoder are all reported by every frame read back from its output, completely and unchanged. Copies of a frame report the same, independently of what happens to the original; a logical frame reports the union of its constituents' properties and element sizes large enough for all of them.",
 ["inputs","histories"],"all metadata, including empty, long and non-ASCII names, up to 32-bit bitfields, many properties, frames of differing metadata, and all copy/advance/free orders",
 "tests check one or two bitfield columns and properties on a fixed file",
 ["src/odc/core/Column.cc","src/odc/core/MetaData.cc","src/odc/core/Header.cc","src/odc/api/Odb.cc","src/odc/api/odc.cc","src/odc/api/ColumnInfo.h"],
 [("column info","api/Odb.cc FrameImpl::columnInfo"),("properties merge","api/Odb.cc FrameImpl"),("header serialisation","core/Header.cc")],
 ["odc_frame_column_attributes, bitfield_attributes, property calls"])

prop("C14","The row writer and row reader preserve every row across flushes",
 "Writing rows one by one - through any row-buffer size, any number of implicit or explicit flushes, header changes and string-column widenings - and reading them back gives the same rows in the same order with the same columns. The frame API reads the same data from that file, and a writer writing in append mode leaves the existing content intact before its own.",
 ["inputs","histories","configurations"],"all row sequences, buffer sizes, flush points, schemas and append histories",
 "tests write small tables that fit one buffer, so flush boundaries and schema changes are rarely reached",
 ["src/odc/Writer.h","src/odc/Writer.cc","src/odc/WriterBufferingIterator.cc","src/odc/Reader.cc","src/odc/ReaderIterator.cc","src/odc/IteratorProxy.h"],
 [("buffering and flush","WriterBufferingIterator.cc writeRow / flush"),("first row handling","WriterBufferingIterator.cc doWriteRow"),("row iteration","ReaderIterator.cc next / loadHeaderAndBufferData")],
 ["Reader rows; C API decode of the written file"])

prop("C15","Text import preserves the table written in the text",
 "Importing delimited text with a typed header gives an ODB-2 table with the columns, types and bitfields of that header and, for each line, the values of its fields: numbers parse to their value, NULL fields are missing, quoted and unquoted strings come back character for character at any length, bitfields take their integer value. Rows keep their order, any delimiter may be chosen, whichever import entry point is used, and a malformed header or line is an error rather than silently dropped or shifted data.",
 ["inputs","configurations"],"all headers, delimiters, field texts and line counts, string widths growing during the import",
 "tests import about ten hand-written texts",
 ["src/odc/csv/TextReaderIterator.cc","src/odc/csv/TextReader.cc","src/odc/StringTool.cc","src/odc/tools/ImportTool.cc","src/odc/api/Odb.cc"],
 [("header parsing","csv/TextReaderIterator.cc parseHeader"),("field parsing and widening","csv/TextReaderIterator.cc next"),("import entry points","tools/ImportTool.cc, api/Odb.cc odbFromCSV")],
 ["decoded output of odc import and of the C++ import function"])

prop("C16","Queries return exactly the rows and values the data imply",
 "Selecting columns from an ODB-2 source with a filter returns, in file order, exactly the rows satisfying the condition with exactly the projected values and types, where missing cells satisfy no comparison. This holds when the source is a sequence of frames whose column sets, order, types or string widths change, and for names with or without table suffix, bitfield members, ordering, distinct and row limits.",
 ["inputs","programs","configurations"],"all tables, frame sequences and queries of the supported fragment",
 "tests run a few dozen fixed queries on fixed files with one schema",
 ["src/odc/Select.cc","src/odc/SelectIterator.cc","src/odc/sql/TODATable.cc","src/odc/sql/TODATableIterator.cc","src/odc/sql/SQLSelectOutput.cc","src/odc/tools/SQLTool.cc","src/odc/api/Odb.cc"],
 [("table schema and column binding","sql/TODATable.cc, sql/TODATableIterator.cc copyRow / updateColumns"),("schema change propagation","sql/TODATableIterator.cc"),("result buffering","sql/SQLSelectOutput.cc, SelectIterator.cc")],
 ["odc sql text output, C++ Select rows, frame filter output"])

prop("C17","Query results stored as ODB-2 equal the results themselves",
 "Writing the result of a query, or a filtered frame, as ODB-2 stores the columns with their names, types, bitfield definitions, missing cells and full-width strings, and reads back as the rows the query itself returns. Filtering with an always-true selection of all columns therefore reproduces the source table.",
 ["inputs","programs"],"all sources and queries, including string widths, column sets and types that change while the result is being written",
 "one unit test writes one small result",
 ["src/odc/sql/ODAOutput.cc","src/odc/sql/SQLOutputConfig.cc","src/odc/Writer.h","src/odc/WriterBufferingIterator.cc","src/odc/api/Odb.cc","src/odc/tools/SQLTool.cc"],
 [("output type mapping and widening","sql/ODAOutput.cc prepare / updateTypes / outputString"),("frame filter","api/Odb.cc Filter")],
 ["decoded odc sql -f odb output; Frame filter output"])

prop("C18","Splitting partitions the rows of the input by key",
 "Splitting a file by a template of key columns writes each input row to exactly one output file, the one named by that row's key values, and the output files together hold exactly the input rows, unchanged, in input order within each file. This holds for any number of distinct keys relative to the limit on simultaneously open files, for any key column types, and when the input's columns change between frames.",
 ["inputs","configurations"],"all inputs, key columns, templates and open-file limits",
 "one script splits one file with few keys, so eviction and reopening of output files never happens",
 ["src/odc/WriterDispatchingIterator.cc","src/odc/DispatchingWriter.cc","src/odc/TemplateParameters.cc","src/odc/tools/SplitTool.cc","src/odc/WriterBufferingIterator.cc"],
 [("dispatch by key","WriterDispatchingIterator.cc dispatchIndex / createIterator"),("open-file eviction and append on reopen","WriterDispatchingIterator.cc")],
 ["names and decoded content of the output files"])

prop("C19","Merging joins rows position by position without altering values",
 "Merging files with equal row counts yields a file whose i-th row is the concatenation of the i-th rows of the inputs, with every column's name, type, missing cells and full string width preserved. Inputs whose row counts differ or whose columns clash are reported as an error instead of giving partial data.",
 ["inputs"],"all pairs (or tuples) of input files, including several frames and wide strings",
 "a regression test merges two fixed files",
 ["src/odc/tools/MergeTool.cc","src/odc/Writer.h","src/odc/WriterBufferingIterator.cc"],
 [("row-wise merge","tools/MergeTool.cc doMerge")],
 ["decoded output of odc merge"])

prop("C20","Rewriting tools keep the data they rewrite",
 "Compacting a file, or rewriting it with fixed-size rows, gives a file with the same columns, types, bitfield definitions and cell values (missing staying missing) in the same row order. With fixed-size rows all rows of a frame of the output occupy the same number of bytes, and compacting an already compacted file changes neither its size nor its data.",
 ["inputs"],"all valid input files, including multi-frame, mixed-schema, foreign-order and suboptimally encoded ones",
 "no test checks these tools on more than a sample",
 ["src/odc/tools/CompactTool.cc","src/odc/tools/FixedSizeRowTool.cc","src/odc/Writer.h","src/odc/WriterBufferingIterator.cc"],
 [("pass-through copy","WriterBufferingIterator.cc pass1"),("optimising vs fixed codecs","WriterBufferingIterator.cc, FixedSizeRowTool.cc")],
 ["decoded output and bytes of odc compact / fixrowsize"])

prop("C21","Updating tools change only what they are asked to change",
 "Setting columns to constants rewrites exactly the named columns in every row and leaves every other cell, column, name and type as it was. Setting metadata changes exactly the types, or the values of constants, of the named columns in every frame without touching any other stored value, and naming a column that does not exist is reported or has no effect on the others.",
 ["inputs"],"all input files (wide strings, several frames, mixed schemas, foreign order) and all assignments",
 "two regression scripts set one column of one file",
 ["src/odc/ODAUpdatingIterator.cc","src/odc/ConstantSetter.cc","src/odc/MDUpdatingIterator.cc","src/odc/MDSetter.cc","src/odc/tools/SetTool.cc","src/odc/tools/MDSetTool.cc"],
 [("constant substitution","ODAUpdatingIterator.cc"),("metadata rewrite","MDUpdatingIterator.cc, tools/MDSetTool.cc")],
 ["decoded output of odc set / mdset"])

prop("C22","Comparison accepts exactly the equal files",
 "Comparing a file with itself or with any re-encoding of the same data (other frame sizes, codecs or byte order) succeeds; changing any one value (a real by more than the relative 1e-9 allowed for), missing status, column name, type, or the number of rows makes it fail, whichever file is given first. Excluded columns and only they are exempt, and tolerance options loosen only the comparison they name.",
 ["inputs","configurations"],"all pairs of files and all single-point differences, all exclusion sets",
 "tests compare a few fixed pairs; the failing side (every kind of difference is noticed) is not covered",
 ["src/odc/Comparator.cc","src/odc/Comparator.h","src/odc/tools/CompareTool.cc"],
 [("row and metadata comparison","Comparator.cc compare / compareMetaData / same"),("exclusions and tolerances","tools/CompareTool.cc")],
 ["exit status of odc compare"])

prop("C23","Inspection tools report what decoding the file shows",
 "Counting, listing, header, offset and DDL reports, xyv output and index files agree with the decoded content: the rows, columns, names, types, bitfields, min/max and missing indicators of each frame, its byte offset and size, the values printed for each cell, and for each frame and value of seqno the number of rows in the index. A query of the part of a file given by -offset and -length sees exactly the frames there. None of them modifies the file.",
 ["inputs"],"all valid files",
 "tests look at the output for one file each",
 ["src/odc/tools/CountTool.cc","src/odc/RowsCounter.cc","src/odc/tools/ODAHeaderTool.cc","src/odc/tools/LSTool.cc","src/odc/tools/IndexTool.cc","src/odc/Indexer.cc","src/odc/tools/XYVTool.cc","src/odc/tools/SQLTool.cc"],
 [("fast row counting","RowsCounter.cc"),("header dump","tools/ODAHeaderTool.cc"),("block index","Indexer.cc, Block.cc")],
 ["text output of odc count / header / ls; content of index files"])

prop("C24","The legacy C interface and its Fortran bindings agree with the current one",
 "Reading, querying and writing through the legacy row-oriented C interface, or its Fortran bindings with their one-based column offsets, gives the same columns, types, bitfields, values and row counts as the current API gives for the same data, and what it writes or appends reads back through the current API as the rows given to it. Its iterators report the end of data exactly once all rows are consumed, and a row larger than the buffer size a query reported is an error, never written past it.",
 ["inputs","histories"],"all tables, queries and append histories through the legacy interface",
 "the legacy tests use a few fixed rows",
 ["src/odc/odccapi.cc","src/odc/odccapi.h","src/fortran/odc_c_binding.f90"],
 [("handle based wrapper over reader, writer and select","odccapi.cc")],
 ["values returned by odb_read_iterator_* / odb_select_iterator_* and files written through odb_write_iterator_*"])

prop("C25","The Fortran interface agrees with the C interface",
 "Encoding and decoding through the Fortran interface gives the same columns, attributes, properties, values and error codes as the C interface for the same data, with one-based indices, column- or row-major arrays and blank-padded strings mapped as documented. Optional arguments that are left out have their default in every call, whatever earlier calls were given.",
 ["inputs"],"all tables and array shapes passed through the Fortran interface",
 "the Fortran tests encode and read one or two fixed tables and give most optional arguments",
 ["src/odc/api/odc.f90","src/odc/api/odc.cc"],
 [("bindings and index/stride translation","api/odc.f90")],
 ["data and attributes printed by a Fortran driver versus the C API"])

prop("C26","Frame and reader handles behave independently in any history",
 "For every order of opening, advancing, copying, querying, decoding and freeing readers, frames and decoders, each frame handle keeps describing and decoding the frame it was positioned on, as a fresh read of that frame would; advancing any frame of a reader takes the next of that reader's frames in the mode and up to the row limit asked for. Decoding twice gives the same result, and neither advancing or freeing another handle nor a failed call on it changes what a handle returns.",
 ["histories"],"all histories of API calls over several readers, frames, copies and decoders",
 "tests use each handle linearly: open, next, decode, free",
 ["src/odc/api/odc.cc","src/odc/api/Odb.cc","src/odc/core/TablesReader.cc","src/odc/core/Table.cc","src/odc/core/ThreadSharedDataHandle.cc"],
 [("shared table list","core/TablesReader.cc"),("frame copying","api/odc.cc odc_copy_frame, api/Odb.cc FrameImpl"),("private read position","core/ThreadSharedDataHandle.cc")],
 ["results of API calls along generated histories compared with a model"])

prop("C27","Configured missing values mean missing on both sides",
 "After the caller configures the missing integer or missing double value, cells holding that value are treated as missing when encoding, and cells that are missing in a file are delivered so that the caller can recognise them by the missing value the data declares. Values that merely lie close to a missing value, or equal the missing value of another type, are never turned into missing or back.",
 ["configurations","inputs"],"all missing-value settings and tables containing them, per type, before and after encoding",
 "tests use the default values, or one custom value for one column",
 ["src/odc/api/odc.cc","src/odc/api/Odb.cc","src/odc/ODBAPISettings.cc","src/odc/MDI.cc","src/odc/core/Column.cc","src/odc/core/Codec.cc","src/odc/codec/IntegerMissing.h","src/odc/codec/Real.h"],
 [("global settings","ODBAPISettings.cc, MDI.cc"),("per-column missing value","core/Codec.cc, core/Column.cc"),("missing-aware codecs","codec/IntegerMissing.h, codec/Real.h")],
 ["decoded arrays and the format-level missing representation"])

prop("C28","Encoding and rewriting are deterministic and non-destructive",
 "Encoding the same table with the same settings always gives the same bytes, whichever memory layout holds the source and whatever was encoded or read before in the process, and never alters the source arrays. Re-encoding the decoded table gives the same bytes again, from the second time on even where the first narrows strings or rounds the limits of REAL columns to single precision.",
 ["inputs","histories"],"all tables, layouts and preceding histories in the process",
 "tests never encode twice and compare bytes",
 ["src/odc/core/Encoder.cc","src/odc/api/odc.cc","src/odc/codec/CodecOptimizer.cc","src/odc/api/Odb.cc"],
 [("per-call codec state","core/Encoder.cc"),("const source views","api/StridedData.h")],
 ["byte comparison of encoded output, source arrays before and after"])

prop("C29","Failed reads and writes are reported, never taken for success",
 "If writing to any output fails or comes up short at any byte - a full disk, a failing handle - the tool, writer, filter, import or encoder reports an error instead of success, without aborting the process, and what it has written is a prefix of its full output, so that the whole frames there remain readable. If reading the input fails at any byte, the error is reported rather than taken for the end of the data.",
 ["crash_points","inputs"],"all inputs, all tools and entry points, and all bytes at which a read or write may fail",
 "tests never make a read or a write fail",
 ["src/odc/WriterBufferingIterator.cc","src/odc/tools/SQLTool.cc","src/odc/tools/MDSetTool.cc","src/odc/tools/ToolRunnerApplication.cc","src/odc/core/Encoder.cc","src/odc/core/TablesReader.cc","src/odc/api/Odb.cc","src/odc/Reader.cc"],
 [("frame writes","WriterBufferingIterator.cc flush / close / destructor"),("text output","tools/SQLTool.cc, tools/ToolRunnerApplication.cc"),("header and data copies","tools/MDSetTool.cc"),("input","core/TablesReader.cc, core/ThreadSharedDataHandle.cc")],
 ["exit status, exceptions, and the bytes that reached the output"])

prop("C30","Settings change how data is stored, never the data",
 "Whatever the documented environment variables and setter functions ask for - sizes of the header, row and stream buffers, limit of open files, default codecs legal for a type, long string constants, integers delivered as integers, asynchronous writing - every command and interface ends, prints and writes the same tables, properties and text as without them, although stored bytes may differ. A setting that leaves no way to proceed is reported as an error; none makes the process crash, hang or lose data.",
 ["configurations","inputs"],"all combinations of settings for every command and interface",
 "the tests run with the default settings only",
 ["src/odc/ODBAPISettings.cc","src/odc/WriterBufferingIterator.cc","src/odc/core/Header.cc","src/odc/codec/CodecOptimizer.cc","src/odc/codec/CodecOptimizer.h","src/odc/tools/ToolRunnerApplication.cc","src/odc/DispatchingWriter.cc"],
 [("environment and setters","ODBAPISettings.cc"),("header buffer","core/Header.cc serializeHeaderInternal"),("rows buffer","WriterBufferingIterator.cc allocRowsBuffer"),("default codecs","codec/CodecOptimizer.cc")],
 ["exit status, output text and decoded tables with and without the settings"])

prop("C31","Requests that cannot be carried out are refused without side effects",
 "A command line that a tool cannot carry out - too few or too many arguments, an input that does not exist or is not ODB-2, an output that cannot be made, a column the file does not have, a malformed assignment, type, template or query - ends with a non-zero exit status and a message, never in a crash or apparent success, and changes and makes no file but the output it names. In a process, a refused query, filter, encode, decode or span is reported by an exception and leaves every later request with the result it would have had alone.",
 ["inputs","histories"],"all command lines and histories of requests",
 "tests try a dozen fixed wrong command lines per tool, and no request after a refused one",
 ["src/odc/tools/Tool.cc","src/odc/CommandLineParser.cc","src/odc/tools/ToolRunnerApplication.cc","src/odc/tools/SetTool.cc","src/odc/tools/MDSetTool.cc","src/odc/tools/SplitTool.cc","src/odc/TemplateParameters.cc","src/odc/sql/TODATable.cc","src/odc/Select.cc","src/odc/api/Odb.cc"],
 [("argument counts","tools/*Tool.cc run()"),("templates","TemplateParameters.cc parse"),("assignments","tools/SetTool.cc parseUpdateList, tools/MDSetTool.cc parseUpdateList"),("columns of queries","sql/TODATable.cc column")],
 ["exit status, messages and files; exceptions and later results"])

prop("C32","Independent objects can be used by several threads at once",
 "Threads that each work on readers, frames, decoders, encoders, row readers and writers and text imports of their own get the results, error codes, descriptions of errors and integer mode that each would get alone, from the first use of the library in the process on. They never race for memory, whatever the schedule; queries, whose engine belongs to another library, are not promised this.",
 ["schedules","inputs"],"all schedules of threads that share no objects, starting from a fresh process",
 "tests use a single thread, after the library is warm",
 ["src/odc/api/odc.cc","src/odc/api/Odb.cc","src/odc/codec/CodecOptimizer.h","src/odc/codec/CodecOptimizer.cc","src/odc/core/Encoder.cc","src/odc/core/CodecFactory.cc","src/odc/ODBAPISettings.cc","src/odc/Writer.h","src/odc/Reader.cc"],
 [("error descriptions","api/odc.cc"),("integer mode","api/odc.cc"),("default codecs","codec/CodecOptimizer.cc"),("factories","core/CodecFactory.cc")],
 ["results of the jobs of each thread against the same jobs alone; races seen by ThreadSanitizer"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
for p in P:
    assert len(p["title"])<=80,(p["id"],len(p["title"]))
    n=p["statement"].count(". ")+1
    assert n<=3,(p["id"],n)
    for x in p["anchors"]["files"]: assert os.path.exists("/repo/"+x),x
print(len(P))
