"""One entry per claimed property: what is built, how many cases run, what must have been observed."""
ODC = ["odccore"]
TOOLS = ["odccore", "odctools", "odc"]


def spec(src, rule, note, technique, quick, thorough, require=(), level="exploration", **kw):
    d = dict(src=src, rule=rule, note=note, technique=technique, cases={"quick": quick, "thorough": thorough}, require=list(require), level=level,
             deadline={"quick": kw.pop("dq", 150), "thorough": kw.pop("dt", 3600)})
    d.update(kw)
    return d


SPECS = {
    "C01": spec(
        ["c01"],
        "Random tables (1-12 columns of all types, ranges on both sides of every storage boundary, constants, dictionaries of 254-600 strings, "
        "strings of 0-1200 bytes, runs, 0-70000 rows) are encoded and decoded through the C API in a random layout and integer treatment and compared "
        "cell by cell with the table supplied. A case counts as distinct by its shape: column types, generator styles, widths, row count class.",
        "Differential test of the real encoder and decoder under ASan+UBSan; REAL cells compared at single precision.",
        "sanitized round-trip monitor with value oracle", 14000, 400000, ["cells compared"]),
    "C02": spec(
        ["c02"],
        "Random tables with missing cells in every position pattern, custom markers and values adjacent to every marker the storage uses internally, "
        "read back by the frame interface, the row interface (isMissing, advertised marker) and an independent parser. "
        "Non-trivial: at least one missing cell; distinct by shape and markers.",
        "Both directions are checked for each numeric cell: missing iff supplied as missing.",
        "sanitized round-trip monitor with missing-cell oracle", 14000, 300000, ["missing cells", "tables with custom markers"]),
    "C03": spec(
        ["c03"],
        "Random tables are encoded row-major, column-major and per column with random slack and strides; one decoder object is reconfigured at random "
        "(owned or caller memory, row- or column-major, per-column arrays, explicit element sizes, row counts) and used for frames of different row "
        "counts, string widths and column orders; targets that are too small in one way are mixed in. Every byte of the targets is compared with what "
        "the layout defines. Distinct by table shape and layout.",
        "Heap blocks have exactly the stated size, so ASan sees every access outside them.",
        "sanitized layout monitor (shadow of every byte of the target)", 24000, 600000,
        ["decodes checked", "too small targets", "encodings by reused encoders", "aggregated decodes checked", "unusable encode layouts refused"]),
    "C04": spec(
        ["c04"],
        "Random tables with a unique row id are encoded with frame limits around every boundary, and files are concatenated from parts whose column order, "
        "number, names, types and widths vary; each is read frame by frame, aggregated with limits, with a different request at every step, through C++ "
        "with 0-3 threads and row by row, and compared with the stored frames found by an independent parser. Distinct by shape and limit class.",
        "Delivered frames must be exactly the aggregation of consecutive stored frames with the same columns.",
        "sanitized frame-sequence monitor against an independent parser", 8000, 200000, ["readings compared", "concatenations", "frames of no rows refused"]),
    "C05": spec(
        ["c05"],
        "Aggregated frames of 1-80 parts (different column orders, storage, byte orders) are decoded serially and with 2-16 threads from path, descriptor, "
        "memory and a callback with random delays, into every layout and column selection; one case in four damages one part or lets the source fail "
        "during the decode. Distinct by shape, number of parts and source.",
        "ThreadSanitizer build: a race report, a difference from serial decoding, or a success despite a part that cannot be decoded is a violation.",
        "ThreadSanitizer with serial-equivalence and lost-error oracles", 5000, 120000, ["threaded decodes compared", "failing parts"], flavour="tsan"),
    "C06": spec(
        ["c06"],
        "2-8 threads encode, decode, write and read rows, select and provoke errors at the same time, each with its own objects, on private data, on one "
        "shared file, and on frames taken from one shared reader; the first case of each process has every first use concurrent. Distinct by mode, "
        "thread count and shape.",
        "ThreadSanitizer build; each thread's results are compared with what it would obtain alone, error messages must be its own.",
        "ThreadSanitizer with per-thread result oracles", 3000, 60000, ["operations by concurrent threads"], flavour="tsan"),
}
SPECS.update({
    "C07": spec(
        ["c07", "iface"],
        "Files written natively (by the encoder or by the reference writer) and their counterparts with all or some frames of the opposite byte order, with "
        "identical storage, are read by the C API (5 layouts, 4 sources, aggregated), C++ frames, the row iterator, a row-wise copy and odc tools. "
        "Distinct by shape and pattern of swapped frames.",
        "The swapped files come from a writer built on the format reference only.",
        "sanitized differential monitor between byte orders", 2400, 120000, ["cells compared", "frames of opposite byte order", "tool outputs compared"], targets=TOOLS),
    "C08": spec(
        ["c08", "iface"],
        "Random tables are written by the C encoder (three layouts), the C++ encoder, the row writer, row-wise copies, text import and odc tools; the bytes are "
        "parsed by a reader built on the format reference, which checks every header field, digest, sizes, table and statistic, that no byte is left over, and "
        "that the cells are those written. Distinct by shape and writer.",
        "The independent parser is strict about what a writer must respect.",
        "sanitized writers with an independent format parser as oracle", 12000, 300000, ["frames parsed", "cells compared", "tool outputs parsed"], targets=TOOLS),
    "C09": spec(
        ["c09", "iface"],
        "Conforming files are generated from the format reference (every storage for every type it may serve, any missing value, row markers anywhere they may be, "
        "first rows starting after missing columns, shuffled string tables with unused entries, 0-30 user flags, minor versions 4 and 5, empty frames, mixed byte orders, "
        "changing columns) and read through all five interfaces. Distinct by storage sequence and shape.",
        "The writer is cross-checked by the independent parser on each case.",
        "sanitized readers against a reference writer", 8000, 250000,
        ["cells compared", "empty frames", "frames whose first row starts after column 0"] + ["columns stored as " + k for k in (
            "constant constant_or_missing real_constant_or_missing int8 int16 int32 int8_missing int16_missing long_real short_real short_real2 chars int8_string "
            "int16_string constant_string long_constant_string").split()]),
    "C10": spec(
        ["c10", "iface"],
        "Files of 1-40 frames are cut at every structural boundary and at random bytes, or have one header byte altered, and are read through ten reading modes; "
        "what is delivered is compared with the stored frames found by the independent parser in the intact file. Distinct by mode, kind of cut or header byte and shape.",
        "Checks that exactly the complete frames are delivered and that the end is an error unless the cut is a boundary.",
        "fault injection (truncation, header alteration) with a prefix oracle", 4000, 200000, ["cuts inside a frame", "altered headers read", "tools on cut files", "announcements", "streams"], targets=TOOLS),
    "C11": spec(
        ["c11", "iface", "hostile"],
        "Valid files are damaged field by field (any header field, with the digest recomputed), in their rows, by splicing and at random, then opened, inspected, decoded, "
        "aggregated, spanned, filtered, selected, copied and given to fifteen tool invocations. Distinct by what was damaged and shape.",
        "ASan, UBSan and libstdc++ assertions decide; allocations above 256 MB are made to fail, a hang is a violation.",
        "structure-aware fuzzing under AddressSanitizer and UBSan", 3200, 600000, ["readings that succeeded", "readings that were refused", "tools run on damaged files"],
        targets=TOOLS, percase=120),
})
SPECS.update({
    "C12": spec(
        ["c12"],
        "Random sequences of 40-160 calls to every function of the C API, on a pool of readers (four kinds of source, intact, truncated and failing files), frames, "
        "decoders and encoders, with null, negative, out-of-range, huge, duplicate and inconsistent arguments, used in any order, before the first and after the last frame; "
        "then every frame must still decode, new data must round-trip and everything is freed in random order. Distinct by the sequence of calls and codes.",
        "A model of every object says which calls must succeed, which must fail and what a successful one must answer; handler calls, codes, messages and outputs of failed calls are checked on each.",
        "model-based API misuse under AddressSanitizer and UBSan", 12000, 200000,
        ["failures returned", "handler calls checked", "frames decoded after misuse", "encodings by misused encoders that succeeded", "decodes by misused decoders that succeeded", "exhausted readers"]),
})
SPECS.update({
    "C13": spec(
        ["c13", "iface"],
        "Random tables are encoded into sinks that accept a chosen number of bytes (at and around every header and frame boundary) and then return a short count, zero, "
        "-1, LONG_MIN, more than offered, always one byte less, or throw, once or for ever; into descriptors (files with earlier content, /dev/full, closed and full pipes, read-only, "
        "file size limits) and buffers of exact size; by the C and C++ encoders, the row writer with schema changes, text import, the file filter and twelve tool "
        "invocations under a file size limit. Distinct by sink, shape and frames.",
        "The bytes of a sink with room are the reference (checked by the independent parser); an attempt must either deliver exactly these and report their count, or report an error.",
        "sanitized writers with fault-injecting sinks and an exact-bytes oracle", 2600, 200000,
        ["buffers too small", "callback failures: short count", "descriptor failures: file size limit", "C++ failures: row writer", "encodings after a failure", "tools run with limited files"],
        targets=TOOLS),
})
SPECS.update({
    "C14": spec(
        ["c14", "iface", "hostile"],
        "Random sequences of next, aggregated next, copy, decode (any layout, column selection, 1-4 threads), metadata and free on six frames of one reader are executed "
        "on the same bytes from memory (the baseline, itself compared with the stored frames), path, descriptor (repositioned between the calls), pipe, callback, callback with "
        "random short pieces and byte by byte; then again with a callback that signals an error at a random call, once or for ever. Distinct by source, frames and shape.",
        "Every result of every call must be that of the baseline; the call during which the callback fails must return an error and nothing delivered later may be other than stored frames.",
        "sanitized differential execution over data sources with fault-injecting callbacks", 6000, 150000,
        ["results compared", "decodes compared with the stored frame", "callback errors", "results compared after a failure", "scripts by callback, one byte at a time",
         "scripts by descriptor being repositioned"]),
})
SPECS.update({
    "C15": spec(
        ["c15", "iface"],
        "Files of 1-8 frames whose columns are permuted, added, removed, retyped and widened, with names that share prefixes, tables and letters, are decoded by random requests: any "
        "subset in any order, each column by full name or by the part before the table suffix, one in five with a name that is absent, ambiguous or differs in suffix, case, length or "
        "prefix, or a column asked for twice; by C decoders in all layouts with 1-5 threads, by one decoder kept for all frames, and by C++ decoders with strided memory; aggregated and not. "
        "Distinct by shape and frames.",
        "Which column a name stands for is computed from the stored frames by the independent parser; unusable names must fail.",
        "sanitized decoding with a name-resolution oracle", 4000, 150000,
        ["selections compared", "selections by a decoder used for several frames", "requests which must fail: ambiguous", "requests which must fail: twice", "cells compared"]),
})
SPECS.update({
    "C16": spec(
        ["c16", "iface"],
        "Tables with names of any bytes up to 20 kB, up to 150 columns, up to 31 bitfield members with any (also empty) names, 0-400 properties with any keys and values up to 200 kB "
        "(NULs through C++) are written by the C encoder, the C++ encoder, the row writer and the reference writer as 1-5 frames with overlapping properties and permuted or different columns. "
        "Names, types, element sizes, members with offsets, properties (by index and by key) and counts are read through a random history of next, aggregated next, copy and free on C frames, "
        "C++ frames kept after their reader, and the row iterator at its rows. Distinct by shape, properties, writer and frames.",
        "The stored bytes are checked by the independent parser as well; the expected union of an aggregated frame is computed from the model.",
        "sanitized metadata monitor with a model of frames and copies", 8000, 250000,
        ["metadata compared", "aggregated frames checked", "copies", "bitfield members", "properties", "small header buffers", "encoders named"]),
})
SPECS.update({
    "C17": spec(
        ["c17", "iface"],
        "Files of 1-25 frames (constants of every kind, other constants per frame, missing cells, NaNs, wide strings, permuted and changed columns, both byte orders) are summarised frame by frame "
        "and aggregated (with limits), for random column sets by full or short names in random order, all values or only constants, with the integer treatment changed in between, and with absent "
        "and ambiguous names. Distinct by shape and frames.",
        "Offsets, lengths and the exact sets of distinct values are computed from the frames found by the independent parser; visitor, getters and equality are checked on each summary.",
        "sanitized span monitor with a distinct-values oracle", 6000, 200000,
        ["columns summarised", "aggregated summaries", "summaries of constants", "columns refused as not constant", "unusable names refused"]),
})
SPECS.update({
    "C18": spec(
        ["c18", "iface"],
        "Files of 1-20 frames (changed, permuted and widened columns, both byte orders, several encoders) are opened by path, memory, file handle and borrowed handle; offsets, lengths and "
        "encoded bytes of every frame and joined frame (with row limits) are taken while reading and after the reader is gone; frames, runs, permutations and repetitions are cut out by these numbers "
        "and read by all interfaces, and by part-file handles joined without copying. Distinct by shape, frames and size.",
        "Where frames begin and end, and what each holds, is computed by the independent parser; bytes are compared exactly, pieces row by row.",
        "sanitized frame-tiling monitor with a byte oracle and read-back of rearranged pieces", 4000, 150000,
        ["frames with offset and length", "joined frames", "encoded bytes of frames compared", "arrangements of frames read", "joined parts read", "offset lists of the tool", "files rebuilt from encoded bytes"],
        targets=TOOLS),
})
SPECS.update({
    "C19": spec(
        ["c19", "iface"],
        "Files of 1-15 frames (columns permuted, added and removed, widths and missing markers changing, both byte orders, table suffixes with clashing short names, now and then 20000 rows) are "
        "queried by generated SQL: column lists, *, aliases, bitfield members, arithmetic, comparisons, between, in, like, null tests, nested and/or/not, distinct, order by, grouped and plain "
        "aggregates. The query is run by the select iterator, the file filter, the frame filter (single and joined frames), odc sql into a file and as text (full precision, delimiters, binary "
        "bitfields, offset and length). Distinct by query and shape.",
        "An interpreter over the model rows (with the engine's treatment of NULL) gives the exact rows, order, names, types and members each interface must deliver.",
        "sanitized SQL execution against a reference interpreter", 6000, 150000,
        ["selections by iterator", "selections by file filter", "frames filtered", "selections by tool, binary", "selections by tool, text", "queries: distinct", "queries: order by",
         "queries: aggregates", "selections refused", "rows compared"],
        targets=TOOLS),
})
SPECS.update({
    "C20": spec(
        ["c20", "iface"],
        "Texts are written from random tables (up to 12000 rows and 30 columns; integers beyond 32 bits, reals in several notations, quoted and bare strings up to 300 bytes that become wider "
        "later, NULL, blank lines, padding, no last newline, six delimiters, bitfields with members, types in any case) and imported from a string, a stream, a data handle, and by odc import "
        "with and without SQL conditions, over existing output. One text in three has a defect: a row with a field more or less, something that is not a number or not an integer, a header "
        "without type or name, with an unknown type, a repeated name or an impossible bitfield. Distinct by shape, delimiter and defect.",
        "The imported file is parsed by the independent parser and compared with the table; every defect must be refused and rows imported before it must be right.",
        "sanitized import round trips with a table oracle and malformed-text rejection", 9000, 300000,
        ["imports", "imports by tool", "imports by tool with SQL", "malformed texts", "imports of several frames", "missing cells", "rows imported before an error", "cells compared"],
        targets=TOOLS),
})
SPECS.update({
    "C21": spec(
        ["c21", "iface"],
        "Histories of the row writer: 1-4 parts with new, permuted, dropped or widened columns (up to 20100 rows, 40 columns, other missing markers, properties), any buffer size set in three "
        "ways, rows set by cell, as a block or only where they change, flushes in between, four kinds of output, closed or destroyed, both integer treatments. Files of up to 8 frames by all "
        "encoders are read by 1-3 row readers moved in turn over one file, and copied by the row interfaces with any buffer. Distinct by shape and frames.",
        "Written files are parsed by the independent parser and must hold the rows, columns and properties of their part; cells, missing marks, offsets and the rows signalled as new dataset are "
        "compared with the stored frames.",
        "sanitized row-interface histories with a model of parts and a new-dataset monitor", 3000, 100000,
        ["files written row by row", "cells left as they were", "readings with several positions", "new datasets signalled", "rows read one at a time", "rows copied", "frames written"]),
})

SPECS.update({
    "C22": spec(
        ["c22", "iface"],
        "Tables with 1-3 template columns of any type (few to 320 keys at random, in turn, in blocks or sorted; missing, negative, fractional, padded, unprintable, slashed, shared names), "
        "1-5 frames which change columns, order, types, widths, storage and byte order; templates with repeated, adjacent and short names, new subdirectories, absolute paths; outputs there "
        "before; 1-260 open files. Dispatched by odc split (plain, sorted, unverified), the library from a reader, row by row with schema and width changes, appending, and by SQL INTO a "
        "template. Distinct by way, template, files and table.",
        "The model names the file of each row; the directory must hold exactly those files, each parsed independently with its rows in input order, columns, cells and missing marks; other "
        "files untouched; reported files and counts agree; the tool's own verification reports no difference.",
        "sanitized split histories with a model of the partition", 4000, 120000,
        ["splits by the tool", "sorted splits", "splits by the library", "row by row dispatches", "selections into a template", "splits into more files than may be open", "outputs which were there before",
         "files appended to", "keys which changed their type", "frames without the template column refused", "splits verified by the tool"], targets=TOOLS),
})

SPECS.update({
    "C24": spec(
        ["c24", "iface"],
        "Pairs of files: one of 1-5 frames by all encoders (changing columns, order, types, widths, storage, byte order), the other the same rows framed and stored anew, either with nothing or "
        "with one thing changed: any cell (by 1, in the last digits, sign, missing or not, characters), a row lost, added or exchanged (first and last included), a column renamed, retyped, moved, "
        "lost or added, bitfield members, a cut or empty file. Compared by odc compare and the library in either order, under both integer treatments, with columns and types excluded. Distinct "
        "by change, table and exclusions.",
        "Equal pairs and pairs which differ only in what is excluded must be accepted; every other pair refused.",
        "sanitized comparisons of mutated pairs with the mutation as oracle", 12000, 400000,
        ["equal files", "differences excluded", "differences in files of several frames", "comparisons by the tool", "comparisons by the library", "difference: integer cell", "difference: real cell",
         "difference: string cell", "difference: last row lost", "difference: cell made missing", "difference: column type", "difference: file cut"], targets=TOOLS),
})

SPECS.update({
    "C23": spec(
        ["c23", "iface"],
        "Files of 1-5 frames by all encoders (changing columns, order, types, widths, storage, byte order, both versions of equal columns) rewritten by odc compact, fixrowsize, set, mdset "
        "(values, types and bitfield definitions of constants of every kind, in both byte orders) and merge (2-4 files of different length, framing and order, also of selections from each), "
        "onto outputs which are there or not; values as decimals, texts, hexadecimal bytes; lists naming columns by full or short names, absent columns, columns which are not constant, "
        "names occurring twice, cut inputs. Distinct by tool and file.",
        "A model applies the request to the independently parsed input; the independently parsed output must hold the same rows, cells, missing marks, columns and (mdset) frames, byte order and "
        "properties; requests which cannot be met must fail.",
        "sanitized rewritings with a model of the request", 5000, 150000,
        ["files compacted", "files through fixrowsize", "files with columns set", "sets which must fail", "files with definitions changed", "frames of opposite byte order", "merges",
         "merges of selections", "merges of files of different length", "merges of changing columns refused", "merges of equal names refused", "rewritings which must fail", "constant texts changed"],
        targets=TOOLS),
})

SPECS.update({
    "C25": spec(
        ["c25", "iface"],
        "Files of 1-25 frames by all encoders (columns, order, types, bitfield members, widths, storage, byte order change between frames; up to 3000 rows) and files cut anywhere, of damaged "
        "magic or absent; odc count (one and several files), header, header -offsets, header -ddl (-table), ls (-o), index (default and given name, outputs there before), odb_count, "
        "get_blocks_offsets, fastRowCount. Distinct by file.",
        "Every line of output is compared with what the independent parser finds in the file: rows, offsets, sizes, byte order, columns, types, members, storage, values, runs of seqno; files which "
        "cannot be read must give a non-zero exit.",
        "sanitized inspections compared with an independent parse", 9000, 300000,
        ["counts of a file", "counts of several files", "lists of offsets", "headers of files", "definitions of several tables", "listings", "listings to a file", "indices", "indices refused",
         "legacy calls", "unreadable files"], targets=TOOLS),
})

SPECS.update({
    "C26": spec(
        ["c26", "iface"],
        "Histories of 5-80 operations over 1-3 files (1-5 frames which change columns, order, widths and byte order; a fifth cut short): C readers of paths, descriptors, buffers and streams (short "
        "reads, failures), frames, copies, decoders which keep data, encoders encoded once and again to buffers, streams, descriptors and failing ones, C++ readers, frames (copied, moved, "
        "assigned), spans, filters, encoded data, row readers, selections and writers abandoned midway, calls which fail; released in any order. Distinct by history and files.",
        "Text and data handed out stay unchanged for their documented lifetime; whatever is alive decodes to the model's cells; after all is released LeakSanitizer finds nothing unreachable and the "
        "process holds the descriptors it held before; AddressSanitizer watches every access.",
        "sanitized random object histories with leak and descriptor accounting", 6000, 200000,
        ["readers", "frames delivered", "frames copied", "frames checked", "pointers checked while valid", "decoders holding data", "data of decoders checked", "encodings", "failing calls",
         "failing advances", "C++ frames checked", "C++ frames copied", "C++ readers destroyed before their frames", "frames filtered", "row interfaces used", "frames which outlive their reader",
         "histories checked for leaks"], leaks=True),
})

SPECS.update({
    "C27": spec(
        ["c27", "iface"],
        "Histories of 10-60 operations by four threads which choose the integer treatment independently (C and C++) while the missing markers (7 x 6 choices) change for all: encoders set up under "
        "one treatment and used under another, by new threads as well, files of frames with several treatments and markers, C and C++ readers whose frames (aggregated too) are read by changing "
        "threads, copied, decoded and summarised by others, filtered, whole files filtered, texts imported, unknown treatments. Distinct by history.",
        "The reference parser finds the same cells and the markers in force in what was stored; every frame decodes in the treatment of the thread and moment which read it; every thread sees the "
        "markers and keeps its own treatment.",
        "sanitized multi-thread setting histories with a model of the settings", 8000, 300000,
        ["changes of the treatment", "changes of the markers", "encoders used under another treatment", "encoded as longs", "encoded as doubles", "encoded by new threads", "frames copied",
         "frames decoded after a change of the treatment", "frames decoded by another thread", "frames of several parts", "columns summarised", "frames filtered with integers as longs",
         "files filtered with integers as longs", "texts imported with integers as longs", "treatments confirmed"]),
})

SPECS.update({
    "C28": spec(
        ["c28", "iface"],
        "Scripts of 8-45 calls over 1-3 files (1-6 frames which change columns, order, widths, types and byte order; some cut short), played through both interfaces: readers, frames advanced "
        "(by default, aggregated, limited), copied and described, decoders (owned arrays, given arrays, per column; row- and column-major; strides, threads), encoders (row-, column-major, per column; "
        "bitfields, properties, rows per frame), names padded with blanks, optional arguments given or omitted at random after calls which gave them, mistakes, units which cannot be written, "
        "library functions, failure handlers; parts of larger arrays. Distinct by files.",
        "Every call gives the same code, text, number and bytes (encoded files, arrays including what lies between the cells) through both interfaces; a part of an array is transported as it is or "
        "refused; run-time checks of the Fortran compiler (bounds, pointers) and the sanitizers watch.",
        "sanitized differential scripts through both interfaces", 12000, 250000,
        ["readers", "columns described", "bitfield members", "properties", "properties by key", "frames advanced", "frames advanced by default", "frames advanced by limit alone", "frames copied",
         "decoded per column", "decoded to arrays", "decoded to owned arrays", "decoded with threads", "decoder arrays of default layout", "encoder arrays of default layout", "element sizes omitted",
         "strides omitted", "encoded per column", "encoded row-major", "encoded column-major", "units which cannot be written", "mistakes", "failures reported to the handler", "calls compared",
         "constants", "parts of arrays encoded", "parts of arrays decoded"], fortran="f28"),
})

SPECS.update({
    "C29": spec(
        ["c29", "iface"],
        "Random files (1-6 frames which change names, order, types, widths, byte order, members) read row by row; selections of random columns and rows (both ways to create them); files written and "
        "appended to in 1-3 steps (own missing values, wide strings, bitfields, 0-12000 rows); iterators abandoned or asked again after the end; files which are not there, cut short, places which "
        "cannot be written, bad queries. Distinct by columns, frames, rows.",
        "Rows, their order, the flag of new datasets, columns (name, type, size, offset, members, missing value) and row sizes are those of the generated tables, and nothing is written beyond the row; "
        "written files are read by the reference decoder (cells and markers); failures are codes: no exception leaves a call, and files cut short never end as complete ones; AddressSanitizer and "
        "UndefinedBehaviourSanitizer watch.",
        "sanitized runs of the legacy interface against reference tables", 30000, 600000,
        ["rows read", "rows selected", "rows written", "files appended", "files written", "selections of some rows", "bad queries", "absent files", "files cut short", "bitfields described",
         "iterators exhausted", "iterators abandoned", "datasets", "places which cannot be written", "cells compared"]),
})
