import os
# The properties, and the check that decides each of them.  gen.py writes properties.jsonl
# and MANIFEST.json from this table; check runs from it.

def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    if observe: d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    return d

STREAM_STATE = [("m_position/m_size/m_status", "position, size (-1 if unknown) and status of a stream", "include/strigi/streambase.h")]

PROPS = [
P("C01", "Buffered streams keep the stream contract for every way data arrives",
  "A stream built on the buffered-stream base class delivers exactly the items its resource supplies, in order, with the documented meaning of min, max, position, size, status, skip and reset, whatever amounts the resource hands out at a time. A reset into the segment read last succeeds and leaves the data pointer valid. Failure of the resource, or more data than the announced size, ends in the Error status and never looks like the normal end.",
  ["histories", "inputs", "fault_sequences"], "all sequences of read/skip/reset up to a depth, for all supply patterns, content sizes, initial buffer sizes, announced sizes and failure positions of the resource",
  "The tests run a few fixed read sizes over one zip file and one string; the contract quantifies over every operation sequence and every way in which the resource splits its data.",
  ["include/strigi/bufferedstream.h", "include/strigi/streambuffer.h", "include/strigi/streambase.h", "lib/skippingbufferedstream.h"],
  [("read/skip/reset over a sliding buffer", "include/strigi/bufferedstream.h"), ("buffer growth and compaction", "include/strigi/streambuffer.h")], STREAM_STATE),
P("C02", "File and memory streams show exactly the bytes of the file or memory",
  "Every way of opening a file (buffered, memory mapped, unbuffered, automatic) and every stream over memory delivers exactly the bytes of the file or memory and obeys the stream contract, including for empty files, files whose size is not known beforehand and sizes around the internal buffers. Streams over seekable files and memory can be repositioned anywhere. A file that is missing, is a directory or fails while being read ends in the Error status with a message, never in a normal end of stream.",
  ["histories", "inputs", "configurations", "fault_sequences"], "all operation sequences up to a depth x file sizes x ways to open x kinds of file x position of an I/O error",
  "The tests open one existing file in each mode and read it a few times; no test has an empty file, a directory, an unknown size or an I/O error.",
  ["lib/fileinputstream.cpp", "lib/mmapfileinputstream.cpp", "lib/skippingfileinputstream.cpp", "lib/skippingfileinputstream2.cpp", "include/strigi/stringstream.h", "include/strigi/fileinputstream.h"],
  [("file opening and size detection", "lib/fileinputstream.cpp"), ("memory stream", "include/strigi/stringstream.h")], STREAM_STATE),
P("C03", "A sub stream is exactly the given window of its parent",
  "A stream over a window of another stream delivers exactly the bytes of that window and obeys the stream contract: it never shows or consumes a byte outside the window, and its position moves together with that of the parent. Without a length the window extends to the end of the parent. If the parent fails or ends before the window does, the sub stream ends in the Error status.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to a depth x window shapes x parent behaviours (chunking, size known or not, eager or lazy end, resettable or not) x positions of failure or truncation",
  "The tests use one window on one parent that always returns all it has; the guarantee is about every parent that keeps the contract.",
  ["lib/subinputstream.cpp", "include/strigi/subinputstream.h"],
  [("clamping of min, max, skip and reset to the window", "lib/subinputstream.cpp")], STREAM_STATE),
P("C04", "A terminated sub stream is exactly what precedes the first terminator",
  "A stream that ends at a terminator string delivers exactly the bytes up to the first occurrence of the terminator (or up to the end of the parent if there is none), obeys the stream contract, and leaves the parent directly after the terminator. This holds however reads, skips and resets split the data around the terminator. A failing parent ends in the Error status.",
  ["histories", "inputs", "fault_sequences"], "all contents over a small alphabet up to a length x terminators with all kinds of self overlap x parent behaviours x operation sequences up to a depth",
  "The tests have two fixed strings; whether the terminator is found depends on where the reads happen to cut it.",
  ["lib/stringterminatedsubstream.cpp", "include/strigi/stringterminatedsubstream.h"],
  [("read ahead by the length of the terminator and rewind", "lib/stringterminatedsubstream.cpp")], STREAM_STATE),
P("C05", "String search finds the first occurrence and only that",
  "The string searcher reports the position of the first occurrence of the query in the text, or none if there is none, for every query and every text, also after the query has been replaced. It never looks outside the text it was given.",
  ["inputs", "histories"], "all queries and texts over two and three letter alphabets up to a length, all byte values, all pairs of successive queries, long periodic queries",
  "The tests search a handful of fixed words; the shift tables of the algorithm depend on the whole query.",
  ["lib/kmpsearcher.cpp", "include/strigi/kmpsearcher.h"],
  [("turbo Boyer-Moore tables", "lib/kmpsearcher.cpp")]),
P("C06", "Decompressing streams deliver exactly what was compressed",
  "The gzip, zlib, raw deflate, bzip2 and LZMA streams deliver exactly the bytes that were compressed, obey the stream contract, and recognise the files they can read by their header. This holds however the compressed data arrives and however the stream is read, skipped and reset. At the end the source stands directly after the compressed data (LZMA aside). The output of the compressing stream decompresses to exactly its input.",
  ["histories", "inputs"], "all operation sequences up to a depth x formats x contents and sizes around the internal buffers x places where the compressed input is cut into pieces x compression parameters",
  "The tests decompress one small file per format in one go; buffer boundaries, empty files and split input are not among them.",
  ["lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp", "lib/gzipcompressstream.cpp", "include/strigi/gzipinputstream.h", "include/strigi/bz2inputstream.h", "include/strigi/lzmainputstream.h"],
  [("refilling input and handing back unused input", "lib/gzipinputstream.cpp"), ("decoding to the buffer", "lib/lzmainputstream.cpp")], STREAM_STATE),
P("C07", "Damaged compressed data is an error, never a shorter or different file",
  "When compressed data is cut short, altered or its source fails, the decompressing stream ends in the Error status with a message. It ends normally only if the compressed data is complete and its checks hold, and what it delivers then is what the reference decompressor delivers. Errors are final. A compressing stream whose input fails does not produce a complete compressed file.",
  ["inputs", "fault_sequences"], "every truncation point, every byte altered in several ways, every position of an I/O error x formats x source behaviours x read sizes",
  "The tests contain no damaged compressed file; each cut point leaves the decoder in a different state.",
  ["lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp", "lib/gzipcompressstream.cpp"],
  [("end of input inside compressed data", "lib/gzipinputstream.cpp")], STREAM_STATE),
P("C08", "Base64 text is decoded to exactly the encoded bytes",
  "The base64 stream delivers exactly the bytes that the text encodes, ignoring line breaks and foreign characters and ending at the padding or the end of the text, obeys the stream contract and ends in the Error status when its input fails. The base64 string decoder returns the encoded bytes of a well formed text and an empty string for any other, and looks only at the text it was given.",
  ["inputs", "histories", "fault_sequences"], "all texts over critical characters up to a length, all byte values in every place x operation sequences x source behaviours x positions of a failure",
  "The tests decode three fixed strings; the decoder can be interrupted after any byte of a group, depending on the size of the reads.",
  ["lib/base64inputstream.cpp", "lib/base64inputstream.h"],
  [("bytes of a group that did not fit", "lib/base64inputstream.cpp")], STREAM_STATE),
P("C09", "Character set conversion gives the whole text or an error",
  "The decoding reader and the converting stream deliver exactly the conversion of the whole text, obey the stream contract, and do so however the input is split (also inside a character or shift sequence) and however little is read at a time. Invalid or incomplete characters, a failing source and unknown encodings end in the Error status, after nothing but correct text.",
  ["inputs", "histories", "fault_sequences"], "texts in single byte, multibyte and stateful encodings, all strings of critical UTF-8 bytes up to a length x operation sequences x source behaviours x truncation points x lengths around the internal buffer",
  "The tests convert short texts in one go; the difficult states arise when a character straddles input pieces or does not fit in the space that is left.",
  ["lib/inputstreamreader.cpp", "lib/encodinginputstream.cpp", "include/strigi/encodinginputstream.h", "include/strigi/inputstreamreader.h"],
  [("incomplete character moved to the start of the buffer; output that does not fit", "lib/encodinginputstream.cpp")], STREAM_STATE),
P("C10", "Every byte reaches the data handler exactly once and in order",
  "A data-event stream passes every byte of its input to the registered handler exactly once and in order, however the stream is read, skipped and reset, and announces the end exactly once, after all data. A handler that declines further data receives no more of it. The stream itself obeys the stream contract, and no end is announced when the input fails.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences up to a depth x content sizes x source behaviours x the moment at which the handler declines x positions of a source failure, also with two handlers in series",
  "The tests read a stream from start to end once; rewinding, skipping and declining handlers are what makes exactly-once hard.",
  ["lib/dataeventinputstream.cpp", "include/strigi/dataeventinputstream.h"],
  [("high-water mark of reported data", "lib/dataeventinputstream.cpp")],
  [("totalread", "how far events were sent, -1 when the handler declined", "include/strigi/dataeventinputstream.h")]),
P("C11", "A tar archive is listed exactly",
  "Listing a well formed tar archive (old, ustar and GNU styles; long names, name prefixes, links, directories, octal and binary numbers, unusual blocking) gives its members in order, each once, with the right name, size, time, type and content, and then a normal end. How much of each member is read or skipped before going on, and how the source delivers its bytes, makes no difference.",
  ["inputs", "histories"], "archives of every header style x every way of using each member (untouched, partly read, skipped, drained, rewound) x source behaviours x sizes around block and buffer boundaries, to beyond 8 GB",
  "The tests list one or two archives reading everything; names, sizes and skipping interact with block alignment.",
  ["lib/tarinputstream.cpp", "include/strigi/tarinputstream.h"],
  [("skip to the next header after a partly read member", "lib/tarinputstream.cpp")],
  [("m_entrystream", "where the current member was left", "include/strigi/substreamprovider.h")]),
P("C12", "A zip archive is listed exactly",
  "Listing a well formed zip archive (stored and deflated entries, data descriptors in all forms, directories, extra fields, archives within archives, sizes of 32 and 64 bits) gives its entries in order, each once, with the right name, size if recorded before the data, time, type and content, and then a normal end. How much of each entry is read and how the source delivers its bytes makes no difference. Entries that cannot be read (unknown compression, encryption) are never shown with other content than theirs nor silently left out.",
  ["inputs", "histories"], "archives over every storing method and descriptor form x every way of using each entry x source behaviours x sizes around the buffers",
  "The tests list a few archives from start to end; finding the next header after a partly decompressed entry depends on how much was read.",
  ["lib/zipinputstream.cpp", "include/strigi/zipinputstream.h"],
  [("position of the source after a partly decompressed entry", "lib/zipinputstream.cpp")],
  [("compressedEntryStream", "window over the packed bytes of the current entry", "include/strigi/zipinputstream.h")]),
P("C13", "An ar archive is listed exactly",
  "Listing a well formed ar archive (GNU and BSD names, long name table, symbol tables, names with spaces, odd sizes) gives its members in order, each once, with the right name, size, time and content, and then a normal end. How much of each member is read and how the source delivers its bytes makes no difference. An invalid member header ends in the Error status.",
  ["inputs", "histories"], "archives of every name style x every way of using each member x source behaviours x all sizes up to 600 and beyond 2 GB, every length and every character of a name, invalid headers",
  "The tests list one archive; alignment, name tables and skipping interact.",
  ["lib/arinputstream.cpp", "include/strigi/arinputstream.h"],
  [("member header and name tables", "lib/arinputstream.cpp")],
  [("gnufilenames", "long names seen so far", "include/strigi/arinputstream.h")]),
P("C14", "A cpio archive and an rpm package are listed exactly",
  "Listing a well formed cpio archive (new ASCII format) gives its members in order, each once, with the right name, size, time, type and content, and then a normal end at the trailer; an rpm package is listed as the cpio archive in it, whatever its header sections and compression (gzip, bzip2, LZMA). How much of each member is read and how the source delivers its bytes makes no difference. Invalid fields end in the Error status.",
  ["inputs", "histories"], "archives x every way of using each member x source behaviours x all sizes and name lengths up to some hundreds and sizes beyond 2 GB x sections of the package x compression, every digit replaced by no digit, impossible section sizes",
  "The tests list one archive and one package from start to end.",
  ["lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "include/strigi/rpminputstream.h"],
  [("padding after name and data", "lib/cpioinputstream.cpp"), ("sections before the payload", "lib/rpminputstream.cpp")],
  [("padding", "bytes between the end of a member and the next header", "include/strigi/cpioinputstream.h")]),
P("C15", "The streams of an OLE document are listed exactly",
  "Listing a well formed OLE document (blocks of 512) gives its non-empty streams in the order of the directory, each once, with the right (ASCII) name, size and content, wherever its blocks lie in the file, and then a normal end. How much of each stream is read makes no difference.",
  ["inputs", "histories"], "documents with small and large streams, storages and several directory, table and extension blocks x orders of blocks x every way of using each stream x source behaviours x sizes around the block sizes",
  "The tests list one document written in natural order.",
  ["lib/oleinputstream.cpp", "include/strigi/oleinputstream.h"],
  [("following chains of large and small blocks", "lib/oleinputstream.cpp")],
  [("currentDataBlock", "block the current stream is read from", "lib/oleinputstream.cpp")]),
P("C16", "The records of an SD file are listed exactly",
  "Listing an SD file gives the text of every record up to its delimiter, in order, each once, with its number and size; a file with a single molecule and no delimiter has no entries. How much of each record is read and how the source delivers its bytes makes no difference. An incomplete last record and a failing source end in the Error status.",
  ["inputs", "histories", "fault_sequences"], "files with all kinds of line ends x every way of using each record x source behaviours x every position of the delimiter relative to the buffers, all short texts over delimiter characters, all lengths of header lines, truncation and failure points",
  "The tests only count entries of one file.",
  ["lib/sdfinputstream.cpp", "include/strigi/sdfinputstream.h"],
  [("search for the delimiter ahead of the record", "lib/sdfinputstream.cpp")],
  [("entrynumber", "records seen so far", "include/strigi/sdfinputstream.h")]),
P("C17", "The parts of a mail are listed exactly and its headers decoded",
  "Listing a mail gives its parts (also nested ones) in order, each once, with the right name or number and its content up to the boundary, base64 parts decoded; a mail without parts gives its body. The header accessors return the unfolded header with encoded words decoded and other text unchanged. How much of each part is read, the kind of line ends and how the source delivers its bytes make no difference.",
  ["inputs", "histories"], "mails of many shapes x line ends x every way of using each part x source behaviours, all lengths of parts around the buffers, all short bodies over boundary characters, headers x forms of folding and encoding",
  "The tests list one mail; where a boundary falls in the input pieces decides whether it is found.",
  ["lib/mailinputstream.cpp", "include/strigi/mailinputstream.h", "lib/stringterminatedsubstream.cpp"],
  [("reading header lines and finding boundaries", "lib/mailinputstream.cpp")],
  [("boundary", "stack of boundaries of the multiparts around the current part", "lib/mailinputstream.cpp")]),
P("C18", "No input makes a parser misbehave",
  "Whatever bytes an archive, package, document or mail consists of, recognising, listing and reading it stays inside its memory, ends, allocates memory within a fixed limit, gives no more entries than there are bytes, keeps positions equal to the bytes delivered, and ends an entry normally only after all of its announced size. Listing ends in Eof or in Error with a message, finally.",
  ["inputs", "fault_sequences"], "documents of all formats x every truncation, changed byte, changed field (extreme numbers, delimiters), removed or repeated piece at every position x uses of the entries x source behaviours; all inputs of up to two bytes; every header prefix with every recogniser",
  "The tests only parse well formed files; the bytes of a hostile file cannot be sampled to any useful degree by hand.",
  ["lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/oleinputstream.cpp", "lib/sdfinputstream.cpp", "lib/mailinputstream.cpp", "lib/substreamproviderprovider.cpp"],
  [("validation of header fields", "lib/cpioinputstream.cpp"), ("following of block chains", "lib/oleinputstream.cpp")],
  [("m_status", "state of the listing", "include/strigi/substreamprovider.h")]),
P("C19", "A truncated archive is never listed as a complete one",
  "When a tar, zip, ar, cpio, rpm, OLE or SD file is cut off anywhere - also inside another archive or below compression or encoding - listing and reading it either ends in the Error status with a message, or gives every entry completely, or the cut file is a complete archive of the format itself. Entries given before the error have the right name, size and content.",
  ["inputs", "fault_sequences"], "archives of all formats, also nested and through every kind of stream x every length they can be cut to x uses of the entries x source behaviours",
  "The tests read undamaged files only; a download that stopped early must not be taken for the whole.",
  ["lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/oleinputstream.cpp", "lib/sdfinputstream.cpp", "lib/subinputstream.cpp"],
  [("end of the listing", "lib/tarinputstream.cpp"), ("check of the data that a part must have", "lib/subinputstream.cpp")],
  [("m_status", "state of the listing", "include/strigi/substreamprovider.h")]),
P("C26", "A failing source is never taken for the end of the data",
  "When reading from the source fails at any byte, every stream and listing above it, however deeply nested, reports the Error status with a message before anything is reported as complete that lacks data. What is delivered before the failure is correct.",
  ["inputs", "fault_sequences"], "archives and mails of all formats, also nested and through every kind of stream x a failure at every byte x uses of the entries x source behaviours",
  "The tests have no failing sources; each layer can lose the error of the one below.",
  ["lib/tarinputstream.cpp", "lib/zipinputstream.cpp", "lib/arinputstream.cpp", "lib/cpioinputstream.cpp", "lib/rpminputstream.cpp", "lib/oleinputstream.cpp", "lib/sdfinputstream.cpp", "lib/mailinputstream.cpp", "lib/subinputstream.cpp", "lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp"],
  [("passing on errors", "include/strigi/bufferedstream.h"), ("passing on errors", "lib/subinputstream.cpp")],
  [("m_status, m_error", "state of every stream", "include/strigi/streambase.h")]),
P("C20", "An archive reader shows files inside archives as one consistent tree",
  "For every file an ArchiveReader can open, stat, dirEntries, openStream, isArchive and canHandle describe the same tree: each entry of the archive - nested to any depth, compressed, in explicit or implied directories - is found under its path with its name, type, size, time and content, and nothing else is found. The answers do not depend on what was asked before, on listings that are in progress, copied or abandoned, or on streams that are open; after a file changes or goes away they describe the new state. No input or history makes it crash, recurse without bound, or keep a file open after its work is done.",
  ["histories", "inputs", "configurations"], "archives of all formats nested in each other x all orders of kinds of questions x all operation sequences up to a depth (lister create, step, copy, assign, drop; stat; open, read, close; file change, removal; reader destruction) x absent names near to present ones x damage at many places",
  "The test opens and lists existing files once, in one order, and checks hardly any answer; wrong answers appear only for certain neighbours, histories and nesting.",
  ["lib/archivereader.cpp", "lib/listinginprogress.cpp", "lib/archiveentrycache.cpp", "lib/filestreamopener.cpp", "include/strigi/archivereader.h"],
  [("listing in progress and its stack of archives", "lib/listinginprogress.cpp"), ("cache of entries", "lib/archiveentrycache.cpp"), ("positioning on an entry", "lib/archivereader.cpp")],
  [("listingsInProgress, cache, openstreams", "what the reader remembers", "lib/archivereader.cpp"), ("stack, root, refcount", "listing in progress", "lib/listinginprogress.h")]),
P("C22", "A process stream shows exactly what a program makes of its input",
  "A ProcessInputStream gives the complete output that the program, run with exactly the given arguments and the whole input stream as its standard input, writes, in the order it writes it, whatever the relative speed of the two, the sizes of reads and writes and the signals that arrive; a failing input or a program that cannot be run because resources are missing is an error. It never waits for ever when the program does not, and a program that stops reading is neither an error nor deadly. Destroying the stream at any moment ends and reaps its own program, touches no other process, and leaves descriptors and signal mask as they were; programs get no descriptors of other streams.",
  ["schedules", "fault_sequences", "inputs"], "program behaviours (filters of all rates, talking first or last, stopping to read, closing descriptors, staying) x inputs around the pipe sizes x input stream behaviours x all schedules of the program against the reader up to a number of deviations x interrupted calls x failing calls x sets of open standard descriptors x moment of destruction x several streams",
  "There is no test of this class; deadlocks and losses depend on the progress of another process at each system call.",
  ["lib/processinputstream.cpp", "include/strigi/processinputstream.h"],
  [("feeding of the input", "lib/processinputstream.cpp"), ("starting and ending the program", "lib/processinputstream.cpp")],
  [("fdin, fdout, pid, input", "what is left of the program", "include/strigi/processinputstream.h")]),
P("C24", "Separate streams in separate threads do not disturb each other",
  "Threads that work on streams, listings and readers of their own - no object shared - get exactly the results that each gets alone, whatever the interleaving, from the first use in the process on. Nothing the library keeps behind the objects (tables, static data, results of C functions) is written by one thread while another one uses it without synchronisation.",
  ["schedules"], "all pairs of uses of the streams, archive formats, readers and helpers, each from the first use in a process x which starts x all preemptions up to a bound at the accesses to data behind the objects; all pairs of accesses checked for being ordered",
  "The tests use two kinds of streams in threads, after they have been used before, under the few schedules that happen; a lazily built table fails once per process and for microseconds.",
  ["lib/base64inputstream.cpp", "lib/dostime.cpp", "lib/textutils.cpp", "lib/mailinputstream.cpp", "lib/substreamproviderprovider.cpp", "lib/archivereader.cpp", "include/strigi/base64inputstream.h"],
  [("static tables", "lib/base64inputstream.cpp"), ("conversion of times", "lib/dostime.cpp")],
  [("decoding table, static constants", "data behind the objects", "lib/base64inputstream.cpp")]),
P("C21", "Anything can be destroyed at any moment and what was lent stays intact",
  "Streams, listings, readers and listers may be destroyed at any moment - before use, in the middle of an entry, after an error, in the middle of something nested - without touching freed memory and without losing memory, file descriptors or mappings. A stream that was lent to another object is never deleted by it and is afterwards a working stream with unchanged content at a position that it really has. Entries are streams of the listing: they deliver their own content until the next entry is asked for, whatever was built on them.",
  ["histories", "inputs", "fault_sequences"], "all sequences of operations up to a depth on listings, entries, entries of nested archives and streams on streams, destruction after each of them x archive formats x streams x source behaviours x positions of failure or truncation; all sequences of opening, listing and closing through an archive reader x kinds of file",
  "The tests destroy everything after complete use and look at nothing afterwards; leaks and uses of freed memory depend on the moment and on what failed before.",
  ["include/strigi/substreamprovider.h", "lib/subinputstream.cpp", "lib/archivereader.cpp", "lib/listinginprogress.cpp", "lib/oleinputstream.cpp", "lib/zipinputstream.cpp", "lib/mailinputstream.cpp", "lib/rpminputstream.cpp", "lib/fileinputstream.cpp", "lib/mmapfileinputstream.cpp", "lib/skippingfileinputstream2.cpp"],
  [("ownership of the entry stream", "include/strigi/substreamprovider.h"), ("streams of a listing", "lib/listinginprogress.h"), ("open streams of a reader", "lib/archivereader.cpp"), ("file handles", "lib/fileinputstream.cpp")],
  [("m_entrystream", "stream of the current entry, owned by the listing", "include/strigi/substreamprovider.h"), ("openstreams", "streams handed out by a reader", "lib/archivereader.cpp")]),
P("C25", "Formats are recognised by their content, wherever it starts",
  "Every header check accepts what begins with the signature of its format and rejects what does not, also when fewer bytes are available than the signature has, and never looks beyond them. What an archive reader or a stream provider shows for a file is decided by the file's format alone: not by the name or text it happens to contain, the way it is packed, the position of its first byte in the source or how the source hands it out; what no format claims is left as a plain file at its position.",
  ["inputs", "configurations", "histories"], "all lengths and all values of every byte of the signatures; all short texts over critical characters for mails; files of all formats with contents that look like other formats x packings x positions in the source x source behaviours x failures",
  "The tests open a handful of ordinary files from position 0; confusions need a file of one format that resembles another, or a start elsewhere.",
  ["lib/substreamproviderprovider.cpp", "lib/listinginprogress.cpp", "lib/archivereader.cpp", "include/strigi/substreamproviderprovider.h", "lib/zipinputstream.cpp", "lib/tarinputstream.cpp", "lib/arinputstream.cpp", "lib/rpminputstream.cpp", "lib/cpioinputstream.cpp", "lib/oleinputstream.cpp", "lib/sdfinputstream.cpp", "lib/mailinputstream.cpp", "lib/gzipinputstream.cpp", "lib/bz2inputstream.cpp", "lib/lzmainputstream.cpp"],
  [("checkHeader of each format", "lib/tarinputstream.cpp"), ("choice of the provider", "lib/listinginprogress.cpp"), ("choice of the decompressor", "lib/listinginprogress.cpp")]),
P("C27", "Requests with extreme values get correct answers from every stream",
  "A minimum, maximum, number of bytes to skip or position may have any value of its type. What a stream then delivers is what it delivers for the nearest sensible request: a minimum that cannot be met gives the rest, a skip or reset beyond the end leads to the end or is refused, and content, position, size and status stay correct for all that follows.",
  ["histories", "inputs"], "all sequences of operations up to a depth with values around 0, the content size, 2^31 and 2^63 x every kind of stream, at the start and behind other data, alone and stacked x source behaviours",
  "The tests use small round numbers; overflows appear only near the ends of the number ranges and in combination with a position other than zero.",
  ["include/strigi/bufferedstream.h", "include/strigi/streambuffer.h", "lib/subinputstream.cpp", "lib/stringterminatedsubstream.cpp", "lib/skippingfileinputstream.cpp", "lib/skippingfileinputstream2.cpp", "lib/mmapfileinputstream.cpp", "include/strigi/stringstream.h", "lib/dataeventinputstream.cpp"],
  [("arithmetic on min, max and positions", "lib/subinputstream.cpp"), ("arithmetic on min and the terminator", "lib/stringterminatedsubstream.cpp"), ("size of the buffer", "include/strigi/streambuffer.h")], STREAM_STATE),
P("C23", "Text, number and time helpers are right for every input",
  "The UTF-8 checks accept exactly the well formed UTF-8 texts of allowed characters and point at the first bad or incomplete character; newline conversion replaces line breaks and nothing else; numbers are read with the documented width, sign and byte order from signed and unsigned bytes; every DOS time is converted to the same calendar time.",
  ["inputs"], "all strings of up to three bytes, longer strings over critical bytes, every value of every byte of a number, every DOS date and time of day",
  "The tests try a few strings; the mistakes such helpers have concern single values of billions.",
  ["lib/textutils.cpp", "include/strigi/textutils.h", "lib/dostime.cpp"],
  [("state of the UTF-8 check", "lib/textutils.cpp")]),
]

RULE = "every sequence of decisions (operations, source behaviour, faults) of the suites below is executed once on the real code; an execution is non-trivial when it applies at least one operation to the stream under test"
CHECKS = {
"C01": dict(src="c01_buffered.cpp"),
"C02": dict(src="c02_files.cpp"),
"C03": dict(src="c03_substream.cpp"),
"C04": dict(src="c04_terminated.cpp"),
"C05": dict(src="c05_search.cpp"),
"C06": dict(src="c06_decompress.cpp", libs=["-llzma"]),
"C07": dict(src="c07_corrupt.cpp", libs=["-llzma"]),
"C08": dict(src="c08_base64.cpp"),
"C09": dict(src="c09_charset.cpp"),
"C11": dict(src="c11_tar.cpp"),
"C12": dict(src="c12_zip.cpp"),
"C13": dict(src="c13_ar.cpp"),
"C14": dict(src="c14_cpio.cpp", libs=["-llzma"]),
"C15": dict(src="c15_ole.cpp", libs=["-llzma"]),
"C16": dict(src="c16_sdf.cpp", libs=["-llzma"]),
"C17": dict(src="c17_mail.cpp", libs=["-llzma"]),
"C18": dict(src="c18_hostile.cpp", libs=["-llzma"]),
"C19": dict(src="c19_damage.cpp", flags=["-DDAMAGE=0"], libs=["-llzma"]),
"C26": dict(src="c19_damage.cpp", flags=["-DDAMAGE=1"], libs=["-llzma"]),
"C20": dict(src="c20_reader.cpp", libs=["-llzma"]),
"C22": dict(src="c22_process.cpp", technique="stateless model checking: exhaustive exploration of the schedules of the real code against programs in a model of the kernel (delay-bounded), checked against a reference model", note="Exhaustive within the bounds printed in the evidence (suites). Pipes, processes and signals are those of a model (Linux semantics), bound to the real kernel by the suite with real programs. Trusts clang, ASan, the explorer and the model in mc/.", libs=["-llzma"] + ["-Wl,--wrap=" + c for c in "pipe pipe2 fork vfork execve execv execvp execvpe dup dup2 dup3 close read write poll ppoll select fcntl kill waitpid wait4 sigprocmask pthread_sigmask sigaction signal sigpending sigwait sigtimedwait exit _exit".split()]),
"C24": dict(src="c24_threads.cpp", flavour="conc", san=["-Xclang", "-fsanitize=thread", "-include", os.path.join(os.path.dirname(os.path.abspath(__file__)), "mc", "instantiate.h")], libs=["-llzma", "-rdynamic"] + ["-Wl,--wrap=" + c for c in "pthread_mutex_lock pthread_mutex_unlock pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort localtime gmtime asctime ctime strtok setlocale tmpnam rand setenv unsetenv putenv chdir umask tzset".split()],
  rule="for every pair of scenes and each order of starting, every schedule with up to the stated number of preemptions at conflicting accesses to static data, atomics and synchronisation is executed in a process of its own; an execution is non-trivial when both threads use the library",
  technique="stateless model checking of the real code: all thread interleavings up to a preemption bound, with happens-before race detection on every access",
  note="The library is compiled with -fsanitize=thread and its memory accesses are reported to mc/conc.h, which runs the two threads in turn and decides at each access to static data that both scenes touch. Exhaustive within the preemption bound. Trusts clang's instrumentation, mc/conc.h, and that zlib, bzip2, lzma and libc are as thread safe as documented; their inside is not instrumented."),
"C23": dict(src="c23_text.cpp"),
"C27": dict(src="c27_extremes.cpp", libs=["-llzma"]),
"C21": dict(src="c21_ownership.cpp", libs=["-llzma"]),
"C25": dict(src="c25_formats.cpp", libs=["-llzma"]),
"C10": dict(src="c10_dataevent.cpp"),
}
TECH = "stateless model checking: exhaustive bounded exploration of the real code against a reference model"
for k, c in CHECKS.items():
    c.setdefault("rule", RULE)
    c.setdefault("technique", TECH)
    c.setdefault("note", "Exhaustive within the bounds printed in the evidence (suites); runs the code under AddressSanitizer with asserts on. Trusts clang, ASan, the explorer in mc/ and the reference model in the harness; says nothing beyond the bounds.")

NOT_APPLICABLE = [
]
