#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, state=None, obs=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": q}, "why_tests_cant": why, "anchors": a})

W = "writer.go"; R = "reader.go"

p("P01", "Compression followed by decompression is lossless",
  "Whatever bytes are written to a Writer, in whatever division into Write calls and with whatever Flush calls in between, reading everything the Writer produced (up to a successful Close) with a Reader of matching options returns exactly those bytes, in order, followed by io.EOF. This holds for every format, strategy, compression level, memory level, window size and dictionary, and neither side panics or hangs.",
  ["inputs", "configurations", "histories"],
  "all byte sequences x all option combinations x all divisions into Write calls and interleaved Flush calls",
  "The tests round-trip a 16 KiB text and zeros with a handful of options and mostly one Write; block splitting, window slides, incompressible data, long runs, skewed symbol statistics and flush mixes are not reached.",
  [W, R, "token.go", "huffman.go", "analysis.go", "bitwriter.go"],
  [("LZ77 tokenisation and block emission", "writer.go compressSlow/compressStore/compressTokens"),
   ("symbol/extra-bits mapping", "token.go symbolLL/symbolD, reader.go decodeLL/decodeD"),
   ("history window", "reader.go decodeHuffmanBlock")])

p("P02", "Writer output conforms to RFC 1950/1951/1952",
  "Everything a Writer emits up to a successful Close is a concatenation of complete streams in the configured format, exactly as the RFCs define them: correct header fields and header check bits, legal block types, complete prefix codes of legal length, legal lengths and distances that stay inside the data already produced, matching LEN/NLEN, and the right Adler-32, CRC-32 and ISIZE trailer. An independent decoder that knows only the RFCs recovers precisely the written data and finds no bytes left over.",
  ["inputs", "configurations", "histories"],
  "all byte sequences x all option combinations x all histories of Write/Flush calls",
  "The tests compare against a few golden files; a stream that this package's own Reader tolerates but the RFCs forbid (over-long codes, bad check bits, wrong trailer, missing final block) passes them.",
  [W, "token.go", "huffman.go", "analysis.go", "bitwriter.go"],
  [("header/trailer writers", "writer.go writeHeaderZlib/writeHeaderGZIP/writeFooterZlib/writeFooterGZIP"),
   ("block writers", "writer.go writeStoredBlock/writeStaticBlock/writeDynamicBlock"),
   ("code length encoding", "analysis.go encodeTreeTokens")])

p("P03", "Reader decodes every valid stream",
  "A Reader returns exactly the data denoted by any stream that the RFCs allow, whoever produced it: any mix of stored, fixed and dynamic blocks including empty ones, any legal set of Huffman codes, every length and distance code, self-overlapping copies, any legal optional gzip header fields, and any legal zlib compression-level bits. The result does not depend on the memory level, nor on the window size as long as it is large enough for the stream.",
  ["inputs", "configurations"],
  "all valid raw, zlib and gzip streams x all Reader configurations that suffice",
  "Tests only feed the Reader a few files made by one compressor at default settings.",
  [R, "huffman.go", "header.go"],
  [("block decoding", "reader.go readFlateBlock*/decodeHuffmanBlock/readDynamicTrees"),
   ("header parsing", "reader.go readHeader*")])

p("P04", "Malformed streams are rejected as corrupt, never accepted",
  "When the input violates the format (reserved block type, LEN/NLEN mismatch, over-subscribed or unusable code lengths, too many length or distance codes, bad repeat counts, invalid symbols, distances before the start of the data or beyond the window, bad header magic, method, flags or check bits), the Reader returns the data that precedes the violation and then a CorruptInputError. It never reports io.EOF for such input, never panics and never hangs.",
  ["inputs"],
  "all byte sequences that are not a prefix or concatenation of valid streams",
  "No test feeds malformed input at all.",
  [R, "header.go", "errors.go"],
  [("violation detection", "reader.go corruptf call sites"),
   ("extra field parsing", "header.go ExtraData.Parse")])

p("P05", "Checksums and lengths in trailers and headers are enforced",
  "A Reader ends a zlib stream without error only if the stored Adler-32 equals that of the data returned, and a gzip stream only if the stored CRC-32 and length (mod 2^32) match the data returned and any header CRC matches the header bytes. Any other value, even in a single bit, leads to CorruptInputError after the data, in every member of a concatenation.",
  ["inputs"],
  "all streams, all single- and multi-bit alterations of header CRC, Adler-32, CRC-32 and ISIZE, in any member",
  "No test corrupts a checksum.",
  [R, "internal/crc32/crc32.go", "internal/adler32/adler32.go"],
  [("footer verification", "reader.go readFooterZlib/readFooterGZIP"),
   ("header CRC", "reader.go readHeaderGZIPCRC16")])

p("P06", "Truncation and source errors are reported faithfully",
  "If the source ends anywhere strictly inside a stream, the Reader returns io.ErrUnexpectedEOF after the data it could decode; if the source fails with an error of its own, the Reader returns that very error after the data it could decode. It returns io.EOF exactly when the source ends at a boundary between streams (including an empty source).",
  ["inputs", "fault_sequences"],
  "all streams x all cut positions x all source errors at all positions",
  "No test truncates a stream or injects a read error.",
  [R],
  [("error propagation", "reader.go propagateError and its call sites"),
   ("input refill", "reader.go inputBufferFill")])

p("P07", "Data is delivered in order before the error, and errors stick",
  "Before a Reader reports the end of input or any failure, it has returned every byte decoded up to that point, in order and exactly once; afterwards every further Read returns zero bytes and the same error. The sequence of bytes and the final error are the same for every goroutine schedule and every choice of Read sizes.",
  ["schedules", "inputs", "fault_sequences"],
  "all schedules of the caller and the background decoder x all (valid, truncated, corrupt, failing) inputs x all sequences of Read sizes",
  "Tests only read valid streams to the end, under whatever schedule happens to occur.",
  [R],
  [("hand-over of decoded data", "reader.go decodeBufferMustFlush/Read"),
   ("error publication", "reader.go closeWithError/readThread")],
  state=[("outputBuffer/outputError", "decoded data and final error visible to Read", "reader.go")])

p("P08", "Concatenated streams decode to the concatenated data",
  "Reading any number of complete streams laid end to end returns the concatenation of their contents followed by io.EOF, each stream with its own header, history and checksum. This is independent of how long the streams are and where their boundaries fall relative to the Reader's buffers or the source's reads, and a fault in one stream does not hide the data of the streams before it.",
  ["inputs", "configurations"],
  "all sequences of streams, all alignments of their boundaries to buffer and read boundaries",
  "The tests never decode more than one stream per source.",
  [R, W],
  [("per-stream loop", "reader.go readThread"), ("per-stream reset", "reader.go readHeader")])

p("P09", "Format selection and autodetection",
  "With automatic format detection each stream of the input is recognised on its own as gzip, zlib or raw DEFLATE from its first bytes, no matter how these arrive; raw applies exactly when neither signature matches. With an explicit format the Reader decodes only that format and reports anything else as corrupt; a Writer without explicit format writes zlib.",
  ["inputs", "configurations"],
  "all streams and concatenations of mixed formats x all Reader formats x all arrival patterns",
  "Tests autodetect only single whole files of each format, in one read.",
  [R, "enum_format.go", "options.go"],
  [("autodetection", "reader.go readHeaderAuto"), ("defaults", "options.go populateWriterDefaults")])

p("P10", "Results are independent of how data is chunked",
  "The data and final error that a Reader produces do not depend on how the source splits the input over its Read results (single bytes, short reads, data together with io.EOF or an error), nor on the sizes of the caller's slices. Likewise the data represented by a Writer's output does not depend on how the input is divided into Write calls, including empty ones.",
  ["inputs", "histories"],
  "all inputs x all segmentations of source reads, destination slices and Write calls",
  "Tests use whole-file reads and io.Copy/ReadAll sizes only.",
  [R, W],
  [("source reads", "reader.go inputBufferFill"), ("Write loop", "writer.go Write")])

p("P11", "Flush makes all earlier data recoverable",
  "When Flush(PartialFlush), Flush(SyncFlush) or Flush(FullFlush) returns nil, a decoder given only the bytes that have reached the underlying writer so far recovers every byte written before the call; after SyncFlush and FullFlush of an open stream the output also ends on a byte boundary with an empty stored block. No flush, in any number or order, disturbs the data that follows, and each Flush is passed on to the underlying writer's own Flush and Sync methods.",
  ["histories", "inputs", "configurations", "crash_points"],
  "all histories of Write and Flush calls with a crash (loss of the Writer) right after any Flush x all configurations",
  "Tests flush once at the end and look only at the finished file.",
  [W, "enum_flushtype.go"],
  [("flush markers", "writer.go flushImpl/flushGuts"), ("bit accumulator", "writer.go outputBitsFlush")])

p("P12", "Data after FullFlush or FinishFlush is decodable on its own",
  "The output that follows a FullFlush can be decoded without any of the data before it, and FinishFlush completes the stream so that what follows is a separate, self-contained stream: no back-reference ever reaches across either of them (nor into a dictionary, after FullFlush). With the other flush types the stream simply continues with its history intact.",
  ["histories", "inputs", "configurations"],
  "all histories of Write and Flush calls x all inputs with repeated content x all configurations",
  "Tests never decode from the middle of a stream.",
  [W],
  [("history reset", "writer.go flushGuts (WindowClear), writeHeader")])

p("P13", "Writer lifecycle: streams, Finish, Close",
  "FinishFlush and Close end the current stream if one is open; if nothing was ever written they emit one empty stream; otherwise they emit nothing. Data written after a FinishFlush starts the next stream. Successful calls accept all bytes offered; after Close every Write, Flush and Close fails with fs.ErrClosed and nothing more is sent to the underlying writer, which itself is never closed.",
  ["histories", "configurations"],
  "all histories of Write, Flush, Close and Reset calls, including empty writes and repeated calls",
  "Tests use Write then Close only.",
  [W, "enum_writerstate.go"],
  [("state machine", "writer.go compressImpl/flushImpl/Close")],
  state=[("state", "none, open, closing, closed stream, error, closed", "writer.go")])

p("P14", "Failures of the underlying writer are reported and stick",
  "If the underlying writer's Write, Flush or Sync fails at any point (with or without having written part of the data), the call in progress returns that error, every later Write or Flush and the first Close return it too, and nothing more is sent to the underlying writer. What did reach it is a prefix of what would have been sent without the failure; an EINVAL from Sync is not a failure.",
  ["fault_sequences", "histories"],
  "all histories x a failure at any of the calls made to the underlying writer",
  "No test injects a write error.",
  [W],
  [("error state", "writer.go outputBufferFlush/flushImpl/Close"), ("ignored sync errors", "writer.go isIgnoredSyncError")])

p("P15", "A reset Writer behaves like a new one",
  "After Reset, from any state in which it is allowed (unused, between streams, failed or closed), a Writer produces byte for byte the same output as a newly made Writer with the same effective options and header, whatever happened before. Nothing of the earlier data, history, pending bits, error or detected data type leaks into the new output, and nothing more goes to the old underlying writer.",
  ["histories", "configurations", "fault_sequences"],
  "all histories before Reset (including failures at any point) x all option changes x all later histories",
  "Tests reuse one Writer for a few files after clean closes and with the same options.",
  [W, "options.go"],
  [("reinitialisation", "writer.go Reset")])

p("P16", "A Reader can be reset or closed at any time",
  "Reset on a Reader in any state (unused, in mid-stream, at the end, failed or closed), with no other call outstanding, returns and leaves a Reader that gives the same results as a new one with the same effective options; nothing of the old input, error or history leaks into the new output. Close and Reset always return once the source read in progress (if any) has, even if the input goes on for ever; a Read blocked while Close is called then returns with an error, and after Close or Reset has returned the old source is not touched again.",
  ["histories", "schedules", "configurations"],
  "all histories of Read, Close and Reset calls on all kinds of input, under all schedules",
  "Tests only reset after reading to the end and close afterwards.",
  [R],
  [("stopping the background goroutine", "reader.go stopReadThreadLocked"), ("reinitialisation", "reader.go Reset")])

p("P17", "Reader concurrency: no deadlock, loss, duplication or race",
  "Under every schedule of any number of concurrent Read callers, a concurrent Close and the background decoder, every call returns (as long as the source does), every decoded byte goes to exactly one caller and each caller's bytes are an in-order subsequence of the data, every caller finally sees the error, and no background goroutine outlives the end of input or Close. No data race occurs.",
  ["schedules"],
  "all interleavings of concurrent Read, Close and accessor calls with the decoder goroutine",
  "The tests have one reading goroutine and no control over the schedule.",
  [R],
  [("locks and condition variables", "reader.go mu1, mu2, cv1, cv2, wg")],
  state=[("mu1/mu2/cv1/cv2", "synchronisation of Read callers and the decoder goroutine", "reader.go")])

p("P18", "Writer concurrency: calls are atomic and race-free",
  "When several goroutines call Write, Flush, Close and the accessors of one Writer at the same time, the result is that of some sequential order of the calls: the bytes of every single Write stay contiguous, none are lost or repeated, each caller gets the result its place in that order implies, and no deadlock or data race occurs.",
  ["schedules"],
  "all interleavings of concurrent calls on one Writer",
  "The tests use a Writer from one goroutine only.",
  [W],
  [("mutual exclusion", "writer.go mu")])

p("P19", "Tracer events describe the streams truthfully",
  "Every registered tracer receives, for each stream processed by a Reader or Writer, one well-nested sequence: stream begin, stream header, then for each block begin, trees (for compressed blocks) and end, then stream end and stream close, with the true block types and final flags, code lengths, header contents, checksums of the data and stream numbers. The byte counters never decrease, restart for each stream, and at stream end and close equal the actual number of compressed and uncompressed bytes; what an event holds does not change after its delivery; on failure the sequence just stops.",
  ["inputs", "histories", "fault_sequences"],
  "all streams (valid or failing) in both directions, all configurations",
  "Tests use a no-op or logging tracer and never look at the events.",
  [R, W, "trace.go", "enum_eventtype.go"],
  [("event emission", "reader.go/writer.go sendEvent call sites")])

p("P20", "gzip header metadata survives and is validated",
  "A header accepted by SetHeader is stored in the gzip stream such that a Reader (and any RFC 1952 decoder) reports the same file name, comment, modification time, OS type and extra records; the text flag says whether the start of that stream's own data is text (has no control characters other than white space) unless the header fixes it. SetHeader rejects, leaving the previous header in place, any header that the format cannot represent: names with NUL or path separators, comments with NUL, over-long names, comments or extra data, times outside the 32-bit range, invalid OS types.",
  ["inputs", "configurations"],
  "all Header values x all data x all positions in a sequence of streams",
  "Tests set one fixed header.",
  [W, R, "header.go", "analysis.go", "enum_ostype.go"],
  [("header validation", "writer.go checkHeader*"), ("header encoding", "writer.go writeHeaderGZIP*"), ("header decoding", "reader.go readHeaderGZIP*")])

p("P21", "Preset dictionaries work and are checked",
  "Data compressed with a preset dictionary of any content and length (even longer than the window) decompresses to the original with the same dictionary, in every stream of a concatenation; zlib streams then carry the FDICT flag and the dictionary's Adler-32. A Reader reports CorruptInputError for a zlib stream that needs a dictionary if none or a different one was supplied, and for one that needs none when one was supplied.",
  ["inputs", "configurations"],
  "all dictionaries x all data x all formats, all combinations of matching, different and missing dictionaries",
  "Tests use one short dictionary that matches.",
  [W, R, "options.go"],
  [("dictionary priming", "writer.go writeHeader, reader.go readHeader"), ("FDICT", "writer.go writeHeaderZlib, reader.go readHeaderZlib")])

p("P22", "Window size limits are respected",
  "A Writer never uses a distance larger than its window size (2 to the WindowBits), declares exactly that size in the zlib header, and so its output can be read by a Reader configured with the same or larger WindowBits. A Reader rejects as corrupt a zlib stream that declares a larger window than it is configured for, and any distance larger than its own window.",
  ["inputs", "configurations"],
  "all data with repeats at all distances x all WindowBits of Writer and Reader",
  "Tests use inputs smaller than the default window.",
  [W, R, "enum_wbits.go"],
  [("match distance limit", "writer.go hybridOptions"), ("declared window", "writer.go writeHeaderZlib, reader.go readHeaderZlib")])

p("P23", "Compression level and strategy are honoured",
  "With level 0 only stored blocks carry data; with HuffmanOnlyStrategy there are no back-references; with HuffmanRLEStrategy all back-references have distance 1; with FixedStrategy no dynamic blocks are written; otherwise repeated data is actually compressed. The zlib and gzip level hints are those prescribed for the level and strategy, and whatever the input, the output is never larger than the input plus a small overhead per block, per flush and per stream.",
  ["inputs", "configurations"],
  "all data x all levels, strategies, memory levels and window sizes",
  "Tests compare a few golden outputs for a text.",
  [W, "enum_strategy.go", "enum_clevel.go"],
  [("method selection", "writer.go compressConfig/compressTokens"), ("level hints", "writer.go writeHeaderZlib/writeHeaderGZIP")])

p("P24", "Options take effect, merge and are validated as documented",
  "The accessors of a Reader or Writer report exactly the options in effect: the documented defaults for those not given, the last one for those given repeatedly, and after Reset the previous ones overridden by those passed to Reset. Values handed in or out (dictionaries, tracer lists) are copies, so later changes by the caller have no effect, and invalid option values are refused immediately.",
  ["configurations", "histories"],
  "all sequences of options over all their values, in constructors and repeated Resets",
  "Tests hardly call the accessors.",
  ["options.go", R, W],
  [("defaults and merging", "options.go, Reset in reader.go/writer.go")])

p("P25", "Enumerations keep their text and JSON forms",
  "Every enumeration value has a distinct text form which Parse maps back to that value regardless of letter case, a Go form and a valid JSON form that identify it, and validity checks accept exactly the documented values. Parse rejects all other text, including out-of-range numbers, with an error and without panic; checksums round-trip through JSON.",
  ["inputs"],
  "all values of all enumeration types and all strings",
  "There are no tests of the enumerations.",
  ["enum_format.go", "enum_method.go", "enum_strategy.go", "enum_clevel.go", "enum_mlevel.go", "enum_wbits.go", "enum_flushtype.go", "enum_blocktype.go", "enum_eventtype.go", "enum_datatype.go", "enum_ostype.go", "checksum32.go"],
  [("tables and parsers", "enum_*.go"), ("checksum text form", "checksum32.go")])

p("P26", "CRC-32 and Adler-32 are right for every input and split",
  "The CRC-32 and Adler-32 hashes return the values that RFC 1952 and RFC 1950 define for every byte sequence of any length, contents and memory alignment, and the same value for every division of that sequence into successive updates. Reset restarts them, and reading a sum does not disturb the computation.",
  ["inputs", "histories"],
  "all byte sequences x all divisions into updates (including those that select accelerated code paths)",
  "The tests check a table of short strings, below the accelerated path's threshold, each in one update.",
  ["internal/crc32/crc32.go", "internal/crc32/crc32_amd64.go", "internal/adler32/adler32.go"],
  [("table-driven and carry-less multiplication code", "internal/crc32"), ("deferred modulo", "internal/adler32")])

p("P27", "The command line tool round-trips and reports failure",
  "Piping any data through the gzip command with any of its format, level, strategy, memory, window and dictionary options and through its decompression mode gives back the data with exit status 0, using gzip by default; the requested header fields are stored, and the log (-L -D) shows each stream from beginning to end, with the level and window in effect. Invalid options, corrupt or truncated input, or failing input or output lead to a non-zero exit status, never to a silent success.",
  ["inputs", "configurations", "fault_sequences"],
  "all data x all option combinations, corrupt inputs, unwritable outputs",
  "There are no tests of the command.",
  ["cmd/gzip/main.go", "cmd/gzip/flags.go"],
  [("pipeline", "cmd/gzip/main.go doCompressOrDecompress"), ("flag handling", "cmd/gzip/main.go main")])

p("P28", "Separate Readers and Writers do not interfere",
  "Any number of Readers and Writers can be in use at the same time, in different goroutines or nested (a source, sink or tracer of one using another). Each behaves exactly as if it were the only one: a Writer's output bytes and events, and a Reader's data, errors and events, depend only on its own configuration, calls and input. No data is shared between instances without synchronisation.",
  ["schedules", "histories", "inputs"],
  "all interleavings and nestings of operations on any number of instances x all data and configurations",
  "The tests use one instance at a time in one goroutine.",
  ["pools.go", "writer.go", "reader.go", "huffman.go", "analysis.go"],
  [("pool of token lists", "pools.go"), ("use of the pools", "writer.go compressSlow, writeDynamicBlock"), ("shared tables", "huffman.go")])

p("P29", "Corruption errors tell where the damage is",
  "When Reader reports corruption, the error is a CorruptInputError with a description, whose OffsetStream and OffsetTotal give the place: OffsetStream counts from the start of the failing concatenated stream and OffsetTotal from the start of the whole input (of a Reader that was not Reset), so that their difference is where that stream starts; the place lies within the input, not before the first header field, block header, code table, symbol or trailer that violates the format, and no more than a few bytes of look-ahead behind it. It does so however the input is segmented and read.",
  ["inputs", "histories"],
  "all corrupt inputs x positions of the damage x number of preceding streams x segmentations",
  "The tests do not look at the offsets in errors.",
  ["errors.go", "reader.go"],
  [("counting input bytes", "reader.go inputBufferRead, inputBitsFill, inputBitsFlush"), ("making the error", "reader.go corruptf")])

p("P30", "Stock tracers and extra data helpers show what the stream holds",
  "All tracers of a Reader or Writer get the same events in the same order, whatever their kind: TracerFunc's function is called with each event, CaptureHeader's target holds exactly the header of the latest stream header event (untouched before the first, and not altered by anything read later), Log writes for each event one JSON line at trace level with all the event's fields and nothing at other levels, NoOpTracer has no effect. ExtraData.Parse yields, for any bytes, exactly the well-formed records at their start, without changing them or failing; AsBytes yields the RFC 1952 encoding; each undoes the other, for all records of at most 65535 bytes.",
  ["inputs", "histories"],
  "all byte strings and record lists; all streams, valid or not, in both directions x combinations of tracers",
  "The tests do not use CaptureHeader or look at logged events, and set one extra record at most.",
  ["trace.go", "header.go", "huffman.go", "checksum32.go"],
  [("tracers", "trace.go"), ("extra data", "header.go ExtraData"), ("JSON of events", "MarshalJSON methods")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
