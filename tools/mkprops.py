#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (one property per line) from the table below."""
import json, os
MUX = ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc", "mkvmuxer/mkvmuxer.h"]
MKVP = ["mkvparser/mkvparser.cc", "mkvparser/mkvparser.h"]
WP = ["webm_parser/src", "webm_parser/include/webm"]
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Every muxed frame reads back exactly once, unaltered and in order",
     "If every call used to build a segment, up to and including finalisation, reports success, then reading the output back yields for each track exactly the frames that were added to it, once each and in the order given. Each frame comes back with its payload bytes, its timestamp (rounded down to the timecode scale), its keyframe flag and, where given, its block-addition data, discard padding and duration. This holds for every segment mode, timecode scale, cluster limit, cue setting and duration-accounting option.",
     ["inputs", "histories", "configurations"],
     "all sequences of add-frame / add-cue / force-cluster calls over several tracks, crossed with the segment configuration",
     "The muxer tests compare about ten fixed call sequences with golden files; they never combine audio queueing, accurate cluster duration, non-zero BlockAddID, discard padding, forced clusters and odd timecode scales.",
     MUX, [("Segment::AddGenericFrame / QueueFrame / WriteFramesAll", "mkvmuxer/mkvmuxer.cc"), ("Cluster::QueueOrWriteFrame", "mkvmuxer/mkvmuxer.cc"), ("WriteFrame, WriteBlock, WriteSimpleBlock", "mkvmuxer/mkvmuxerutil.cc")],
     ["bytes handed to IMkvWriter"], [("frames_", "audio frames held back until the next video frame", "mkvmuxer::Segment")])

prop("C02", "Muxer output is always well-formed EBML/Matroska",
     "Whatever sequence of calls is made, once finalisation reports success the output is a single well-formed document: every element's declared size is exactly the number of bytes its content occupies, children nest exactly inside their parents, required elements are present with legal values, and no byte is left unaccounted for. If the output is not seekable it is written strictly front to back, with unknown sizes only where Matroska allows them.",
     ["inputs", "histories", "configurations"],
     "all bounded muxer call sequences and segment configurations, on seekable and non-seekable outputs",
     "Golden-file tests fix a few byte strings; size fields crossing a length boundary, back-patched sizes and combinations of optional header elements are not swept.",
     MUX, [("size computation versus writing in every Write/Size pair", "mkvmuxer/mkvmuxer.cc"), ("size back-patching in Cluster::Finalize and Segment::Finalize", "mkvmuxer/mkvmuxer.cc"), ("EbmlElementSize, WriteUIntSize", "mkvmuxer/mkvmuxerutil.cc")],
     ["bytes and calls seen by IMkvWriter"])

prop("C03", "Seek head entries and cue points locate exactly what they name",
     "In a successfully finalised file every seek entry points at the first byte of an element with the id it names, and every top-level element kind that it indexes (segment information, tracks, chapters, tags, first cluster, cues) is found through it. Every cue point gives a time, track, cluster position and block number that identify a block of that track with exactly that time inside the cluster at that position. When automatic cues are enabled every cluster of the cue track's frames that starts with a keyframe has an entry, unless the application added its own cue points, and the cue table is in time order.",
     ["inputs", "histories", "configurations"],
     "all bounded muxer call sequences with cues enabled, incl. cue track choice, user-added cues, cues placed before or after the clusters",
     "Tests compare a few golden files; positions and block numbers depend on the whole history of frames and on where the cues are placed.",
     MUX, [("Segment::AddCuePoint", "mkvmuxer/mkvmuxer.cc"), ("SeekHead::Finalize / AddSeekEntry", "mkvmuxer/mkvmuxer.cc"), ("MoveCuesBeforeClusters", "mkvmuxer/mkvmuxer.cc")],
     ["Cues and SeekHead elements in the output"])

prop("C04", "No muxer output failure is swallowed or corrupts memory",
     "Whichever single write or reposition of the output fails while a segment is being built, some call made from then on, at the latest finalisation (or the cue-relocating copy), reports failure. No failure leads to a crash, a use of freed memory, a double free or a leak, whatever the caller goes on to do, including retrying, continuing or destroying the segment.",
     ["fault_sequences", "histories", "configurations"],
     "every single failing output operation of every bounded muxer history (one-shot and persistent failures)",
     "No test injects an output failure; all use a writer that always succeeds.",
     MUX + ["mkvmuxer/mkvwriter.cc"], [("status propagation from IMkvWriter::Write/Position", "mkvmuxer/mkvmuxerutil.cc"), ("ownership of queued frames", "mkvmuxer/mkvmuxer.cc: WriteFramesAll, WriteFramesLessThan, Cluster::QueueOrWriteFrame")],
     ["return values of the muxer API", "AddressSanitizer/LeakSanitizer"])

prop("C05", "Clusters respect timing, keyframe and size rules",
     "In any finalised output, block times never need more than a signed 16-bit offset from their cluster's time, cluster times never decrease, and each block's offset is relative to its own cluster. A video keyframe starts a new cluster, a configured maximum cluster duration or size is not exceeded by continuing a cluster beyond it, a cluster boundary requested by the caller takes effect at the next frame, and no empty cluster is written.",
     ["inputs", "histories", "configurations"],
     "all bounded sequences of frames (time gaps around every limit) and cluster settings",
     "Tests use short evenly spaced streams; limits and requests interact only in longer or irregular ones.",
     MUX, [("Segment::TestFrame / DoNewClusterProcessing", "mkvmuxer/mkvmuxer.cc"), ("Cluster::IsFrameValid / GetRelativeTimecode", "mkvmuxer/mkvmuxer.cc")],
     ["Cluster elements in the output"])

prop("C06", "Chunked output concatenates to the unchunked stream",
     "When chunking is on, the header file followed by the chunk files in order (and, in file mode, the cues written at the end) is byte for byte the file that the same calls produce on one output without chunking, apart from identifiers chosen at random. Each chunk starts at a cluster and holds whole clusters.",
     ["inputs", "histories"],
     "all bounded frame sequences",
     "No test enables chunking.",
     MUX + ["mkvmuxer/mkvwriter.cc"], [("Segment::SetChunking, UpdateChunkName, DoNewClusterProcessing", "mkvmuxer/mkvmuxer.cc")],
     ["files written under the chunk base name"])

prop("C07", "Header metadata survives a write-and-read round trip",
     "Whatever track, colour, projection, content-encoding, chapter, tag and segment-information values the application sets, valid values are accepted and both bundled readers return the same values from the output: numbers, enumerations, strings and binary data, in lists of any length, with unset optional values reported unset or as the Matroska default. Integers are below 2^63, floats are kept to single precision and chapter times to the timecode scale; copying colour settings from the pull parser to the muxer keeps them all.",
     ["inputs", "configurations"],
     "every header setting at its boundary values, singly and in combinations",
     "Tests set a handful of values and read them back through one reader, one file at a time.",
     MUX + MKVP + WP, [("Track/VideoTrack/AudioTrack/Colour/Projection/Chapter/Tag Write and Size", "mkvmuxer/mkvmuxer.cc"), ("header parsing", "mkvparser/mkvparser.cc"), ("element parsers", "webm_parser/src")],
     ["getters of mkvparser objects", "webm::Callback arguments"])

prop("C08", "Segment duration and document version follow the content",
     "In a finalised seekable file of frames given in time order the segment duration is the explicitly set one when the application gave one, otherwise the last frame time, extended by the last frame's duration where that was given or estimated as documented. The document type version stated in the header covers the features used, and the header never claims a read version above it.",
     ["inputs", "histories", "configurations"],
     "all bounded frame sequences and feature combinations",
     "Golden files pin a few durations; which frame of which track ends last depends on the history.",
     MUX, [("Segment::Finalize", "mkvmuxer/mkvmuxer.cc"), ("WriteEbmlHeader / UpdateDocTypeVersion", "mkvmuxer/mkvmuxer.cc")],
     ["Info and EBML header elements in the output"])

prop("C09", "The pull parser is safe and terminates on any bytes",
     "For any byte string, opening, loading and walking it with the pull parser (headers, tracks, cues, chapters, tags, clusters, blocks, frames, seeking, teardown) ends with results or an error: no crash, no failed assertion, no out-of-bounds access, no leak, no endless loop, no read before the start of the stream and no allocation out of proportion to it. A failing read at any point is survived in the same way.",
     ["inputs"],
     "all bounded mutations and truncations of representative files",
     "Tests feed a few valid files and a handful of invalid ones.",
     MKVP + ["mkvparser/mkvreader.cc"], [("size checks against parent end and stream length", "mkvparser/mkvparser.cc")],
     ["IMkvReader calls", "AddressSanitizer, assertions, watchdog"])

prop("C10", "Pull parsing while data arrives equals parsing the whole file",
     "If bytes of a file become available gradually, the pull parser asks for more without consuming anything, and once enough is available it produces the same headers, clusters, blocks and frames as when the whole file is present from the start, wherever the availability boundaries fall and whether the stream length is known or (for a single segment) learnt only at the end. It never reads bytes that are not available yet.",
     ["inputs", "schedules"],
     "every availability boundary (and pairs of boundaries) of representative files",
     "Tests open complete local files only.",
     MKVP, [("E_BUFFER_NOT_FULL handling in Parse/Load/LoadCluster/ParseNext", "mkvparser/mkvparser.cc")],
     ["return codes, objects and IMkvReader read ranges"])

prop("C11", "Both parsers agree with the Matroska specification on valid files",
     "For every well-formed document, the pull parser and the push parser report the same tracks, clusters, blocks, frames, cues, chapters and tags, and these are what the specification says the bytes mean. That includes every lacing mode, block groups, known and unknown sizes, padding elements, non-minimal size encodings, default values and optional elements in any order. The pull parser gives the same results whether a file is loaded at once or step by step, and in whatever order its clusters are visited. Its range is track numbers to 127, integers below 2^63, headers before the first cluster (cues anywhere) and unknown sizes for the segment and clusters only.",
     ["inputs"],
     "all bounded documents produced by an independent specification-level generator",
     "Each parser's tests check isolated elements or a few files; neither parser is compared with the other, and lacing and unknown-size combinations are sparse.",
     MKVP + WP, [("Block::Parse and lacing", "mkvparser/mkvparser.cc"), ("BlockParser", "webm_parser/src/block_parser.cc")],
     ["getters of mkvparser objects", "webm::Callback arguments"])

prop("C12", "Push-parser results do not depend on how input is delivered",
     "The sequence of callbacks, their arguments, and the final status of the push parser are the same for every way of delivering the same bytes: all at once, in short reads, or with the reader stopping for lack of data at any point and being resumed later. A reader-reported error or lack of data is passed to the caller unchanged.",
     ["inputs", "schedules"],
     "every single interruption point, and bounded combinations and piece sizes, of representative documents",
     "Unit tests feed individual elements at once or one byte at a time, not whole documents with every interruption point.",
     WP, [("incremental Feed state machines", "webm_parser/src/master_parser.h, block_parser.cc and others")],
     ["webm::Callback calls", "WebmParser::Feed status"])

prop("C13", "A paused push-parser callback is resumed exactly once, losing nothing",
     "If any callback returns a non-completed status, parsing stops and returns that status; when resumed, the same callback is invoked again with equal arguments and parsing goes on as if never interrupted. This holds at every callback of every document, for one or several pauses.",
     ["inputs", "schedules"],
     "every callback invocation (and pairs) of representative documents, for would-block, partial and error statuses",
     "Tests pause a few callbacks of single elements.",
     WP, [("state machines that re-enter the callback state", "webm_parser/src")],
     ["webm::Callback calls"])

prop("C14", "Push-parser callbacks follow the document structure with exact metadata",
     "Callbacks arrive in document order and properly nested: each begin has its matching end, frames and unknown or padding elements occur only inside their parents, and every element is reported once. Every position and size reported (elements, headers, frames) is the true one in the byte stream, including after unknown-size elements, and the bytes offered for each frame are exactly the frame's bytes.",
     ["inputs"],
     "all bounded documents from the generator, incl. unknown sizes, unknown elements, padding and laced blocks",
     "Unit tests check the metadata of isolated elements at position zero or a small offset.",
     WP, [("MasterParser position bookkeeping and cached metadata", "webm_parser/src/master_parser.cc"), ("DocumentParser", "webm_parser/src/webm_parser.cc")],
     ["webm::Callback arguments"])

prop("C15", "Skipping removes exactly the skipped element",
     "When a callback chooses to skip an element, no further notification is made about that element or anything inside it, and every other notification of the document is unchanged. This holds for every skippable element of every document.",
     ["inputs", "programs"],
     "every element (and pairs of elements) of representative documents, known and unknown sizes",
     "Unit tests skip isolated elements; the effect on the rest of a document is not checked.",
     WP, [("Action::kSkip / SkipParser / InitSetupAndPeek", "webm_parser/src")],
     ["webm::Callback calls"])

prop("C16", "The push parser resumes correctly after a seek to any element",
     "After the application repositions its reader to the first byte of any element and tells the parser, parsing continues from there and reports that element and everything after it exactly as in a full parse, including the closing of enclosing elements as far as they can be inferred. This holds whatever the parser was doing when the seek was made.",
     ["inputs", "histories"],
     "every pair of interruption point and seek target of representative documents",
     "Tests seek to a few elements after a complete parse.",
     ["webm_parser/src/webm_parser.cc", "webm_parser/src/ancestory.cc", "webm_parser/src/master_parser.cc"], [("WebmParser::DidSeek, Ancestory::ById, InitAfterSeek", "webm_parser/src")],
     ["webm::Callback calls"])

prop("C17", "Truncation and errors are reported, precisely and persistently",
     "A document cut off at any byte is reported as end-of-file unless the cut falls where the document may legally end, and all notifications before that are those of the whole document (elements of unknown size may be closed at the cut). After a parsing error every later attempt returns the same error without notifying the callback, and all bundled reader implementations give the same results on the same bytes.",
     ["inputs", "crash_points"],
     "every truncation point of representative documents, on every bundled reader",
     "Tests truncate a few isolated elements; readers are tested separately from parsing.",
     WP, [("kEndOfFile handling", "webm_parser/src"), ("FileReader, IstreamReader, BufferReader", "webm_parser/src")],
     ["WebmParser::Feed status", "webm::Callback calls"])

prop("C18", "The push parser is safe and terminates on any bytes",
     "For any byte string and any reader behaviour allowed by the reader contract, the push parser ends with a documented status: no crash, failed assertion, out-of-bounds or uninitialised access, leak, endless loop or internal status leaking to the caller. It never asks the reader for nothing or for more than the document declares, and allocates no more than the caller's data justifies.",
     ["inputs"],
     "all bounded mutations of representative documents",
     "A fuzz target exists but no test asserts it over an enumerated space.",
     WP, [("validation of sizes in every parser", "webm_parser/src")],
     ["Reader calls", "AddressSanitizer, assertions, watchdog"])

prop("C19", "EBML integers, ids, sizes and floats are coded reversibly",
     "Every value the muxer writes as an EBML id, size, signed or unsigned integer or float is encoded as the specification says, in exactly the number of bytes announced in advance, and both readers decode it to the same value (the pull parser reports unsigned values from 2^63 as errors). Values that cannot be represented are refused, and reserved or malformed encodings are rejected or reported as unknown, never misread.",
     ["inputs"],
     "every encoding length at all its boundary values, and every short byte string",
     "Tests cover individual values.",
     ["mkvmuxer/mkvmuxerutil.cc", "mkvparser/mkvparser.cc", "webm_parser/src/var_int_parser.cc", "webm_parser/src/int_parser.h", "webm_parser/src/float_parser.cc"], [("GetUIntSize, GetCodedUIntSize, WriteUIntSize, SerializeInt", "mkvmuxer/mkvmuxerutil.cc"), ("ReadUInt, ReadID, UnserializeUInt/Int/Float", "mkvparser/mkvparser.cc"), ("VarIntParser, IntParser, FloatParser", "webm_parser/src")],
     ["function results"])

prop("C20", "WebVTT parsing matches the cue grammar on every text",
     "For every text the WebVTT parser yields exactly the cues the format describes: identifier, start and stop time, settings in order and payload lines, whatever the line endings, byte-order mark and blank lines. Malformed timing lines or settings are rejected, never misread, and nothing makes the parser crash or loop. Cue time arithmetic and comparison agree with plain millisecond arithmetic.",
     ["inputs"],
     "all bounded texts over an alphabet of significant characters and tokens",
     "There is no WebVTT test in the suite.",
     ["webvtt/webvttparser.cc", "webvtt/webvttparser.h", "webvtt/vttreader.cc"], [("Parser::Parse, ParseTime, ParseSettings, Time arithmetic", "webvtt/webvttparser.cc")],
     ["Cue objects"])

prop("C21", "WebM-to-PES conversion emits valid, faithful PES packets",
     "For every VP9 WebM file the PES stream holds every video frame of the file (superframes split) once and in order, in packets whose start code, stream id, length, flags and 33-bit presentation time are right, fragmented so that no packet carries more than 32768 payload bytes, and with start-code emulation in the payload escaped (the length counts the bytes before escaping). The presentation time is the frame's time in 90 kHz ticks.",
     ["inputs"],
     "all bounded frame payloads over the critical byte alphabet, frame times around every field boundary, sizes around the fragmentation limit, superframes",
     "Tests convert one file and check some header fields.",
     ["m2ts/webm2pes.cc", "m2ts/webm2pes.h"], [("PesOptionalHeader, BCMVHeader, WritePesPacket, CopyAndEscapeStartCodes", "m2ts/webm2pes.cc")],
     ["PES bytes"])

prop("C22", "The PES parser recovers exactly the frames that were packed",
     "Parsing a PES stream produced by the converter returns every frame with its original payload and presentation time (90 kHz precision, modulo 2^33 ticks), including fragmented frames, frames whose bytes imitate start codes, and times beyond any field boundary. Any other byte string is rejected or parsed without reading outside the data, crashing or looping.",
     ["inputs"],
     "all bounded frame payloads and times; all bounded mutations and truncations of PES streams",
     "Tests parse one converted file and count frames.",
     ["m2ts/vpxpes_parser.cc", "m2ts/vpxpes_parser.h"], [("ParseNextPacket, AccumulateFragmentedPayload, RemoveStartCodeEmulationPreventionBytes", "m2ts/vpxpes_parser.cc")],
     ["VideoFrame and PesHeader contents"])

prop("C23", "Transport-stream packets carry the PES stream intact",
     "Every transport packet written is 188 bytes with the sync byte, the stream's packet id, a unit-start flag on exactly the first packet of each PES packet, a correct adaptation field with stuffing, and a continuity counter that advances by one modulo 16 from packet to packet of the stream. Joining the payloads gives back exactly the PES bytes.",
     ["inputs"],
     "every PES packet size around the packet boundaries and sequences of them",
     "The tests do not exercise the transport-stream writer.",
     ["m2ts/vpxpes2ts.cc"], [("VpxPes2Ts::ReceivePacket", "m2ts/vpxpes2ts.cc")],
     ["TS bytes"])

prop("C24", "VP9 frame header and superframe parsing is exact and in-bounds",
     "For every byte string the VP9 frame-header parser, superframe splitter and codec-private decoder stay inside the data and terminate. For every frame header that the VP9 bitstream specification defines they report the specified profile, frame type, size, bit depth, colour, tiling, refresh and other flags (size and depth of inter frames as inherited from earlier frames), headers cut short are refused, and every superframe index splits into exactly the frames it lists. Codec private data yields exactly the features it lists, and invalid data is refused.",
     ["inputs"],
     "all bounded bit strings and all header field combinations at boundary values",
     "Tests parse the first frame of a few files.",
     ["common/vp9_header_parser.cc", "m2ts/webm2pes.cc", "common/hdr_util.cc"], [("Vp9HeaderParser::ParseUncompressedHeader", "common/vp9_header_parser.cc"), ("ParseVP9SuperFrameIndex", "m2ts/webm2pes.cc"), ("ParseVpxCodecPrivate", "common/hdr_util.cc")],
     ["parser getters", "AddressSanitizer"])

prop("C25", "VP9 level statistics match their definition for any frame sequence",
     "For every sequence of frames the statistics report the maxima and averages as defined: largest luma picture size and breadth, largest luma sample rate in any one-second window, average bit rate, largest size of four consecutive frames, compression ratio of shown frames, most column tiles, fewest shown frames between hidden frames, and reference slots refreshed since the last key frame. The level reported is the lowest whose limits (with the configured grace) all hold, or unknown. Results do not depend on how many statistics are queried or when.",
     ["inputs", "histories"],
     "all bounded sequences of frames around every level limit",
     "Tests process three files and compare a few numbers.",
     ["common/vp9_level_stats.cc", "common/vp9_level_stats.h"], [("Vp9LevelStats::AddFrame, GetLevel and getters", "common/vp9_level_stats.cc")],
     ["getters"])

prop("C26", "Pull-parser time, cue and cluster lookups return the right block",
     "For every file whose cluster times and block times per track do not decrease, and every requested time, a lookup returns what a linear scan of the file would choose: for a cluster the last one not after the time (else the first), for an audio track its first block in the last such cluster holding one, for a video track the last key block not after the time, for a cue point the last one not after the time, and for a cue the block it names. Moving between blocks and clusters of a track visits every block once, in order. Results are the same for any way of loading the clusters.",
     ["inputs", "histories"],
     "all bounded files (cluster/block layouts, with and without cues) and every query time, before and after partial loading",
     "Tests look up one or two times in one file.",
     MKVP, [("Track::Seek, VideoTrack::Seek, Cues::Find, CuePoint::Find, Segment::FindCluster, Cluster::GetEntry", "mkvparser/mkvparser.cc")],
     ["BlockEntry returned"])

prop("C27", "Rejected muxer calls change nothing",
     "A muxer call that reports failure because its arguments are invalid (unknown track, track number in use or out of range, empty payload, time running backwards, missing required data) leaves the output exactly as if the call had never been made. Track numbers and identifiers are unique and stay within the encodable range.",
     ["inputs", "histories"],
     "all bounded histories with invalid calls inserted at every position",
     "Tests check that a few invalid calls fail, not that the output is unaffected.",
     MUX, [("argument checks in Segment::AddGenericFrame, Tracks::AddTrack, Frame::IsValid", "mkvmuxer/mkvmuxer.cc")],
     ["output bytes with and without the rejected calls"])

prop("C28", "Relocating cues yields an equivalent, seekable file",
     "Copying a finalised segment so that its cues precede the clusters yields a well-formed file with the same headers, clusters and frames in the same order, whose cue and seek entries all point at the right elements, and whose sizes are exact.",
     ["inputs", "histories", "configurations"],
     "all bounded frame sequences, incl. those where moving the cues changes the encoded size of the cues themselves",
     "One golden file covers it.",
     MUX, [("Segment::CopyAndMoveCuesBeforeClusters, MoveCuesBeforeClusters(Helper)", "mkvmuxer/mkvmuxer.cc")],
     ["bytes of the rewritten file"])

prop("C29", "WebVTT tracks survive a WebM round trip",
     "Every caption, subtitle, description, chapter or metadata cue read from a WebVTT file and muxed into WebM comes back once, in order, in the file of its own track, with the same identifier, settings (not for chapters), payload lines and start and end times when the WebM file is demuxed to WebVTT. In WebM each cue is one block holding identifier, settings and payload lines.",
     ["inputs"],
     "all bounded cue lists",
     "No test covers the metadata muxer or the demuxer.",
     ["sample_muxer_metadata.cc", "vttdemux.cc", "webvtt/webvttparser.cc"], [("SampleMuxerMetadata::WriteCue / AddChapter", "sample_muxer_metadata.cc"), ("vttdemux::WriteCue", "vttdemux.cc")],
     ["VTT files written"])
prop("C30", "The bundled file reader and writer behave as a plain file",
     "After any sequence of opening, writing, repositioning and closing, the file of the bundled file writer holds exactly the bytes those operations put there, the position it reports is the true one, and every operation that cannot be carried out (no open file, a second open, missing data, impossible position, output full) reports failure and changes nothing. The bundled file reader returns exactly the file's bytes for every range inside the file, fails for every other range, reports the file's length, and never changes the file. Files beyond 4 GB work, a file opened by the caller is still open after the reader or writer is destroyed, and no other file is left open.",
     ["histories", "inputs"],
     "all bounded operation sequences",
     "The tests use the file classes only as a means to write and read whole files in order.",
     ["mkvmuxer/mkvwriter.cc", "mkvparser/mkvreader.cc", "common/file_util.cc"], [("MkvWriter", "mkvmuxer/mkvwriter.cc"), ("MkvReader", "mkvparser/mkvreader.cc")],
     ["files written", "return values of the reader and writer"])
prop("C31", "Remuxing keeps tracks and frames and does what its options say",
     "When the remuxing program (mkvmuxer_sample) is run on a valid file with at most one video and one audio track, it succeeds and its output holds the selected tracks with their codec, private data, name, dimensions, frame rate, colour, projection, sampling rate, channels, bit depth, delays, and every frame of them once, in order, with its bytes, time, keyframe flag and discard padding, whatever the input's lacing, block kinds, cluster layout, track numbers and timecode scale. Every option takes the effect it names (track selection and numbers, live mode, cues and their place and track, cluster limits, chunking, tags, duration, track values), and invalid values are refused.",
     ["inputs"],
     "all bounded inputs and option combinations",
     "No test runs the program.",
     ["mkvmuxer_sample.cc", "mkvmuxer/mkvmuxer.cc", "mkvparser/mkvparser.cc", "common/hdr_util.cc"], [("main", "mkvmuxer_sample.cc")],
     ["file written", "exit code"])

prop("C32", "Inspection programs report what the file holds",
     "For every valid file, webm_info prints, under every combination of its options, exactly the elements the options select, with the values, sizes, offsets and times the file holds (EBML header, segment, seek head, segment info, tracks with colour, projection and encryption, clusters, blocks with their frames and encryption data, VP9/VP8 header fields, cues, frame statistics and VP9 level). mkvparser_sample prints the header, segment info, tracks, clusters and blocks, and dumpvtt every cue, with the values in the file. Unknown options, missing arguments and unreadable files are refused with a failing status.",
     ["inputs", "configurations"],
     "all bounded files (one or two deviations from valid documents) and all option sets up to a bound, plus all short block headers",
     "No test runs these programs.",
     ["webm_info.cc", "mkvparser_sample.cc", "dumpvtt.cc", "mkvparser/mkvparser.cc", "common/indent.cc", "common/webm_endian.cc"],
     [("main, Output* and ParseVP9/VP8 functions", "webm_info.cc"), ("main", "mkvparser_sample.cc"), ("main", "dumpvtt.cc"), ("webm_tools::host_to_bigendian etc.", "common/webm_endian.cc")],
     ["text printed", "exit code"])
prop("C33", "Bundled programs survive any input file",
     "Run on any file whatever - empty, random, cut off at any byte, with any size, id or content byte changed - each bundled program (webm_info, mkvparser_sample, mkvmuxer_sample, vttdemux, webm2pes, webm2ts, dumpvtt) ends with an exit status in bounded time and memory. It never crashes, fails an assertion, hangs, or reads or writes memory that is not its own.",
     ["inputs"],
     "all short files, all truncations, all single and bounded double edits of documents that reach every part of the programs",
     "No test runs the programs; the parser tests hold only a handful of invalid files.",
     ["webm_info.cc", "mkvparser_sample.cc", "mkvmuxer_sample.cc", "vttdemux.cc", "dumpvtt.cc", "m2ts/webm2pes_main.cc", "m2ts/webm2ts_main.cc", "common/vp9_header_parser.cc", "common/hdr_util.cc"],
     [("main of each program", "webm_info.cc, mkvparser_sample.cc, mkvmuxer_sample.cc, vttdemux.cc, dumpvtt.cc, m2ts/")],
     ["exit status", "absence of memory errors"])

prop("C34", "Failing allocations and reads are reported, never lost or fatal",
     "Whichever allocation that the muxer or the pull parser is prepared to see refused is refused, once or from then on, no call crashes, fails an assertion or leaks memory. A muxer run reports the failure from one of its calls or writes the very file it would have written; if the caller goes on, the file that Finalize completes is well formed and holds every frame whose call succeeded; a metadata call that failed can be repeated once there is memory and the file is then the one it would have been. A pull-parser run in which an allocation or a read fails reports an error from one of its calls, or gives the complete result (seek entries and cue points, which are hints, may be missing).",
     ["crash_points", "histories", "inputs"],
     "all failing positions of all bounded histories and documents",
     "No test makes an allocation fail, and none makes a read fail at a chosen position.",
     ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc", "mkvparser/mkvparser.cc"],
     [("new (std::nothrow) sites", "mkvmuxer/mkvmuxer.cc, mkvparser/mkvparser.cc"), ("Chapter::add_string, Tag::add_simple_tag", "mkvmuxer/mkvmuxer.cc"), ("Tracks::ParseTrackEntry, Cluster::CreateBlock", "mkvparser/mkvparser.cc")],
     ["return values", "file written", "parse result", "absence of leaks"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["id"]
        f.write(json.dumps(d) + "\n")
print(len(P))
