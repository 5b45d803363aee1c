"""Build recipes and per-property metadata for check.py."""
LIBS = {
    "mux": dict(src=["mkvmuxer/*.cc"]),
    "mkvp": dict(src=["mkvparser/*.cc"]),
    "common": dict(src=["common/*.cc"]),
    "wp": dict(src=["webm_parser/src/*.cc"]),
    "vtt": dict(src=["webvtt/*.cc"]),
    "m2ts": dict(src=["m2ts/*.cc"]),
    "tools": dict(src=["sample_muxer_metadata.cc", "vttdemux.cc"], flags=["-Dmain=tool_main"]),
}
HARNESS = {
    "h_mux": dict(src=["h_mux.cc", "muxlib.cc", "ebml.cc"], libs=["mux", "mkvp"]),
    "h_muxf": dict(src=["h_mux.cc", "muxlib.cc", "ebml.cc"], libs=["mux", "mkvp"], nosan=True, flags=["-O2"]),
    "h_mux2": dict(src=["h_mux2.cc", "muxlib.cc", "ebml.cc"], libs=["mux", "mkvp"]),
    "h_wpf": dict(src=["h_wp.cc", "wpref.cc", "docgen.cc", "ebml.cc"], libs=["wp"], nosan=True, flags=["-O2"]),
    "h_wp": dict(src=["h_wp.cc", "wpref.cc", "docgen.cc", "ebml.cc"], libs=["wp"]),
}
HARNESS["h_codec"] = dict(src=["h_codec.cc", "wpref.cc", "ebml.cc"], libs=["mux", "mkvp", "wp"], nosan=True, flags=["-O2"])
HARNESS["h_vtt"] = dict(src=["h_vtt.cc"], libs=["vtt"])
HARNESS["h_m2ts"] = dict(src=["h_m2ts.cc", "ebml.cc"], libs=["m2ts", "mkvp", "mux", "common"])
HARNESS["h_vp9"] = dict(src=["h_vp9.cc", "ebml.cc"], libs=["mkvp", "mux", "common"])
META = {}
BOUNDED = "exhaustive within the bounds stated in DESIGN.md; nothing is claimed outside them"


def m(prop, harness, technique, rule, level="exploration", note=BOUNDED, assumptions=("bounds: see DESIGN.md",)):
    META[prop] = dict(harness=harness, level=level, technique=technique, rule=rule, note=note, assumptions=list(assumptions))


for p in ("C01", "C02", "C03", "C05", "C08"):
    m(p, "h_muxf", "stateless model checking: all bounded muxer call histories x configurations against a reference model",
      "every muxer history and configuration of the profile, once; non-trivial = distinct output bytes")
m("C04", "h_mux2", "exhaustive fault-point enumeration over all bounded muxer histories",
  "every history and configuration of the profile x every output operation as the failing one x caller reactions; non-trivial = distinct output bytes",
  level="fault_enumeration")
for p in ("C06", "C27", "C28"):
    m(p, "h_mux2", "stateless model checking: all bounded muxer call histories, differential against the reference run",
      "every history and configuration of the profile, once; non-trivial = distinct output bytes")
m("C14", "h_wpf", "bounded exhaustive document space, every notification compared with an independent reference parser",
  "every document within the edit bound of the seeds; non-trivial = distinct notification logs")
m("C12", "h_wpf", "deviation-bounded exhaustive exploration of reader behaviours (short reads, stops, errors at every read) against an independent reference parser",
  "every document of the space x every single reader deviation at every read, neighbouring pairs, and uniform slow deliveries; non-trivial = distinct notification logs")
m("C13", "h_wp", "exhaustive exploration of pause points (every notification, pairs, repeated) against an independent reference parser",
  "every document of the space x every pause point; non-trivial = distinct notification logs")
m("C15", "h_wpf", "exhaustive exploration of skip decisions (every skippable notification, pairs) against an independent reference parser",
  "every document of the space x every skip decision; non-trivial = distinct notification logs")
m("C16", "h_wp", "exhaustive exploration of parser states x seek targets against an independent reference parser",
  "every document x every interruption point x every element as seek target; non-trivial = distinct notification logs after the seek")
m("C17", "h_wp", "exhaustive enumeration of cut points, reader kinds and short request sequences against an independent reference parser",
  "every document of the space x every cut x every bundled reader, and all short request sequences; non-trivial = distinct logs and statuses", level="fault_enumeration")
m("C18", "h_wp", "exhaustive bounded mutation and token-string spaces executed under sanitizers with termination, contract and allocation oracles",
  "every mutant / token string once; non-trivial = distinct logs and statuses")
m("C19", "h_codec", "exhaustive enumeration of values and byte strings (all small ones, all near every encoding boundary) run through the real writer and both readers against specification arithmetic",
  "every value / byte string of the space once through every encoder and decoder; non-trivial = distinct values, blocks of values and headers")
m("C20", "h_vtt", "exhaustive enumeration of texts (token strings, line sequences with every line ending, field combinations, reader failure points) parsed by the real code and by an independent reference",
  "every text of the space once; non-trivial = distinct cue lists and statuses")
m("C21", "h_m2ts", "exhaustive enumeration of frame payloads, sizes, times, superframes and small files converted by the real code and read by an independent PES reader",
  "every frame / file of the space once; non-trivial = distinct PES streams")
m("C22", "h_m2ts", "exhaustive enumeration of PES streams (all converter outputs of the space, all bounded mutants and token strings) parsed by the real code under sanitizers",
  "every stream of the space once; non-trivial = distinct streams and parse results")
m("C23", "h_m2ts", "exhaustive enumeration of frame sizes and frame sequences converted by the real code and read by an independent transport stream reader",
  "every frame sequence of the space once; non-trivial = distinct transport streams")
m("C24", "h_vp9", "exhaustive deviation-bounded generation of headers from the specification syntax, all short byte strings, superframe indexes and private data, run through the real parser and compared with the specification",
  "every header / byte string of the space once (and every truncation of it); non-trivial = distinct headers")
m("C25", "h_vp9", "exhaustive enumeration of frame histories and of values around every level limit, real statistics compared with their definition",
  "every frame history of the space once; non-trivial = distinct statistics")
HARNESS["h_pull"] = dict(src=["h_pull.cc", "pulllib.cc", "pullref.cc", "wpref.cc", "docgen.cc", "ebml.cc"], libs=["mkvp", "wp"])
HARNESS["h_pullf"] = dict(src=["h_pull.cc", "pulllib.cc", "pullref.cc", "wpref.cc", "docgen.cc", "ebml.cc"], libs=["mkvp", "wp"], nosan=True, flags=["-O2"])
m("C11", "h_pullf", "bounded exhaustive document and block space, both real parsers compared with independent specification-level readers",
  "every document / block of the space once, in three ways of pull parsing and by push parsing; non-trivial = distinct documents in meaning")
m("C10", "h_pullf", "exhaustive enumeration of availability schedules (every boundary, pairs of boundaries, uniform steps, stream length known or not) on the real parser, compared with the run on complete data",
  "every document x way of parsing x schedule once; non-trivial = distinct documents in meaning", level="fault_enumeration")
m("C09", "h_pull", "bounded exhaustive mutation space (bytes, byte pairs, size fields, truncations, element edits, token strings, block contents, failing reads) on the real parser with assertions and address sanitizer",
  "every byte string of the space once, read in three ways with every lookup; non-trivial = distinct results", level="fault_enumeration")
HARNESS["h_seek"] = dict(src=["h_seek.cc", "pulllib.cc", "ebml.cc"], libs=["mkvp"], nosan=True, flags=["-O2"])
m("C26", "h_seek", "exhaustive enumeration of cluster/block/cue layouts and loading histories on the real parser; every lookup at every relevant time compared with a linear scan",
  "every layout x loading history once, with every lookup; non-trivial = distinct files")
HARNESS["h_hdr"] = dict(src=["h_hdr.cc", "pulllib.cc", "pullref.cc", "wpref.cc", "muxlib.cc", "ebml.cc"], libs=["common", "mux", "mkvp", "wp"], nosan=True, flags=["-O2"])
m("C07", "h_hdr", "exhaustive enumeration of header settings (every setting at every boundary value, all pairs, all presence combinations of optional parts, all list shapes) written by the real muxer, decoded independently and read by both real parsers",
  "every combination of settings of the space once; non-trivial = distinct files")
HARNESS["h_vttrt"] = dict(src=["h_vttrt.cc", "ebml.cc"], libs=["tools", "vtt", "mux", "mkvp"], nosan=True, flags=["-O2"])
m("C29", "h_vttrt", "exhaustive enumeration of cue lists (identifiers, settings, payloads, times, kinds, several tracks, frame interleavings) muxed and demuxed by the real code and compared with the cues given",
  "every cue list and interleaving of the space once; non-trivial = distinct inputs")
HARNESS["h_file"] = dict(src=["h_file.cc"], libs=["mux", "mkvp", "common"], nosan=True, flags=["-O2"])
m("C30", "h_file", "exhaustive enumeration of operation sequences on the real file writer, reader and helpers against an array model of a file",
  "every operation sequence of the space once; non-trivial = distinct file contents and sequences")
LIBS["remux"] = dict(src=["mkvmuxer_sample.cc", "sample_muxer_metadata.cc"], flags=["-Dmain=remux_main"])
HARNESS["h_remux"] = dict(src=["h_remux.cc", "muxlib.cc", "ebml.cc"], libs=["remux", "vtt", "common", "mux", "mkvp"], nosan=True, flags=["-O2"])
m("C31", "h_remux", "exhaustive enumeration of input files and option combinations run through the real remuxing program, output read by an independent reader",
  "every input and option set of the space once; non-trivial = distinct output files")
LIBS["info"] = dict(src=["webm_info.cc"], flags=["-Dmain=info_main"])
HARNESS["h_info"] = dict(src=["h_info.cc", "pulllib.cc", "pullref.cc", "docgen.cc", "ebml.cc"], libs=["info", "t_sample", "t_dumpvtt", "vtt", "common", "mux", "mkvp"])
m("C32", "h_info", "exhaustive enumeration of files (element edits, frame sequences, encrypted frames, private data) and option combinations run through the real program; the report compared line by line with one made by an independent reader",
  "every file and option set of the space once; non-trivial = distinct reports")
for _n, _f in (("t_sample", "mkvparser_sample.cc"), ("t_vttdemux", "vttdemux.cc"), ("t_dumpvtt", "dumpvtt.cc")):
    LIBS[_n] = dict(src=[_f], flags=["-Dmain=%s_main" % _n[2:]])
LIBS["t_pes"] = dict(src=["m2ts/webm2pes_main.cc"], flags=["-Dmain=webm2pes_main"], mains=True)
LIBS["t_ts"] = dict(src=["m2ts/vpxpes2ts_main.cc"], flags=["-Dmain=webm2ts_main"], mains=True)
HARNESS["h_tools"] = dict(src=["h_tools.cc", "wpref.cc", "docgen.cc", "ebml.cc"], libs=["info", "t_sample", "t_vttdemux", "t_dumpvtt", "t_pes", "t_ts", "remux", "vtt", "m2ts", "common", "mux", "mkvp", "wp"])
m("C33", "h_tools", "bounded exhaustive mutation space (bytes, size fields, truncations, element edits and pairs of them, texts) run through every bundled program with assertions and address sanitizer",
  "every damaged file of the space once through every program; non-trivial = distinct files and exit statuses", level="fault_enumeration")
HARNESS["h_oom"] = dict(src=["h_oom.cc", "muxlib.cc", "docgen.cc", "pulllib.cc", "pullref.cc", "ebml.cc"], libs=["mux", "mkvp"])
m("C34", "h_oom", "exhaustive fault-point enumeration: every allocation of every bounded history and document fails in turn",
  "every history / document of the space x every allocation as the failing one, once or from then on x caller reactions; non-trivial = distinct outputs and logs",
  level="fault_enumeration")
