#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],
      observe_at=observe,hook_needed=hook)))
HOOK="Building the crate offline needs the code-table directory `def` (an absent git submodule); cfg grib_sim lets GRIB_SIM_DEF_DIR point at stand-in tables."
p("C01","Opening a file lists exactly its messages, however the bytes are delivered",
 "Opening a well-formed GRIB2 source succeeds and reports exactly the sections (number, position, length), submessage indices, template list and header metadata that the bytes contain, and nothing else. The answer is the same for every legal way the underlying reader may deliver those bytes: short reads of any size, interrupted reads, any initial stream position, a message header falling across any read boundary, and foreign bytes before or between messages.",
 ["inputs","schedules"],"all well-formed files (1..n messages, repeated sections 2-7/3-7/4-7, optional section 2, padding before and between messages) x all legal Read/Seek behaviours",
 "The tests open seven fixed files through Cursor/BufReader, which never return short or interrupted reads for these sizes; padding larger than one scan buffer and odd delivery are never exercised.",
 ["src/reader.rs","src/parser.rs","src/context.rs","src/datatypes/sections.rs"],
 [("scan for the message magic in 4096-byte windows with a 15-byte overlap","src/reader.rs read_sect0"),("section offset bookkeeping by total/rest size","src/reader.rs Grib2SectionStream"),("section sequence automaton and index cache","src/parser.rs")],
 ["grib::from_reader / from_slice, Grib2::sections, Grib2::iter, list_templates, SubMessage accessors","Grib2SectionStream as an iterator"],
 [dict(name="whole_size/rest_size",meaning="absolute end of the current message / octets of it still unread",where="src/reader.rs")],HOOK)
p("C02","Decoded field values are the encoded ones under any delivery of the bytes",
 "For every submessage whose packing is supported (simple, complex, complex with first or second order spatial differencing, JPEG 2000, PNG, run length), decoding yields exactly as many values as the grid declares, in grid order, each equal to the encoded value within single precision, with NaN exactly at the points that the bitmap or the packing marks as missing. This holds whatever the short-read, interruption and seek behaviour of the underlying reader, and packings or bitmap kinds that are not supported are refused with an error rather than mis-decoded.",
 ["inputs","schedules"],"all parameters of the supported packings, bitmaps and grid sizes x all legal delivery schedules x any order of opening, seeking and decoding submessages",
 "Tests decode a handful of sample files against stored outputs, always with whole-buffer delivery; bit widths, group layouts, missing-value modes and bitmaps outside these samples are not reached.",
 ["src/decoder.rs","src/decoder/bitmap.rs","src/decoder/simple.rs","src/decoder/complex.rs","src/decoder/complex/diff.rs","src/decoder/jpeg2000.rs","src/decoder/png.rs","src/decoder/run_length.rs","src/decoder/stream.rs","src/reader.rs"],
 [("payload re-read by section offset at decode time","src/reader.rs read_sect_payload_as_slice"),("bit stream reader","src/decoder/stream.rs"),("bitmap merge","src/decoder/bitmap.rs")],
 ["Grib2SubmessageDecoder::from / dispatch and the value iterator"],None,HOOK)
p("C03","A torn or truncated file is never presented as a complete one",
 "If a file lost its tail, or a length field or section was damaged, opening it never reports a message that is not entirely there: success means that every reported message starts with the GRIB magic, its sections follow one another without gap or overlap up to a 7777 end mark at its declared length, and all of it lies inside the source. A cut inside a message (after its indicator section) is an error, and a cut between messages yields exactly the messages before it.",
 ["inputs","crash_points","fault_sequences"],"all byte positions at which a file may be cut, and all modifications of length fields, of well-formed files",
 "Tests only use complete files; the single truncated-input unit test covers one section-order list, not bytes.",
 ["src/reader.rs","src/parser.rs"],
 [("declared length versus consumed length","src/reader.rs Grib2SectionStream"),("end-section check","src/reader.rs read_sect8"),("unexpected-end detection","src/parser.rs")],
 ["grib::from_reader","Grib2SectionStream"],None,HOOK)
p("C04","A failing read or seek surfaces as an error, never as a shorter answer",
 "When the underlying reader fails at any point (a read or seek error of any kind other than interruption, transient or permanent), the call in progress returns an error or the full correct answer. It never returns fewer messages, sections or values, never returns altered ones, and never panics or keeps retrying forever.",
 ["fault_sequences","inputs"],"every position in the sequence of read/seek calls at which an error of any kind can be injected, for opening and for decoding",
 "No test injects an I/O error.",
 ["src/reader.rs","src/context.rs","src/decoder.rs","src/error.rs"],
 [("conversion of io::Error into ParseError/GribError","src/error.rs"),("? propagation through the section stream and collect","src/reader.rs, src/context.rs")],
 ["grib::from_reader, Grib2SectionStream, Grib2SubmessageDecoder::from"],None,HOOK)
p("C05","An opened handle keeps giving right answers after failed operations",
 "After any history of navigations, decodes, partial iterations and failed reads on one opened handle, every later fault-free decode of any submessage returns the same values as decoding it first on a fresh handle, and its listing is unchanged. A failed attempt leaves no trace: retrying it once the fault is gone succeeds.",
 ["histories","fault_sequences"],"all operation histories over one handle with I/O faults at any operation",
 "Tests use a handle for one decode, with no failure in between.",
 ["src/context.rs","src/decoder.rs","src/reader.rs"],
 [("absolute seek before each payload read","src/reader.rs read_sect_payload_as_slice"),("RefCell guard released when the SubMessage is consumed or dropped","src/context.rs")],
 ["Grib2::iter + Grib2SubmessageDecoder::from/dispatch on one Grib2"],None,HOOK)
p("C06","Submessage iterators behave as a cursor over the list of submessages",
 "Any sequence of next, nth, skip, step_by, clone, re-borrow, size_hint and count operations on the submessage iterators of a handle gives the results that the same sequence gives on a cursor over the list of submessages. In particular skipping is relative to the current position, the size hint equals the number of items left, and an exhausted iterator stays exhausted; this holds with several iterators over one handle used in any interleaving, provided that one submessage is held at a time.",
 ["histories","schedules"],"all call sequences and interleavings of several iterators over files with 0..n submessages",
 "The tests call next/nth at most a few times from a fresh iterator, where absolute and relative positions coincide.",
 ["src/context.rs"],[("position cursor","src/context.rs SubmessageIterator")],["Grib2::iter, Grib2::submessages, IntoIterator for &Grib2 and &SubmessageIterator"],None,HOOK)
p("C07","Value and grid-point iterators stay exact and aligned when consumed piecemeal",
 "The value iterator of a decoded submessage and the iterators over its grid indices and coordinates each yield one item per grid point, in the same order, so that the k-th value belongs to the k-th index and the k-th coordinate, which is the position the grid definition and scanning mode prescribe. At every point of consumption their size hints equal the number of items left, they stay exhausted once exhausted, and interleaving several of them, dropping one half-way or dispatching again never changes what any of them yields.",
 ["histories","schedules","inputs"],"all interleavings of partial consumption of several iterators over regular lat/lon, Gaussian, polar-stereographic and other grids with every supported scanning mode, with and without bitmap",
 "Tests look at the first items or at full collections of single iterators; the size hint is asserted only before any consumption of a whole byte of the bitmap.",
 ["src/decoder.rs","src/decoder/bitmap.rs","src/grid.rs","src/grid/latlon.rs","src/grid/gaussian.rs","src/grid/helpers.rs","src/context.rs"],
 [("bitmap merge iterator","src/decoder/bitmap.rs"),("index iterator by scanning mode","src/grid.rs GridPointIndexIterator"),("coordinate iterators","src/grid/helpers.rs")],
 ["Grib2DecodedValues, SubMessage::ij, SubMessage::latlons"],None,HOOK)
p("C08","Damaged bytes cannot crash, hang or exhaust the reading program",
 "For every file, however damaged, opening it, listing it, describing it and decoding every submessage in it terminates, does not panic or crash, and uses memory bounded by the file size and the number of grid points the file declares. Each value iterator ends after at most the declared number of points.",
 ["inputs","fault_sequences"],"all corruptions (bit flips, zeroed or torn blocks, duplicated or dropped ranges, boundary values in any header field) of files with every packing and grid kind",
 "Tests use well-formed samples only.",
 ["src/reader.rs","src/parser.rs","src/datatypes/sections.rs","src/datatypes/product_attributes.rs","src/grid.rs","src/grid/latlon.rs","src/grid/gaussian.rs","src/decoder/complex.rs","src/decoder/complex/diff.rs","src/decoder/run_length.rs","src/decoder/png.rs","src/decoder/jpeg2000.rs","src/decoder/jpeg2000/ext.rs"],
 [("length and range checks when parsing","src/reader.rs, src/datatypes/sections.rs, src/decoder/*")],
 ["every public reading call; process exit status; allocation; number of reader calls"],None,HOOK)
p("C09","Submessages are assembled exactly as the section grammar allows",
 "For every sequence of sections and upstream errors fed to the submessage assembler, it yields the submessages of the longest valid prefix, each made of the most recent applicable section of every kind and with consecutive message and submessage indices restarting for each message. At the first section that the grammar does not allow, upstream error or premature end it yields exactly one error of the matching kind and nothing afterwards.",
 ["histories","fault_sequences"],"all finite sequences over section numbers and injected errors",
 "The unit tests list about twenty sequences and never inject an upstream error or poll after the error.",
 ["src/parser.rs"],[("section order automaton with one-section look-ahead","src/parser.rs Grib2SubmessageValidator"),("cache of repeated sections","src/parser.rs")],
 ["Grib2SubmessageStream"],[dict(name="state, has_sect3",meaning="position in the grammar; whether a grid definition is in force",where="src/parser.rs")],HOOK)
p("C10","A decode export that reports success is complete on disk",
 "When the command-line tool exports decoded values to a binary file and exits with success, the output file contains exactly the decoded values of the requested submessage, four octets each in the requested byte order. If any write fails or the disk fills up, at any point and for any output size, the exit status is not success; short and interrupted writes change nothing.",
 ["fault_sequences","inputs"],"every write call of the export at which ENOSPC, EIO, a short write or EINTR can occur, for all output sizes and both byte orders",
 "The CLI tests (not runnable here) compare outputs on a healthy disk only.",
 ["cli/src/commands/decode.rs","src/decoder.rs"],[("buffered writer over the created file","cli/src/commands/decode.rs write_output")],
 ["exit status and output file of `gribber decode -b/-l`"],None,HOOK)
p("C11","Text commands that report success have printed everything",
 "When a listing, inspection, info or text decode command exits with success, the bytes written to standard output are the complete report: one entry per submessage or section of the file (or one line per grid point), in file order, the same under every short-write or interruption schedule. When standard output fails at any point the exit status is not success.",
 ["fault_sequences","inputs"],"every write call on standard output x fault kind x subcommand x file",
 "The CLI tests compare a few complete outputs with no faults.",
 ["cli/src/cli.rs","cli/src/commands/list.rs","cli/src/commands/inspect.rs","cli/src/commands/info.rs","cli/src/commands/decode.rs"],
 [("print! of a Display view","cli/src/cli.rs display_in_pager")],["exit status and standard output of gribber"],None,HOOK)
p("C12","The command-line tool reports input failures and never crashes on bad files",
 "If the input file cannot be opened, a read or seek fails, or the file is torn or damaged, every subcommand terminates in bounded time either with a complete report of what the file really contains or with a non-zero status and a message on standard error; it is never killed by a signal and never panics. Short and interrupted reads of a good file change neither output nor status, and a request for a submessage that does not exist is refused.",
 ["fault_sequences","inputs"],"every read/seek/open call x error kind, every cut or corruption of the input, every subcommand",
 "The CLI tests use healthy files and one non-existent path.",
 ["cli/src/cli.rs","cli/src/main.rs","cli/src/commands/list.rs","cli/src/commands/decode.rs","src/reader.rs"],
 [("anyhow propagation to main","cli/src/main.rs")],["exit status, standard output and standard error of gribber"],None,HOOK)
p("C13","Code tables are loaded whole or not at all, whatever the order",
 "Loading a code-table file either registers the complete table(s) the file contains or fails with an error and leaves the database exactly as it was; the exported tables depend only on the set of files loaded, not on the order of loading, on failed attempts in between or on how the file system delivers the bytes. A successful load reflects every record of the file: the exported text table lists each code's meaning at its own index.",
 ["fault_sequences","schedules","inputs"],"all load orders, repeats and read faults over table files of every supported layout",
 "Unit tests load two to four fixed files once, without faults.",
 ["gen/src/lib.rs","gen/src/cct_csv.rs","gen/src/grib2_codeflag_csv.rs"],
 [("parse the whole file before inserting","gen/src/*_csv.rs load"),("ordered map","gen/src/*_csv.rs")],["CodeDB::load, export, Display (as used by build.rs)"],None,None)
p("C14","The parameter-code enum is a faithful, repeatable image of its table",
 "For every readable wgrib2-style table, the generated enum maps each listed (discipline, category, number) code to the variant of its abbreviation, gives every abbreviation a single variant whose value is the first code listed for it, rejects codes that are not listed, and is identical in every compilation. A table that cannot be read completely or parsed is a compile error, never a partial enum.",
 ["inputs","fault_sequences","schedules"],"all tables x read faults x hash seeds of the compiler process",
 "One unit test parses four lines; generation and hash-order independence are untested.",
 ["codegen/src/lib.rs","codegen/src/param_codes.rs"],
 [("first-code remapping in hash maps, emission in table order","codegen/src/param_codes.rs")],["the expanded enum and its TryFrom<u32>; compile errors"],None,None)
p("C15","Damage stays confined to the data it hits",
 "If stored bytes inside the data of one submessage are altered without changing any length (its bitmap octets, packed values or packing parameters), then opening still succeeds with the same listing, and all other submessages of the file still decode to their original values. Data cut short inside a data section, with the lengths adjusted, is never decoded into a full-size field: decoding fails or yields only correct leading values.",
 ["fault_sequences","inputs"],"all alterations of the contents of one submessage's data-carrying sections, and all shortenings of its data section",
 "Tests use undamaged samples.",
 ["src/reader.rs","src/context.rs","src/decoder.rs","src/decoder/simple.rs","src/decoder/complex.rs","src/decoder/png.rs","src/decoder/jpeg2000.rs","src/decoder/run_length.rs"],
 [("payloads are read lazily per submessage","src/decoder.rs from"),("length checks in decoders","src/decoder/*")],["from_reader, iter, decoder results per submessage"],None,HOOK)
p("C16","Recovery after a crashed writer: complete messages before the tear stay readable",
 "When a sequence of messages is appended to a file by a writer that may crash at any byte, the longest complete prefix of messages can always be recovered from it through the section and submessage streams: every complete message before the tear is yielded with correct positions and lengths before the error that reports the torn one. Re-reading after the writer completed the torn message yields all of them, whatever was yielded before.",
 ["crash_points","histories"],"all crash positions of an appending writer, with re-open after the append is completed",
 "Tests use complete files only.",
 ["src/reader.rs","src/parser.rs"],[("streaming section and submessage iterators yield before looking beyond the message end","src/reader.rs, src/parser.rs")],
 ["Grib2SectionStream, Grib2SubmessageStream, from_reader"],None,HOOK)
# stated, but not decided by this technique
p("C17","Code-table texts name the right meaning for each number",
 "Looking up a number in a code table gives the text that the WMO table defines for it, and a number outside the table is reported as not implemented or unknown rather than as another entry.",
 ["inputs"],"all table numbers","Tests look up a few numbers.",
 ["src/codetables/old.rs","src/codetables/core.rs"],[("lookup with range checks","src/codetables/old.rs")],["codetables::*::lookup"])
p("C18","Map projections and Gaussian latitudes are numerically accurate",
 "Computed coordinates of Lambert, polar-stereographic and Gaussian grids agree with the projection formulae for the grid's earth shape to within the precision of the encoding.",
 ["inputs"],"all projection parameters","Tests compare a few grids with stored outputs, and the PROJ library is not present here.",
 ["src/grid/lambert.rs","src/grid/polar_stereographic.rs","src/grid/gaussian.rs","src/grid/earth.rs"],[("proj pipeline / Newton iteration","src/grid/*")],["SubMessage::latlons"])
p("C19","Numeric code enums round-trip",
 "Conversions between numbers and the enumerated tables of units, time ranges and parameters are mutually inverse and reject undefined numbers.",
 ["inputs"],"all numbers","Tests sample some.",
 ["src/codetables/grib2.rs"],[("num_enum derives","src/codetables/grib2.rs")],["TryFrom/Into of the enums"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for x in P: jsonschema.validate(x,s)
print(len(P))
