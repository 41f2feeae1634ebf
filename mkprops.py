#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (kept as a script so that statements stay reviewable)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,
        quantifier=dict(over=over,text=text),why_tests_cant=why,
        anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
            state=[dict(name=n,meaning=m,where=w) for n,m,w in state],
            observe_at=list(observe),hook_needed=None)))

p("C01","Library calls leave the process working directory unchanged",
 "Every public library call, including creating a conversion, checking or listing modules, and loading filters and scorers, returns with the process's current working directory equal to what it was on entry, on success and on every failure path. The saved directory is the one in force when the call began, and it is restored before it is released.",
 ["configurations","fault_sequences"],"every public entry point x every path through it (missing modules, unknown module type, unreadable directory, failed load)",
 "The tests only take the successful paths with valid module types, and never look at the working directory afterwards.",
 ["src/libbsdconv.c","src/libbsdconv_module.c","src/libbsdconv_filter.c","src/libbsdconv_scorer.c"],
 [("getcwd / chdir(saved) bracket around module lookup","loadcodec, load_filter, load_scorer, bsdconv_module_check, bsdconv_modules_list")],
 observe=["getcwd() before and after any API call"])

p("C02","Creation, failure and destruction release exactly what was acquired",
 "Whether creating a conversion (or loading a codec, filter or scorer, listing modules, or parsing a conversion string) succeeds, fails at any step, or is later undone by destroying it, every file, directory handle, descriptor, mapping, shared object, nested conversion and heap block acquired is released exactly once: nothing is leaked, released twice or used after release. A codec whose creation fails leaves nothing behind, and a codec's destruction releases everything its creation and use attached to it.",
 ["inputs","configurations","fault_sequences"],"every acquire site x every path from it to the exits of its entry point, for the library and for every codec's create/init/destroy callbacks",
 "Tests create valid conversions once and exit; failure exits (bad codec argument, missing file, unloadable codec) and repeated create/destroy histories are never taken, and nothing counts resources.",
 ["src/libbsdconv.c","src/libbsdconv_module.c","src/libbsdconv_filter.c","src/libbsdconv_scorer.c","src/libbsdconv_util.c","modules/from","modules/inter","modules/to"],
 [("create/destroy callback pairs","modules/*/*.c cbcreate, cbdestroy"),("error unwinding","bsdconv_create, bsdconv_unpack, _loadcodec")])

p("C03","Every codec step hands the engine a definite outcome",
 "Whenever the engine passes a unit of input to a codec's conversion routine, the routine returns having set an outcome that the engine acts on for that phase (consumed, emitted, matched, held, rejected or no-op), on every path and for every input, mode and option; it never returns with the 'call the routine' outcome still standing. Consequently a conversion of finite input never spins without progress inside one step.",
 ["inputs","histories"],"every conversion routine of every codec x every path through it, for every state it can be in",
 "Each codec has a few sample strings; a path that forgets to set an outcome only shows on the unusual input or state that takes it.",
 ["src/libbsdconv.c","modules/from","modules/inter","modules/to"],
 [("outcome written to the phase state before return","modules/*/*.c cbconv"),("dispatch on outcome","bsdconv()")],
 state=[("state.status","outcome of the step","struct bsdconv_phase")])

p("C04","Every emitted data unit is complete, terminated and owned exactly once",
 "Every data unit a codec or the engine appends to a phase's output has its bytes, length, successor and ownership flag all set before the step returns, and ends the output list so that list and tail agree. The unit is marked as owning its bytes exactly when those bytes were heap-allocated for it and no other unit or codec state also releases them; it never points at a stack buffer or at bytes already released.",
 ["inputs","histories"],"every site that appends a data unit x every path through its function",
 "A stale flag, a missing terminator or a double owner depends on what a recycled unit contained before and on later steps, which the sample conversions do not vary.",
 ["src/bsdconv.h","src/libbsdconv.c","modules/from","modules/inter","modules/to"],
 [("unit allocation from the instance pool, which recycles units with stale contents","DATA_MALLOC / DATUM_FREE in src/bsdconv.h"),("append idiom","modules/*/*.c cbconv, cbflush")])

p("C05","Re-initialising a conversion makes it behave like a new one",
 "After a conversion has processed any input, even one cut off in the middle of a character or an escape sequence, re-initialising it makes it behave exactly as a newly created one: no decoding mode, partial character, pending unit or other per-stream state of any codec survives. No codec reads per-stream state that neither creation nor initialisation has set.",
 ["histories","inputs"],"every mutable field of every codec's private state and every per-stream field of the instance x every history ending in re-initialisation",
 "Tests create one instance per conversion and feed complete text, so stale state is never observable.",
 ["src/libbsdconv.c","modules/from","modules/inter","modules/to"],
 [("bsdconv_init and the codecs' init callbacks","src/libbsdconv.c bsdconv_init, modules/*/*.c cbinit")])

p("C06","Conversions are independent: no shared mutable state in conversion code",
 "Two conversions never influence each other through the library or a codec: converting, initialising and flushing write only to the conversion's own data, codecs, filters and scorers keep no modifiable static or global storage, and the code running during conversion calls no routine that keeps hidden process-wide state or changes it for others (such as strtok, localtime, setenv, setlocale, rand or umask). Different instances can therefore be used from different threads or interleaved at will.",
 ["schedules","histories"],"every function reachable from converting/initialising, in the library and in every codec, filter and scorer; every interleaving of instances",
 "Tests run one instance at a time in one thread.",
 ["src/libbsdconv.c","src/libbsdconv_counter.c","src/libbsdconv_hash.c","modules"],
 [("all state reached from the instance argument","struct bsdconv_instance, codec priv")])

p("C07","Every advertised codec and filter alias resolves to an installed module",
 "Every alias the library lists for decoders, intermediate codecs, encoders and filters resolves, in finitely many steps and without cycles, to a conversion whose every component is an installed module, and the listing and the resolver agree on the set of aliases. Conversely no alias shadows or renames an installed module of the same phase.",
 ["configurations","inputs"],"every alias of all four kinds, every component of its expansion, transitively",
 "Tests use a handful of aliases; an alias that no longer resolves fails only when somebody asks for it.",
 ["modules/from/alias","modules/inter/alias","modules/to/alias","modules/filter/alias","modules/inter/ALIAS-FROM.txt","modules/inter/ALIAS-INTER.txt","modules/inter/ALIAS-TO.txt","modules/inter/ALIAS-FILTER.txt","Makefile"],
 [("alias lists used by module listing","modules/*/alias"),("alias tables used by the resolver","modules/inter/ALIAS-*.txt")])

p("C08","Codec tables are well-formed and agree with their code",
 "Every codec table in the distribution parses completely under the table compiler's grammar without being truncated or misread, and takes and produces only data units whose type tag is known, in the one canonical (shortest) form that other codecs match on. A table hands input to native code exactly when the codec ships code that exports the conversion routine, every listed codec has its table, and every codec, filter and scorer exports its phase's entry points with the expected signature.",
 ["configurations","inputs"],"every line of every codec table; every module named in the build",
 "Tests touch a few hundred of some 600 000 table entries; a misread entry silently becomes a different mapping.",
 ["modules/from","modules/inter","modules/to","modules/filter","modules/scorer","Makefile","src/bsdconv-mktable.c"],
 [("table grammar","src/bsdconv-mktable.c"),("module lists","Makefile")])

p("C09","Decoder and encoder tables of a charset are inverse to each other",
 "For every charset shipped with both a decoding and an encoding table, encoding a character the charset's decoder produces and decoding the result gives the same character back, and decoding a byte sequence its encoder produces and re-encoding gives the same bytes, except for the documented one-way compatibility mappings. No table changes may add further one-way mappings.",
 ["inputs"],"every entry of every pair of decoding/encoding tables, exhaustively",
 "Tests round-trip a few characters per charset.",
 ["modules/from","modules/to"],
 [("paired tables","modules/from/X.txt and modules/to/X.txt")])

p("C10","Charset tables agree with the published charset definitions",
 "Every single- and multi-byte charset table that implements a published charset maps each byte sequence to the Unicode character the published definition gives (and encodes that character back to that sequence), except for the vendor differences recorded for this project; the case, decomposition, width and named-entity tables likewise agree with the Unicode character database and the HTML entity list. This holds for every entry, not only common characters.",
 ["inputs"],"every entry of each charset for which an independent published table is available offline",
 "Tests use short samples; a wrong digit in a table is a silent wrong character.",
 ["modules/from","modules/to"],
 [("charset tables","modules/from/*.txt, modules/to/*.txt")])

p("C11","Character-class tables are searchable: sorted, disjoint and in range",
 "Every range table that a filter, a scorer or a codec searches (character classes, width classes, the GB18030 four-byte ranges) consists of non-empty, strictly ascending, non-overlapping ranges inside the code space, so that lookup finds exactly the members: a filter accepts, a scorer scores and a codec classifies precisely the characters of its table, and nothing of another type. The GB18030 decoder's and encoder's range tables describe the same bijection.",
 ["inputs"],"every entry of every range table in the distribution; every code point",
 "A single out-of-order range makes bisection miss members that no sample covers.",
 ["modules/filter","modules/scorer","modules/from/_GB18030.c","modules/to/_GB18030.c","modules/inter"],
 [("bisection over constant tables","modules/filter/unicode_range.c, modules/scorer/unicode_range.c, _GB18030.c")])

p("C12","In-place conversion never loses the original file",
 "The command-line converter's in-place mode replaces the target file only after the complete output has been written and closed successfully, and in one atomic step: at every moment, whatever fails or wherever the process dies, the target name refers either to the complete original or to the complete result. The replacement carries the original's owner and permission bits, and a failed attempt removes its temporary file and is reported.",
 ["crash_points","fault_sequences"],"every path of the in-place mode x every system call that can fail x every crash point",
 "No test runs the command-line in-place mode, and none injects faults or crashes.",
 ["src/bsdconv.c"],
 [("temporary file, fchown/fchmod, rename","src/bsdconv.c main")])

p("C13","Rejected input is counted once, and only rejected input is counted",
 "Whenever the conversion drops input because no decoder accepts it, the input-error counter goes up by exactly one, and whenever it drops a unit because no encoder accepts it, the output-error counter goes up by exactly one. Nothing else in the library or in codecs changes these two counters apart from explicit counter requests by the caller and the documented ERROR option of the ANY codecs, and no unit is both passed on and counted, or dropped and not counted.",
 ["inputs","histories"],"every path of the engine's three phases from 'rejected by the last alternative' to the next unit; every writer of the counters",
 "Tests check counters for a few conversions; fallback chains, partial matches and flush paths are not covered.",
 ["src/libbsdconv.c","modules"],
 [("error counting at the dead ends","bsdconv()")],
 state=[("ierr, oerr","error counters","struct bsdconv_instance")])

p("C14","Codecs that hold input back release it at a mismatch or at the end",
 "A codec that holds back units or partial characters waiting for more input (as a tentative match) provides a flush step, and that flush step emits everything held and leaves nothing behind, so a conversion's output after the final flush accounts for all input. Held data is never silently dropped when the input ends or the sequence breaks.",
 ["inputs","histories"],"every codec that reports a tentative match from native code x every path of its flush step; every split point of the input",
 "Tests end inputs at convenient places.",
 ["src/libbsdconv.c","modules/from","modules/inter"],
 [("tentative match outcome + flush callback","modules/*/*.c cbconv/cbflush"),("flush dispatch","bsdconv() dead ends and final flush")])

p("C15","The key/value and counter interfaces behave as maps with stable entries",
 "Setting, getting, testing and deleting keys on a conversion behave as a map: a get returns the value most recently set for exactly that key, a deletion removes exactly that key and leaves all others reachable and valid, and absent keys are reported absent. A counter address handed out stays valid and refers to the same counter for the life of the conversion, whatever other keys are added, read, reset or deleted.",
 ["histories"],"every sequence of set/get/has/delete/counter/reset operations on any keys",
 "The tests use one or two keys, so list order, non-head entries and deletions are never exercised.",
 ["src/libbsdconv_hash.c","src/libbsdconv_counter.c"],
 [("linked entries with move-to-front","bsdconv_hash_*, bsdconv_counter, bsdconv_counter_reset")])

p("C16","Each output mode drains the output list consistently",
 "In every output mode a conversion call hands over exactly the pending output, in order, and leaves the output list consistent: drained units are released once, the list's tail refers to a unit still in the list, and an undelivered remainder stays queued for the next call. With a caller-supplied buffer no more than the stated size is ever written and the reported length is the number of bytes written; with automatic allocation the buffer holds all reported bytes plus the requested extra.",
 ["inputs","histories"],"every output mode x every length and split of the pending list, over repeated calls",
 "Tests use one mode with small outputs.",
 ["src/libbsdconv.c"],
 [("output switch at the end of bsdconv()","src/libbsdconv.c")])

p("C17","Malformed codec arguments and missing environment never crash",
 "For any conversion string and environment, creating a conversion either succeeds or fails with an error: option names without a value, unknown option values, missing environment variables, files that cannot be opened and nested conversions or filters that cannot be loaded are detected before the missing value is used. Every option that needs a value rejects a missing one.",
 ["inputs","configurations","fault_sequences"],"every source of a possibly missing pointer (option value, environment lookup, file open, nested create/load, directory or search lookup) x every use of it",
 "Tests use well-formed conversion strings in a complete environment.",
 ["src/libbsdconv.c","src/libbsdconv_module.c","src/libbsdconv_util.c","modules/from","modules/inter","modules/to"],
 [("checks before use in codec creation","modules/*/*.c cbcreate")])

p("C18","Converting never modifies caller or shared bytes",
 "The bytes of an input unit, and of any unit received from an earlier phase, are never modified by converting: codecs, filters and scorers only read them, since they may be caller-owned, memory-mapped table data shared between units, or referenced by later units. Codec tables are mapped read-only and never written.",
 ["inputs","histories"],"every store in conversion, flush, filter and scorer routines of every module and of the engine",
 "A write into shared bytes only shows when the same bytes are referenced again.",
 ["src/libbsdconv.c","modules"],
 [("units share data pointers","LISTCPY, LISTCPY_ST, dup_data_rt in src/bsdconv.h")])

p("C19","Unicode transformation formats place every bit where the standard says",
 "The UTF-8, UTF-16, UTF-32 and UCS-2 encoders emit, for every Unicode character they accept, exactly the byte sequence the Unicode standard defines (lead and trail markers, bit positions, byte order, surrogate offset), with the length chosen by the standard's boundaries; the corresponding decoders assemble every accepted byte sequence into exactly the standard's character. Encoder and decoder of each format are thereby inverse. What is no Unicode character (surrogates, values over U+10FFFF) is refused or, in UTF-16 and UTF-32, carried over as the number it is; it never becomes another character.",
 ["inputs"],"every code point and every bit of it, for each length class of each format",
 "Tests use a few characters per format; an off-by-one boundary or a misplaced bit affects only part of the code space.",
 ["modules/to/_UTF-8.c","modules/from/_UTF-8.c","modules/to/UTF-16BE.c","modules/to/UTF-16LE.c","modules/from/UTF-16BE.c","modules/from/UTF-16LE.c","modules/to/UTF-32BE.c","modules/to/UTF-32LE.c","modules/from/UTF-32BE.c","modules/from/UTF-32LE.c","modules/to/UCS-2BE.c","modules/to/UCS-2LE.c"],
 [("bit assembly in native codecs","listed files")])

p("C20","The UTF-8 decoder accepts exactly well-formed UTF-8 in its default mode",
 "In its default mode the UTF-8 decoder rejects every overlong form, every surrogate code point, every code point over U+10FFFF, every sequence longer than four bytes, every stray or missing continuation byte and every invalid lead byte, and accepts every other well-formed sequence; each relaxation happens only when the corresponding option was given. After a rejection no partial character influences the following bytes.",
 ["inputs"],"every byte sequence, in every decoder state and option combination",
 "The stress tests sample particular malformed sequences only.",
 ["modules/from/_UTF-8.c","modules/from/UTF-8.txt"],
 [("per-byte state machine","modules/from/_UTF-8.c cbconv")])

p("C21","Native codecs stay inside their buffers for every unit they can be given",
 "No codec, filter or scorer reads past the end of a unit it was given or writes past the end of a buffer it fills, whatever the unit's type, length (including empty or one-byte units) and contents, and whatever option strings were given. Fixed-size working buffers are never filled beyond their size.",
 ["inputs"],"every memory access in every native module x every unit length and content",
 "Tests feed well-formed units of usual lengths; over-reads do not fail a test without instrumentation.",
 ["modules/from","modules/inter","modules/to","modules/filter","modules/scorer","src/libbsdconv_util.c"],
 [("length checks before indexing","modules/*/*.c")])

p("C22","Decoding does not depend on how the input is split into chunks",
 "Feeding the same byte stream in any chunking gives the same output: a decoder consumes bytes one at a time through the phase's read position, never looks ahead of or behind it within a chunk, never consults the chunk's length for anything but running out of bytes, and keeps everything it needs to resume in the conversion's own state. The same holds when output is drained between chunks.",
 ["inputs","histories"],"every decoder's native conversion routine x every split of the input",
 "Tests feed each sample in one chunk.",
 ["modules/from","src/libbsdconv.c"],
 [("resume position and per-codec state","modules/from/*.c cbconv, struct bsdconv_phase")])

p("C23","The table compiler and every reader agree on the compiled table format",
 "For every table source, the compiled table, read the way the engine reads it, accepts exactly the keys of the source (given bytes, any byte, end of unit, either case), answers with exactly the data or callback the source gives, and keeps a longer key reachable behind a shorter one whatever the order of the lines. Every field the table compiler writes is read by the library, the codecs and the debugger with the same position, width and byte order and is converted exactly once, so tables are usable on little- and big-endian machines alike; compiled tables contain no byte that was never set, so the same source gives the same file.",
 ["inputs","configurations"],"every field of every record, every reader; every table source",
 "Tests run on one little-endian machine with the tables of the tree; the order of lines, sharing of data and byte order are not varied.",
 ["src/bsdconv-mktable.c","src/bsdconv.h","src/libbsdconv.c","src/bsdconv-dbg.c","modules"],
 [("record layouts and byte-order helpers","struct data_st, struct state_st, en_*/de_* macros"),("tree building, data sharing, writing","src/bsdconv-mktable.c main, hash, hash_callback")])

p("C24","Conversion-string editing calls produce exactly the requested string",
 "Packing a conversion and inserting or replacing phases and codecs yield, for every valid conversion string and index (including negative and past-the-end ones), the string with exactly that edit applied, or a null pointer when the index denotes no phase or codec; packing what was unpacked gives an equivalent string, and re-parsing it gives the same structure.",
 ["inputs"],"every conversion string, index and replacement",
 "Tests check a few edits.",
 ["src/libbsdconv_util.c","src/libbsdconv.c"],
 [("unpack / edit / pack","bsdconv_insert_phase, bsdconv_insert_codec, bsdconv_replace_phase, bsdconv_replace_codec, bsdconv_pack")])

p("C25","Unicode normalisation output is canonical",
 "The normalisation codecs together produce the canonical forms the Unicode standard defines: the decomposition and composition tables hold exactly the standard's mappings, combining classes are the standard's, Hangul syllables are computed exactly from and into their letters, runs of combining characters are put into canonical order (stable for equal classes) and nothing else moves, and a character composes with the last starter exactly when the pair has a composite and nothing in between blocks it. Units that are no character pass through unchanged and separate what is around them. The output is therefore canonical and normalising it again changes nothing.",
 ["inputs"],"every character and every sequence of starters, combining characters, Hangul letters and other units",
 "Tests normalise a few strings.",
 ["modules/inter/_NFC.c","modules/inter/_NF-ORDER.c","modules/inter/_NF-HANGUL-COMPOSITION.c","modules/inter/_NF-HANGUL-DECOMPOSITION.c","modules/inter/_NFC-MAP.txt","modules/inter/_NFD.txt"],
 [("composition/ordering codecs","modules/inter/_NF*.c")])

p("C26","Decoders start afresh after rejecting input",
 "When a decoder rejects a byte, a sequence or what it held at a flush, nothing of the rejected input remains in its private state: every following byte is decoded exactly as it would be had the rejected bytes never been seen, in the same shift state. Sequences abandoned half-way never combine with later bytes.",
 ["histories","inputs"],"every native decoder x every private state x every rejecting step or flush x every continuation",
 "Tests contain a few malformed sequences, each followed by convenient bytes.",
 ["modules/from","src/libbsdconv.c"],
 [("reset of the decoding state before rejecting","modules/from/*.c DEADEND paths, cbflush")])

p("C27","Computed encodings follow their documented formula",
 "Codecs that compute what they emit do so by the published formula for every input: escape sequences (%NN, \\xNN, \\NNN, %uNNNN, \\uNNNN) and numeric character references (decimal and hexadecimal) decode to exactly the byte or character with that number, in shortest form, and anything that is not such a notation, or a number too large, is refused and never becomes another character; the escape encoder writes prefix, number in the selected base, suffix; the code page 950 user-defined areas map to the private-use characters Microsoft assigns and refuse every other byte pair; RAW emits the bytes behind the type tag; BSDCONV and the glyph-reference encoder write every byte in hexadecimal; ANY emits exactly the configured replacement.",
 ["inputs"],"every unit or byte sequence of every notation, under every documented mode",
 "Tests contain one or two samples per notation; a wrong digit class, base, bound or padding shows only for particular numbers.",
 ["modules/from/ESCAPE.c","modules/to/ESCAPE.c","modules/from/ASCII-NUMERIC-HTML-ENTITY.c","modules/from/CP950-UDA.c","modules/to/RAW.c","modules/to/BSDCONV.c","modules/to/ASCII-HTML-UNICODE-IMG.c","modules/from/ANY.c","modules/to/ANY.c"],
 [("digit parsing and formatting","listed files, cbconv")])

p("C28","Observing, padding, selecting and holding codecs keep the text",
 "Over every sequence of units, the units that leave such a codec are the units that entered, unchanged and in order, except for exactly what it is documented to add, drop or move: COUNT, WIDTH and SCORE pass everything and their counters grow by exactly the units (of the class, accepted by the filter, by the score); ZH-BONUS passes its phrases on without the bonus, which is added to the score; AMBIGUOUS-PAD puts one U+00A0 after each ambiguous character and AMBIGUOUS-UNPAD removes exactly those; INSERT surrounds every unit with the given data; REPLACE replaces exactly the occurrences of the given sequence, found from the left; PASS takes over what the filter accepts up to the limit and refuses the rest; NULL drops everything; TRIM-WIDTH cuts the text where it would exceed the width; STRINGS leaves exactly the runs of the minimal length; BIG5-DEFRAG moves only the control sequences between the two halves of a character; WHITESPACE-DERAIL takes out exactly the white space.",
 ["inputs","histories"],"every sequence of units and every option",
 "Tests run a handful of strings; what happens to units of other types, at the end of input, after a limit or after a non-matching unit is not covered.",
 ["modules/inter/COUNT.c","modules/inter/WIDTH.c","modules/inter/SCORE.c","modules/inter/AMBIGUOUS-PAD.c","modules/inter/AMBIGUOUS-UNPAD.c","modules/inter/INSERT.c","modules/inter/REPLACE.c","modules/inter/PASS.c","modules/to/PASS.c","modules/inter/TRIM-WIDTH.c","modules/inter/STRINGS.c","modules/inter/BIG5-DEFRAG.c","modules/inter/WHITESPACE-DERAIL.c","modules/inter/BONUS.c"],
 [("pass-through of the current unit and bookkeeping","listed files, cbconv and cbflush")])

p("C29","The command-line converter converts every named input completely and separately",
 "For standard input, one file or several files: each input is handed to a conversion initialised for it, in chunks that are exactly the bytes read, in the order read, and is ended exactly once at its end; nothing of one input reaches the output of another; the text goes to standard output, or in in-place mode to that file's replacement, and to nothing else; messages and reports go to standard error, so they never mix into the text; a conversion that cannot be created or an input that cannot be opened is reported and nothing is converted with it.",
 ["inputs","fault_sequences"],"every argument list x every split of the input into reads x every call that can fail",
 "No test runs the command-line tool on several files, and none makes its calls fail.",
 ["src/bsdconv.c"],
 [("argument handling and the read loop","src/bsdconv.c main, bsdconv_file")])

p("C30","Escape sequences and shift codes select the character set the standard assigns",
 "In stateful charsets the decoder switches sets exactly at the registered sequences: ESC ( B, ESC ( J, ESC ( I, ESC $ @, ESC $ B and ESC $ ( D designate ASCII, JIS X 0201 Roman and Katakana, JIS X 0208 (1978, 1983) and JIS X 0212, from whatever set was selected before, produce no text, and every following byte is looked up in that set and no other until the next sequence; anything that only begins like a sequence is refused. In the mixed EBCDIC code pages SO and SI select two-byte and one-byte codes. The encoders write the shift exactly where the width of the code changes and never otherwise, return to the initial set at the end of the text, and an encoding never writes codes that its own decoder would read in another set.",
 ["inputs","histories"],"every set selected before x every sequence, every prefix of one and every byte after it; every history of code widths",
 "Tests contain no escape sequence of JIS at all and single switches for EBCDIC; which table is consulted after which sequence shows only in texts that use it.",
 ["modules/from/_JIS.c","modules/from/EBCDIC.c","modules/to/EBCDIC.c","modules/to/alias"],
 [("mode switching","modules/from/_JIS.c cbconv"),("shift handling","modules/from/EBCDIC.c, modules/to/EBCDIC.c cbconv and cbflush")])

p("C31","White space taken out is put back exactly where it was",
 "For every text, WHITESPACE-DERAIL followed by WHITESPACE-RERAIL gives the text back: derailing records each unit of white space once, with its bytes and the number of units that stood before it, in order; rerailing puts out each recorded unit as soon as exactly that many units have passed, in order, loses or repeats none, whether it was recorded before or after the unit it follows arrived, and puts out what remains at the end of the text.",
 ["inputs","histories"],"every sequence of white space and other units, every fill of the queue",
 "Tests run one sentence; runs of white space at the start, at the end, and white space recorded in a later chunk are not covered.",
 ["modules/inter/WHITESPACE-DERAIL.c","modules/inter/WHITESPACE-RERAIL.c"],
 [("recording and release of white space","both files, cbconv and cbflush")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
