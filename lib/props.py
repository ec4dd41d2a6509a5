"""The properties: the single source of properties.jsonl and MANIFEST.json (see make_docs.py)."""
S = 'src/libunicode/'
PROPS = []


def P(id, title, statement, over, text, why, files, mechanism, observe, technique, note, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                      files=[f if f.startswith('src/') else S + f for f in files],
                      mechanism=[dict(name=a, where=b if b.startswith('src/') else S + b) for a, b in mechanism],
                      observe=observe, technique=technique, note=note, state=state))


ASAN = 'under AddressSanitizer and UndefinedBehaviorSanitizer'
EXACT = 'inputs and output buffers end exactly at the end of their allocations'

P('P01', 'Every per-codepoint property lookup returns the value in the Unicode data',
  'For every 32-bit value, each property query of the library (general category, script and script extensions, block, age, '
  'grapheme/word/Indic break classes, emoji properties, East Asian width, mirroring, bidi class, core properties, width) returns '
  'exactly the value the Unicode Character Database files assign to that code point, or the documented default. The combined property '
  'record and the individual query functions agree with each other. Values beyond U+10FFFF yield the defaults without touching foreign memory.',
  ['inputs'], 'all 0x110000 code points and values beyond them',
  'Tests look at a few dozen code points; a wrong table entry, a range off by one or a compression collision affects any of 1.1 million others.',
  ['codepoint_properties.h', 'tablegen/ucd_parser.cpp', 'tablegen/multistage_generator.cpp', 'tablegen/ucd_api_generator.cpp', 'multistage_table_view.h', 'width.h', 'ucd_private.h'],
  [('record lookup', 'codepoint_properties.h:get'), ('range tables and binary search', 'tablegen/ucd_api_generator.cpp, ucd_private.h'), ('UCD parsing', 'tablegen/ucd_parser.cpp')],
  ['codepoint_properties::get', 'unicode::script, block, age, general_category::get, contains(...)', 'unicode::width'],
  'runtime monitoring: exhaustive differential oracle over the UCD text files, ASan/UBSan build',
  'Complete over the code space for every property compared (exhaustive enumeration, observed at run time). Trusts the UCD files, and the independent parser lib/gen_ref.py.')

P('P02', 'Names and printed labels are those of the Unicode data',
  'The name reported for every code point is the one the Unicode data gives it (including Hangul syllables, ideographs and ranges as the library defines them), '
  'and empty where there is none. Every enumeration value prints, by both printing mechanisms, the label of exactly that value.',
  ['inputs'], 'every code point, every value beyond, every enumerator',
  'Tests look at a handful of names; the name table is a compressed string table in which any block can be shared wrongly.',
  ['codepoint_properties.h', 'codepoint_properties.cpp', 'tablegen/multistage_generator.cpp', 'tablegen/enum_generator.cpp', 'multistage_table_generator.h'],
  [('name lookup', 'codepoint_properties.cpp'), ('label generation', 'tablegen/enum_generator.cpp')],
  ['codepoint_properties::name', 'operator<<', 'std::format'],
  'runtime monitoring: exhaustive differential oracle over the UCD text files, ASan/UBSan build',
  'Complete over the code space and all enumerators. Trusts the UCD files and the independent parser.')

P('P03', 'Conversion between UTF-8, UTF-16 and UTF-32 is exact and invertible',
  'Converting well-formed text between any two of UTF-8, UTF-16, UTF-32 and wide strings, by any interface (whole string, output iterator, raw pointer, '
  'single character, C API), yields exactly the encoding of the same scalar values, and converting back restores the input. '
  'No more is written than the result needs and nothing is read beyond the input.',
  ['inputs', 'configurations'], 'all well-formed texts, all lengths and alignments of ASCII runs, vectorised and scalar builds',
  'Tests sample some strings; the vector code paths depend on run lengths and boundaries, and the interfaces have separate code.',
  ['convert.h', 'convert.cpp', 'convert_simd_impl.h', 'utf8.h', 'utf8.cpp', 'capi.cpp'],
  [('decoders and encoders', 'convert.h:decoder, encoder'), ('vector fast path', 'convert_simd_impl.h'), ('to_utf8/from_utf8', 'utf8.cpp')],
  ['convert_to<T>', 'to_utf8', 'from_utf8', 'u32u8_convert'],
  'runtime monitoring: reference codec as oracle, round-trip laws, ASan/UBSan on intrinsics and scalar builds',
  'Exploration: every scalar value through the single-character routes is complete; texts are generated. ' + EXACT + '.')

P('P04', 'Malformed input is contained: no overrun, no lost or invented text',
  'On any byte or code unit sequence every entry point terminates, stays within its input and output, and triggers no undefined behaviour. '
  'A decoder turns each maximal well-formed stretch into exactly its characters and each malformed part into at most replacement output: it never swallows a '
  'well-formed character after the malformed one and never invents other characters. (In UTF-16 an unpaired high surrogate together with the unit behind it counts as one malformed part, as the test suite fixes.) Values that are not scalar values do not corrupt the text around them.',
  ['inputs'], 'all byte strings, UTF-16 strings with unpaired surrogates, UTF-32 strings with non-scalar values',
  'Tests have a few invalid sequences; overruns and desynchronisation depend on where in the text and at what alignment the damage is.',
  ['convert.h', 'convert_simd_impl.h', 'utf8.h', 'utf8.cpp', 'scan.cpp', 'utf8_grapheme_segmenter.h', 'capi.cpp', 'normalization.cpp'],
  [('resynchronisation', 'convert.h:decoder<char>::operator()'), ('stateful decoder', 'utf8.cpp:from_utf8'), ('truncation', 'utf8_grapheme_segmenter.h')],
  ['convert_to', 'from_utf8', 'scan_text', 'segmenters', 'C API'],
  'runtime monitoring: resynchronisation monitor (token/output matching) and ASan/UBSan with exact-size buffers',
  'Exploration: complete for 2-byte strings and for class representatives up to length 3 (thorough 4); otherwise generated. A clean sanitizer run covers the executed paths.')

P('P05', 'Vectorised routines give the scalar result at every length, offset and width',
  'Converting and scanning with any vector width (128, 256, 512 bits, std::simd, or none) and with run-time dispatch gives the same output and the same consumed length '
  'as processing one character at a time, for every length, alignment and content of the input, without reading or writing outside the given ranges.',
  ['inputs', 'configurations'], 'all texts, alignments, vector widths and build configurations',
  'The test build uses one configuration on one machine, and samples some lengths; errors sit at specific positions within the vector or the tail.',
  ['convert_simd_impl.h', 'scan_simd_impl.h', 'intrinsics.h', 'convert256.cpp', 'convert512.cpp', 'scan256.cpp', 'scan512.cpp', 'simd_detector.cpp', 'convert.cpp', 'scan.cpp'],
  [('vector kernels', 'convert_simd_impl.h, scan_simd_impl.h'), ('vector wrappers', 'intrinsics.h'), ('dispatch', 'simd_detector.cpp, scan.cpp, convert.cpp')],
  ['detail::convert_utf8_to_utf32_*', 'detail::scan_for_text_ascii_*', 'simd_size'],
  'runtime monitoring: every vector width against a byte-at-a-time model, ASan with exact allocations, three builds',
  'Exploration: every length 0..199 with every stop position, every byte value in every lane; wider units only where the CPU has them.')

P('P06', 'Incremental UTF-8 decoding equals whole-string decoding, streams are independent',
  'Feeding a text byte by byte to any incremental decoder delivers the same characters as decoding it at once, each exactly when its last byte arrives. '
  'Any number of streams fed in turn do not influence each other, and a stream can be reset and used again.',
  ['inputs', 'schedules', 'histories'], 'all texts, all interleavings of streams, all split positions',
  'Tests feed a few short sequences to one decoder at a time.',
  ['utf8.h', 'utf8.cpp', 'convert.h', 'capi.cpp'],
  [('decoder state', 'utf8.h:utf8_decoder_state'), ('stream handle', 'capi.cpp:u8u32_stream_convert_run')],
  ['from_utf8(state, byte)', 'decoder<char>', 'u8u32_stream_convert_run'],
  'runtime monitoring: event log of interleaved streams against a per-stream reference decoder, ASan/UBSan',
  'Exploration: every scalar value complete; interleavings and texts generated, counted as distinct.',
  state=[dict(name='utf8_decoder_state', meaning='expected and current length, partial character', where=S + 'utf8.h')])

P('P07', 'Grapheme cluster boundaries are those of UAX #29',
  'For every UTF-32 text, the grapheme segmenter, the pairwise and stateful break queries and the C API report exactly the extended grapheme cluster boundaries of UAX #29 '
  '(including regional indicator pairs, emoji ZWJ sequences and Indic conjuncts), wherever in the text iteration starts at a cluster boundary and whatever was processed before. Copies of a segmenter keep their place, and compare equal exactly at the same place.',
  ['inputs', 'histories'], 'all texts, all start states reachable',
  'Tests check short fixed strings; the rules carry state (parity, ZWJ, linker) over unbounded contexts and the library keeps fast paths.',
  ['grapheme_segmenter.h', 'grapheme_segmenter.cpp', 'capi.cpp'],
  [('break rules', 'grapheme_segmenter.cpp:grapheme_process_breakable'), ('state initialisation', 'grapheme_segmenter.cpp:grapheme_process_init'), ('segmenter', 'grapheme_segmenter.cpp:grapheme_segmenter::operator++')],
  ['grapheme_segmenter', 'grapheme_process_breakable', 'u32_gc_count'],
  'runtime monitoring: declarative UAX #29 model as online oracle, validated by the conformance suite, ASan/UBSan',
  'Exploration: every code point against every class (both orders) complete; every class sequence up to length 4 (thorough 5); longer texts generated.',
  state=[dict(name='grapheme_segmenter_state', meaning='previous class, RI parity, GB11/GB9c progress', where=S + 'grapheme_segmenter.h')])

P('P08', 'Walking UTF-8 text by grapheme cluster visits exactly its clusters',
  'Iterating a UTF-8 text delivers exactly the clusters of UAX #29 in order, each once and complete, whatever the cluster length, and ends. '
  'Iterators can be copied, compared and resumed, and every counting interface gives the number of clusters visited.',
  ['inputs', 'histories'], 'all texts, all iterator copies and positions',
  'Tests walk two fixed strings.',
  ['utf8_grapheme_segmenter.h', 'grapheme_segmenter.cpp', 'capi.cpp'],
  [('iterator', 'utf8_grapheme_segmenter.h:iterator::operator++')],
  ['utf8_grapheme_segmenter::iterator', 'u8_gc_count', 'u32_gc_count'],
  'runtime monitoring: UAX #29 model as online oracle, iterator resumption monitor, ASan/UBSan',
  'Exploration over the conformance suite, emoji sequences, every scalar value in context, generated texts.')

P('P09', 'Word boundaries are those of UAX #29',
  'For every UTF-32 text, the word segmenter and the stateful break queries report exactly the word boundaries of UAX #29 chapter 4, whatever text the state processed before. Copies of a segmenter keep their place, and compare equal exactly at the same place.',
  ['inputs', 'histories'], 'all texts',
  'The one conformance test samples fixed lines of one or two characters per class; the rules look over unbounded runs of ignorable characters and ahead in the text.',
  ['word_segmenter.h', 'word_segmenter.cpp'],
  [('break rules', 'word_segmenter.cpp:word_process_breakable'), ('lookahead', 'word_segmenter.cpp'), ('segmenter', 'word_segmenter.h')],
  ['word_segmenter', 'word_process_init', 'word_process_breakable'],
  'runtime monitoring: declarative UAX #29 word model as online oracle, validated by the conformance suite, ASan/UBSan',
  'Exploration: every code point in five contexts complete, every class sequence up to length 4 (thorough 5), longer texts generated.')

P('P10', 'Normalization yields the forms of UAX #15 for every text',
  'For every text and each of NFC, NFD, NFKC and NFKD the result of normalizing is that of UAX #15, in UTF-32 and UTF-8 alike; normalizing is idempotent and the forms relate as the standard demands. '
  'The per-character properties (combining class, decomposition, type, exclusions, Hangul composition) are those of the Unicode data.',
  ['inputs'], 'all texts, all code points',
  'Tests contain a subset of single-character cases; composition depends on blocking, order and Hangul context over texts of any length.',
  ['normalization.h', 'normalization.cpp', 'tablegen/case_norm_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('decompose, reorder, compose', 'normalization.cpp'), ('data tables', 'tablegen/case_norm_generator.cpp')],
  ['normalize', 'to_nfc ... to_nfkd', 'canonical_combining_class, canonical_decomposition, ...'],
  'runtime monitoring: UAX #15 reference model validated by NormalizationTest.txt, algebraic laws, ASan/UBSan',
  'Exploration: properties complete; the conformance suite complete; every active character in context, generated texts.')

P('P11', 'Quick check never contradicts normalization; equivalence tests are exact',
  'A quick check answers Yes only for normalized text and No only for text that is not, for every text and form; the full check is true exactly if normalizing would not change the text. '
  'Two texts are reported canonically (compatibly) equivalent exactly if their decomposed forms are equal.',
  ['inputs'], 'all texts, pairs of texts and forms',
  'Tests ask about a few strings; the fast answer must agree with the slow one on all others.',
  ['normalization.h', 'normalization.cpp', 'tablegen/case_norm_generator.cpp'],
  [('quick check', 'normalization.cpp:quick_check'), ('is_normalized', 'normalization.cpp'), ('equivalence', 'normalization.cpp')],
  ['normalization_quick_check', 'is_normalized', 'is_canonically_equivalent'],
  'runtime monitoring: consistency monitor against the UAX #15 model, ASan/UBSan',
  'Exploration; answers of each kind are counted and have floors.')

P('P12', 'Streaming normalization equals batch normalization, however the input is cut',
  'Feeding a text to the streaming normalizers code point by code point, or as UTF-8 in chunks cut anywhere, and flushing delivers in total exactly the batch normalization of the text. '
  'Nothing is delivered twice, lost or left behind after flush, and a flushed or reset object behaves like a new one.',
  ['inputs', 'schedules', 'histories'], 'all texts, all ways of cutting them, all histories of reset and reuse',
  'Tests cut a few strings; equality must hold for each segment boundary decision in each text.',
  ['normalization.h', 'normalization.cpp'],
  [('segment boundary', 'normalization.cpp:normalizer'), ('UTF-8 buffering', 'normalization.h:utf8_normalizer')],
  ['normalizer', 'utf8_normalizer'],
  'runtime monitoring: output conservation monitor over chunked histories against the batch model, ASan/UBSan',
  'Exploration; every single split position of short texts, random chunkings, reused objects.')

P('P13', 'Case mapping and folding are those of the Unicode data',
  'Simple and full case mappings, folding and the derived predicates give for every code point the value of the Unicode data, and mapping or folding a text gives the mapping of its '
  'characters in order, in UTF-32 and UTF-8 alike, including characters that change length.',
  ['inputs'], 'all code points and texts',
  'Tests look at a few letters.',
  ['case_mapping.h', 'case_mapping.cpp', 'tablegen/case_norm_generator.cpp', 'tablegen/ucd_parser.cpp'],
  [('mapping tables', 'tablegen/case_norm_generator.cpp'), ('text mapping', 'case_mapping.cpp')],
  ['simple_*', 'full_*', 'to_lowercase, to_uppercase, to_titlecase, to_casefold'],
  'runtime monitoring: exhaustive differential oracle over the UCD, model of text mapping, ASan/UBSan',
  'Per-character part complete; texts generated. Titlecase word detection and Final_Sigma are accepted in either documented variant (see DESIGN.md).')

P('P14', 'Case-insensitive comparison is an order that agrees with case folding',
  'Case-insensitive equality of two texts holds exactly if their case-folded forms are equal, the three-way comparison is zero exactly then, and it is a total preorder '
  '(antisymmetric and transitive), in UTF-32 and UTF-8 alike.',
  ['inputs'], 'all pairs and triples of texts',
  'Tests compare a few pairs; expansion of characters by folding makes the comparison walk the two texts at different speeds.',
  ['case_mapping.h', 'case_mapping.cpp'],
  [('incremental comparison', 'case_mapping.cpp:casefold_compare')],
  ['casefold_compare', 'casefold_equals'],
  'runtime monitoring: comparison against folded reference texts, order laws over triples, ASan/UBSan',
  'Exploration; equal-but-different pairs, less and greater answers have floors.')

P('P15', 'Width of a character and of a cluster follow the documented rules',
  'The width of every code point is that of its Unicode properties by the documented table, and the width of a grapheme cluster follows the documented rules for variation selectors, '
  'emoji modifiers, joiners, conjuncts and regional indicators. Measuring step by step gives at every prefix the same as measuring the prefix at once, from fresh, reset or copied accumulators.',
  ['inputs', 'histories'], 'all code points, all sequences, all prefixes',
  'Tests measure some clusters; the accumulator carries state through arbitrarily long clusters.',
  ['width.h', 'width.cpp', 'codepoint_properties.h'],
  [('accumulator', 'width.h:grapheme_cluster_width_accumulator'), ('batch', 'width.cpp:grapheme_cluster_width')],
  ['width', 'grapheme_cluster_width', 'accumulator'],
  'runtime monitoring: rule model as online oracle at every prefix, ASan/UBSan',
  'Exploration: every code point in 12 contexts complete, every class sequence up to 4 (thorough 5).')

P('P16', 'Every interface that measures text agrees on its width',
  'The width of a text is the sum of the widths of its grapheme clusters, whichever interface measures it: scanning without limit, the C API, or measuring cluster by cluster. '
  'It does not depend on whether parts of the text take the ASCII fast path.',
  ['inputs'], 'all texts without control characters',
  'Tests compare a few strings; the fast path, slow path and batch code are separate implementations.',
  ['scan.cpp', 'scan.h', 'width.cpp', 'capi.cpp', 'grapheme_segmenter.cpp'],
  [('scan', 'scan.cpp:scan_text'), ('C API width', 'capi.cpp:u32_gc_width')],
  ['scan_text', 'u8_gc_width, u32_gc_width', 'grapheme_cluster_width'],
  'runtime monitoring: cross-interface agreement monitor with cluster/width model, ASan/UBSan',
  'Exploration over conformance suites, emoji sequences, every interesting code point, generated texts.')

P('P17', 'A scan never exceeds its column limit and accounts exactly for what it consumed',
  'One scanning call reports at most the columns it was allowed, the consumed range is exactly the text of the reported columns and of the events delivered to the receiver, and it ends only at the end of input, '
  'at a control character, or because the next cluster does not fit. Each invalid sequence is reported as such and counted, and resumption state stays consistent.',
  ['inputs', 'configurations'], 'all texts (well-formed or not), all limits, with and without receiver',
  'Tests use a few strings and limits; the limit can fall into any place of any cluster, control or invalid sequence.',
  ['scan.h', 'scan.cpp', 'scan_simd_impl.h'],
  [('scan loop', 'scan.cpp:scan_text'), ('non-ASCII part', 'scan.cpp:scan_for_text_nonascii'), ('ASCII part', 'scan_simd_impl.h')],
  ['scan_text result', 'grapheme_cluster_receiver events', 'scan_state'],
  'runtime monitoring: conservation monitor over receiver event logs and cursor state, ASan/UBSan',
  'Exploration: each text under every limit 0..width+2; every byte string up to length 4 (thorough 5) over 22 bytes.',
  state=[dict(name='scan_state', meaning='cursor, UTF-8 decoder, cluster and width carried across calls', where=S + 'scan.h')])

P('P18', 'Scanning resumes: cut into any calls, text is delivered exactly once, in order',
  'Scanning a text in any number of calls, cut at any bytes and under any limits, delivers every cluster exactly once and in order, and the columns add up to the width of the text. '
  'No state of one text leaks into the next one after a control character.',
  ['inputs', 'schedules', 'histories'], 'all texts and all ways of cutting them into calls and limits',
  'Tests slice a few strings in one way.',
  ['scan.h', 'scan.cpp'],
  [('state carried between calls', 'scan.h:scan_state'), ('putting text back', 'scan.cpp')],
  ['scan_text', 'receiver events over whole histories'],
  'runtime monitoring: exactly-once / conservation checker over recorded histories of calls, ASan/UBSan',
  'Exploration: whole, bytewise, every single split, random chunks and limits; the number of calls and histories is reported.',
  state=[dict(name='scan_state', meaning='cursor, UTF-8 decoder, cluster and width carried across calls', where=S + 'scan.h')])

P('P19', 'Script runs tile the text and break exactly where scripts cease to be shared',
  'Script segmentation covers every text with consecutive runs, each reported with a script that all its characters share (Common and Inherited adapt), '
  'and a run ends only where the next character shares no script with it.',
  ['inputs'], 'all texts',
  'Tests use a few strings of two or three scripts; script extension sets interact over the whole run.',
  ['script_segmenter.h', 'script_segmenter.cpp', 'tablegen/ucd_api_generator.cpp'],
  [('set intersection', 'script_segmenter.cpp'), ('script extensions', 'tablegen/ucd_api_generator.cpp')],
  ['script_segmenter::consume', 'script_extensions'],
  'runtime monitoring: set-based model as online oracle plus tiling monitor, ASan/UBSan',
  'Exploration: every code point complete; every pair of script sets; triples; generated texts.')

P('P20', 'Emoji presentation runs follow UTS #51 and tile the text',
  'Emoji segmentation covers every text with consecutive maximal runs, alternating between emoji and text presentation, where exactly the sequences of the UTS #51 grammar with emoji presentation are in emoji runs.',
  ['inputs'], 'all texts',
  'Tests use some strings; the grammar has ten symbols and a scanner that backtracks.',
  ['emoji_segmenter.h', 'emoji_segmenter.cpp', 'emoji_presentation_scanner.c'],
  [('scanner', 'emoji_presentation_scanner.c'), ('run merging', 'emoji_segmenter.cpp:consume_once')],
  ['emoji_segmenter::consume'],
  'runtime monitoring: grammar model as online oracle plus tiling monitor, ASan/UBSan',
  'Exploration: all emoji data sequences and truncations, every code point, every category sequence up to length 5 (thorough 6).')

P('P21', 'Text runs are the common refinement of their component segmenters',
  'Run segmentation covers every text with consecutive runs that end exactly where one of the component segmentations ends, and each run carries the properties of the component segments that contain it.',
  ['inputs', 'programs'], 'all texts, all compositions of component segmenters',
  'Tests use some strings with the one shipped composition.',
  ['run_segmenter.h', 'script_segmenter.cpp', 'emoji_segmenter.cpp'],
  [('refinement', 'run_segmenter.h:consume')],
  ['run_segmenter::consume'],
  'runtime monitoring: refinement law checked over event logs of component segmenters, ASan/UBSan',
  'Exploration: every boundary pattern up to 5 (thorough 7) units of three components, plus generated texts.')

P('P22', 'The C API keeps to its buffers and handles and agrees with the C++ API',
  'Every C function returns what the corresponding C++ function says, never writes beyond the given buffer size, and reports failure exactly if the result does not fit. '
  'Handles are independent, creation and destruction balance, and the header serves C programs.',
  ['inputs', 'histories', 'configurations'], 'all texts, buffer sizes and handle histories; C and C++ callers',
  'Tests call a few functions once each, with ample buffers, from C++ only.',
  ['capi.h', 'capi.cpp'],
  [('buffer check', 'capi.cpp:u32u8_convert'), ('stream handle', 'capi.cpp:u8u32_stream_convert_*'), ('C linkage', 'capi.h')],
  ['C functions', 'heap balance', 'C99 program'],
  'runtime monitoring: differential monitor C vs C++ vs model, buffer canaries/ASan, heap-balance monitor, C99 client',
  'Exploration: conversions under every buffer size from 0 to 3 beyond need; code points complete for conversion.')

P('P23', 'Table generation is lossless, deterministic and contained on damaged data',
  'The multistage compression gives back every element of every input table, for any element type, hasher, source type and index width that the table fits, empty tables and full ranges included; what does not fit is refused, in builds with and without assertions, and verify() accepts faithful tables only. '
  'The table generator writes the same files whenever the data is the same, whatever memory content, comments, spacing or order of lines, and ends with an error or a result - never with memory errors - on damaged or missing data. It reports success only when all the data has been read and every table been written completely, whatever fails while reading or writing.',
  ['inputs', 'configurations', 'fault_sequences'], 'all tables; all presentations and damages of the Unicode data files',
  'Tests run the generator once on one data set and look at some of its results.',
  ['multistage_table_generator.h', 'multistage_table_view.h', 'tablegen/ucd_parser.cpp', 'tablegen/tablegen_main.cpp', 'tablegen/multistage_generator.cpp'],
  [('block deduplication', 'multistage_table_generator.h'), ('parser', 'tablegen/ucd_parser.cpp')],
  ['multistage_table_view::get', 'generated files'],
  'runtime monitoring: lossless-compression monitor, metamorphic runs of the sanitized generator with data faults',
  'Exploration: random tables, some 50 (thorough more) generator runs. Failure to write output (disk full) is not covered.')

P('P24', 'The library may be used from any number of threads at once',
  'Operations that do not share a mutable object may run in any number of threads at the same time, on the same or other texts, from the very first use on: '
  'there is no data race, and every operation gives the result it gives in a single thread.',
  ['schedules', 'histories'], 'all schedules of all combinations of operations, including the first use of each',
  'All tests are single-threaded.',
  ['scan.cpp', 'scan.h', 'convert.cpp', 'codepoint_properties.cpp', 'normalization.cpp', 'case_mapping.cpp', 'utf8.cpp', 'capi.cpp', 'multistage_table_view.h'],
  [('lazy detection of the vector width', 'scan.cpp:scan_for_text_ascii, convert.cpp'), ('constant tables', 'codepoint_properties.h:configured_tables'), ('shared null receiver', 'scan.h:null_receiver::get')],
  ['all public functions'],
  'runtime monitoring: ThreadSanitizer on overlapping operations in fresh processes, plus per-operation result oracle',
  'Exploration of the schedules that occurred; overlapping operations are counted. Objects with mutable state are not shared between threads.')

P('P25', 'The command line tools show what the library says, completely and escaped',
  'For any arguments unicode-query ends without fault and shows for every code point asked for - and no other - the values the library has, or an error for what is none. '
  'Texts are shown completely, in order, cluster by cluster or run by run, with control codes escaped so that they can be read back; uc-inspect lists a file likewise. '
  'A wrong argument, an input that cannot be read and output that cannot be written end in failure, not in success.',
  ['inputs'], 'all argument lists, all texts and files',
  'No test runs the tools.',
  ['src/tools/unicode-query.cpp', 'src/tools/uc-inspect.cpp'],
  [('argument parsing', 'src/tools/unicode-query.cpp:parseChar'), ('escaping', 'src/tools/unicode-query.cpp:escaped, escapeControlCodes'), ('listing', 'src/tools/uc-inspect.cpp')],
  ['standard output and error, exit status'],
  'runtime monitoring: output parser comparing with library values and models, escape round trip, ASan/UBSan',
  'Exploration; code points of all planes in use (quick: CJK sampled). The tools run in-process with captured streams.')

P('P26', 'Operations return all memory, take no more than needed, survive running out',
  'Every operation gives back all memory it takes, and takes at most in proportion to its text; a streaming normalizer holds its unfinished segment, not the text. '
  'When any single allocation fails, an operation not declared noexcept ends with std::bad_alloc (or its right result) without losing memory, operations declared noexcept that need no memory stay so, '
  'the same call works afterwards, and a streaming normalizer can be reset and used again.',
  ['inputs', 'fault_sequences', 'histories'], 'all texts, all points at which memory runs out',
  'Tests never let an allocation fail, and do not look at the heap.',
  ['normalization.h', 'normalization.cpp', 'convert.h', 'case_mapping.cpp', 'utf8_grapheme_segmenter.h', 'run_segmenter.h', 'capi.cpp', 'scan.cpp'],
  [('stream buffers', 'normalization.cpp:normalizer, utf8_normalizer'), ('handles', 'capi.cpp:u8u32_stream_convert_create, u8u32_stream_convert_destroy'), ('growing results', 'convert.h:convert_to')],
  ['operator new and delete', 'results and exceptions of all operations'],
  'runtime monitoring: heap balance and peak monitor, every allocation failing in turn, ASan/UBSan',
  'Exploration. Up to 24 failing allocations per operation and text; the peak may be 600 bytes per code unit, which catches growth out of proportion, not waste. '
  'The functions declared noexcept that do allocate (UTF-8 cluster iterators, grapheme_cluster_width of UTF-8) end the program when memory runs out, as declared; only their balance is checked.')

P('P27', 'The library works from static initialisation to exit, in any order of use',
  'Every operation gives the same result whether it is called from the constructor of a static object before anything else, in main(), from the destructor of a static object after main() or at the end of a thread, '
  'and whichever operation is the first to be used.',
  ['histories', 'schedules'], 'all times in the life of a program, all orders of first use, all texts',
  'Tests run inside main(), in one order.',
  ['codepoint_properties.h', 'codepoint_properties.cpp', 'scan.cpp', 'scan.h', 'convert.cpp', 'normalization.cpp', 'tablegen/multistage_generator.cpp', 'tablegen/ucd_api_generator.cpp'],
  [('constant tables', 'codepoint_properties.h:configured_tables, configured_names'), ('lazy detection of the vector width', 'scan.cpp, convert.cpp')],
  ['all public functions'],
  'runtime monitoring: results logged before, during and after main() and compared; initialisation order checker of ASan',
  'Exploration: 22 operation groups, 48 orders of first use in fresh processes, random texts. The results in main() are judged by the other properties.')

P('P28', 'Results do not depend on compiler, optimisation, build options or environment',
  'Every operation gives the same result whichever supported compiler (gcc, clang), optimisation level, language version, signedness of char, state of assertions and vector unit the library is built with, '
  'in any locale and whatever memory contained before; it never uses a value that was not initialised.',
  ['configurations', 'inputs'], 'all build configurations and environments, all texts',
  'Tests run in one build. Assertions with effects, reliance on the signedness of char, uninitialised or indeterminate values and undefined behaviour show in others only.',
  ['convert.h', 'convert_simd_impl.h', 'scan.cpp', 'scan_simd_impl.h', 'intrinsics.h', 'utf8.h', 'utf8.cpp', 'grapheme_segmenter.h', 'emoji_segmenter.h', 'script_segmenter.h', 'run_segmenter.h', 'word_segmenter.h', 'case_mapping.cpp', 'normalization.cpp'],
  [('byte classification', 'scan.cpp:is_control, is_complex'), ('decoding', 'convert.h:decoder<char>'), ('initial states', 'grapheme_segmenter.h, emoji_segmenter.h, scan.h')],
  ['all public functions'],
  'runtime monitoring: logs of six builds compared offline, perturbed heap and stack, locale, valgrind memcheck on three builds',
  'Exploration over the builds possible here (x86-64, gcc 13, clang 18; no 32-bit, no NEON, no MSVC). The digests cover all results of 22 operation groups.')

P('P29', 'The work done for a text grows in proportion to the text',
  'For every interface and every text, well-formed or not, the work is at most proportional to the length of the text (with a logarithmic factor where characters are sorted): '
  'no text, however constructed, makes segmentation, scanning, conversion, case mapping, comparison, normalization (streaming included) take quadratic time.',
  ['inputs'], 'all texts, however long and repetitive',
  'Tests use short texts, on which quadratic and linear work look alike.',
  ['normalization.cpp', 'word_segmenter.cpp', 'word_segmenter.h', 'grapheme_segmenter.cpp', 'scan.cpp', 'case_mapping.cpp', 'script_segmenter.cpp', 'emoji_segmenter.cpp', 'run_segmenter.h', 'utf8_grapheme_segmenter.h', 'convert.h'],
  [('canonical ordering', 'normalization.cpp:canonical_order'), ('lookahead', 'word_segmenter.cpp'), ('context of final sigma and titlecase', 'case_mapping.cpp'), ('put-back', 'scan.cpp')],
  ['control flow edges executed and bytes moved, by text length'],
  'runtime monitoring: deterministic work counter (compiler coverage instrumentation) on growing texts',
  'Exploration: 35 operations on repetitive patterns of one to three units; quadratic work counts as a violation only when two successive quadruplings of the text cost more than sixfold each.')

P('P30', 'Built from another Unicode version, the library answers as that version says',
  'Whatever version of the Unicode Character Database the library is built from, its property lookups, names, segmentation, normalization, case mapping and width '
  'answer for every character and every text as that database says, for characters, scripts, blocks and mappings that are new in it as much as for the old ones: '
  'no answer is tied to the version at hand, and the generator accepts every database that keeps to the format and the stability policies.',
  ['inputs', 'configurations'], 'all Unicode versions that keep the stability policies, all characters and texts',
  'Tests see one version of the data. Knowledge of it that slipped into the code (fixed ranges, fixed sizes, assumed lengths, planes or order) shows with the next version only.',
  ['tablegen/ucd_parser.cpp', 'tablegen/enum_generator.cpp', 'tablegen/ucd_api_generator.cpp', 'tablegen/case_norm_generator.cpp', 'tablegen/multistage_generator.cpp',
   'normalization.cpp', 'case_mapping.cpp', 'codepoint_properties.h', 'grapheme_segmenter.cpp', 'word_segmenter.cpp', 'script_segmenter.cpp', 'emoji_segmenter.cpp', 'width.cpp'],
  [('parsing the database', 'tablegen/ucd_parser.cpp'), ('enumerations from the data', 'tablegen/enum_generator.cpp'), ('tables sized by the data', 'tablegen/case_norm_generator.cpp, multistage_generator.cpp'),
   ('algorithms on properties', 'normalization.cpp, case_mapping.cpp, width.cpp')],
  ['table generator', 'all functions observed by P01, P02, P07, P09, P10, P11, P13, P15, P19, P20'],
  'runtime monitoring: the library built from synthetic Unicode versions, judged by the monitors of the data-driven properties, ASan/UBSan',
  'Exploration: one synthetic version per quick run, five per thorough run. The synthetic versions keep to the stability policies and to the derivations the official files keep to.')
