import os, subprocess
"""The registry of checks: which harness decides which property, and what a run must at least observe."""


def prog(name, config='asan', sources=None, **kw):
    d = dict(name=name, config=config, sources=sources or [name + '.cpp'])
    d.update(kw)
    return d


CHECKS = {}


def check(pid, programs, rule, **kw):
    CHECKS[pid] = dict(programs=programs, rule=rule, **kw)

check('P01', [prog('p01_ucd')],
      'every code point U+0000..U+10FFFF (complete) plus random 32-bit values beyond it; non-trivial = assigned, non-private code points',
      floors={'code points': 0x110000, 'values beyond U+10FFFF': 10000})

check('P02', [prog('p02_names')],
      'the name of every code point (complete), of random values beyond, and every enumerator label through both printing paths; '
      'non-trivial = names and labels that are non-empty and equal',
      floors={'names compared': 0x110000, 'labels compared': 1000})

check('P03', [prog('p03_convert'), prog('p03_convert', 'asan_scalar')],
      'every scalar value through the single-character routes (complete), every ASCII run length 0..279 broken by characters of '
      'each length class, and random well-formed strings through every conversion route; non-trivial = strings with non-ASCII content',
      floors={'scalars, exhaustive': 1112064, 'conversions compared': 1000000})

check('P04', [prog('p04_malformed')],
      'all two-byte strings (bare and embedded), all 3-byte (thorough: 4-byte) strings over 29 byte classes, damaged well-formed text, '
      'UTF-16 with unpaired surrogates, UTF-32 with non-scalar values; non-trivial = inputs that are really malformed',
      floors={'decodings judged': 500000, 'other entry points run': 50000})

check('P05', [prog('p05_simd', flags='-msse4.1', fallback='-DPUBLIC_ONLY'), prog('p05_simd', 'asan_scalar', fallback='-DPUBLIC_ONLY'),
              prog('p05_simd', 'asan_stdsimd', flags='-msse4.1', fallback='-DPUBLIC_ONLY')],
      'every text length 0..199 with a stop byte at every position, every byte value at every vector position, random mixed and damaged '
      'text at random alignments, on the 128/256/512-bit, dispatching, std::simd and scalar builds; non-trivial = texts of at least 16 bytes',
      floors={'calls of dispatch': 50000},
      assumptions=['256/512-bit code runs only where the CPU supports it (see the "unit available" counters); NEON is not covered'])

check('P06', [prog('p06_incremental')],
      'every scalar value (complete), random well-formed and damaged texts on 1..4 interleaved streams, every split position; '
      'non-trivial = streams of more than one byte',
      floors={'scalars, exhaustive': 1112064, 'streams compared': 50000, 'events checked': 1000000, 'distinct interleavings': 1000})

check('P07', [prog('p07_grapheme')],
      'the whole conformance suite, every code point next to a member of every property class (both orders), every sequence of property '
      'classes up to length 4 (thorough: 5) with random members, long runs of few classes, random texts; non-trivial = texts of two or more code points',
      floors={'segmentations compared': 300000, 'pairs compared': 10000000, 'conformance lines': 1000, 'class sequences': 10000})

check('P09', [prog('p09_word')],
      'the whole conformance suite, every code point in five contexts, every sequence of property classes up to length 4 (thorough: 5) '
      'with random members, long runs of few classes, random texts; non-trivial = texts of two or more code points',
      floors={'segmentations compared': 1000000, 'conformance lines': 1500, 'class sequences': 10000})

check('P08', [prog('p08_utf8_grapheme')],
      'the conformance suite, every emoji sequence alone and in pairs, every scalar value in three contexts (quick: every 7th of the '
      'inert ones), random texts; non-trivial = texts in which characters are joined',
      floors={'texts compared': 200000, 'clusters visited': 1000000, 'resumptions compared': 100000})

check('P10', [prog('p10_normalize')],
      'the whole conformance suite, the normalization properties of every code point (complete), every decomposing, composing or combining '
      'character in four contexts, all Hangul jamo triples around the composing ranges, every primary composite (plain, blocked, reordered), '
      'random texts; non-trivial = (text, form) pairs that normalization changes',
      floors={'conformance lines': 19000, "characters' properties compared": 0x110000, 'normalizations compared': 1000000, 'composition pairs': 900})

check('P11', [prog('p11_quick_check')],
      'all columns of the conformance suite, every decomposing, composing or combining character in six contexts, every primary composite in '
      'five, every pair of combining classes, random texts and variants of them; non-trivial = (text, form) pairs that are not normalized or need the full check',
      floors={'answers Yes': 200000, 'answers No': 100000, 'answers Maybe, normalized': 10000, 'answers Maybe, not normalized': 10000,
              'pairs, canonically equivalent': 30000, 'pairs, compatibility equivalent only': 5000, 'pairs, not equivalent': 10000})

check('P12', [prog('p12_stream_normalize')],
      'the conformance suite, every active character in five contexts, every primary composite in three, random texts code point by code point, '
      'and UTF-8 cut whole, bytewise, at every single position (up to 12 bytes) and at random, on fresh and on reused (partly reset) objects; '
      'non-trivial = texts of two or more code points that normalization changes',
      floors={'streams compared': 500000, 'segments delivered': 300000, 'byte streams compared': 100000, 'malformed byte streams compared': 20000, 'resets': 5000})

check('P13', [prog('p13_case')],
      'every code point (complete; simple, full, changes-when, cased, case-ignorable), every character with case or case-ignorable in four '
      'contexts, random texts in UTF-32 and UTF-8; non-trivial = characters with mappings and (text, operation) pairs that change the text',
      floors={'characters compared': 0x110000, 'texts mapped': 300000, 'characters in context': 10000})

check('P14', [prog('p14_casefold_compare')],
      'every character with case against its own mappings and neighbours, bare and embedded, random texts against re-cased, edited and '
      'truncated variants, random triples; non-trivial = pairs of different texts that must compare equal',
      floors={'answers less': 50000, 'answers greater': 50000, 'answers equal, different text': 30000, 'triples': 100000})

check('P15', [prog('p15_width')],
      'every code point alone and in eleven contexts (complete), every sequence of measurement classes up to length 4 (thorough: 5) with random '
      'members, all emoji sequences, random clusters, each measured at once and at every prefix on fresh, reused and copied accumulators; '
      'non-trivial = clusters whose width is not the sum of their characters',
      floors={'characters measured': 0x110000, 'clusters measured': 8000000, 'class sequences': 10000, 'documented examples': 14})

check('P16', [prog('p16_text_width')],
      'the conformance suite, emoji sequences, every interesting code point in three contexts, random texts, ASCII runs of vector length; '
      'non-trivial = texts with clusters of several characters',
      floors={'measurements compared': 1000000, 'scans compared': 150000, 'splits compared': 100000})

check('P17', [prog('p17_scan_limits')],
      'conformance and emoji texts, interesting code points in three contexts, every control at every position 0..69, random texts, each under every '
      'limit 0..width+2 (wide texts: a sample) and followed by nothing or a control; damaged texts and all byte strings up to length 4 (thorough: 5) '
      'over 22 bytes; non-trivial = texts of several clusters, or damaged',
      floors={'calls judged': 500000, 'damaged calls judged': 300000, 'receiver events checked': 1000000, 'ended at a cluster, limit reached': 100000,
              'ended at a control': 20000, 'ended at the end': 100000, 'control positions': 10000, 'invalid markers seen': 100000})

check('P18', [prog('p18_scan_resume')],
      'conformance and emoji texts, combining characters in context, texts around every control, random texts with controls; each scanned whole, bytewise, '
      'in random chunks, split at every position (up to 16 bytes), under fixed, varying and unlimited limits; non-trivial = histories of several calls',
      floors={'histories judged': 200000, 'calls': 1000000, 'receiver events checked': 1000000, 'calls that end inside a character': 300000, 'controls skipped': 50000,
              'damaged histories judged': 200000})


check('P19', [prog('p19_script')],
      'every code point alone (complete) and in context, every pair of script sets, triples of sets of several scripts (quick: a quarter), random texts '
      'around shared scripts; non-trivial = texts of two or more code points',
      floors={'segmentations compared': 1000000, 'pairs of script sets': 10000, 'triples of sets of several scripts': 10000, 'suffixes compared': 50000,
              'runs that several scripts share': 10000, 'runs without script': 10000})

check('P20', [prog('p20_emoji')],
      'all sequences of the emoji data files with their truncations, every code point alone (complete) and in context, every sequence of segmentation '
      'categories up to length 5 (thorough: 6) with random members, random texts; non-trivial = texts of two or more code points',
      floors={'segmentations compared': 2000000, 'emoji sequences': 3000, 'category sequences': 500000, 'texts of several runs': 300000})

check('P21', [prog('p21_run')],
      'every boundary pattern of three component segmenters up to 5 (thorough: 7) units, random patterns, texts mixing scripts and emoji under five '
      'compositions; non-trivial = texts of several runs',
      floors={'shipped segmentations compared': 250000, 'boundary patterns': 100000, 'texts both components split': 50000, 'texts with a coinciding boundary': 20000})


def c_program(ctx):
    """The C API used from a C99 program: it must compile, link and do its work."""
    w = ctx['work']
    viol = []
    flags = '-fsanitize=address,undefined -fno-sanitize-recover=all -fno-sanitize=vptr -g1'.split()
    obj, exe = os.path.join(ctx['rundir'], 'c.o'), os.path.join(ctx['rundir'], 'c-program')
    src = os.path.join(ctx['verif'], 'harness', 'p22_capi.c')
    steps = [('compile', ['clang', '-std=c99', '-w', '-I', w + '/src', '-I', w + '/gen', '-c', src, '-o', obj] + flags),
             ('link', ['clang++', obj, os.path.join(w, 'asan', 'libunicode.a'), '-o', exe] + flags),
             ('run', [exe])]
    done = 0
    for name, cmd in steps:
        env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1', UBSAN_OPTIONS='halt_on_error=1')
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env, timeout=300)
        if r.returncode:
            viol.append(dict(type='violation', key='c-program/' + name, input=src, detail=r.stdout[-3000:], case=0))
            break
        done += 1
    return dict(violations=viol, cases=1, nontrivial=1 if done == 3 else 0, counters={'C program steps': done}, samples={})


check('P22', [prog('p22_capi')],
      'conformance and emoji texts, every code point (complete for conversion; quick: an eighth of the inert ones for pairs), random and damaged texts, '
      'conversion into every buffer size from 0 to 3 beyond the needed one, groups of stream handles fed in turns, bit histories of the macros, '
      'and a C99 program; non-trivial = texts of two or more code points',
      floors={'results compared': 1000000, 'conversions into a buffer': 300000, 'conversions that do not fit': 200000, 'stream steps': 300000,
              'heap balances checked': 200000, 'damaged texts': 20000},
      custom=c_program)


import p23_tablegen

check('P23', [prog('p23_multistage'), p23_tablegen.program()],
      'random tables (1..60 blocks, block sizes 1..128, values, strings and padded structs, hashers down to a constant, 8- and 16-bit stages filled to '
      'their limits); the table generator under sanitizers on the UCD with other memory fill, comments, blank lines, line ends, spacing, line order, '
      'out-of-range lines, damaged lines and missing files, and with faults while reading and writing; non-trivial = tables and generator runs that delivered output',
      floors={'elements compared': 1000000, 'tables of 256 blocks': 30, 'tables that do not fit': 100, 'verifications of damaged tables': 100, 'generator runs': 40, 'output files compared': 100, 'runs with a fault while reading': 21, 'runs with a fault while writing': 15},
      custom=p23_tablegen.run)


check('P24', [prog('p24_threads', 'tsan')],
      'rounds of 2..8 threads in a fresh process each, performing random, identical or opposed operations out of 22 groups that span the library, on shared '
      'texts; non-trivial = rounds in which operations overlapped',
      floors={'rounds': 2400, 'operations overlapping others': 100000, 'results compared': 400000})

check('P25', [prog('p25_query'), prog('p25_inspect')],
      'unicode-query on every code point of the planes in use (quick: a sixth of CJK), values beyond, overflowing and misspelt code points, random texts with '
      'controls, quotes and backslashes for both text commands, arbitrary bytes; uc-inspect on random, damaged, missing and unreadable files; devices that fill up within the output; non-trivial = invocations with a text or code point',
      floors={'fields compared': 300000, 'clusters shown': 30000, 'runs shown': 10000, 'hostile invocations': 10000, 'listings compared': 15000, 'damaged files': 15000,
              'outputs cut short': 1500, 'failing inputs and outputs': 1200, 'arguments that are no code points': 10000})

check('P26', [prog('p26_memory')],
      '22 operation groups and 28 throwing operations on random texts: heap balance and peak of each, every allocation failing in turn (up to 24 of them '
      'per operation and text), retries; normalizers reset after an exhaustion; streams of 40000 code points; non-trivial = operations that allocate',
      floors={'operations run': 80000, 'exhaustions': 10000, 'retries': 3000, 'peaks compared': 80000, 'normalizers reset after an exhaustion': 500, 'streams held': 64})

check('P27', [prog('p27_life')],
      '22 operation groups on 120 random texts per process: from the first static constructor of the program (and, in children of it, in 48 orders of first '
      'use), in main(), from the last static destructor, at the end of a thread; with the initialisation order checker on; non-trivial = every comparison',
      floors={'results compared': 100000, 'orders of first use': 48})

import p28_builds as _p28
check('P28', _p28.programs(),
      '22 operation groups on random texts, well-formed and damaged, by six builds (clang and gcc, -O0 to -O3, assertions on and off, C++20 and C++23, signed '
      'and unsigned char, intrinsics, std::simd and scalar), another locale, perturbed heaps, a dirty stack, and valgrind on three builds; '
      'non-trivial = texts on which all builds were compared',
      custom=_p28.run, floors={'results compared': 2000000, 'builds and environments compared': 9, 'texts under valgrind': 180})

check('P29', [prog('p29_work', 'cover')],
      '22 operation groups and 13 more on repetitive texts (one to three units of one to four characters, of every class, in long or alternating stretches) '
      'of 800, 3200 and, where in doubt, 12800 code points; non-trivial = growths measured',
      floors={'growths measured': 4000})

import p30_nextversion
check('P30', [],
      'a synthetic next Unicode version (thorough: five), with some 360 new characters of every kind the algorithms distinguish, a new script, new blocks '
      'and revised properties; the library built from it is judged by the harnesses of ten (thorough: twenty-one) other properties; non-trivial as there',
      floors={'synthetic versions': 1, 'new characters': 300, 'judgements of P01': 0x110000, 'judgements of P10': 500000},
      custom=p30_nextversion.run)
