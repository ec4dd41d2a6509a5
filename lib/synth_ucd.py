#!/usr/bin/env python3
"""A synthetic next version of the Unicode Character Database.

Copies the UCD files that the table generator and gen_ref.py read, and adds a version 16.0 to them: new characters of every
kind the algorithms distinguish, in code points unassigned so far, a new script, new blocks, and revised properties (East
Asian width, script extensions, word break) of existing symbols - always within what the Unicode stability policies allow.
Usage: synth_ucd.py SEED OUT [UCD_DIR]; deterministic for a seed.
"""
import bisect, os, random, re, shutil, sys

SEED, OUT = int(sys.argv[1]), sys.argv[2]
UCD = sys.argv[3] if len(sys.argv) > 3 else '/usr/share/unicode'
rng = random.Random(SEED * 1000003 + 16)

EDITED = ['PropertyValueAliases.txt', 'Blocks.txt', 'Scripts.txt', 'ScriptExtensions.txt', 'DerivedAge.txt', 'EastAsianWidth.txt',
          'IndicSyllabicCategory.txt', 'DerivedCoreProperties.txt', 'DerivedNormalizationProps.txt', 'UnicodeData.txt',
          'CaseFolding.txt', 'SpecialCasing.txt', 'CompositionExclusions.txt', 'BidiMirroring.txt',
          'extracted/DerivedGeneralCategory.txt', 'extracted/DerivedCombiningClass.txt', 'extracted/DerivedName.txt',
          'extracted/DerivedBinaryProperties.txt', 'auxiliary/GraphemeBreakProperty.txt', 'auxiliary/WordBreakProperty.txt',
          'emoji/emoji-data.txt', 'emoji/emoji-variation-sequences.txt']
COPIED = ['HangulSyllableType.txt', 'NormalizationTest.txt.bz2', 'auxiliary/GraphemeBreakTest.txt', 'auxiliary/WordBreakTest.txt',
          'emoji/emoji-sequences.txt', 'emoji/emoji-zwj-sequences.txt']

F = {}
for n in EDITED:
    with open(os.path.join(UCD, n), encoding='utf-8') as f:
        F[n] = f.read().split('\n')

DATA = re.compile(r'^([0-9A-F]{4,6})(?:\.\.([0-9A-F]{4,6}))?\s*;\s*([^#]*?)\s*(#.*)?$')


def key_of(v):
    return re.sub(r'\s*;\s*', ';', v.strip().rstrip(';').strip())


class Ranges:
    """A file of `range ; value # remark` lines; additions go after the last line of the same value."""

    def __init__(self, name, exclusive=True):
        self.name, self.exclusive = name, exclusive
        self.add_lines = {}
        self.dirty = set()
        self.parsed = []
        for i, l in enumerate(F[name]):
            m = DATA.match(l)
            if m:
                self.parsed.append((i, int(m[1], 16), int(m[2] or m[1], 16), key_of(m[3])))

    def has(self, cp, val=None):
        return any(a <= cp <= b and (val is None or v == val) for _, a, b, v in self.parsed)

    def set(self, cp, val):
        if cp in self.add_lines.setdefault(val, set()):
            return
        if not self.exclusive and self.has(cp, val):
            return
        if self.exclusive:
            for v, s in self.add_lines.items():
                s.discard(cp)
            self.dirty.add(cp)
        self.add_lines[val].add(cp)

    def write(self):
        """Splits the lines that cover a changed code point and adds the new ones, in the order the official files keep:
        by value and then by code point, or (East Asian width) by code point."""
        lines = F[self.name]
        drop = sorted(self.dirty)
        groups, first = {}, {}
        for i, a, b, v in self.parsed:
            first.setdefault(v, i)
            g = groups.setdefault(v, [])
            lo, hi = bisect.bisect_left(drop, a), bisect.bisect_right(drop, b)
            if lo == hi:
                g.append((a, b, lines[i]))
                continue
            s = a
            for c in drop[lo:hi] + [b + 1]:
                if s <= c - 1:
                    g.append((s, c - 1, None))
                s = c + 1
        for v, s in self.add_lines.items():
            groups.setdefault(v, []).extend((x, y, None) for x, y in runs(sorted(s)))
        text = {v: [(x, t or '%s ; %s # revised' % (rg(x, y), v.replace(';', '; '))) for x, y, t in sorted(g, key=lambda q: q[0])]
                for v, g in groups.items()}
        data_lines = set(i for i, _, _, _ in self.parsed)
        res = []
        if self.name == 'EastAsianWidth.txt':
            everything = [t for _, t in sorted(x for g in text.values() for x in g)]
            for i, l in enumerate(lines):
                if i == min(data_lines):
                    res += everything
                if i not in data_lines:
                    res.append(l)
        else:
            at = {i: v for v, i in first.items()}
            for i, l in enumerate(lines):
                if i in at:
                    res += [t for _, t in text[at[i]]]
                if i not in data_lines:
                    res.append(l)
            for v, g in text.items():
                if v not in first:
                    res += ['', '# added'] + [t for _, t in g]
        F[self.name] = res + ['']


def rg(a, b):
    return '%04X' % a if a == b else '%04X..%04X' % (a, b)


def runs(s):
    out = []
    for c in s:
        if out and out[-1][1] == c - 1:
            out[-1][1] = c
        else:
            out.append([c, c])
    return [tuple(x) for x in out]


R = {n: Ranges(n, e) for n, e in (
    ('Scripts.txt', True), ('ScriptExtensions.txt', True), ('DerivedAge.txt', True), ('EastAsianWidth.txt', True),
    ('IndicSyllabicCategory.txt', True), ('extracted/DerivedGeneralCategory.txt', True), ('extracted/DerivedCombiningClass.txt', True),
    ('auxiliary/GraphemeBreakProperty.txt', True), ('auxiliary/WordBreakProperty.txt', True),
    ('DerivedCoreProperties.txt', False), ('DerivedNormalizationProps.txt', False), ('extracted/DerivedBinaryProperties.txt', False),
    ('emoji/emoji-data.txt', False))}
GC = R['extracted/DerivedGeneralCategory.txt']
CORE, EMO, QC = R['DerivedCoreProperties.txt'], R['emoji/emoji-data.txt'], R['DerivedNormalizationProps.txt']

# ---- what is free ------------------------------------------------------------
gc = {}
for _, a, b, v in GC.parsed:
    if v != 'Cn':
        for c in range(a, b + 1):
            gc[c] = v
special = set()
for n in ('auxiliary/GraphemeBreakProperty.txt', 'auxiliary/WordBreakProperty.txt', 'emoji/emoji-data.txt', 'DerivedCoreProperties.txt'):
    for _, a, b, v in R[n].parsed:
        special.update(range(a, b + 1))
special_emoji = set()
for _, a, b, v in EMO.parsed:
    special_emoji.update(range(a, b + 1))
blocks = []
for l in F['Blocks.txt']:
    m = re.match(r'^([0-9A-F]+)\.\.([0-9A-F]+);\s*(.*)$', l)
    if m:
        blocks.append((int(m[1], 16), int(m[2], 16), m[3].strip()))

# what the conformance suites use stays as it is (they use an unassigned code point, too)
suite = set()
for n in ('auxiliary/GraphemeBreakTest.txt', 'auxiliary/WordBreakTest.txt', 'emoji/emoji-sequences.txt', 'emoji/emoji-zwj-sequences.txt'):
    for l in open(os.path.join(UCD, n), encoding='utf-8'):
        for x in re.findall(r'\b[0-9A-F]{4,6}\b', l.split('#')[0]):
            suite.add(int(x, 16))


def free(c):
    return c not in gc and c not in suite and not (0xD800 <= c <= 0xF8FF) and (c & 0xFFFE) != 0xFFFE and not 0xFDD0 <= c <= 0xFDEF


in_block = [c for a, b, _ in blocks if a < 0x32400 for c in range(a, b + 1) if free(c)]
plain = [c for c in in_block if c not in special]
reserved_emoji = [c for c in in_block if c in special_emoji and 0x1F000 <= c < 0x1FB00]
bmp_gaps = [c for c in plain if c < 0x10000]
two_byte = [c for c in plain if c < 0x800]
smp_gaps = [c for c in plain if c >= 0x10000]
# a handful of 256-blocks only: the generator's first stage has room for a few dozen more
pages = sorted(set(c >> 8 for c in smp_gaps))
keep_pages = set(rng.sample(pages, min(6, len(pages))))
smp_gaps = [c for c in smp_gaps if c >> 8 in keep_pages]
bpages = sorted(set(c >> 8 for c in bmp_gaps if c >= 0x800))
bkeep = set(rng.sample(bpages, min(10, len(bpages))))
bmp_gaps = two_byte + [c for c in bmp_gaps if c >= 0x800 and c >> 8 in bkeep]
used = set()

# new blocks, one per plane in use
SCRIPT, SC = 'Testarian', 'Tstr'
NEWBLOCKS = [(0x16000 + 0x100 * rng.randrange(4), 'Testarian'), (0x18F00 + 0x100 * rng.randrange(8), 'Testarian Extended-A'),
             (0x32400 + 0x100 * rng.randrange(8), 'CJK Unified Ideographs Extension X'),
             (0x33000 + 0x100 * rng.randrange(0x80), 'Testarian Extended-B')]     # beyond every existing letter, mark and composite
new_cells = []
for s, n in NEWBLOCKS:
    assert not any(a <= s + 0xFF and s <= b for a, b, _ in blocks), hex(s)
    F['Blocks.txt'].append('%04X..%04X; %s' % (s, s + 0xFF, n))
    if not n.startswith('CJK'):
        new_cells.append(list(range(s, s + 0x100)))
bl = F['Blocks.txt']
k = min(i for i, l in enumerate(bl) if re.match(r'^[0-9A-F]', l))
F['Blocks.txt'] = bl[:k] + sorted([l for l in bl[k:] if re.match(r'^[0-9A-F]', l)], key=lambda l: int(l.split('.')[0], 16)) + ['']
turn = [0]


def take(kind='any'):
    """One free code point."""
    for _ in range(100000):
        k = kind if kind != 'any' else rng.choice(['new', 'new', 'new', 'smp', 'bmp', 'two'])
        if k == 'new':
            turn[0] += 1
            cells = new_cells[turn[0] % len(new_cells)]
            c = cells.pop(0)
            if rng.random() < 0.1 and len(cells) > 60:
                cells.pop(0)
        elif k == 'smp':
            c = rng.choice(smp_gaps)
        elif k == 'two' and two_byte:
            c = rng.choice(two_byte)
        elif k == 'emoji':
            c = rng.choice(reserved_emoji)
        else:
            c = rng.choice(bmp_gaps)
        if c not in used:
            used.add(c)
            return c
        if k == 'two':
            kind = 'bmp'
    raise SystemExit('no room')


def take_run(n):
    for _ in range(1000):
        c = NEWBLOCKS[0][0] + rng.randrange(0x100 - n)
        if all(c + i not in used for i in range(n)):
            used.update(range(c, c + n))
            return c
    raise SystemExit('no room for a run')


ud = {}
names = []
counter = [0]


def new(c, category, script=SCRIPT, eaw='N', ccc=0, decomp='', mirrored=False, up=0, low=0, title=0, name=None, gcb=None, wb=None,
        core=(), age='16.0', derived_name=True):
    counter[0] += 1
    name = name or 'SYNTHETIC CHARACTER %s-%d' % (category.upper(), counter[0])
    GC.set(c, category)
    gc[c] = category
    R['Scripts.txt'].set(c, script)
    R['DerivedAge.txt'].set(c, age)
    R['EastAsianWidth.txt'].set(c, eaw)
    if ccc:
        R['extracted/DerivedCombiningClass.txt'].set(c, str(ccc))
    if gcb:
        R['auxiliary/GraphemeBreakProperty.txt'].set(c, gcb)
    if wb:
        R['auxiliary/WordBreakProperty.txt'].set(c, wb)
    for p in core:
        CORE.set(c, p)
    if mirrored:
        R['extracted/DerivedBinaryProperties.txt'].set(c, 'Bidi_Mirrored')
    h = lambda x: '%04X' % x if x else ''
    ud[c] = '%04X;%s;%s;%d;%s;%s;;;;%s;;;%s;%s;%s' % (c, name, category, ccc, 'ON', decomp, 'Y' if mirrored else 'N', h(up), h(low), h(title))
    if derived_name:
        names.append('%04X ; %s' % (c, name))
    return c


LETTER = ['Alphabetic', 'Grapheme_Base', 'ID_Start', 'ID_Continue', 'XID_Start', 'XID_Continue']
UPPER = LETTER + ['Uppercase', 'Cased', 'Changes_When_Lowercased', 'Changes_When_Casefolded', 'Changes_When_Casemapped']
LOWER = LETTER + ['Lowercase', 'Cased', 'Changes_When_Uppercased', 'Changes_When_Titlecased', 'Changes_When_Casemapped']
folding, special_casing = [], []
scripts_cased = [SCRIPT, SCRIPT, 'Latin', 'Cyrillic', 'Greek', 'Adlam', 'Georgian']


def S(*cs):
    return ' '.join('%04X' % c for c in cs)


# ---- case pairs ---------------------------------------------------------------
pairs = []
for i in range(24):
    u, l = take(), take()
    s = rng.choice(scripts_cased)
    e = rng.choice(['N', 'N', 'N', 'A'])
    new(u, 'Lu', s, e, low=l, core=UPPER, wb='ALetter')
    new(l, 'Ll', s, e, up=u, title=u, core=LOWER, wb='ALetter')
    folding.append('%04X; C; %04X; # added' % (u, l))
    pairs.append((u, l))
# a new capital for an existing lower-case letter without one
lone = [0x0138, 0x018D, 0x019B, 0x0221, 0x0234, 0x0235, 0x0236, 0x0255]
for l in rng.sample(lone, 3):
    line = next((x for x in F['UnicodeData.txt'] if x.startswith('%04X;' % l)), None)
    p = line.split(';')
    if p[12] or p[13] or p[14]:
        continue
    u = take()
    new(u, 'Lu', 'Latin', low=l, core=UPPER, wb='ALetter')
    p[12] = p[14] = '%04X' % u
    ud[l] = ';'.join(p)
    for x in LOWER:
        CORE.set(l, x)
    folding.append('%04X; C; %04X; # added' % (u, l))
# a titlecase digraph
for i in range(3):
    u, t, l = take(), take(), take()
    new(u, 'Lu', 'Latin', low=l, title=t, core=UPPER + ['Changes_When_Titlecased'], wb='ALetter')
    new(t, 'Lt', 'Latin', up=u, low=l, title=t, core=LETTER + ['Cased', 'Changes_When_Lowercased', 'Changes_When_Uppercased',
        'Changes_When_Casefolded', 'Changes_When_Casemapped'], wb='ALetter')
    new(l, 'Ll', 'Latin', up=u, title=t, core=LOWER, wb='ALetter')
    folding += ['%04X; C; %04X; # added' % (u, l), '%04X; C; %04X; # added' % (t, l)]

# ---- marks --------------------------------------------------------------------
MARK = ['Alphabetic', 'Case_Ignorable', 'Grapheme_Extend', 'ID_Continue', 'XID_Continue']
marks = {}
for cc in [0, 0, 0, 1, 6, 7, 8, 9, 10, 21, 36, 84, 103, 129, 202, 214, 216, 218, 220, 220, 222, 224, 226, 228, 230, 230, 230, 230, 232, 233, 234, 240]:
    c = take()
    s = rng.choice(['Inherited', SCRIPT, SCRIPT, 'Devanagari', 'Arabic'])
    new(c, 'Mn', s, rng.choice(['N', 'N', 'A', 'W']), cc, gcb='Extend', wb='Extend', core=MARK)
    if cc:
        CORE.set(c, 'InCB;Extend')
    marks.setdefault(cc, []).append(c)
enclosing = new(take(), 'Me', 'Inherited', gcb='Extend', wb='Extend', core=['Case_Ignorable', 'Grapheme_Extend'])
viramas = []
for kind in ('Virama', 'Invisible_Stacker', 'Virama'):
    c = take()
    new(c, 'Mn', SCRIPT, 'N', 9, gcb='Extend', wb='Extend', core=['Case_Ignorable', 'Grapheme_Extend', 'Grapheme_Link', 'ID_Continue', 'XID_Continue'])
    R['IndicSyllabicCategory.txt'].set(c, kind)
    CORE.set(c, 'InCB;Linker' if not viramas else 'InCB;Extend')
    viramas.append(c)
consonants = [new(take(), 'Lo', SCRIPT, core=LETTER, wb='ALetter') for _ in range(8)]
for c in consonants:
    CORE.set(c, 'InCB;Consonant')
    R['IndicSyllabicCategory.txt'].set(c, 'Consonant')
spacing = [new(take(), 'Mc', SCRIPT, gcb='SpacingMark', wb='Extend', core=['Alphabetic', 'Grapheme_Base', 'ID_Continue', 'XID_Continue'])
           for _ in range(5)]
vowels = [new(take(), 'Mc', SCRIPT, gcb='Extend', wb='Extend', core=['Alphabetic', 'Grapheme_Extend', 'ID_Continue', 'XID_Continue'])
          for _ in range(3)]

# ---- letters with full mappings ------------------------------------------------
for i in range(6):
    l = take()
    u0, l0 = rng.choice(pairs)
    u1, l1 = rng.choice(pairs + [(0x53, 0x73)])
    m = rng.choice(marks[230] + [0x301])
    full_u, full_t, full_f = [((u0, u1), (u0, l1), (l0, l1)), ((u0, m), (u0, m), (l0, m)), ((u0, m, u1), (u0, m, l1), (l0, m, l1))][i % 3]
    new(l, 'Ll', rng.choice(scripts_cased), core=LOWER + ['Changes_When_Casefolded'], wb='ALetter')
    folding.append('%04X; F; %s; # added' % (l, S(*full_f)))
    special_casing.append('%04X; %04X; %s; %s; # added' % (l, l, S(*full_t), S(*full_u)))
for i in range(3):       # a capital with a full folding and a simple one
    u, l = take(), take()
    l1 = rng.choice(pairs)[1]
    new(u, 'Lu', SCRIPT, low=l, core=UPPER, wb='ALetter')
    new(l, 'Ll', SCRIPT, up=u, title=u, core=LOWER, wb='ALetter')
    folding += ['%04X; F; %s; # added' % (u, S(l1, l1)), '%04X; S; %04X; # added' % (u, l)]
    if i == 0:           # and a full lower-case mapping
        special_casing.append('%04X; %s; %04X; %04X; # added' % (u, S(l, marks[230][0]), u, u))

# ---- canonical composites (at least one part is new: the stability policy asks for that) ---------
QCN = lambda c, *ps: [QC.set(c, p) for p in ps]
seconds = marks[230] + marks[220] + marks[9][:1] + vowels
composites = []
pairs_used = set()


def composite(first, second, category='Lo', core=LETTER, wb='ALetter', **kw):
    if (first, second) in pairs_used:
        return None
    pairs_used.add((first, second))
    c = take()
    new(c, category, SCRIPT, decomp=S(first, second), core=core, wb=wb, **kw)
    QCN(c, 'NFD_QC;N', 'NFKD_QC;N')
    QCN(second, 'NFC_QC;M', 'NFKC_QC;M')
    composites.append(c)
    return c


for i in range(14):
    first = rng.choice([rng.choice(consonants), 0x61 + rng.randrange(26), 0x4E00 + rng.randrange(100), 0x0915])
    composite(first, rng.choice(seconds))
for i in range(4):                      # a chain: composite + mark
    composite(rng.choice(composites), rng.choice(marks[230]))
for i in range(4):                      # new starter + existing mark
    composite(consonants[i], rng.choice([0x301, 0x308, 0x323, 0x93C]) if i else 0x301)
for i in range(4):                      # a composite case pair
    u0, l0 = pairs[i]
    m = marks[230][i % len(marks[230])]
    if (u0, m) in pairs_used or (l0, m) in pairs_used:
        continue
    cu, cl = take(), take()
    pairs_used.update([(u0, m), (l0, m)])
    new(cu, 'Lu', SCRIPT, decomp=S(u0, m), low=cl, core=UPPER, wb='ALetter')
    new(cl, 'Ll', SCRIPT, decomp=S(l0, m), up=cu, title=cu, core=LOWER, wb='ALetter')
    folding.append('%04X; C; %04X; # added' % (cu, cl))
    for c in (cu, cl):
        QCN(c, 'NFD_QC;N', 'NFKD_QC;N')
        composites.append(c)
    QCN(m, 'NFC_QC;M', 'NFKC_QC;M')
# a two-part vowel sign
v = composite(vowels[0], vowels[1], 'Mc', ['Alphabetic', 'Grapheme_Base', 'ID_Continue', 'XID_Continue'], 'Extend', gcb='SpacingMark')
QCN(v, 'NFC_QC;M', 'NFKC_QC;M')      # its first part composes with what precedes it
composite(rng.choice(consonants), vowels[0])
# singletons and exclusions
NO4 = ('NFC_QC;N', 'NFKC_QC;N', 'NFD_QC;N', 'NFKD_QC;N', 'Full_Composition_Exclusion')
for i in range(8):
    c = NEWBLOCKS[3][0] + 0xF0 + i if i < 4 else take('smp' if i % 2 else 'any')
    used.add(c)
    new(c, 'Lo', 'Han', 'W', decomp=S(rng.choice([0x4E00 + rng.randrange(2000), composites[i], 0x20000 + rng.randrange(1000)])),
        core=LETTER, name='CJK COMPATIBILITY IDEOGRAPH-%04X' % c, derived_name=False)
    names.append('%04X ; CJK COMPATIBILITY IDEOGRAPH-*' % c)
    QCN(c, *NO4)
exclusions = []
for i in range(4):
    first, second = rng.choice(consonants), rng.choice(marks[7] + marks[230])
    if (first, second) in pairs_used:
        continue
    c = take()
    new(c, 'Lo', SCRIPT, decomp=S(first, second), core=LETTER, wb='ALetter')
    QCN(c, *NO4)
    exclusions.append('%04X #  added' % c)
# compatibility decompositions
for i, t in enumerate('circle compat final font fraction initial isolated medial narrow noBreak small square sub super vertical wide'.split()):
    c = take()
    n = [1, 1, 2, 3, 5][i % 5] if t != 'square' else 22
    parts = [rng.choice([0x41 + rng.randrange(26), 0x30A2, composites[i % len(composites)], pairs[i][1], 0x20, 0xC0, marks[220][0], 0x1100, 0xAC01])
             for _ in range(n)]
    if parts[0] in marks[220]:
        parts[0] = 0x20
    new(c, 'So', 'Common', 'W' if t in ('square', 'wide') else 'N', decomp='<%s> %s' % (t, S(*parts)), core=['Grapheme_Base'])
    QCN(c, 'NFKC_QC;N', 'NFKD_QC;N')

# ---- widths, digits, brackets, format characters, the rest -----------------------
for i in range(10):
    new(take(), 'Lo', rng.choice(['Han', 'Katakana', SCRIPT, 'Tangut']), 'W', core=LETTER)
for e in 'A N Na H F W'.split():
    for i in range(2):
        new(take(), 'So', 'Common', e, core=['Grapheme_Base'])
d = take_run(10)
for i in range(10):
    new(d + i, 'Nd', SCRIPT, wb='Numeric', core=['Grapheme_Base', 'ID_Continue', 'XID_Continue'])
mirror = []
for i in range(3):
    a, b = take(), take()
    new(a, 'Ps', 'Common', mirrored=True, core=['Grapheme_Base'])
    new(b, 'Pe', 'Common', mirrored=True, core=['Grapheme_Base'])
    mirror += ['%04X; %04X # added' % (a, b), '%04X; %04X # added' % (b, a)]
new(take(), 'Sm', 'Common', mirrored=True, core=['Grapheme_Base', 'Math'])
new(take(), 'Cf', 'Arabic', gcb='Prepend', wb='Numeric', core=['Case_Ignorable'])
new(take(), 'Cf', SCRIPT, gcb='Prepend', wb='ALetter', core=['Case_Ignorable'])
new(take(), 'Lo', SCRIPT, gcb='Prepend', wb='ALetter', core=LETTER)
for i in range(2):
    new(take(), 'Cf', 'Common', gcb='Control', wb='Format', core=['Case_Ignorable'] + ['Default_Ignorable_Code_Point'] * i)
new(take(), 'Lo', 'Katakana', 'W', wb='Katakana', core=LETTER)
new(take(), 'Lo', 'Hebrew', wb='Hebrew_Letter', core=LETTER)
new(take(), 'Lm', SCRIPT, wb='ALetter', core=LETTER + ['Case_Ignorable', 'Lowercase', 'Cased'])
new(take(), 'Po', 'Common', wb='MidLetter', core=['Grapheme_Base', 'Case_Ignorable'])
new(take(), 'Po', 'Common', wb='MidNum', core=['Grapheme_Base'])
new(take(), 'Po', 'Common', wb='MidNumLet', core=['Grapheme_Base', 'Case_Ignorable'])
new(take(), 'Pc', 'Common', wb='ExtendNumLet', core=['Grapheme_Base', 'ID_Continue', 'XID_Continue'])
c = new(take(), 'Zs', 'Common', wb='WSegSpace', decomp='<compat> 0020', core=['Grapheme_Base'])
QCN(c, 'NFKC_QC;N', 'NFKD_QC;N')
new(take(), 'Sk', 'Common', core=['Grapheme_Base', 'Case_Ignorable'])
new(take(), 'Nl', SCRIPT, wb='ALetter', core=LETTER)
new(take(), 'No', SCRIPT, core=['Grapheme_Base'])
new(take(), 'Sc', 'Common', core=['Grapheme_Base'])

# ---- emoji ------------------------------------------------------------------------
vs = []
for i in range(16):
    kind = i % 4
    c = take('emoji' if reserved_emoji and i < 12 else 'smp')
    pres = kind != 1
    new(c, 'So', 'Common', 'W' if pres else 'N', core=['Grapheme_Base'])
    EMO.set(c, 'Emoji')
    EMO.set(c, 'Extended_Pictographic')
    if pres:
        EMO.set(c, 'Emoji_Presentation')
    if kind == 2 or (kind == 1 and i % 8 == 1):
        EMO.set(c, 'Emoji_Modifier_Base')
    if kind in (1, 3):
        vs += ['%04X FE0E  ; text style;  # added' % c, '%04X FE0F  ; emoji style; # added' % c]
# pictographs that are no emoji
for i in range(3):
    c = take('smp')
    new(c, 'So', 'Common', core=['Grapheme_Base'])
    EMO.set(c, 'Extended_Pictographic')

# ---- an ideograph range ----------------------------------------------------------
a = NEWBLOCKS[2][0]
b = a + 0x40 + rng.randrange(0x80)
for c in range(a, b + 1):
    GC.set(c, 'Lo')
    gc[c] = 'Lo'
    R['Scripts.txt'].set(c, 'Han')
    R['DerivedAge.txt'].set(c, '16.0')
    R['EastAsianWidth.txt'].set(c, 'W')
    for p in LETTER:
        CORE.set(c, p)
names.append('%04X..%04X ; CJK UNIFIED IDEOGRAPH-*' % (a, b))
ud[a] = '%04X;<CJK Ideograph Extension X, First>;Lo;0;L;;;;;N;;;;;' % a
ud[b] = '%04X;<CJK Ideograph Extension X, Last>;Lo;0;L;;;;;N;;;;;' % b

# ---- revised properties of existing characters (none that the conformance suites mention) -------------
stable = [c for c in gc if c not in used and c >= 0x2190 and c not in suite and c not in special_emoji and gc[c] in ('So', 'Sm', 'Lo', 'No')]
for c in rng.sample(stable, 30):
    R['EastAsianWidth.txt'].set(c, rng.choice(['W', 'N', 'A', 'W']))
sc_codes = ['Arab', 'Beng', 'Deva', 'Grek', 'Latn', 'Cyrl', 'Hira', 'Kana', 'Hani', SC, SC, 'Gujr', 'Thaa', 'Syrc'] + [
    x for x in 'Adlm Aghb Armn Bali Bopo Cakm Copt Dogr Geor Gonm Gran Guru Hang Hebr Java Knda Kali Limb Mlym Mong Mymr Orya Rohg Sinh Sogd Taml Telu Thai Tibt Tirh Yiii'.split()]
new_chars = [c for c in ud if c in used]
short = {SCRIPT: SC}
for l in F['PropertyValueAliases.txt']:
    m = re.match(r'^sc ;\s*(\w+)\s*;\s*(\w+)', l)
    if m:
        short[m[2]] = m[1]


def script_of(c):
    r = R['Scripts.txt']
    for v, s in r.add_lines.items():
        if c in s:
            return short[v]
    return next((short[v] for _, a, b, v in r.parsed if a <= c <= b), 'Zzzz')


for i, c in enumerate(rng.sample(sorted(new_chars), 14) + rng.sample(sorted(stable), 10) + [enclosing] + viramas[:1]):
    k = rng.choice([1, 2, 2, 3, 5, 9]) if i else 29      # (the segmenter holds sets of up to 32 scripts)
    own = script_of(c)
    R['ScriptExtensions.txt'].set(c, ' '.join(sorted(set(rng.sample(sorted(set(sc_codes)), k) + ([] if own in ('Zyyy', 'Zinh') else [own])))))
for c in rng.sample([c for c in stable if gc[c] in ('So', 'Lo') and c not in special], min(8, len(stable))):
    R['auxiliary/WordBreakProperty.txt'].set(c, wb := rng.choice(['ALetter', 'Numeric', 'MidLetter', 'ExtendNumLet']))
    if wb == 'MidLetter':
        CORE.set(c, 'Case_Ignorable')

# ---- write -------------------------------------------------------------------------
for r in R.values():
    r.write()
L = F['PropertyValueAliases.txt']
i = max(k for k, l in enumerate(L) if l.startswith('age; 1'))
L.insert(i + 1, 'age; 16.0                             ; V16_0')
i = max(k for k, l in enumerate(L) if l.startswith('sc ; Tnsa'))
L.insert(i + 1, 'sc ; %s                             ; %s' % (SC, SCRIPT))
by = {}
for l in F['UnicodeData.txt']:
    if l:
        by[int(l.split(';', 1)[0], 16)] = l
by.update(ud)
F['UnicodeData.txt'] = [by[c] for c in sorted(by)] + ['']
F['CaseFolding.txt'] += folding + ['']
i = next(k for k, l in enumerate(F['SpecialCasing.txt']) if l.startswith('# Conditional Mappings'))
F['SpecialCasing.txt'][i:i] = special_casing
F['CompositionExclusions.txt'] += exclusions + ['']
F['BidiMirroring.txt'] += mirror + ['']
F['extracted/DerivedName.txt'] += names + ['']
F['emoji/emoji-variation-sequences.txt'] += vs + ['']
for n in EDITED:
    p = os.path.join(OUT, n)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w', encoding='utf-8') as f:
        f.write('\n'.join(F[n]))
for n in COPIED:
    shutil.copyfile(os.path.join(UCD, n), os.path.join(OUT, n))
print('%d new characters, %d composites, %d case pairs' % (len(used) + b - a + 1, len(composites), len(pairs)))
