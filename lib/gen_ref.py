#!/usr/bin/env python3
"""Independent reference data, parsed straight from the UCD text files.

Shares no code with /repo's table generator.  Writes into OUT:
  ref.bin      fixed-size per-codepoint arrays (see ARRAYS)
  ref.txt      variable-length records
  ref_map.hpp  reference ids -> library enumerators (by identifier)
Usage: gen_ref.py UCD_DIR OUT_DIR
"""
import sys, os, re, bz2
from array import array

UCD, OUT = sys.argv[1], sys.argv[2]
os.makedirs(OUT, exist_ok=True)
N = 0x110000


def rows(rel):
    with open(os.path.join(UCD, rel), encoding='utf-8') as f:
        for line in f:
            line = line.split('#', 1)[0].strip()
            if not line or line.startswith('@'):
                continue
            fields = [x.strip() for x in line.split(';')]
            lo, _, hi = fields[0].partition('..')
            lo = int(lo, 16)
            hi = int(hi, 16) if hi else lo
            yield lo, hi, fields[1:]


def missing(rel):
    pat = re.compile(r'^#\s*@missing:\s*([0-9A-F]+)\.\.([0-9A-F]+)\s*;\s*(.*)$')
    with open(os.path.join(UCD, rel), encoding='utf-8') as f:
        for line in f:
            m = pat.match(line)
            if m:
                yield int(m[1], 16), int(m[2], 16), [x.strip() for x in m[3].split(';')]


# ---- property value aliases -------------------------------------------------
pva = {}
with open(os.path.join(UCD, 'PropertyValueAliases.txt'), encoding='utf-8') as f:
    for line in f:
        line = line.split('#', 1)[0].strip()
        if not line:
            continue
        p = [x.strip() for x in line.split(';')]
        if p[0] == 'ccc':
            pva.setdefault('ccc', {})[p[1]] = p[3]
            continue
        d = pva.setdefault(p[0], {})
        for a in p[1:]:
            d[a] = p[2]

arrays = []          # (name, array)


def emit(name, arr):
    arrays.append((name, arr))


class Enum:
    """name <-> id in order of first appearance; id 0 is the default."""

    def __init__(self, default):
        self.names = [default]
        self.ids = {default: 0}

    def __call__(self, n):
        i = self.ids.get(n)
        if i is None:
            i = self.ids[n] = len(self.names)
            self.names.append(n)
        return i


def fill(arr, lo, hi, v):
    arr[lo:hi + 1] = array(arr.typecode, [v]) * (hi - lo + 1)


def u8(v=0):
    return array('B', [v]) * N


def u16(v=0):
    return array('H', [v]) * N


def u32(v=0):
    return array('I', [v]) * N


enums = {}

# general category
E = enums['gc'] = Enum('Unassigned')
A = u8()
for lo, hi, f in rows('extracted/DerivedGeneralCategory.txt'):
    fill(A, lo, hi, E(pva['gc'][f[0]]))
emit('gc', A)
gcA = A

# script
E = enums['script'] = Enum('Unknown')
A = u8()
for lo, hi, f in rows('Scripts.txt'):
    fill(A, lo, hi, E(f[0]))
emit('script', A)

# script extensions
scx_lists, scx_ids = [[]], {}
A = u16()
for lo, hi, f in rows('ScriptExtensions.txt'):
    key = tuple(sorted(f[0].split()))
    if key not in scx_ids:
        scx_ids[key] = len(scx_lists)
        scx_lists.append([E(pva['sc'][k]) for k in key])
    fill(A, lo, hi, scx_ids[key])
emit('scx', A)

# block
E = enums['block'] = Enum('No_Block')
A = u16()
for lo, hi, f in rows('Blocks.txt'):
    fill(A, lo, hi, E(f[0]))
emit('block', A)

# GCB / WB : 0 means "not listed" (Other)
for key, rel in (('gcb', 'auxiliary/GraphemeBreakProperty.txt'), ('wb', 'auxiliary/WordBreakProperty.txt')):
    E = enums[key] = Enum('Other')
    A = u8()
    for lo, hi, f in rows(rel):
        fill(A, lo, hi, E(f[0]))
    emit(key, A)

# EAW: explicitly listed only; 0 = unlisted
E = enums['eaw'] = Enum('(unlisted)')
A = u8()
for lo, hi, f in rows('EastAsianWidth.txt'):
    fill(A, lo, hi, E(pva['ea'][f[0]]))
emit('eaw', A)

# InCB
E = enums['incb'] = Enum('None')
A = u8()
core_names = []
core = {}
cp_core = u32()
for lo, hi, f in rows('DerivedCoreProperties.txt'):
    if f[0] == 'InCB':
        fill(A, lo, hi, E(f[1]))
        continue
    if f[0] not in core:
        core[f[0]] = len(core_names)
        core_names.append(f[0])
    bit = 1 << core[f[0]]
    for c in range(lo, hi + 1):
        cp_core[c] |= bit
emit('incb', A)
emit('core', cp_core)

# age
E = enums['age'] = Enum('Unassigned')
A = u8()
for lo, hi, f in rows('DerivedAge.txt'):
    fill(A, lo, hi, E(pva['age'][f[0]]))
emit('age', A)

# emoji
A = u8()
EMO = ['Emoji', 'Emoji_Presentation', 'Emoji_Component', 'Emoji_Modifier', 'Emoji_Modifier_Base', 'Extended_Pictographic']
for lo, hi, f in rows('emoji/emoji-data.txt'):
    bit = 1 << EMO.index(f[0])
    for c in range(lo, hi + 1):
        A[c] |= bit
emit('emoji', A)

# InSC virama-like; emoji variation bases; Hangul syllable type
A = u8()
for lo, hi, f in rows('IndicSyllabicCategory.txt'):
    if f[0] in ('Virama', 'Invisible_Stacker'):
        fill(A, lo, hi, 1)
with open(os.path.join(UCD, 'emoji/emoji-variation-sequences.txt'), encoding='utf-8') as f:
    for line in f:
        line = line.split('#', 1)[0]
        if ';' in line:
            b, vs = line.split(';')[0].split()
            assert vs in ('FE0E', 'FE0F')
            A[int(b, 16)] |= 2 if vs == 'FE0E' else 4
emit('misc', A)      # 1 virama, 2 VS15 base, 4 VS16 base
E = enums['hst'] = Enum('NA')
A = u8()
for lo, hi, f in rows('HangulSyllableType.txt'):
    fill(A, lo, hi, E(f[0]))
emit('hst', A)

# ccc from the extracted file (the library uses UnicodeData.txt)
A = u8()
for lo, hi, f in rows('extracted/DerivedCombiningClass.txt'):
    fill(A, lo, hi, int(f[0]))
emit('ccc', A)

# bidi
A = u8()
for lo, hi, f in rows('extracted/DerivedBinaryProperties.txt'):
    if f[0] == 'Bidi_Mirrored':
        fill(A, lo, hi, 1)
emit('mirrored', A)
A = array('I', range(N))
for lo, hi, f in rows('BidiMirroring.txt'):
    A[lo] = int(f[0], 16)
emit('mirror', A)

# quick check / exclusions : bits nfc No=1 Maybe=2, nfkc No=4 Maybe=8, nfd No=16, nfkd No=32, fullexcl=64
A = u8()
for lo, hi, f in rows('DerivedNormalizationProps.txt'):
    bit = 0
    if f[0] == 'NFC_QC':
        bit = {'N': 1, 'M': 2}[f[1]]
    elif f[0] == 'NFKC_QC':
        bit = {'N': 4, 'M': 8}[f[1]]
    elif f[0] == 'NFD_QC':
        bit = 16
    elif f[0] == 'NFKD_QC':
        bit = 32
    elif f[0] == 'Full_Composition_Exclusion':
        bit = 64
    if bit:
        for c in range(lo, hi + 1):
            A[c] |= bit
emit('qc', A)

# UnicodeData: simple case maps, decompositions
up, lowr, title, fold = (array('I', range(N)) for _ in range(4))
txt = []
dt_names = Enum('None')
with open(os.path.join(UCD, 'UnicodeData.txt'), encoding='utf-8') as f:
    for line in f:
        p = line.rstrip('\n').split(';')
        c = int(p[0], 16)
        if p[12]:
            up[c] = int(p[12], 16)
        if p[13]:
            lowr[c] = int(p[13], 16)
        title[c] = int(p[14], 16) if p[14] else up[c]
        if p[5]:
            d = p[5]
            if d[0] == '<':
                t, d = d[1:].split('>')
                t = t.strip().capitalize()
                t = {'Nobreak': 'Nobreak'}.get(t, t)
            else:
                t = 'Canonical'
            txt.append('D %X %d %s' % (c, dt_names(t), d.strip()))
enums['dt'] = dt_names
for lo, hi, f in rows('CaseFolding.txt'):
    if f[0] in 'CS':
        fold[lo] = int(f[1], 16)
    if f[0] in 'CF':
        txt.append('F %X %s' % (lo, f[1]))
for lo, hi, f in rows('SpecialCasing.txt'):
    # fields: lower title upper [conditions] (trailing empty)
    if len(f) > 3 and f[3]:
        continue
    txt.append('SL %X %s' % (lo, f[0]))
    txt.append('ST %X %s' % (lo, f[1]))
    txt.append('SU %X %s' % (lo, f[2]))
emit('upper', up)
emit('lower', lowr)
emit('title', title)
emit('fold', fold)
for i, l in enumerate(scx_lists):
    txt.append('X %d %s' % (i, ' '.join(map(str, l))))
for i, n in enumerate(EMO):
    txt.append('# emoji bit %d %s' % (i, n))

with open(os.path.join(UCD, 'extracted/DerivedName.txt'), encoding='utf-8') as f:
    for line in f:
        line = line.rstrip('\n')
        if not line or line[0] == '#':
            continue
        r, n = line.split(';', 1)
        lo, _, hi = r.strip().partition('..')
        txt.append('N %s %s %s' % (lo, hi or lo, n.strip()))

# conformance suites from the UCD
def suite(rel, tag):
    with open(os.path.join(UCD, rel), encoding='utf-8') as f:
        for line in f:
            line = line.split('#', 1)[0].strip()
            if line:
                txt.append(tag + ' ' + line.replace('÷', '/').replace('×', 'x'))


suite('auxiliary/GraphemeBreakTest.txt', 'TG')
suite('auxiliary/WordBreakTest.txt', 'TW')
with bz2.open(os.path.join(UCD, 'NormalizationTest.txt.bz2'), 'rt', encoding='utf-8') as f:
    part1 = False
    for line in f:
        if line.startswith('@Part'):
            part1 = line.startswith('@Part1')
            continue
        line = line.split('#', 1)[0].strip()
        if line:
            txt.append('TN%d ' % part1 + line)
for rel in ('emoji/emoji-sequences.txt', 'emoji/emoji-zwj-sequences.txt'):
    for line in open(os.path.join(UCD, rel), encoding='utf-8'):
        line = line.split('#', 1)[0].strip()
        if not line:
            continue
        s, t = [x.strip() for x in line.split(';')[:2]]
        if '..' in s:
            a, b = s.split('..')
            for c in range(int(a, 16), int(b, 16) + 1):
                txt.append('TE %s %X' % (t, c))
        else:
            txt.append('TE %s %s' % (t, s))

with open(os.path.join(OUT, 'ref.txt'), 'w', encoding='utf-8') as f:
    f.write('\n'.join(txt) + '\n')

with open(os.path.join(OUT, 'ref.bin'), 'wb') as f:
    for n, a in arrays:
        a.tofile(f)


def ident(s):
    return re.sub(r'[^A-Za-z0-9]', '_', s)


lib = {'gc': 'General_Category', 'script': 'Script', 'block': 'Block', 'gcb': 'Grapheme_Cluster_Break', 'wb': 'Word_Break',
       'eaw': 'East_Asian_Width', 'incb': 'Indic_Conjunct_Break', 'age': 'Age', 'dt': 'Decomposition_Type'}
eawset = {'Ambiguous': 'Ambiguous', 'Fullwidth': 'FullWidth', 'Halfwidth': 'HalfWidth', 'Narrow': 'Narrow', 'Neutral': 'Neutral',
          'Wide': 'Wide'}
with open(os.path.join(OUT, 'ref_map.hpp'), 'w') as f:
    f.write('// generated by gen_ref.py\n#pragma once\n#include <libunicode/ucd_enums.h>\nnamespace refmap {\n')
    for k, e in enums.items():
        # reference-side ids (no library dependency)
        f.write('enum class %s_id : int { %s };\n' % (k, ', '.join('%s_ = %d' % (ident(n), i) for i, n in enumerate(e.names))))
        f.write('inline char const* const %s_names[] = { %s };\n' % (k, ', '.join('"%s"' % n for n in e.names)))
        f.write('inline constexpr int %s_count = %d;\n' % (k, len(e.names)))
        if k in lib:
            vals = []
            for n in e.names:
                m = ident(n)
                if k == 'block' and n == 'No_Block':
                    m = 'Unspecified'
                if k == 'eaw' and n == '(unlisted)':
                    m = 'Narrow'      # documented default of codepoint_properties
                vals.append('unicode::%s::%s' % (lib[k], m))
            f.write('inline constexpr unicode::%s %s_lib[] = { %s };\n' % (lib[k], k, ', '.join(vals)))
        if k == 'eaw':
            f.write('inline constexpr unicode::EastAsianWidth eaw_lib2[] = { %s };\n' %
                    ', '.join('unicode::EastAsianWidth::' + eawset.get(n, 'Unspecified') for n in e.names))
    f.write('inline constexpr int core_count = %d;\n' % len(core_names))
    f.write('inline char const* const core_names[] = { %s };\n' % ', '.join('"%s"' % n for n in core_names))
    f.write('enum class core_id : int { %s };\n' % ', '.join('%s_ = %d' % (n, i) for i, n in enumerate(core_names)))
    f.write('inline constexpr unicode::Core_Property core_lib[] = { %s };\n' %
            ', '.join('unicode::Core_Property::' + n for n in core_names))
    f.write('struct arr { char const* name; int size; };\ninline constexpr arr arrays[] = { %s };\n' %
            ', '.join('{"%s",%d}' % (n, a.itemsize) for n, a in arrays))
    f.write('}\n')

# labels: every enumerator of every generated enumeration, by the property value's Unicode long name
LBL = {'age': 'Age', 'bc': 'Bidi_Class', 'bpt': 'Bidi_Paired_Bracket_Type', 'dt': 'Decomposition_Type',
       'ea': 'East_Asian_Width', 'GCB': 'Grapheme_Cluster_Break', 'hst': 'Hangul_Syllable_Type', 'InCB': 'Indic_Conjunct_Break',
       'InPC': 'Indic_Positional_Category', 'InSC': 'Indic_Syllabic_Category', 'JSN': 'Jamo_Short_Name', 'jg': 'Joining_Group',
       'jt': 'Joining_Type', 'lb': 'Line_Break', 'NFC_QC': 'NFC_Quick_Check', 'NFKC_QC': 'NFKC_Quick_Check', 'nt': 'Numeric_Type',
       'SB': 'Sentence_Break', 'vo': 'Vertical_Orientation', 'WB': 'Word_Break'}
with open(os.path.join(OUT, 'ref_labels.hpp'), 'w') as f:
    f.write('#pragma once\n')
    rowsL = []
    for k, e in LBL.items():
        for n in sorted(set(ident(x) for x in pva[k].values())):
            rowsL.append((e, n))
    for k, e in (('gc', 'General_Category'), ('script', 'Script')):
        for n in enums[k].names:
            rowsL.append((e, ident(n)))
    for n in enums['block'].names:
        rowsL.append(('Block', 'Unspecified' if n == 'No_Block' else ident(n)))
    for n in core_names:
        rowsL.append(('Core_Property', n))
    for n in ('Basic_Multilingual_Plane', 'Supplementary_Ideographic_Plane', 'Supplementary_Multilingual_Plane',
              'Supplementary_Private_Use_Area_Plane', 'Supplementary_Special_purpose_Plane', 'Tertiary_Ideographic_Plane', 'Unassigned'):
        rowsL.append(('Plane', n))
    f.write('#define REF_LABELS(X) \\\n' + ' \\\n'.join('X(%s, %s)' % r for r in rowsL) + '\n')
