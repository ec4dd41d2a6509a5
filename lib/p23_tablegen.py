"""P23: the table generator as a program: same data, same tables; bad data never reaches memory it should not."""
import glob, hashlib, os, random, re, shutil, subprocess, concurrent.futures
import build as B

OUTPUTS = sorted(B.GENERATED)


def program():
    src = sorted(glob.glob(os.path.join(B.REPO, 'src/libunicode/tablegen/*.cpp')))
    return dict(name='p23_tablegen', config='asan', helper=True,
                sources=['@SRC@/libunicode/tablegen/' + os.path.basename(s) for s in src],
                flags='-DNDEBUG -DLIBUNICODE_UCD_VERSION=\\"15.1.0\\"')


# files whose lines are "range ; value" read by one routine each, and may come in any order
STANDARD = ['Scripts.txt', 'EastAsianWidth.txt', 'DerivedAge.txt', 'HangulSyllableType.txt', 'IndicSyllabicCategory.txt',
            'ScriptExtensions.txt', 'extracted/DerivedName.txt', 'BidiMirroring.txt']
GROUPED = ['auxiliary/GraphemeBreakProperty.txt', 'auxiliary/WordBreakProperty.txt', 'emoji/emoji-data.txt', 'DerivedCoreProperties.txt']
OTHER = ['UnicodeData.txt', 'CaseFolding.txt', 'SpecialCasing.txt', 'CompositionExclusions.txt', 'DerivedNormalizationProps.txt',
         'Blocks.txt', 'PropertyValueAliases.txt', 'extracted/DerivedGeneralCategory.txt', 'emoji/emoji-variation-sequences.txt']
ANY_ORDER = STANDARD + ['CaseFolding.txt', 'CompositionExclusions.txt', 'DerivedNormalizationProps.txt']
ALL = STANDARD + GROUPED + OTHER


def data(line):
    s = line.strip()
    return bool(s) and s[0] not in '#@' and re.match(r'^[0-9A-F]{4,6}', s)


def make_ucd(dst, change):
    """A UCD directory with `change(name, lines)` applied to each file the generator reads."""
    for fn in ALL:
        p = os.path.join(B.UCD, fn)
        q = os.path.join(dst, fn)
        os.makedirs(os.path.dirname(q), exist_ok=True)
        with open(p, encoding='utf8') as f:
            lines = f.read().split('\n')
        new = change(fn, list(lines))
        if new is None:
            continue
        with open(q, 'w', encoding='utf8', newline='') as f:
            f.write('\n'.join(new))
    return dst


def same_data_variants(rng):
    def comments(fn, L):
        out = []
        for l in L:
            if fn != 'PropertyValueAliases.txt' and rng.random() < 0.02:
                out.append(rng.choice(['# a remark', '#', '', '   ', '# 0041..005A ; nothing']) if data(l) or not l else '')
            out.append(l)
        return out

    def crlf(fn, L):
        return [l + '\r' for l in L]

    def spacing(fn, L):
        if fn in ('UnicodeData.txt', 'PropertyValueAliases.txt'):
            return L
        out = []
        for l in L:
            if data(l) and rng.random() < 0.2:
                body, h, c = l.partition('#')
                body = body.replace(';', rng.choice([' ;', '; ', '  ;  ', ';']), 1)
                l = body + h + c
                if not h:
                    l += rng.choice(['', ' ', '  '])
            out.append(l)
        return out

    def order(fn, L):
        if fn not in ANY_ORDER:
            return L
        idx = [i for i, l in enumerate(L) if data(l)]
        perm = idx[:]
        rng.shuffle(perm)
        out = L[:]
        for a, b in zip(idx, perm):
            out[a] = L[b]
        return out

    def no_final_newline(fn, L):
        while L and not L[-1].strip():
            L.pop()
        return L

    def out_of_range(fn, L):
        if fn == 'emoji/emoji-variation-sequences.txt':
            return L + ['110000 FE0E  ; text style;  # beyond', '7FFFFFF FE0F ; emoji style; # beyond', '']
        if fn not in STANDARD + GROUPED or fn == 'extracted/DerivedName.txt':
            return L
        dl = [l for l in L if data(l) and l.split('#')[0].count(';') == 1]
        out = []
        for l in L:
            out.append(l)
            if data(l) and rng.random() < 0.01:
                val = rng.choice(dl).split('#')[0].split(';', 1)[1]
                a = rng.choice(['110000', '10FFFF0', 'FFFFFFFF', '110000..110010', '10FFF0..110000', 'FFFFFFF0..FFFFFFFF', '0..FFFFFFFF', '5A..41', '10FFFF..0'])
                out.append('%s ;%s# out of range' % (a, val))
        return out

    return [('comments and blank lines', comments), ('CR LF', crlf), ('spacing', spacing), ('line order', order),
            ('no final newline', no_final_newline), ('lines out of range', out_of_range)]


def damaged_variant(rng):
    def change(fn, L):
        if rng.random() < 0.5:
            return L
        idx = [i for i, l in enumerate(L) if data(l)]
        for i in rng.sample(idx, min(len(idx), 1 + rng.randrange(6))):
            l = L[i]
            k = rng.randrange(8)
            if k == 0:
                l = l[:rng.randrange(len(l))]
            elif k == 1:
                l = rng.choice(['10FFFF', '110000', '0', 'FFFFFFFF', 'E000..DFFF', '10FFFF..110000']) + l[re.match(r'^[0-9A-F.]+', l.strip()).end():]
            elif k == 2:
                l = l.replace(';', '', 1)
            elif k == 3:
                l = l + ';;;;;;'
            elif k == 4:
                l = l.replace('.', '')
            elif k == 5:
                l = ' '.join(rng.sample(l.split(' '), len(l.split(' '))))
            elif k == 6:
                j = rng.randrange(len(l))
                l = l[:j] + chr(rng.randrange(1, 127)) + l[j + 1:]
            else:
                l = L[rng.choice(idx)]
            if fn in ('CompositionExclusions.txt', 'DerivedNormalizationProps.txt', 'extracted/DerivedName.txt') and re.match(r'^\s*[0-9A-F]*\.\.[0-9A-Fa-f]{7}', l):
                continue  # a range of 2^32 characters only makes the run long
            L[i] = l
        if rng.random() < 0.1:
            L = L[:rng.randrange(len(L))]
        return L
    return change


def run(ctx):
    rng = random.Random(ctx['seed'] * 7919 + 23)
    binary = ctx['targets']['p23_tablegen']
    plain = os.path.join(B.WORK, 'tg', 'unicode_tablegen')
    root = os.path.join(ctx['rundir'], 'tablegen')
    os.makedirs(root)
    viol, counters, samples = [], {}, []
    cases = nontrivial = 0

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    def execute(tag, ucd, env=None, bin=None, outdir=None):
        out = outdir or os.path.join(root, 'out-' + re.sub(r'\W+', '-', tag))
        os.makedirs(out, exist_ok=True)
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000:detect_stack_use_after_return=1',
                 UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
        e.update(env or {})
        try:
            r = subprocess.run([bin or binary, ucd, out, 'unicode::precompiled'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=120)
            rc, log = r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, log = None, 'timeout'
        dig = {}
        for o in OUTPUTS:
            p = os.path.join(out, o)
            if os.path.exists(p):
                with open(p, 'rb') as f:
                    dig[o] = hashlib.sha256(f.read()).hexdigest()
        shutil.rmtree(out, ignore_errors=True)
        return rc, log, dig

    def bad(key, inp, detail):
        viol.append(dict(type='violation', key=key, input=inp, detail=detail[-3000:], case=cases))

    rc, log, ref = execute('reference', B.UCD)
    cases += 1
    count('generator runs')
    if rc != 0 or sorted(ref) != OUTPUTS:
        bad('generator/run', 'the UCD', log)
        return dict(violations=viol, cases=cases, nontrivial=0, counters=counters, samples={})

    # called with too few arguments, or with directories that are not there, the program says so and fails; it does not crash
    empty = os.path.join(root, 'empty')
    os.makedirs(empty, exist_ok=True)
    for argv in ([], [empty], [B.UCD], [empty, empty], [os.path.join(root, 'nothing-here'), empty], [B.UCD, os.path.join(root, 'no', 'such', 'dir')]):
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=1:hard_rss_limit_mb=3000', UBSAN_OPTIONS='halt_on_error=1:print_stacktrace=1')
        try:
            r = subprocess.run([binary] + argv, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=120, cwd=empty)
        except subprocess.TimeoutExpired:
            bad('generator/arguments', repr(argv), 'does not end')
            continue
        cases += 1
        count('runs without what is needed')
        log = r.stdout.decode('utf8', 'replace')
        made_dir = argv[1:] and os.path.isdir(argv[1]) and len(os.listdir(argv[1])) > 0
        if r.returncode < 0 or 'Sanitizer' in log or 'runtime error' in log:
            bad('generator/arguments', repr(argv), 'status %d: %s' % (r.returncode, log))
        elif r.returncode == 0 and not made_dir:
            bad('generator/arguments', repr(argv), 'reports success without having written anything')
    shutil.rmtree(empty, ignore_errors=True)

    # faults while writing: a device that is full, a limit on the file size. Success is reported only with all tables written.
    def faulty(job):
        tag, full, limit = job
        out = os.path.join(root, 'fault-' + re.sub(r'\W+', '-', tag))
        os.makedirs(out)
        if full:
            os.symlink('/dev/full', os.path.join(out, full))

        def restrict():
            import resource, signal
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
        try:
            r = subprocess.run([plain, B.UCD, out, 'unicode::precompiled'], stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120, preexec_fn=restrict)
            rc, log = r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, log = None, 'timeout'
        whole = True
        for o in OUTPUTS:
            p = os.path.join(out, o)
            if os.path.islink(p) or not os.path.isfile(p):
                whole = False
                continue
            with open(p, 'rb') as f:
                whole = whole and hashlib.sha256(f.read()).hexdigest() == ref[o]
        shutil.rmtree(out, ignore_errors=True)
        return rc, log, whole
    faults = [('full device for ' + o, o, None) for o in OUTPUTS]
    limits = [0, 1, 4095, 4096, 100000] if ctx['tier'] == 'quick' else sorted({0, 1, 2 ** 40} | {rng.randrange(1 << rng.randrange(1, 23)) for _ in range(60)})
    faults += [('file size limit %d' % n, None, n) for n in limits] + [('no fault', None, None)]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(faulty, faults))
    for job, (rc, log, whole) in zip(faults, res):
        cases += 1
        count('runs with a fault while writing')
        if rc is None or rc < 0:
            bad('generator/fault', job[0], 'status %r: %s' % (rc, log))
        elif rc == 0 and not whole:
            bad('generator/fault', job[0], 'reports success without having written all tables')
        elif rc != 0 and whole:
            bad('generator/fault', job[0], 'reports failure with all tables written: ' + log)
        else:
            nontrivial += rc != 0

    # faults while reading: a directory in the place of a file, reads that fail from the n-th on. What could not be read is not taken for absent.
    shim = os.path.join(root, 'read_fault.so')
    r = subprocess.run(['gcc', '-O1', '-shared', '-fPIC', '-o', shim, os.path.join(B.VERIF, 'harness', 'read_fault.c'), '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise B.BuildError(r.stdout)

    def unreadable(job):
        tag, directory, nth = job
        name = re.sub(r'\W+', '-', tag)
        ucd, rep = B.UCD, os.path.join(root, 'reads-' + name)
        env = {}
        if directory:
            ucd = os.path.join(root, 'ucd-' + name)
            make_ucd(ucd, lambda fn, L: L)
            os.remove(os.path.join(ucd, directory))
            os.mkdir(os.path.join(ucd, directory))
        else:
            env = {'LD_PRELOAD': shim, 'READ_FAULT': str(nth), 'READ_FAULT_REPORT': rep}
        rc, log, dig = execute('unreadable ' + tag, ucd, env, plain)
        if directory:
            shutil.rmtree(ucd, ignore_errors=True)
        reads = int(open(rep).read() or 0) if os.path.exists(rep) else 0
        return rc, log, dig, reads
    total = unreadable(('none', None, -1))[3]
    count('reads of a generator run', total)
    n = 24 if ctx['tier'] == 'quick' else 400
    faults = [('directory ' + fn, fn, None) for fn in ALL]
    if total:
        faults += [('read %d' % k, None, k) for k in [0, 1, total - 1] + [rng.randrange(total) for _ in range(n)]]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(unreadable, faults))
    for job, (rc, log, dig, reads) in zip(faults, res):
        cases += 1
        count('runs with a fault while reading')
        if rc is None or rc < 0:
            bad('generator/unreadable', job[0], 'status %r: %s' % (rc, log))
        elif rc == 0 and dig != ref:
            bad('generator/unreadable', job[0], 'reports success with tables that lack what could not be read')
        else:
            nontrivial += rc != 0

    def look_up(kind, pos, ucd):
        """Builds the tables made of `ucd` into a program and looks the code points up. Returns what is wrong."""
        gen = os.path.join(root, 'lookup', 'libunicode')
        shutil.rmtree(os.path.dirname(gen), ignore_errors=True)
        os.makedirs(gen)
        src = os.path.join(B.REPO, 'src/libunicode')
        r = subprocess.run([binary, ucd, gen, 'unicode::precompiled'], stdout=subprocess.DEVNULL, stderr=subprocess.STDOUT, timeout=120,
                           env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
        if r.returncode:
            return 'refused now, accepted before'
        for f in os.listdir(src):
            if f.endswith('.h') and f not in OUTPUTS:
                os.symlink(os.path.join(src, f), os.path.join(gen, f))
        main = os.path.join(os.path.dirname(gen), 'main.cpp')
        with open(main, 'w') as f:
            f.write('#include <libunicode/codepoint_properties.h>\n#include <cstdio>\n#include <cstdlib>\n#include <string>\nusing namespace unicode;\n'
                    'int main() { unsigned c; while (std::scanf("%x", &c) == 1) { auto p = codepoint_properties::get(c);\n'
                    'std::printf("%s|%d|%d\\n", std::string(codepoint_properties::name(c)).c_str(), p.east_asian_width == East_Asian_Width::Wide, p.script == Script::Latin); } }\n')
        exe = main[:-4]
        r = subprocess.run(['g++', '-std=c++20', '-O0', '-w', '-I', os.path.dirname(gen), main] +
                           [os.path.join(gen, f) for f in ('codepoint_properties_data.cpp', 'codepoint_properties_names.cpp')] +
                           [os.path.join(src, f) for f in ('codepoint_properties.cpp',) if os.path.exists(os.path.join(src, f))] + ['-o', exe],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=300)
        if r.returncode:
            return ''       # the compiler refused it
        asked = pos + [c + 1 for c in pos] + [0x41, 0x4E00, 0x1F600]
        r = subprocess.run([exe], input=' '.join('%x' % c for c in asked), stdout=subprocess.PIPE, text=True, timeout=60)
        lines = r.stdout.split('\n')
        for c, l in zip(asked, lines):
            count('grown characters looked up')
            name, wide, latin = (l.split('|') + ['', '', ''])[:3]
            own = c in pos
            want = ('GROWN CHARACTER %04X' % c if kind == 'names' and own else '', '1' if kind == 'widths' and own else '0', '1' if kind == 'scripts' and own else '0') if c >= 0x40000 else None
            if want and (name, wide, latin) != want:
                return 'U+%04X reads %r, want %r' % (c, (name, wide, latin), want)
        return ''

    jobs = []   # (tag, kind, fn)
    made = []

    def variant(tag, change):
        d = os.path.join(root, 'ucd-' + re.sub(r'\W+', '-', tag))
        make_ucd(d, change)
        made.append(d)
        return d

    envs = [('fill %02X' % b, {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:malloc_fill_byte=%d:max_malloc_fill_size=1073741824:free_fill_byte=%d:max_free_fill_size=65536' % (b, 255 - b)})
            for b in (0x00, 0xFF, 0x41)]
    envs += [('locale', {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'de_DE.UTF-8'}), ('again', {})]
    same = []
    for tag, env in envs:
        same.append((tag, B.UCD, env, None))
    same.append(('plain build', B.UCD, {}, plain))
    same.append(('plain build, perturbed heap', B.UCD, {'MALLOC_PERTURB_': '165'}, plain))
    rounds = 1 if ctx['tier'] == 'quick' else 20
    for k in range(rounds):
        for tag, change in same_data_variants(random.Random(rng.random())):
            d = os.path.join(root, 'ucd-%s-%d' % (re.sub(r'\W+', '-', tag), k))
            make_ucd(d, change)
            same.append(('%s, round %d' % (tag, k), d, {}, None))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: execute(*j), same))
    for (tag, ucd, env, b), (rc, log, dig) in zip(same, res):
        cases += 1
        count('generator runs')
        if rc != 0:
            bad('generator/run', tag, log)
            continue
        nontrivial += 1
        for o in OUTPUTS:
            count('output files compared')
            if dig.get(o) != ref[o]:
                bad('generator/differs', '%s: %s' % (tag, o), 'the same data gave another %s' % o)
    for d in os.listdir(root):
        if d.startswith('ucd-'):
            shutil.rmtree(os.path.join(root, d))

    # a missing input is an error, and is reported as one
    jobs = []
    for i, fn in enumerate(ALL):
        d = os.path.join(root, 'missing-%d' % i)
        os.makedirs(d)
        for g in ALL:
            if g != fn:
                os.makedirs(os.path.dirname(os.path.join(d, g)), exist_ok=True)
                os.symlink(os.path.join(B.UCD, g), os.path.join(d, g))
        jobs.append((fn, d))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: execute('missing ' + j[0], j[1]), jobs))
    for (fn, d), (rc, log, dig) in zip(jobs, res):
        cases += 1
        count('generator runs')
        count('missing inputs')
        if rc is None or rc < 0 or 'Sanitizer' in log or 'runtime error' in log:
            bad('generator/missing-crash', fn, log)
        elif rc == 0:
            bad('generator/missing-unnoticed', fn, 'exit 0 without this input')
        shutil.rmtree(d, ignore_errors=True)

    # data the tables cannot hold: the generator refuses it, or makes tables that hold it all the same
    def grow(kind, n):
        pos = [0x40000 + 0x100 * k + rng.randrange(0x100) for k in range(n)]

        def change(fn, L):
            if kind == 'names' and fn == 'extracted/DerivedName.txt':
                return L + ['%04X ; GROWN CHARACTER %04X' % (c, c) for c in pos] + ['']
            if kind == 'widths' and fn == 'EastAsianWidth.txt':
                return L + ['%04X ; W' % c for c in pos] + ['']
            if kind == 'scripts' and fn == 'Scripts.txt':
                return L + ['%04X ; Latin' % c for c in pos] + ['']
            return L
        return pos, change
    grown = []
    for kind, n in [('names', 27), ('names', 40), ('names', 300), ('widths', 57), ('widths', 100), ('scripts', 400)]:
        pos, change = grow(kind, n)
        d = os.path.join(root, 'grown-%s-%d' % (kind, n))
        make_ucd(d, change)
        grown.append((kind, n, pos, d))
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: execute('grown %s %d' % j[:2], j[3]), grown))
    for (kind, n, pos, d), (rc, log, dig) in zip(grown, res):
        cases += 1
        count('generator runs')
        tag = '%s in %d blocks of their own' % (kind, n)
        if rc is None or rc < 0 or 'Sanitizer' in log or 'runtime error' in log:
            bad('generator/grown', tag, 'status %r: %s' % (rc, log))
        elif rc != 0:
            nontrivial += 1
            count('data refused that the tables cannot hold')
        else:
            count('larger data accepted')
            wrong = look_up(kind, pos, d)
            if wrong:
                bad('generator/grown-lossy', tag, wrong)
        shutil.rmtree(d, ignore_errors=True)

    # damaged data: any outcome but a memory error or a hang
    n = 48 if ctx['tier'] == 'quick' else 3000

    def damaged(i):
        d = os.path.join(root, 'dmg-%d' % i)
        make_ucd(d, damaged_variant(random.Random(ctx['seed'] * 1000003 + i)))
        r = execute('damaged %d' % i, d)
        shutil.rmtree(d, ignore_errors=True)
        return r
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(damaged, range(n)))
    for i, (rc, log, dig) in enumerate(res):
        cases += 1
        count('generator runs')
        count('damaged inputs')
        if rc == 0:
            nontrivial += 1
            count('damaged inputs that still gave tables')
        if rc is None:
            bad('generator/hang', 'damage %d of seed %d' % (i, ctx['seed']), log)
        elif rc < 0 or 'Sanitizer' in log or 'runtime error' in log:
            bad('generator/memory', 'damage %d of seed %d' % (i, ctx['seed']), log)
    return dict(violations=viol, cases=cases, nontrivial=nontrivial, counters=counters, samples={'variants': [s[0] for s in same[:4]]})
