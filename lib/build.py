#!/usr/bin/env python3
"""Build libunicode from /repo's current working tree with sanitizers, in a private mirror.

 * mirrors /repo/src (minus generated tables and tests) into WORK/src,
 * builds the table generator from there and regenerates every table,
 * compiles the library with the requested sanitizer configuration,
 * compiles the harness sources of the requested checks against it.

The mirror preserves timestamps only when content changed, so repeated runs are incremental, but a
fresh checkout builds everything from scratch.
"""
import os, sys, subprocess, shutil, hashlib, glob, json

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
UCD = os.environ.get('VERIF_UCD', '/usr/share/unicode')
WORK = os.environ.get('VERIF_WORK', os.path.join(VERIF, 'build'))

GENERATED = {'ucd.cpp', 'ucd.h', 'ucd_enums.h', 'ucd_fmt.h', 'ucd_ostream.h', 'case_normalization_data.h',
             'codepoint_properties_data.h', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp'}
GEN_CPP = ['ucd.cpp', 'codepoint_properties_data.cpp', 'codepoint_properties_names.cpp']

CONFIGS = {
    # name: (compiler, flags, simd define)
    'asan': ('clang++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr '
                        '-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS', '-DLIBUNICODE_USE_INTRINSICS'),
    'asan_scalar': ('clang++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr '
                               '-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS', ''),
    'asan_stdsimd': ('g++', '-O1 -g1 -fno-omit-frame-pointer -fsanitize=address,undefined -fno-sanitize=vptr '
                                '-fno-sanitize-recover=all -D_GLIBCXX_ASSERTIONS', '-DLIBUNICODE_USE_STD_SIMD'),
    'tsan': ('clang++', '-O1 -g1 -fsanitize=thread', '-DLIBUNICODE_USE_INTRINSICS'),
    'fast': ('clang++', '-O2 -g1', '-DLIBUNICODE_USE_INTRINSICS'),
    'cover': ('clang++', '-O1 -g1 -fsanitize-coverage=trace-pc-guard', '-DLIBUNICODE_USE_INTRINSICS'),
    # the builds compared with one another (P28)
    'gcc_o3': ('g++', '-O3 -DNDEBUG', '-DLIBUNICODE_USE_INTRINSICS'),
    'gcc_scalar': ('g++', '-O0 -funsigned-char', ''),
    'gcc_stdsimd': ('g++', '-O2 -std=c++23', '-DLIBUNICODE_USE_STD_SIMD'),
    'clang_uchar': ('clang++', '-O3 -DNDEBUG -funsigned-char -std=c++23', '-DLIBUNICODE_USE_INTRINSICS'),
}


class BuildError(Exception):
    pass


def sync_file(src, dst):
    with open(src, 'rb') as f:
        data = f.read()
    try:
        with open(dst, 'rb') as f:
            if f.read() == data:
                return False
    except OSError:
        pass
    os.makedirs(os.path.dirname(dst), exist_ok=True)
    with open(dst, 'wb') as f:
        f.write(data)
    return True


def is_test(name):
    return name.endswith('_test.cpp') or name in ('test_main.cpp', 'unicode_test.cpp', 'benchmark.cpp')


def mirror():
    """Copy the non-generated sources; remove files that vanished."""
    src = os.path.join(REPO, 'src')
    dst = os.path.join(WORK, 'src')
    keep = set()
    for root, dirs, files in os.walk(src):
        rel = os.path.relpath(root, src)
        for fn in files:
            if not fn.endswith(('.cpp', '.h', '.hpp', '.c', '.inc', '.ipp')):
                continue
            if rel == 'libunicode' and (fn in GENERATED or is_test(fn)):
                continue
            d = os.path.normpath(os.path.join(dst, rel, fn))
            keep.add(d)
            sync_file(os.path.join(root, fn), d)
    for root, dirs, files in os.walk(dst):
        for fn in files:
            d = os.path.join(root, fn)
            if d not in keep:
                os.remove(d)
    return dst


LOCAL_FLAGS = {'convert.cpp': '-msse4.1'}


def simd_flags(fn):
    if fn == 'convert.cpp':
        return '-msse4.1'
    if fn.endswith('256.cpp'):
        return '-mavx2'
    if fn.endswith('512.cpp'):
        return '-mavx512f -mavx512bw'
    return ''


def lib_sources(srcdir):
    d = os.path.join(srcdir, 'libunicode')
    out = []
    for p in sorted(glob.glob(d + '/*.cpp')):
        fn = os.path.basename(p)
        if fn == 'codepoint_properties_loader.cpp':
            continue
        out.append(fn)
    return out


def write_ninja(programs):
    """programs: list of dicts {name, config, sources:[abs], needs_loader, extra, libs}"""
    src = mirror()
    gen = os.path.join(WORK, 'gen')          # generated tables:  gen/libunicode/*.h
    os.makedirs(os.path.join(gen, 'libunicode'), exist_ok=True)
    tgdir = os.path.join(src, 'libunicode', 'tablegen')
    L = []
    w = L.append
    w('builddir = %s' % WORK)
    # NDEBUG as in the Release configuration of the project's own build is NOT set there
    # (CMAKE_CXX_FLAGS_RELEASE is overridden to "-O2 -g"), so asserts stay live here as well.
    w('rule cxx\n  command = $cxx -std=c++20 -w $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc\n')
    w('rule link\n  command = $cxx $flags $in -o $out $libs\n')
    w('rule ar\n  command = rm -f $out && ar rcs $out $in\n')
    w('rule ref\n  command = python3 %s/lib/gen_ref.py %s %s/ref\n' % (VERIF, UCD, WORK))
    w('rule tablegen\n  command = $bin %s $outdir unicode::precompiled > $outdir/log.txt 2>&1 || (cat $outdir/log.txt; exit 1)\n' % UCD)
    genfiles = [os.path.join(gen, 'libunicode', g) for g in sorted(GENERATED)]
    tg_objs = []
    for p in sorted(glob.glob(tgdir + '/*.cpp')):
        o = os.path.join(WORK, 'tg', os.path.basename(p) + '.o')
        tg_objs.append(o)
        w('build %s: cxx %s\n  cxx = g++\n  flags = -O1 -I%s -DLIBUNICODE_UCD_VERSION=\\"15.1.0\\"\n' % (o, p, src))
    tgbin = os.path.join(WORK, 'tg', 'unicode_tablegen')
    w('build %s: link %s\n  cxx = g++\n  flags =\n' % (tgbin, ' '.join(tg_objs)))
    w('build %s: tablegen | %s\n  bin = %s\n  outdir = %s/libunicode\n' % (' '.join(genfiles), tgbin, tgbin, gen))
    refout = ' '.join(os.path.join(WORK, 'ref', x) for x in ('ref.bin', 'ref.txt', 'ref_map.hpp', 'ref_labels.hpp'))
    w('build %s: ref | %s/lib/gen_ref.py\n' % (refout, VERIF))
    done_libs = {}
    targets = []

    def lib(cfg):
        if cfg in done_libs:
            return done_libs[cfg]
        cxx, flags, simd = CONFIGS[cfg]
        objs = []
        names = lib_sources(src) + GEN_CPP
        for fn in names:
            generated = fn in GENERATED
            p = os.path.join(gen if generated else src, 'libunicode', fn)
            o = os.path.join(WORK, cfg, fn + '.o')
            fl = flags
            if simd:
                fl += ' ' + simd_flags(fn)
            elif fn.endswith(('256.cpp', '512.cpp')) or fn == 'simd_detector.cpp':
                continue
            if fn == 'codepoint_properties_names.cpp':
                fl = fl.replace('-O1', '-O0').replace('-g1', '')
            w('build %s: cxx %s || %s\n  cxx = %s\n  flags = %s %s -I%s -I%s\n' %
              (o, p, ' '.join(genfiles), cxx, fl, simd, src, gen))
            objs.append(o)
        a = os.path.join(WORK, cfg, 'libunicode.a')
        w('build %s: ar %s\n' % (a, ' '.join(objs)))
        done_libs[cfg] = a
        return a

    for pr in programs:
        cfg = pr['config']
        cxx, flags, simd = CONFIGS[cfg]
        a = lib(cfg)
        objs = []
        for s in pr['sources']:
            s = s.replace('@SRC@', src) if '@SRC@' in s else os.path.join(VERIF, 'harness', s)
            o = os.path.join(WORK, cfg, 'h_' + pr['name'] + '_' + os.path.basename(s) + '.o')
            w('build %s: cxx %s || %s %s\n  cxx = %s\n  flags = %s %s %s -I%s -I%s -I%s/ref -I%s/harness\n' %
              (o, s, ' '.join(genfiles), refout, cxx, flags, simd, pr.get('flags', ''), src, gen, WORK, VERIF))
            objs.append(o)
        b = os.path.join(WORK, cfg, pr['name'])
        w('build %s: link %s %s\n  cxx = %s\n  flags = %s\n  libs = -lpthread %s\n' % (b, ' '.join(objs), a, cxx, flags, pr.get('libs', '')))
        targets.append(b)
    path = os.path.join(WORK, 'build-%s.ninja' % hashlib.sha1('|'.join(targets).encode()).hexdigest()[:10])
    with open(path, 'w') as f:
        f.write('\n'.join(L))
    return path, targets, tgbin, genfiles


def build(programs, want_tablegen=False):
    os.makedirs(WORK, exist_ok=True)
    path, targets, tgbin, genfiles = write_ninja(programs)
    want = targets + ([tgbin] + genfiles if want_tablegen else [])
    r = subprocess.run(['ninja', '-f', path, '-C', WORK, '-j', str(os.cpu_count() or 8)] + want,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        import re as _re
        if any('fallback' in p for p in programs):
            # the internals a harness names may have been renamed: judge what it can reach without them
            return build([dict({k: v for k, v in p.items() if k != 'fallback'}, flags=p.get('flags', '') + ' ' + p['fallback'])
                          if 'fallback' in p else p for p in programs], want_tablegen)
        keep = [l for l in r.stdout.split('\n') if not _re.match(r'\[\d+/\d+\]', l)]
        raise BuildError('\n'.join(keep)[:6000])
    return targets


if __name__ == '__main__':
    print(build([dict(name='smoke', config=sys.argv[1] if len(sys.argv) > 1 else 'asan', sources=['/tmp/t.cpp'])]))
