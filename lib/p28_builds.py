"""P28: the same results from every build of the library. Each build logs the digest of every operation on every text; the logs are compared here."""
import array, os, shutil, struct, subprocess, concurrent.futures
import build as B

BUILDS = ['asan', 'fast', 'gcc_o3', 'gcc_scalar', 'gcc_stdsimd', 'clang_uchar']


def programs():
    return [dict(name='p28_' + c, config=c, sources=['p28_builds.cpp'], helper=True,
                 flags='-msse4.1' if c in ('asan',) else '') for c in BUILDS]


def read_texts(path):
    out = []
    with open(path, 'rb') as f:
        n, = struct.unpack('<I', f.read(4))
        for _ in range(n):
            k, = struct.unpack('<I', f.read(4))
            t = f.read(4 * k)
            rest = []
            for size in (1, 2, 1):
                j, = struct.unpack('<I', f.read(4))
                rest.append(f.read(j * size))
            out.append((t, rest))
    return out


def show(text, op):
    t, (b, w, damaged) = text
    cps = ' '.join('%04X' % x for x in struct.unpack('<%dI' % (len(t) // 4), t))
    return '%s | damaged: %s' % (cps[:600], damaged.hex(' ')[:600])


def run(ctx):
    viol, counters = [], {}
    T = ctx['targets']

    def count(k, n=1):
        counters[k] = counters.get(k, 0) + n

    names = subprocess.run([T['p28_fast'], 'names'], capture_output=True, text=True).stdout.split('\n')
    names = [n for n in names if n]
    ops = len(names)

    def make(tag, n, seed):
        p = os.path.join(ctx['rundir'], 'texts-%s' % tag)
        r = subprocess.run([T['p28_asan'], 'make', p, str(n), str(seed), os.path.join(B.WORK, 'ref')], capture_output=True, text=True)
        if r.returncode:
            raise RuntimeError('texts: ' + r.stdout + r.stderr)
        return p

    def one(job):
        tag, build, texts, extra, env, wrap = job
        out = os.path.join(ctx['rundir'], 'log-' + tag.replace(' ', '-'))
        e = dict(os.environ, **env)
        try:
            r = subprocess.run(wrap + [T['p28_' + build], 'run', texts, out] + extra, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=3000)
            rc, log = r.returncode, r.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            rc, log = None, 'timeout'
        data = array.array('Q')
        if os.path.exists(out):
            with open(out, 'rb') as f:
                data.frombytes(f.read())
            os.remove(out)
        return rc, log, data

    quick = ctx['tier'] == 'quick'
    nvalgrind = 60 if quick else 1500
    n = 12000 if quick else 300000
    texts, few = make('many', n, ctx['seed']), make('few', nvalgrind, ctx['seed'] + 77)
    san = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1', 'UBSAN_OPTIONS': 'halt_on_error=1:print_stacktrace=1'}
    jobs = [('build ' + b, b, texts, [], san, []) for b in BUILDS]
    jobs.append(('locale', 'gcc_o3', texts, ['locale'], {'LC_ALL': 'tr_TR.UTF-8', 'LANG': 'tr_TR.UTF-8'}, []))
    jobs.append(('perturbed heap', 'gcc_o3', texts, [], {'MALLOC_PERTURB_': '165'}, []))
    jobs.append(('perturbed heap, other', 'fast', texts, [], {'MALLOC_PERTURB_': '90', 'MALLOC_ARENA_MAX': '1'}, []))
    extra = [('few ' + b, b, few, [], san, []) for b in ('asan',)]
    vg = ['valgrind', '-q', '--error-exitcode=99', '--track-origins=yes', '--undef-value-errors=yes', '--leak-check=full', '--errors-for-leak-kinds=definite']
    extra += [('valgrind ' + b, b, few, [], {}, vg) for b in ('fast', 'gcc_o3', 'gcc_scalar')]
    with concurrent.futures.ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, extra + jobs))
    cases = nontrivial = 0
    seen = set()
    for group, texts_of in ((list(zip(extra, res)), few), (list(zip(jobs, res[len(extra):])), texts)):
        want = None
        all_texts = read_texts(texts_of)
        for (tag, build, *_), (rc, log, data) in group:
            if rc != 0:
                done = len(data) // ops
                where = show(all_texts[done], 0) if done < len(all_texts) else ''
                key = 'memory/' + tag if rc == 99 or 'Sanitizer' in log or 'runtime error' in log else 'crash/' + tag
                viol.append(dict(type='violation', key=key, input=where, detail='status %r after %d texts: %s' % (rc, done, log[-2500:]), case=done))
            elif len(data) != ops * len(all_texts):
                viol.append(dict(type='violation', key='log/' + tag, input='', detail='log of %d entries' % len(data), case=0))
        logs = [(tag, data) for (tag, *_), (rc, log, data) in group if rc == 0 and len(data) == ops * len(all_texts)]
        if not logs:
            continue
        for i in range(len(all_texts)):
            row = [data[i * ops:(i + 1) * ops] for _, data in logs]
            cases += 1
            count('results compared', ops * (len(row) - 1))
            seen.update(row[0])
            if all(r == row[0] for r in row):
                nontrivial += 1
                continue
            for o in range(ops):
                vals = [r[o] for r in row]
                if len(set(vals)) > 1:
                    common = max(set(vals), key=vals.count)
                    odd = [tag for (tag, _), v in zip(logs, vals) if v != common]
                    if sum(v['key'] == 'result/' + names[o] for v in viol) < 25:
                        viol.append(dict(type='violation', key='result/' + names[o], input=show(all_texts[i], o), detail='differs from the others: ' + ', '.join(odd), case=i))
    count('builds and environments compared', len(jobs))
    count('texts under valgrind', nvalgrind * 3)
    counters['distinct results'] = len(seen)
    return dict(violations=viol, cases=cases, nontrivial=nontrivial, counters=counters, samples={'operations': names[:4]})
