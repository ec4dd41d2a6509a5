#!/usr/bin/env python3
"""Run one check:  run.py <PROPERTY-ID> [--tier quick|thorough] [--seed N] [--keep]

Builds /repo's working tree with sanitizers (lib/build.py), runs the property's harness in parallel
shards, collects what the monitors reported, and writes evidence/<ID>.json.

Exit 0: held on everything explored.  Exit 1 + VIOLATION line: broken.  Anything else: check error.
"""
import argparse, json, os, shutil, signal, subprocess, sys, time, fcntl, struct, re

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, 'lib'))
sys.path.insert(0, VERIF)
import build as B
import checks as C

STALL_CPU_S = 40.0      # CPU seconds spent inside one marked case before it is taken for a hang
FAIL_FAST = bool(os.environ.get('VERIF_FAIL_FAST'))    # for mutation runs: the first report ends the run
EVIDENCE = os.environ.get('VERIF_EVIDENCE', os.path.join(VERIF, 'evidence'))
SHARD_WALL_S = {'quick': 600.0, 'thorough': 6 * 3600.0}


class HarnessError(Exception):
    pass


def cpu_time(pid):
    try:
        with open('/proc/%d/stat' % pid) as f:
            p = f.read().rsplit(')', 1)[1].split()
        return (int(p[11]) + int(p[12])) / os.sysconf('SC_CLK_TCK')
    except OSError:
        return None


def read_state(path):
    try:
        with open(path, 'rb') as f:
            raw = f.read()
    except OSError:
        return None
    if len(raw) < 136:
        return None
    cases, elem, n = struct.unpack_from('<QII', raw, 0)
    tag = raw[16:136].split(b'\0')[0].decode('ascii', 'replace')
    data = raw[136:136 + n]
    return dict(cases=cases, elem=elem, tag=tag, data=data)


def fmt_input(st):
    e = st['elem'] or 1
    d = st['data']
    w = {1: '%02X', 2: '%04X', 4: '%04X'}.get(e, '%X')
    vals = [int.from_bytes(d[i:i + e], 'little') for i in range(0, len(d) - e + 1, e)]
    return ' '.join(w % v for v in vals[:900])


SAN_ENV = {
    'ASAN_OPTIONS': 'abort_on_error=1:detect_leaks=0:detect_stack_use_after_return=1:strict_string_checks=1:'
                    'hard_rss_limit_mb=2600:allocator_may_return_null=0:handle_abort=0:max_allocation_size_mb=1500:'
                    'malloc_fill_byte=190:max_malloc_fill_size=1048576',
    'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:abort_on_error=1',
    'TSAN_OPTIONS': 'halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4',
}


class Shard:
    def __init__(self, binary, idx, n, seed, tier, workdir, extra_args=()):
        self.binary, self.idx, self.n, self.seed, self.tier = binary, idx, n, seed, tier
        self.dir = workdir
        self.extra = list(extra_args)
        self.state = os.path.join(workdir, 'state.%d' % idx)
        self.out = os.path.join(workdir, 'out.%d.jsonl' % idx)
        self.err = os.path.join(workdir, 'err.%d.txt' % idx)
        self.reruns = 0
        self.result = None      # 'ok' | 'crash' | 'hang' | 'inconclusive'

    def argv(self):
        return [self.binary, '--shard', str(self.idx), '--nshards', str(self.n), '--seed', str(self.seed),
                '--tier', self.tier, '--ref', os.path.join(B.WORK, 'ref'), '--out', self.out,
                '--state', self.state] + self.extra

    def start(self):
        for p in (self.state, self.out):
            if os.path.exists(p):
                os.remove(p)
        env = dict(os.environ)
        env.update(SAN_ENV)
        self.errf = open(self.err, 'wb')
        self.proc = subprocess.Popen(self.argv(), stdin=subprocess.DEVNULL, stdout=self.errf, stderr=self.errf,
                                     env=env, cwd=self.dir)
        self.t0 = time.time()
        self.last_cases, self.last_cpu = -1, 0.0

    def poll(self):
        rc = self.proc.poll()
        if rc is not None:
            self.errf.close()
            self.rc = rc
            if rc == 0:
                self.result = 'ok'
            elif rc == 9:
                raise HarnessError('harness exit 9: ' + self.stderr_tail())
            else:
                self.result = 'crash'
            return True
        cpu = cpu_time(self.proc.pid)
        st = read_state(self.state)
        if cpu is not None:
            cases = st['cases'] if st else 0
            if cases != self.last_cases:
                self.last_cases, self.last_cpu = cases, cpu
            elif cpu - self.last_cpu > STALL_CPU_S:
                self.kill()
                key = (st['tag'], st['data'], st['cases']) if st else None
                if self.reruns and key == self.hang_key:
                    self.result = 'hang'
                    return True
                if self.reruns >= 2:
                    self.result = 'inconclusive'
                    return True
                self.hang_key = key
                self.reruns += 1
                self.start()
                return False
        if time.time() - self.t0 > SHARD_WALL_S[self.tier]:
            self.kill()
            self.result = 'inconclusive'
            return True
        return False

    def kill(self):
        self.proc.kill()
        self.proc.wait()
        self.errf.close()

    def reported(self):
        try:
            with open(self.out) as f:
                return '"violation"' in f.read()
        except OSError:
            return False

    def stderr_tail(self, n=6000):
        try:
            with open(self.err, 'rb') as f:
                return f.read().decode('utf8', 'replace')[-n:]
        except OSError:
            return ''

    def collect(self):
        viol, summary = [], None
        try:
            with open(self.out) as f:
                for line in f:
                    try:
                        r = json.loads(line)
                    except ValueError:
                        continue
                    if r.get('type') == 'violation':
                        viol.append(r)
                    elif r.get('type') == 'summary':
                        summary = r
        except OSError:
            pass
        st = read_state(self.state)
        if self.result in ('crash', 'hang'):
            tail = self.stderr_tail(20000)
            m = re.search(r'SUMMARY: (.*)', tail) or re.search(r"(terminate called.*|.*Assertion .*failed.*|runtime error:.*)", tail)
            why = m.group(1).strip() if m else ('exit status %d' % self.rc if self.result == 'crash' else 'no progress')
            if self.result == 'hang':
                why = 'no progress: more than %d CPU seconds in one call (twice)' % STALL_CPU_S
            key = '%s:%s' % (self.result, st['tag'] if st else '?')
            viol.append(dict(type='violation', key=key, input=fmt_input(st) if st else '',
                             detail=why + '\n' + tail[-2500:], case=st['cases'] if st else 0))
        return viol, summary, st


def run_program(binary, nshards, seed, tier, workdir, extra=()):
    os.makedirs(workdir, exist_ok=True)
    shards = [Shard(binary, i, nshards, seed, tier, workdir, extra) for i in range(nshards)]
    for s in shards:
        s.start()
    live = list(shards)
    while live:
        time.sleep(0.05)
        live = [s for s in live if not s.poll()]
        if FAIL_FAST and live and any(s.result == 'crash' or s.reported() for s in shards):
            for s in live:
                s.kill()
                s.result = 'inconclusive'
            live = []
    return shards


# ------------------------------------------------------------------------------------ known findings
def load_known():
    """Lines 'finding: property=<id> key=<monitor> input=<exact input> :: <what fails>'."""
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p, encoding='utf8'):
            m = re.match(r'finding: property=(\S+) key=(\S+) input=(.*?) :: (.*)$', line.rstrip('\n'))
            if m:
                out.append(dict(property=m.group(1), key=m.group(2), input=m.group(3), what=m.group(4)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick', choices=['quick', 'thorough'])
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--jobs', type=int, default=8)
    a = ap.parse_args()
    chk = C.CHECKS[a.id]
    t0 = time.time()
    os.makedirs(B.WORK, exist_ok=True)
    lock = open(os.path.join(B.WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    programs = chk.get('programs', [])
    targets = B.build(programs, want_tablegen=chk.get('tablegen', False)) if programs or chk.get('tablegen') else []
    t_build = time.time() - t0
    workdir = os.path.join(B.WORK, 'run', a.id)
    if os.path.isdir(workdir):
        shutil.rmtree(workdir)
    os.makedirs(workdir)
    violations, inconclusive = [], []
    counters, distinct, samples = {}, {}, {}
    cases = nontrivial = 0
    for pr, binary in zip(programs, targets):
        if pr.get('helper'):
            continue
        wd = os.path.join(workdir, pr['config'] + '-' + pr['name'])
        for s in run_program(binary, min(pr.get('shards', 8), 8 if a.jobs >= 8 else a.jobs), a.seed, a.tier, wd):
            viol, summ, st = s.collect()
            for v in viol:
                v['program'] = pr['name'] + '/' + pr['config']
                v['argv'] = s.argv()
            violations += viol
            if s.result == 'inconclusive' and not FAIL_FAST:
                inconclusive.append('%s shard %d' % (pr['name'], s.idx))
            if s.result == 'ok' and summ is None:
                raise HarnessError('no summary from %s shard %d: %s' % (pr['name'], s.idx, s.stderr_tail()))
            if summ:
                cases += summ['cases']
                nontrivial += summ['nontrivial']
                for k, v in summ['counters'].items():
                    counters[k] = counters.get(k, 0) + v
                for k, v in summ['distinct'].items():
                    distinct[k] = distinct.get(k, 0) + v
                for k, v in summ['samples'].items():
                    samples.setdefault(k, [])
                    samples[k] = (samples[k] + v)[:4]
            elif st:
                cases += st['cases']
    if 'custom' in chk:
        ctx = dict(work=B.WORK, rundir=workdir, seed=a.seed, tier=a.tier, verif=VERIF, targets=dict(
            (p['name'], t) for p, t in zip(programs, targets)))
        r = chk['custom'](ctx)
        violations += r['violations']
        cases += r['cases']
        nontrivial += r['nontrivial']
        for k, v in r['counters'].items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r.get('distinct', {}).items():
            distinct[k] = distinct.get(k, 0) + v
        samples.update(r['samples'])
    lock.close()

    # ---- verdict
    known = [k for k in load_known() if k['property'] == a.id]
    hit, fresh = {}, []
    for v in violations:
        for i, k in enumerate(known):
            if k['key'] == v['key'] and k['input'] == v['input']:
                hit[i] = True
                break
        else:
            fresh.append(v)
    for i in sorted(hit):
        print('KNOWN-FINDING: property=%s %s' % (a.id, known[i]['what']))

    # a run that observed nothing decides nothing
    floors = chk.get('floors', {})
    unobserved = [k for k, n in floors.items() if counters.get(k, distinct.get(k, 0)) < n]

    evdir = EVIDENCE
    os.makedirs(evdir, exist_ok=True)
    smp = []
    for k, v in samples.items():
        for x in v:
            smp.append('%s: %s' % (k, x))
    ev = dict(property=a.id, tier=a.tier, seed=a.seed, level='exploration',
              coverage=dict(evaluations=cases, distinct_nontrivial=nontrivial, rule=chk['rule'],
                            samples=smp[:24] or ['(none)'], monitor_events=counters, distinct_observed=distinct,
                            builds=sorted(set(p['config'] for p in programs)) or ['custom'],
                            inconclusive=inconclusive),
              assumptions=chk.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    if chk.get('exhaustive'):
        ev['coverage']['exhaustive_part'] = chk['exhaustive']
    with open(os.path.join(evdir, a.id + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
        f.write('\n')

    print('%s: %d cases, %d distinct non-trivial, build %.1fs, total %.1fs' % (a.id, cases, nontrivial, t_build, time.time() - t0))
    if fresh:
        rdir = os.path.join(evdir, 'replay')
        os.makedirs(rdir, exist_ok=True)
        bykey = {}
        for v in fresh:
            bykey.setdefault(v['key'], []).append(v)
        n = 0
        for key, vs in sorted(bykey.items()):
            path = os.path.join(rdir, '%s-%d.json' % (a.id, n))
            n += 1
            with open(path, 'w') as f:
                json.dump(dict(property=a.id, key=key, seed=a.seed, tier=a.tier, violations=vs[:20],
                               how_to_replay='cd /verif && VERIF_SEED=%d python3 run.py %s --tier %s   (or the recorded argv)'
                               % (a.seed, a.id, a.tier)), f, indent=1)
                f.write('\n')
            print('  [%s] x%d  input: %s\n      %s' % (key, len(vs), vs[0]['input'][:300], vs[0]['detail'][:700].replace('\n', '\n      ')))
            if n <= 12:
                print('VIOLATION property=%s replay=%s' % (a.id, os.path.relpath(path, VERIF)))
        return 1
    if inconclusive:
        print('INCONCLUSIVE: %s' % ', '.join(inconclusive))
        return 3
    if unobserved:
        print('INCONCLUSIVE: monitors observed too little: %s' % ', '.join(unobserved))
        return 3
    return 0


if __name__ == '__main__':
    try:
        rc = main()
    except (HarnessError, B.BuildError) as e:
        print('CHECK ERROR: %s' % e)
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
