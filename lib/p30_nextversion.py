"""P30: the library built from another Unicode Character Database answers as that database says.

A synthetic next version of the UCD (synth_ucd.py) is given to the real table generator; the library is built from what it
writes, and the harnesses of the data-driven properties judge that library against a reference read from the same files."""
import glob, json, os, shutil, subprocess, sys
import build as B

QUICK = ['P01', 'P02', 'P10', 'P11', 'P13', 'P15', 'P07', 'P09', 'P19', 'P20']
ALL = ['P01', 'P02', 'P03', 'P07', 'P08', 'P09', 'P10', 'P11', 'P12', 'P13', 'P14', 'P15', 'P16', 'P17', 'P18', 'P19', 'P20', 'P21', 'P22', 'P25', 'P27']
BUILD = '''
import sys
sys.path[:0] = [%r, %r]
import build as B, checks as C
try:
    B.build([p for i in %r for p in C.CHECKS[i]['programs'] if not p.get('helper')])
except B.BuildError as e:
    print(e)
    sys.exit(7)
'''


def run(ctx):
    quick = ctx['tier'] == 'quick'
    subs = QUICK if quick else ALL
    seeds = [ctx['seed']] if quick else [ctx['seed'] + i for i in range(5)]
    viol, counters, samples = [], {}, {}
    cases = nontrivial = 0
    for seed in seeds:
        root = os.path.join(ctx['rundir'], 'version-%d' % seed)
        ucd, ev = os.path.join(root, 'ucd'), os.path.join(root, 'evidence')
        os.makedirs(root)
        r = subprocess.run([sys.executable, os.path.join(ctx['verif'], 'lib', 'synth_ucd.py'), str(seed), ucd, B.UCD], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise B.BuildError('synth_ucd.py: ' + r.stdout[-2000:])
        samples.setdefault('synthetic versions', []).append('seed %d: %s' % (seed, r.stdout.strip()))
        counters['synthetic versions'] = counters.get('synthetic versions', 0) + 1
        counters['new characters'] = counters.get('new characters', 0) + int(r.stdout.split()[0])
        env = dict(os.environ, VERIF_UCD=ucd, VERIF_WORK=os.path.join(root, 'work'), VERIF_EVIDENCE=ev, VERIF_TIER='quick')
        r = subprocess.run([sys.executable, '-c', BUILD % (os.path.join(ctx['verif'], 'lib'), ctx['verif'], subs)], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            # is it this database, or does the tree not build at all?
            import checks as C
            B.build([p for i in subs for p in C.CHECKS[i]['programs'] if not p.get('helper')])
            viol.append(dict(type='violation', key='tables/build', input='synth_ucd.py %d' % seed, case=0,
                             detail='the generator or what it wrote fails on this database (and does not on the installed one): ' + r.stdout[-3000:]))
            continue
        for sub in subs:
            r = subprocess.run([sys.executable, os.path.join(ctx['verif'], 'run.py'), sub, '--tier', 'quick', '--seed', str(seed)], env=env,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode not in (0, 1) or (r.returncode == 1 and 'VIOLATION' not in r.stdout):
                raise B.BuildError('%s on a synthetic version: status %d\n%s' % (sub, r.returncode, r.stdout[-3000:]))
            with open(os.path.join(ev, sub + '.json')) as f:
                e = json.load(f)['coverage']
            cases += e['evaluations']
            nontrivial += e['distinct_nontrivial']
            counters['judgements of ' + sub] = counters.get('judgements of ' + sub, 0) + e['evaluations']
            if r.returncode == 1:
                for p in sorted(glob.glob(os.path.join(ev, 'replay', sub + '-*.json'))):
                    with open(p) as f:
                        for v in json.load(f)['violations']:
                            viol.append(dict(type='violation', key=sub + '/' + v['key'], input=v['input'], case=v.get('case', 0),
                                             detail='on synth_ucd.py %d: %s' % (seed, v['detail'])))
        shutil.rmtree(root)
    return dict(violations=viol, cases=cases, nontrivial=nontrivial, counters=counters, samples=samples)
