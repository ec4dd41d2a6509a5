#!/usr/bin/env python3
"""setup_cmd: every check builds what it needs itself; here only the prerequisites are looked at, and the documents' consistency."""
import json, os, shutil, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'lib'))
import checks, build
bad = [t for t in ('clang++', 'clang', 'g++') if not shutil.which(t)]
bad += [f for f in ('UnicodeData.txt', 'auxiliary/GraphemeBreakTest.txt', 'emoji/emoji-data.txt', 'Scripts.txt')
        if not any(os.path.exists(os.path.join(build.UCD, f + x)) for x in ('', '.bz2'))]
m = json.load(open(os.path.join(V, 'MANIFEST.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
claimed = [c['property'] for c in m['checks']]
if sorted(props) != sorted(claimed + [n['property'] for n in m['not_applicable']]) or any(c not in checks.CHECKS for c in claimed):
    bad.append('MANIFEST.json out of step')
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('missing: ' + ', '.join(bad) if bad else 'ready: %d checks' % len(claimed))
sys.exit(1 if bad else 0)
