#!/usr/bin/env python3
"""Helper for planting a bug: edits are in /repo's (uncommitted) working tree.
   plant.py ID PROP --src a.cpp,b.cpp --needs TEXT --breaks TEXT  < demo.cpp
Writes seeded/ID/, confirms build, tests, demo with and without the patch, runs the check, undoes the edits."""
import argparse, json, os, subprocess, sys
a = argparse.ArgumentParser()
a.add_argument('id'); a.add_argument('prop'); a.add_argument('--src', default=''); a.add_argument('--flags', default='')
a.add_argument('--needs', required=True); a.add_argument('--breaks', required=True); a.add_argument('--nocheck', action='store_true')
o = a.parse_args()
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
d = f'{V}/seeded/{o.id}'
os.makedirs(d, exist_ok=True)
patch = subprocess.check_output(['git', '-C', '/repo', 'diff', '--binary'])
if not patch: sys.exit('no edits in /repo')
open(d + '/patch.diff', 'wb').write(patch)
open(d + '/demo.cpp', 'w').write(sys.stdin.read())
json.dump(dict(property=o.prop, needs=o.needs, what_it_breaks=o.breaks), open(d + '/meta.json', 'w'), indent=1)
srcs = ' '.join(s for s in o.src.split(',') if s)
open(d + '/demo.sh', 'w').write(f'''#!/bin/bash
# run with cwd /repo; everything is written to a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++-9 -O1 -std=gnu++14 -msse4 -w -Wno-invalid-offsetof -I. -Idatas {o.flags} "$here/demo.cpp" {srcs} -o "$t/demo" -lpthread || exit 3
cd "$t" && timeout 120 ./demo
''')
os.chmod(d + '/demo.sh', 0o755)
def rt():
    subprocess.run('bash /opt/vp/test.sh /tmp/o.json', shell=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    r = json.load(open('/tmp/o.json')); return len(r['passed']), r['failed']
def demo():
    r = subprocess.run(['bash', d + '/demo.sh'], cwd='/repo', capture_output=True, text=True)
    if r.returncode > 2: print((r.stdout + r.stderr)[:600])
    return r.returncode
try:
    print('patched tests', rt()); print('patched demo rc', demo())
    if not o.nocheck:
        r = subprocess.run(['./check.py', o.prop, '--tier', 'quick'], cwd=V, capture_output=True, text=True, env=dict(os.environ, VERIF_SEED='1'))
        print('check rc', r.returncode, [l for l in r.stdout.split('\n') if 'VIOLATION' in l][:3])
        if r.returncode != 1: print(r.stdout[-800:], r.stderr[-800:])
finally:
    subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
print('clean tests', rt(), 'clean demo rc', demo())
