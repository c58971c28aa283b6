#!/usr/bin/env python3
"""Materialise planted bugs: mkseed.py DEFS.py [ID ...]

DEFS.py holds SEEDS = [dict(id, prop, file, func, old, new, demo, needs, what)]; each is turned into seeded/ID/{patch.diff,demo.sh,
demo.py,meta.json}, then confirmed: demo passes on the clean tree, fails with the patch, the package builds and the stable tests pass,
and the property's check is run to see whether it catches the change.
"""
import json
import os
import runpy
import subprocess
import sys

REPO = '/repo'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def sh(*a, **k):
    return subprocess.run(a, capture_output=True, text=True, **k)


def edit(s):
    """Apply the textual substitution(s) of a seed."""
    for e in s.get('edits') or [s]:
        path = os.path.join(REPO, e['file'])
        t = open(path).read()
        i, j = 0, len(t)
        if e.get('func'):
            i = t.index('def %s(' % e['func'])
            j = t.find('\ndef ', i + 1)
            j = len(t) if j < 0 else j
        body = t[i:j]
        n = e.get('nth', 0)
        pos = -1
        for _ in range(n + 1):
            pos = body.find(e['old'], pos + 1)
            if pos < 0:
                raise SystemExit('%s: %r not found' % (s['id'], e['old']))
        body = body[:pos] + e['new'] + body[pos + len(e['old']):]
        open(path, 'w').write(t[:i] + body + t[j:])


def main():
    seeds = runpy.run_path(sys.argv[1])['SEEDS']
    want = set(sys.argv[2:])
    if sh('git', 'status', '--porcelain', cwd=REPO).stdout.strip():
        raise SystemExit('repo not clean')
    stable = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for s in seeds:
        if want and s['id'] not in want:
            continue
        d = os.path.join(HERE, 'seeded', s['id'])
        os.makedirs(d, exist_ok=True)
        with open(d + '/demo.py', 'w') as fh:
            fh.write(s['demo'].strip() + '\n')
        with open(d + '/demo.sh', 'w') as fh:
            fh.write('#!/bin/bash\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" MPLBACKEND=Agg\n'
                     'exec /opt/venv/bin/python -W ignore "$here/demo.py"\n')
        with open(d + '/meta.json', 'w') as fh:
            json.dump({'property': s['prop'], 'needs': s['needs'], 'what_it_breaks': s['what']}, fh, indent=1)
            fh.write('\n')
        clean = sh('bash', d + '/demo.sh', cwd=REPO)
        try:
            edit(s)
            diff = sh('git', 'diff', cwd=REPO).stdout
            with open(d + '/patch.diff', 'w') as fh:
                fh.write(diff)
            bug = sh('bash', d + '/demo.sh', cwd=REPO)
            build = sh('bash', '/opt/vp/build.sh')
            sh('bash', '/opt/vp/test.sh', '/tmp/mkseed.json')
            t = json.load(open('/tmp/mkseed.json'))
            lost = sorted(stable - set(t['passed'])) if stable else t.get('failed')
            c = sh('python3-vt', HERE + '/check.py', s['prop'], cwd=HERE)
        finally:
            sh('git', 'checkout', '--', '.', cwd=REPO)
        good = clean.returncode == 0 and bug.returncode != 0 and build.returncode == 0 and not lost
        print('%s %s: demo clean=%d bug=%d build=%d lost=%s check=%d' % ('OK ' if good else 'BAD', s['id'], clean.returncode, bug.returncode, build.returncode, lost, c.returncode))
        if clean.returncode:
            print(clean.stderr[-600:])
        if not bug.returncode or build.returncode:
            print(bug.stdout[-300:], build.stderr[-300:])
        if c.returncode != 1:
            print(c.stdout[-400:], c.stderr[-600:])


main()
