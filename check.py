#!/usr/local/bin/python3-vt
"""Decide one property on the current source tree: check.py PROPERTY [quick|thorough]."""
import importlib
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(4000)
TIER = sys.argv[2] if len(sys.argv) > 2 and sys.argv[2] in ('quick', 'thorough') else os.environ.get('VERIF_TIER', 'quick')
os.environ.setdefault('VERIF_LANES', '4096' if TIER == 'quick' else '16384')

from rules.common import Ctx            # noqa: E402
from rules.registry import PROPS        # noqa: E402


def load_known():
    """known-findings.txt: 'known: property=ID key=KEY what' lines suppress exactly that finding; 'fixed:' lines suppress nothing."""
    out = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for line in open(path):
            if line.startswith('known: property='):
                head, _, rest = line[len('known: property='):].partition(' key=')
                key, _, what = rest.partition(' :: ')
                out[(head.strip(), key.strip())] = what.strip()
    return out


def main():
    prop = sys.argv[1]
    tier = TIER
    verbose = '-v' in sys.argv
    spec = PROPS[prop]
    known = load_known()
    t0 = time.time()
    ctx = Ctx(prop)
    for fn in spec['run']:
        fn(ctx)
    from rules.selftest import selftest
    selftest(ctx)
    viol = []
    for f in ctx.findings:
        if (prop, f.key) in known and f.key in ctx.known:
            continue
        viol.append(f)
    for key in ctx.known:
        if (prop, key) in known:
            print('KNOWN-FINDING: property=%s %s' % (prop, known[(prop, key)]))
        else:
            from rules.common import Finding
            rule, _, c = key.partition('|')
            viol.append(Finding(rule, c, '', 'behaves as the recorded defective form but is not a listed finding'))
    n = len(ctx.obligations)
    if n < spec.get('min_obligations', 1):
        from rules.common import Finding
        viol.append(Finding('coverage', prop, '', 'only %d obligations could be formed, at least %d expected: the anchors of this property are gone' % (n, spec['min_obligations'])))
    ev_dir = os.environ.get('METCALCPY_EVIDENCE') or os.path.join(VERIF, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    held = sum(1 for o in ctx.obligations if o[2] == 'holds')
    ev = {
        'property': prop, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'other',
        'coverage': {
            'explanation': spec['explain'],
            'obligations': n, 'holding': held, 'undetermined': len(ctx.undetermined), 'known_findings': len(ctx.known),
            'functions_analysed': len(ctx.functions), 'call_sites': ctx.sites, 'abstract_steps': ctx.steps, 'value_lanes_compared': ctx.lanes,
            'rules': sorted({o[0] for o in ctx.obligations}),
            'constructs': sorted({'%s [%s] %s' % (o[1], o[0], o[2]) for o in ctx.obligations})[:400],
            'undetermined_list': ctx.undetermined[:50],
        },
        'wall_s': round(time.time() - t0, 3),
        'assumptions': spec.get('assumptions', []),
        'violations': [{'rule': f.rule, 'construct': f.construct, 'where': f.where, 'text': f.text} for f in viol],
    }
    path = os.path.join(ev_dir, prop + '.json')
    with open(path, 'w') as fh:
        json.dump(ev, fh, indent=1)
    for u in ctx.undetermined:
        print('undetermined: ' + u)
    rep = os.path.join(ev_dir, prop + '.report.txt')
    if viol:
        with open(rep, 'w') as fh:
            for f in viol:
                fh.write('%s: rule "%s" on %s: %s\n' % (f.where or '-', f.rule, f.construct, f.text))
        for f in viol:
            print('%s: rule "%s" on %s: %s' % (f.where or '-', f.rule, f.construct, f.text))
            print('VIOLATION property=%s replay=%s' % (prop, rep))
    elif os.path.exists(rep):
        os.remove(rep)
    print('%s: %d obligations, %d hold, %d undetermined, %d known, %d violated, %.1fs' % (
        prop, n, held, len(ctx.undetermined), len(ctx.known), len(viol), time.time() - t0))
    return 1 if viol else 0


if __name__ == '__main__':
    sys.exit(main())
