"""Shared pieces of the property checks: context, findings, summaries of the package's primitives."""
import ast
import json
import os
import time
import numpy as np
from analyzer.repo import Repo
from analyzer.pair import Param, check_pair
from analyzer.values import hash_fp, NONE_FP

REPO = os.environ.get('METCALCPY_SRC', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Finding:
    def __init__(self, rule, construct, where, text):
        self.rule = rule
        self.construct = construct
        self.where = where
        self.text = text

    @property
    def key(self):
        return '%s|%s' % (self.rule, self.construct)


class Ctx:
    """What one property's check analysed and found."""

    def __init__(self, prop):
        self.prop = prop
        self.repo = Repo({'metcalcpy': os.path.join(REPO, 'metcalcpy'), 'specs': os.path.join(VERIF, 'specs')})
        self.findings = []
        self.known = []
        self.obligations = []       # (rule, construct, status)
        self.undetermined = []
        self.functions = set()
        self.sites = 0
        self.lanes = 0
        self.steps = 0
        self.only = None
        self.t0 = time.time()

    def spec_functions(self, mod, prefix='calculate_', extra=()):
        """Names of the reference definitions of a spec module with their arity."""
        tree = ast.parse(open(os.path.join(VERIF, 'specs', mod + '.py')).read())
        out = []
        for n in tree.body:
            if isinstance(n, ast.FunctionDef) and (n.name.startswith(prefix) or n.name in extra):
                out.append((n.name, len(n.args.args)))
        return out

    def find(self, rule, construct, where, text):
        self.findings.append(Finding(rule, construct, where, text))
        self.obligations.append((rule, construct, 'violated'))

    def ok(self, rule, construct):
        self.obligations.append((rule, construct, 'holds'))

    def undet(self, rule, construct, text):
        self.undetermined.append('%s %s: %s' % (rule, construct, text[:300]))
        self.obligations.append((rule, construct, 'undetermined'))

    def pair(self, rule, impl, spec, params, known=None, construct=None, soft=None, at=None, model=None, **kw):
        """One obligation: the function equals its reference definition. model: laws of library functions. soft names helpers kept as calls together with their own reference
        definitions, which other obligations compare."""
        construct = construct or (impl if isinstance(impl, str) else spec)
        again = kw.get('hooks') or soft
        plain = dict(kw, hooks=model)
        if model:
            kw['hooks'] = dict(kw.get('hooks') or {}, **model)
        if soft:
            op = kw.get('opaque', ())
            op = dict(op) if isinstance(op, dict) else {k: None for k in op}
            for name, own in soft.items():
                op[name] = own
                op[spec.rsplit('.', 1)[0] + '.' + own] = own
            kw['opaque'] = op
        try:
            r = check_pair(self.repo, impl, spec, params, only=self.only, **kw)
            if r.status in ('differs', 'undetermined') and again:
                # the summaries of shared helpers hide their bodies: look again with the helpers themselves
                r2 = check_pair(self.repo, impl, spec, params, only=self.only, **plain)
                if r2.status == 'ok' and r2.live * 64 >= r.live:
                    r = r2
        except Exception as ex:         # an engine limit is never an alarm
            if os.environ.get('VERIF_DEBUG'):
                raise
            self.undet(rule, construct, 'analysis failed: %s: %s' % (type(ex).__name__, ex))
            return None
        self.lanes += r.lanes
        self.steps += r.steps
        if os.environ.get('VERIF_LIVE'):
            print('live', r.live, r.lanes, construct)
        self.functions.update(r.inlined)
        if isinstance(impl, str):
            self.functions.add(impl)
        if r.status == 'ok':
            self.ok(rule, construct)
        elif r.status == 'undetermined':
            self.undet(rule, construct, r.detail)
        elif r.status == 'vanished':
            self.find(rule, construct, '', 'the function is no longer defined')
        else:
            if known:
                k = check_pair(self.repo, impl, known, params, **kw)
                if k.status == 'ok':
                    self.known.append('%s|%s' % (rule, construct))
                    self.obligations.append((rule, construct, 'known'))
                    return r
            self.find(rule, construct, self.where(at) if at else r.where, r.detail)
        return r

    def where(self, dotted):
        """Definition site of a function."""
        from analyzer.engine import Registry
        from analyzer.interp import Interp
        from analyzer.pair import resolve
        v = resolve(Interp(self.repo, Registry()), dotted)
        return v.pay.where if v is not None else dotted


# ---------------------------------------------------------------- summaries used at call sites
def _rhu(e, f, args, kw, node):
    names = ['num', 'decimals']
    vals = dict(zip(names, args))
    vals.update(kw)
    x = e.val(vals['num'])
    d = e.val(vals['decimals']) if 'decimals' in vals else e.const(0)
    if x.ty == 'ite':
        return e.dist(x, lambda y: _rhu(e, f, [y, d], {}, node))
    if x.c is not None and x.c[0] is None:
        return x
    e.undefined(x)
    r = e.op('f:round_half_up', [x, d], 'num', sc=True)
    r.np = 'py'
    if x.fp is not None and x.ty == 'unk':
        return e.ite(x.fp == np.uint64(NONE_FP), e.NONE, r)
    return r


def _scd(e, f, args, kw, node):
    names = ['input_data', 'columns', 'column_name', 'rm_none']
    vals = dict(zip(names, args))
    vals.update(kw)
    vals.setdefault('rm_none', e.TRUE)
    a = [e.val(vals[n]) for n in names]
    for j, x in enumerate(a):
        if x.ty == 'ite':
            return e.dist(x, lambda y: _scd(e, f, a[:j] + [y] + a[j + 1:], {}, node))
    fp = hash_fp('f:scd', [e.A(x) for x in a])
    e.reg.consts.setdefault(e.ident(fp), set()).add(NONE_FP)
    r = e.op('f:scd', a, 'unk', sc=True)
    r.np = 'np'
    return r


def stat_hooks():
    """Rounding and column sums are summarised by name; C19 decides their own definitions."""
    return {'round_half_up': _rhu, 'sum_column_data_by_name': _scd}


STAT_PARAMS = ['data', 'cols']
AGG = Param('aggregation', kind='bool')


def stat_pairs(ctx, rule, module, spec, names=None, known=None, params=None, extra=()):
    known = known or {}
    for name, arity in ctx.spec_functions(spec, extra=extra):
        if names is not None and name not in names:
            continue
        ps = (params or {}).get(name)
        if ps is None:
            ps = list(STAT_PARAMS) + ([AGG] if arity > 2 else [])
        ctx.pair(rule, 'metcalcpy.util.%s.%s' % (module, name), 'specs.%s.%s' % (spec, name), ps, hooks=stat_hooks(), wrap=True,
                 known=known.get(name))
