#!/usr/local/bin/python3-vt
"""Sensitivity and quietness of a check, on scratch copies of the tree.

mutate.py break PROPERTY FILE [FUNCTION-REGEX [MAX]]    changes behaviour: lists the changes the check does not report
mutate.py keep  PROPERTY FILE [FUNCTION-REGEX [MAX]]    rewrites that keep behaviour: lists the ones the check reports
"""
import ast
import copy
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('METCALCPY_BASE', '/repo')
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is,
       ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult, ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd}
CALLS = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'nansum': 'sum', 'sum': 'mean', 'mean': 'sum', 'nanmean': 'mean', 'isnan': 'isfinite', 'append': 'extend',
         'floor': 'ceil', 'ceil': 'floor', 'sin': 'cos', 'cos': 'sin', 'logical_and': 'logical_or', 'logical_or': 'logical_and', 'zeros': 'ones', 'upper': 'lower', 'lower': 'upper'}


def functions(tree, rx):
    def walk(node, at):
        for n in ast.iter_child_nodes(node):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                name = at + n.name
                if isinstance(n, ast.FunctionDef) and re.search(rx, name):
                    yield name, n
                yield from walk(n, name + '.')
    return walk(tree, '')


def logging_call(n):
    t = ast.unparse(n)
    return re.match(r'(logging|logger|self\.logger|print|safe_log)\b', t) is not None


def breaks(tree, rx):
    """(function, line, what, edit) for every single change."""
    for name, fn in functions(tree, rx):
        skip = set()
        for n in ast.walk(fn):
            if isinstance(n, ast.Raise) or isinstance(n, ast.Expr) and (isinstance(n.value, ast.Constant) or logging_call(n.value)):
                skip |= {id(x) for x in ast.walk(n)}
            if isinstance(n, ast.FunctionDef):
                for d in n.decorator_list + ([n.returns] if n.returns else []) + [a.annotation for a in n.args.args if a.annotation]:
                    skip |= {id(x) for x in ast.walk(d)}
        for n in ast.walk(fn):
            if id(n) in skip:
                continue
            if isinstance(n, ast.Compare):
                for i, o in enumerate(n.ops):
                    if type(o) in CMP:
                        yield name, n.lineno, 'comparison in ' + ast.unparse(n), (n, 'ops', i, CMP[type(o)]())
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                yield name, n.lineno, 'operator of ' + ast.unparse(n), (n, 'op', None, BIN[type(n.op)]())
                if isinstance(n.op, (ast.Sub, ast.Div)):
                    yield name, n.lineno, 'operands of ' + ast.unparse(n), (n, 'swap', None, None)
            elif isinstance(n, ast.BoolOp):
                yield name, n.lineno, 'and/or of ' + ast.unparse(n), (n, 'op', None, ast.Or() if isinstance(n.op, ast.And) else ast.And())
                for i in range(len(n.values)):
                    yield name, n.lineno, 'operand %d dropped of %s' % (i, ast.unparse(n)), (n, 'values', i, None)
            elif isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not Ellipsis:
                new = (not n.value) if isinstance(n.value, bool) else n.value + 1
                yield name, n.lineno, 'constant %r' % n.value, (n, 'value', None, new)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value:
                yield name, n.lineno, 'string %r' % n.value, (n, 'value', None, n.value + 'x')
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not, ast.Invert)):
                yield name, n.lineno, 'unary dropped of ' + ast.unparse(n), (n, 'op', None, ast.UAdd() if isinstance(n.op, ast.USub) else None)
            elif isinstance(n, ast.Call):
                f = n.func
                nm = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ''
                if nm in CALLS:
                    yield name, n.lineno, '%s for %s in %s' % (CALLS[nm], nm, ast.unparse(n)), (f, 'attr' if isinstance(f, ast.Attribute) else 'id', None, CALLS[nm])
                if len(n.args) >= 2 and ast.unparse(n.args[0]) != ast.unparse(n.args[1]):
                    yield name, n.lineno, 'first two arguments of ' + ast.unparse(n), (n, 'args2', None, None)
                for i, k in enumerate(n.keywords):
                    if k.arg:
                        yield name, n.lineno, 'keyword %s dropped of %s' % (k.arg, ast.unparse(n)), (n, 'keywords', i, None)
            for field in ('body', 'orelse', 'finalbody'):
                body = getattr(n, field, None)
                if isinstance(body, list):
                    for i, s in enumerate(body):
                        if id(s) in skip or not isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For, ast.Continue, ast.Break, ast.Delete)):
                            continue
                        yield name, s.lineno, 'statement dropped: ' + ast.unparse(s).split('\n')[0], (n, 'drop:' + field, i, None)


def apply(edit):
    n, what, i, new = edit
    if what == 'ops':
        n.ops[i] = new
    elif what == 'swap':
        n.left, n.right = n.right, n.left
    elif what == 'values':
        del n.values[i]
        if len(n.values) == 1:
            n.values.append(n.values[0])
    elif what == 'args2':
        n.args[0], n.args[1] = n.args[1], n.args[0]
    elif what == 'keywords':
        del n.keywords[i]
    elif what.startswith('drop:'):
        body = getattr(n, what[5:])
        body[i] = ast.copy_location(ast.Pass(), body[i])
    elif what == 'op' and new is None:
        n.op = ast.UAdd() if isinstance(n.op, ast.Invert) else ast.Not()
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(op=ast.Not(), operand=n.operand)
    else:
        setattr(n, what, new)


class Rename(ast.NodeTransformer):
    def __init__(self, names):
        self.names = names

    def visit_Name(self, n):
        n.id = self.names.get(n.id, n.id)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        n.name = self.names.get(n.name, n.name)
        return n


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant))


def pure(e):
    return not any(isinstance(x, (ast.Call, ast.Yield, ast.Await, ast.NamedExpr, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp)) for x in ast.walk(e))


def keeps(tree, rx):
    """(function, line, what, thunk) for every single rewrite that keeps behaviour."""
    for name, fn in functions(tree, rx):
        params = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs} | {a.arg for a in (fn.args.vararg, fn.args.kwarg) if a}
        locs = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - params
        glob = {g for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for g in x.names}
        inner = [x for x in ast.walk(fn) if isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn]
        if locs - glob and not inner:
            def ren(fn=fn, locs=locs - glob):
                Rename({x: x + '_renamed' for x in locs}).visit(fn)
            yield name, fn.lineno, 'locals renamed', ren
        for n in ast.walk(fn):
            if isinstance(n, ast.If) and n.orelse and not (len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
                def inv(n=n):
                    n.test = ast.UnaryOp(op=ast.Not(), operand=n.test)
                    n.body, n.orelse = n.orelse, n.body
                yield name, n.lineno, 'branches exchanged: ' + ast.unparse(n.test), inv
            if isinstance(n, ast.If) and not n.orelse and isinstance(n.test, ast.BoolOp) and isinstance(n.test.op, ast.And):
                def nest(n=n):
                    first, rest = n.test.values[0], n.test.values[1:]
                    t = rest[0] if len(rest) == 1 else ast.BoolOp(op=ast.And(), values=rest)
                    n.test, n.body = first, [ast.If(test=t, body=n.body, orelse=[])]
                yield name, n.lineno, 'condition nested: ' + ast.unparse(n.test), nest
            if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in (ast.Lt, ast.Gt, ast.LtE, ast.GtE, ast.Eq, ast.NotEq):
                def flip(n=n):
                    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
                    n.left, n.comparators[0] = n.comparators[0], n.left
                    n.ops[0] = m.get(type(n.ops[0]), type(n.ops[0]))()
                yield name, n.lineno, 'comparison turned: ' + ast.unparse(n), flip
            for field in ('body', 'orelse'):
                body = getattr(n, field, None)
                if not isinstance(body, list):
                    continue
                for i, s in enumerate(body):
                    if isinstance(s, ast.Return) and s.value is not None and not simple(s.value):
                        def tmp(body=body, i=i, s=s):
                            body[i:i + 1] = [ast.Assign(targets=[ast.Name('outcome_', ast.Store())], value=s.value), ast.Return(value=ast.Name('outcome_', ast.Load()))]
                        yield name, s.lineno, 'result through a variable', tmp
                    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.BinOp) and not simple(s.value.left):
                        def tmp2(body=body, i=i, s=s):
                            v = s.value.left
                            s.value.left = ast.Name('part_', ast.Load())
                            body.insert(i, ast.Assign(targets=[ast.Name('part_', ast.Store())], value=v))
                        yield name, s.lineno, 'left operand through a variable: ' + ast.unparse(s).split('\n')[0], tmp2
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and len(s.targets) == 1:
                        def ifx(body=body, i=i, s=s):
                            body[i] = ast.If(test=s.value.test, body=[ast.Assign(targets=s.targets, value=s.value.body)], orelse=[ast.Assign(targets=s.targets, value=s.value.orelse)])
                        yield name, s.lineno, 'conditional expression as statement', ifx
                    if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                        def loop(body=body, i=i, s=s):
                            g = s.value.generators[0]
                            own = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                            for part in [g.target, s.value.elt] + g.ifs:
                                for n in ast.walk(part):
                                    if isinstance(n, ast.Name) and n.id in own:
                                        n.id = n.id + '_each'
                            inner = [ast.Expr(ast.Call(func=ast.Attribute(ast.Name('gathered_', ast.Load()), 'append', ast.Load()), args=[s.value.elt], keywords=[]))]
                            for c in reversed(g.ifs):
                                inner = [ast.If(test=c, body=inner, orelse=[])]
                            body[i:i + 1] = [ast.Assign(targets=[ast.Name('gathered_', ast.Store())], value=ast.List([], ast.Load())),
                                             ast.For(target=g.target, iter=g.iter, body=inner, orelse=[]),
                                             ast.Assign(targets=s.targets, value=ast.Name('gathered_', ast.Load()))]
                        yield name, s.lineno, 'comprehension as loop: ' + ast.unparse(s).split('\n')[0], loop
                    if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, (ast.Constant, ast.Name, ast.Call)) and False:
                        pass
                    if i + 1 < len(body) and isinstance(s, ast.Assign) and isinstance(body[i + 1], ast.Assign) and all(
                            isinstance(t, ast.Name) for t in s.targets + body[i + 1].targets) and pure(s.value) and pure(body[i + 1].value):
                        a, b = s, body[i + 1]
                        ta, tb = {t.id for t in a.targets}, {t.id for t in b.targets}
                        ra, rb = ({x.id for x in ast.walk(y.value) if isinstance(x, ast.Name)} for y in (a, b))
                        if not (ta & rb or tb & ra or ta & tb):
                            def swap(body=body, i=i):
                                body[i], body[i + 1] = body[i + 1], body[i]
                            yield name, s.lineno, 'statements exchanged: ' + ast.unparse(s).split('\n')[0], swap
        # a helper taking the tail of the function
        body = fn.body
        if len(body) >= 4 and not inner and not glob and not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fn)):
            for cut in {len(body) // 2, len(body) - 2}:
                tail = body[cut:]
                if not any(isinstance(x, ast.Return) for s in tail for x in ast.walk(s)):
                    continue
                used = {x.id for s in tail for x in ast.walk(s) if isinstance(x, ast.Name)}
                sure = {a for a in params}
                for s in body[:cut]:
                    if isinstance(s, ast.Assign):
                        sure |= {x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                known = params | {x.id for s in body[:cut] for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                give = sorted(used & known)
                if set(give) - sure:
                    continue

                def helper(fn=fn, cut=cut, give=give, tree=tree):
                    tail = fn.body[cut:]
                    h = ast.FunctionDef(name='_tail_of_' + fn.name, args=ast.arguments(posonlyargs=[], args=[ast.arg(a) for a in give], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                        body=tail, decorator_list=[])
                    fn.body[cut:] = [ast.Return(ast.Call(func=ast.Name(h.name, ast.Load()), args=[ast.Name(a, ast.Load()) for a in give], keywords=[]))]
                    at = [i for i, s in enumerate(tree.body) if any(x is fn for x in ast.walk(s))][0]
                    tree.body.insert(at, h)
                yield name, fn.lineno, 'tail from statement %d as helper' % cut, helper


def main():
    mode, prop, path = sys.argv[1:4]
    rx = sys.argv[4] if len(sys.argv) > 4 else '.'
    most = int(sys.argv[5]) if len(sys.argv) > 5 else 200
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    gen = breaks if mode == 'break' else keeps
    todo = [(k, n, line, what) for k, (n, line, what, _) in enumerate(gen(tree, rx))]
    random.Random(1).shuffle(todo)
    todo = todo[:most]

    def one(job):
        k, n, line, what = job
        t = ast.parse(src)
        for j, (_, _, _, edit) in enumerate(gen(t, rx)):
            if j == k:
                apply(edit) if mode == 'break' else edit()
                break
        ast.fix_missing_locations(t)
        try:
            text = ast.unparse(t)
            ast.parse(text)
        except Exception:
            return None
        d = tempfile.mkdtemp(prefix='mutate-')
        try:
            shutil.copytree(os.path.join(REPO, 'metcalcpy'), os.path.join(d, 'metcalcpy'), ignore=shutil.ignore_patterns('*.pyc', '__pycache__', '*.nc', '*.ipynb', '*.md'))
            with open(os.path.join(d, path), 'w') as fh:
                fh.write(text)
            env = dict(os.environ, METCALCPY_SRC=d, METCALCPY_EVIDENCE=os.path.join(d, 'evidence'))
            env.setdefault('VERIF_LANES', '512')
            try:
                r = subprocess.run([sys.executable, os.path.join(VERIF, 'check.py'), prop, 'quick'], env=env, capture_output=True, text=True, timeout=600)
                return r.returncode, r.stdout
            except subprocess.TimeoutExpired:
                return 124, 'timeout'
        finally:
            shutil.rmtree(d, ignore_errors=True)
    count = {}
    with ThreadPoolExecutor(int(os.environ.get('JOBS', '7'))) as ex:
        for job, r in zip(todo, ex.map(one, todo)):
            if r is None:
                continue
            code, out = r
            count[code] = count.get(code, 0) + 1
            bad = code not in (0, 1) or (code == 0) == (mode == 'break')
            und = [x for x in out.splitlines() if x.startswith('undetermined')]
            if bad:
                print('%s %s:%d %s | %s%s' % ({0: 'MISSED', 1: 'ALARM'}.get(code, 'ERROR %d' % code), path, job[2], job[1], job[3], ' [%d undetermined]' % len(und) if und else ''))
                if mode == 'keep' and code == 1:
                    print('    ' + [x for x in out.splitlines() if 'rule "' in x][0][:400])
            sys.stdout.flush()
    print('mutants by exit code:', count)


if __name__ == '__main__':
    main()
