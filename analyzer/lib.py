"""Canonical names and laws of the builtins, numpy, math, statistics and pandas operations."""
import copy
import math
import re
import string
from fractions import Fraction
import numpy as np
from .values import (P, PP, L, ALL, NONE_, ZERO, hash_fp, full, str_fp, NONE_FP, UNDEF_FP, lane_hash, const_fp, num_fp)
from .engine import V, ListC, MapC, K, I64
from .repo import Func, Cls, Module

EW1 = {'arctanh', 'arcsinh', 'arccosh', 'sin', 'cos', 'tan', 'arcsin', 'arccos', 'arctan', 'sinh', 'cosh', 'tanh', 'exp', 'log', 'log10', 'log2', 'log1p', 'sqrt',
       'floor', 'ceil', 'rint', 'abs', 'isnan', 'sign', 'conj', 'real', 'imag', 'angle', 'expm1', 'isfinite', 'isinf', 'neg', 'trunc'}
RENAME = {'asin': 'arcsin', 'acos': 'arccos', 'atan': 'arctan', 'atan2': 'arctan2', 'fabs': 'abs', 'absolute': 'abs', 'conjugate': 'conj',
          'negative': 'neg', 'isnull': 'isnan', 'isna': 'isnan', 'around': 'round', 'round_': 'round', 'amin': 'min', 'amax': 'max',
          'true_divide': 'divide', 'in1d': 'isin', 'product': 'prod', 'bitwise_and': 'logical_and', 'bitwise_or': 'logical_or'}
BIN2 = {'add': 'add', 'subtract': 'sub', 'multiply': 'mul', 'divide': 'div', 'power': 'pow', 'mod': 'mod', 'remainder': 'mod',
        'floor_divide': 'floordiv', 'sub': 'sub', 'mul': 'mul', 'div': 'div', 'truediv': 'div', 'pow': 'pow', 'float_power': 'pow'}
CMPF = {'greater': 'gt', 'greater_equal': 'ge', 'less': 'lt', 'less_equal': 'le', 'equal': 'eq', 'not_equal': 'ne',
        'gt': 'gt', 'ge': 'ge', 'lt': 'lt', 'le': 'le', 'eq': 'eq', 'ne': 'ne'}
ALIAS = {'numpy.math': 'math', 'numpy.float': 'numpy.float', 'scipy.special.comb': 'math.comb', 'numpy.round_': 'numpy.round', 'os.unlink': 'os.remove'}
SIGS = {
    'percentile': ['a', 'q', 'axis'], 'quantile': ['a', 'q', 'axis'], 'nanpercentile': ['a', 'q', 'axis'], 'nanquantile': ['a', 'q', 'axis'],
    'linspace': ['start', 'stop', 'num'], 'std': ['a', 'axis'], 'var': ['a', 'axis'], 'nanstd': ['a', 'axis'], 'nanvar': ['a', 'axis'],
    'numpy.random.choice': ['a', 'size', 'replace', 'p'], 'numpy.random.randint': ['low', 'high', 'size'], 'numpy.random.seed': ['seed'],
    'pandas.DataFrame': ['data', 'index', 'columns'], 'pandas.concat': ['objs', 'axis'], 'pandas.merge': ['left', 'right', 'how', 'on'],
    'pandas.read_csv': ['filepath_or_buffer', 'sep', 'delimiter', 'header'], 'm:groupby': ['by', 'axis'],
    'm:sort_values': ['by', 'axis', 'ascending'], 'm:to_csv': ['path_or_buf', 'sep', 'na_rep', 'float_format', 'columns', 'header', 'index', 'index_label', 'mode', 'encoding'],
    'm:merge': ['right', 'how', 'on'], 'm:drop': ['labels', 'axis'], 'm:astype': ['dtype'], 'm:fillna': ['value'], 'm:replace': ['to_replace', 'value'],
    'm:isin': ['values'], 'm:apply': ['func', 'axis'], 'm:reset_index': ['level', 'drop'], 'm:drop_duplicates': ['subset', 'keep'],
    'm:dropna': ['axis', 'how'], 'concatenate': ['arrays', 'axis'], 'm:reshape': None, 'append': ['arr', 'values', 'axis'],
    'delete': ['arr', 'obj', 'axis'], 'stack': ['arrays', 'axis'], 'diff': ['a', 'n', 'axis'], 'interp': ['x', 'xp', 'fp', 'left', 'right'],
    'zeros': ['shape', 'dtype'], 'ones': ['shape', 'dtype'], 'empty': ['shape', 'dtype'], 'full': ['shape', 'fill_value', 'dtype'],
    'argsort': ['a', 'axis'], 'cumsum': ['a', 'axis'], 'flip': ['m', 'axis'], 'repeat': ['a', 'repeats', 'axis'], 'tile': ['A', 'reps'],
    'sum': ['a', 'axis'], 'mean': ['a', 'axis'], 'nansum': ['a', 'axis'], 'nanmean': ['a', 'axis'], 'min': ['a', 'axis'], 'max': ['a', 'axis'],
    'nanmin': ['a', 'axis'], 'nanmax': ['a', 'axis'], 'median': ['a', 'axis'], 'prod': ['a', 'axis'], 'any': ['a', 'axis'], 'all': ['a', 'axis'],
    'average': ['a', 'axis', 'weights'], 'round': ['a', 'decimals'], 'take': ['a', 'indices', 'axis'], 'roll': ['a', 'shift', 'axis'],
    'trapz': ['y', 'x', 'dx'], 'argmax': ['a', 'axis'], 'argmin': ['a', 'axis'], 'squeeze': ['a', 'axis'], 'expand_dims': ['a', 'axis'],
    'swapaxes': ['a', 'axis1', 'axis2'], 'clip': ['a', 'a_min', 'a_max'], 'isin': ['element', 'test_elements'], 'searchsorted': ['a', 'v', 'side'],
    'unique': ['ar'], 'nanmedian': ['a', 'axis'], 'outer': ['a', 'b'], 'dot': ['a', 'b'], 'matmul': ['a', 'b'], 'histogram': ['a', 'bins'],
    'polyfit': ['x', 'y', 'deg'], 'm:split': ['sep', 'maxsplit'], 'm:strftime': ['format'], 'pandas.Series': ['data', 'index'],
    'pandas.to_datetime': ['arg'], 'm:transpose': None, 'yaml.load': ['stream', 'Loader'], 'os.path.join': None, 'os.makedirs': ['name', 'mode', 'exist_ok'],
}
DEFAULTS = {'axis': {'sum': None, 'mean': None}, 'replace': {'numpy.random.choice': True}, 'ignore_index': {'*': False}, 'keepdims': {'*': False},
            'copy': {'*': None}, 'dtype': {'zeros': None, 'ones': None, 'full': None, 'empty': None}, 'ascending': {'*': True}, 'reverse': {'*': False},
            'how': {'m:merge': 'inner'}, 'side': {'searchsorted': 'left'}, 'dropna': {'*': True}, 'sort': {'*': None}}
METHOD_AS_FN = {'sum', 'mean', 'min', 'max', 'round', 'cumsum', 'any', 'all', 'abs', 'dot', 'argsort', 'flatten', 'ravel', 'prod', 'median', 'clip',
                'argmax', 'argmin', 'squeeze', 'isnull', 'isna', 'notnull', 'notna', 'conj', 'conjugate', 'quantile', 'unique', 'take', 'repeat',
                'swapaxes', 'isin', 'searchsorted', 'nonzero', 'diff', 'add', 'sub', 'mul', 'div', 'truediv', 'pow', 'gt', 'ge', 'lt', 'le', 'eq', 'ne',
                'cumprod', 'trace'}
REDUCE = {'sum', 'nansum', 'mean', 'nanmean', 'min', 'max', 'nanmin', 'nanmax', 'median', 'nanmedian', 'prod', 'any', 'all', 'std', 'var', 'nanstd',
          'nanvar', 'argmax', 'argmin', 'average'}
EFFECTS = {'numpy.random.seed', 'numpy.random.choice', 'numpy.random.randint', 'numpy.random.default_rng', 'numpy.random.RandomState', 'random.seed',
           'os.remove', 'os.unlink', 'shutil.rmtree', 'os.rmdir', 'os.removedirs', 'os.rename', 'shutil.move', 'shutil.copy', 'shutil.copyfile', 'os.system',
           'subprocess.run', 'subprocess.call', 'subprocess.Popen', 'subprocess.check_call', 'subprocess.check_output', 'cv2.imwrite', 'cv2.rectangle', 'cv2.imshow', 'cv2.waitKey', 'sys.exit', 'builtins.exit', 'builtins.quit', 'yaml.dump', 'json.dump', 'numpy.savetxt', 'numpy.save',
           'os.makedirs', 'os.mkdir', 'numpy.random.rand', 'numpy.random.randn', 'numpy.random.random', 'numpy.random.shuffle',
           'numpy.random.permutation', 'random.random', 'random.choice', 'random.choices', 'random.sample', 'random.randint', 'random.shuffle',
           'm:to_csv', 'm:to_netcdf', 'm:unlink', 'm:rmdir', 'm:write', 'm:writerow', 'm:writerows', 'm:to_json', 'm:to_excel', 'm:savefig'}
SETOPS = {'intersection': 'and', 'union': 'or', 'difference': 'sub', 'symmetric_difference': 'xor'}
# numpy functions of each element
OVERLOAD = set('''log log10 log2 exp sqrt abs absolute fabs sin cos tan arcsin arccos arctan arctan2 deg2rad rad2deg radians degrees isnan isfinite isinf
add subtract multiply divide true_divide power square maximum minimum mod negative sign logical_and logical_or logical_not greater less
greater_equal less_equal equal not_equal floor ceil rint real imag conj hypot'''.split())
IGNORED = {'builtins.print', 'numpy.set_printoptions', 'numpy.seterr', 'gc.collect', 'time.sleep', 'pandas.set_option', 'numpy.errstate'}
ATOMIC_BOOL = {'os.path.exists', 'os.path.isfile', 'os.path.isdir', 'math.isclose', 'numpy.allclose', 'numpy.isclose', 'numpy.array_equal',
               'builtins.callable', 'builtins.hasattr', 'os.access', 'pandas.isnull_', 'math.isinf', 'os.path.islink'}
NUMERIC_FNS = {'std', 'var', 'percentile', 'quantile', 'nanpercentile', 'median', 'corr', 'cov', 'interp', 'round', 'trapz', 'int'}
STR_METHODS = {'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'zfill', 'format', 'join', 'rjust', 'ljust', 'strftime', 'casefold', 'swapcase'}
PURE_SHAPE = {'flatten', 'ravel'}

CSV = {'sep': ',', 'na_rep': '', 'float_format': None, 'columns': None, 'header': True, 'index': True, 'mode': 'w', 'encoding': None}


class Lib:
    ALWAYS_MUT = {'append', 'extend', 'insert', 'update', 'pop', 'remove', 'clear', 'setdefault', 'sort', 'reverse', 'add_', 'fill', 'discard', 'popitem', 'setflags'}
    INPLACE = {'drop', 'rename', 'sort_values', 'fillna', 'replace', 'reset_index', 'set_index', 'drop_duplicates', 'dropna', 'where', 'mask', 'sort_index', 'rename_axis', 'query', 'eval'}

    def __init__(self, eng):
        from .frames import Frames
        from .grids import Grids
        self.fr = Frames(eng)
        self.gr = Grids(eng)
        self.e = eng

    def is_mutator(self, name):
        return name in self.ALWAYS_MUT or name in self.INPLACE

    # ------------------------------------------------------------ names
    def canon(self, d):
        for a, b in ALIAS.items():
            if d == a or d.startswith(a + '.'):
                d = b + d[len(a):]
        if d in ('numpy.abs', 'numpy.absolute'):
            d = 'numpy.abs'
        return d

    def ext_const(self, d):
        e = self.e
        if d in ('math.pi', 'numpy.pi', 'scipy.pi'):
            return e.const(math.pi)
        if d in ('math.e', 'numpy.e'):
            return e.const(math.e)
        if d in ('numpy.nan', 'math.nan', 'numpy.NaN', 'numpy.NAN', 'pandas.NA'):
            return e.const(float('nan'))
        if d in ('numpy.inf', 'math.inf', 'numpy.Inf'):
            return e.const(float('inf'))
        if d == 'numpy.newaxis':
            return e.const(None)
        return None

    # ------------------------------------------------------------ attributes
    def get_attr(self, o, name, node):
        e = self.e
        x = e.val(o)
        if x.ty == 'ite':
            return e.dist(x, lambda y: self.get_attr(y, name, node))
        fc = self.fr.get(x)
        if fc is not None:
            r = self.fr.attr(o, fc, name)
            if r is not None:
                return r
            return e.op('attr:' + name, [e.plain(x)])
        lc = e.listc(x)
        if name == 'parameters' and x.node is not None and x.node[0] == 'signature':
            f = x.node[1].pay
            f = f[2] if isinstance(f, tuple) and f[0] == 'bound' else f
            if isinstance(f, Func):
                a = f.node.args
                r = e.new_map()
                for q in a.posonlyargs + a.args + a.kwonlyargs + [z for z in (a.vararg, a.kwarg) if z is not None]:
                    if not (q.arg == 'self' and f is not x.node[1].pay):
                        e.map_set(r, e.const(q.arg), e.op('parameter', [e.const(q.arg)]))
                return r
            return e.op('attr:parameters', [x])
        if name in ('values', 'array', 'A'):
            row = self.row_cells(x)
            return o if row is None else row
        if name in ('shape', 'ndim', 'size', 'T') and lc is not None and lc.arr:
            r = self.gr.attr(x, name)
            if r is not None:
                return r
        if name in ('shape', 'ndim', 'size') and lc is not None and lc.arr:
            dims = self.extent(x)
            if dims is not None:
                if name == 'shape':
                    return e.new_list(dims, kind='tuple')
                if name == 'ndim':
                    return e.const(len(dims))
                r = dims[0]
                for d in dims[1:]:
                    r = e.arith('mul', r, d)
                return r
        if name == 'shape':
            if lc is not None:
                return e.new_list([e.length(x)], kind='tuple')
            return e.op('attr:shape', [e.plain(x)])
        if name == 'size' and (lc is not None or e.found_positions(x)):
            return e.length(x)
        if name == 'empty':
            return e.compare('eq', e.length(x), e.const(0))
        if name in ('real', 'imag'):
            return e.ew1(name, x)
        if name in KNOWN:
            mc = e.mapc(x)
            if mc is not None and any(k.c is not None and k.c[0] == name for _, k, _ in mc.ents):
                return e.index(o, e.const(name))
            r = e.op('attr:' + name, [e.plain(x) if x.ty == 'ref' else x])
            if name == 'index':
                r.lenof = x
            return r
        if lc is not None:
            return e.op('attr:' + name, [x])
        if x.ty in ('num', 'str', 'bool'):
            return e.op('attr:' + name, [x])
        return e.index(o, e.const(name))

    def extent(self, x):
        """Sizes of a structured array along its axes; None when its cells may be sequences nobody knows."""
        e = self.e
        lc = e.listc(e.val(x))
        cells = [e.val(c) for c in lc.cells]
        if all(e.listc(c) is None for c in cells):
            return [e.length(x)] if all(c.ty in ('num', 'bool', 'str', 'none') or c.sc for c in cells) else None
        if any(e.listc(c) is None for c in cells):
            return None
        inner = [self.extent(c) for c in cells]
        if any(i is None or len(i) != len(inner[0]) for i in inner):
            return None
        for i in inner[1:]:
            if not all(e.bits(e.compare('eq', a, b)).all() for a, b in zip(i, inner[0])):
                return None
        return [e.length(x)] + inner[0]

    # ------------------------------------------------------------ helpers
    def where3(self, m, a, b):
        """numpy.where with three arguments."""
        e = self.e
        m = e.val(m)
        if m.ty == 'ite':
            return e.dist(m, lambda x: self.where3(x, a, b))
        a, b = e.val(a), e.val(b)
        r = self.gr.map(self.where3, m, a, b)
        if r is not None:
            return r
        lm = e.listc(m)
        if lm is not None:
            return e.new_list([self.where3(c, e.idx_arg(a, j), e.idx_arg(b, j)) for j, c in enumerate(lm.cells)], n=lm.n, arr=True)
        for z in (a, b):
            lz = e.listc(z)
            if lz is not None and lz.arr:
                return e.new_list([self.where3(e.index(m, e.const(j)), e.idx_arg(a, j), e.idx_arg(b, j)) for j in range(len(lz.cells))], n=lz.n, arr=True)
        n = m.node
        if n is not None and n[0] == 'not' and m.raw is None:
            return self.where3(n[1], b, a)
        if n is not None and n[0] == 'itebool' and m.raw is None:
            return e.ite(n[3], self.where3(n[1], a, b), self.where3(n[2], a, b))
        if n is not None and n[0] == 'cmp' and m.raw is None and self.is_arrayish(m):
            # canonical orientation of the condition
            neg = (m.fp == 0).astype(np.uint64)
            if n[1] == 'ne':
                return self.where3(V(neg, 'bool', None, ('cmp', 'eq', n[2], n[3])), b, a)
            if n[1] == 'gt':
                return self.where3(V(m.fp, 'bool', None, ('cmp', 'lt', n[3], n[2])), a, b)
            if n[1] == 'ge':
                return self.where3(V(neg, 'bool', None, ('cmp', 'lt', n[2], n[3])), b, a)
            if n[1] == 'le':
                return self.where3(V(neg, 'bool', None, ('cmp', 'lt', n[3], n[2])), b, a)
        if self.is_arrayish(m):
            key = e.mfp(m)

            def under(x, k, lanes):
                """The value of x where the mask is true (k=0) or false (k=1)."""
                x = e.val(x)
                if x.node is not None and x.node[0] == 'ite':
                    m, p, q = x.node[1], x.node[2], x.node[3]
                    up, uq = under(p, k, lanes & m), under(q, k, lanes & ~m)
                    return x if up is p and uq is q else e.ite(m, up, uq)
                while x.node is not None and x.node[0] == 'where3' and ((e.mfp(x.node[1]) == key) | ~lanes).all():
                    x = e.val(x.node[2 + k])
                return x
            a, b = under(a, 0, e.active), under(b, 1, e.active)
        t = e.truth(m)
        if t.c is not None:
            return a if t.c[0] else b
        bits = t.fp != 0
        mm = e.minmax_pattern(t, e.plain(a), e.plain(b))
        if mm is not None:
            return mm
        a, b = e.plain(a), e.plain(b)
        fp = hash_fp('where3', [e.mfp(t), a.fp, b.fp]) if self.is_arrayish(m) else np.where(bits, a.fp, b.fp)
        if not self.is_arrayish(m):
            return e.ite(bits, a, b, t)
        return V(e.bias(fp), 'unk', node=('where3', t, a, b))

    def is_arrayish(self, m):
        e = self.e
        n = m.node
        if n is None or m.sc:
            return False
        if n[0] == 'cmp':
            return not all((x.c is not None or x.sc or (x.node is not None and x.node[0] == 'index' and x.node[2].ival is not None)) for x in n[2:4])
        if n[0] in ('and', 'or'):
            return self.is_arrayish(n[1]) or self.is_arrayish(n[2])
        if n[0] == 'not':
            return self.is_arrayish(n[1])
        if n[0] == 'ew':
            x = n[2][0]
            return not (x.sc or (x.node is not None and x.node[0] == 'index' and x.node[2].ival is not None))
        return True

    def minmax(self, name, *args):
        e = self.e
        flat = []
        for a in args:
            a = e.val(a)
            if a.ty == 'ite':
                rest = [x for x in args if x is not a]
                i = [k for k, x in enumerate(args) if e.val(x) is a][0]
                return e.dist(a, lambda x: self.minmax(name, *(list(args[:i]) + [x] + list(args[i + 1:]))))
            if a.node is not None and a.node[0] == 'ew' and a.node[1] == name and a.c is None:
                flat.extend(a.node[2])
            else:
                flat.append(a)
        r = self.gr.map(lambda *x: self.minmax(name, *x), *flat)
        if r is not None:
            return r
        e.none_exc(*flat)
        for a in flat:
            la = e.listc(a)
            if la is not None and la.arr:
                return e.new_list([self.minmax(name, *[e.idx_arg(x, j) for x in flat]) for j in range(len(la.cells))], n=la.n, arr=True)
        if all(a.ival is not None for a in flat):
            r = flat[0].ival
            for a in flat[1:]:
                r = np.maximum(r, a.ival) if name == 'max' else np.minimum(r, a.ival)
            return e.intv(r)
        if all(a.c is not None and isinstance(a.c[0], (int, float, Fraction)) for a in flat):
            f = max if name == 'max' else min
            return e.const(f(a.c[0] for a in flat))
        uniq = {}
        for a in flat:
            a = e.plain(a)
            uniq[a.fp.tobytes()] = a
        if len(uniq) == 1:
            return list(uniq.values())[0]
        if len(uniq) == 2:
            k = [a for a in uniq.values() if a.c is not None and isinstance(a.c[0], (int, float, Fraction))]
            x = [a for a in uniq.values() if a.c is None and a.sc]
            if len(k) == 1 and len(x) == 1:
                # clamping a scalar at a constant
                return e.ite(e.bits(e.compare('lt' if name == 'max' else 'gt', x[0], k[0])), k[0], x[0])
        if name == 'min':
            # min(a,b) = -max(-a,-b)
            tot = ZERO
            for a in uniq.values():
                tot = (tot + hash_fp('mx', [(PP - a.fp) % PP])) % PP
            fp = (PP - hash_fp('n:max', [tot])) % PP
        else:
            tot = ZERO
            for a in uniq.values():
                tot = (tot + hash_fp('mx', [a.fp])) % PP
            fp = hash_fp('n:max', [tot])
        vals = tuple(sorted(uniq.values(), key=lambda a: a.fp.tobytes()))
        return V(fp, 'num', node=('ew', name, vals), sc=all(a.sc for a in vals))

    def cells_of(self, x):
        e = self.e
        return e.materialize(x)

    def reduce(self, name, x, kw):
        """Reduction over a whole one-dimensional value."""
        e = self.e
        x = e.val(x)
        if x.ty == 'ite':
            return e.dist(x, lambda y: self.reduce(name, y, kw))
        axis = kw.get('axis')
        if axis is not None:
            a = e.val(axis)
            if a.c is None or a.c[0] is not None:
                if not (a.c is not None and a.c[0] == 0 and (e.listc(x) is not None)):
                    return None
        extra = {k: v for k, v in kw.items() if k not in ('axis', 'skipna', 'dtype')}
        if extra and not (set(extra) <= {'start', 'initial'}):
            return None
        if x.c is not None or x.sc:
            if name in ('sum', 'mean', 'min', 'max', 'median', 'prod'):
                return x
            return None
        if name in ('sum', 'nansum', 'mean', 'nanmean'):
            return self.total(name, x)
        if name in ('any', 'all'):
            cells, n = self.cells_of(x)
            r = e.FALSE if name == 'any' else e.TRUE
            for j, c in enumerate(cells):
                t = e.truth(c)
                live = n > j
                if not live.all():
                    lv = e.boolv(live, ('live',))
                    t = e.logic('and', t, lv) if name == 'any' else e.logic('or', t, e.not_(lv))
                r = e.logic('or' if name == 'any' else 'and', r, t)
            return r
        lc = e.listc(x)
        if lc is not None:
            if not lc.cells:
                return e.op(name, [x], 'num', sc=True)
            if name in ('min', 'max') and (lc.n == lc.n[0]).all() and lc.n[0] > 0:
                return self.minmax(name, *lc.cells[:int(lc.n[0])])
            if name == 'prod':
                r = e.const(1)
                for j, c in enumerate(lc.cells):
                    live = lc.n > j
                    r = e.ite(live, e.arith('mul', r, c), r) if not live.all() else e.arith('mul', r, c)
                return r
        return e.op(name, [x], 'num', sc=True)

    def total(self, name, x):
        e = self.e
        lc = e.listc(x)
        n = x.node
        cells, cn = None, None
        if n is not None and n[0] == 'select':
            m = n[2]
            cnt = np.minimum(e.length(n[1]).ival, K)
            cells, keep = [], []
            for j in range(int(cnt.max())):
                cells.append(e.index(n[1], e.const(j)))
                keep.append((cnt > j) & e.bits(e.truth(e.index(m, e.const(j)))))
        else:
            cells, cn = self.cells_of(x)
            keep = [cn > j for j in range(len(cells))]
        r = e.const(0)
        zero = e.const(0)
        count = np.zeros(L, dtype=I64)
        for c, k in zip(cells, keep):
            c = self.numeric(c)
            if name in ('nansum', 'nanmean'):
                nb = e.isnan(c)
                ok = k & ~e.bits(nb)
            else:
                ok = k
            count = count + ok.astype(I64)
            if not ok.any():
                continue
            s = e.arith('add', r, c)
            r = s if ok.all() else e.ite(ok, s, r)
        if name in ('mean', 'nanmean'):
            if n is not None and n[0] != 'select' and name == 'mean':
                ln = e.length(x)
            else:
                ln = e.intv(count)
            return e.arith('div', r, ln)
        if r.c is None and not r.sc:
            r = V(r.fp, r.ty, r.c, r.node, r.ival, r.pay, r.raw, r.offr, r.offp, True) if r.fp is not None else r
            if r.fp is not None:
                r.node = ('sum', x)
        return r

    def numeric(self, c):
        e = self.e
        c = e.val(c)
        if c.ty == 'bool' and c.c is None:
            return e.intv((c.fp != 0).astype(I64))
        if c.ty == 'bool':
            return e.const(int(c.c[0]))
        return c

    def kwnorm(self, name, args, kw):
        sig = SIGS.get(name)
        kw = dict(kw)
        args = list(args)
        if sig:
            for i, a in enumerate(args):
                if i < len(sig):
                    kw[sig[i]] = a
            rest = args[len(sig):]
            args = rest
        for k in list(kw):
            d = DEFAULTS.get(k)
            if d:
                want = d.get(name, d.get('*', '__no__'))
                if want != '__no__':
                    v = self.e.val(kw[k])
                    if v.c is not None and v.c[0] == want and type(v.c[0]) == type(want):
                        del kw[k]
        if name == 'm:to_csv':
            for k, want in CSV.items():
                v = self.e.val(kw[k]) if k in kw else None
                if v is None:
                    kw[k] = self.e.const(want)
                elif k in ('index', 'header') and v.c is not None and v.c[0] is None:
                    kw[k] = self.e.FALSE
        return args, kw

    def generic(self, tag, args, kw, ty='unk', sc=False):
        e = self.e
        args, kw = self.kwnorm(tag[2:] if tag.startswith('x:') else tag, args, kw)
        names = sorted(kw)
        vals = [e.val(a) for a in args] + [e.val(kw[k]) for k in names]
        return e.op(tag + ('|' + ','.join(names) if names else ''), vals, ty, sc=sc)

    def joined(self, b, args, kw):
        """Arrays of unknown contents put together along an axis: one operation, however it is spelled and nested."""
        e = self.e
        args, kw = self.kwnorm(b, args, kw)
        rest = [e.val(kw['axis'])] if 'axis' in kw else []
        if b == 'append':
            if set(kw) - {'arr', 'values', 'axis'} or not rest:
                return None
            given = [kw['arr'], kw['values']] if 'arr' in kw else args[:2]
        else:
            if set(kw) - {'arrays', 'tup', 'axis'}:
                return None
            first = e.val(kw.get('arrays', kw.get('tup', args[0] if args else None)))
            seq = e.listc(first)
            if seq is None or not seq.cells or not (seq.n == len(seq.cells)).all():
                return None
            given = seq.cells
        given = [e.val(c) for c in given]
        if any(e.listc(x) is not None or x.ty == 'ref' for x in given):
            return None
        if rest and (rest[0].c is None or not isinstance(rest[0].c[0], int)):
            return None
        axis = rest[0].c[0] if rest else 0
        if b in ('hstack', 'column_stack'):
            flat = not any(self.of_rows(x) for x in given)
            if flat and b == 'column_stack':
                return None
            axis = 0 if flat else 1
        if axis == 0 and b != 'vstack' and not any(self.of_rows(x) for x in given):
            return None
        tag = 'joined:%d' % axis
        parts = []
        for x in given:
            parts += x.node[1:] if x.node and x.node[0] == tag else [x]
        return e.op(tag, parts)

    def row_cells(self, v):
        """The values of a table row taken out as labels and values."""
        e = self.e
        mc = e.mapc(v)
        if mc is None or mc.base is not None or mc.cls or not mc.ents:
            return None
        cells, n = e.materialize(V(hash_fp('dvalues', [e.F(v)]), 'unk', node=('dvalues', v)))
        return e.new_list(list(cells), n=n, arr=True)

    def of_rows(self, x):
        """The array is known to have two axes."""
        if not x.node or not isinstance(x.node[0], str):
            return False
        if x.node[0] == 'filledshape':
            shape = self.e.listc(x.node[1])
            return shape is not None and len(shape.cells) == 2
        return x.node[0] == 'joined:1'

    # ------------------------------------------------------------ calls to externals
    def call_ext(self, d, args, kw, node):
        e = self.e
        if d in e.hooks:
            r = e.hooks[d](e, args, kw, node)
            if r is not None:
                return r
        own = [a for a in list(args) + list(kw.values()) if a.ty == 'ref' and (e.own(a, '__over__') or e.own(a, '__float__'))]
        if own:
            r = self.overloaded(d, own, args, kw, node)
            if r is not None:
                return r
        if d in IGNORED or d.startswith('logging.'):
            if d.startswith('logging.') and d.split('.')[-1] in ('getLogger',):
                return e.op('x:logger', [])
            return e.NONE
        if d in ('warnings.filterwarnings', 'warnings.simplefilter', 'warnings.resetwarnings'):
            return self.warnfilter(d, args, kw, node)
        if d == 'warnings.catch_warnings':
            return V(full(3), 'unk', node=('catch_warnings',))
        if d in EFFECTS:
            a2, k2 = self.kwnorm(d, args, kw)
            e.effect(d, a2, k2, node)
            if d in ('sys.exit', 'builtins.exit', 'builtins.quit'):
                e.raise_lanes(e.active, 'SystemExit')
                if not e.trys:
                    e.active = NONE_
                return e.NONE
            if d.endswith(('.seed', 'remove', 'unlink', 'rmtree', 'rmdir')):
                return e.NONE
            if d in ('numpy.random.choice', 'numpy.random.randint'):
                r = self.draws(d, a2, k2)
                if r is not None:
                    return r
            return self.generic('x:' + d, args, kw)
        if d in ATOMIC_BOOL:
            if d == 'builtins.hasattr':
                return e.atom('hasattr', args)
            return e.atom(d, [e.val(a) for a in args] + [e.val(kw[k]) for k in sorted(kw)])
        base = d.split('.')[-1]
        top = d.split('.')[0]
        if top == 'builtins':
            h = getattr(self, 'b_' + base, None)
            if h is not None:
                return h(args, kw, node)
            if base.endswith(('Error', 'Exception', 'Warning')):
                return e.op('x:' + base, [])
            return self.generic('x:' + base, args, kw)
        if d == 'inspect.signature':
            return e.op('signature', [args[0] if args[0].ty == 'fn' else e.val(args[0])])
        if d == 'functools.partial':
            return V(None, 'fn', pay=('partial', args[0], list(args[1:]), kw))
        if d in ('copy.copy', 'copy.deepcopy'):
            return self.copy_obj(args[0])
        if d.startswith('re.') and d.count('.') == 1 and args:
            r = self.regex(base, args, kw, node)
            if r is not None:
                return r
        if d in ('os.environ.get', 'os.getenv') and args:
            k = e.val(args[0])
            default = args[1] if len(args) > 1 else kw.get('default', e.NONE)
            env = e.ext('os.environ')
            return e.ite(e.bits(e.contains(env, k)), e.index(env, k), e.val(default))
        if d == 'scipy.stats.pearsonr' and len(args) == 2 and not kw and all(self.gr.arr(x, 1) is not None for x in args):
            r = self.gr.corrcoef(*args)
            if r is not None:
                return e.new_list([e.listc(e.listc(r).cells[0]).cells[1], e.op('pearsonp', args, 'num', sc=True)], kind='tuple')
        if d == 'scipy.signal.detrend':
            r = self.gr.detrend(args, kw)
            if r is not None:
                return r
        if d.startswith('itertools.'):
            r = self.itertools(base, args, kw)
            if r is not None:
                return r
        if d in ('numpy.vectorize',):
            return self.generic('x:numpy.vectorize', args, kw)
        if d in ('collections.OrderedDict', 'collections.defaultdict') :
            if d.endswith('OrderedDict'):
                return self.b_dict(args, kw, node)
        if top in ('numpy', 'math', 'cmath', 'statistics', 'pandas', 'scipy') or d in ('operator.add',):
            return self.numpy_call(d, RENAME.get(base, base), args, kw, node)
        return self.generic('x:' + d, args, kw)

    def overloaded(self, d, own, args, kw, node):
        """A library function of objects that say themselves how they take part in numpy functions."""
        e = self.e
        base = d.split('.')[-1]
        if d in ('builtins.float', 'builtins.int', 'builtins.abs', 'builtins.list', 'builtins.round'):
            f = e.own(args[0], '__%s__' % base)
            if f is not None:
                return e.call_func(f, [args[0]], kw, node)
            if d == 'builtins.list':
                cells, n = e.materialize(args[0])
                return e.new_list(cells, n=n)
            return None
        own = [a for a in own if e.own(a, '__over__')]
        if not d.startswith('numpy.') or not own:
            return None
        if base in OVERLOAD and d.count('.') == 1 and not kw:
            return e.call_func(e.own(own[0], '__over__'), [own[0], e.ext(d), e.new_list(list(args), kind='tuple')], {}, node)
        bare = lambda a: e.call_func(e.own(a, '__array__'), [a], {}, node) if a.ty == 'ref' and e.own(a, '__array__') else a
        return self.call_ext(d, [bare(a) for a in args], {k: bare(a) for k, a in kw.items()}, node)

    def regex(self, name, args, kw, node):
        """Regular expressions over constant text; over other text one operation of the pattern and the text."""
        e = self.e
        av = [e.val(a) for a in args]
        p = av[0]
        flags = 0
        if p.pay is not None and isinstance(p.pay, tuple) and p.pay[0] == 'regex':
            pattern, flags = p.pay[1], p.pay[2]
        elif p.c is not None and isinstance(p.c[0], str):
            pattern = p.c[0]
        else:
            return None
        k2 = dict(kw)
        given = k2.pop('flags', None)
        if name in ('compile',) and len(av) > 1:
            given = av.pop()
        if given is not None:
            given = e.val(given)
            f = getattr(re, given.pay.split('.')[-1], None) if given.ty == 'ext' and str(given.pay).startswith('re.') else given.c[0] if given.c is not None else None
            if not isinstance(f, int):
                return None
            flags |= int(f)
        try:
            rx = re.compile(pattern, flags)
        except (re.error, TypeError):
            return None
        if name == 'compile' and not k2:
            return V(full(str_fp('regex:%d:%s' % (flags, pattern))), 'regex', pay=('regex', pattern, flags), node=('sym', 'regex'))
        if name == 'escape' and len(av) == 1:
            return e.const(re.escape(pattern))
        if name not in ('findall', 'finditer', 'split', 'sub', 'search', 'match', 'fullmatch') or k2:
            return None
        text = av[2] if name == 'sub' and len(av) > 2 else av[1] if name != 'sub' and len(av) > 1 else None
        if text is None or len(av) > (3 if name == 'sub' else 2):
            return None
        if text.c is None or not isinstance(text.c[0], str):
            rest = [a if a.ty == 'fn' else e.val(a) for a in args[1:]]
            return self.generic('x:re.' + name, [e.const(pattern), e.const(flags)] + rest, {})
        text = text.c[0]
        match = lambda m: e.NONE if m is None else V(full(str_fp('match:%r:%s:%s' % (m.span(), pattern, text))), 'match', pay=('match', m), node=('sym', 'match'))
        plain = lambda x: e.new_list([plain(y) for y in x], kind='tuple' if isinstance(x, tuple) else 'list') if isinstance(x, (list, tuple)) else e.const(x)
        if name in ('findall', 'split'):
            return plain(getattr(rx, name)(text))
        if name == 'finditer':
            return e.new_list([match(m) for m in rx.finditer(text)])
        if name != 'sub':
            return match(getattr(rx, name)(text))
        repl = args[1] if args[1].ty == 'fn' else av[1]
        parts, at = [], 0
        for m in rx.finditer(text):
            if repl.ty == 'fn':
                new = e.call(repl, [match(m)], {}, node)
            elif repl.c is not None and isinstance(repl.c[0], str):
                new = e.const(m.expand(repl.c[0]))
            else:
                return None
            parts += [e.const(text[at:m.start()]), new]
            at = m.end()
        return e.concat(parts + [e.const(text[at:])])

    def match_method(self, v, name, args):
        e = self.e
        m = v.pay[1]
        av = [e.val(a) for a in args]
        if name in ('group', 'groups', 'start', 'end', 'span', 'groupdict') and all(a.c is not None for a in av):
            try:
                r = getattr(m, name)(*[a.c[0] for a in av])
            except (IndexError, TypeError):
                return None
            if isinstance(r, tuple):
                return e.new_list([e.const(x) for x in r], kind='tuple')
            if not isinstance(r, dict):
                return e.const(r)
        return None

    def along_rows(self, args, kw, node):
        """apply_along_axis over the rows of a structured table."""
        e = self.e
        got = dict(zip(['func1d', 'axis', 'arr'], args))
        got.update(kw)
        if set(got) != {'func1d', 'axis', 'arr'}:
            return None
        axis = e.val(got['axis'])
        lc = e.listc(e.val(got['arr']))
        if lc is None or axis.c not in ((1,), (-1,)) or not lc.cells or any(e.listc(e.val(c)) is None for c in lc.cells):
            return None
        if any(e.listc(e.val(x)) is not None for c in lc.cells for x in e.listc(e.val(c)).cells):
            return None
        return e.new_list([e.call(got['func1d'], [self.copy_obj(c)], {}, node) for c in lc.cells], n=lc.n, arr=True)

    def draws(self, d, args, kw):
        """An array of whole numbers below a given bound drawn independently, when the bound and the shape are known."""
        e = self.e
        names = ['a', 'size'] if d.endswith('choice') else ['low', 'high', 'size']
        got = dict(zip(names, args))
        got.update(kw)
        if set(got) - set(names) or 'size' not in got:
            return None
        got = {k: e.val(v) for k, v in got.items()}
        top = got.get('a', got.get('high'))
        if top is None or top.c is None or not isinstance(top.c[0], int) or top.c[0] < 1 or ('low' in got and got['low'].c != (0,)):
            return None
        lc = e.listc(got['size'])
        dims = [e.val(c).c for c in lc.cells] if lc is not None else [got['size'].c]
        if any(x is None or not isinstance(x[0], int) or x[0] > 12 for x in dims):
            return None
        dims = [x[0] for x in dims]
        n = top.c[0]

        def make(prefix, rest):
            if not rest:
                return e.intv((lane_hash('draw%s' % (tuple(dims),), [full(n), full(str_fp(str(prefix)))]) % np.uint64(n)).astype(I64))
            return e.new_list([make(prefix + (j,), rest[1:]) for j in range(rest[0])], arr=True)
        return make((), dims)

    def warnfilter(self, d, args, kw, node):
        e = self.e
        act = e.val(args[0]) if args else e.val(kw['action']) if 'action' in kw else None
        name = act.c[0] if act is not None and act.c is not None else None
        specific = len(args) > 1 or any(k in kw for k in ('category', 'module', 'message'))
        e.exit_warn.append((d, name, specific, e.active.copy(), (e.fr.module.path, getattr(node, 'lineno', 0))))
        if specific:
            return e.NONE
        if name == 'error':
            e.warn_err = e.warn_err | e.active
        else:
            e.warn_err = e.warn_err & ~e.active
        return e.NONE

    def linspace(self, args, kw):
        """Evenly spaced numbers: a known number of them, ends known or not."""
        e = self.e
        given = dict(zip(['start', 'stop', 'num', 'endpoint'], args))
        given.update(kw)
        if not {'start', 'stop'} <= set(given) <= {'start', 'stop', 'num', 'endpoint'}:
            return None
        lo, hi = e.val(given['start']), e.val(given['stop'])
        num = e.val(given['num']).c if 'num' in given else (50,)
        end = e.val(given['endpoint']).c if 'endpoint' in given else (True,)
        if num is None or end is None or type(num[0]) is not int or not 0 <= num[0] <= 512 or lo.ty == 'ref' or hi.ty == 'ref':
            return None
        if lo.c is not None and hi.c is not None:
            try:
                return e.new_list([e.const(x.item()) for x in np.linspace(lo.c[0], hi.c[0], num[0], endpoint=bool(end[0]))], arr=True)
            except (TypeError, ValueError):
                return None
        parts = num[0] - 1 if end[0] else num[0]
        cells = [lo if i == 0 else hi if i == parts else
                 e.arith('add', lo, e.arith('div', e.arith('mul', e.const(i), e.arith('sub', hi, lo)), e.const(parts))) for i in range(num[0])]
        return e.new_list(cells, arr=True)

    def argbest(self, b, args, kw):
        """The first position of the largest or smallest cell."""
        e = self.e
        lc = e.listc(e.val(args[0])) if len(args) == 1 and not kw else None
        if lc is None or not lc.arr or not lc.cells or not (lc.n == len(lc.cells)).all() or any(e.val(c).ty != 'num' for c in lc.cells):
            return None
        best, at = lc.cells[0], np.zeros(L, dtype=I64)
        for j, c in enumerate(lc.cells[1:], 1):
            more = e.compare('gt' if b == 'argmax' else 'lt', c, best)
            m = e.bits(more)
            best, at = e.ite(m, c, best, more), np.where(m, j, at)
        return e.const(int(at[0])) if (at == at[0]).all() else e.intv(at)

    def lexsort(self, v):
        """The order of rows by known keys, the last key first; or None."""
        e = self.e
        lc = e.listc(e.val(v))
        keys = [e.listc(e.val(c)) for c in lc.cells] if lc is not None and (lc.n == len(lc.cells)).all() else [None]
        if not keys or not all(k is not None and (k.n == len(k.cells)).all() and self.known(k) for k in keys) or len({len(k.cells) for k in keys}) != 1:
            return None
        cols = [[e.val(c).c[0] for c in k.cells] for k in reversed(keys)]
        try:
            order = sorted(range(len(cols[0])), key=lambda i: tuple(c[i] for c in cols))
        except TypeError:
            return None
        return e.new_list([e.const(i) for i in order], arr=True)

    def argsort(self, args, kw):
        """The order of settled numbers that all differ."""
        e = self.e
        lc = e.listc(e.val(args[0])) if len(args) == 1 and not kw else None
        if lc is None or not lc.arr or not lc.cells or not (lc.n == len(lc.cells)).all():
            return None
        xs = [e.settled(e.val(c)) if e.val(c).ty == 'num' else None for c in lc.cells]
        if any(x is None or not (x == x[0]).all() for x in xs):
            return None
        xs = [float(x[0]) for x in xs]
        order = sorted(range(len(xs)), key=lambda i: xs[i])
        if any(xs[b] - xs[a] <= 1e-9 * max(1, abs(xs[a])) for a, b in zip(order, order[1:])):
            return None
        return e.new_list([e.const(i) for i in order], arr=True)

    def nonzero(self, args, kw):
        """Positions of the true cells of a structured array."""
        e = self.e
        lc = e.listc(e.val(args[0])) if len(args) == 1 and not kw else None
        if lc is not None and self.gr.arr(args[0], 2) is not None:
            return self.gr.nonzero(args[0])
        if lc is None or not lc.arr or any(e.val(c).ty not in ('bool', 'num') for c in lc.cells):
            return self.generic('nonzero', args, kw)
        r = e.new_list([], n=np.zeros(L, dtype=I64), arr=True)
        for j, c in enumerate(lc.cells):
            m = (lc.n > j) & e.bits(e.truth(c))
            if m.any():
                e.list_push(r, e.const(j), m)
        return e.new_list([r], kind='tuple')

    SHAPES = {'t': ['df'], 'norm': [], 'nct': ['df', 'nc'], 'chi2': ['df'], 'f': ['dfn', 'dfd']}
    TAILS = {'cdf': 'x', 'sf': 'x', 'pdf': 'x', 'ppf': 'q', 'isf': 'q'}

    def distribution(self, d, args, kw):
        """Distribution functions: location and scale, complements and symmetry are laws, the rest is uninterpreted."""
        e = self.e
        name, fn = d.split('.')[-2:]
        names = [self.TAILS[fn]] + self.SHAPES[name] + ['loc', 'scale']
        if len(args) > len(names):
            return None
        got = dict(zip(names, args))
        if set(got) & set(kw) or set(kw) - set(names):
            return None
        got.update(kw)
        loc, scale = e.val(got.pop('loc', e.const(0))), e.val(got.pop('scale', e.const(1)))
        if set(got) != set(names[:-2]):
            return None
        x = got[names[0]]
        shapes = [got[k] for k in self.SHAPES[name]]
        plain = loc.c is not None and loc.c[0] == 0 and scale.c is not None and scale.c[0] == 1
        if fn in ('cdf', 'sf', 'pdf'):
            if not plain:
                x = e.arith('div', e.arith('sub', x, loc), scale)
            r = self.tail(name, 'pdf' if fn == 'pdf' else 'cdf', x, shapes)
            if fn == 'sf':
                return e.arith('sub', e.const(1), r)
            return e.arith('div', r, scale) if fn == 'pdf' and not plain else r
        if fn == 'isf':
            x = e.arith('sub', e.const(1), x)
        r = self.tail(name, 'ppf', x, shapes)
        return r if plain else e.arith('add', loc, e.arith('mul', scale, r))

    def tail(self, name, fn, x, shapes):
        e = self.e
        args = [e.val(x)] + [e.val(s) for s in shapes]
        for j, v in enumerate(args):
            if v.ty == 'ite':
                return e.dist(v, lambda y: self.tail(name, fn, *((y, args[1:]) if j == 0 else (args[0], args[1:j] + [y] + args[j + 1:]))))
        lists = [e.listc(v) for v in args]
        if any(x is not None for x in lists):
            n = [x for x in lists if x is not None][0].n
            m = max(len(x.cells) for x in lists if x is not None)
            return e.new_list([self.tail(name, fn, e.idx_arg(args[0], j), [e.idx_arg(v, j) for v in args[1:]]) for j in range(m)], n=n, arr=True)
        e.none_exc(*args)
        old, e.np_call = e.np_call, True
        r = e.ewn('%s.%s' % (name, fn), args)
        e.np_call = old
        if name in ('t', 'norm'):
            a = e.plain(args[0]).fp
            rest = [e.plain(v).fp for v in args[1:]]
            b = ((PP + np.uint64(1) - a) if fn == 'ppf' else (PP - a)) % PP
            h = hash_fp('n:%s.%s' % (name, fn), [np.minimum(a, b)] + rest)
            if fn == 'pdf':
                fp = h
            elif fn == 'cdf':
                fp = np.where(a == b, np.uint64(num_fp(Fraction(1, 2))), np.where(a < b, h, (PP + np.uint64(1) - h) % PP))
            else:
                fp = np.where(a == b, np.uint64(0), np.where(a < b, h, (PP - h) % PP))
            same = r.fp == hash_fp('n:%s.%s' % (name, fn), [a] + rest)
            r.fp = np.where(same, fp, r.fp)
        return r

    def numpy_call(self, d, b, args, kw, node):
        e = self.e
        top = d.split('.')[0]
        sub = d.count('.') > 1
        parts = d.split('.')
        if top == 'scipy' and len(parts) > 3 and parts[-2] in self.SHAPES and parts[-1] in self.TAILS:
            r = self.distribution(d, args, kw)
            if r is not None:
                return r
        if d.startswith(('numpy.fft.', 'scipy.fft.')) and args:
            r = self.gr.call(b, args, kw)
            if r is not None:
                return r
        if not sub:
            if top == 'numpy' and args:
                r = self.gr.call(b, args, kw)
                if r is not None:
                    return r
            if b in ('sqrt', 'log', 'log10', 'log2') and len(args) == 1 and top in ('numpy', 'math'):
                e.np_call = top == 'numpy'
                r = e.ew1(b, args[0])
                e.np_call = False
                return r
            if b == 'log' and len(args) == 2:
                return e.arith('div', e.log(args[0]), e.log(args[1]))
            if b in EW1 and len(args) == 1 and not kw:
                e.np_call = top == 'numpy'
                r = e.ew1(b, args[0])
                e.np_call = False
                return r
            if b in ('notnull', 'notna') and len(args) == 1:
                return e.not_(e.isnan(args[0]))
            if b == 'diff' and len(args) == 1 and not kw and top == 'numpy':
                lc = e.listc(e.val(args[0]))
                if lc is not None and all(e.listc(c) is None for c in lc.cells):
                    cells = [e.arith('sub', lc.cells[j + 1], lc.cells[j]) for j in range(len(lc.cells) - 1)]
                    return e.new_list(cells, n=np.maximum(lc.n - 1, 0), arr=True)
            if b == 'squeeze' and len(args) == 1 and not kw and top == 'numpy':
                lc = e.listc(e.val(args[0]))
                if lc is not None and lc.cells and (lc.n == len(lc.cells)).all() and all(e.val(c).c is not None for c in lc.cells):
                    return e.new_list(list(lc.cells), arr=True) if len(lc.cells) > 1 else lc.cells[0]
            if b == 'finfo' and args and e.val(args[0]).ty == 'ext':
                t = e.val(args[0]).pay.split('.')[-1]
                if t in ('float32', 'float64', 'float'):
                    r = e.new_map()
                    for k in ('eps', 'max', 'min', 'tiny'):
                        e.map_set(r, e.const(k), e.const(float(getattr(np.finfo(t), k))))
                    return r
            if b == 'reshape' and len(args) == 2 and not kw and top == 'numpy':
                v, sh = e.val(args[0]), e.val(args[1])
                # members of a flattened array, one by one, put back in its own shape
                if v.node is not None and v.node[0].split('|')[0] == 'interp' and sh.node is not None and sh.node[0] == 'attr:shape':
                    names = v.node[0].split('|')[1].split(',') if '|' in v.node[0] else []
                    flat = e.val(v.node[1 + names.index('x')]) if 'x' in names else None
                    if flat is not None and flat.node is not None and flat.node[0] == 'ravel' and (e.F(flat.node[1]) == e.F(sh.node[1])).all():
                        kws = {k: x for k, x in zip(names, v.node[1:])}
                        kws['x'] = flat.node[1]
                        return self.generic('interp', [], kws)
            if b == 'square':
                return e.arith('mul', args[0], args[0])
            if b in ('radians', 'deg2rad'):
                return e.arith('div', e.arith('mul', args[0], e.const(math.pi)), e.const(180))
            if b in ('degrees', 'rad2deg'):
                return e.arith('div', e.arith('mul', args[0], e.const(180)), e.const(math.pi))
            if b == 'hypot':
                return e.sqrt(e.arith('add', e.arith('mul', args[0], args[0]), e.arith('mul', args[1], args[1])))
            if b == 'arctan2':
                return self.ew2('arctan2', args[0], args[1])
            if b in ('maximum', 'minimum') and len(args) == 2 and not kw:
                return self.minmax(b[:3], *args)
            if b in ('fmax', 'fmin') and len(args) == 2:
                return self.minmax('f' + b[1:], *args) if False else self.ew2(b, args[0], args[1])
            if b in BIN2 and len(args) == 2 and not kw and top == 'numpy':
                return e.arith(BIN2[b], *[self.as_array(a, False) if e.listc(e.val(a)) is not None else a for a in args])
            if b == 'pow' and top == 'math':
                return e.arith('pow', *args)
            if b in CMPF and len(args) == 2 and not kw and top == 'numpy':
                return e.compare(CMPF[b], *args)
            if b in ('logical_and', 'logical_or') and len(args) == 2:
                return e.logic(b[8:], *args)
            if b == 'logical_not':
                return e.not_(args[0])
            if b == 'apply_along_axis' and top == 'numpy':
                r = self.along_rows(args, kw, node)
                if r is not None:
                    return r
            if b in ('asarray', 'ascontiguousarray', 'asanyarray') and top == 'numpy':
                return self.as_array(args[0], False)
            if b == 'array' and top == 'numpy':
                return self.as_array(args[0], True)
            if b in ('float64', 'float32', 'float', 'int64', 'int32', 'int') and top == 'numpy' and args:
                return self.b_float(args, kw, node) if 'float' in b else self.b_int(args, kw, node)
            if b == 'where':
                if len(args) == 3:
                    return self.where3(*args)
                return self.nonzero(args, kw)
            if b == 'nonzero':
                return self.nonzero(args, kw)
            if b in ('argmax', 'argmin'):
                got = self.argbest(b, args, kw)
                if got is not None:
                    return got
            if b == 'lexsort' and len(args) == 1 and not kw:
                got = self.lexsort(args[0])
                if got is not None:
                    return got
            if b == 'argsort':
                got = self.argsort(args, kw)
                if got is not None:
                    return got
            if b in ('zeros', 'ones', 'full', 'empty', 'zeros_like', 'ones_like', 'full_like', 'empty_like'):
                return self.fill(b, args, kw)
            if b == 'linspace' and top == 'numpy':
                r = self.linspace(args, kw)
                if r is not None:
                    return r
            if b == 'arange':
                if all(e.val(a).c is not None for a in args) and not all(e.val(a).ival is not None for a in args) and not kw:
                    try:
                        got = np.arange(*[e.val(a).c[0] for a in args])
                    except (TypeError, ValueError):
                        got = None
                    if got is not None and len(got) <= 4096:
                        return e.new_list([e.const(x.item()) for x in got], arr=True)
                if all(e.val(a).ival is not None for a in args) and not (set(kw) - {'dtype'}):
                    return self.as_array(self.b_list([self.b_range(args, {}, node)], {}, node), False)
                return self.generic('x:numpy.arange', args, kw)
            if top == 'statistics':
                if b in ('mean', 'fmean'):
                    return self.total('mean', e.val(args[0]))
                if b == 'stdev':
                    return self.spread('std', args[0], {'ddof': e.const(1)})
                if b == 'variance':
                    return self.spread('var', args[0], {'ddof': e.const(1)})
                if b == 'pstdev':
                    return self.spread('std', args[0], {})
                if b == 'pvariance':
                    return self.spread('var', args[0], {})
                if b == 'median':
                    return self.reduce('median', args[0], {})
            if b in REDUCE:
                return self.np_reduce(b, args, kw)
            if b == 'fsum':
                return self.np_reduce('sum', args, kw)
            if b == 'count_nonzero' and len(args) == 1 and not kw:
                x = e.val(args[0])
                cells, n = e.materialize(x)
                r = e.const(0)
                for j, c in enumerate(cells):
                    r = e.arith('add', r, e.intv((e.bits(e.truth(c)) & (n > j)).astype(I64)))
                return r
            if b == 'nan_to_num':
                return self.generic('nan_to_num', args, kw)
            if b == 'round' and args:
                return self.b_round(args, {('ndigits' if k == 'decimals' else k): v for k, v in kw.items()}, node)
            if b == 'sort' and top == 'numpy':
                return self.b_sorted(args, kw, node)
            if b in ('DataFrame',) and top == 'pandas':
                return self.dataframe(args, kw)
            if b == 'concat' and top == 'pandas' and args and set(kw) <= {'ignore_index'}:
                parts = e.listc(e.val(args[0]))
                if parts is not None and (parts.n == len(parts.cells)).all():
                    for j, c in enumerate(parts.cells):
                        if e.val(c).ty == 'ite':
                            return e.dist(e.val(c), lambda x: self.numpy_call(
                                d, b, [e.new_list(list(parts.cells[:j]) + [x] + list(parts.cells[j + 1:]))], kw, node))
                    r = self.fr.concat(parts.cells)
                    if r is not None:
                        if 'ignore_index' in kw and e.val(kw['ignore_index']).c == (True,):
                            r = self.fr.method(r, self.fr.get(r), 'reset_index', [], {'drop': e.TRUE}, node)
                        return r
            if b == 'concat' and top == 'pandas' and args and not kw:
                parts = e.listc(e.val(args[0]))
                if parts is not None and (parts.n == len(parts.cells)).all() and parts.cells and all(e.listc(e.val(c)) is not None for c in parts.cells):
                    r = e.new_list([], n=np.zeros(L, dtype=I64), arr=True)
                    for p in parts.cells:
                        pl = e.listc(e.val(p))
                        for j, c in enumerate(pl.cells):
                            e.list_push(r, c, pl.n > j)
                    return r
            if b == 'Series' and top == 'pandas' and len(args) == 1 and set(kw) == {'dtype'} and self.is_str_type(e.val(kw['dtype'])):
                lc = e.listc(e.val(args[0]))
                if lc is not None:
                    return self.strings(lc)
            if b == 'Series' and top == 'pandas' and len(args) == 1 and not kw:
                return self.as_array(args[0], True)
            if b in ('concatenate', 'hstack', 'vstack', 'column_stack', 'append') and top == 'numpy' and args:
                r = self.joined(b, args, kw)
                if r is not None:
                    return r
            if b in ('concatenate', 'hstack') and top == 'numpy' and len(args) == 1 and not kw:
                parts = e.listc(e.val(args[0]))
                if parts is not None and (parts.n == len(parts.cells)).all() and parts.cells and all(e.listc(e.val(c)) is not None for c in parts.cells):
                    r = e.new_list([], n=np.zeros(L, dtype=I64), arr=True)
                    for p in parts.cells:
                        pl = e.listc(e.val(p))
                        for j, c in enumerate(pl.cells):
                            e.list_push(r, c, pl.n > j)
                    return r
                return self.generic('concatenate', args, kw)
            if b == 'append' and top == 'numpy' and len(args) == 2 and not kw:
                a, c = e.listc(e.val(args[0])), e.listc(e.val(args[1]))
                if a is not None and c is not None:
                    r = e.list_concat(a, c)
                    e.listc(r).arr = True
                    return r
                return self.generic('append', args, kw)
            if b in ('intersect1d',):
                return self.generic('intersect1d', args, kw)
            if b == 'unique' and len(args) == 1 and not kw:
                return self.unique(args[0])
            if b in ('flatten', 'ravel') and len(args) == 1:
                return self.generic('ravel', args, {})
            if b in ('transpose',) and len(args) == 1:
                return self.get_attr(args[0], 'T', node)
            if b in ('isin',) and len(args) == 2 and not kw and top == 'numpy' and e.listc(e.val(args[0])) is not None and e.listc(e.val(args[0])).arr:
                r = self.isin(e.listc(e.val(args[0])), args[1])
                if r is not None:
                    return r
            if b in ('isin',) and len(args) >= 2 and top == 'numpy':
                r = self.generic('isin', args, kw)
                return r if e.listc(e.val(args[0])) is not None else e.truth(r)
            if b in ('dot', 'matmul') and len(args) == 2:
                return e.op('dot', args)
            if b in SIGS and top == 'numpy':
                ty = 'num' if b in NUMERIC_FNS else 'unk'
                sc = b in ('trapz', 'median')
                return self.generic(b, args, kw, ty, sc)
            if b in ('shape',) and len(args) == 1:
                return self.get_attr(args[0], 'shape', node)
            if b == 'ndim' and len(args) == 1:
                return self.get_attr(args[0], 'ndim', node)
            if b == 'size' and len(args) == 1:
                return self.get_attr(args[0], 'size', node)
            if b in ('copy',) and top == 'numpy':
                return self.copy_obj(args[0])
        return self.generic('x:' + d, args, kw)

    def ew2(self, name, a, b):
        e = self.e
        a, b = e.val(a), e.val(b)
        for x, y, f in ((a, b, 0), (b, a, 1)):
            if x.ty == 'ite':
                return e.dist(x, lambda z: self.ew2(name, z, b) if f == 0 else self.ew2(name, a, z))
        la, lb = e.listc(a), e.listc(b)
        r = self.gr.map(lambda x, y: self.ew2(name, x, y), a, b)
        if r is not None:
            return r
        if la is not None or lb is not None:
            n = la.n if la is not None else lb.n
            m = max(len(la.cells) if la else 0, len(lb.cells) if lb else 0)
            return e.new_list([self.ew2(name, e.idx_arg(a, j), e.idx_arg(b, j)) for j in range(m)], n=n, arr=True)
        e.none_exc(a, b)
        return e.ewn(name, [a, b])

    def as_array(self, x, copy):
        e = self.e
        v = e.val(x)
        if v.ty == 'ite':
            return v
        lc = e.listc(v)
        if lc is not None:
            if lc.arr and not copy:
                return x
            cells = list(lc.cells)
            if cells and all(e.val(c).ty == 'ref' and e.listc(e.val(c)) is not None for c in cells):
                cells = [self.as_array(c, True) for c in cells]
            return e.new_list(cells, n=lc.n, arr=True)
        if v.node is not None and v.node[0] in ('range', 'items', 'dvalues'):
            cells, n = e.materialize(v)
            return e.new_list(cells, n=n, arr=True)
        if copy:
            return self.copy_obj(x)
        return x

    def fill(self, b, args, kw):
        e = self.e
        kind = b.split('_')[0]
        like = b.endswith('_like')
        args = list(args)
        first = args[0] if args else kw.get('shape', kw.get('a'))
        if kind == 'full':
            fv = args[1] if len(args) > 1 else kw.get('fill_value')
        else:
            fv = e.const({'zeros': 0, 'ones': 1, 'empty': 0}[kind])
            if kind == 'empty':
                fv = V(full(UNDEF_FP), 'undef')
        dt = kw.get('dtype', args[2] if kind == 'full' and len(args) > 2 else args[1] if kind != 'full' and len(args) > 1 else None)
        if dt is not None and kind != 'empty' and (e.val(dt).pay in ('builtins.bool', 'numpy.bool_') or e.val(dt).c == ('bool',)) and e.val(fv).c is not None:
            fv = e.const(bool(e.val(fv).c[0]))
        x = e.val(first)
        if like:
            lx = e.listc(x)
            if lx is not None:
                a = self.gr.arr(x)
                if a is not None:
                    return self.gr.filled(e.new_list([e.const(int(n)) for n in a.shape], kind='tuple'), fv)
                return e.new_list([fv] * len(lx.cells), n=lx.n, arr=True)
            r = e.op('filled', [e.plain(x), fv])
            r.lenof = x
            return r
        if x.ival is not None:
            n = np.clip(x.ival, 0, 64)
            return e.new_list([fv] * int(n.max()), n=n, arr=True)
        lx = e.listc(x)
        if lx is not None and len(lx.cells) == 1 and (lx.n == 1).all():
            y = e.val(lx.cells[0])
            if y.ival is not None:
                n = np.clip(y.ival, 0, 64)
                return e.new_list([fv] * int(n.max()), n=n, arr=True)
        if lx is not None and not lx.cells:
            return fv
        r = self.gr.filled(x, fv)
        return r if r is not None else e.op('filledshape', [x, fv])

    def np_reduce(self, b, args, kw):
        e = self.e
        sig = SIGS.get(b, ['a', 'axis'])
        k2 = dict(kw)
        for nm, a in zip(sig, args):
            k2[nm] = a
        x = k2.pop('a', None)
        if x is None:
            return self.generic(b, args, kw)
        if b in ('std', 'var', 'nanstd', 'nanvar'):
            return self.spread(b, x, k2)
        if b == 'average':
            if 'weights' not in k2 and 'axis' not in k2:
                return self.total('mean', e.val(x)) if not (e.val(x).sc) else x
            if 'axis' not in k2:
                w = k2['weights']
                return e.arith('div', self.total('sum', e.val(e.arith('mul', x, w))), self.total('sum', e.val(w)))
            return self.generic('average', [], dict(k2, a=x), 'unk')
        k2.pop('keepdims', None) if 'keepdims' in k2 and e.val(k2['keepdims']).c == (False,) else None
        r = self.reduce(b, x, k2)
        if r is not None:
            return r
        a2, k3 = self.kwnorm(b, [], dict(k2, a=x))
        return self.generic(b, a2, k3, 'unk')

    def spread(self, b, x, kw):
        e = self.e
        x = e.val(x)
        if x.ty == 'ite':
            return e.dist(x, lambda y: self.spread(b, y, kw))
        k2 = {k: v for k, v in kw.items() if not (e.val(v).c is not None and e.val(v).c[0] is None)}
        dd = k2.pop('ddof', e.const(0))
        names = sorted(k2)
        if b in ('std', 'nanstd') and not names:
            v = e.op(b[:-3] + 'var', [x, dd], 'num', sc=True)
            return V(hash_fp('n:sqrt', [v.fp]), 'num', node=('ew', 'sqrt', (v,)), sc=True)
        return e.op(b + '|' + ','.join(names), [x, dd] + [k2[k] for k in names], 'num', sc=not names)

    def const_counts(self, lc):
        """For a list of constants with per-lane membership: (constant, count per lane) in sorted order, or None."""
        e = self.e
        out = {}

        def leaf(v, m):
            if not m.any():
                return True
            v = e.val(v)
            if v.node is not None and v.node[0] == 'ite':
                return leaf(v.node[2], m & v.node[1]) and leaf(v.node[3], m & ~v.node[1])
            if v.c is None or isinstance(v.c[0], bool) or not isinstance(v.c[0], (int, float, str, Fraction)):
                return False
            out.setdefault(v.c[0], np.zeros(L, dtype=I64))
            out[v.c[0]] = out[v.c[0]] + m
            return True
        for j, c in enumerate(lc.cells):
            if not leaf(c, lc.n > j):
                return None
        try:
            return sorted(out.items())
        except TypeError:
            return None

    def unique(self, x):
        e = self.e
        v = e.val(x)
        lc = e.listc(v)
        cc = self.const_counts(lc) if lc is not None and lc.cells else None
        if cc is not None:
            r = e.new_list([], n=np.zeros(L, dtype=I64), arr=True)
            for z, cnt in cc:
                e.list_push(r, e.const(z), cnt > 0)
            return r
        if lc is not None and (lc.n == len(lc.cells)).all() and all(e.val(c).c is not None for c in lc.cells):
            vals = []
            for c in lc.cells:
                if e.val(c).c[0] not in vals:
                    vals.append(e.val(c).c[0])
            try:
                vals = sorted(vals)
            except TypeError:
                pass
            return e.new_list([e.const(z) for z in vals], arr=True)
        n = v.node
        if n is not None and n[0] in ('set', 'unique'):
            v = n[1]
        return e.op('unique', [v])

    def dataframe(self, args, kw):
        e = self.e
        a, k = self.kwnorm('pandas.DataFrame', args, kw)
        data = k.get('data')
        if data is not None and not (set(k) - {'data'}):
            mc = e.mapc(e.val(data))
            if mc is not None and mc.base is None and mc.cls is None:
                ents = list(reversed(e.live_entries(mc)))
                if all(m.all() and kk.c is not None for m, kk, vv in ents):
                    r = self.fr.build([(kk, vv) for m, kk, vv in ents])
                    if r is not None:
                        return r
                r = e.new_map(base=e.op('x:pandas.DataFrame', []))
                for m, kk, vv in reversed(e.live_entries(mc)):
                    if m.all():
                        e.map_set(r, kk, vv)
                    else:
                        e.with_mask(m, lambda: e.map_set(r, kk, vv))
                return r
            if e.val(data).ty == 'unk' or e.mapc(e.val(data)) is not None:
                pass
        if data is not None and set(k) == {'data', 'index'}:
            mc = e.mapc(e.val(data))
            if mc is not None and mc.base is None and mc.cls is None:
                ents = list(reversed(e.live_entries(mc)))
                if all(m.all() and kk.c is not None for m, kk, vv in ents):
                    r = self.fr.build([(kk, vv) for m, kk, vv in ents], index=k['index'])
                    if r is not None:
                        return r
        if not k:
            return self.fr.build([])
        return e.new_map(base=self.generic('x:pandas.DataFrame', args, kw))

    # ------------------------------------------------------------ builtins
    def b_len(self, a, kw, node):
        return self.e.length(a[0])

    def b_range(self, a, kw, node):
        e = self.e
        a = [e.val(x) for x in a]
        if len(a) == 1:
            a = [e.const(0), a[0], e.const(1)]
        elif len(a) == 2:
            a = a + [e.const(1)]
        return V(hash_fp('range', [e.F(x) for x in a]), 'unk', node=('range',) + tuple(a))

    def b_abs(self, a, kw, node):
        return self.e.abs_(a[0])

    def b_sum(self, a, kw, node):
        e = self.e
        start = a[1] if len(a) > 1 else kw.get('start')
        if start is not None:
            parts = e.listc(e.val(a[0]))
            sl = e.listc(e.val(start))
            if sl is not None and parts is not None and not sl.arr and (parts.n == len(parts.cells)).all() and all(e.listc(e.val(c)) is not None for c in parts.cells):
                r = start
                for c in parts.cells:
                    r = e.list_concat(e.listc(e.val(r)), e.listc(e.val(c)))
                return r
            return e.arith('add', self.total('sum', e.val(a[0])), start)
        r = self.reduce('sum', a[0], {})
        return r

    def b_min(self, a, kw, node):
        return self.b_mm('min', a, kw)

    def b_max(self, a, kw, node):
        return self.b_mm('max', a, kw)

    def b_mm(self, name, a, kw):
        if kw:
            return self.generic('x:' + name, a, kw)
        if len(a) == 1:
            return self.reduce(name, a[0], {})
        return self.minmax(name, *a)

    def b_any(self, a, kw, node):
        return self.reduce('any', a[0], {})

    def b_all(self, a, kw, node):
        return self.reduce('all', a[0], {})

    def b_int(self, a, kw, node):
        e = self.e
        if not a:
            return e.const(0)
        v = e.val(a[0])
        if v.ty == 'ite':
            return e.dist(v, lambda x: self.b_int([x], kw, node))
        lc = e.listc(v) if v.ty == 'ref' else None
        if lc is not None and lc.arr and lc.cells and (lc.n == 1).all():
            return self.b_int([lc.cells[0]], kw, node)
        if v.ival is not None:
            return e.intv(v.ival)
        if v.c is not None:
            try:
                return e.const(int(v.c[0]))
            except (TypeError, ValueError, OverflowError):
                if e.trys:
                    e.raise_lanes(ALL, 'parse')
        if v.ty == 'bool':
            return self.numeric(v)
        if e.trys and v.ty in ('unk', 'str'):
            e.raise_lanes(e.bits(e.atom('parseint', [v], 4)), 'parse')
        e.none_exc(v)
        r = e.rounded('int', v) if v.ty == 'num' else None
        if r is not None:
            return r
        v = e.plain(v)
        if v.node is not None and v.node[0] == 'ew' and v.node[1] in ('floor', 'ceil', 'trunc', 'int'):
            return v
        return V(hash_fp('n:int', [v.fp]), 'num', node=('ew', 'int', (v,)), sc=v.sc)

    def b_float(self, a, kw, node):
        e = self.e
        if not a:
            return e.const(0.0)
        v = e.val(a[0])
        if v.ty == 'ite':
            return e.dist(v, lambda x: self.b_float([x], kw, node))
        if v.c is not None:
            if isinstance(v.c[0], (int, float, Fraction)):
                return e.const(v.c[0]) if not isinstance(v.c[0], bool) else e.const(int(v.c[0]))
            try:
                return e.const(float(v.c[0]))
            except (TypeError, ValueError):
                pass
        if v.ty == 'bool':
            return self.numeric(v)
        if e.trys and v.ty in ('unk', 'str'):
            e.raise_lanes(e.bits(e.atom('parsefloat', [v], 4)), 'parse')
        e.none_exc(v)
        return v

    def b_bool(self, a, kw, node):
        return self.e.truth(a[0]) if a else self.e.FALSE

    def b_str(self, a, kw, node):
        return self.e.to_str(a[0]) if a else self.e.const('')

    def b_repr(self, a, kw, node):
        return self.e.op('repr', [a[0]], 'str', sc=True)

    def b_round(self, a, kw, node):
        e = self.e
        v = e.val(a[0])
        if v.ty == 'ite':
            return e.dist(v, lambda x: self.b_round([x] + list(a[1:]), kw, node))
        nd = e.val(a[1]) if len(a) > 1 else e.val(kw['ndigits']) if 'ndigits' in kw else e.const(0)
        if nd.c is not None and nd.c[0] is None:
            nd = e.const(0)
        if v.ival is not None and nd.c == (0,):
            return v
        e.none_exc(v)
        if nd.c == (0,) and v.ty == 'num':
            r = e.rounded('round', v)
            if r is not None:
                return r
        lc = e.listc(v)
        if lc is not None:
            return e.new_list([self.b_round([c, nd], {}, node) for c in lc.cells], n=lc.n, arr=True)
        v = e.plain(v)
        return V(hash_fp('n:round', [v.fp, e.F(nd)]), 'num', node=('ew', 'round', (v, nd)), sc=v.sc)

    def b_list(self, a, kw, node):
        e = self.e
        if not a:
            return e.new_list([])
        v = e.val(a[0])
        if v.ty == 'ite':
            return v
        lc = e.listc(v)
        if lc is not None:
            return e.new_list(list(lc.cells), n=lc.n)
        if v.node is not None and v.node[0] in ('range', 'items', 'dvalues') or (e.mapc(v) is not None and e.mapc(v).base is None):
            cells, n = e.materialize(v)
            return e.new_list(cells, n=n)
        if v.c is not None and isinstance(v.c[0], str):
            cells, n = e.materialize(v)
            return e.new_list(cells, n=n)
        return self.copy_obj(a[0])

    def b_tuple(self, a, kw, node):
        r = self.b_list(a, kw, node)
        lc = self.e.listc(r)
        return r if lc is None or lc.kind != 'list' else self.e.new_list(list(lc.cells), n=lc.n, kind='tuple')

    def b_set(self, a, kw, node):
        e = self.e
        if not a:
            return e.new_list([], kind='set')
        return self.make_set(a[0])

    b_frozenset = b_set

    def make_set(self, x):
        e = self.e
        v = e.val(x)
        lc = e.listc(v)
        if lc is None and v.node is not None and v.node[0] in ('range',):
            cells, n = e.materialize(v)
            return e.new_list(cells, n=n, kind='set')
        if lc is not None and (lc.n == len(lc.cells)).all() and all(e.val(c).c is not None for c in lc.cells):
            vals = []
            for c in lc.cells:
                if e.val(c).c[0] not in vals:
                    vals.append(e.val(c).c[0])
            return e.new_list([e.const(z) for z in vals], kind='set')
        keys = [self.constants(c) for c in lc.cells] if lc is not None and lc.cells and (lc.n == len(lc.cells)).all() else [None]
        if all(k is not None for k in keys):
            return e.new_list([c for j, c in enumerate(lc.cells) if keys[j] not in keys[:j]], kind='set')
        if lc is not None and lc.kind == 'set':
            return e.new_list(list(lc.cells), n=lc.n, kind='set')
        if lc is not None and self.labels(lc):
            r = e.new_list([], n=np.zeros(L, dtype=I64), kind='set')
            for j, c in enumerate(lc.cells):
                e.list_push(r, c, (lc.n > j) & ~e.bits(e.contains(r, c)))
            return r
        if v.node is not None and v.node[0] in ('keys', 'list', 'set', 'unique') and len(v.node) > 1:
            v = e.val(v.node[1])
        return e.op('set', [v])

    def constants(self, v):
        """The members of a tuple of known text and numbers, or None."""
        e = self.e
        lc = e.listc(e.val(v))
        if lc is None or lc.kind != 'tuple' or not (lc.n == len(lc.cells)).all() or not self.known(lc):
            return None
        return tuple(e.val(c).c[0] for c in lc.cells)

    def labels(self, lc):
        """Are the cells text (so that equal cells are recognised)?"""
        e = self.e
        return all(e.val(c).ty == 'str' or (e.val(c).c is not None and isinstance(e.val(c).c[0], str)) for c in lc.cells[:int(lc.n.max())])

    def known(self, lc):
        """Are the cells known text or numbers, equal to themselves?"""
        e = self.e
        cs = [e.val(c).c for c in lc.cells[:int(lc.n.max())]]
        return all(c is not None and isinstance(c[0], (str, int, float, Fraction)) and c[0] == c[0] for c in cs)

    def set_op(self, op, a, b):
        """Union, intersection or difference of two sets of text, or None."""
        e = self.e
        x, y = e.listc(e.val(a)), e.listc(e.val(b))
        if x is None or y is None or x.kind != 'set' or y.kind != 'set' or not (self.labels(x) and self.labels(y)):
            return None
        r = e.new_list([], n=np.zeros(L, dtype=I64), kind='set')
        for j, c in enumerate(x.cells):
            inb = e.bits(e.contains(b, c))
            e.list_push(r, c, (x.n > j) & (ALL if op == 'or' else inb if op == 'and' else ~inb))
        if op in ('or', 'xor'):
            for j, c in enumerate(y.cells):
                e.list_push(r, c, (y.n > j) & ~e.bits(e.contains(a, c)))
        return r

    def isin(self, lc, given):
        """Cell by cell membership in a structured collection, or None."""
        e = self.e
        g = e.val(given)
        while g.node is not None and g.node[0] in ('set', 'list', 'unique', 'attr:values') and len(g.node) > 1 and e.listc(g) is None:
            g = e.val(g.node[1])
        gl = e.listc(g)
        if gl is None or not (self.labels(lc) and self.labels(gl) or self.known(lc) and self.known(gl)):
            return e.new_list([e.truth(e.op('isin', [c, e.plain(g)])) for c in lc.cells], n=lc.n, arr=True)
        return e.new_list([e.contains(g, c) for c in lc.cells], n=lc.n, arr=True)

    def intersect(self, a, b):
        e = self.e
        x, y = e.A(e.plain(a)), e.A(e.plain(b))
        return V(e.bias(hash_fp('bitand', [(x + y) % PP, (x * y) % PP])), 'unk', node=('bitand', a, b))

    def b_fromkeys(self, a, kw, node):
        e = self.e
        lc = e.listc(e.val(a[0])) if a else None
        if lc is None:
            return self.generic('x:fromkeys', a, kw)
        r = e.new_map()
        for j, c in enumerate(lc.cells):
            e.with_mask(lc.n > j, lambda: e.map_set(r, c, a[1] if len(a) > 1 else e.NONE))
        return r

    def b_dict(self, a, kw, node):
        e = self.e
        r = e.new_map()
        if a:
            v = e.val(a[0])
            mc = e.mapc(v)
            lc = e.listc(v)
            if mc is not None or (lc is None and v.ty == 'unk'):
                r = self.copy_obj(a[0])
            else:
                cells, n = e.materialize(v)
                for j, c in enumerate(cells):
                    e.with_mask(n > j, lambda: e.map_set(r, e.index(c, e.const(0)), e.index(c, e.const(1))))
        for k, v in kw.items():
            e.map_set(r, e.const(k), v)
        return r

    def b_enumerate(self, a, kw, node):
        e = self.e
        cells, n = e.materialize(a[0])
        st = a[1] if len(a) > 1 else kw.get('start', e.const(0))
        return e.new_list([e.new_list([e.arith('add', st, e.const(j)), c], kind='tuple') for j, c in enumerate(cells)], n=n)

    def b_zip(self, a, kw, node):
        e = self.e
        ms = [e.materialize(x) for x in a]
        if not ms:
            return e.new_list([])
        n = ms[0][1]
        for c, m in ms[1:]:
            n = np.minimum(n, m)
        k = min(len(c) for c, m in ms)
        n = np.minimum(n, k)
        return e.new_list([e.new_list([c[j] for c, m in ms], kind='tuple') for j in range(k)], n=n)

    def b_reversed(self, a, kw, node):
        cells, n = self.e.materialize(a[0])
        return self.reverse_list(ListC(n, cells))

    def reverse_list(self, lc):
        e = self.e
        if (lc.n == lc.n[0]).all():
            return e.new_list(lc.cells[:int(lc.n[0])][::-1], arr=lc.arr)
        out = []
        for j in range(len(lc.cells)):
            out.append(e.list_index(None, lc, e.intv(np.maximum(lc.n - 1 - j, 0))))
        return e.new_list(out, n=lc.n, arr=lc.arr)

    def b_map(self, a, kw, node):
        e = self.e
        if len(a) == 2:
            cells, n = e.materialize(a[1])
            out = []
            for j, c in enumerate(cells):
                r = e.with_mask(n > j, lambda: e.call(a[0], [c], {}, node))
                out.append(r if r is not None else V(full(UNDEF_FP), 'undef'))
            return e.new_list(out, n=n)
        z = self.b_zip(a[1:], {}, node)
        lc = e.listc(z)
        return e.new_list([e.call(a[0], list(e.listc(c).cells), {}, node) for c in lc.cells], n=lc.n)

    def b_filter(self, a, kw, node):
        e = self.e
        cells, n = e.materialize(a[1])
        r = e.new_list([], n=np.zeros(L, dtype=I64))
        for j, c in enumerate(cells):
            f = e.val(a[0])
            t = c if (f.c is not None and f.c[0] is None) else e.call(a[0], [c], {}, node)
            e.list_push(r, c, (n > j) & e.bits(e.truth(t)))
        return r

    def b_sorted(self, a, kw, node):
        e = self.e
        v = e.val(a[0])
        lc = e.listc(v)
        rev = e.val(kw['reverse']) if 'reverse' in kw else None
        if lc is not None and not (set(kw) - {'reverse'}) and (lc.n == len(lc.cells)).all() and all(e.val(c).c is not None for c in lc.cells) and (
                rev is None or rev.c is not None):
            try:
                vals = sorted([e.val(c).c[0] for c in lc.cells], reverse=bool(rev.c[0]) if rev is not None else False)
                return e.new_list([e.const(x) for x in vals], arr=lc.arr)
            except TypeError:
                pass
        if lc is not None and lc.cells and not (set(kw) - {'reverse'}) and (rev is None or rev.c is not None):
            cc = self.const_counts(lc)
            if cc is not None:
                if rev is not None and rev.c[0]:
                    cc = cc[::-1]
                r = e.new_list([], n=np.zeros(L, dtype=I64), arr=lc.arr)
                for z, cnt in cc:
                    for j in range(int(cnt.max())):
                        e.list_push(r, e.const(z), cnt > j)
                return r
        if e.mapc(v) is not None and e.mapc(v).base is None:
            return self.b_sorted([self.b_list([v], {}, node)], kw, node)
        if v.node is not None and v.node[0] in ('keys', 'list') and len(v.node) > 1:
            v = e.val(v.node[1])
        if v.node is not None and v.node[0] in ('unique',) and not kw:
            return v
        if v.node is not None and v.node[0] == 'set' and not kw:
            return e.op('unique', [v.node[1]])
        r = self.generic('sort', [v], kw)
        r.lenof = v if lc is None else e.new_list(list(lc.cells), n=lc.n)
        if lc is not None:
            r = e.new_map(base=r)
        return r

    def b_isinstance(self, a, kw, node):
        e = self.e
        v = e.val(a[0])
        types = e.val(a[1])
        if v.ty == 'ite':
            return e.dist(v, lambda x: self.b_isinstance([x, a[1]], kw, node))
        tl = e.listc(types)
        ts = tl.cells if tl is not None else [types]
        res = e.FALSE
        for t in ts:
            res = e.logic('or', res, self.isinst1(v, e.val(t)))
        return res

    def isinst1(self, v, t):
        e = self.e
        name = t.pay if t.ty == 'ext' else None
        if name is not None:
            b = name.split('.')[-1]
            lc = e.listc(v)
            known = None
            if v.c is not None:
                known = type(v.c[0]).__name__
                if known == 'Fraction':
                    known = 'float'
            elif lc is not None:
                known = 'ndarray' if lc.arr else lc.kind
            elif e.mapc(v) is not None and e.mapc(v).cls is not None:
                known = e.mapc(v).cls.name
            elif e.mapc(v) is not None and e.mapc(v).base is None:
                known = 'dict'
            elif v.ty == 'str':
                known = 'str'
            elif e.is_slice(v):
                known = 'slice'
            elif (v.ty == 'num' and v.sc or v.ival is not None) and b in ('slice', 'ndarray', 'str', 'list', 'dict', 'tuple', 'set', 'DataFrame', 'Series'):
                return e.FALSE
            if known is not None:
                return e.const(b == known or (known == 'bool' and b == 'int'))
        elif t.ty == 'cls':
            mc = e.mapc(v)
            if mc is not None and mc.cls is not None:
                c = [mc.cls]
                ok = False
                while c:
                    x = c.pop()
                    if x is t.pay:
                        ok = True
                    c += [y for y in x.bases if isinstance(y, Cls)]
                return e.const(ok)
            if v.c is not None or e.listc(v) is not None or v.ty in ('str', 'bool') or v.ty == 'num' and v.sc or e.is_slice(v) or mc is not None and mc.base is None:
                return e.FALSE
        r = e.atom('isinstance', [v, t], 3)
        notnone = e.F(v) != np.uint64(NONE_FP)
        return V((r.fp * notnone).astype(np.uint64), 'bool', None, r.node, raw=r.raw)

    def b_type(self, a, kw, node):
        e = self.e
        v = e.val(a[0])
        if v.ty == 'ite':
            return e.dist(v, lambda x: self.b_type([x], kw, node))
        lc, mc = e.listc(v), e.mapc(v)
        t = None
        if v.c is not None and isinstance(v.c[0], (str, bool, int, float)):
            t = type(v.c[0]).__name__
        elif lc is not None and not lc.arr:
            t = lc.kind
        elif mc is not None and mc.base is None and mc.cls is None:
            t = 'dict'
        elif v.ty == 'str':
            t = 'str'
        return e.ext('builtins.' + t) if t in ('str', 'bool', 'int', 'float', 'list', 'tuple', 'set', 'dict') else e.op('type', [v])

    def b_getattr(self, a, kw, node):
        e = self.e
        n = e.val(a[1])
        if n.c is not None and isinstance(n.c[0], str):
            return e.attr(a[0], n.c[0], node)
        return e.op('getattr', [a[0], n])

    def b_setattr(self, a, kw, node):
        e = self.e
        n = e.val(a[1])
        if n.c is not None and a[0].ty == 'ref':
            e.set_attr(a[0], n.c[0], a[2], node)
        return e.NONE

    def b_globals(self, a, kw, node):
        return V(full(str_fp('globals')), 'unk', node=('globals', self.e.const(self.e.fr.module.name), self.e.fr.module))

    def b_iter(self, a, kw, node):
        return a[0]

    def b_next(self, a, kw, node):
        e = self.e
        v = e.val(a[0])
        lc = e.listc(v)
        if lc is not None:
            first = e.list_index(v, lc, e.const(0)) if lc.cells else None
            if len(a) > 1:
                return e.ite(lc.n > 0, first, a[1]) if first is not None else a[1]
            if first is not None:
                return first
        return self.generic('x:next', a, kw)

    def b_print(self, a, kw, node):
        return self.e.NONE

    def b_open(self, a, kw, node):
        e = self.e
        mode = e.val(a[1]) if len(a) > 1 else e.val(kw['mode']) if 'mode' in kw else e.const('r')
        if not (mode.c is not None and isinstance(mode.c[0], str) and not set(mode.c[0]) & set('wax+')):
            e.effect('open', [a[0], mode], {}, node)
        return e.op('x:open', [a[0], mode])

    def b_pow(self, a, kw, node):
        return self.e.arith('pow', a[0], a[1])

    def b_divmod(self, a, kw, node):
        e = self.e
        return e.new_list([e.arith('floordiv', a[0], a[1]), e.arith('mod', a[0], a[1])], kind='tuple')

    def b_format(self, a, kw, node):
        return self.format_spec(a[0], a[1]) if len(a) > 1 else self.e.to_str(a[0])

    def b_callable(self, a, kw, node):
        return self.e.atom('callable', [a[0]])

    def b_slice(self, a, kw, node):
        e = self.e
        a = list(a)
        if len(a) == 1:
            return e.slice_(e.NONE, a[0], e.NONE)
        return e.slice_(a[0], a[1], a[2] if len(a) > 2 else e.NONE)

    # itertools
    def itertools(self, b, args, kw):
        e = self.e
        import itertools as it
        if b == 'groupby':
            return self.groups(args, kw)
        if b in ('product', 'combinations', 'permutations', 'chain'):
            if b == 'product' and kw:
                return None
            srcs = args if b in ('product', 'chain') else args[:1]
            mats = [e.materialize(a) for a in srcs]
            if not all((n == len(c)).all() for c, n in mats):
                if b == 'product' and mats:
                    # masks: keep combinations present in each lane, in order
                    r = e.new_list([], n=np.zeros(L, dtype=I64))
                    for combo in it.islice(it.product(*[list(enumerate(c)) for c, n in mats]), 81):
                        m = ALL
                        for (j, c), (cc, n) in zip(combo, mats):
                            m = m & (n > j)
                        e.list_push(r, e.new_list([c for j, c in combo], kind='tuple'), m)
                    return r
                if b in ('combinations', 'permutations') and args[1:]:
                    k = e.val(args[1])
                    if k.c is not None:
                        r = e.new_list([], n=np.zeros(L, dtype=I64))
                        c, n = mats[0]
                        for combo in it.islice(getattr(it, b)(list(enumerate(c)), k.c[0]), 81):
                            m = ALL
                            for j, x in combo:
                                m = m & (n > j)
                            e.list_push(r, e.new_list([x for j, x in combo], kind='tuple'), m)
                        return r
                if b == 'chain':
                    r = e.new_list([], n=np.zeros(L, dtype=I64))
                    for c, n in mats:
                        for j, x in enumerate(c):
                            e.list_push(r, x, n > j)
                    return r
                return None
            cs = [c for c, n in mats]
            if b == 'product':
                out = list(it.islice(it.product(*cs), 200))
                return e.new_list([e.new_list(list(o), kind='tuple') for o in out])
            if b == 'chain':
                return e.new_list([x for c in cs for x in c])
            k = e.val(args[1]) if len(args) > 1 else e.val(kw['r']) if 'r' in kw else None
            if k is not None and k.c is not None:
                out = list(it.islice(getattr(it, b)(cs[0], k.c[0]), 200))
                return e.new_list([e.new_list(list(o), kind='tuple') for o in out])
        return None

    def groups(self, args, kw):
        """Runs of equal neighbours (or of equal keys) of a list whose cells are known."""
        e = self.e
        key = args[1] if len(args) > 1 else kw.get('key')
        lc = e.listc(e.val(args[0]))
        if lc is None or len(lc.cells) > 12:
            return None
        keys = [e.call(key, [c], {}, None) for c in lc.cells] if key is not None and e.val(key).c != (None,) else list(lc.cells)
        out = e.new_list([], n=np.zeros(L, dtype=I64))
        open_ = None
        for j, c in enumerate(lc.cells):
            here = lc.n > j
            new = here if j == 0 else here & ~e.bits(e.compare('eq', keys[j - 1], keys[j]))
            starts = []
            for m in ([new] if j == 0 else [new]):
                g = e.new_list([], n=np.zeros(L, dtype=I64))
                e.list_push(g, c, m)
                starts.append((m, g))
                e.list_push(out, e.new_list([keys[j], g], kind='tuple'), m)
            for m, g in open_ or ():
                if (m & here & ~new).any():
                    e.list_push(g, c, m & here & ~new)
            open_ = starts + [(m & ~new, g) for m, g in (open_ or ()) if (m & ~new).any()]
        return out

    # ------------------------------------------------------------ copies and dicts
    def copy_obj(self, x, deep=True):
        e = self.e
        v = e.val(x)
        if v.ty == 'ite':
            return v
        fc = self.fr.get(v)
        if fc is not None:
            return self.fr.method(v, fc, 'copy', [], {}, None)
        lc = e.listc(v)
        if lc is not None:
            return e.new_list([self.copy_obj(c) if (deep and c.ty == 'ref') else c for c in lc.cells], n=lc.n, arr=lc.arr, kind=lc.kind)
        mc = e.mapc(v)
        if mc is not None:
            kids = {k: (kk, self.copy_obj(kid)) for k, (kk, kid) in mc.kids.items()} if e.kids_changed(mc) else {}
            kids = {k: (kk, kid if kid.ty == 'ref' else self.wrap(kid)) for k, (kk, kid) in kids.items()}
            r = e.new_ref(MapC(self.fresh(mc.base), tuple((m, k, self.copy_obj(w) if (deep and w.ty == 'ref') else w) for m, k, w in mc.ents), mc.cls, kids=kids))
            return r
        if v.ty == 'unk' and v.c is None:
            return e.new_map(base=self.fresh(v))
        return v

    def fresh(self, v):
        """The same value in storage of its own."""
        if v is None or v.ty == 'ref':
            return v
        v = copy.copy(v)
        self.e.fresh.append(v)
        return v

    def wrap(self, v):
        r = self.e.new_map(base=v)
        self.e.store[r.pay].born = ALL
        return r

    def dict_update(self, r, other):
        e = self.e
        o = e.val(other)
        mc = e.mapc(o)
        if mc is not None and mc.base is None:
            for m, k in e.ordered_keys(mc):
                v = e.map_get(o, k)
                if m.all():
                    e.map_set(r, k, v)
                else:
                    e.with_mask(m, lambda: e.map_set(r, k, v))
            return
        lc = e.listc(o)
        if lc is not None:
            for j, c in enumerate(lc.cells):
                e.with_mask(lc.n > j, lambda: e.map_set(r, e.index(c, e.const(0)), e.index(c, e.const(1))))
            return
        m = e.mapc(r)
        nv = e.op('m:update', [e.plain(r), o])
        mk = e.wmask(m)
        old = V(e.F(r), 'unk', node=('obj', r))
        e.put(r, MapC(nv if mk is None else e.ite(mk, nv, old)))

    def del_item(self, o, k):
        e = self.e
        k = e.val(k)
        mc = e.mapc(o)
        lc = e.listc(o)
        if mc is not None and mc.base is None and k.c is not None:
            m = e.wmask(mc)
            if m is None:
                e.put(o, MapC(None, tuple(x for x in mc.ents if not (x[1].c is not None and x[1].c[0] == k.c[0])), mc.cls))
            else:
                ents = []
                for mm, kk, vv in mc.ents:
                    if kk.c is not None and kk.c[0] == k.c[0]:
                        mm = (ALL if mm is None else mm) & ~m
                    ents.append((mm, kk, vv))
                e.put(o, MapC(None, tuple(ents), mc.cls))
            return
        if lc is not None:
            self.list_pop(o, k)
            return
        if mc is not None:
            old = V(e.F(o), 'unk', node=('obj', o))
            nv = e.op('delitem', [old, k])
            m = e.wmask(mc)
            e.put(o, MapC(nv if m is None else e.ite(m, nv, old)))

    def list_pop(self, o, k):
        e = self.e
        lc = e.listc(o)
        if k.ival is None:
            old = V(e.F(o), 'unk', node=('obj', o))
            e.put(o, MapC(e.op('delitem', [old, k])))
            return e.op('m:pop', [old, k])
        idx = np.where(k.ival < 0, lc.n + k.ival, k.ival)
        res = e.list_index(o, lc, k)
        m = e.wmask(lc)
        act = ALL if m is None else m
        cells = list(lc.cells)
        for j in range(len(cells) - 1):
            sh = act & (idx <= j)
            if sh.any():
                cells[j] = e.ite(sh, lc.cells[j + 1], cells[j])
        ok = act & (idx >= 0) & (idx < lc.n)
        n = lc.n - ok.astype(I64)
        e.put(o, ListC(n, cells[:int(n.max())], lc.arr, kind=lc.kind))
        return res

    # ------------------------------------------------------------ methods
    def method(self, o, name, args, kw, node):
        e = self.e
        v = e.val(o)
        if 'm:' + name in e.hooks:
            r = e.hooks['m:' + name](e, [o] + list(args), kw, node)
            if r is not None:
                return r
        if name == 'unlink' and v.node is not None and v.node[0] in ('x:pathlib.Path', 'x:pathlib.PurePath') and len(v.node) == 2:
            return self.call_ext('os.remove', [v.node[1]], {}, node)
        if v.ty in ('regex', 'match'):
            r = self.regex(name, [v] + list(args), kw, node) if v.ty == 'regex' else self.match_method(v, name, args)
            return r if r is not None else self.opaque_method(o, name, args, kw, node)
        if v.c is not None and isinstance(v.c[0], str) or v.ty == 'str':
            return self.str_method(v, name, args, kw, node)
        fc = self.fr.get(v)
        if fc is not None:
            r = self.fr.method(v, fc, name, args, kw, node)
            if r is not None:
                return r
        lc = e.listc(v)
        if lc is not None:
            if lc.arr:
                r = self.gr.call(name, [v] + list(args), kw)
                if r is not None:
                    return r
            r = self.list_method(v, lc, name, args, kw, node)
            if r is not None:
                return r
        mc = e.mapc(v)
        if mc is not None and name in ('keys', 'values', 'items', 'get', 'update', 'pop', 'setdefault', 'copy', 'clear'):
            r = self.dict_method(v, mc, name, args, kw, node)
            if r is not None:
                return r
        return self.opaque_method(o, name, args, kw, node)

    def dict_method(self, v, mc, name, args, kw, node):
        e = self.e
        if name == 'keys' and not args:
            return v if mc.base is None else e.op('keys', [e.plain(v)])
        if name == 'items' and not args:
            return V(hash_fp('items', [e.F(v)]), 'unk', node=('items', v))
        if name == 'values' and not args:
            return V(hash_fp('dvalues', [e.F(v)]), 'unk', node=('dvalues', v))
        if name == 'get':
            c = e.contains(v, args[0])
            d = args[1] if len(args) > 1 else kw.get('default', e.NONE)
            b = e.bits(c)
            if not b.any():
                return d
            x = e.map_get(v, e.val(args[0]))
            return e.ite(b, x, d)
        if name == 'update':
            if args:
                self.dict_update(v, args[0])
            for k, x in kw.items():
                e.map_set(v, e.const(k), x)
            return e.NONE
        if name == 'setdefault':
            c = e.contains(v, args[0])
            b = e.bits(c)
            d = args[1] if len(args) > 1 else e.NONE
            if b.all():
                return e.map_get(v, e.val(args[0]))
            e.with_mask(~b, lambda: e.map_set(v, args[0], d))
            return e.map_get(v, e.val(args[0]))
        if name == 'pop':
            x = e.map_get(v, e.val(args[0]))
            if len(args) > 1:
                b = e.bits(e.contains(v, args[0]))
                x = e.ite(b, x, args[1]) if b.any() else args[1]
            self.del_item(v, args[0])
            return x
        if name == 'copy':
            return self.copy_obj(v, deep=mc.base is not None)
        if name == 'clear':
            e.put(v, MapC(None, (), mc.cls))
            return e.NONE
        return None

    def list_method(self, v, lc, name, args, kw, node):
        e = self.e
        if name == 'append':
            e.list_push(v, args[0])
            return e.NONE
        if name == 'add' and lc.kind == 'set':
            c = e.bits(e.contains(v, args[0]))
            e.list_push(v, args[0], ~c)
            return e.NONE
        if name == 'extend':
            x = e.val(args[0])
            if e.listc(x) is None and x.ty == 'unk' and x.node is not None and x.node[0] not in ('range', 'items', 'dvalues') and not (e.mapc(x) and e.mapc(x).base is None):
                pass
            cells, n = e.materialize(x)
            for j, c in enumerate(cells):
                e.list_push(v, c, n > j)
            return e.NONE
        if name == 'insert':
            k = e.val(args[0])
            m = e.wmask(lc)
            if k.ival is not None:
                act = ALL if m is None else m
                idx = np.clip(np.where(k.ival < 0, lc.n + k.ival, k.ival), 0, lc.n)
                n0 = len(lc.cells)
                cells = []
                for j in range(n0 + 1):
                    cur = lc.cells[j] if j < n0 else V(full(UNDEF_FP), 'undef')
                    prev = lc.cells[j - 1] if j > 0 else cur
                    x = cur
                    if (act & (idx < j)).any():
                        x = e.ite(act & (idx < j), prev, x)
                    if (act & (idx == j)).any():
                        x = e.ite(act & (idx == j), args[1], x)
                    cells.append(x)
                e.put(v, ListC(lc.n + act.astype(I64), cells, lc.arr, kind=lc.kind))
                return e.NONE
            return None
        if name == 'pop':
            return self.list_pop(v, e.val(args[0]) if args else e.const(-1))
        if name == 'sort':
            r = self.b_sorted([v], kw, node)
            r2 = e.val(r)
            rl = e.listc(r2)
            m = e.wmask(lc)
            if rl is not None and m is None:
                e.put(v, ListC(rl.n, rl.cells, lc.arr, kind=lc.kind))
            else:
                nv = e.plain(r2)
                if m is not None:
                    nv = e.ite(m, nv, V(e.F(v), 'unk', node=('obj', v)))
                nv = V(nv.fp, 'unk', node=nv.node, lenof=nv.lenof)
                if nv.lenof is None:
                    nv.lenof = e.new_list(list(lc.cells), n=lc.n)
                e.put(v, MapC(nv))
            return e.NONE
        if name == 'reverse':
            r = e.listc(self.reverse_list(lc))
            e.put(v, ListC(r.n, r.cells, lc.arr, kind=lc.kind))
            return e.NONE
        if name == 'copy':
            return e.new_list(list(lc.cells), n=lc.n, arr=lc.arr, kind=lc.kind)
        if name == 'clear':
            e.put(v, ListC(np.zeros(L, dtype=I64), [], lc.arr, kind=lc.kind))
            return e.NONE
        if name == 'index' and args and not lc.arr:
            res = e.op('m:index', [v, args[0]], 'num')
            iv = np.full(L, -1, dtype=I64)
            bitsl = []
            for j, c in enumerate(lc.cells):
                bitsl.append(e.bits(e.compare('eq', c, args[0])) & (lc.n > j))
            for j in range(len(bitsl) - 1, -1, -1):
                iv[bitsl[j]] = j
            if (iv >= 0).all():
                return e.intv(iv)
            if (iv >= 0).any():
                return e.ite(iv >= 0, e.intv(iv), res)
            return res
        if name == 'count' and args and not lc.arr:
            r = e.const(0)
            for j, c in enumerate(lc.cells):
                b = e.bits(e.compare('eq', c, args[0])) & (lc.n > j)
                r = e.arith('add', r, e.intv(b.astype(I64)))
            return r
        if name == 'remove':
            b = [e.bits(e.compare('eq', c, args[0])) & (lc.n > j) for j, c in enumerate(lc.cells)]
            idx = np.full(L, 10 ** 6, dtype=I64)
            for j in range(len(b) - 1, -1, -1):
                idx[b[j]] = j
            e2 = V(full(0), 'num', ival=np.where(idx == 10 ** 6, len(lc.cells) + 5, idx))
            self.list_pop(v, e2)
            return e.NONE
        if name == 'compress' and lc.arr and args and self.extent(v) is not None and e.is_mask(e.val(args[0])):
            axis = e.val(args[1] if len(args) > 1 else kw.get('axis', e.NONE))
            if len(self.extent(v)) == 1 or axis.c == (0,):
                return e.index(v, args[0])
        if name in ('tolist', 'to_list'):
            return e.new_list(list(lc.cells), n=lc.n)
        if name in ('to_numpy',):
            return v
        if name == 'isin' and lc.arr and len(args) == 1 and not kw:
            return self.isin(lc, args[0])
        if lc.kind == 'set' and len(args) == 1 and name in SETOPS:
            return self.set_op(SETOPS[name], v, self.make_set(args[0]))
        if name in ('drop_duplicates', 'unique') and lc.arr and not args and not kw and (self.labels(lc) or self.known(lc)):
            s = e.listc(self.make_set(v))
            return e.new_list(list(s.cells), n=s.n, arr=True)
        if name == 'reset_index' and lc.arr and not args and set(kw) == {'drop'} and e.val(kw['drop']).c == (True,):
            return e.new_list(list(lc.cells), n=lc.n, arr=True)
        if name == 'astype' and lc.arr and self.is_str_type(e.val(args[0] if args else kw.get('dtype', e.NONE))):
            return self.strings(lc)
        if name == 'astype' and lc.arr and lc.cells and all(e.val(c).ty == 'num' for c in lc.cells):
            t = e.val(args[0] if args else kw.get('dtype', e.NONE))
            if (t.node is not None and str(t.node[-1]).endswith(('float', 'float64'))) or t.c in (('float',), ('float64',)):
                return e.new_list(list(lc.cells), n=lc.n, arr=True)
            if t.node is not None and str(t.node[-1]).endswith(('int', 'int64', 'int32')) or t.c in (('int',), ('int64',), ('int32',)):
                cells = [e.intv(e.val(c).ival) if e.val(c).ival is not None and e.val(c).c is None else e.rounded('int', e.val(c)) for c in lc.cells]
                if all(c is not None for c in cells):
                    return e.new_list(cells, n=lc.n, arr=True)
        if name in ('flatten', 'ravel') and lc.arr and all(e.listc(e.val(c)) is None for c in lc.cells):
            return e.new_list(list(lc.cells), n=lc.n, arr=True)
        if name == 'items' or name == 'keys':
            return None
        if name in ('issubset', 'issuperset') and lc.kind == 'set' and len(args) == 1:
            o = e.val(args[0])
            whole, part = (o, lc) if name == 'issubset' else (v, e.listc(o))
            if part is not None:
                r = ALL
                for j, c in enumerate(part.cells):
                    r = r & (e.bits(e.contains(whole, c)) | ~(part.n > j))
                return e.boolv(r)
            return None
        if name == 'fill':
            e.put(v, ListC(lc.n, [args[0]] * len(lc.cells), lc.arr, kind=lc.kind))
            return e.NONE
        return None

    def is_str_type(self, t):
        return t.c == ('str',) or t.pay == 'builtins.str'

    def strings(self, lc):
        e = self.e
        return e.new_list([e.to_str(c) for c in lc.cells], n=lc.n, arr=True)

    def opaque_method(self, o, name, args, kw, node):
        e = self.e
        v = e.val(o)
        if v.node is not None and v.node[0] == 'x:logger':
            return e.NONE
        if v.node is not None and v.node[0] in ('attr:str', 'attr:dt'):
            if name == 'lower' or name == 'upper' or True:
                return self.generic('m:' + v.node[0][5:] + '.' + name, [v.node[1]] + list(args), kw)
        if 'inplace' in kw:
            ip = e.val(kw['inplace'])
            k2 = {k: x for k, x in kw.items() if k != 'inplace'}
            if ip.c == (True,):
                nv = self.opaque_method(o, name, args, k2, node)
                if o.ty == 'ref':
                    c = e.store[o.pay]
                    m = e.wmask(c)
                    if m is not None:
                        nv = e.ite(m, nv, V(e.F(o), 'unk', node=('obj', o)))
                    e.put(o, MapC(nv if nv.ty != 'ref' else V(e.F(nv), 'unk', node=('obj', nv))))
                return e.NONE
            kw = k2
        b = RENAME.get(name, name)
        if name in ('keys',) and not args:
            return e.op('keys', [e.plain(v)])
        if name == 'items' and not args:
            return V(hash_fp('items', [e.F(v)]), 'unk', node=('items', v))
        if name == 'values' and not args:
            return V(hash_fp('dvalues', [e.F(v)]), 'unk', node=('dvalues', v))
        if name == 'get' and args and e.listc(v) is None:
            c = e.contains(v, args[0])
            d = args[1] if len(args) > 1 else kw.get('default', e.NONE)
            return e.ite(e.bits(c), e.index(v, args[0]), d)
        if name == 'iterrows':
            cells, n = e.materialize(v)
            return e.new_list([e.new_list([e.const(j), e.row(v, e.const(j))], kind='tuple') for j in range(len(cells))], n=n)
        if name in ('tolist', 'to_list', 'to_numpy', 'copy', '__copy__', '__deepcopy__'):
            if name != 'copy' and not name.startswith('__'):
                row = self.row_cells(v)
                if row is not None:
                    return row
            return self.copy_obj(o) if name != 'to_numpy' else o
        if name in ('std', 'var') and 'ddof' in kw:
            return self.np_reduce(name, [v] + list(args), kw)
        if b in METHOD_AS_FN or b in ('isnan',):
            if b in CMPF and len(args) == 1:
                return e.compare(CMPF[b], v, args[0])
            if b in BIN2 and len(args) == 1 and not kw:
                return e.arith(BIN2[b], v, args[0])
            return self.numpy_call('numpy.' + b, b, [v] + list(args), kw, node)
        if name == 'assign':
            r = self.copy_obj(o)
            if r.ty != 'ref':
                r = e.new_map(base=v)
            for k, x in kw.items():
                e.map_set(r, e.const(k), x)
            return r
        if name in ('lower', 'upper') and v.node is not None and v.node[0] == 'm:' + name:
            return v
        if name in ('startswith', 'endswith', 'isdigit', 'isnumeric', 'exists', 'is_file', 'is_dir', 'equals', 'isalpha', 'isalnum', 'isspace', 'issubset', 'isdisjoint', 'issuperset', 'isupper', 'islower'):
            return e.atom('m:' + name, [e.plain(v)] + [e.val(a) for a in args])
        if name in self.ALWAYS_MUT and o.ty == 'ref':
            c = e.content(o)
            old = c.base if isinstance(c, MapC) and c.base is not None and not c.ents and c.base.fp is not None else V(e.F(o), 'unk', node=('obj', o))
            if name == 'sort' and not args and not kw:
                nv = self.numpy_call('numpy.sort', 'sort', [old], {}, node)
            else:
                nv = self.generic('mut:' + name, [old] + list(args), kw)
            m = e.wmask(e.store[o.pay])
            if m is not None:
                nv = e.ite(m, nv, old)
            e.put(o, MapC(nv))
            return self.generic('m:' + name, [old] + list(args), kw) if name in ('pop', 'setdefault', 'popitem') else e.NONE
        if 'm:' + name in EFFECTS:
            a2, k2 = self.kwnorm('m:' + name, args, kw)
            e.effect('m:' + name, [v] + list(a2), k2, node)
        if name in ('filter', 'info', 'debug', 'warning', 'error', 'critical') and v.node is not None and 'log' in str(v.node[:2]):
            return e.NONE
        if name == 'format' and False:
            pass
        ty = 'str' if name in STR_METHODS and name not in ('replace', 'format', 'join') else 'unk'
        if name in ('write', 'close', 'flush', 'set_index_') and name != 'write':
            return e.NONE
        if name in ('split',) and not args and not kw:
            return e.op('m:split', [e.plain(v)])
        a2, k2 = self.kwnorm('m:' + name, args, kw)
        names = sorted(k2)
        pv = e.plain(v)
        r = e.op('m:' + name + ('|' + ','.join(names) if names else ''), [pv] + [e.val(a) for a in a2] + [e.val(k2[k]) for k in names], ty)
        if name in ('sort_values', 'reset_index', 'rename', 'astype', 'fillna', 'set_index', 'apply', 'shift', 'round', 'map', 'replace', 'sort_index'):
            r.lenof = pv
        return r

    def call_opaque(self, fv, args, kw, node):
        e = self.e
        v = e.val(fv)
        k = sorted(kw)
        vals = [v if v.ty != 'ref' else e.plain(v)] + [e.val(a) for a in args] + [e.val(kw[x]) for x in k]
        return e.op('call' + ('|' + ','.join(k) if k else ''), vals)

    # ------------------------------------------------------------ strings
    def str_index(self, v, k):
        e = self.e
        s = v.c[0]
        if k.c is not None and isinstance(k.c[0], int):
            try:
                return e.const(s[k.c[0]])
            except IndexError:
                return None
        if e.is_slice(k) and all(x.c is not None for x in k.node[1:4]):
            a, b, c = [x.c[0] for x in k.node[1:4]]
            return e.const(s[a:b:c])
        return None

    def str_method(self, v, name, args, kw, node):
        e = self.e
        av = [e.val(a) for a in args]
        if v.ty == 'str' and v.c is None and v.node is not None and v.node[0] == 'ite' and name not in ('join', 'format'):
            m, a, b = v.node[1], v.node[2], v.node[3]
            return e.ite(m, self.method(a, name, args, kw, node), self.method(b, name, args, kw, node))
        if name == 'join' and len(args) == 1:
            return self.join(v, args[0])
        if name == 'format' and v.c is not None:
            return self.str_format(v.c[0], args, kw)
        if name in ('startswith', 'endswith') and len(av) == 1 and e.listc(av[0]) is not None:
            lc = e.listc(av[0])
            r = e.FALSE
            for j, c in enumerate(lc.cells):
                t = self.str_method(v, name, [c], kw, node)
                if not (lc.n > j).all():
                    t = e.logic('and', t, e.boolv(lc.n > j, ('live',)))
                r = e.logic('or', r, t)
            return r
        if v.c is not None and all(a.c is not None for a in av) and not kw:
            try:
                r = getattr(v.c[0], name)(*[a.c[0] for a in av])
            except (TypeError, ValueError, AttributeError, IndexError):
                r = NotImplemented
            if r is not NotImplemented:
                if isinstance(r, list) or isinstance(r, tuple):
                    return e.new_list([e.const(x) for x in r])
                if isinstance(r, (str, int, bool)):
                    return e.const(r)
        if name == 'replace' and len(av) == 2 and not kw and av[0].c is not None and av[0].c[0] and (
                v.c is not None or (v.node is not None and v.node[0] == 'cat' and 'separate pieces' in e.hooks)):
            out = []
            for p in [v] if v.c is not None else v.node[1:]:
                if p.c is None:
                    out.append(p)
                    continue
                for j, x in enumerate(p.c[0].split(av[0].c[0])):
                    out += [av[1], e.const(x)] if j else [e.const(x)]
            return e.concat(out)
        if name in ('startswith', 'endswith') and av and v.c is None:
            n = v.node
            if n is not None and n[0] == 'cat':
                p = n[1] if name == 'startswith' else n[-1]
                if p.c is not None and av[0].c is not None and isinstance(av[0].c[0], str) and len(p.c[0]) >= len(av[0].c[0]):
                    return e.const(getattr(p.c[0], name)(av[0].c[0]))
            return e.atom('m:' + name, [v] + av)
        if name in ('lower', 'upper') and v.node is not None and v.node[0] == 'm:' + name:
            return v
        if name in ('lower', 'upper') and v.node is not None and v.node[0] == 'cat':
            return e.concat([self.method(p, name, [], {}, node) for p in v.node[1:]])
        return self.opaque_method(v, name, args, kw, node)

    def join(self, sep, x):
        e = self.e
        v = e.val(x)
        lc = e.listc(v)
        if lc is None:
            if v.node is not None and v.node[0] in ('items', 'dvalues', 'range') or v.ty == 'ite' or (e.mapc(v) is not None and e.mapc(v).base is None):
                cells, n = e.materialize(v)
                lc = ListC(n, cells)
            else:
                return e.op('m:join', [sep, v], 'str', sc=True)
        res = e.const('')
        for j, c in enumerate(lc.cells):
            live = lc.n > j
            if not live.any():
                break
            nxt = e.concat([res, sep, c]) if j else e.to_str(c)
            res = nxt if live.all() else e.ite(live, nxt, res)
        return res

    def str_format(self, fmt, args, kw):
        e = self.e
        parts = []
        auto = 0
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            return e.op('m:format', [e.const(fmt)] + list(args), 'str', sc=True)
        for lit, field, spec, conv in fields:
            if lit:
                parts.append(e.const(lit))
            if field is None:
                continue
            if field == '':
                x = args[auto] if auto < len(args) else e.NONE
                auto += 1
            elif field.isdigit():
                x = args[int(field)] if int(field) < len(args) else e.NONE
            elif field in kw:
                x = kw[field]
            else:
                return e.op('m:format', [e.const(fmt)] + list(args) + [kw[k] for k in sorted(kw)], 'str', sc=True)
            parts.append(self.format_spec(x, e.const(spec)) if spec else e.to_str(x))
        return e.concat(parts)

    def format_spec(self, v, spec):
        e = self.e
        v, spec = e.val(v), e.val(spec)
        if spec.c is not None and spec.c[0] == '':
            return e.to_str(v)
        if v.c is not None and spec.c is not None:
            try:
                return e.const(format(v.c[0], spec.c[0]))
            except (TypeError, ValueError):
                pass
        return e.op('format', [v, spec], 'str', sc=True)

    def percent_format(self, a, b):
        e = self.e
        if a.c is None:
            return e.op('pctfmt', [a, b], 'str', sc=True)
        fmt = a.c[0]
        lb = e.listc(b)
        args = list(lb.cells) if lb is not None and lb.kind == 'tuple' else [b]
        parts = []
        i = 0
        buf = ''
        ai = 0
        while i < len(fmt):
            ch = fmt[i]
            if ch != '%':
                buf += ch
                i += 1
                continue
            if fmt[i:i + 2] == '%%':
                buf += '%'
                i += 2
                continue
            j = i + 1
            while j < len(fmt) and fmt[j] in '0123456789.+- #':
                j += 1
            spec = fmt[i + 1:j]
            t = fmt[j] if j < len(fmt) else 's'
            parts.append(e.const(buf))
            buf = ''
            x = args[ai] if ai < len(args) else e.NONE
            ai += 1
            if spec[:1] == '-':
                spec = '<' + spec[1:]
            elif t == 's' and spec[:1].isdigit():
                spec = '>' + spec
            if spec == '' and t == 's':
                parts.append(e.to_str(x))
            else:
                parts.append(self.format_spec(x, e.const(spec + t)))
            i = j + 1
        parts.append(e.const(buf))
        return e.concat(parts)


KNOWN = {'shape', 'columns', 'size', 'ndim', 'T', 'index', 'loc', 'iloc', 'at', 'iat', 'dtype', 'str', 'dt', 'flat', 'dims', 'coords', 'attrs',
         'dtypes', 'nbytes', 'axes'}
