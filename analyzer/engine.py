"""Value-graph dataflow analysis of Python source.

The engine walks the syntax tree of a function once, in predicated form: every
statement is interpreted under the set of lanes whose (abstract) conditions
select it, joins merge by lane.  No path is enumerated and nothing of the
analysed program is executed: values are value numbers (see values.py), library
functions are uninterpreted, unknown collections are abstracted by a symbolic
prototype with at most K cells.
"""
import ast
import math
import operator
from fractions import Fraction
import numpy as np
from .values import (P, PP, L, UNB, LANES, ALL, NONE_, ZERO, hash_fp, lane_hash, inv, pow_fp,
                     num_fp, const_fp, str_fp, NONE_FP, UNDEF_FP, NAN_FP, INF_FP, full, sym_fp)
from .repo import Func, Cls, Module, Repo

K = 3
MAXDEPTH = 40
NOC = None
I64 = np.int64
BENIGN = (LANES % np.uint64(3)) == 1     # lanes in which no value is missing and zeros are rare


class Budget(Exception):
    pass


class V:
    __slots__ = ('fp', 'ty', 'c', 'node', 'ival', 'pay', 'raw', 'offr', 'offp', 'sc', 'lenof', 'np')

    def __init__(self, fp, ty='unk', c=None, node=None, ival=None, pay=None, raw=None, offr=None, offp=None,
                 sc=False, lenof=None):
        self.fp = fp
        self.ty = ty
        self.c = c
        self.node = node
        self.ival = ival
        self.pay = pay
        self.raw = raw
        self.offr = offr
        self.offp = offp
        self.sc = sc
        self.lenof = lenof
        self.np = None      # 'np' numpy number, 'py' Python number, None unknown

    def __repr__(self):
        return 'V(%s)' % describe(self)


class ListC:
    __slots__ = ('n', 'cells', 'arr', 'born', 'kind')

    def __init__(self, n, cells, arr=False, born=None, kind='list'):
        self.n = n
        self.cells = cells
        self.arr = arr
        self.born = born
        self.kind = kind


class MapC:
    __slots__ = ('base', 'ents', 'cls', 'born', 'kids', 'frame')

    def __init__(self, base=None, ents=(), cls=None, born=None, kids=None):
        self.base = base
        self.ents = ents
        self.cls = cls
        self.born = born
        self.kids = kids if kids is not None else {}


class FrameC:
    """A data frame built in the analysed code: rows per lane, columns of cells, row labels."""
    __slots__ = ('n', 'cols', 'idx', 'born')

    def __init__(self, n, cols, idx):
        self.n = n
        self.cols = cols
        self.idx = idx
        self.born = None


class Frame:
    __slots__ = ('env', 'module', 'func', 'done', 'ret', 'pend', 'loops', 'yields', 'cls', 'entry', 'parent', 'globals_')

    def __init__(self, module, func=None, parent=None):
        self.env = {}
        self.module = module
        self.func = func
        self.done = NONE_
        self.ret = None
        self.pend = NONE_
        self.loops = []
        self.yields = None
        self.cls = None
        self.entry = None
        self.parent = parent
        self.globals_ = set()


class Registry:
    """What the analysed pair compares values with; filled in by one pass, used by the next."""

    def __init__(self):
        self.consts = {}      # ident -> set of constant fingerprints a value is compared with
        self.thresholds = set()
        self.lens = set()
        self.sized = set()

    def size(self):
        return (sum(len(s) for s in self.consts.values()), len(self.thresholds), len(self.lens), len(self.sized))


def describe(v, depth=4):
    if not isinstance(v, V):
        return str(v)[:40]
    if v.c is not None:
        return repr(v.c[0])[:60]
    n = v.node
    if n is None:
        if v.ty == 'ref':
            return '<obj>'
        return v.ty
    if n[0] == 'sym':
        return n[1]
    if depth == 0:
        return '...'
    if n[0] == 'ew':
        return '%s(%s)' % (n[1], ', '.join(describe(a, depth - 1) for a in n[2]))
    return '%s(%s)' % (n[0], ', '.join(describe(a, depth - 1) for a in n[1:] if not isinstance(a, np.ndarray)))


def deps_of(v, eng=None, seen=None, out=None):
    """Names and string constants a value is built from (for reports and dependency rules)."""
    if out is None:
        out, seen = set(), set()
    stack = [v]
    while stack:
        x = stack.pop()
        if isinstance(x, (tuple, list)):
            stack.extend(x)
            continue
        if not isinstance(x, V) or id(x) in seen:
            continue
        seen.add(id(x))
        if x.c is not None:
            if isinstance(x.c[0], str):
                out.add(repr(x.c[0]))
            continue
        if x.ty == 'ref' and eng is not None:
            c = eng.store.get(x.pay)
            if isinstance(c, ListC):
                stack.extend(c.cells)
            elif isinstance(c, MapC):
                if c.base is not None:
                    stack.append(c.base)
                for m, k, val in c.ents:
                    stack.append(k)
                    stack.append(val)
            elif isinstance(c, FrameC):
                for k, val in c.cols:
                    stack.append(k)
                    stack.append(val)
            continue
        if x.node is None:
            continue
        if x.node[0] == 'sym':
            out.add(x.node[1])
        else:
            if isinstance(x.node[0], str):
                out.add('@' + (x.node[1] if x.node[0] == 'ew' else x.node[0]))
            stack.extend(x.node[1:])
    return out


KNOWN_ATTRS = {'shape', 'columns', 'values', 'size', 'ndim', 'T', 'index', 'loc', 'iloc', 'at', 'iat', 'dtype', 'empty',
               'str', 'dt', 'name', 'real', 'imag', 'flat', 'A1', 'data', 'dims', 'coords', 'attrs', 'args', 'lower_bound_',
               'days', 'year', 'month', 'day', 'hour', 'minute', 'time_', 'nbytes', 'dtypes', 'iterrows'}

CMP = {'eq': operator.eq, 'ne': operator.ne, 'lt': operator.lt, 'le': operator.le, 'gt': operator.gt, 'ge': operator.ge}
SWAP = {'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le', 'eq': 'eq', 'ne': 'ne'}
NEG = {'lt': 'ge', 'ge': 'lt', 'gt': 'le', 'le': 'gt', 'eq': 'ne', 'ne': 'eq'}
MASKY = {'isin', 'isnan', 'cmp', 'and', 'or', 'not', 'all', 'in1d', 'notnull', 'm:isin', 'm:startswith', 'm:contains',
         'm:duplicated', 'm:between', 'mask'}
OWNLEN_PRESERVE = {'m:astype', 'm:sort_values', 'sort', 'argsort', 'm:copy', 'm:lower', 'm:upper', 'index', 'attr',
                   'm:reset_index', 'm:rename', 'list', 'm:fillna', 'm:round', 'cumsum', 'm:set_index', 'm:apply', 'm:map',
                   'reversed', 'locset', 'setitem', 'm:assign', 'attr:index', 'm:shift', 'map'}
EXC_MATCH = {
    'zerodiv': {'ZeroDivisionError', 'Warning', 'RuntimeWarning', 'ArithmeticError', 'FloatingPointError', 'Exception', 'BaseException'},
    'domain': {'ValueError', 'Warning', 'RuntimeWarning', 'ArithmeticError', 'FloatingPointError', 'Exception', 'BaseException'},
    'none': {'TypeError', 'Exception', 'BaseException'},
    'parse': {'ValueError', 'Exception', 'BaseException'},
    'npwarn': {'Warning', 'RuntimeWarning', 'Exception', 'BaseException'},
    'pyzero': {'ZeroDivisionError', 'ArithmeticError', 'Exception', 'BaseException'},
    'pyoverflow': {'OverflowError', 'ArithmeticError', 'Exception', 'BaseException'},
    'pydomain': {'ValueError', 'Exception', 'BaseException'},
}
EXC_PARENTS = {
    'KeyError': {'LookupError'}, 'IndexError': {'LookupError'}, 'ZeroDivisionError': {'ArithmeticError'},
    'OverflowError': {'ArithmeticError'}, 'FloatingPointError': {'ArithmeticError'}, 'FileNotFoundError': {'OSError', 'IOError'},
    'RuntimeWarning': {'Warning'}, 'UnicodeDecodeError': {'ValueError'}, 'EmptyDataError': {'ValueError'},
    'NotImplementedError': {'RuntimeError'}, 'ModuleNotFoundError': {'ImportError'}, 'UserWarning': {'Warning'},
}


def exc_matches(kind, names):
    if names is None:
        return True
    if kind in EXC_MATCH:
        return bool(EXC_MATCH[kind] & names)
    if kind == 'any':
        return True
    if kind in names:
        return True
    if kind not in ('SystemExit', 'KeyboardInterrupt') and ('Exception' in names):
        return True
    if 'BaseException' in names:
        return True
    return bool(EXC_PARENTS.get(kind, set()) & names)


class Engine:
    def __init__(self, repo, reg=None, opaque=(), hooks=None, params_own_len=(), budget=400000, strict_none=()):
        self.repo = repo
        self.reg = reg or Registry()
        self.literals = {}
        self.opaque = dict(opaque) if isinstance(opaque, dict) else {k: None for k in opaque}
        self.returns = {}
        self.noted = {}
        self.hooks = hooks or {}
        self.own_len = set(params_own_len)
        self.strict_none = set(strict_none)
        self.store = {}
        self.ver = 0
        self.nid = 0
        self.active = ALL
        self.frames = []
        self.trys = []
        self.effects = []
        self.unsupported = []
        self.raised = NONE_
        self.raise_fp = ZERO
        self.assume = ALL
        self.steps = 0
        self.budget = budget
        self.fpmemo = {}
        self.kidbase = {}
        self.np_call = False
        self.warn_err = NONE_
        self.cand = self._candidates()
        self.inlined = set()
        self.depth = 0
        self.cur = None
        self.lane_n = self._lane_len()
        from . import lib
        self.lib = lib.Lib(self)
        self.NONE = self.const(None)
        self.TRUE = self.const(True)
        self.FALSE = self.const(False)

    # ---------------------------------------------------------------- basics
    def _candidates(self):
        t = set(self.reg.thresholds) | {0.0, 1.0, 2.0, 3.0}
        t |= {-x for x in t}
        t = sorted(t)
        out = []
        if len(t) > 60:
            t = t[::max(1, len(t) // 60)]
        for i, x in enumerate(t):
            out.append(x)
            if i + 1 < len(t):
                out.append((x + t[i + 1]) / 2)
        out = [t[0] - 1] + out + [t[-1] + 1]
        return np.array(out, dtype=float)

    def _lane_len(self):
        cand = [0, 1, 1, 2, 2, 3, 3, 3, 3, 3]
        for c in sorted(self.reg.lens):
            if c > 2:
                cand += [int(c) - 1, int(c), int(c) + 1]
        h = lane_hash('len', [])
        return np.array([cand[int(x) % len(cand)] for x in h], dtype=I64)

    def tick(self):
        self.steps += 1
        if self.steps > self.budget:
            raise Budget()

    def unsup(self, what, node=None):
        self.unsupported.append((what, getattr(node, 'lineno', 0)))

    def const(self, x):
        if isinstance(x, (tuple, list)):
            return self.new_list([self.const(e) for e in x], kind='tuple' if isinstance(x, tuple) else 'list')
        fp = full(const_fp(x))
        if x is None:
            return V(fp, 'none', (x,), sc=True)
        if isinstance(x, bool):
            return V(fp, 'bool', (x,), sc=True, ival=np.full(L, int(x), dtype=I64))
        if isinstance(x, int):
            off = np.full(L, float(x) if abs(x) < 1e300 else 1e300)
            iv = np.full(L, x, dtype=I64) if abs(x) < 2 ** 62 else None
            return V(fp, 'num', (x,), sc=True, ival=iv, offr=off, offp=fp)
        if isinstance(x, float) or isinstance(x, Fraction):
            fx = float(x)
            if math.isfinite(fx):
                return V(fp, 'num', (x,), sc=True, offr=np.full(L, fx), offp=fp)
            return V(fp, 'num', (x,), sc=True)
        if isinstance(x, str):
            return V(fp, 'str', (x,), sc=True)
        return V(fp, 'unk', (x,), sc=True)

    def intv(self, arr):
        arr = np.asarray(arr, dtype=I64)
        if (arr == arr[0]).all():
            return self.const(int(arr[0]))
        fp = (arr % P).astype(np.uint64)
        return V(fp, 'num', ival=arr, sc=True, node=('int',), offr=arr.astype(float), offp=fp)

    def boolv(self, bits, node=None, raw=None):
        if bits.all():
            return V(full(1), 'bool', (True,), sc=True, ival=np.ones(L, dtype=I64)) if raw is None else V(full(1), 'bool', None, node, raw=raw)
        if not bits.any() and raw is None:
            return V(full(0), 'bool', (False,), sc=True, ival=np.zeros(L, dtype=I64))
        return V(bits.astype(np.uint64), 'bool', None, node, raw=raw)

    def sym(self, name, ty='unk'):
        fp = self.bias(sym_fp(name))
        return V(fp, ty, node=('sym', name))

    def ident(self, fp):
        return fp[:UNB].tobytes()

    def bias(self, fp):
        s = self.reg.consts.get(self.ident(fp))
        if not s:
            return fp
        c = sorted(s)
        keep = max(2, len(c) // 2)
        h = lane_hash('bias', [fp]) % np.uint64(len(c) + keep)
        out = fp.copy()
        for i, k in enumerate(c):
            m = h == np.uint64(i)
            m[:UNB] = False
            if k == NONE_FP:
                m = m & ~BENIGN
            out[m] = k
        return out

    def op(self, tag, args, ty='unk', extra=(), sc=False, node=None):
        self.tick()
        fp = hash_fp(tag, [self.A(a) for a in args] + list(extra))
        return V(self.bias(fp), ty, node=node or ((tag,) + tuple(args)), sc=sc)

    def atom(self, tag, args, prob=2, extra=()):
        raw = hash_fp(tag, [self.A(a) for a in args] + list(extra))
        bits = (lane_hash('atom', [raw]) % np.uint64(prob)) == 0
        return V(bits.astype(np.uint64), 'bool', None, ('atom', tag) + tuple(args), raw=raw)

    # refs and store
    def new_ref(self, content):
        self.nid += 1
        content.born = self.active
        self.store[self.nid] = content
        return V(None, 'ref', pay=self.nid)

    def new_list(self, cells, n=None, arr=False, kind='list'):
        if n is None:
            n = np.full(L, len(cells), dtype=I64)
        return self.new_ref(ListC(n, list(cells), arr, kind=kind))

    def new_map(self, base=None, ents=(), cls=None):
        return self.new_ref(MapC(base, tuple(ents), cls))

    def content(self, v):
        return self.store[v.pay] if v.ty == 'ref' else None

    def put(self, v, content):
        self.ver += 1
        content.born = self.store[v.pay].born
        self.store[v.pay] = content

    def val(self, v):
        """Strip a reference whose object is an unmodified opaque value."""
        if v.ty == 'ref':
            c = self.store[v.pay]
            if isinstance(c, MapC) and c.base is not None and not c.ents and c.cls is None and not self.kids_changed(c):
                return self.val(c.base)
        return v

    def kid_changed(self, key, kid):
        kc = self.store[kid.pay]
        return not isinstance(kc, MapC) or kc.ents or kc.base is not self.kidbase.get(kid.pay, kc.base) or self.kids_changed(kc)

    def kids_changed(self, c):
        return any(self.kid_changed(key, kid) for key, kid in c.kids.values())

    def listc(self, v):
        if v.ty == 'ref':
            c = self.store[v.pay]
            if isinstance(c, ListC):
                return c
        return None

    def mapc(self, v):
        if v.ty == 'ref':
            c = self.store[v.pay]
            if isinstance(c, MapC):
                return c
        return None

    def F(self, v):
        if v.ty == 'ite':
            # the objects chosen between may have changed since
            m = self.fpmemo.get(id(v))
            if m is not None and m[0] == self.ver and m[2] is v:
                return m[1]
            h = np.where(v.node[1], self.F(v.node[2]), self.F(v.node[3]))
            self.fpmemo[id(v)] = (self.ver, h, v)
            return h
        if v.fp is not None:
            return v.fp
        c = self.store[v.pay]
        m = self.fpmemo.get(v.pay)
        if m is not None and m[0] == self.ver:
            return m[1]
        self.fpmemo[v.pay] = (self.ver, full(7))      # guards cycles
        if isinstance(c, ListC):
            h = hash_fp('list', [(c.n % P).astype(np.uint64)])
            for j, cell in enumerate(c.cells):
                live = c.n > j
                if not live.any():
                    break
                hh = hash_fp('l', [h, self.LA(cell)])
                h = hh if live.all() else np.where(live, hh, h)
        elif isinstance(c, FrameC):
            h = hash_fp('frame', [(c.n % P).astype(np.uint64)])
            for k, col in c.cols:
                h = hash_fp('col', [h, self.F(k), self.F(col)])
        else:
            ents = self.live_entries(c)
            if c.base is not None:
                b = self.F(c.base)
            else:
                b = full(11)
            if not ents:
                h = b if c.base is not None else hash_fp('dict', [ZERO])
            else:
                tot = ZERO
                anyl = NONE_
                for m_, k, val in ents:
                    e = hash_fp('ent', [self.F(k), self.F(val)])
                    tot = (tot + np.where(m_, e, np.uint64(0))) % PP
                    anyl = anyl | m_
                if c.base is not None:
                    h = np.where(anyl, hash_fp('map', [b, tot]), b)
                else:
                    h = hash_fp('dict', [tot])
        self.fpmemo[v.pay] = (self.ver, h)
        return h

    def live_entries(self, c):
        ents = []
        for k, (key, kid) in c.kids.items():
            if self.kid_changed(key, kid):
                ents.append((None, key, kid))
        ents += list(c.ents)
        out = []
        constseen = set()
        over = []
        for m, k, val in reversed(ents):
            if k.c is not None and m is None:
                kk = (type(k.c[0]).__name__ if not isinstance(k.c[0], (int, float, bool)) else 'n', k.c[0])
                if kk in constseen:
                    continue
            live = ALL if m is None else m
            for (m2, k2) in over:
                if k2.c is not None and k.c is not None:
                    if k2.c[0] != k.c[0]:
                        continue
                    live = live & ~m2
                else:
                    live = live & ~(m2 & (self.F(k2) == self.F(k)))
            if k.c is not None and m is None:
                constseen.add(kk)
                nonconst = [o for o in over if o[1].c is None]
                if nonconst or True:
                    over.append((ALL, k))
            else:
                over.append((ALL if m is None else m, k))
            if live.any():
                out.append((live, k, val))
        return out

    def ordered_keys(self, c):
        """(lanes, key) in the order of insertion."""
        out = []
        for m, k, _ in c.ents:
            new = ALL if m is None else m
            for m2, k2 in out:
                if k2.c is not None and k.c is not None:
                    if k2.c[0] == k.c[0] and isinstance(k2.c[0], str) == isinstance(k.c[0], str):
                        new = new & ~m2
                else:
                    new = new & ~(m2 & (self.F(k2) == self.F(k)))
            if new.any():
                out.append((new, k))
        return out

    def A(self, v):
        """Fingerprint of a value used as an operand of an uninterpreted operation."""
        if v.ty == 'bool' and v.c is None:
            return self.mfp(v)
        return self.F(v)

    def LA(self, v):
        return self.A(v)

    def mfp(self, v):
        """Identity of a Boolean (possibly elementwise) value."""
        v = self.val(v)
        if v.raw is not None:
            return v.raw
        n = v.node
        if v.ty != 'bool' or n is None or v.c is not None:
            return self.F(v)
        if n[0] == 'cmp':
            o, a, b = n[1], n[2], n[3]
            if o in ('gt', 'ge'):
                o, a, b = SWAP[o], b, a
            fa, fb = self.F(a), self.F(b)
            if o in ('eq', 'ne'):
                r = hash_fp('cmpeq', [(fa + fb) % PP, (fa * fb) % PP])
                return r if o == 'eq' else hash_fp('not', [r])
            return hash_fp('cmp' + o, [fa, fb])
        if n[0] == 'itebool':
            return np.where(n[3], self.mfp(n[1]), self.mfp(n[2]))
        if n[0] == 'not':
            x = n[1]
            xn = x.node
            if xn and xn[0] == 'not':
                return self.mfp(xn[1])
            if xn and xn[0] == 'cmp' and x.raw is None:
                return self.mfp(V(v.fp, 'bool', node=('cmp', NEG[xn[1]], xn[2], xn[3])))
            return hash_fp('not', [self.mfp(x)])
        if n[0] in ('and', 'or'):
            parts = []
            st = [v]
            while st:
                y = st.pop()
                if y.node and y.node[0] == n[0] and y.raw is None:
                    st.extend(y.node[1:])
                else:
                    parts.append(self.mfp(y))
            tot = ZERO
            seen = set()
            for p_ in parts:
                key = p_.tobytes()
                if key in seen:
                    continue
                seen.add(key)
                tot = (tot + hash_fp('part', [p_])) % PP
            return hash_fp(n[0], [tot])
        return v.fp

    # ---------------------------------------------------------------- joins
    def ite(self, m, a, b, cond=None):
        """m: lane mask selecting a."""
        if a is b:
            return a
        if m.all():
            return a
        if not m.any():
            return b
        if a.ty == 'undef':
            return b
        if b.ty == 'undef':
            return a
        if a.ty == 'ref' and b.ty == 'ref' and a.pay == b.pay:
            return a
        if cond is not None:
            r = self.minmax_pattern(cond, a, b)
            if r is not None:
                return r
        if a.ty in ('ref', 'ite') or b.ty in ('ref', 'ite') or a.pay is not None or b.pay is not None:
            fa, fb = self.F(a), self.F(b)
            return V(np.where(m, fa, fb), 'ite', node=('ite', m, a, b))
        fa, fb = a.fp, b.fp
        if np.array_equal(fa, fb) and a.ty == b.ty:
            if a.raw is None and b.raw is None:
                return a
            if a.raw is not None and b.raw is not None and np.array_equal(a.raw, b.raw):
                return a
        ty = a.ty if a.ty == b.ty else 'unk'
        iv = np.where(m, a.ival, b.ival) if (a.ival is not None and b.ival is not None) else None
        offr = offp = None
        if a.offr is not None or b.offr is not None:
            z = np.zeros(L)
            offr = np.where(m, a.offr if a.offr is not None else z, b.offr if b.offr is not None else z)
            offp = np.where(m, a.offp if a.offp is not None else ZERO, b.offp if b.offp is not None else ZERO)
        if ty == 'bool':
            return V(np.where(m, fa, fb), 'bool', node=('itebool', a, b, m))
        if {a.ty, b.ty} == {'num', 'bool'}:
            ty = 'num'
        r = V(np.where(m, fa, fb), ty, node=('ite', m, a, b), ival=iv, offr=offr, offp=offp, sc=a.sc and b.sc)
        r.np = a.np if a.np == b.np or b.c is not None else b.np if a.c is not None else None
        return r

    def minmax_pattern(self, cond, a, b):
        cond = self.val(cond)
        n = cond.node
        if n is None or n[0] != 'cmp' or n[1] not in ('lt', 'le', 'gt', 'ge') or cond.raw is not None:
            return None
        if a.ty == 'ref' or b.ty == 'ref' or a.pay is not None or b.pay is not None:
            return None
        o, x, y = n[1], n[2], n[3]
        fx, fy, fa, fb = self.F(x), self.F(y), self.F(a), self.F(b)
        if x.ival is not None and y.ival is not None:
            return None
        if np.array_equal(fx, fa) and np.array_equal(fy, fb):
            return self.lib.minmax('max' if o in ('gt', 'ge') else 'min', a, b)
        if np.array_equal(fx, fb) and np.array_equal(fy, fa):
            return self.lib.minmax('min' if o in ('gt', 'ge') else 'max', a, b)
        if y.c is not None and y.c[0] == 0 and not isinstance(y.c[0], bool):
            na = (PP - fa) % PP
            if np.array_equal(na, fb):
                if np.array_equal(fx, fa):
                    r = self.abs_(a)
                    return r if o in ('gt', 'ge') else self.neg(r)
                if np.array_equal(fx, fb):
                    r = self.abs_(a)
                    return r if o in ('lt', 'le') else self.neg(r)
        return None

    def opaque_pick(self, v):
        """Distribute over an 'ite' of object values."""
        return v.node is not None and v.node[0] == 'ite' and v.ty == 'ite'

    def dist(self, v, fn):
        m, a, b = v.node[1], v.node[2], v.node[3]
        ra = self.with_mask(m, lambda: fn(a))
        rb = self.with_mask(~m, lambda: fn(b))
        if ra is None:
            ra = V(full(UNDEF_FP), 'undef')
        if rb is None:
            rb = V(full(UNDEF_FP), 'undef')
        return self.ite(m, ra, rb)

    def with_mask(self, m, fn):
        saved = self.active
        cur = saved & m
        if not cur.any():
            return None
        self.active = cur
        try:
            r = fn()
        finally:
            dead = cur & ~self.active
            self.active = saved & ~dead
        return r

    # ---------------------------------------------------------------- numbers
    def reals(self, base):
        """Pseudo-real per lane for a field element (odd function)."""
        neg = base > np.uint64(P // 2)
        m = np.where(neg, PP - base, base)
        idx = (lane_hash('real', [m]) % np.uint64(len(self.cand))).astype(I64)
        r = self.cand[idx]
        r = np.where(BENIGN & (r == 0), 0.37, r)
        r = np.where(neg, -r, r)
        return np.where(base == 0, 0.0, r)

    def real_of(self, v):
        v = self.val(v)
        if v.ival is not None:
            return v.ival.astype(float)
        if v.c is not None and isinstance(v.c[0], (int, float)):
            return np.full(L, float(v.c[0]))
        f = self.F(v)
        if v.offr is not None:
            return self.reals((f + PP - v.offp) % PP) + v.offr
        return self.reals(f)

    def settled(self, v):
        """The real number this is in each lane, when nothing about it is unknown."""
        if v.ival is not None:
            return v.ival.astype(float)
        if v.c is not None:
            return np.full(L, float(v.c[0])) if isinstance(v.c[0], (int, float, Fraction)) else None
        if v.offr is not None and v.fp is not None and (v.offp == v.fp).all():
            return v.offr
        return None

    def num2(self, name, a, b):
        """Binary field operation on scalars/opaque arrays."""
        fa, fb = self.F(a), self.F(b)
        ca = a.c[0] if a.c is not None and isinstance(a.c[0], (int, float, Fraction)) else None
        cb = b.c[0] if b.c is not None and isinstance(b.c[0], (int, float, Fraction)) else None
        if ca is not None and cb is not None:
            r = self.fold2(name, ca, cb)
            if r is not None:
                return self.const(r)
        iv = None
        if a.ival is not None and b.ival is not None:
            with np.errstate(all='ignore'):
                if name == 'add':
                    iv = a.ival + b.ival
                elif name == 'sub':
                    iv = a.ival - b.ival
                elif name == 'mul':
                    iv = a.ival * b.ival
                elif name == 'floordiv':
                    iv = np.where(b.ival != 0, a.ival // np.where(b.ival == 0, 1, b.ival), 0)
                elif name == 'mod':
                    iv = np.where(b.ival != 0, a.ival % np.where(b.ival == 0, 1, b.ival), 0)
            if iv is not None:
                return self.intv(iv)
        sc = a.sc and b.sc
        node = ('ew', name, (a, b))
        offr = offp = None
        if name == 'add':
            fp = (fa + fb) % PP
            offr, offp = self.offs(a, b, 1)
        elif name == 'sub':
            fp = (fa + PP - fb) % PP
            offr, offp = self.offs(a, b, -1)
        elif name == 'mul':
            fp = (fa * fb) % PP
            ra, rb = self.settled(a), self.settled(b)
            if ra is not None and rb is not None:
                offr, offp = ra * rb, fp
            k = cb if cb is not None else ca
            x = a if cb is not None else b
            if offr is None and k is not None and x.offr is not None:
                offr = x.offr * float(k)
                offp = (x.offp * np.uint64(num_fp(k))) % PP
        elif name == 'div':
            if cb is not None and cb != 0 and not (isinstance(cb, float) and not math.isfinite(cb)):
                fp = (fa * np.uint64(pow(num_fp(cb), P - 2, P))) % PP
                if a.offr is not None:
                    offr = a.offr / float(cb)
                    offp = (a.offp * np.uint64(pow(num_fp(cb), P - 2, P))) % PP
            else:
                fp = (fa * inv(fb)) % PP
                if b.ty == 'bool':
                    fp = np.where(fb == 0, hash_fp('n:over none', [fa]), fp)
                quiet = self.div_exc(b, self.knd(a, b))
                ra, rb = self.settled(a), self.settled(b)
                if (quiet is None or not quiet.any()) and ra is not None and rb is not None:
                    offr, offp = ra / np.where(rb == 0, 1, rb), fp
                    offr = np.where(rb == 0, 0.0, offr)
                if quiet is not None:
                    fp = np.where(quiet, np.where((LANES >> np.uint64(1)) & np.uint64(1), np.uint64(NAN_FP), np.uint64(INF_FP)), fp)
        else:
            if name in ('floordiv', 'mod'):
                self.div_exc(b, self.knd(a, b))
            fp = hash_fp('n:' + name, [fa, fb])
        r = V(fp, 'num', node=node, sc=sc, offr=offr, offp=offp)
        r.np = self.knd(a, b)
        if r.np:
            self.poison(r, a, b)
            if name == 'div' and b.np:
                z = (fb == np.uint64(INF_FP)) & (fa != np.uint64(INF_FP)) & (fa != np.uint64(NAN_FP))
                if z.any():
                    r.fp = np.where(z, np.uint64(0), r.fp)
        return r

    def knd(self, *vs):
        """Is the result of arithmetic on these a numpy or a plain Python number (None: unknown)?"""
        ks = [v.np if v.c is None and v.ival is None else 'c' for v in vs]
        if 'np' in ks:
            return 'np'
        if 'py' in ks and all(k in ('py', 'c') for k in ks):
            return 'py'
        return None

    def poison(self, r, *vs, solid=False):
        """An undefined number stays undefined through arithmetic."""
        for code in (INF_FP, NAN_FP):
            for v in vs:
                if v.np and v.fp is not None:
                    z = v.fp == np.uint64(code)
                    if z.any():
                        r.fp = np.where(z, np.uint64(NAN_FP if solid else code), r.fp)
        return r

    def undefined(self, v):
        """Converting an undefined or infinite number to an integer fails."""
        if v.np and v.fp is not None:
            self.raise_lanes(v.fp == np.uint64(NAN_FP), 'pydomain')
            self.raise_lanes(v.fp == np.uint64(INF_FP), 'pyoverflow')

    def offs(self, a, b, sg):
        if a.offr is None and b.offr is None:
            return None, None
        z = np.zeros(L)
        ar = a.offr if a.offr is not None else z
        ap = a.offp if a.offp is not None else ZERO
        br = b.offr if b.offr is not None else z
        bp = b.offp if b.offp is not None else ZERO
        if sg > 0:
            return ar + br, (ap + bp) % PP
        return ar - br, (ap + PP - bp) % PP

    def fold2(self, name, x, y):
        try:
            if name == 'add':
                return self.exact(x, y, lambda p, q: p + q)
            if name == 'sub':
                return self.exact(x, y, lambda p, q: p - q)
            if name == 'mul':
                return self.exact(x, y, lambda p, q: p * q)
            if name == 'div':
                if y == 0:
                    return None
                return self.exact(x, y, lambda p, q: Fraction(p) / Fraction(q))
            if name == 'floordiv' and y != 0:
                return x // y
            if name == 'mod' and y != 0:
                return x % y
            if name == 'pow':
                if abs(y) > 64 or abs(x) > 1e12:
                    return None
                if isinstance(y, int) or (isinstance(y, (float, Fraction)) and y == int(y)):
                    yy = int(y)
                    xx = self.frac(x)
                    if xx == 0 and yy < 0:
                        return None
                    r = xx ** yy
                    return self.unfrac(r, x)
                return None
        except (OverflowError, ZeroDivisionError, ValueError):
            return None
        return None

    @staticmethod
    def frac(x):
        if isinstance(x, float):
            return Fraction(repr(x))
        return Fraction(x)

    @staticmethod
    def unfrac(r, like):
        if r.denominator == 1 and isinstance(like, int):
            return int(r)
        return r

    def exact(self, x, y, f):
        for z in (x, y):
            if isinstance(z, float) and not math.isfinite(z):
                try:
                    return f(float(x), float(y))
                except (OverflowError, ValueError):
                    return None
        r = f(self.frac(x), self.frac(y))
        if isinstance(x, int) and isinstance(y, int) and r.denominator == 1:
            return int(r)
        return r

    def div_exc(self, b, knd=None):
        """Failure of a division; the lanes in which it quietly gives no number are returned."""
        if b.c is None and (self.trys or knd == 'np'):
            if b.ival is not None:
                z = b.ival == 0
            else:
                z = self.real_of(b) == 0
            self.note_threshold(b)
            if knd == 'np':
                self.raise_lanes(z & self.warn_err, 'npwarn')
                return z & ~self.warn_err
            self.raise_lanes(z, 'pyzero' if knd == 'py' else 'zerodiv')
        elif self.trys and b.c is not None and b.c[0] == 0:
            self.raise_lanes(ALL, 'zerodiv')
        return None

    def domain_exc(self, a, z, npc):
        """Failure of a root or logarithm outside its domain."""
        k = self.knd(a)
        if npc:
            self.raise_lanes(z & self.warn_err, 'npwarn')
            if k:
                return z & ~self.warn_err
        else:
            self.raise_lanes(z, 'pydomain' if k else 'domain')
        return None

    def note_threshold(self, d):
        if d.offr is not None and self.settled(d) is None:
            for t in np.unique(d.offr):
                if len(self.reg.thresholds) < 80 and math.isfinite(t):
                    self.reg.thresholds.add(float(-t))
                    self.reg.thresholds.add(float(t))

    def none_exc(self, *vs):
        if not self.trys:
            return
        for v in vs:
            v = self.val(v)
            if v.fp is not None and v.ty in ('unk', 'none', 'ite'):
                self.raise_lanes(v.fp == np.uint64(NONE_FP), 'none')

    def arith(self, name, a, b):
        self.tick()
        a, b = self.val(a), self.val(b)
        if a.ty == 'ite':
            return self.dist(a, lambda x: self.arith(name, x, b))
        if b.ty == 'ite':
            return self.dist(b, lambda x: self.arith(name, a, x))
        la, lb = self.listc(a), self.listc(b)
        if la is not None or lb is not None:
            r = self.list_arith(name, a, b, la, lb)
            if r is not None:
                return r
        if name == 'add' and (a.ty == 'str' or b.ty == 'str'):
            return self.concat([a, b])
        if name == 'mod' and a.ty == 'str':
            return self.lib.percent_format(a, b)
        if name == 'mul' and (a.ty == 'str' or b.ty == 'str'):
            if a.c is not None and b.c is not None:
                try:
                    return self.const(a.c[0] * b.c[0])
                except TypeError:
                    pass
            return self.op('strmul', [a, b], 'str')
        if self.mapc(a) is not None or self.mapc(b) is not None:
            ma = self.mapc(a) or self.mapc(b)
            if name == 'sub' or (ma.cls is not None):
                return self.op('objop:' + name, [a, b])
        self.none_exc(a, b)
        if name == 'pow':
            return self.power(a, b)
        for x, y in ((a, b), (b, a)):
            if x.c is not None and isinstance(x.c[0], float) and math.isnan(x.c[0]) and y.ty == 'num' and (y.c is not None or y.sc):
                return x
        a, b = self.plain(a), self.plain(b)
        r = self.num2(name, a, b)
        if r.c is None and r.fp is not None:
            for x in (a, b):
                if x.node is not None and x.node[0] in ('ite', 'where3', 'lacks'):
                    z = x.fp == np.uint64(NAN_FP)
                    if z.any():     # missing where an operand is
                        y = V(np.where(z, np.uint64(NAN_FP), r.fp), 'num', node=('lacks', r), sc=r.sc, offr=r.offr, offp=r.offp)
                        y.np = r.np
                        r = y
        return r

    def plain(self, v):
        if v.fp is None:
            if v.ty == 'ref' and isinstance(self.store[v.pay], MapC) and self.store[v.pay].base is not None:
                return V(self.F(v), 'unk', node=('obj', self.lib.copy_obj(v, False)))     # as it is now: the object may change later
            return V(self.F(v), 'unk', node=('obj', v))
        return v

    def list_arith(self, name, a, b, la, lb):
        if name == 'add' and not ((la and la.arr) or (lb and lb.arr)):
            if la is not None and lb is not None:
                return self.list_concat(la, lb)
            if la is None and self.opaque_seqlike(a) or lb is None and self.opaque_seqlike(b):
                return self.op('lcat', [a, b])
            return self.op('lcat', [a, b])
        if name == 'mul' and not ((la and la.arr) or (lb and lb.arr)):
            lst, k = (la, b) if la is not None else (lb, a)
            k = self.val(k)
            if k.ival is not None and (lst.n == 1).all():
                mx = int(min(max(k.ival.max(), 0), 64))
                return self.new_list([lst.cells[0]] * mx, n=np.clip(k.ival, 0, mx))
            if k.c is not None and isinstance(k.c[0], int) and (lst.n == lst.n[0]).all():
                return self.new_list(lst.cells[:int(lst.n[0])] * k.c[0])
            if (lst.n == 1).all():
                n = self.count_of(k)
                return self.new_list([lst.cells[0]] * int(n.max()), n=n)
            return None
        if (la and la.arr) or (lb and lb.arr):
            r = self.lib.gr.map(lambda x, y: self.arith(name, x, y), a, b)
            if r is not None:
                return r
            n = la.n if la is not None else lb.n
            if la is not None and lb is not None:
                n = np.where((la.n == 1), lb.n, la.n)
            m = max(len(la.cells) if la else 0, len(lb.cells) if lb else 0)
            cells = [self.arith(name, self.idx_arg(a, j), self.idx_arg(b, j)) for j in range(m)]
            return self.new_list(cells, n=n, arr=True)
        if (la is None) != (lb is None) and name not in ('mod',):
            other = b if lb is None else a
            if other.c is None and other.ival is None and other.np != 'py' and other.ty in ('num', 'unk'):     # a list and a numpy number: cell by cell
                if la is not None:
                    return self.arith(name, self.new_list(la.cells, n=la.n, arr=True), b)
                return self.arith(name, a, self.new_list(lb.cells, n=lb.n, arr=True))
        return None

    def opaque_seqlike(self, v):
        return False

    def list_concat(self, la, lb):
        ua, ub = (la.n == la.n[0]).all(), (lb.n == lb.n[0]).all()
        kind = la.kind
        if ua and ub:
            return self.new_list(la.cells[:int(la.n[0])] + lb.cells[:int(lb.n[0])], kind=kind)
        r = self.new_list(list(la.cells), n=la.n.copy(), kind=kind)
        for j, c in enumerate(lb.cells):
            self.list_push(r, c, lb.n > j)
        return r

    def idx_arg(self, a, j):
        a = self.val(a)
        if a.c is not None or a.sc:
            return a
        return self.index(a, self.const(j))

    def power(self, a, b):
        if a.c is not None and b.c is not None:
            r = self.fold2('pow', a.c[0], b.c[0])
            if r is not None:
                return self.const(r)
        if b.c is not None and isinstance(b.c[0], (int, float, Fraction)):
            e = self.frac(b.c[0]) if not (isinstance(b.c[0], float) and not math.isfinite(b.c[0])) else None
            if e is not None:
                if e.denominator == 1 and 0 <= e <= 64:
                    r = V(pow_fp(self.F(a), int(e)), 'num', node=('ew', 'pow', (a, b)), sc=a.sc)
                    r.np = a.np
                    if a.np:
                        self.poison(r, a)
                    if a.ival is not None and e <= 4:
                        return self.intv(a.ival ** int(e))
                    x = self.settled(a)
                    if x is not None and e <= 8 and (np.abs(x) < 1e30).all():
                        r.offr, r.offp = x ** int(e), r.fp
                    return r
                if e.denominator == 1 and -64 <= e < 0:
                    return self.arith('div', self.const(1), self.power(a, self.const(-int(e))))
                if e.denominator == 2:
                    r = self.sqrt(a)
                    k = (abs(e) - Fraction(1, 2))
                    if k:
                        r = self.arith('mul', r, self.power(a, self.const(int(k))))
                    if e < 0:
                        r = self.arith('div', self.const(1), r)
                    return r
        return V(hash_fp('n:pow', [self.F(a), self.F(b)]), 'num', node=('ew', 'pow', (a, b)), sc=a.sc and b.sc)

    def sqrt(self, a):
        a = self.val(a)
        if a.ty == 'ite':
            return self.dist(a, self.sqrt)
        lc = self.listc(a)
        if lc is not None:
            return self.new_list([self.sqrt(c) for c in lc.cells], n=lc.n, arr=True)
        if a.c is not None and isinstance(a.c[0], (int, float, Fraction)) and a.c[0] >= 0:
            fr = self.frac(a.c[0])
            x, y = math.isqrt(fr.numerator), math.isqrt(fr.denominator)
            if x * x == fr.numerator and y * y == fr.denominator:
                return self.const(Fraction(x, y) if y != 1 else x)
        self.none_exc(a)
        quiet = None
        if (self.trys or a.np) and a.c is None:
            self.note_threshold(a)
            quiet = self.domain_exc(a, self.real_of(a) < 0, self.np_call)
        a = self.plain(a)
        r = self.mathfn('sqrt', a, quiet)
        r.fp = np.where(a.fp == 0, np.uint64(0), r.fp)
        x = self.settled(a)
        if x is not None and (quiet is None or not quiet.any()):
            r.offr, r.offp = np.sqrt(np.where(x < 0, 0.0, x)), r.fp
        return r

    def rounded(self, name, a):
        """The integer a settled number rounds to, unless it is too close to where the result changes."""
        if isinstance(a.c[0] if a.c is not None else None, (int, Fraction)):
            return self.const({'floor': math.floor, 'ceil': math.ceil, 'int': math.trunc, 'trunc': math.trunc}.get(name, round)(a.c[0]))
        x = self.settled(a)
        if x is None or not np.isfinite(x).all() or (np.abs(x) > 1e12).any():
            return None
        y = x + 0.5 if name in ('round', 'rint') else x
        near = np.abs(y - np.round(y)) < 1e-9 * np.maximum(1.0, np.abs(y))
        if near.any():
            exact = np.round(x).astype(I64)
            if name in ('round', 'rint') or not ((self.F(a) == (exact % P).astype(np.uint64)) | ~near).all():
                return None
            x = np.where(near, exact, x)
        n = {'floor': np.floor, 'ceil': np.ceil, 'int': np.trunc, 'trunc': np.trunc}.get(name, np.round)(x).astype(I64)
        return self.const(int(n[0])) if (n == n[0]).all() else self.intv(n)

    REALS = {'cos': np.cos, 'sin': np.sin, 'tan': np.tan, 'exp': np.exp, 'arctan': np.arctan, 'atan': np.arctan}

    def mathfn(self, name, a, quiet=None):
        fp = hash_fp('n:' + name, [a.fp])
        if quiet is not None:
            fp = np.where(quiet, np.uint64(NAN_FP), fp)
        r = V(fp, 'num', node=('ew', name, (a,)), sc=a.sc)
        if a.np or a.c is not None or a.ival is not None:
            r.np = 'np' if self.np_call else 'py'
        if name in self.REALS:
            x = self.settled(a)
            if x is not None and (np.abs(x) < 500).all():
                r.offr, r.offp = self.REALS[name](x), r.fp
        return self.poison(r, a) if a.np else r

    def log(self, a, kind='log'):
        a = self.val(a)
        if a.ty == 'ite':
            return self.dist(a, lambda x: self.log(x, kind))
        lc = self.listc(a)
        if lc is not None:
            return self.new_list([self.log(c, kind) for c in lc.cells], n=lc.n, arr=True)
        if a.c is not None and a.c[0] == 1:
            return self.const(0)
        if a.c is not None and isinstance(a.c[0], (int, float, Fraction)) and a.c[0] > 0 and kind in ('log2', 'log10') and getattr(math, kind)(a.c[0]).is_integer():
            return self.const(int(getattr(math, kind)(a.c[0])))
        self.none_exc(a)
        quiet = None
        if (self.trys or a.np) and a.c is None:
            self.note_threshold(a)
            quiet = self.domain_exc(a, self.real_of(a) <= 0, self.np_call)
        a = self.plain(a)
        r = self.mathfn(kind, a, quiet)
        x = self.settled(a)
        if x is not None and (x > 0).all():
            r.offr, r.offp = getattr(np, kind)(x), r.fp
        return r

    def ew1(self, name, a):
        """Uninterpreted elementwise unary function."""
        a = self.val(a)
        if a.ty == 'ite':
            return self.dist(a, lambda x: self.ew1(name, x))
        lc = self.listc(a)
        if lc is not None:
            return self.new_list([self.ew1(name, c) for c in lc.cells], n=lc.n, arr=True)
        if name in ('log', 'log10', 'log2', 'log1p'):
            return self.log(a, name)
        if name == 'sqrt':
            return self.sqrt(a)
        if name == 'abs':
            return self.abs_(a)
        if name == 'neg':
            return self.neg(a)
        if name == 'isnan':
            return self.isnan(a)
        if name == 'sign' and a.ty == 'num' and a.sc:
            self.none_exc(a)
            return self.intv(self.bits(self.compare('gt', a, self.const(0))).astype(I64) - self.bits(self.compare('lt', a, self.const(0))))
        self.none_exc(a)
        if a.ival is not None and name in ('floor', 'ceil', 'rint'):
            return a
        if a.c is not None and isinstance(a.c[0], (int, float, Fraction)):
            if name == 'floor':
                return self.const(math.floor(a.c[0]))
            if name == 'ceil':
                return self.const(math.ceil(a.c[0]))
        if name in ('floor', 'ceil', 'rint', 'trunc'):
            r = self.rounded(name, a)
            if r is not None:
                return r
        a = self.plain(a)
        if name in ('floor', 'ceil') and not self.np_call and a.np:
            self.undefined(a)
        return self.mathfn(name, a)

    def ewn(self, name, args):
        a = [self.plain(self.val(x)) for x in args]
        r = V(hash_fp('n:' + name, [x.fp for x in a]), 'num', node=('ew', name, tuple(a)), sc=all(x.sc for x in a))
        if self.knd(*a):
            r.np = 'np' if self.np_call else 'py'
            self.poison(r, *a, solid=True)
        return r

    def neg(self, a):
        a = self.val(a)
        if a.ty == 'ite':
            return self.dist(a, self.neg)
        return self.arith('mul', self.const(-1), a)

    def abs_(self, a):
        a = self.val(a)
        if a.ty == 'ite':
            return self.dist(a, self.abs_)
        if a.c is not None and isinstance(a.c[0], (int, float, Fraction)):
            return self.const(abs(a.c[0]))
        if a.ival is not None:
            return self.intv(np.abs(a.ival))
        lc = self.listc(a)
        if lc is not None:
            return self.new_list([self.abs_(c) for c in lc.cells], n=lc.n, arr=True)
        self.none_exc(a)
        a = self.plain(a)
        m = np.where(a.fp > np.uint64(P // 2), PP - a.fp, a.fp)
        r = V(hash_fp('n:abs', [m]), 'num', node=('ew', 'abs', (a,)), sc=a.sc)
        r.np = a.np
        return self.poison(r, a) if a.np else r

    def literal(self, v):
        """Is v one of the program's constants in every lane (a choice between constants, or text made of such)?"""
        v = self.val(v)
        if v.c is not None or v.ty == 'undef':
            return True
        if v.node is None or v.node[0] not in ('ite', 'cat', 'str'):
            return False
        known = self.literals.get(id(v))
        if known is None:
            known = self.literals[id(v)] = (v, all(self.literal(x) for x in v.node[1:] if isinstance(x, V)))
        return known[1]

    def isnan(self, a):
        a = self.val(a)
        if a.ty == 'ite':
            return self.dist(a, self.isnan)
        if a.ty in ('unk', 'str') and a.node is not None and a.node[0] == 'ite' and self.literal(a):
            return self.boolv(np.where(a.node[1], self.bits(self.isnan(a.node[2])), self.bits(self.isnan(a.node[3]))), ('isnan', a))
        if a.c is not None:
            x = a.c[0]
            return self.const(x is None or (isinstance(x, float) and x != x))
        if a.ival is not None:
            return self.FALSE
        if a.ty == 'num' and a.offr is not None:
            x = self.settled(a)
            if x is not None and np.isfinite(x).all():
                return self.FALSE
            z = a.fp == np.uint64(NAN_FP)
            if ((a.offp == a.fp) | z).all() and np.isfinite(np.where(z, 0.0, a.offr)).all():
                return self.boolv(z, ('isnan', a))
        lc = self.listc(a)
        if lc is not None:
            return self.new_list([self.isnan(c) for c in lc.cells], n=lc.n, arr=True)
        f = self.F(a)
        raw = hash_fp('isnan', [f])
        bits = ((lane_hash('atom', [raw]) % np.uint64(4)) == 0) | (f == np.uint64(const_fp(float('nan')))) | (f == np.uint64(NONE_FP))
        if a.ty == 'ref' and isinstance(self.store[a.pay], MapC):
            a = self.lib.copy_obj(a, False)
        return V(bits.astype(np.uint64), 'bool', None, ('ew', 'isnan', (a,)), raw=raw)

    # ---------------------------------------------------------------- booleans
    def set_cells(self, v):
        """The collection holding the members of a set, or None when it is not a set of known size."""
        lc = self.listc(v)
        if lc is not None:
            return v if lc.kind == 'set' else None
        if v.node is not None and v.node[0] == 'set' and len(v.node) == 2:
            w = self.val(v.node[1])
            return w if self.listc(w) is not None else None
        return None

    def all_in(self, part, whole):
        lc, whole = self.listc(part), self.set_cells(whole)
        r = ALL
        for j, c in enumerate(lc.cells):
            r = r & (self.bits(self.contains(whole, c)) | ~(lc.n > j))
        return r

    def compare(self, o, a, b):
        self.tick()
        a, b = self.val(a), self.val(b)
        if a.ty == 'ite':
            return self.dist(a, lambda x: self.compare(o, x, b))
        if b.ty == 'ite':
            return self.dist(b, lambda x: self.compare(o, a, x))
        if a.c is not None and b.c is not None:
            try:
                return self.const(bool(CMP[o](a.c[0], b.c[0])))
            except TypeError:
                pass
        la, lb = self.listc(a), self.listc(b)
        if (la and la.arr) or (lb and lb.arr):
            r = self.lib.gr.map(lambda x, y: self.compare(o, x, y), a, b)
            if r is not None:
                return r
        for one, other, sw in ((la, lb, 0), (lb, la, 1)):
            if one is not None and one.arr and len(one.cells) == 1 and (one.n == 1).all() and (other is None or len(other.cells) != 1 or not (other.n == 1).all()):
                x = (a, b)[1 - sw]
                if not (x.c is not None or x.sc):
                    c = one.cells[0]        # a single element is compared with every element
                    return self.compare(o, x, c) if sw else self.compare(o, c, x)
        if (la and la.arr) or (lb and lb.arr):
            m = max(len(la.cells) if la else 0, len(lb.cells) if lb else 0)
            n = la.n if la is not None else lb.n
            if not (la is not None and lb is not None and not (la.arr or lb.arr)):
                return self.new_list([self.compare(o, self.idx_arg(a, j), self.idx_arg(b, j)) for j in range(m)], n=n, arr=True)
        if a.ival is not None and b.ival is not None:
            self.note_len(a, b)
            return self.boolv(CMP[o](a.ival, b.ival), ('cmp', o, a, b))
        if o in CMP and self.set_cells(a) is not None and self.set_cells(b) is not None:
            inside = lambda x, y: self.all_in(self.set_cells(x), y)
            if o in ('le', 'lt'):
                bits = inside(a, b) if o == 'le' else inside(a, b) & ~inside(b, a)
            elif o in ('ge', 'gt'):
                bits = inside(b, a) if o == 'ge' else inside(b, a) & ~inside(a, b)
            else:
                bits = inside(a, b) & inside(b, a)
                bits = ~bits if o == 'ne' else bits
            return self.boolv(bits)
        if o in ('eq', 'ne'):
            bits = self.eq_bits(a, b)
            if o == 'ne':
                bits = ~bits
            return self.cmpv(bits, ('cmp', o, a, b))
        self.none_exc(a, b)
        pa, pb = self.plain(a), self.plain(b)
        d = V((pa.fp + PP - pb.fp) % PP, 'num')
        d.offr, d.offp = self.offs(pa, pb, -1)
        self.note_threshold(d)
        bits = CMP[o](self.real_of(d), 0.0)
        for x in (pa, pb):
            if x.np or x.node is not None and x.node[0] in ('ite', 'where3', 'lacks'):
                bits = bits & (x.fp != np.uint64(NAN_FP)) & (x.fp != np.uint64(INF_FP))
        return self.cmpv(bits, ('cmp', o, pa, pb))

    def cmpv(self, bits, node):
        return V(bits.astype(np.uint64), 'bool', None, node)

    def note_len(self, a, b):
        for x, y in ((a, b), (b, a)):
            if x.c is None and y.c is not None and isinstance(y.c[0], int) and 2 < y.c[0] < 1000:
                self.reg.lens.add(int(y.c[0]))

    def register(self, v, k):
        """Note that value v is compared with the constant fingerprint k."""
        v = self.val(v)
        if v.fp is None:
            return
        self._reg1(v, k, 0)

    def _reg1(self, v, k, d):
        if v.node is not None and v.node[0] == 'ite' and d < 6:
            self._reg1(self.val(v.node[2]), k, d + 1)
            self._reg1(self.val(v.node[3]), k, d + 1)
            return
        if v.c is not None or v.fp is None or v.ty not in ('unk', 'str'):
            return
        s = self.reg.consts.setdefault(self.ident(v.fp), set())
        if len(s) < 80:
            s.add(int(k))

    def eq_bits(self, a, b):
        fa, fb = self.F(a), self.F(b)
        same = fa == fb
        if same.all():
            return ALL
        if a.ty == 'ext' and b.ty == 'ext':
            return same
        for x, y in ((a, b), (b, a)):
            if x.c is not None and (x.c[0] is None or isinstance(x.c[0], (str, bool))):
                if y.c is None and y.ty not in ('num', 'bool') and y.fp is not None:
                    self.register(y, int(const_fp(x.c[0])))
                    return same
                if y.ty == 'bool' or x.c[0] is None or isinstance(x.c[0], str):
                    return same
        if a.ty in ('str', 'none') or b.ty in ('str', 'none') or a.ty == 'ref' or b.ty == 'ref' or a.ty == 'bool' or b.ty == 'bool':
            if a.c is None and b.c is None and a.ty in ('str', 'unk') and b.ty in ('str', 'unk'):
                if self.literal(a) and self.literal(b):
                    return same
                d = (fa + PP - fb) % PP
                return same | (self.reals(d) == 0)
            return same
        pa, pb = self.plain(a), self.plain(b)
        d = V((pa.fp + PP - pb.fp) % PP, 'num')
        d.offr, d.offp = self.offs(pa, pb, -1)
        self.note_threshold(d)
        bits = self.real_of(d) == 0
        nn = (fa == np.uint64(NONE_FP)) | (fb == np.uint64(NONE_FP))
        return same | (bits & ~nn)

    def isnone(self, a):
        a = self.val(a)
        if a.ty == 'ite':
            return self.dist(a, self.isnone)
        if a.c is not None:
            return self.const(a.c[0] is None)
        if a.ty in ('ref', 'num', 'bool', 'fn', 'str', 'mod', 'cls', 'regex', 'match'):
            return self.FALSE
        self.register(a, NONE_FP)
        bits = self.F(a) == np.uint64(NONE_FP)
        return V(bits.astype(np.uint64), 'bool', None, ('isnone', a), raw=hash_fp('isnone', [self.F(a)]))

    def bits(self, v):
        """Truth value of v per lane."""
        v = self.val(v)
        if v.ty == 'ite' or (v.ty == 'unk' and v.node is not None and v.node[0] == 'ite'):
            m, a, b = v.node[1], v.node[2], v.node[3]
            return np.where(m, self.bits(a), self.bits(b))
        if v.c is not None:
            return ALL if v.c[0] else NONE_
        if v.ty == 'bool':
            return v.fp != 0
        if v.ival is not None:
            return v.ival != 0
        lc = self.listc(v)
        if lc is not None:
            return lc.n > 0
        mc = self.mapc(v)
        if mc is not None:
            if mc.cls is not None:
                return ALL
            if mc.base is None:
                e = NONE_
                for m, k, x in mc.ents:
                    e = e | (ALL if m is None else m)
                return e
        if v.ty in ('fn', 'cls', 'mod', 'regex', 'match'):
            return ALL
        f = self.F(v)
        if v.ty == 'num':
            return self.real_of(v) != 0
        if v.ty == 'str':
            self.register(v, str_fp(''))
            return f != np.uint64(str_fp(''))
        if v.ty == 'none':
            return NONE_
        falsy = (f == np.uint64(NONE_FP)) | (f == 0) | (f == np.uint64(str_fp('')))
        if self.ident(f) in self.reg.sized:
            t = self.length(v).ival > 0
        else:
            t = (lane_hash('truth', [f]) % np.uint64(4)) != 0
            t = t | (f == 1)
        return t & ~falsy

    def truth(self, v):
        v = self.val(v)
        if v.ty == 'bool':
            return v
        b = self.bits(v)
        lc = self.listc(v)
        if v.c is not None or lc is not None or v.ival is not None:
            return self.boolv(b, ('cmp', 'ne', v, self.const(0)) if v.ival is not None else ('truth', v))
        raw = hash_fp('truth', [self.F(v)])
        return V(b.astype(np.uint64), 'bool', None, ('truth', v), raw=raw)

    def not_(self, v):
        v = self.val(v)
        if v.ty == 'ite':
            return self.dist(v, self.not_)
        lc = self.listc(v)
        if lc is not None and lc.arr:
            return self.new_list([self.not_(c) for c in lc.cells], n=lc.n, arr=True)
        t = self.truth(v)
        if t.c is not None:
            return self.const(not t.c[0])
        n = t.node
        if n is not None and n[0] == 'not' and t.raw is None:
            return n[1]
        if n is not None and n[0] == 'cmp' and t.raw is None:
            return V((t.fp == 0).astype(np.uint64), 'bool', None, ('cmp', NEG[n[1]], n[2], n[3]))
        return V((t.fp == 0).astype(np.uint64), 'bool', None, ('not', t))

    def logic(self, o, a, b):
        a, b = self.val(a), self.val(b)
        for x, y in ((a, b), (b, a)):
            if x.ty == 'ite':
                return self.dist(x, lambda z: self.logic(o, z, y))
        la, lb = self.listc(a), self.listc(b)
        if (la and la.arr) or (lb and lb.arr):
            r = self.lib.gr.map(lambda x, y: self.logic(o, x, y), a, b)
            if r is not None:
                return r
            m = max(len(la.cells) if la else 0, len(lb.cells) if lb else 0)
            n = la.n if la is not None else lb.n
            return self.new_list([self.logic(o, self.idx_arg(a, j), self.idx_arg(b, j)) for j in range(m)], n=n, arr=True)
        ta, tb = self.truth(a), self.truth(b)
        if ta.c is not None:
            return (tb if ta.c[0] else ta) if o == 'and' else (ta if ta.c[0] else tb)
        if tb.c is not None:
            return (ta if tb.c[0] else tb) if o == 'and' else (tb if tb.c[0] else ta)
        x, y = ta.fp != 0, tb.fp != 0
        return V(((x & y) if o == 'and' else (x | y)).astype(np.uint64), 'bool', None, (o, ta, tb))

    # ---------------------------------------------------------------- strings
    def concat(self, parts):
        flat = []

        def walk(p):
            p = self.val(p)
            if p.node is not None and p.node[0] == 'cat' and p.c is None:
                for q in p.node[1:]:
                    walk(q)
                return
            if p.node is not None and p.node[0] == 'str' and p.c is None:
                walk(p.node[1])
                return
            if p.c is not None and isinstance(p.c[0], (str, int, float, bool)) or (p.c is not None and p.c[0] is None):
                s = p.c[0] if isinstance(p.c[0], str) else str(p.c[0])
                if s == '':
                    return
                if flat and flat[-1].c is not None:
                    flat[-1] = self.const(flat[-1].c[0] + s)
                else:
                    flat.append(self.const(s))
                return
            flat.append(p)
        for p in parts:
            walk(p)
        if not flat:
            return self.const('')
        if len(flat) == 1:
            if flat[0].c is not None:
                return flat[0]
            f = flat[0]
            return V(self.F(f), 'str', node=f.node or ('str', f), sc=True)
        for i, p in enumerate(flat):
            if p.ty == 'ite' or (p.node is not None and p.node[0] == 'ite' and p.fp is not None and all(
                    self.val(z).c is not None for z in p.node[2:4])):
                m, a, b = p.node[1], p.node[2], p.node[3]
                return self.ite(m, self.concat(flat[:i] + [a] + flat[i + 1:]), self.concat(flat[:i] + [b] + flat[i + 1:]))
        fp = hash_fp('cat', [self.F(p) for p in flat])
        return V(self.bias(fp), 'str', node=('cat',) + tuple(flat), sc=True)

    def to_str(self, v):
        v = self.val(v)
        if v.ty == 'ite':
            return self.dist(v, self.to_str)
        if v.ty == 'str':
            return v
        if v.c is not None and (v.c[0] is None or isinstance(v.c[0], (int, float, bool))):
            return self.const(str(v.c[0]))
        return V(self.F(v), 'str', node=('str', v), sc=True)

    # ---------------------------------------------------------------- collections
    def length(self, v):
        v = self.val(v)
        if v.ty == 'ite':
            return self.dist(v, self.length)
        if v.c is not None and isinstance(v.c[0], str):
            return self.const(len(v.c[0]))
        lc = self.listc(v)
        if lc is not None:
            return self.intv(lc.n)
        fc = self.lib.fr.get(v)
        if fc is not None:
            return self.intv(fc.n)
        mc = self.mapc(v)
        if mc is not None and mc.base is None:
            tot = np.zeros(L, dtype=I64)
            for m, k, x in self.live_entries(mc):
                tot = tot + m.astype(I64)
            return self.intv(tot)
        if mc is not None and mc.base is not None:
            n = self.length(mc.base)
            return n
        f = self.F(v)
        self.reg.sized.add(self.ident(f))
        r = V(None, 'num')
        n = self.opaque_len(v)
        fp = (n % P).astype(np.uint64)
        return V(fp, 'num', ival=n, sc=True, node=('len', v), offr=n.astype(float), offp=fp)

    def opaque_len(self, v, d=0):
        v = self.val(v)
        lc = self.listc(v)
        if lc is not None:
            return lc.n
        if v.ty == 'ref':
            mc = self.mapc(v)
            if mc is not None and mc.base is not None:
                return self.opaque_len(mc.base, d + 1)
            return self.length(v).ival
        n = v.node
        if n is None or d > 40:
            return self.lane_n
        if n[0] == 'sym':
            if n[1] in self.own_len:
                return self.own_lens(v)
            return self.lane_n
        if n[0] == 'int':
            return self.lane_n
        if n[0] == 'ew':
            best = None
            for a in n[2]:
                if isinstance(a, V) and a.c is None and not a.sc:
                    best = a if best is None else best
            return self.opaque_len(best, d + 1) if best is not None else self.lane_n
        if n[0] == 'cmp':
            for a in n[2:4]:
                if a.c is None and not a.sc:
                    return self.opaque_len(a, d + 1)
            return self.lane_n
        if n[0] == 'ite':
            return np.where(n[1], self.opaque_len(n[2], d + 1), self.opaque_len(n[3], d + 1))
        if n[0] in ('and', 'or', 'not'):
            return self.opaque_len(n[1], d + 1)
        if v.lenof is not None:
            return self.opaque_len(v.lenof, d + 1)
        if n[0] in OWNLEN_PRESERVE and len(n) > 1 and isinstance(n[1], V):
            if n[0] == 'index':
                k = n[2]
                if self.found_positions(v):
                    return self.own_lens(v)
                if k.node is not None and k.node[0] == 'slice':
                    return self.own_lens(v)
                return self.opaque_len(n[1], d + 1) if (k.c is not None and isinstance(k.c[0], str)) else self.lane_n
            return self.opaque_len(n[1], d + 1)
        if n[0] == 'select' or n[0].startswith(('m:', 'x:', 'unique', 'set', 'call', 'f:')):
            return self.own_lens(v)
        return self.lane_n

    def own_lens(self, v):
        f = self.F(v)
        h = lane_hash('ownlen', [f])
        cand = [0, 1, 1, 2, 2, 3, 3, 3]
        for c in sorted(self.reg.lens):
            if c > 2:
                cand += [int(c) - 1, int(c), int(c) + 1]
        return np.array(cand, dtype=I64)[(h % np.uint64(len(cand))).astype(I64)]

    def count_of(self, v):
        """Number of iterations for a numeric bound."""
        v = self.val(v)
        if v.ival is not None:
            return np.clip(v.ival, 0, 200)
        r = np.ceil(self.real_of(v))
        return np.clip(r, 0, K).astype(I64)

    def materialize(self, v):
        """(cells, n): the cells of an iterable; n per lane."""
        v = self.val(v)
        lc = self.listc(v)
        if lc is not None:
            return list(lc.cells), lc.n
        if v.ty == 'ite':
            ca, na = self.materialize(v.node[2])
            cb, nb = self.materialize(v.node[3])
            m = v.node[1]
            und = V(full(UNDEF_FP), 'undef')
            cells = []
            for j in range(max(len(ca), len(cb))):
                cells.append(self.ite(m, ca[j] if j < len(ca) else und, cb[j] if j < len(cb) else und))
            return cells, np.where(m, na, nb)
        if v.c is not None and isinstance(v.c[0], str):
            return [self.const(ch) for ch in v.c[0]], np.full(L, len(v.c[0]), dtype=I64)
        fc = self.lib.fr.get(v)
        if fc is not None:
            return [k for k, _ in fc.cols], np.full(L, len(fc.cols), dtype=I64)
        mc = self.mapc(v)
        if mc is not None and mc.base is None and mc.cls is None:
            ents = self.ordered_keys(mc)
            if all(m.all() for m, k in ents):
                return [k for m, k in ents], np.full(L, len(ents), dtype=I64)
            r = self.new_list([], n=np.zeros(L, dtype=I64))
            for m, k in ents:
                self.list_push(r, k, m)
            c = self.listc(r)
            return list(c.cells), c.n
        n = v.node
        if n is not None and n[0] == 'range':
            return self.range_cells(*n[1:])
        if n is not None and n[0] == 'items':
            cells, cn = self.materialize(n[1])
            return [self.new_list([k, self.index(n[1], k)], kind='tuple') for k in cells], cn
        if n is not None and n[0] == 'dvalues':
            cells, cn = self.materialize(n[1])
            return [self.index(n[1], k) for k in cells], cn
        cnt = self.length(v).ival
        m = int(min(cnt.max(), K))
        return [self.index(v, self.const(j)) for j in range(m)], np.minimum(cnt, K)

    def range_cells(self, a, b, s):
        if a.c is not None and b.c is not None and s.c is not None and isinstance(s.c[0], int):
            try:
                r = list(range(a.c[0], b.c[0], s.c[0]))
            except (TypeError, ValueError):
                r = []
            if len(r) > 64:
                r = r[:K]
            return [self.const(x) for x in r], np.full(L, len(r), dtype=I64)
        if a.ival is not None and b.ival is not None and s.ival is not None:
            st = np.where(s.ival == 0, 1, s.ival)
            n = np.clip(-((a.ival - b.ival) // st), 0, 8)
        elif s.c is not None and s.c[0] == -1:
            n = self.count_of(self.arith('sub', a, b))
        elif s.c is not None and s.c[0] == 1:
            n = self.count_of(self.arith('sub', b, a))
        else:
            n = self.count_of(self.arith('div', self.arith('sub', b, a), s))
        m = int(n.max()) if len(n) else 0
        return [self.arith('add', a, self.arith('mul', self.const(j), s)) for j in range(m)], n

    def list_push(self, ref, cell, mask=None):
        lc = self.listc(ref)
        act = ALL if mask is None else mask
        eff = act & self.active if mask is not None else self.active
        if not eff.any():
            return
        born = lc.born if lc.born is not None else ALL
        inact = born & ~eff
        n = lc.n
        if not inact.any() and (n == n[0]).all():
            k = int(n[0])
            new = ListC(n + 1, lc.cells[:k] + [cell], lc.arr, kind=lc.kind)
        else:
            cells = list(lc.cells)
            und = V(full(UNDEF_FP), 'undef')
            while len(cells) <= int(n.max()):
                cells.append(und)
            for j in range(int(n.min()), int(n.max()) + 1):
                m = eff & (n == j)
                if m.any():
                    cells[j] = self.ite(m, cell, cells[j]) if not (cells[j].ty == 'undef') else (cell if True else None)
            new = ListC(n + eff.astype(I64), cells, lc.arr, kind=lc.kind)
        self.put(ref, new)

    def wmask(self, c):
        """Mask for a heap write: None when it covers every lane the object lives in."""
        born = c.born if c.born is not None else ALL
        if (born & ~self.active).any():
            return self.active
        return None

    def contains(self, cont, key):
        cont, key = self.val(cont), self.val(key)
        if cont.ty == 'ite':
            return self.dist(cont, lambda c: self.contains(c, key))
        while cont.node is not None and cont.node[0] in ('keys', 'list', 'set', 'attr:columns', 'unique', 'attr:values', 'sort') and len(cont.node) > 1:
            inner = self.val(cont.node[1])
            if cont.node[0] == 'keys' and inner.node is not None and inner.node[0] == 'obj' and self.mapc(inner.node[1]) is not None:
                inner = inner.node[1]
            cont = inner
        if cont.c is not None and isinstance(cont.c[0], str):
            if key.c is not None and isinstance(key.c[0], str):
                return self.const(key.c[0] in cont.c[0])
            return self.atom('contains', [cont, key])
        lc = self.listc(cont)
        if lc is not None:
            r = self.FALSE
            for j, c in enumerate(lc.cells):
                live = lc.n > j
                if not live.any():
                    continue
                e = self.compare('eq', c, key)
                if self.listc(e) is not None:
                    return self.atom('contains', [cont, key])
                if not live.all():
                    e = self.logic('and', e, self.boolv(live, ('live',), None))
                r = self.logic('or', r, e)
            return r
        fc = self.lib.fr.get(cont)
        if fc is not None:
            return self.contains(self.new_list([k for k, _ in fc.cols]), key)
        mc = self.mapc(cont)
        if mc is not None:
            r = self.contains(mc.base, key) if mc.base is not None and mc.cls is None else self.FALSE
            for m, k, x in mc.ents:
                e = self.keyeq(k, key)
                if m is not None:
                    e = e & m
                r = self.logic('or', r, self.boolv(e, ('keyeq', k, key)))
            return r
        return self.atom('contains', [cont, key])

    def keyeq(self, a, b):
        a, b = self.val(a), self.val(b)
        if a is b:
            return ALL
        if a.c is not None and b.c is not None:
            return ALL if a.c[0] == b.c[0] else NONE_
        for x, y in ((a, b), (b, a)):
            if x.c is not None and isinstance(x.c[0], str) and y.c is None and y.ty in ('unk', 'str', 'ite'):
                self.register(y, str_fp(x.c[0]))
        return self.F(a) == self.F(b)

    def keyclass(self, k):
        k = self.val(k)
        if k.c is not None and isinstance(k.c[0], str) or k.ty == 'str':
            return 's'
        if k.ival is not None or k.ty == 'num':
            return 'i'
        if self.listc(k) is not None:
            return 't'
        return 'u'

    def map_get(self, ref, key, missing=None):
        c = self.mapc(ref)
        start = 0
        res = None
        fulls = None
        ents = c.ents
        conds = []
        for i in range(len(ents) - 1, -1, -1):
            m, k, v = ents[i]
            e = self.keyeq(k, key)
            if m is not None:
                e = e & m
            if e.all():
                fulls = v
                break
            if e.any():
                conds.append((e, v))
        if fulls is not None:
            res = fulls
        elif c.base is not None:
            kc = self.keyclass(key)
            if ents and any(self.keyclass(k) != kc and self.keyclass(k) != 'u' and kc != 'u' for m, k, v in ents) and not (
                    kc == 's' or c.cls is not None):
                return self.op('index', [V(self.F(ref), 'unk', node=('obj', ref)), key])
            res = self.base_kid(ref, c, key)
        else:
            res = missing
            if res is None:
                res = V(full(UNDEF_FP), 'undef', node=('missingkey',))
                if not conds:
                    return self.op('missing', [key])
        for e, v in reversed(conds):
            res = self.ite(e, v, res)
        return res

    def base_kid(self, ref, c, key):
        """Element of an opaque object, with identity when the key is a constant."""
        key = self.val(key)
        if key.c is not None and isinstance(key.c[0], (str, int)):
            kk = (type(key.c[0]).__name__, key.c[0])
            if kk in c.kids:
                return c.kids[kk][1]
            x = self.index_opaque(c.base, key)
            if x.ty != 'unk':
                return x
            kid = self.new_ref(MapC(x))
            self.store[kid.pay].born = ALL
            self.kidbase[kid.pay] = x
            c.kids[kk] = (key, kid)
            return kid
        return self.index_opaque(c.base, key)

    def map_set(self, ref, key, v):
        c = self.mapc(ref)
        m = self.wmask(c)
        key = self.val(key)
        ents = list(c.ents)
        if m is None and key.c is not None:
            same = [i for i, e in enumerate(ents) if e[1].c is not None and e[1].c[0] == key.c[0] and type(e[1].c[0]) == type(key.c[0])]
            if same and ents[same[0]][0] is None and all(e[1].c is not None for e in ents[same[0]:]):
                # an overwritten entry keeps its place
                ents[same[0]] = (None, key, v)
                ents = [e for i, e in enumerate(ents) if i not in same[1:]]
                kids = dict(c.kids)
                kids.pop((type(key.c[0]).__name__, key.c[0]), None)
                self.put(ref, MapC(c.base, tuple(ents), c.cls, kids=kids))
                return
            if c.base is not None or len(ents) > 200:
                ents = [e for i, e in enumerate(ents) if i not in same]
        kids = dict(c.kids)
        if key.c is not None:
            kk = (type(key.c[0]).__name__, key.c[0])
            old = kids.pop(kk, None)
            if old is not None and m is not None:
                if self.kid_changed(*old):
                    ents.append((None, old[0], old[1]))
        ents.append((m, key, v))
        new = MapC(c.base, tuple(ents), c.cls, kids=kids)
        self.put(ref, new)

    # indexing --------------------------------------------------------------
    def index(self, v, k):
        self.tick()
        v0 = v
        v, k = self.val(v), self.val(k)
        if v0.ty == 'ref' and v0 is not v and k.c is not None and isinstance(k.c[0], (str, int)):
            mc = self.mapc(v0)
            if mc is not None and mc.cls is None:
                return self.base_kid(v0, mc, k)
        if v.ty == 'ite':
            return self.dist(v, lambda x: self.index(x, k))
        if k.ty == 'ite' and self.listc(v) is None:
            return self.dist(k, lambda x: self.index(v, x))
        if v.c is not None and isinstance(v.c[0], str):
            r = self.lib.str_index(v, k)
            if r is not None:
                return r
        lc = self.listc(v)
        if lc is not None:
            return self.list_index(v, lc, k)
        fc = self.lib.fr.get(v)
        if fc is not None:
            return self.lib.fr.index(v, fc, k)
        mc = self.mapc(v)
        if mc is not None:
            if mc.cls is None:
                if mc.base is not None and not mc.ents and not self.kids_changed(mc):
                    return self.base_kid(v, mc, k)
                if self.is_mask(k) or self.is_slice(k):
                    return self.index_opaque(V(self.F(v), 'unk', node=('obj', v)), k)
                if mc.base is not None and self.listc(k) is not None and self.keyclass(k) == 't' and not any(
                        self.keyclass(kk) == 't' for _, kk, _ in mc.ents):
                    return self.index_opaque(V(self.F(v), 'unk', node=('obj', v)), k)
                return self.map_get(v, k)
            return self.index_opaque(V(self.F(v), 'unk', node=('obj', v)), k)
        return self.index_opaque(v, k)

    def is_mask(self, k):
        k = self.val(k)
        if k.ty == 'bool' and k.c is None:
            return True
        lc = self.listc(k)
        if lc is not None and lc.arr and lc.cells and all(self.val(c).ty == 'bool' for c in lc.cells):
            return True
        n = k.node
        return n is not None and n[0] in MASKY

    def is_slice(self, k):
        return k.node is not None and k.node[0] == 'slice'

    def found_positions(self, v):
        """Positions found by a search: their number has nothing to do with the length of what was searched."""
        n = v.node
        return n is not None and n[0] == 'index' and n[1].node is not None and n[1].node[0] == 'nonzero'

    def index_opaque(self, v, k):
        v, k = self.val(v), self.val(k)
        n = v.node
        if self.trys and k.c is not None and k.c[0] in (0, -1) and isinstance(k.c[0], int) and self.found_positions(v):
            self.raise_lanes(self.own_lens(v) == 0, 'IndexError')
        if k.c is not None and isinstance(k.c[0], bool) is False and n is not None and n[0] == 'attr:shape' and k.c[0] == 0:
            return self.length(n[1])
        if n is not None:
            if n[0] == 'globals' and k.c is not None:
                got = self.module_frame(n[2]).env.get(k.c[0])
                if got is not None:
                    return got
                self.raise_lanes(self.active, 'KeyError')
            if n[0] == 'ew' and not v.sc and not (k.c is not None and isinstance(k.c[0], str)):
                args = [a if (a.c is not None or a.sc) else self.index(a, k) for a in n[2]]
                return self.quietly(self.apply_ew, n[1], args)
            if n[0] == 'cmp' and v.raw is None and not (k.c is not None and isinstance(k.c[0], str)):
                a, b = [a if (a.c is not None or a.sc) else self.index(a, k) for a in n[2:4]]
                return self.compare(n[1], a, b)
            if n[0] in ('and', 'or') and v.ty == 'bool':
                return self.logic(n[0], self.index(n[1], k), self.index(n[2], k))
            if n[0] == 'not' and v.ty == 'bool':
                return self.not_(self.index(n[1], k))
            if n[0] == 'where3':
                return self.lib.where3(self.index(n[1], k), *[a if (a.c is not None or a.sc) else self.index(a, k) for a in n[2:4]])
            if n[0] == 'items':
                cells, cn = self.materialize(v)
                return self.list_index(None, ListC(cn, cells), k)
            if n[0] == 'range' and k.ival is not None:
                a, b, s = n[1:]
                kk = k
                return self.arith('add', a, self.arith('mul', kk, s))
            if n[0] == 'dvalues' and k.ival is not None:
                return self.index(n[1], self.index(n[1], k))
            if n[0] == 'keys' and k.ival is not None:
                return self.index(n[1], k)
            if n[0] == 'select' and k.c is not None and isinstance(k.c[0], str):
                return self.index_opaque(self.index(n[1], k), n[2])
        if self.is_mask(k):
            return V(self.bias(hash_fp('select', [self.F(v), self.A(k)])), 'unk', node=('select', v, k))
        if self.is_slice(k):
            sl = k.node
            if all(x.c is not None and x.c[0] is None for x in sl[1:4]):
                return v
            st = sl[1]
            if st.c is not None and st.c[0] == 0 and isinstance(st.c[0], int):
                k = V(hash_fp('slice', [full(NONE_FP), self.F(sl[2]), self.F(sl[3])]), 'slice', node=('slice', self.NONE, sl[2], sl[3]))
        if k.ival is not None and k.ty == 'num' and (k.ival < 0).any() and self.seqlike(v):
            ln = self.length(v)
            k = self.intv(np.where(k.ival < 0, ln.ival + k.ival, k.ival))
        return self.op('index', [v, k])

    def seqlike(self, v):
        return v.ty in ('unk', 'num')

    def quietly(self, fn, *args):
        """Rebuild a value whose failures were recorded when it was first computed."""
        saved = self.trys, self.active, self.raised, self.raise_fp, self.warn_err
        self.trys, self.warn_err = [], NONE_
        r = fn(*args)
        self.trys, self.active, self.raised, self.raise_fp, self.warn_err = saved
        return r

    def apply_ew(self, name, args):
        if name in ('add', 'sub', 'mul', 'div', 'floordiv', 'mod', 'pow'):
            return self.arith(name, *args)
        if len(args) == 1:
            return self.ew1(name, args[0])
        if name in ('max', 'min'):
            return self.lib.minmax(name, *args)
        return self.ewn(name, args)

    def list_index(self, v, lc, k):
        k = self.val(k)
        if k.ty == 'ite':
            return self.dist(k, lambda x: self.list_index(v, lc, x))
        if lc.arr and v is not None:
            r = self.lib.gr.index(v, k)
            if r is not None:
                return r
        if self.is_slice(k):
            a, b, s = [self.val(x) for x in k.node[1:4]]
            none = lambda x: x.c is not None and x.c[0] is None
            if all(none(x) or x.ival is not None for x in (a, b, s)):
                if none(s) or s.c == (1,):
                    n = lc.n
                    lo = np.zeros(L, dtype=I64) if none(a) else np.where(a.ival < 0, np.maximum(n + a.ival, 0), np.minimum(a.ival, n))
                    hi = n if none(b) else np.where(b.ival < 0, np.maximum(n + b.ival, 0), np.minimum(b.ival, n))
                    m = np.maximum(hi - lo, 0)
                    if (lo == lo[0]).all():
                        return self.new_list(lc.cells[int(lo[0]):int(lo[0]) + int(m.max())], n=m, arr=lc.arr, kind=lc.kind)
                    cells = []
                    for j in range(int(m.max())):
                        cells.append(self.list_index(v, lc, self.intv(np.minimum(lo + j, np.maximum(n - 1, 0)))))
                    return self.new_list(cells, n=m, arr=lc.arr, kind=lc.kind)
                if none(a) and none(b) and s.c == (-1,):
                    return self.lib.reverse_list(lc)
            r = V(self.F(v) if v is not None else full(1), 'unk', node=('obj', v))
            return self.op('index', [r, k])
        kl = self.listc(k)
        if kl is not None and kl.kind == 'tuple' and lc.arr and len(kl.cells) == 2 and lc.cells and all(self.listc(self.val(c)) is not None for c in lc.cells):
            a, b = self.val(kl.cells[0]), kl.cells[1]
            if self.is_slice(a):
                rows = self.list_index(v, lc, a)
                rl = self.listc(rows)
                return rows if rl is None else self.new_list([self.index(c, b) for c in rl.cells], n=rl.n, arr=True)
            return self.index(self.list_index(v, lc, a), b)
        if kl is not None and lc.arr and kl.arr and self.is_mask(k):
            r = self.new_list([], n=np.zeros(L, dtype=I64), arr=True)
            for j, c in enumerate(lc.cells):
                if j < len(kl.cells):
                    self.list_push(r, c, (lc.n > j) & self.bits(kl.cells[j]))
            return r
        if kl is not None and lc.arr and kl.kind != 'tuple' and kl.cells and k.ival is None and all(self.val(c).ival is not None and self.val(c).ty == 'num' for c in kl.cells):
            return self.new_list([self.list_index(v, lc, self.val(c)) for c in kl.cells], n=kl.n, arr=True)
        if k.ival is not None:
            n = lc.n
            idx = np.where(k.ival < 0, n + k.ival, k.ival)
            if (idx == idx[0]).all() and 0 <= idx[0] < len(lc.cells):
                return lc.cells[int(idx[0])]
            res = None
            for j, c in enumerate(lc.cells):
                m = idx == j
                if m.any():
                    res = c if res is None else self.ite(m, c, res)
            if res is None:
                return self.op('oob', [k], sc=True)
            return res
        if not lc.cells:
            return self.op('oob', [k], sc=True)
        r = V(self.F(v) if v is not None else full(1), 'unk', node=('obj', v))
        return self.op('index', [r, k])

    def store_index(self, target, k, v):
        """target[k] = v where target is a reference."""
        k = self.val(k)
        if target.ty == 'ite':
            m, a, b = target.node[1], target.node[2], target.node[3]
            self.with_mask(m, lambda: self.store_index(a, k, v))
            self.with_mask(~m, lambda: self.store_index(b, k, v))
            return
        if target.ty != 'ref':
            self.effect('setitem', [target, k, v], {}, None)
            return
        if k.ty == 'ite' and self.listc(target) is not None:
            m, a, b = k.node[1], k.node[2], k.node[3]
            self.with_mask(m, lambda: self.store_index(target, a, v))
            self.with_mask(~m, lambda: self.store_index(target, b, v))
            return
        lc = self.listc(target)
        if lc is not None:
            if lc.arr and self.lib.gr.store(target, k, v):
                return
            if k.ival is not None:
                idx = np.where(k.ival < 0, lc.n + k.ival, k.ival)
                m = self.wmask(lc)
                cells = list(lc.cells)
                for j in range(len(cells)):
                    sel = idx == j
                    if m is not None:
                        sel = sel & m
                    if sel.any():
                        cells[j] = self.ite(sel, v, cells[j])
                self.put(target, ListC(lc.n, cells, lc.arr, kind=lc.kind))
                return
            if self.is_slice(k) and all(x.c is not None and x.c[0] is None for x in k.node[1:4]):
                cells, n = self.materialize(v)
                self.put(target, ListC(n, cells, lc.arr, kind=lc.kind))
                return
            kl = self.listc(k)
            if kl is not None and self.is_mask(k):
                cells = list(lc.cells)
                rank = np.zeros(L, dtype=I64)
                vl = self.listc(v)
                for j in range(min(len(cells), len(kl.cells))):
                    sel = self.bits(kl.cells[j]) & (kl.n > j)
                    if sel.any():
                        at = np.where(vl.n == 1, 0, rank) if vl is not None else None
                        cells[j] = self.ite(sel & self.active, self.list_index(v, vl, self.intv(at)) if vl else v, cells[j])
                    rank = rank + sel
                self.put(target, ListC(lc.n, cells, lc.arr, kind=lc.kind))
                return
            if kl is not None and lc.arr and kl.arr and not kl.cells:
                return
            if kl is not None and lc.arr and kl.arr and all(self.val(c).ival is not None for c in kl.cells) and self.listc(self.val(v)) is None and self.val(v).sc:
                for j, c in enumerate(kl.cells):
                    self.with_mask(kl.n > j, lambda: self.store_index(target, self.val(c), v))
                return
            old = V(self.F(target), 'unk', node=('obj', self.lib.copy_obj(target, False)))
            if self.is_mask(k) and lc.cells and all(c is lc.cells[0] or (c.fp is not None and lc.cells[0].fp is not None and np.array_equal(c.fp, lc.cells[0].fp)) for c in lc.cells):
                nv = self.lib.where3(k, self.unselect(v, k), lc.cells[0])
            else:
                nv = self.op('setitem', [old, k, v])
            nv.lenof = old
            m = self.wmask(lc)
            if m is not None:
                nv = self.ite(m, nv, old)
            self.put(target, MapC(nv))
            return
        fc = self.lib.fr.get(target)
        if fc is not None:
            if not self.lib.fr.store(target, fc, k, v):
                self.opaque_store(target, 'setitem', k, v)
            return
        mc = self.mapc(target)
        if self.is_mask(k):
            old = V(self.F(target), 'unk', node=('obj', self.lib.copy_obj(target, False)))
            if mc.base is not None and not mc.ents:
                old = self.val(mc.base)
            nv = self.lib.where3(k, self.unselect(v, k), old)
            m = self.wmask(mc)
            if m is not None:
                nv = self.ite(m, nv, old)
            self.put(target, MapC(nv))
            return
        if self.is_slice(k) or self.listc(k) is not None and any(self.is_slice(self.val(c)) for c in self.listc(k).cells):
            old = V(self.F(target), 'unk', node=('obj', self.lib.copy_obj(target, False)))
            if mc.base is not None and not mc.ents:
                old = self.val(mc.base)
            if self.is_slice(k) and all(x.c is not None and x.c[0] is None for x in k.node[1:4]):
                nv = self.val(v)
                if nv.fp is None or nv.c is not None:
                    nv = self.op('setall', [old, nv])
            else:
                nv = self.op('setitem', [old, k, v])
            nv.lenof = old
            m = self.wmask(mc)
            if m is not None:
                nv = self.ite(m, nv, old)
            self.put(target, MapC(nv))
            return
        self.map_set(target, k, v)

    def opaque_store(self, target, tag, k, v):
        old = V(self.F(target), 'unk', node=('obj', target))
        nv = self.op(tag, [old, k, v])
        nv.lenof = old
        m = self.wmask(self.store[target.pay])
        if m is not None:
            nv = self.ite(m, nv, old)
        self.put(target, MapC(nv))

    def unselect(self, v, k):
        """x for x[k]: storing x[k] under the mask k stores x where k holds."""
        v = self.val(v)
        if v.ty == 'ite':
            m, a, b = v.node[1], v.node[2], v.node[3]
            return self.ite(m, self.unselect(a, k), self.unselect(b, k))
        if v.node is not None and v.node[0] == 'ite':
            m, a, b = v.node[1], v.node[2], v.node[3]
            x, y = self.unselect(a, k), self.unselect(b, k)
            return v if x is a and y is b else self.ite(m, x, y)
        if v.node is not None and v.node[0] == 'select':
            k2 = self.val(v.node[2])
            if k2.ty == 'bool' and (k2.raw is None) == (k.raw is None):
                fa, fb = self.mfp(k2), self.mfp(k)
                if np.array_equal(fa, fb):
                    return self.val(v.node[1])
                live = self.active & (fa == fb)
                if (live == self.active).all():
                    return self.val(v.node[1])
        if v.node is not None and v.node[0] == 'ew' and v.c is None:
            args = [self.unselect(a, k) for a in v.node[2]]
            if any(x is not y for x, y in zip(args, v.node[2])):
                return self.quietly(self.apply_ew, v.node[1], args)
        return v

    # ---------------------------------------------------------------- exceptions
    def raise_lanes(self, mask, kind, node=None):
        m = mask & self.active
        if not m.any():
            return
        if self.trys:
            tf = self.trys[-1]
            tf[kind] = tf.get(kind, NONE_) | m
            self.active = self.active & ~m
        elif kind not in EXC_MATCH and kind != 'any':
            self.raised = self.raised | m
            self.raise_fp = np.where(m, full(str_fp('raise ' + kind)), self.raise_fp)
            self.active = self.active & ~m

    def effect(self, name, args, kw, node):
        fp = lambda v: self.F(self.val(v)) if self.val(v).ty in ('bool', 'ite') else self.A(v)
        self.effects.append((name, self.active.copy(), [(a, fp(a)) for a in args], sorted(((k, v, fp(v)) for k, v in kw.items()), key=lambda x: x[0]) if kw else [],
                             (self.frames[-1].module.path if self.frames else '?', getattr(node, 'lineno', 0))))


class _Stop(Exception):
    pass
