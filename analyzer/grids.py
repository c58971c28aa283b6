"""Structured model of small arrays with two or more axes: nested sequences of cells, handled through numpy object arrays of values."""
import numpy as np
from .values import L
from .engine import V

REDUCE = {'sum', 'nansum', 'mean', 'nanmean', 'min', 'max', 'amin', 'amax', 'nanmin', 'nanmax', 'median', 'nanmedian', 'prod', 'any', 'all', 'std', 'var',
          'nanstd', 'nanvar', 'argmin', 'argmax', 'count_nonzero', 'average'}
ALONG = {'cumsum', 'diff', 'sort', 'argsort', 'gradient', 'cumprod'}
FFT = {'fft', 'ifft', 'rfft', 'irfft', 'fft2', 'ifft2', 'rfft2', 'irfft2'}
MAX = 4096


class Grids:
    """Every operation answers None when the operands are not fully structured; the caller then goes on as for opaque values."""

    def __init__(self, e):
        self.e = e

    def arr(self, v, least=2):
        """Object array of the cells of a nested structured array."""
        e = self.e

        def walk(v, d):
            v = e.val(v)
            if v.ty != 'ref':
                return v
            lc = e.listc(v)
            if lc is None:
                return None if e.mapc(v) is None or e.mapc(v).base is None else v
            if not lc.arr or not (lc.n == len(lc.cells)).all():
                return None
            out = [walk(c, d + 1) for c in lc.cells]
            return None if any(o is None for o in out) else out
        v = e.val(v)
        if v.ty != 'ref' or e.listc(v) is None:
            return None
        got = walk(v, 0)
        if got is None:
            return None
        shape = []
        x = got
        while isinstance(x, list):
            shape.append(len(x))
            if not x:
                break
            x = x[0]
        if len(shape) < least:
            return None
        a = np.empty(shape, dtype=object)

        def fill(x, at):
            if len(at) == len(shape):
                if isinstance(x, list):
                    raise ValueError
                a[at] = x
                return
            if not isinstance(x, list) or len(x) != shape[len(at)]:
                raise ValueError
            for i, y in enumerate(x):
                fill(y, at + (i,))
        try:
            fill(got, ())
        except ValueError:
            return None
        return a

    def lift(self, a):
        if not isinstance(a, np.ndarray):
            return a
        if a.ndim == 0:
            return a[()]
        return self.e.new_list([self.lift(x) for x in a], arr=True)

    # ------------------------------------------------------------ elementwise
    def spread(self, args):
        """Operands broadcast against each other, or None when none of them has two axes."""
        e = self.e
        vals = [e.val(a) for a in args]
        if not any(v.ty == 'ref' and self.deep(v) for v in vals):
            return None
        arrs = []
        for v in vals:
            a = self.arr(v, 1)
            if a is None:
                if v.ty == 'ref' and e.listc(v) is not None or not (v.c is not None or v.sc):
                    return None
                a = np.empty((), dtype=object)
                a[()] = v
            arrs.append(a)
        try:
            return np.broadcast_arrays(*arrs)
        except ValueError:
            e.raise_lanes(e.active, 'pydomain')
            return None

    def deep(self, v):
        lc = self.e.listc(v)
        return lc is not None and lc.arr and any(self.e.listc(self.e.val(c)) is not None for c in lc.cells)

    def map(self, fn, *args):
        arrs = self.spread(args)
        if arrs is None:
            return None
        out = np.empty(arrs[0].shape, dtype=object)
        for at in np.ndindex(*arrs[0].shape):
            out[at] = fn(*[a[at] for a in arrs])
        return self.lift(out)

    # ------------------------------------------------------------ indexing
    def key(self, k):
        """A numpy index, or None."""
        e = self.e
        k = e.val(k)
        lc = e.listc(k)
        if lc is not None and lc.kind == 'tuple':
            parts = [self.part(c) for c in lc.cells]
            return None if any(p is NotImplemented for p in parts) or not (lc.n == len(lc.cells)).all() else tuple(parts)
        p = self.part(k)
        return None if p is NotImplemented else (p,)

    def part(self, k):
        e = self.e
        k = e.val(k)
        if k.c is not None:
            if k.c[0] is None or isinstance(k.c[0], int) and not isinstance(k.c[0], bool):
                return k.c[0]
            return Ellipsis if k.c[0] == '...' else NotImplemented
        if k.ival is not None and (k.ival == k.ival[0]).all():
            return int(k.ival[0])
        if e.is_slice(k):
            ends = []
            for x in k.node[1:4]:
                x = e.val(x)
                if x.c is not None and (x.c[0] is None or isinstance(x.c[0], int)):
                    ends.append(x.c[0])
                elif x.ival is not None and (x.ival == x.ival[0]).all():
                    ends.append(int(x.ival[0]))
                else:
                    return NotImplemented
            return slice(*ends)
        lc = e.listc(k)
        if lc is not None and (lc.n == lc.n[0]).all() and lc.n[0] <= len(lc.cells):
            parts = [self.part(c) for c in lc.cells[:int(lc.n[0])]]
            if all(isinstance(p, int) for p in parts):
                return parts
        return NotImplemented

    def mask(self, k, shape):
        """Cells of a mask over the leading axes."""
        n = self.e.val(k).node
        m = self.arr(n[1] if n is not None and n[0] == 'gpos' else k, 1)
        if m is None or not m.size or not all(x.ty == 'bool' for x in m.ravel()) or m.shape != shape[:m.ndim]:
            return None
        return m

    def nonzero(self, v):
        """Positions of the true cells: index arrays when they are known, else a stand-in for the mask."""
        e = self.e
        a = self.arr(v, 2)
        m = np.empty(a.shape, dtype=object)
        for at in np.ndindex(*a.shape):
            m[at] = e.truth(a[at])
        if all(x.c is not None for x in m.ravel()):
            found = np.nonzero(np.array([bool(x.c[0]) for x in m.ravel()]).reshape(m.shape))
            return e.new_list([e.new_list([e.const(int(i)) for i in f], arr=True) for f in found], kind='tuple')
        return e.op('gpos', [self.lift(m)])

    def index(self, v, k):
        e = self.e
        kv = e.val(k)
        if kv.ival is not None:
            return None
        a = self.arr(v, 1)
        if a is None:
            return None
        lc = e.listc(kv)
        if a.ndim < 2 and not (lc is not None and lc.kind == 'tuple'):
            return None
        m = self.mask(k, a.shape)
        if m is not None:
            if all(x.c is not None for x in m.ravel()):
                return self.lift(a[np.array([bool(x.c[0]) for x in m.ravel()]).reshape(m.shape)])
            return e.op('gsel', [self.lift(a), self.lift(m)], 'num')
        key = self.key(k)
        if key is None:
            return self.either(v, lc)
        while len(key) > 1 and key[-1] == slice(None):
            key = key[:-1]
        if all(isinstance(p, int) and not isinstance(p, bool) for p in key):
            r = v
            for p, n in zip(key, a.shape):
                if not -n <= p < n or len(key) > a.ndim:
                    e.raise_lanes(e.active, 'IndexError')
                    return e.op('oob', [kv], sc=True)
                r = e.listc(e.val(r)).cells[p]
            return r
        try:
            return self.lift(a[key])
        except IndexError:
            e.raise_lanes(e.active, 'IndexError')
            return e.op('oob', [kv], sc=True)

    def either(self, v, lc):
        """An index with one position that is not the same everywhere."""
        e = self.e
        if lc is None or lc.kind != 'tuple':
            return None
        wild = [i for i, c in enumerate(lc.cells) if self.part(c) is NotImplemented]
        at = e.val(lc.cells[wild[0]]).ival if len(wild) == 1 else None
        if at is None or len(np.unique(at)) > 8:
            return None
        r = None
        for p in np.unique(at):
            cells = list(lc.cells)
            cells[wild[0]] = e.const(int(p))
            got = e.with_mask(at == p, lambda: self.index(v, e.new_list(cells, kind='tuple')))
            if got is None:
                return None
            if r is None:
                r = got
                continue
            x, y = self.arr(got, 1), self.arr(r, 1)
            if x is None or y is None:
                r = e.ite(at == p, got, r)
                continue
            if x.shape != y.shape:
                return None
            new = np.empty(x.shape, dtype=object)
            for q in np.ndindex(*x.shape):
                new[q] = e.ite(at == p, x[q], y[q])
            r = self.lift(new)
        return r

    def unselect(self, v, k):
        """x for x[k], through elementwise operations."""
        e = self.e
        v = e.val(v)
        n = v.node
        if n is None or v.c is not None:
            return v
        if n[0] == 'ite':
            x, y = self.unselect(n[2], k), self.unselect(n[3], k)
            return v if x is n[2] and y is n[3] else e.ite(n[1], x, y)
        if n[0] == 'gsel' and ((e.F(n[2]) == k) | ~e.active).all():
            return n[1]
        if n[0] == 'ew':
            args = [self.unselect(a, k) for a in n[2]]
            if any(x is not y for x, y in zip(args, n[2])):
                return e.quietly(e.apply_ew, n[1], args)
        return v

    def store(self, target, k, v):
        """target[k] = v; True when done."""
        e = self.e
        kv = e.val(k)
        if kv.ival is not None and not self.deep(target):
            return False
        a = self.arr(target, 1)
        if a is None:
            return False
        lc = e.listc(kv)
        if a.ndim < 2 and not (lc is not None and lc.kind == 'tuple' or e.is_slice(kv) and self.part(kv) != slice(None) and self.arr(v, 1) is not None):
            return False
        m = self.mask(k, a.shape)
        new = a.copy()
        if m is not None:
            v = self.unselect(v, e.F(self.lift(m)))
            va = self.arr(v, 1)
            if va is None:
                if not (e.val(v).c is not None or e.val(v).sc):
                    return False
                va = np.empty((), dtype=object)
                va[()] = e.val(v)
            if va.ndim and va.shape != a.shape:
                return False
            va = np.broadcast_to(va, a.shape)
            for at in np.ndindex(*a.shape):
                x = m[at[:m.ndim]]
                sel = e.bits(x)
                new[at] = va[at] if sel.all() else a[at] if not sel.any() else e.ite(sel, va[at], a[at])
        else:
            key = self.key(k)
            if key is None:
                return False
            va = self.arr(v, 1)
            if va is None:
                x = e.val(v)
                if x.ty == 'ref' and e.listc(x) is not None:
                    lx = e.listc(x)
                    if not (lx.n == len(lx.cells)).all() or any(e.listc(e.val(c)) is not None for c in lx.cells):
                        return False
                    va = np.empty(len(lx.cells), dtype=object)
                    for j, c in enumerate(lx.cells):
                        va[j] = e.val(c)
                elif x.c is not None or x.sc:
                    va = np.empty((), dtype=object)
                    va[()] = x
                else:
                    # members of an opaque sequence along the last axis that is left
                    try:
                        part = a[key]
                    except IndexError:
                        return False
                    if not isinstance(part, np.ndarray) or part.ndim != 1:
                        return False
                    va = np.empty(part.shape, dtype=object)
                    for j in range(part.shape[0]):
                        va[j] = e.index(x, e.const(j))
            try:
                new[key] = va if va.ndim else va[()]
            except (IndexError, ValueError):
                e.raise_lanes(e.active, 'pydomain')
                return True
        self.put(target, a, new)
        return True

    def put(self, target, old, new):
        """Replace changed cells where they live, so that views of rows see the change."""
        e = self.e

        def walk(ref, o, n):
            lc = e.listc(e.val(ref))
            if o.ndim == 1:
                if all(x is y for x, y in zip(o, n)):
                    return
                m = e.wmask(lc)
                cells = [y if x is y or m is None else e.ite(m, y, x) for x, y in zip(o, n)]
                e.put(e.val(ref), type(lc)(lc.n, cells, lc.arr, kind=lc.kind))
                return
            for c, x, y in zip(lc.cells, o, n):
                walk(c, x, y)
        walk(target, old, new)

    # ------------------------------------------------------------ functions
    def shape_of(self, x):
        """A constant shape."""
        e = self.e
        x = e.val(x)
        p = self.part(x)
        if isinstance(p, int):
            return (p,)
        lc = e.listc(x)
        if lc is None or not (lc.n == len(lc.cells)).all():
            return None
        parts = [self.part(c) for c in lc.cells]
        return tuple(parts) if all(isinstance(p, int) for p in parts) else None

    def filled(self, shape, v):
        s = self.shape_of(shape)
        if s is None or len(s) < 2 or np.prod(s) > MAX or min(s) < 0:
            return None
        a = np.empty(s, dtype=object)
        for at in np.ndindex(*s):
            a[at] = v
        return self.lift(a)

    def ints(self, v):
        p = self.part(v)
        if isinstance(p, int):
            return p
        s = self.shape_of(v)
        return s

    def corrcoef(self, x, y):
        """Correlation matrix of two series."""
        e = self.e
        x, y = self.arr(x, 1), self.arr(y, 1)
        if x is None or y is None or x.ndim != 1 or x.shape != y.shape or not x.size:
            return None

        def total(cells):
            r = cells[0]
            for c in cells[1:]:
                r = e.arith('add', r, c)
            return r

        def less(a):
            m = e.arith('div', total(list(a)), e.const(a.size))
            return [e.arith('sub', c, m) for c in a]
        dx, dy = less(x), less(y)
        xx, yy, xy = (total([e.arith('mul', a, b) for a, b in zip(p, q)]) for p, q in ((dx, dx), (dy, dy), (dx, dy)))
        r = e.arith('div', xy, e.sqrt(e.arith('mul', xx, yy)))
        return self.lift(np.array([[e.arith('div', xx, xx), r], [r, e.arith('div', yy, yy)]], dtype=object))

    def call(self, b, args, kw):
        """A numpy function of a structured array with two or more axes."""
        e = self.e
        if not args:
            return None
        if b == 'corrcoef' and len(args) == 2 and not kw:
            return self.corrcoef(*args)
        if b in ('concatenate', 'stack', 'vstack', 'hstack', 'dstack', 'column_stack'):
            seq = e.listc(e.val(args[0]))
            if seq is None or not (seq.n == len(seq.cells)).all() or not seq.cells:
                return None
            parts = [self.arr(c, 1) for c in seq.cells]
            if any(p is None for p in parts) or b in ('concatenate', 'hstack') and all(p.ndim < 2 for p in parts):
                return None
            how = {}
            if b in ('concatenate', 'stack'):
                axis = self.ints(args[1]) if len(args) > 1 else self.ints(kw['axis']) if 'axis' in kw else 0
                if not isinstance(axis, int):
                    return None
                how['axis'] = axis
            try:
                return self.lift(getattr(np, b)(parts, **how))
            except ValueError:
                e.raise_lanes(e.active, 'pydomain')
                return None
        a = self.arr(args[0], 1)
        if a is None:
            return None
        if b in FFT or b in ('fftshift', 'ifftshift'):
            return self.transform(b, a, args, kw)
        if b in ('reshape', 'expand_dims', 'atleast_2d', 'broadcast_to', 'newaxis', 'tile') or a.ndim >= 2 and b in (
                'transpose', 'swapaxes', 'moveaxis', 'squeeze', 'ravel', 'flatten', 'roll', 'flip', 'repeat', 'tile', 'rollaxis', 'take', 'flipud', 'fliplr'):
            if b == 'reshape' and len(args) > 2:
                more = [tuple(self.ints(x) for x in args[1:])]
            else:
                more = [self.ints(x) for x in args[1:]]
            kws = {k: self.ints(x) for k, x in kw.items()}
            if any(m is None for m in more) or any(m is None for m in kws.values()):
                return None
            if b in ('ravel', 'flatten'):
                return self.lift(a.ravel()) if not more and not kws else None
            try:
                return self.lift(getattr(np, b)(a, *more, **kws))
            except (ValueError, TypeError, IndexError):
                return None
        if a.ndim < 2:
            return None
        if b in REDUCE or b in ALONG:
            kws = dict(kw)
            axis = kws.pop('axis', args[1] if len(args) > 1 and b not in ('diff',) else None)
            if len(args) > 1 and b == 'diff' or len(args) > 2:
                return None
            keep = kws.pop('keepdims', None)
            keep = keep is not None and e.val(keep).c == (True,)
            if axis is None or e.val(axis).c == (None,):
                if b in ALONG and b not in ('cumsum', 'cumprod'):
                    axis = a.ndim - 1
                else:
                    return None if keep else self.one(b, self.lift(a.ravel()), kws)
            else:
                axis = self.ints(axis)
            if isinstance(axis, tuple):
                axes = tuple(x % a.ndim for x in axis)
                rest = [i for i in range(a.ndim) if i not in axes]
                moved = np.transpose(a, rest + list(axes)).reshape([a.shape[i] for i in rest] + [-1])
                out = np.empty(moved.shape[:-1], dtype=object)
                for at in np.ndindex(*out.shape):
                    out[at] = self.one(b, self.lift(moved[at]), kws)
                    if out[at] is None:
                        return None
                if keep:
                    out = np.expand_dims(out, axes)
                return self.lift(out)
            if axis is None:
                return None
            moved = np.moveaxis(a, axis, -1)
            out = np.empty(moved.shape[:-1], dtype=object)
            rows = []
            for at in np.ndindex(*out.shape):
                r = self.one(b, self.lift(moved[at]), kws)
                if r is None:
                    return None
                if b in ALONG:
                    rows.append(self.arr(r, 1))
                    if rows[-1] is None:
                        return None
                out[at] = r
            if b in ALONG:
                n = rows[0].shape[0]
                full = np.empty(out.shape + (n,), dtype=object)
                for at, r in zip(np.ndindex(*out.shape), rows):
                    full[at] = r
                return self.lift(np.moveaxis(full, -1, axis))
            return self.lift(np.expand_dims(out, axis) if keep else out)
        return None

    def transform(self, b, a, args, kw):
        """Fourier transforms: every coefficient depends on all cells along the transformed axes, and on no others."""
        e = self.e
        names = ['axes'] if b.endswith('shift') else ['s', 'axes'] if b.endswith('2') else ['n', 'axis']
        given = dict(zip(names, args[1:]))
        given.update(kw)
        given = {k: v for k, v in given.items() if e.val(v).c != (None,)}
        axes = self.ints(given.pop(names[-1])) if names[-1] in given else None if b.endswith('shift') else (-2, -1) if b.endswith('2') else -1
        if given or axes is None and not b.endswith('shift'):
            return None
        if b.endswith('shift'):
            try:
                return self.lift(getattr(np.fft, b)(a, axes=axes))
            except (ValueError, IndexError):
                return None
        axes = tuple(x % a.ndim for x in ((axes,) if isinstance(axes, int) else axes))
        shape = getattr(np.fft, b)(np.zeros(a.shape), **({'axes': axes} if b.endswith('2') else {'axis': axes[0]})).shape
        order = axes if b in ('rfft2', 'irfft2') else tuple(sorted(axes))
        moved = np.moveaxis(a, order, range(len(order)))
        out = np.empty(shape, dtype=object)
        for at in np.ndindex(*shape):
            part = moved[(slice(None),) * len(order) + tuple(at[i] for i in range(a.ndim) if i not in order)]
            out[at] = e.op('%s at %s of %s' % (b, tuple(at[i] for i in order), part.shape), list(part.ravel()), 'num')
            out[at].sc = True
        return self.lift(out)

    def detrend(self, args, kw):
        """Removal of a trend: every cell depends on all cells along the axis, and on no others."""
        e = self.e
        given = dict(zip(['data', 'axis', 'type', 'bp', 'overwrite_data'], args))
        given.update(kw)
        a = self.arr(given.pop('data', None), 1) if 'data' in given else None
        given.pop('overwrite_data', None)
        axis = self.ints(given.pop('axis')) if 'axis' in given else -1
        how = e.val(given.pop('type')).c if 'type' in given else ('linear',)
        if a is None or given or not isinstance(axis, int) or how is None or not -a.ndim <= axis < a.ndim:
            return None
        how = {'l': 'linear', 'c': 'constant'}.get(how[0], how[0])
        moved = np.moveaxis(a, axis, 0)
        out = np.empty(moved.shape, dtype=object)
        for at in np.ndindex(*moved.shape):
            out[at] = e.op('detrend %s at %d' % (how, at[0]), list(moved[(slice(None),) + at[1:]]), 'num')
            out[at].sc = True
        return self.lift(np.moveaxis(out, 0, axis))

    def one(self, b, v, kw):
        """The function of one row."""
        if b in ('amin', 'amax'):
            b = b[1:]
        return self.e.lib.numpy_call('numpy.' + b, b, [v], kw, None)

    def attr(self, v, name):
        e = self.e
        a = self.arr(v)
        if a is None:
            return None
        if name == 'T':
            return self.lift(a.T)
        if name == 'shape':
            return e.new_list([e.const(int(n)) for n in a.shape], kind='tuple')
        if name == 'ndim':
            return e.const(a.ndim)
        if name == 'size':
            return e.const(int(a.size))
        return None
