"""Structured model of small data frames built in the analysed code: named columns of cells plus row labels."""
import numpy as np
from .values import L, ALL, full, UNDEF_FP
from .engine import V, ListC, MapC, FrameC, I64


class Frames:
    """Operations on FrameC objects; None means the operation is not modelled and the caller falls back to an opaque value."""

    def __init__(self, e):
        self.e = e

    def get(self, v):
        if v.ty == 'ref':
            c = self.e.store[v.pay]
            if isinstance(c, FrameC):
                return c
        return None

    def ints(self, n):
        return self.e.new_list([self.e.const(j) for j in range(int(n.max()) if len(n) else 0)], n=n, arr=True)

    def column_of(self, v, n):
        """A value assigned to a column of n rows."""
        e = self.e
        v = e.val(v)
        lc = e.listc(v)
        if lc is not None:
            return e.new_list(list(lc.cells), n=lc.n, arr=True)
        m = int(n.max()) if len(n) else 0
        if v.ty == 'ite':
            x, y = self.column_of(v.node[2], n), self.column_of(v.node[3], n)
            a, b = e.listc(x).cells, e.listc(y).cells
            und = V(full(UNDEF_FP), 'undef')
            cells = [e.ite(v.node[1], a[j] if j < len(a) else und, b[j] if j < len(b) else und) for j in range(max(len(a), len(b)))]
            return e.new_list(cells, n=np.where(v.node[1], e.listc(x).n, e.listc(y).n), arr=True)
        if v.c is not None or v.sc or v.ty in ('str', 'none'):
            return e.new_list([v] * m, n=n, arr=True)
        return e.new_list([e.index(v, e.const(j)) for j in range(m)], n=n, arr=True)

    def seqlen(self, v):
        e = self.e
        v = e.val(v)
        lc = e.listc(v)
        if lc is not None:
            return lc.n
        if v.c is not None or v.sc or v.ty in ('str', 'none'):
            return None
        if v.ty == 'ite':
            a, b = self.seqlen(v.node[2]), self.seqlen(v.node[3])
            return None if a is None or b is None else np.where(v.node[1], a, b)
        cells, n = e.materialize(v)
        return n

    def build(self, items, index=None):
        """items: [(key, value)]; None when the columns are not sequences of cells."""
        e = self.e
        lens = [self.seqlen(v) for k, v in items]
        known = [x for x in lens if x is not None]
        if index is not None:
            n = self.seqlen(index)
            if n is None:
                return None
        elif known:
            n = known[0]
            bad = np.zeros(L, dtype=bool)
            for x in known[1:]:
                bad = bad | (x != n)
            if bad.any():
                e.raise_lanes(bad, 'pydomain')
        elif not items:
            n = np.zeros(L, dtype=I64)
        else:
            return None
        cols = [(k, self.column_of(v, n)) for k, v in items]
        idx = self.ints(n) if index is None else self.column_of(index, n)
        return e.new_ref(FrameC(n, cols, idx))

    def find(self, fc, key):
        key = self.e.val(key)
        if key.c is None:
            return None
        for k, v in fc.cols:
            if k.c == key.c:
                return v
        return None

    def mask_of(self, k, n):
        """Boolean cells of a row mask, or None."""
        e = self.e
        k = e.val(k)
        lc = e.listc(k)
        if lc is not None and lc.arr and lc.cells and all(e.val(c).ty == 'bool' for c in lc.cells):
            return [e.bits(c) for c in lc.cells]
        if lc is not None and lc.arr and not lc.cells:
            return []
        if lc is None and e.is_mask(k):
            return [e.bits(e.truth(e.index(k, e.const(j)))) for j in range(int(n.max()))]
        return None

    def filter(self, fc, keep):
        e = self.e
        lists = [v for _, v in fc.cols] + [fc.idx]
        out = []
        for ref in lists:
            lc = e.listc(ref)
            n = fc.n if lc is None else lc.n
            cells = [e.index(ref, e.const(j)) for j in range(int(n.max()))] if lc is None else lc.cells
            r = e.new_list([], n=np.zeros(L, dtype=I64), arr=True)
            for j, c in enumerate(cells):
                if j < len(keep):
                    e.list_push(r, c, (n > j) & keep[j])
            out.append(r)
        n = e.listc(out[-1]).n
        return e.new_ref(FrameC(n, [(k, v) for (k, _), v in zip(fc.cols, out)], out[-1]))

    def index(self, v, fc, k):
        e = self.e
        k = e.val(k)
        if k.c is not None:
            r = self.find(fc, k)
            if r is not None:
                return r
            return e.op('missing', [k])
        keep = self.mask_of(k, fc.n)
        if keep is not None:
            return self.filter(fc, keep)
        lc = e.listc(k)
        if lc is not None and lc.cells and (lc.n == len(lc.cells)).all():
            cols = [(e.val(c), self.find(fc, c)) for c in lc.cells]
            if all(c[1] is not None for c in cols):
                return e.new_ref(FrameC(fc.n, [(c, e.new_list(list(e.listc(r).cells), n=e.listc(r).n, arr=True)) for c, r in cols], fc.idx))
        return e.op('index', [e.plain(v), k])

    def store(self, ref, fc, k, v):
        e = self.e
        k = e.val(k)
        if k.c is None:
            return False
        n = fc.n
        if not fc.cols and not fc.n.any():
            n = self.seqlen(v)
            if n is None:
                n = fc.n
        col = self.column_of(v, n)
        m = e.wmask(fc)
        cols = list(fc.cols)
        for j, (kk, old) in enumerate(cols):
            if kk.c == k.c:
                if m is not None:
                    a, b = e.listc(col).cells, e.listc(old).cells
                    und = V(full(UNDEF_FP), 'undef')
                    cells = [e.ite(m, a[i] if i < len(a) else und, b[i] if i < len(b) else und) for i in range(max(len(a), len(b)))]
                    col = e.new_list(cells, n=n, arr=True)
                cols[j] = (kk, col)
                break
        else:
            cols.append((k, col))
        e.put(ref, FrameC(n, cols, fc.idx if n is fc.n else self.ints(n)))
        return True

    def loc_store(self, ref, fc, which, k, v):
        e = self.e
        kl = e.listc(k)
        if kl is None or len(kl.cells) != 2 or kl.kind != 'tuple' or which not in ('loc', 'at'):
            return False
        row, col = e.val(kl.cells[0]), e.val(kl.cells[1])
        old = self.find(fc, col)
        if e.is_slice(row) and all(x.c is not None and x.c[0] is None for x in row.node[1:4]):
            return self.store(ref, fc, col, v)
        if old is None:
            return False
        keep = self.mask_of(row, fc.n)
        if keep is None:
            labels = e.listc(row)
            idx = e.listc(fc.idx)
            if labels is not None:
                keep = [e.bits(e.contains(row, c)) for c in idx.cells]
            else:
                keep = [e.bits(e.compare('eq', c, row)) for c in idx.cells]
        oc = e.listc(old)
        m = e.wmask(fc)
        vl = e.listc(e.val(v))
        cells = list(oc.cells)
        for j in range(len(cells)):
            sel = keep[j] if j < len(keep) else np.zeros(L, dtype=bool)
            if m is not None:
                sel = sel & m
            if sel.any():
                cells[j] = e.ite(sel, v if vl is None else e.idx_arg(v, j), cells[j])
        cols = [(kk, e.new_list(cells, n=oc.n, arr=True) if kk.c == col.c else c) for kk, c in fc.cols]
        e.put(ref, FrameC(fc.n, cols, fc.idx))
        return True

    def rows(self, fc, k):
        """Rows by position, a slice with known ends."""
        e = self.e
        at = e.list_index(None, e.listc(self.ints(fc.n)), k)
        pos = e.listc(at)
        if pos is None or not all(e.val(c).ival is not None for c in pos.cells):
            return None
        return self.filter(fc, [self.among(pos, j) for j in range(int(fc.n.max()))])

    def among(self, pos, j):
        r = np.zeros(L, dtype=bool)
        for i, c in enumerate(pos.cells):
            r = r | ((pos.n > i) & (self.e.val(c).ival == j))
        return r

    def row(self, fc, k):
        e = self.e
        k = e.val(k)
        if k.ival is None:
            return None
        r = e.new_map()
        for kk, c in fc.cols:
            e.map_set(r, kk, e.list_index(c, e.listc(c), k))
        return r

    def attr(self, o, fc, name):
        e = self.e
        if name == 'columns':
            return e.new_list([k for k, _ in fc.cols], arr=True)
        if name == 'index':
            return fc.idx
        if name == 'shape':
            return e.new_list([e.intv(fc.n), e.const(len(fc.cols))], kind='tuple')
        if name == 'empty':
            return e.compare('eq', e.intv(fc.n), e.const(0))
        if name == 'values':
            return self.method(o, fc, 'to_numpy', [], {}, None)
        if name == 'size':
            return e.num2('mul', e.intv(fc.n), e.const(len(fc.cols)))
        r = self.find(fc, e.const(name))
        return r

    def method(self, o, fc, name, args, kw, node):
        e = self.e
        if name == 'iterrows' and not args:
            idx = e.listc(fc.idx)
            return e.new_list([e.new_list([idx.cells[j], self.row(fc, e.const(j))], kind='tuple') for j in range(len(idx.cells))], n=fc.n)
        if name == 'itertuples':
            idx = e.listc(fc.idx)
            rows = []
            for j in range(len(idx.cells)):
                r = self.row(fc, e.const(j))
                e.map_set(r, e.const('Index'), idx.cells[j])
                rows.append(r)
            return e.new_list(rows, n=fc.n)
        if name == 'copy':
            return e.new_ref(FrameC(fc.n, [(k, e.new_list(list(e.listc(c).cells), n=e.listc(c).n, arr=True)) for k, c in fc.cols], fc.idx))
        if name == 'reindex' and not args and not kw:
            return self.method(o, fc, 'copy', [], {}, node)
        if name == 'insert' and len(args) + len(kw) == 3 and set(kw) <= {'loc', 'column', 'value'}:
            at, key, value = [args[j] if j < len(args) else kw[k] for j, k in enumerate(('loc', 'column', 'value')) if j < len(args) or k in kw]
            at, key = e.val(at), e.val(key)
            if at.c is None or key.c is None or not isinstance(at.c[0], int) or self.find(fc, key) is not None:
                return None
            self.store(o, fc, key, value)
            new = self.get(o)
            if new is None or len(new.cols) != len(fc.cols) + 1:
                return None
            if at.c[0] < len(fc.cols):
                cols = list(new.cols)
                cols.insert(at.c[0], cols.pop())
                e.put(o, FrameC(new.n, cols, new.idx))
            return e.NONE
        if name == 'reset_index' and not args:
            drop = e.val(kw['drop']) if 'drop' in kw else e.FALSE
            if drop.c != (True,):
                return None
            inplace = 'inplace' in kw and e.val(kw['inplace']).c == (True,)
            new = FrameC(fc.n, list(fc.cols), self.ints(fc.n))
            if inplace:
                e.put(o, new)
                return e.NONE
            return e.new_ref(new)
        if name == 'to_numpy' and not args and not kw:
            cols = [e.listc(c).cells for _, c in fc.cols]
            return e.new_list([e.new_list([c[j] for c in cols], arr=True) for j in range(int(fc.n.max()) if len(fc.n) else 0)], n=fc.n, arr=True)
        if name == 'rename' and not args and set(kw) <= {'columns', 'inplace'}:
            new = e.mapc(e.val(kw['columns']))
            ents = e.live_entries(new) if new is not None and new.base is None else None
            if ents is None or not all(k.c is not None and m.all() for m, k, _ in ents):
                return None
            to = {k.c[0]: e.val(v) for _, k, v in ents}
            out = FrameC(fc.n, [(to.get(k.c[0], k) if k.c is not None else k, c) for k, c in fc.cols], fc.idx)
            if 'inplace' in kw and e.val(kw['inplace']).c == (True,):
                e.put(o, out)
                return e.NONE
            return e.new_ref(out)
        if name == 'keys' and not args and not kw:
            return self.attr(o, fc, 'columns')
        if name == 'infer_objects':
            return o
        if name in ('head', 'tail') and len(args) <= 1 and not kw:
            k = e.val(args[0]) if args else e.const(5)
            if k.c is None or not isinstance(k.c[0], int) or k.c[0] < 0:
                return None
            at = [np.full(L, j) for j in range(int(fc.n.max()) if len(fc.n) else 0)]
            return self.filter(fc, [j < k.c[0] if name == 'head' else j >= fc.n - k.c[0] for j in at])
        if name == 'drop' and len(args) <= 1:
            axis = e.val(kw['axis']).c if 'axis' in kw else None
            if set(kw) <= {'index', 'axis', 'labels'} and axis in (None, (0,), ('index',)):
                gone = kw.get('index', kw.get('labels', args[0] if args else None))
                gl = e.listc(e.val(gone)) if gone is not None else None
                if gl is None:
                    return None
                labels = e.new_list(list(gl.cells), n=gl.n)
                return self.filter(fc, [~e.bits(e.contains(labels, c)) for c in e.listc(fc.idx).cells])
            if set(kw) - {'axis', 'columns', 'labels'} or (axis not in ((1,), ('columns',)) and 'columns' not in kw):
                return None
            which = args[0] if args else kw.get('columns', kw.get('labels'))
            which = e.val(which)
            lc = e.listc(which)
            gone = [which] if lc is None else [e.val(c) for c in lc.cells]
            if any(g.c is not None and self.find(fc, g) is None for g in gone) and e.trys:
                e.raise_lanes(ALL, 'KeyError')
                return o
            if any(g.c is None or self.find(fc, g) is None for g in gone) or (lc is not None and not (lc.n == len(lc.cells)).all()):
                return None
            gone = [g.c for g in gone]
            return e.new_ref(FrameC(fc.n, [(k, e.new_list(list(e.listc(c).cells), n=e.listc(c).n, arr=True)) for k, c in fc.cols if k.c not in gone], fc.idx))
        if name == 'astype' and len(args) == 1 and not kw:
            m = e.mapc(e.val(args[0]))
            ents = e.live_entries(m) if m is not None and m.base is None else None
            if ents is None or not all(k.c is not None and live.all() for live, k, _ in ents):
                return None
            to = {k.c: v for _, k, v in ents}
            cols = []
            for k, c in fc.cols:
                lc = e.listc(c)
                cells = list(lc.cells)
                if k.c in to:
                    cells = [e.op('astype', [x, e.val(to[k.c])], 'obj', sc=True) for x in cells]
                cols.append((k, e.new_list(cells, n=lc.n, arr=True)))
            return e.new_ref(FrameC(fc.n, cols, fc.idx))
        return None

    def concat(self, frames):
        """Row-wise concatenation of frames with the same columns."""
        e = self.e
        fcs = [self.get(f) for f in frames]
        if any(f is None for f in fcs) or not fcs:
            return None
        fcs = [f for f in fcs if f.cols or f.n.any()] or fcs[:1]      # a frame without columns adds nothing
        names = [k.c for k, _ in fcs[0].cols]
        if any([k.c for k, _ in f.cols] != names for f in fcs):
            return None

        def cat(refs):
            r = refs[0]
            for x in refs[1:]:
                r = e.list_concat(e.listc(r), e.listc(x))
            lc = e.listc(r)
            return e.new_list(list(lc.cells), n=lc.n, arr=True)
        cols = [(fcs[0].cols[i][0], cat([f.cols[i][1] for f in fcs])) for i in range(len(names))]
        idx = cat([f.idx for f in fcs])
        return e.new_ref(FrameC(e.listc(idx).n, cols, idx))
