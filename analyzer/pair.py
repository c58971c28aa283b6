"""Comparison of a function of the program with its reference definition."""
import ast
import numpy as np
from .values import ALL, NONE_, ZERO, L, full, str_fp, hash_fp, UNDEF_FP, NONE_FP
from .engine import V, MapC, ListC, Registry, Budget, describe, deps_of, K
from .interp import Interp
from .repo import Func, Cls, Module

MAXPASS = 5


class Outcome:
    def __init__(self):
        self.fp = None
        self.raised = NONE_
        self.effects = []
        self.args_fp = []
        self.value = None
        self.assume = ALL
        self.unsup = []
        self.warn = None
        self.cells = None
        self.inlined = set()


class Param:
    """How one parameter is presented to both sides."""

    def __init__(self, name, const=None, own_len=False, cls=None, ents=None, kind=None, value=None):
        self.name = name
        self.const = const
        self.own_len = own_len
        self.cls = cls
        self.ents = ents
        self.kind = kind
        self.value = value


NOTCONST = object()


def resolve(eng, dotted):
    """module.func or module.Class.method -> Func."""
    parts = dotted.split('.')
    for i in range(len(parts) - 1, 0, -1):
        m = eng.repo.get('.'.join(parts[:i]))
        if m is not None:
            fr = eng.module_frame(m)
            v = fr.env.get(parts[i])
            for nm in parts[i + 1:]:
                if v is None:
                    return None
                if v.ty == 'cls':
                    x = v.pay.lookup(nm)
                    v = eng.func_value(x) if isinstance(x, Func) else x
                else:
                    return None
            if v is None or v.ty not in ('fn', 'cls'):
                return None
            return v
    return None


def build(eng, p):
    if isinstance(p, Param):
        if p.value is not None:
            return p.value(eng)
        if p.const is not NOTCONST and p.const is not None:
            return eng.const(p.const[0])
        if p.cls is not None:
            r = eng.new_map(base=eng.sym(p.name), cls=p.cls(eng) if callable(p.cls) else p.cls)
        elif p.kind == 'num':
            return V(eng.bias(eng.sym(p.name).fp), 'num', node=('sym', p.name), sc=True)
        elif p.kind == 'str':
            return V(eng.sym(p.name).fp, 'str', node=('sym', p.name), sc=True)
        elif p.kind == 'bool':
            raw = eng.sym(p.name).fp
            from .values import lane_hash
            return V(lane_hash('pb', [raw]) % np.uint64(2), 'bool', node=('sym', p.name), raw=raw)
        elif p.kind == 'scalar':
            s = eng.sym(p.name)
            s.sc = True
            return s
        else:
            r = eng.new_map(base=eng.sym(p.name))
        eng.store[r.pay].born = ALL
        if p.ents:
            for k, q in p.ents.items():
                v = build(eng, q) if isinstance(q, Param) else eng.const(q)
                eng.map_set(r, eng.const(k), v)
        return r
    if isinstance(p, str):
        r = eng.new_map(base=eng.sym(p))
        eng.store[r.pay].born = ALL
        return r
    return eng.const(p[0])


def run_one(eng, fv, args, wrap_missing=False, strict=False, kw=None, outer=False):
    out = Outcome()
    eng.active, eng.trys, eng.effects, eng.raised, eng.raise_fp = ALL, [], [], NONE_, ZERO
    eng.assume, eng.unsupported, eng.condstack, eng.exit_warn, eng.inlined = ALL, [], [], [], set()
    eng.warn_err = ALL if strict else NONE_
    eng.np_call = False
    eng.callstack = []
    mod = fv.pay.module if isinstance(fv.pay, (Func, Cls)) else None
    from .engine import Frame
    eng.frames = [Frame(mod)]
    rec = {}
    if wrap_missing or outer:
        eng.trys.append(rec)
    r = eng.call(fv, args, kw or {}, None)
    if wrap_missing:
        eng.trys.pop()
        m = NONE_
        for k, x in rec.items():
            m = m | x
        if m.any():
            eng.active = eng.active | m
            r = eng.ite(m, eng.NONE, r)
    if outer:
        eng.trys = []
        out.escaped = {k: m for k, m in rec.items() if m.any()}
    out.value = r
    out.fp = np.where(eng.raised, eng.raise_fp, eng.F(r) if not (r.ty == 'bool' and r.raw is not None and r.c is None and False) else r.fp)
    out.raised = eng.raised
    out.effects = eng.effects
    out.args_fp = [eng.F(a) for a in args]
    out.assume = eng.assume
    out.unsup = list(eng.unsupported)
    out.warn = eng.warn_err.copy()
    out.inlined = eng.inlined
    return out


def same_value(eng, a, b, mask, depth=0):
    """Lane mask where two result values agree; containers are compared cell by cell."""
    fa, fb = eng.F(a), eng.F(b)
    eq = fa == fb
    if (eq | ~mask).all() or depth > 4:
        return eq
    va, vb = eng.val(a), eng.val(b)
    for x, y, sw in ((va, vb, 0), (vb, va, 1)):
        if x.ty == 'ite':
            m, p, q = x.node[1], x.node[2], x.node[3]
            return np.where(m, same_value(eng, p, y, mask & m, depth), same_value(eng, q, y, mask & ~m, depth))
    la, lb = eng.listc(va), eng.listc(vb)
    if la is not None or lb is not None:
        if (la is None and va.ty not in ('unk', 'num')) or (lb is None and vb.ty not in ('unk', 'num')):
            return eq
        if (va.c is not None) or (vb.c is not None):
            return eq
        ca, na = eng.materialize(va)
        cb, nb = eng.materialize(vb)
        if la is None:
            na = np.where(eng.length(va).ival > K, nb if lb is not None else na, na)
        if lb is None:
            nb = np.where(eng.length(vb).ival > K, na, nb)
        r = na == nb
        for j in range(max(len(ca), len(cb))):
            live = (na > j) & r
            if not (live & mask).any():
                break
            if j < len(ca) and j < len(cb):
                r = r & (~live | same_value(eng, ca[j], cb[j], mask & live, depth + 1))
            else:
                r = r & ~live
        return eq | r
    ma, mb = eng.mapc(va), eng.mapc(vb)
    if ma is not None and mb is not None:
        ea, eb = eng.live_entries(ma), eng.live_entries(mb)
        base_ok = ALL
        if ma.base is not None and mb.base is not None:
            base_ok = eng.F(ma.base) == eng.F(mb.base)
        elif ma.base is not mb.base:
            return eq
        r = base_ok
        if all(k.c is not None for _, k, _ in ea) and all(k.c is not None for _, k, _ in eb):
            keys = {}
            for m, k, v in ea:
                keys.setdefault(repr(k.c[0]), [[], []])[0].append((m, v))
            for m, k, v in eb:
                keys.setdefault(repr(k.c[0]), [[], []])[1].append((m, v))
            for kk, (xs, ys) in keys.items():
                pa = NONE_
                for m, v in xs:
                    pa = pa | m
                pb = NONE_
                for m, v in ys:
                    pb = pb | m
                r = r & (pa == pb)
                for m, v in xs:
                    for m2, v2 in ys:
                        mm = m & m2
                        if (mm & mask).any():
                            r = r & (~mm | same_value(eng, v, v2, mask & mm, depth + 1))
            return eq | r
    return eq


class PairResult:
    def __init__(self):
        self.status = 'ok'       # ok | differs | undetermined | vanished
        self.detail = ''
        self.where = ''
        self.lanes = 0
        self.live = 0
        self.steps = 0
        self.inlined = []
        self.kind = ''


COMMUTE = ('os.remove', 'os.rmdir')


def compare_effects(ea, eb, names, mask, ignore=()):
    """Per lane sequence hash of the selected effects; neighbouring deletions have no order."""
    def seq(eff):
        h, gone = full(5), full(0)
        for name, m, args, kw, loc in eff:
            if names is not None and name not in names:
                continue
            if name in ignore:
                args, kw = [], []
            arrs = [h] + [fp for _, fp in args]
            tag = 'eff:' + name
            for k, v, fp in kw:
                if k in ignore:
                    continue
                tag += '|' + k
                arrs.append(fp)
            if name in COMMUTE:
                gone = gone + np.where(m, hash_fp(tag, arrs), np.uint64(0))
            else:
                h = np.where(m, hash_fp(tag, arrs), h)
        return h, gone
    (a, b), (c, d) = seq(ea), seq(eb)
    return (a == c) & (b == d)


def check_pair(repo, impl, spec, params, opaque=(), strict_none=(), hooks=None, wrap=False, effects=None, check_args=False,
               impl_args=None, spec_args=None, result=True, npfns=(), budget=600000, own_len=(), ignore=(), maxpass=MAXPASS, setup=None, only=None, returns=None, strict=True, noted=None):
    """Compare; params is a list of Param/str/const-tuples given to both sides. only='missing': just that no value appears where the
    definition has none. noted: helpers kept as calls that count as effects in order, with the attributes of their object they replace."""
    reg = Registry()
    res = PairResult()
    last = None
    for p in range(maxpass):
        eng = Interp(repo, reg, opaque=opaque, hooks=hooks, strict_none=strict_none, budget=budget,
                     params_own_len=set(own_len) | {q.name for q in params if isinstance(q, Param) and q.own_len})
        eng.npfns = set(npfns)
        eng.returns = returns or {}
        eng.noted = noted or {}
        try:
            fi = resolve(eng, impl) if isinstance(impl, str) else impl(eng)
            if fi is None:
                res.status = 'vanished'
                res.detail = 'no definition of %s' % impl
                return res
            fs = resolve(eng, spec)
            if fs is None:
                raise RuntimeError('no reference definition ' + spec)
            if setup:
                setup(eng)
            ai = [build(eng, q) for q in (impl_args or params)]
            oi = run_one(eng, fi, ai)
            vi = oi.value
            eng.active, eng.trys, eng.raised = ALL, [], NONE_
            as_ = [build(eng, q) for q in (spec_args or params)]
            os_ = run_one(eng, fs, as_, wrap_missing=wrap, strict=strict)
        except Budget:
            res.status = 'undetermined'
            res.detail = 'analysis budget exceeded'
            return res
        size = reg.size()
        if last == size and p >= 1:
            break
        last = size
    mask = oi.assume & os_.assume
    res.steps = eng.steps
    res.inlined = sorted({f.qual() for f in oi.inlined if not f.module.name.startswith('specs')})
    res.where = fi.pay.where if isinstance(fi.pay, Func) else ''
    res.lanes = int(mask.sum())
    res.live = int((mask & ~os_.raised & (os_.fp != np.uint64(NONE_FP))).sum())
    eng.active = ALL
    bad = NONE_
    if result:
        eq = same_value(eng, oi.value, os_.value, mask & ~oi.raised & ~os_.raised)
        ok = np.where(oi.raised | os_.raised, oi.fp == os_.fp, eq)
        bad = mask & ~ok
        if only == 'missing':
            bad = bad & ~os_.raised & (os_.fp == np.uint64(NONE_FP))
        if bad.any():
            res.kind = 'result'
            l = int(np.argmax(bad))
            res.detail = explain(eng, oi, os_, l, bad)
    if effects is not None and not bad.any():
        ok = compare_effects(oi.effects, os_.effects, effects or None, mask, ignore)
        bad = mask & ~ok
        if bad.any():
            res.kind = 'effects'
            l = int(np.argmax(bad))
            fmt = lambda effs: [(n, [describe(a) for a, _ in args], [(k, describe(v)) for k, v, _ in kw]) for n, m, args, kw, loc in effs if m[l] and (not effects or n in effects)]
            res.detail = 'effects differ: %s instead of %s' % (fmt(oi.effects), fmt(os_.effects))
    if check_args and not bad.any():
        n = min(len(ai), len(as_))
        for i in range(n):
            if check_args is not True and i not in check_args:
                continue
            eq = same_value(eng, ai[i], as_[i], mask & ~oi.raised)
            b = mask & ~eq & ~oi.raised
            if b.any():
                bad = b
                res.kind = 'argument'
                l = int(np.argmax(b))
                res.detail = 'argument %d is left as %s instead of %s' % (i, explain_value(eng, ai[i], l), explain_value(eng, as_[i], l))
                break
    if bad.any():
        res.badlanes = int(bad.sum())
        hard = [u for u in oi.unsup if not u[0].startswith(('unbound', 'missing', 'extra'))]
        if hard:
            res.status = 'undetermined'
            res.detail = 'constructs outside the analysed subset: %s; %s' % (hard[:3], res.detail)
        else:
            res.status = 'differs'
    return res


def explain_value(eng, v, l, depth=3):
    v = eng.val(v)
    while v.node is not None and v.node[0] == 'ite':
        v = eng.val(v.node[2] if v.node[1][l] else v.node[3])
    lc = eng.listc(v)
    if lc is not None:
        return '[%s]' % ', '.join(explain_value(eng, c, l, depth - 1) for c in lc.cells[:int(lc.n[l])]) if depth else '[..]'
    fc = eng.lib.fr.get(v)
    if fc is not None:
        return 'table{%s}' % ', '.join('%s: %s' % (describe(k), explain_value(eng, c, l, depth - 1)) for k, c in fc.cols[:40]) if depth else 'table'
    mc = eng.mapc(v)
    if mc is not None and depth:
        ents = [(k, w) for m, k, w in eng.live_entries(mc) if m[l]]
        return '%s{%s}' % (describe(mc.base) if mc.base is not None else '', ', '.join('%s: %s' % (describe(k), explain_value(eng, w, l, depth - 1)) for k, w in ents[:40]))
    if v.ty == 'bool' and v.c is None:
        return str(bool(v.fp[l]))
    return pretty(eng, v, l)


def pretty(eng, v, l, depth=9):
    if not isinstance(v, V):
        return ''
    v = eng.val(v)
    if v.c is not None:
        return repr(v.c[0]) if not hasattr(v.c[0], 'denominator') or isinstance(v.c[0], (int, bool)) else str(v.c[0])
    if v.ty == 'ref':
        return explain_value(eng, v, l, 2) if depth > 6 and (eng.listc(v) is not None or eng.mapc(v) is not None or eng.lib.fr.get(v) is not None) else '<obj>'
    n = v.node
    if n is None:
        return v.ty
    if n[0] == 'ite':
        return pretty(eng, n[2] if n[1][l] else n[3], l, depth)
    if depth <= 0:
        return '..'
    if n[0] == 'sym':
        return n[1]
    if v.ival is not None:
        return str(int(v.ival[l]))
    sy = {'add': '+', 'sub': '-', 'mul': '*', 'div': '/', 'pow': '**'}
    if n[0] == 'ew' and n[1] in sy:
        return '(%s %s %s)' % (pretty(eng, n[2][0], l, depth - 1), sy[n[1]], pretty(eng, n[2][1], l, depth - 1))
    if n[0] == 'index':
        return '%s[%s]' % (pretty(eng, n[1], l, depth - 1), pretty(eng, n[2], l, depth - 1))
    if n[0] == 'ew':
        return '%s(%s)' % (n[1], ', '.join(pretty(eng, a, l, depth - 1) for a in n[2]))
    return '%s(%s)' % (n[0], ', '.join(pretty(eng, a, l, depth - 1) for a in n[1:] if isinstance(a, V)))


def strip(eng, v, l):
    v = eng.val(v)
    while v.node is not None and v.node[0] == 'ite':
        v = eng.val(v.node[2] if v.node[1][l] else v.node[3])
    return v


def drill(eng, a, b, l, path='', depth=0):
    """The deepest corresponding parts of two values that differ in lane l."""
    a, b = strip(eng, a, l), strip(eng, b, l)
    if depth > 14:
        return path, a, b
    la, lb = eng.listc(a), eng.listc(b)
    if la is not None and lb is not None:
        if la.n[l] != lb.n[l]:
            return path + ' (length)', a, b
        for j in range(int(la.n[l])):
            if not same_value(eng, la.cells[j], lb.cells[j], lane_mask(l))[l]:
                return drill(eng, la.cells[j], lb.cells[j], l, '%s[%d]' % (path, j), depth + 1)
        return path, a, b
    ma, mb = eng.mapc(a), eng.mapc(b)
    if ma is not None and mb is not None:
        ea = {describe(k): v for m, k, v in eng.live_entries(ma) if m[l]}
        eb = {describe(k): v for m, k, v in eng.live_entries(mb) if m[l]}
        for k in sorted(set(ea) ^ set(eb)):
            return '%s has entry %s on one side only' % (path, k), a, b
        for k in sorted(ea):
            if not same_value(eng, ea[k], eb[k], lane_mask(l))[l]:
                return drill(eng, ea[k], eb[k], l, '%s[%s]' % (path, k), depth + 1)
        return path, a, b
    na, nb = a.node, b.node
    if na is not None and nb is not None and na[0] == nb[0]:
        xa = na[2] if na[0] == 'ew' else na[1:]
        xb = nb[2] if nb[0] == 'ew' else nb[1:]
        if (na[0] != 'ew' or na[1] == nb[1]) and len(xa) == len(xb):
            bad = [j for j in range(len(xa)) if isinstance(xa[j], V) and isinstance(xb[j], V) and eng.A(xa[j])[l] != eng.A(xb[j])[l]]
            if len(bad) == 1:
                return drill(eng, xa[bad[0]], xb[bad[0]], l, path, depth + 1)
    return path, a, b


def lane_mask(l):
    m = np.zeros(L, dtype=bool)
    m[l] = True
    return m


def explain(eng, oi, os_, l, bad):
    if not oi.raised[l] and not os_.raised[l]:
        path, a, b = drill(eng, oi.value, os_.value, l)
        return 'result%s is %s where the definition gives %s' % (path, explain_value(eng, a, l)[:500], explain_value(eng, b, l)[:500])
    show = lambda o: 'an exception' if o.raised[l] else explain_value(eng, o.value, l)[:500]
    return 'gives %s where the definition gives %s' % (show(oi), show(os_))


def run_alone(repo, impl, params, opaque=(), hooks=None, budget=600000, maxpass=MAXPASS, setup=None, npfns=(), own_len=(), outer=False):
    """Abstract one function by itself; (engine, outcome, argument fingerprints before the call) or a status string."""
    reg = Registry()
    last = None
    for p in range(maxpass):
        eng = Interp(repo, reg, opaque=opaque, hooks=hooks, budget=budget, params_own_len=set(own_len))
        eng.npfns = set(npfns)
        try:
            fi = resolve(eng, impl) if isinstance(impl, str) else impl(eng)
            if fi is None:
                return 'vanished'
            if setup:
                setup(eng)
            args = [build(eng, q) for q in params]
            eng.active = ALL
            before = [eng.F(a) for a in args]
            out = run_one(eng, fi, args, outer=outer)
            out.args = args
        except Budget:
            return 'budget'
        size = reg.size()
        if last == size and p >= 1:
            break
        last = size
    out.where = fi.pay.where if isinstance(fi.pay, Func) else ''
    return eng, out, before
