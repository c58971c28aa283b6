"""Statements and expressions: the predicated walk over the syntax tree."""
import ast
import numpy as np
from .values import (P, PP, L, ALL, NONE_, ZERO, hash_fp, full, str_fp, NONE_FP, UNDEF_FP, lane_hash, const_fp)
from .engine import (Engine, V, Frame, ListC, MapC, Budget, K, MAXDEPTH, I64, exc_matches, EXC_MATCH, KNOWN_ATTRS)
from .repo import Func, Cls, Module

BIN = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'div', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
       ast.MatMult: 'matmul', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitXor: 'xor'}
COMPARE = {ast.Eq: 'eq', ast.NotEq: 'ne', ast.Lt: 'lt', ast.LtE: 'le', ast.Gt: 'gt', ast.GtE: 'ge'}
SPECIAL = {ast.Add: 'add', ast.Sub: 'sub', ast.Mult: 'mul', ast.Div: 'truediv', ast.FloorDiv: 'floordiv', ast.Mod: 'mod', ast.Pow: 'pow',
           ast.MatMult: 'matmul', ast.LShift: 'lshift', ast.RShift: 'rshift', ast.BitXor: 'xor', ast.BitAnd: 'and', ast.BitOr: 'or'}
DUNDER = {v: k for k, v in SPECIAL.items()}
DUNDER_CMP = set(COMPARE.values())
MIRROR = {'eq': 'eq', 'ne': 'ne', 'lt': 'gt', 'gt': 'lt', 'le': 'ge', 'ge': 'le'}
BUILTINS = set('''abs all any bool bytes callable chr dict dir divmod enumerate eval exec filter float format frozenset getattr globals
hasattr hash hex id input int isinstance issubclass iter len list locals map max min next object oct open ord pow print property
range repr reversed round set setattr slice sorted staticmethod str sum super tuple type vars zip __import__ complex
BaseException Exception ArithmeticError AssertionError AttributeError EOFError FileNotFoundError FloatingPointError ImportError
IndexError IOError KeyError KeyboardInterrupt LookupError MemoryError ModuleNotFoundError NameError NotImplementedError OSError
OverflowError PermissionError RuntimeError RuntimeWarning StopIteration SystemExit TypeError UnicodeDecodeError UserWarning ValueError Warning
FutureWarning DeprecationWarning ZeroDivisionError UnboundLocalError'''.split())


class Interp(Engine):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)
        self.warn_err = NONE_
        self.condstack = []
        self.callstack = []
        self.fnsum = {}
        self.notes = []         # values updated in place by an augmented assignment
        self.fresh = []         # copies: values whose storage nobody else sees
        self.views = []         # (reference, value it was made of) of values about to be changed
        self.exit_warn = []

    # ------------------------------------------------------------ modules
    def module_frame(self, mod):
        if mod.frame is not None and mod.frame[0] is self:
            return mod.frame[1]
        fr = Frame(mod)
        mod.frame = (self, fr)
        fr.env['__name__'] = self.const(mod.name)
        fr.env['__file__'] = self.const(mod.path)
        saved = (self.active, self.trys, self.frames, self.raised, self.raise_fp, self.effects, self.warn_err, self.condstack, self.callstack)
        self.active, self.trys, self.frames, self.effects, self.warn_err = ALL, [], [fr], [], NONE_
        self.condstack = []
        self.callstack = []
        try:
            self.block(mod.tree.body)
        finally:
            (self.active, self.trys, self.frames, self.raised, self.raise_fp, self.effects, self.warn_err, self.condstack, self.callstack) = saved
        return fr

    def mod_value(self, name):
        m = self.repo.get(name)
        if m is not None:
            return V(full(str_fp('mod:' + name)), 'mod', pay=m)
        if self.repo.is_ns(name):
            return V(full(str_fp('mod:' + name)), 'mod', pay=('ns', name))
        return self.ext(name)

    def ext(self, dotted):
        dotted = self.lib.canon(dotted)
        if 'const:' + dotted in self.hooks:
            return self.hooks['const:' + dotted](self)
        c = self.lib.ext_const(dotted)
        if c is not None:
            return c
        return V(full(str_fp('ext:' + dotted)), 'ext', pay=dotted, node=('sym', dotted))

    def mod_attr(self, v, name, node=None):
        if v.ty == 'ext':
            return self.ext(v.pay + '.' + name)
        if isinstance(v.pay, tuple):
            return self.mod_value(v.pay[1] + '.' + name)
        fr = self.module_frame(v.pay)
        if name in fr.env:
            return fr.env[name]
        sub = v.pay.name + '.' + name
        if self.repo.find(sub) or self.repo.is_ns(sub):
            return self.mod_value(sub)
        return self.op('modattr', [v, self.const(name)])

    def func_value(self, f):
        return V(None, 'fn', pay=f, node=('sym', f.name))

    def F(self, v):
        if v.fp is None and v.ty == 'fn':
            return self.fn_fp(v)
        return super().F(v)

    def fn_fp(self, v):
        p = v.pay
        if isinstance(p, tuple):
            if p[0] == 'bound':
                return hash_fp('bound', [self.F(V(None, 'fn', pay=p[2]))] if False else [full(str_fp(p[2].name))])
            if p[0] == 'partial':
                args = [self.A(a) for a in p[2]] + [self.A(x) for _, x in sorted(p[3].items())]
                return hash_fp('partial', [self.F(p[1])] + args)
            if p[0] == 'method':
                return hash_fp('method:' + p[2], [self.F(p[1])])
            return full(str_fp(str(p[0])))
        if p in self.fnsum:
            return self.fnsum[p]
        nm = p.name
        tag = self.opaque_tag(p)
        if tag is not None:
            return full(str_fp('fn:' + tag))
        public = not (nm.startswith('_') or nm == '<lambda>' or p.frame is not None)
        if public:
            self.fnsum[p] = full(str_fp('fn:' + nm))
            return self.fnsum[p]
        self.fnsum[p] = full(str_fp('rec'))
        n = len(p.node.args.args)
        args = [self.new_map(base=self.sym('lam%d' % i)) for i in range(n)]
        for r in args:
            self.store[r.pay].born = ALL
        saved = (self.active, self.trys, self.effects, self.raised, self.raise_fp, self.warn_err, self.condstack)
        self.active, self.trys, self.effects, self.condstack = ALL, [], [], []
        try:
            r = self.call_func(p, args, {}, None)
            fp = hash_fp('lam%d' % n, [self.A(r)])
        finally:
            self.active, self.trys, self.effects, self.raised, self.raise_fp, self.warn_err, self.condstack = saved
        self.fnsum[p] = fp
        return fp

    # ------------------------------------------------------------ env
    @property
    def fr(self):
        return self.frames[-1]

    def lookup(self, name, node=None):
        fr = self.fr
        if name in fr.globals_:
            mf = self.module_frame(fr.module)
            if name in mf.env:
                return mf.env[name]
        f = fr
        while f is not None:
            if name in f.env:
                return f.env[name]
            f = f.parent
        mf = self.module_frame(fr.module)
        if name in mf.env:
            return mf.env[name]
        if name in BUILTINS:
            return self.ext('builtins.' + name)
        self.unsup('unbound ' + name, node)
        return self.op('unbound', [self.const(name)])

    def assign_name(self, name, v):
        fr = self.fr
        env = fr.env
        if name in fr.globals_:
            env = self.module_frame(fr.module).env
            if not self.active.all() and name in env:
                v = self.ite(self.active, v, env[name])
            env[name] = v
            return
        if fr.pend.any() and name in env:
            v = self.ite(~fr.pend, v, env[name])
        env[name] = v

    def merge_env(self, m, et, ef, cond=None):
        out = {}
        for k in et:
            if k in ef:
                a, b = et[k], ef[k]
                out[k] = a if a is b else self.ite(m, a, b, cond)
            else:
                out[k] = et[k]
        for k in ef:
            if k not in et:
                out[k] = ef[k]
        return out

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if not self.active.any():
                return
            self.tick()
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            self.unsup(type(s).__name__, s)
            return
        m(s)

    def s_Expr(self, s):
        if isinstance(s.value, ast.Constant):
            return
        if isinstance(s.value, (ast.Yield, ast.YieldFrom)):
            self.do_yield(s.value)
            return
        self.ev(s.value)

    def do_yield(self, y):
        if self.fr.yields is None:
            self.fr.yields = self.new_list([], n=np.zeros(L, dtype=I64))
            self.store[self.fr.yields.pay].born = self.fr.entry if self.fr.entry is not None else ALL
        if isinstance(y, ast.YieldFrom):
            cells, n = self.materialize(self.ev(y.value))
            for j, c in enumerate(cells):
                self.list_push(self.fr.yields, c, n > j)
        else:
            self.list_push(self.fr.yields, self.ev(y.value) if y.value else self.NONE)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.fr.globals_.update(s.names)

    def s_Nonlocal(self, s):
        self.unsup('nonlocal', s)

    def s_Import(self, s):
        for a in s.names:
            if a.asname:
                self.assign_name(a.asname, self.mod_value(a.name))
            else:
                top = a.name.split('.')[0]
                self.assign_name(top, self.mod_value(top))

    def s_ImportFrom(self, s):
        mod = s.module or ''
        if s.level:
            base = self.fr.module.name.split('.')
            if not self.fr.module.is_pkg:
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            mod = '.'.join(base + ([mod] if mod else []))
        if mod == 'vspec':
            return
        mv = self.mod_value(mod)
        for a in s.names:
            if a.name == '*':
                if mv.ty == 'mod' and isinstance(mv.pay, Module):
                    fr = self.module_frame(mv.pay)
                    for k, v in list(fr.env.items()):
                        if not k.startswith('_'):
                            self.assign_name(k, v)
                continue
            self.assign_name(a.asname or a.name, self.mod_attr(mv, a.name, s))

    def mkfunc(self, node, cls=None):
        fr = self.fr
        f = Func(node, fr.module, fr if fr.func is not None or fr.parent is not None else None, cls)
        f.defaults = [self.ev(d) for d in node.args.defaults]
        f.kwdefaults = [self.ev(d) if d is not None else None for d in node.args.kw_defaults]
        return f

    def s_FunctionDef(self, s):
        self.assign_name(s.name, self.func_value(self.mkfunc(s)))

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        bases = []
        for b in s.bases:
            bv = self.ev(b)
            bases.append(bv.pay if bv.ty == 'cls' else bv.pay)
        c = Cls(s, self.fr.module, bases)
        sub = Frame(self.fr.module, None, self.fr if self.fr.func is not None else None)
        self.frames.append(sub)
        try:
            for b in s.body:
                if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(b, self.fr.module, None, c)
                    f.defaults = [self.ev(d) for d in b.args.defaults]
                    f.kwdefaults = [self.ev(d) if d is not None else None for d in b.args.kw_defaults]
                    c.attrs[b.name] = f
                    sub.env[b.name] = self.func_value(f)
                elif isinstance(b, (ast.Assign, ast.AnnAssign)):
                    self.stmt(b)
            for k, v in sub.env.items():
                if k not in c.attrs:
                    c.attrs[k] = v
        finally:
            self.frames.pop()
        self.assign_name(s.name, V(full(str_fp('cls:' + s.name)), 'cls', pay=c, node=('sym', s.name)))

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, t)
        elif isinstance(t, ast.Attribute):
            cur = self.attr(self.ev(t.value), t.attr, t)
        else:
            cur = self.ev(t)
        rhs = self.ev(s.value)
        f = self.own(cur, '__i%s__' % SPECIAL[type(s.op)])
        if f is not None:
            self.assign(t, self.call_func(f, [cur, rhs], {}, s))
            return
        lc = self.listc(cur)
        if isinstance(s.op, ast.Add) and lc is not None and not lc.arr and lc.kind == 'list':
            cells, n = self.materialize(rhs)
            for j, c in enumerate(cells):
                self.list_push(cur, c, n > j)
            return
        v = self.binop(type(s.op), cur, rhs, s)
        base = self.val(cur)
        if isinstance(t, ast.Name) and not base.sc and base.ty == 'unk':
            # may be an array: the update is then visible through every alias
            self.notes.append((base, self.active))
        self.assign(t, v)

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.assign_name(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                cells, n = self.materialize(v)
                after = len(t.elts) - i - 1
                for j in range(i):
                    self.assign(t.elts[j], self.index(v, self.const(j)))
                tot = len(cells)
                self.assign(t.elts[i].value, self.new_list(cells[i:tot - after], n=np.maximum(n - i - after, 0)))
                for j in range(after):
                    self.assign(t.elts[i + 1 + j], self.index(v, self.const(j - after)))
                return
            for j, e in enumerate(t.elts):
                self.assign(e, self.index(v, self.const(j)))
        elif isinstance(t, ast.Attribute):
            o = self.ev_ref(t.value)
            self.set_attr(o, t.attr, v, t)
        elif isinstance(t, ast.Subscript):
            self.store_sub(t, v)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v)
        else:
            self.unsup('assign target', t)

    def set_attr(self, o, name, v, node):
        if o.ty == 'ite':
            m, a, b = o.node[1], o.node[2], o.node[3]
            self.with_mask(m, lambda: self.set_attr(a, name, v, node))
            self.with_mask(~m, lambda: self.set_attr(b, name, v, node))
            return
        fc = self.lib.fr.get(o)
        if fc is not None and self.lib.fr.store(o, fc, self.const(name), v):
            return
        mc = self.mapc(o)
        if mc is None:
            self.effect('setattr.' + name, [o, v], {}, node)
            return
        self.map_set(o, self.const(name), v)

    def store_sub(self, t, v):
        # df.loc[...] / .at / .iloc
        if isinstance(t.value, ast.Attribute) and t.value.attr in ('loc', 'iloc', 'at', 'iat'):
            o = self.ev_ref(t.value.value)
            k = self.ev_index(t.slice)
            if self.own(o, t.value.attr):
                o = self.attr(o, t.value.attr, t)
                self.call_func(self.own(o, '__setitem__'), [o, k, v], {}, t)
                return
            self.loc_store(o, t.value.attr, k, v, t)
            return
        if isinstance(t.value, ast.Attribute) and t.value.attr == 'values':
            o = self.ev_ref(t.value.value)
            if self.own(o, 'values'):
                o = self.attr(o, 'values', t)
        else:
            o = self.ev_ref(t.value)
        k = self.ev_index(t.slice)
        f = self.own(o, '__setitem__')
        if f is not None:
            self.call_func(f, [o, k, v], {}, t)
            return
        if o.ty not in ('ref', 'ite'):
            self.effect('setitem', [o, k, v], {}, t)
            return
        if isinstance(t.value, ast.Call):
            self.effect('setitem', [o, k, v], {}, t)
        self.store_index(o, k, v)

    def loc_store(self, o, which, k, v, node):
        kl = self.listc(k)
        if o.ty == 'ite':
            m, a, b = o.node[1], o.node[2], o.node[3]
            self.with_mask(m, lambda: self.loc_store(a, which, k, v, node))
            self.with_mask(~m, lambda: self.loc_store(b, which, k, v, node))
            return
        fc = self.lib.fr.get(o)
        if fc is not None:
            if not self.lib.fr.loc_store(o, fc, which, k, v):
                self.opaque_store(o, 'locset:' + which, k, v)
            return
        mc = self.mapc(o)
        if mc is None:
            self.effect('locset', [o, k, v], {}, node)
            return
        if kl is not None and len(kl.cells) == 2 and which in ('loc', 'at'):
            row, col = self.val(kl.cells[0]), self.val(kl.cells[1])
            if col.c is not None and isinstance(col.c[0], str) or col.ty in ('str', 'unk'):
                if self.is_slice(row) and all(x.c is not None and x.c[0] is None for x in row.node[1:4]):
                    self.store_index(o, col, v)
                    return
                old = self.val(self.index(o, col))
                if old.ty == 'ref':
                    old = V(self.F(old), 'unk', node=('obj', old))
                if self.is_mask(row):
                    nv = self.lib.where3(row, v, old)
                else:
                    nv = self.op('setitem', [old, row, v])
                nv.lenof = old
                self.store_index(o, col, nv)
                return
        if kl is None and self.is_mask(k):
            self.store_index(o, k, v)
            return
        old = V(self.F(o), 'unk', node=('obj', o))
        if mc.base is not None and not mc.ents and not self.kids_changed(mc):
            old = self.val(mc.base)
        nv = self.op('locset:' + which, [old, k, v])
        nv.lenof = old
        m = self.wmask(mc)
        if m is not None:
            nv = self.ite(m, nv, old)
        self.put(o, MapC(nv))

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                continue
            if isinstance(t, ast.Subscript):
                o = self.ev_ref(t.value)
                k = self.ev_index(t.slice)
                self.lib.del_item(o, k)

    def s_Assert(self, s):
        bad = self.active & ~self.bits(self.truth(self.ev(s.test)))
        if self.trys:
            self.raise_lanes(bad, 'AssertionError')
        elif bad.any():
            self.raised = self.raised | bad
            self.raise_fp = np.where(bad, full(str_fp('raise AssertionError')), self.raise_fp)
            self.active = self.active & ~bad

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else self.NONE
        fr = self.fr
        act = self.active
        if not act.any():
            return
        if v.ty == 'ref' and self.listc(v) is None and False:
            pass
        if fr.ret is None:
            fr.ret = (v, act, self.condstack[-1] if len(self.condstack) == 1 else None)
        else:
            old, m0, cond = fr.ret
            c = None
            if cond is not None:
                cm, cv = cond
                if cm is not None and np.array_equal(m0, cm):
                    c = cv
            fr.ret = (self.ite(m0 if c is not None else fr.done, old, v, c), act | m0, None)
        fr.done = fr.done | act
        self.active = NONE_

    def s_If(self, s):
        cond = self.test(self.ev(s.test))
        if not self.active.any():
            return
        m = self.bits(cond)
        act = self.active
        mt, mf = act & m, act & ~m
        if not mf.any():
            self.block(s.body)
            return
        if not mt.any():
            self.block(s.orelse)
            return
        fr = self.fr
        env0 = fr.env
        fr.env = dict(env0)
        self.active = mt
        self.condstack.append((mt, cond))
        self.block(s.body)
        self.condstack.pop()
        at, et = self.active, fr.env
        fr.env = dict(env0)
        self.active = mf
        notc = (mf, None)
        self.condstack.append(notc)
        self.block(s.orelse)
        self.condstack.pop()
        af, ef = self.active, fr.env
        self.active = at | af
        livet = at | (fr.pend & mt)
        livef = af | (fr.pend & mf)
        if not livet.any():
            fr.env = ef
        elif not livef.any():
            fr.env = et
        else:
            fr.env = self.merge_env(m, et, ef, cond)

    def loop_iter(self, live, assign, body):
        """One iteration over the lanes in live."""
        fr = self.fr
        rec = fr.loops[-1]
        rest = self.active & ~live
        frozen = rest | fr.pend
        env0 = dict(fr.env) if frozen.any() else None
        self.active = live
        if assign is not None:
            if env0 is not None:
                pass
            assign()
        self.block(body)
        cont = rec[1]
        self.active = self.active | cont
        fr.pend = fr.pend & ~cont
        rec[1] = NONE_
        if env0 is not None:
            fr.env = self.merge_env(live, fr.env, env0)
        self.active = self.active | rest

    def end_loop(self, orelse):
        fr = self.fr
        rec = fr.loops.pop()
        if orelse and self.active.any():
            act = self.active
            env0 = dict(fr.env) if rec[0].any() else None
            self.block(orelse)
            if env0 is not None:
                fr.env = self.merge_env(act, fr.env, env0)
        fr.pend = fr.pend & ~rec[0]
        self.active = self.active | rec[0]

    def s_For(self, s):
        it = self.ev(s.iter)
        if not self.active.any():
            return
        cells, n = self.materialize(it)
        self.fr.loops.append([NONE_, NONE_])
        cd = self.condstack
        self.condstack = cd + [(None, None)]
        for j, c in enumerate(cells):
            live = self.active & (n > j)
            if not live.any():
                break
            self.tick()
            self.loop_iter(live, lambda c=c: self.assign(s.target, c), s.body)
        self.condstack = cd
        self.end_loop(s.orelse)

    def s_While(self, s):
        self.fr.loops.append([NONE_, NONE_])
        cd = self.condstack
        self.condstack = cd + [(None, None)]
        exited = NONE_
        for it in range(14):
            self.tick()
            if not self.active.any():
                break
            cond = self.truth(self.ev(s.test))
            live = self.active & self.bits(cond)
            out = self.active & ~live
            exited = exited | out
            if not live.any():
                break
            self.active = live
            env0 = dict(self.fr.env) if (exited | self.fr.pend).any() else None
            rec = self.fr.loops[-1]
            self.block(s.body)
            self.active = self.active | rec[1]
            self.fr.pend = self.fr.pend & ~rec[1]
            rec[1] = NONE_
            if env0 is not None:
                self.fr.env = self.merge_env(live, self.fr.env, env0)
        else:
            self.assume = self.assume & ~self.active
        self.active = self.active | exited
        self.condstack = cd
        self.end_loop(s.orelse)

    def s_Break(self, s):
        fr = self.fr
        if not fr.loops:
            return
        fr.loops[-1][0] = fr.loops[-1][0] | self.active
        fr.pend = fr.pend | self.active
        self.active = NONE_

    def s_Continue(self, s):
        fr = self.fr
        if not fr.loops:
            return
        fr.loops[-1][1] = fr.loops[-1][1] | self.active
        fr.pend = fr.pend | self.active
        self.active = NONE_

    def s_With(self, s):
        saved = None
        for it in s.items:
            v = self.ev(it.context_expr)
            if v.node is not None and v.node[0] == 'catch_warnings':
                saved = self.warn_err
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)
        if saved is not None:
            self.warn_err = saved

    def handler_names(self, h):
        if h.type is None:
            return None
        elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = set()
        for e in elts:
            v = self.ev(e)
            if v.ty == 'ext':
                names.add(v.pay.split('.')[-1])
            elif v.ty == 'cls':
                names.add(v.pay.name)
            elif self.listc(v) is not None:
                for c in self.listc(v).cells:
                    if c.ty == 'ext':
                        names.add(c.pay.split('.')[-1])
            else:
                names.add(getattr(e, 'attr', getattr(e, 'id', '?')))
        if names & {'IOError', 'OSError', 'EnvironmentError'}:
            names |= {'IOError', 'OSError', 'EnvironmentError'}
        return names

    def s_Try(self, s):
        fr = self.fr
        act0 = self.active
        env0 = dict(fr.env)
        rec = {}
        generic = None
        cd = self.condstack
        self.condstack = cd + [(None, None)]
        ctries = len(self.trys)
        if s.handlers:
            if not self.may_raise(s.body):
                g = self.atom('EXC', [], 5)
                gm = act0 & self.bits(g)
                rec['any'] = gm
                self.active = act0 & ~gm
            self.trys.append(rec)
        warn0 = self.warn_err
        self.block(s.body)
        if s.handlers:
            self.trys.pop()
        if s.orelse and self.active.any():
            self.block(s.orelse)
        ok_env, ok_act = fr.env, self.active
        if s.handlers:
            remaining = {k: m for k, m in rec.items() if m.any()}
            envs = [(None, ok_env, ok_act | (fr.pend & act0))]
            acts = ok_act
            for h in s.handlers:
                names = self.handler_names(h)
                hm = NONE_
                for k in list(remaining):
                    if exc_matches(k, names):
                        hm = hm | remaining.pop(k)
                if not hm.any():
                    continue
                fr.env = self.merge_env(hm, dict(env0), ok_env) if False else dict(env0)
                for kk, vv in ok_env.items():
                    if kk not in fr.env:
                        fr.env[kk] = vv
                self.active = hm
                if h.name:
                    fr.env[h.name] = self.op('exc', [self.const(str(sorted(names)) if names else 'any')])
                self.block(h.body)
                acts = acts | self.active
                envs.append((hm, fr.env, self.active | (fr.pend & hm)))
            self.active = acts
            live = [e for e in envs if e[2].any()]
            if not live:
                fr.env = ok_env
            else:
                cur = live[0]
                env = cur[1]
                for hm, e, lv in live[1:]:
                    env = self.merge_env(hm, e, env)
                fr.env = env
            for k, m in remaining.items():
                if self.trys:
                    t = self.trys[-1]
                    t[k] = t.get(k, NONE_) | m
                else:
                    self.raised = self.raised | m
                    self.raise_fp = np.where(m, full(str_fp('raise ' + k)), self.raise_fp)
        self.condstack = cd
        if s.finalbody:
            act = self.active
            done = fr.done & act0
            extra = (done | fr.pend) & act0
            # run the finally block for every lane that entered, whatever way it left
            self.active = act0
            sd, sr, sp, slo = fr.done, fr.ret, fr.pend, [list(x) for x in fr.loops]
            fr.pend = NONE_
            self.block(s.finalbody)
            if fr.ret is sr or fr.done is sd:
                fr.done, fr.ret = sd, sr
            fr.pend = sp
            self.active = act & self.active if self.active.any() else self.active

    s_TryStar = s_Try

    def may_raise(self, body):
        """Does the block contain an operation whose failure the engine tracks lane by lane?"""
        for st in body:
            for n in ast.walk(st):
                if isinstance(n, ast.Raise):
                    return True
                if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.Mod, ast.FloorDiv, ast.Sub, ast.Mult)):
                    return True
                if isinstance(n, ast.AugAssign):
                    return True
                if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops):
                    return True
                if isinstance(n, ast.Subscript) and isinstance(n.value, (ast.Name, ast.Attribute)) and (
                        n.value.attr if isinstance(n.value, ast.Attribute) else n.value.id) == 'environ':
                    return True
                if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Subscript) and isinstance(n.value.value, ast.Call):
                    nm = n.value.value.func
                    if (nm.attr if isinstance(nm, ast.Attribute) else getattr(nm, 'id', '')) in ('where', 'nonzero'):
                        return True
                if isinstance(n, ast.Call):
                    nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                    if nm in ('sqrt', 'log', 'int', 'float', 'log10', 'strptime', 'pow', 'drop'):
                        return True
                    f = None
                    if isinstance(n.func, ast.Name):
                        f = self.fr.env.get(n.func.id)
                        if f is None:
                            f = self.module_frame(self.fr.module).env.get(n.func.id)
                    elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == 'self':
                        return True
                    if f is not None and f.ty == 'fn':
                        return True
        return False

    def s_Raise(self, s):
        kind = 'any'
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                for a in e.args:
                    pass
                e = e.func
            v = self.ev(e)
            if v.ty == 'ext':
                kind = v.pay.split('.')[-1]
            elif v.ty == 'cls':
                kind = v.pay.name
            else:
                kind = getattr(e, 'attr', getattr(e, 'id', 'any'))
        act = self.active
        if self.trys:
            self.raise_lanes(act, kind)
        else:
            self.raised = self.raised | act
            self.raise_fp = np.where(act, full(str_fp('raise ' + kind)), self.raise_fp)
        self.active = NONE_

    def s_Match(self, s):
        self.unsup('match', s)

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        self.tick()
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.unsup(type(e).__name__, e)
            return self.op('unsupported', [self.const(ast.dump(e)[:200])])
        return m(e)

    def ev_ref(self, e):
        """Evaluate an expression whose value is about to be mutated; makes it a reference."""
        v = self.ev(e)
        if v.node is not None and v.node[0] == 'dictattr':
            return v.node[1]
        r = self.refize(v)
        if r is v:
            return v
        if isinstance(e, ast.Name):
            env = self.fr.env
            for k in list(env):
                if env[k] is v:
                    env[k] = r
            if e.id not in env:
                mf = self.module_frame(self.fr.module)
                if e.id in mf.env:
                    mf.env[e.id] = r
        elif isinstance(e, (ast.Attribute, ast.Subscript)):
            self.assign(e, r)
        return r

    def refize(self, v, d=0):
        if v.ty == 'ref' or v.ty in ('regex', 'match', 'fn', 'mod', 'ext', 'cls', 'str', 'num', 'bool', 'none', 'undef') or v.c is not None or d > 6:
            if not (d == 0 and v.ty in ('num', 'str', 'none', 'bool', 'undef')):
                return v
        if v.ty == 'ite' and v.node is not None and v.node[0] == 'ite':
            m, a, b = v.node[1], v.node[2], v.node[3]
            ra, rb = self.refize(self.val(a), d + 1), self.refize(self.val(b), d + 1)
            if ra is a and rb is b:
                return v
            return self.ite(m, ra, rb)
        r = self.new_map(base=v)
        self.store[r.pay].born = ALL
        self.views.append((r, v))
        return r

    def e_Constant(self, e):
        if e.value is Ellipsis:
            return self.const('...')
        if isinstance(e.value, bytes):
            return self.const('b:' + repr(e.value))
        if isinstance(e.value, complex):
            return self.op('complex', [self.const(e.value.real), self.const(e.value.imag)], 'num', sc=True)
        return self.const(e.value)

    def e_Name(self, e):
        return self.lookup(e.id, e)

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v)
        return v

    def e_Tuple(self, e):
        return self.seq(e, 'tuple')

    def e_List(self, e):
        return self.seq(e, 'list')

    def e_Set(self, e):
        return self.seq(e, 'set')

    def seq(self, e, kind):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            r = self.new_list([], n=np.zeros(L, dtype=I64), kind=kind)
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    cells, n = self.materialize(self.ev(x.value))
                    for j, c in enumerate(cells):
                        self.list_push(r, c, n > j)
                else:
                    self.list_push(r, self.ev(x))
            return r
        return self.new_list([self.ev(x) for x in e.elts], kind=kind)

    def e_Dict(self, e):
        ents = []
        r = self.new_map()
        simple = all(k is not None for k in e.keys)
        if simple:
            for k, v in zip(e.keys, e.values):
                ents.append((None, self.val(self.ev(k)), self.ev(v)))
            self.store[r.pay].ents = tuple(ents)
            return r
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.lib.dict_update(r, self.ev(v))
            else:
                self.map_set(r, self.ev(k), self.ev(v))
        return r

    def e_JoinedStr(self, e):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(self.const(p.value))
            else:
                parts.append(self.fmt_value(p))
        return self.concat(parts)

    def e_FormattedValue(self, e):
        return self.fmt_value(e)

    def fmt_value(self, p):
        v = self.ev(p.value)
        if p.conversion == 114:
            v = self.op('repr', [v], 'str', sc=True)
        if p.format_spec is not None:
            spec = self.ev(p.format_spec)
            return self.lib.format_spec(v, spec)
        return self.to_str(v)

    def e_BinOp(self, e):
        a = self.ev(e.left)
        b = self.ev(e.right)
        return self.binop(type(e.op), a, b, e)

    def instance(self, v):
        """The class of an object whose class is part of the analysed program."""
        mc = self.mapc(v) if v.ty == 'ref' else None
        return mc.cls if mc is not None and isinstance(mc.cls, Cls) else None

    def own(self, v, name):
        """The special method of that name an object has."""
        c = self.instance(v)
        x = c.lookup(name) if c is not None else None
        return x if isinstance(x, Func) else None

    def holds_object(self, v, d=0):
        if v.ty == 'ite' and d < 8:
            return self.holds_object(self.val(v.node[2]), d + 1) or self.holds_object(self.val(v.node[3]), d + 1)
        return self.instance(v) is not None

    def overloaded(self, name, a, b, node=None):
        """The operator as an object's own class defines it."""
        a, b = self.val(a), self.val(b)
        if a.ty == 'ite' and self.holds_object(a):
            return self.dist(a, lambda x: self.overloaded(name, x, b, node) or self.operate(name, x, b, node))
        if b.ty == 'ite' and self.holds_object(b):
            return self.dist(b, lambda x: self.overloaded(name, a, x, node) or self.operate(name, a, x, node))
        f = self.own(a, '__%s__' % name)
        if f is not None and not (self.own(b, '__over__') and not self.own(a, '__over__')):
            return self.call_func(f, [a, b], {}, node)
        back = MIRROR.get(name, 'r' + name)
        f = self.own(b, '__%s__' % back)
        if f is not None:
            return self.call_func(f, [b, a], {}, node)
        return None

    def materialize(self, v):
        f = self.own(v, '__iter__')
        return super().materialize(v if f is None else self.call_func(f, [v], {}, None))

    def length(self, v):
        f = self.own(v, '__len__')
        return super().length(v) if f is None else self.call_func(f, [v], {}, None)

    def truth(self, v):
        f = self.own(v, '__bool__')
        return super().truth(v if f is None else self.call_func(f, [v], {}, None))

    def operate(self, name, a, b, node):
        if name in DUNDER_CMP:
            return self.compare(name, a, b)
        return self.binop(DUNDER[name], a, b, node)

    def binop(self, o, a, b, node):
        if a.ty in ('ref', 'ite') or b.ty in ('ref', 'ite'):
            r = self.overloaded(SPECIAL[o], a, b, node)
            if r is not None:
                return r
        if o in (ast.BitAnd, ast.BitOr, ast.Sub, ast.BitXor):
            la, lb = self.listc(self.val(a)), self.listc(self.val(b))
            if la is not None and lb is not None and la.kind == 'set' and lb.kind == 'set':
                r = self.lib.set_op({ast.BitAnd: 'and', ast.BitOr: 'or', ast.Sub: 'sub', ast.BitXor: 'xor'}[o], a, b)
                if r is not None:
                    return r
        if o in (ast.BitAnd, ast.BitOr):
            name = 'and' if o is ast.BitAnd else 'or'
            va, vb = self.val(a), self.val(b)
            if self.boolish(va) or self.boolish(vb):
                return self.logic(name, va, vb)
            if self.mapc(va) is not None and self.mapc(vb) is not None and name == 'or':
                r = self.lib.copy_obj(va)
                self.lib.dict_update(r, vb)
                return r
            if name == 'and' and (self.listc(va) or self.listc(vb)):
                return self.lib.intersect(va, vb)
            x, y = self.A(self.plain(va)), self.A(self.plain(vb))
            fp = hash_fp('bit' + name, [(x + y) % PP, (x * y) % PP])
            return V(self.bias(fp), 'unk', node=('bit' + name, va, vb))
        name = BIN[o]
        if name in ('matmul', 'lshift', 'rshift'):
            if name == 'matmul':
                return self.op('dot', [a, b])
            return self.op(name, [a, b])
        if name == 'xor':
            return self.op('xor', [a, b])
        return self.arith(name, a, b)

    def boolish(self, v):
        if v.ty == 'bool':
            return True
        lc = self.listc(v)
        return lc is not None and lc.arr and bool(lc.cells) and self.val(lc.cells[0]).ty == 'bool'

    def test(self, v):
        """Truth of a value in a condition; several elements at once have none."""
        lc = self.listc(self.val(v))
        if lc is not None and lc.arr:
            self.raise_lanes(self.active & (lc.n > 1), 'ValueError')
        return self.truth(v)

    def e_UnaryOp(self, e):
        v = self.ev(e.operand)
        f = self.own(v, {ast.Not: '__bool__', ast.USub: '__neg__', ast.Invert: '__invert__'}.get(type(e.op), '__pos__')) if v.ty == 'ref' else None
        if f is not None:
            v = self.call_func(f, [v], {}, e)
            return self.not_(self.test(v)) if isinstance(e.op, ast.Not) else v
        if isinstance(e.op, ast.Not):
            return self.not_(self.test(v))
        if isinstance(e.op, ast.USub):
            return self.neg(v)
        if isinstance(e.op, ast.Invert):
            return self.not_(v)
        return v

    def e_BoolOp(self, e):
        isand = isinstance(e.op, ast.And)
        vals = []
        act0 = self.active
        res = None
        cur = act0
        first = self.ev(e.values[0])
        res = first
        allbool = True
        for x in e.values[1:]:
            t = self.test(res)
            m = self.bits(t)
            go = act0 & (m if isand else ~m) & self.active
            if not go.any():
                return res if t.c is None else res
            stay = self.active & ~go
            self.active = go
            v = self.ev(x)
            dead = go & ~self.active
            self.active = stay | self.active
            tv = self.val(v)
            if t.ty == 'bool' and self.val(res).ty == 'bool' and (tv.ty == 'bool'):
                res = self.logic('and' if isand else 'or', res, tv)
            elif t.c is not None:
                res = v if (bool(t.c[0]) == isand) else res
            else:
                res = self.ite(m if isand else ~m, v, res)
                if self.val(res).node is not None and False:
                    pass
        return res

    def e_Compare(self, e):
        left = self.ev(e.left)
        res = None
        for o, r in zip(e.ops, e.comparators):
            right = self.ev(r)
            c = self.cmp1(type(o), left, right)
            res = c if res is None else self.logic('and', res, c)
            left = right
        return res

    def cmp1(self, o, a, b):
        if o in COMPARE:
            if a.ty in ('ref', 'ite') or b.ty in ('ref', 'ite'):
                r = self.overloaded(COMPARE[o], a, b)
                if r is not None:
                    return r
            return self.compare(COMPARE[o], a, b)
        if o in (ast.Is, ast.IsNot):
            va, vb = self.val(a), self.val(b)
            if vb.c is not None and vb.c[0] is None:
                r = self.isnone(va)
            elif va.c is not None and va.c[0] is None:
                r = self.isnone(vb)
            elif va.ty == 'ref' and vb.ty == 'ref':
                r = self.const(va.pay == vb.pay)
            else:
                r = self.compare('eq', va, vb)
            return r if o is ast.Is else self.not_(r)
        f = self.own(b, '__contains__')
        r = self.contains(b, a) if f is None else self.call_func(f, [b, a], {}, None)
        return r if o is ast.In else self.not_(r)

    def e_IfExp(self, e):
        cond = self.truth(self.ev(e.test))
        m = self.bits(cond)
        act = self.active
        mt, mf = act & m, act & ~m
        if not mf.any():
            return self.ev(e.body)
        if not mt.any():
            return self.ev(e.orelse)
        self.active = mt
        a = self.ev(e.body)
        at = self.active
        self.active = mf
        b = self.ev(e.orelse)
        self.active = at | self.active
        return self.ite(m, a, b, cond)

    def e_Lambda(self, e):
        return self.func_value(self.mkfunc(e))

    def e_Starred(self, e):
        return self.ev(e.value)

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        self.do_yield(e)
        return self.NONE

    def e_Slice(self, e):
        a = self.ev(e.lower) if e.lower else self.NONE
        b = self.ev(e.upper) if e.upper else self.NONE
        c = self.ev(e.step) if e.step else self.NONE
        return self.slice_(a, b, c)

    def slice_(self, a, b, c):
        a, b, c = self.val(a), self.val(b), self.val(c)
        if c.c is not None and c.c[0] == 1:
            c = self.NONE
        return V(hash_fp('slice', [self.F(a), self.F(b), self.F(c)]), 'slice', node=('slice', a, b, c))

    def ev_index(self, s):
        if isinstance(s, ast.Index):
            s = s.value
        return self.ev(s)

    def e_Subscript(self, e):
        if isinstance(e.value, ast.Attribute) and e.value.attr in ('loc', 'iloc', 'at', 'iat'):
            o = self.ev(e.value.value)
            if not (o.ty == 'mod' or o.ty == 'ext' or self.own(o, e.value.attr)):
                return self.loc_get(o, e.value.attr, self.ev_index(e.slice))
        o = self.ev(e.value)
        k = self.ev_index(e.slice)
        return self.subscript(o, k, e)

    def subscript(self, o, k, e=None):
        if o.ty == 'ext' and o.pay == 'os.environ':
            self.raise_lanes(~self.bits(self.contains(o, self.val(k))), 'KeyError')
        if o.ty in ('ext', 'cls', 'fn'):
            return self.op('index', [o, k])
        if o.ty == 'ite' and self.holds_object(o):
            return self.dist(o, lambda x: self.subscript(x, k, e))
        f = self.own(o, '__getitem__')
        if f is not None:
            return self.call_func(f, [o, k], {}, e)
        return self.index(o, k)

    def loc_get(self, o, which, k):
        o, k = self.val(o), self.val(k)
        if o.ty == 'ite':
            return self.dist(o, lambda x: self.loc_get(x, which, k))
        kl = self.listc(k)
        if kl is not None and kl.kind == 'tuple' and len(kl.cells) == 2:
            row, col = self.val(kl.cells[0]), self.val(kl.cells[1])
            strcol = (col.c is not None and isinstance(col.c[0], str)) or col.ty == 'str'
            full_row = self.is_slice(row) and all(x.c is not None and x.c[0] is None for x in row.node[1:4])
            if which in ('loc', 'at'):
                if full_row:
                    return self.index(o, col)
                if strcol or (self.is_mask(row) and col.ty == 'unk'):
                    c = self.index(o, col)
                    return self.index(self.plain(self.val(c)) if self.val(c).ty == 'ref' and self.mapc(self.val(c)) else c, row)
            else:
                if full_row:
                    return self.op('icol', [self.plain(o), col])
                return self.op('iloc2', [self.plain(o), row, col])
        if which in ('loc', 'iloc', 'at', 'iat'):
            if self.is_mask(k):
                return self.index(o, k)
            if which == 'iloc' and (k.ival is not None or k.ty == 'num'):
                return self.row(o, k)
            if which == 'iloc' and self.is_slice(k):
                lc = self.listc(o)
                if lc is not None:
                    return self.index(o, k)
                fc = self.lib.fr.get(o)
                r = self.lib.fr.rows(fc, k) if fc is not None else None
                return r if r is not None else self.index(self.plain(o), k)
        if which == 'loc' and (k.ival is not None):
            return self.row(o, k)
        return self.op('locget:' + which, [self.plain(o), k])

    def row(self, df, i):
        """Row i of a frame; row['c'] is frame['c'][i]."""
        if i.ival is not None and (i.ival < 0).any():
            ln = self.length(df)
            i = self.intv(np.where(i.ival < 0, ln.ival + i.ival, i.ival))
        fc = self.lib.fr.get(df)
        if fc is not None:
            r = self.lib.fr.row(fc, i)
            if r is not None:
                return r
        return self.index(self.plain(df), i)

    def index_opaque(self, v, k):
        v, k = self.val(v), self.val(k)
        n = v.node
        if n is not None and n[0] == 'index' and k.c is not None and isinstance(k.c[0], str):
            b, i = self.val(n[1]), self.val(n[2])
            if i.ival is not None and b.ty != 'ref':
                # row i, column k: canonical order is column first
                return self.op('index', [self.index_opaque(b, k), i])
        if n is not None and n[0] == 'attr:index' and k.ival is not None and (k.ival >= 0).all():
            return k
        if n is not None and n[0] == 'obj' and k.c is not None and isinstance(k.c[0], (str, int)):
            r = n[1]
            if self.listc(r) is None and r.ty == 'ref':
                return self.index(r, k)
        return super().index_opaque(v, k)

    def e_Attribute(self, e):
        o = self.ev(e.value)
        return self.attr(o, e.attr, e)

    def ext_base(self, c):
        for b in c.bases if isinstance(c, Cls) else ():
            b = b if isinstance(b, str) else self.ext_base(b)
            if b:
                return b
        return None

    def attr(self, o, name, node=None):
        if o.ty in ('mod', 'ext'):
            return self.mod_attr(o, name, node)
        if o.ty == 'cls':
            x = o.pay.lookup(name) if isinstance(o.pay, Cls) else None
            if isinstance(x, Func):
                return self.func_value(x)
            if isinstance(x, V):
                return x
            ext = self.ext_base(o.pay)
            return self.mod_attr(self.ext(ext), name, node) if ext else self.op('clsattr', [o, self.const(name)])
        if o.ty == 'ite':
            return self.dist(o, lambda x: self.attr(x, name, node))
        mc = self.mapc(o)
        if mc is not None and mc.cls is not None:
            key = self.const(name)
            hit = any(k.c is not None and k.c[0] == name for _, k, _ in mc.ents)
            x = mc.cls.lookup(name)
            if not hit:
                if isinstance(x, Func):
                    if x.is_prop:
                        return self.call_func(x, [o], {}, node)
                    if x.is_static:
                        return self.func_value(x)
                    return V(None, 'fn', pay=('bound', o, x), node=('sym', x.name))
                if isinstance(x, V):
                    return x
            return self.map_get(o, key)
        if o.ty == 'fn':
            if name == '__name__':
                p = o.pay
                return self.const(p.name) if isinstance(p, Func) else self.op('fnname', [o])
            return self.op('fnattr', [o, self.const(name)])
        if name in ('lower', 'upper', 'append', 'split') and False:
            pass
        return self.lib.get_attr(o, name, node)

    # comprehensions
    def e_ListComp(self, e):
        return self.comp(e.generators, lambda: self.ev(e.elt), 'list')

    def e_SetComp(self, e):
        r = self.comp(e.generators, lambda: self.ev(e.elt), 'list')
        return self.lib.make_set(r)

    def e_GeneratorExp(self, e):
        return self.comp(e.generators, lambda: self.ev(e.elt), 'list')

    def e_DictComp(self, e):
        r = self.new_map()

        def leaf():
            self.map_set(r, self.ev(e.key), self.ev(e.value))
        self.comp_walk(e.generators, 0, leaf)
        return r

    def comp(self, gens, fn, kind):
        r = self.new_list([], n=np.zeros(L, dtype=I64), kind=kind)

        def leaf():
            self.list_push(r, fn())
        self.comp_walk(gens, 0, leaf)
        return r

    def comp_walk(self, gens, i, leaf):
        fr = self.fr
        saved = dict(fr.env) if i == 0 else None
        if i == len(gens):
            leaf()
            return
        g = gens[i]
        cells, n = self.materialize(self.ev(g.iter))
        act = self.active
        dead = NONE_
        for j, c in enumerate(cells):
            live = act & ~dead & (n > j)
            if not live.any():
                break
            self.tick()
            self.active = live
            self.assign(g.target, c)
            m = live
            for t in g.ifs:
                b = self.bits(self.truth(self.ev(t)))
                self.active = self.active & b
                if not self.active.any():
                    break
            if self.active.any():
                before = self.active
                self.comp_walk(gens, i + 1, leaf)
                dead = dead | (before & ~self.active)
        self.active = act & ~dead
        if i == 0:
            names = set()
            for g2 in gens:
                for x in ast.walk(g2.target):
                    if isinstance(x, ast.Name):
                        names.add(x.id)
            for k in names:
                if k in saved:
                    fr.env[k] = saved[k]
                else:
                    fr.env.pop(k, None)

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        f = e.func
        # super().__init__ and friends
        if isinstance(f, ast.Attribute):
            if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super':
                return self.super_call(f.attr, e)
            if self.lib.is_mutator(f.attr) and isinstance(f.value, (ast.Name, ast.Attribute, ast.Subscript)):
                o = self.ev(f.value)
                if o.ty not in ('mod', 'ext', 'cls', 'fn'):
                    if o.ty != 'ref' and (f.attr in self.lib.ALWAYS_MUT or any(k.arg == 'inplace' for k in e.keywords)) and not (
                            o.ty in ('str', 'num')):
                        o = self.ev_ref(f.value)
            else:
                o = self.ev(f.value)
            if o.ty in ('mod', 'ext', 'cls'):
                fv = self.attr(o, f.attr, f)
            elif o.ty == 'fn':
                fv = self.attr(o, f.attr, f)
            else:
                mc = self.mapc(o)
                if mc is not None and mc.cls is not None:
                    fv = self.attr(o, f.attr, f)
                    if fv.ty != 'fn':
                        args, kw = self.ev_args(e)
                        if self.mapc(fv) is not None or fv.ty == 'unk':
                            return self.lib.opaque_method(o, f.attr, args, kw, e)
                        return self.call(fv, args, kw, e)
                else:
                    args, kw = self.ev_args(e)
                    return self.method(o, f.attr, args, kw, e)
        else:
            fv = self.ev(f)
        args, kw = self.ev_args(e)
        return self.call(fv, args, kw, e)

    def method(self, o, name, args, kw, e):
        o2 = self.val(o)
        if o2.ty == 'ite':
            m, a, b = o2.node[1], o2.node[2], o2.node[3]
            return self.dist(o2, lambda x: self.method(x, name, args, kw, e))
        mc = self.mapc(o2)
        if mc is not None and mc.cls is not None:
            return self.call(self.attr(o2, name, e), args, kw, e)
        return self.lib.method(o, name, args, kw, e)

    def ev_args(self, e):
        args = []
        kw = {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                cells, n = self.materialize(self.ev(a.value))
                if (n == len(cells)).all():
                    args.extend(cells)
                else:
                    args.append(self.op('star', [self.ev(a.value)]))
            else:
                args.append(self.ev(a))
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                mc = self.mapc(v)
                if mc is not None and mc.base is None and all(kk.c is not None for _, kk, _ in mc.ents):
                    for _, kk, vv in mc.ents:
                        kw[kk.c[0]] = vv
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return args, kw

    def super_call(self, name, e):
        fr = self.fr
        f = fr.func
        args, kw = self.ev_args(e)
        selfv = fr.env.get(f.node.args.args[0].arg) if f and f.node.args.args else None
        if f is not None and f.cls is not None:
            for b in f.cls.bases:
                if isinstance(b, Cls):
                    x = b.lookup(name)
                    if isinstance(x, Func):
                        return self.call_func(x, [selfv] + args, kw, e)
        return self.NONE

    def call(self, fv, args, kw, node):
        self.tick()
        if fv.ty == 'fn':
            p = fv.pay
            if isinstance(p, Func):
                return self.call_func(p, args, kw, node)
            if p[0] == 'bound':
                return self.call_func(p[2], [p[1]] + list(args), kw, node)
            if p[0] == 'partial':
                k2 = dict(p[3])
                k2.update(kw)
                return self.call(p[1], list(p[2]) + list(args), k2, node)
            if p[0] == 'method':
                return self.method(p[1], p[2], args, kw, node)
        if fv.ty == 'cls':
            return self.instantiate(fv.pay, args, kw, node)
        f = self.own(fv, '__call__')
        if f is not None:
            return self.call_func(f, [fv] + list(args), kw, node)
        if fv.ty == 'ext':
            return self.lib.call_ext(fv.pay, args, kw, node)
        if fv.ty == 'ite':
            return self.dist(fv, lambda x: self.call(x, args, kw, node))
        return self.lib.call_opaque(fv, args, kw, node)

    def instantiate(self, cls, args, kw, node):
        if not isinstance(cls, Cls):
            return self.lib.call_ext(str(cls), args, kw, node)
        r = self.new_map(cls=cls)
        init = cls.lookup('__init__')
        if isinstance(init, Func):
            self.call_func(init, [r] + list(args), kw, node)
        return r

    def call_func(self, f, args, kw, node):
        key = f.name
        if self.callstack and key in self.hooks:
            r = self.hooks[key](self, f, args, kw, node)
            if r is not NotImplemented:
                return r
        if self.callstack and self.opaque_tag(f) is not None:
            return self.opaque_repo_call(f, args, kw, node)
        return self.inline(f, args, kw, node)

    def opaque_tag(self, f):
        """The name under which calls of f are kept as calls, if they are."""
        if not self.opaque:
            return None
        for k in (f.qual(), f.name):
            if k in self.opaque:
                return self.opaque[k] or f.name
        return None

    def inline(self, f, args, kw, node):
        if len(self.callstack) > MAXDEPTH or self.callstack.count(f) > 3:
            if self.callstack.count(f) > 3:
                self.assume = self.assume & ~self.active
            return self.opaque_repo_call(f, args, kw, node)
        fr = Frame(f.module, f, f.frame)
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        env = fr.env
        rest = list(args)
        for i, x in enumerate(rest):
            if x.node is not None and x.node[0] == 'star' and not a.vararg:
                # a sequence of unknown length that has to fill the parameters
                m = len([nm for nm in pos if nm not in kw]) - len(rest) + 1
                if m > 0:
                    rest[i:i + 1] = [self.index(x.node[1], self.const(j)) for j in range(m)]
                break
        for i, nm in enumerate(pos):
            if rest:
                env[nm] = rest.pop(0)
            elif nm in kw:
                env[nm] = kw[nm]
            else:
                di = i - (len(pos) - len(f.defaults or []))
                if f.defaults and di >= 0:
                    env[nm] = f.defaults[di]
                elif '**' in kw:
                    env[nm] = self.index(kw['**'], self.const(nm))
                else:
                    env[nm] = self.op('missingarg', [self.const(nm)])
                    self.unsup('missing argument %s of %s' % (nm, f.name), node)
        if a.vararg:
            env[a.vararg.arg] = self.new_list(rest, kind='tuple')
        elif rest:
            self.unsup('extra arguments to %s' % f.name, node)
        for x, d in zip(a.kwonlyargs, f.kwdefaults or []):
            env[x.arg] = kw[x.arg] if x.arg in kw else (d if d is not None else self.op('missingarg', [self.const(x.arg)]))
        if a.kwarg:
            r = self.new_map()
            for k, v in kw.items():
                if k not in env:
                    self.map_set(r, self.const(k), v)
            env[a.kwarg.arg] = r
        entry = self.active
        fr.entry = entry
        fr.cls = f.cls
        self.frames.append(fr)
        self.callstack.append(f)
        self.inlined.add(f)
        cd = self.condstack
        self.condstack = []
        try:
            if isinstance(f.node, ast.Lambda):
                r = self.ev(f.node.body)
                return r
            self.block(f.node.body)
            live = self.active
            if fr.yields is not None:
                self.active = live | fr.done
                return fr.yields
            if fr.ret is None:
                r = self.NONE
            else:
                r = fr.ret[0]
                if live.any():
                    r = self.ite(fr.done, r, self.NONE)
            self.active = (live | fr.done) & entry
            return r
        finally:
            self.frames.pop()
            self.callstack.pop()
            self.condstack = cd

    def opaque_repo_call(self, f, args, kw, node):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        for nm, v in zip(pos, args):
            vals[nm] = v
        extra = list(args)[len(pos):]
        vals.update(kw)
        ordered = []
        nd = len(f.defaults or [])
        for i, nm in enumerate(pos):
            if nm in vals:
                ordered.append(vals.pop(nm))
            else:
                di = i - (len(pos) - nd)
                if f.defaults and di >= 0:
                    ordered.append(f.defaults[di])
        rest = [vals[k] for k in sorted(vals)]
        me = None
        if pos and pos[0] == 'self':
            me = ordered[0] if ordered else None
            ordered = ordered[1:]
        ordered = [self.val(x) for x in ordered + extra + rest]
        name = self.opaque_tag(f) or f.name
        if f.name in self.noted:
            self.effect('call:' + f.name, ([me] if me is not None else []) + ordered, {}, node)
            if me is not None:
                before = self.op('state', [self.val(me)])
                for attr in self.noted[f.name]:
                    self.map_set(me, self.const(attr), self.op('left by %s:%s' % (f.name, attr), [before] + ordered))
        tag = 'f:' + name
        if f.name in self.strict_none:
            fp = hash_fp(tag, [self.A(x) for x in ordered])
            self.reg.consts.setdefault(self.ident(fp), set()).add(NONE_FP)
        r = self.op(tag, ordered)
        if name in self.returns:
            cls = self.returns[name](self)
            r = self.new_map(base=r, cls=cls)
            self.store[r.pay].born = ALL
        return r


class Spec:
    pass
