"""Abstract interpreter: Python syntax trees -> gated value graphs.

One forward pass over each function body in each calling context.  Branches
whose test is not decided are analysed on both sides and merged at the
confluence (values gated by the test, heaps merged record by record); loops
whose trip count is fixed by the analysis context are unrolled, other loops up
to a bound with the remainder recorded as not analysed.  No code of the
analysed repository is executed.
"""
import array
import ast
import builtins
import collections
import datetime
import io
import ipaddress
import itertools
import os
import struct
import sys

from .vals import *
from .ops import *
from . import ops


class Dead(Exception):
    """no continuation at this program point"""


class Unsupported(Exception):
    pass


class Rec(object):
    __slots__ = ('cls', 'attrs', 'items')

    def __init__(self, cls, attrs=None, items=None):
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items


class State(object):
    __slots__ = ('base', 'heap', 'guard')

    def __init__(self, base, heap, guard):
        self.base = base
        self.heap = heap
        self.guard = guard

    def fork(self, cond=TRUE):
        return State(self.base, dict(self.heap), and_(self.guard, cond))

    def adopt(self, o):
        self.heap = o.heap
        self.guard = o.guard

    def get(self, oid):
        r = self.heap.get(oid)
        return r if r is not None else self.base[oid]


class ModV(O):
    __slots__ = ('name', 'oid', 'path', 'pkg', 'native')


class Missing(O):
    """something the analysis has no model of; using it is unsupported, having it is not"""
    __slots__ = ('why', 'oid')


class FuncV(O):
    __slots__ = ('name', 'qual', 'node', 'module', 'lex', 'defaults', 'kwdefaults', 'isgen', 'clsname', 'owner',
                 'locals', 'globals', 'nonlocals', 'captures', 'islambda', 'oid')


class Bound(O):
    __slots__ = ('self', 'func')


class ClassV(O):
    __slots__ = ('name', 'qual', 'bases', 'mro', 'oid', 'native', 'is_enum', 'is_int', 'members', 'fields', 'module',
                 'byname', 'node')


class Native(O):
    __slots__ = ('name', 'fn', 'pure')


class SuperV(O):
    __slots__ = ('cls', 'self')


class PropV(O):
    __slots__ = ('fget', 'fset', 'fdel')


class StaticV(O):
    __slots__ = ('func', 'kind')


def mk(_kind, **kw):
    o = _kind()
    o.id = next(_ids_)
    for k in _kind.__slots__:
        setattr(o, k, kw.get(k))
    return o


from .vals import _ids as _ids_

_bound_cache = {}


def bound(self_, func):
    k = (self_, func)
    b = _bound_cache.get(k)
    if b is None:
        b = mk(Bound, self=self_, func=func)
        _bound_cache[k] = b
    return b


class Frame(object):
    __slots__ = ('oid', 'parent', 'module', 'fn', 'locals', 'globals', 'nonlocals', 'returns', 'brk', 'cont', 'exc',
                 'clsname', 'owner', 'yields', 'isclass', 'selfv')

    def __init__(self, oid, parent, module, fn=None):
        self.oid = oid
        self.parent = parent
        self.module = module
        self.fn = fn
        self.locals = None
        self.globals = ()
        self.nonlocals = ()
        self.returns = []
        self.brk = None
        self.cont = None
        self.exc = []
        self.clsname = None
        self.owner = None
        self.yields = None
        self.isclass = False
        self.selfv = None


def assigned_names(node):
    """names bound in a function body (excluding nested scopes)"""
    names, glob, nonl = set(), set(), set()
    gen = [False]
    caps = [False]

    def targets(t):
        for n in ast.walk(t):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

    def walk(n, top=False):
        if isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and not top:
            names.add(n.name)
            caps[0] = True
            for d in n.decorator_list + n.args.defaults + [k for k in n.args.kw_defaults if k]:
                walk(d)
            return
        if isinstance(n, ast.ClassDef) and not top:
            names.add(n.name)
            caps[0] = True
            for d in n.decorator_list + n.bases:
                walk(d)
            return
        if isinstance(n, ast.Lambda):
            caps[0] = True
            for d in n.args.defaults:
                walk(d)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            caps[0] = caps[0] or any(isinstance(x, (ast.Lambda,)) for x in ast.walk(n))
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    names.add(x.target.id)
            return
        if isinstance(n, ast.Global):
            glob.update(n.names)
        if isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen[0] = True
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            names.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            names.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                names.add((a.asname or a.name).split('.')[0])
        if isinstance(n, ast.MatchAs) and n.name:
            names.add(n.name)
        if isinstance(n, ast.MatchStar) and n.name:
            names.add(n.name)
        for c in ast.iter_child_nodes(n):
            walk(c)
    body = node.body if isinstance(node.body, list) else [node.body]
    for s in body:
        walk(s)
    return names - glob - nonl, glob, nonl, gen[0], caps[0]


BINOPS = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.FloorDiv: '//', ast.Div: '/', ast.Mod: '%', ast.Pow: '**',
          ast.LShift: '<<', ast.RShift: '>>', ast.BitAnd: '&', ast.BitOr: '|', ast.BitXor: '^'}
DUNDER = {'+': 'add', '-': 'sub', '*': 'mul', '//': 'floordiv', '/': 'truediv', '%': 'mod', '**': 'pow',
          '<<': 'lshift', '>>': 'rshift', '&': 'and', '|': 'or', '^': 'xor'}
CMPDUNDER = {'==': '__eq__', '!=': '__ne__', '<': '__lt__', '<=': '__le__', '>': '__gt__', '>=': '__ge__'}

_undef = {}


def has_undef(v):
    if type(v) is not N:
        return v is UNDEF
    r = _undef.get(v)
    if r is None:
        r = any(has_undef(chs[0]) for _, chs in split_on(v.var, (v,)))
        _undef[v] = r
    return r


class Interp(object):
    def __init__(self, roots, K=3):
        self.last_eq = self.eqpair = None
        self.gaps = {}
        self.bigs = 0
        self.loading = 0
        self.roots = roots          # list of (package name, directory)
        self.K = K
        self.modules = {}
        self.oid = 0
        self.base = {}
        self.sinks = [[]]
        self.depth = 0
        self.steps = 0
        self.maxsteps = 3000000
        self.dropped = FALSE
        self.notes = []
        self.store_log = {}
        self.raise_log = {}
        self.funcs_seen = {}
        self.calls_seen = 0
        self.branches = 0
        self.cur = None             # (file, line, func)
        self.role_hook = None
        self.src_files = {}
        self.opaque_notes = []
        self.gens = {}
        self.gen_own = set()        # records and frames only a generator sees
        self.locstack = []
        from . import natives
        self.natives = natives
        st = State(self.base, self.base, TRUE)
        self.init_state = st
        natives.setup(self, st)

    # -------------------------------------------------------------- heap
    def new(self, st, cls, attrs=None, items=None):
        self.oid += 1
        st.heap[self.oid] = Rec(cls, attrs, items)
        return ref(self.oid)

    def rec(self, st, r):
        return st.get(r.oid)

    def set_items(self, st, r, items):
        o = st.get(r.oid)
        if r.oid in self.base and st.heap is not self.base:
            self.log_store(('shared', r.oid))
        st.heap[r.oid] = Rec(o.cls, o.attrs, items)
        own = o.attrs.get('$owner')
        if own is not None:
            self.write_through(st, own, items)

    def write_through(self, st, own, items):
        """an object whose __dict__ was changed"""
        o = st.get(own.oid)
        a = {k: v for k, v in o.attrs.items() if k.startswith('$')}
        for g, k, v in items:
            if type(k) is not C or type(k.v) is not str or k.v in a:
                raise Unsupported('attributes set through __dict__')
            a[k.v] = ite(g, v, UNDEF) if g is not TRUE else v
        if own.oid in self.base and st.heap is not self.base:
            self.log_store(('shared', own.oid))
        st.heap[own.oid] = Rec(o.cls, a, o.items)

    def set_attr_raw(self, st, oid, name, v):
        o = st.get(oid)
        a = dict(o.attrs)
        a[name] = v
        if oid in self.base and st.heap is not self.base:
            self.log_store(('shared', oid))
        st.heap[oid] = Rec(o.cls, a, o.items)

    def log_store(self, key):
        if self.cur:
            self.store_log.setdefault(key, {})[self.cur] = 1

    # -------------------------------------------------------------- guards
    def under(self, st, c):
        if c is TRUE or c is FALSE:
            return c
        if type(c) is N and has_op(c, 'undef'):     # excluded on this path
            c = map_leaves(constrain(c, st.guard), lambda l: FALSE if l is UNDEF else l)
        if and_(st.guard, c) is FALSE:
            return FALSE
        if and_(st.guard, not_(c)) is FALSE:
            return TRUE
        return c

    # -------------------------------------------------------------- merge
    def merge2(self, a, va, b, vb, c=None):
        g = or_(a.guard, b.guard)
        if c is None:
            c = constrain(a.guard, g)
            if c is TRUE or c is FALSE:
                c = a.guard
        heap = {}
        ah, bh = a.heap, b.heap
        if len(ah) < len(bh):
            for k, rb in bh.items():
                if k not in ah:
                    heap[k] = rb if k not in a.base else self.merge_rec(c, a.base[k], rb)
            for k, ra in ah.items():
                rb = bh.get(k)
                if rb is ra:
                    heap[k] = ra
                elif rb is None:
                    heap[k] = ra if k not in a.base else self.merge_rec(c, ra, a.base[k])
                else:
                    heap[k] = self.merge_rec(c, ra, rb)
        else:
            for k, ra in ah.items():
                rb = bh.get(k)
                if rb is ra:
                    heap[k] = ra
                elif rb is None:
                    heap[k] = ra if k not in a.base else self.merge_rec(c, ra, a.base[k])
                else:
                    heap[k] = self.merge_rec(c, ra, rb)
            for k, rb in bh.items():
                if k not in ah:
                    heap[k] = rb if k not in a.base else self.merge_rec(c, a.base[k], rb)
        st = State(a.base, heap, g)
        return st, self.merge_val(c, va, vb)

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is None or b is None:
            return a if b is None else b
        if self.eqpair is not None:
            x, y, same = self.eqpair
            if a is x and b is y or a is y and b is x:
                return b if same else a
        if type(a) is X and type(b) is X and (a.op == 'bits' or b.op == 'bits') and a.ty == b.ty == 'int' or \
                (type(a) is X and a.op == 'bits' and type(b) is C) or (type(b) is X and b.op == 'bits' and type(a) is C):
            x, y = as_bits(a), as_bits(b)
            if x is not None and y is not None and pconst(b) is None and pconst(a) is None:
                w = max(len(x), len(y))
                x += [FALSE] * (w - len(x))
                y += [FALSE] * (w - len(y))
                if all(p is q or p in (TRUE, FALSE) or q in (TRUE, FALSE) for p, q in zip(x, y)):
                    return from_bits([ite(c, p, q) for p, q in zip(x, y)])
        return ite(c, a, b)

    def merge_rec(self, c, a, b):
        if a is b:
            return a
        if a.attrs is b.attrs:
            attrs = a.attrs
        else:
            attrs = {}
            for k, va in a.attrs.items():
                vb = b.attrs.get(k)
                attrs[k] = va if vb is va else self.merge_val(c, va, UNDEF if vb is None else vb)
            for k, vb in b.attrs.items():
                if k not in a.attrs:
                    attrs[k] = self.merge_val(c, UNDEF, vb)
        if a.items is b.items:
            items = a.items
        elif a.items is None or b.items is None:
            items = a.items if b.items is None else b.items
        else:
            items = self.merge_items(c, a.items, b.items)
        return Rec(a.cls, attrs, items)

    def merge_items(self, c, a, b):
        if a == b:
            return a
        isdict = (a and len(a[0]) == 3) or (b and len(b[0]) == 3)
        n = 0
        while n < len(a) and n < len(b) and a[n] == b[n]:
            n += 1
        pre = list(a[:n])
        x, y = a[n:], b[n:]
        nc = not_(c)
        if not isdict:
            m = max(len(x), len(y))
            for i in range(m):
                if i < len(x) and i < len(y):
                    g = ite(c, x[i][0], y[i][0])
                    pre.append((g, self.merge_val(c, x[i][1], y[i][1])))
                elif i < len(x):
                    pre.append((and_(c, x[i][0]), x[i][1]))
                else:
                    pre.append((and_(nc, y[i][0]), y[i][1]))
            return tuple(i for i in pre if i[0] is not FALSE)
        kx = [e[1] for e in x]
        ky = [e[1] for e in y]
        # longest common subsequence of keys keeps one entry per key
        L = [[0] * (len(ky) + 1) for _ in range(len(kx) + 1)]
        for i in range(len(kx) - 1, -1, -1):
            for j in range(len(ky) - 1, -1, -1):
                L[i][j] = L[i + 1][j + 1] + 1 if kx[i] is ky[j] else max(L[i + 1][j], L[i][j + 1])
        i = j = 0
        while i < len(kx) or j < len(ky):
            if i < len(kx) and j < len(ky) and kx[i] is ky[j]:
                pre.append((ite(c, x[i][0], y[j][0]), kx[i], self.merge_val(c, x[i][2], y[j][2])))
                i += 1
                j += 1
            elif j >= len(ky) or (i < len(kx) and L[i + 1][j] >= L[i][j + 1]):
                pre.append((and_(c, x[i][0]), x[i][1], x[i][2]))
                i += 1
            else:
                pre.append((and_(nc, y[j][0]), y[j][1], y[j][2]))
                j += 1
        return tuple(e for e in pre if e[0] is not FALSE)

    def merge_all(self, outs):
        """outs: list of (state, value); returns (state, value)"""
        outs = [o for o in outs if o[0].guard is not FALSE]
        if not outs:
            raise Dead()
        st, v = outs[0]
        for s2, v2 in outs[1:]:
            st, v = self.merge2(st, v, s2, v2)
        return st, v

    # -------------------------------------------------------------- raising
    def exc_class(self, name):
        if isinstance(name, ClassV):
            return name
        return self.natives.exc_class(self, name)

    def raise_exc(self, st, exc):
        self.sinks[-1].append((st.fork(), exc))
        if self.cur:
            self.raise_log.setdefault(self.cls_of(st, exc).name if type(exc) is R else '?', {})[self.cur] = 1
        raise Dead()

    def raise_now(self, st, name, *args):
        cls = self.exc_class(name)
        e = self.new(st, cls, {'args': tup(args)})
        self.raise_exc(st, e)

    def check(self, st, ok, name, *args):
        """continue only where ok; elsewhere raise"""
        ok = self.under(st, ok)
        if ok is TRUE:
            return
        if ok is FALSE:
            self.raise_now(st, name, *args)
        s2 = st.fork(not_(ok))
        try:
            self.raise_now(s2, name, *args)
        except Dead:
            pass
        st.guard = and_(st.guard, ok)

    def resolve(self, st, v):
        """turn raise leaves into exceptional outcomes"""
        if type(v) is X:
            if v.op == 'raise':
                self.raise_now(st, v.args[0], *v.args[1:])
            return v
        if type(v) is not N:
            return v
        if not has_op(v, 'raise'):
            return v
        for lf, c in leaves(v, st.guard):
            if type(lf) is X and lf.op == 'raise':
                self.check(st, not_(c), lf.args[0], *lf.args[1:])
        return strip_op(v, 'raise')

    def pure(self, st, fn, args):
        return self.resolve(st, apply(fn, tuple(args)))

    # -------------------------------------------------------------- forking on leaves
    def with_leaves(self, st, v, fn):
        """run fn(state, leaf) for every possible leaf of v and merge"""
        if type(v) is not N:
            return fn(st, v)
        ls = leaves(v, st.guard)
        if len(ls) == 1:
            return fn(st, ls[0][0])
        if len(ls) > 512:
            raise Unsupported('too many alternatives (%d)' % len(ls))
        if not ls:
            raise Dead()
        outs = []
        gap = []
        depth = len(self.sinks)
        for lf, c in ls:
            s = st.fork(c)
            if s.guard is FALSE:
                continue
            g = s.guard
            try:
                r = fn(s, lf)
                outs.append((s, r, c))
            except Dead:
                pass
            except (Unsupported, TooBig) as e:
                if self.final_gap(e):
                    raise
                del self.sinks[depth:]
                gap.append((g, e))
        if not outs:
            if gap:
                raise gap[0][1]
            raise Dead()
        for g, e in gap:
            self.leave_gap(g, e)
        s, r, c = outs[0]
        acc = c
        for s2, r2, c2 in outs[1:]:
            s, r = self.merge2(s, r, s2, r2, c=not_(c2) if len(outs) > 1 else None)
        st.adopt(s)
        return r

    # -------------------------------------------------------------- modules
    def load_module(self, name):
        if name in self.modules:
            return self.modules[name]
        n = self.natives.native_module(self, name)
        if n is not None:
            self.modules[name] = n
            return n
        path = None
        pkg = False
        for top, d in self.roots:
            if name == top or name.startswith(top + '.'):
                rel = name.split('.')[1:]
                p = os.path.join(d, *rel)
                if os.path.isdir(p) and os.path.exists(os.path.join(p, '__init__.py')):
                    path, pkg = os.path.join(p, '__init__.py'), True
                elif os.path.exists(p + '.py'):
                    path = p + '.py'
        if path is None:
            stub = os.path.join(os.path.dirname(__file__), 'stubs', name.replace('.', '_') + '.py')
            if os.path.exists(stub):
                path = stub
        if path is None:
            raise Unsupported('module %s is not available to the analysis' % name)
        if '.' in name:
            self.load_module(name.rsplit('.', 1)[0])
            if name in self.modules:
                return self.modules[name]
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.src_files[path] = src
        m = mk(ModV, name=name, path=path, pkg=pkg)
        st = self.init_state
        m.oid = self.new(st, None, {'__name__': const(name), '__file__': const(path)}).oid
        self.modules[name] = m
        fr = Frame(m.oid, None, m)
        saved = self.cur, self.sinks
        self.sinks = [[]]
        self.loading += 1
        try:
            self.exec_module(st, tree.body, fr)
        except Dead:
            raise Unsupported('module %s raises at import: %s' % (name, self.describe_sinks()))
        finally:
            self.loading -= 1
            self.cur, self.sinks = saved
        if st.heap is not self.base:
            self.base.update(st.heap)
            st.heap = self.base
        if '.' in name:
            par, leaf = name.rsplit('.', 1)
            self.set_attr_raw(st, self.modules[par].oid, leaf, m)
        return m

    def known(self, name):
        return any(name == top or name.startswith(top + '.') for top, _ in self.roots)

    def exec_module(self, st, body, fr):
        """as exec_block; what cannot be followed leaves its names without a value the analysis knows"""
        for s in body:
            try:
                self.exec(st, s, fr)
            except Unsupported as e:
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                    names = [s.name]
                elif isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
                    names = [t.id for t in s.targets]
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    names = [s.target.id]
                else:
                    raise
                for n in names:
                    self.store_name(st, fr, n, mk(Missing, why=str(e)))

    def describe_sinks(self):
        out = []
        for s, e in self.sinks[-1]:
            if type(e) is R:
                r = s.get(e.oid)
                out.append('%s%r' % (r.cls.name, r.attrs.get('args')))
        return '; '.join(out[:3])

    def mod_attr(self, st, m, name, raw=False):
        if m.native is not None:
            v = m.native.get(name)
            if v is not None:
                return v
        elif m.oid is not None:
            v = st.get(m.oid).attrs.get(name)
            if type(v) is Missing and not raw:
                raise Unsupported(v.why)
            if v is not None:
                return v
        if m.native is None and m.pkg:
            try:
                return self.load_module(m.name + '.' + name)
            except Unsupported:
                return None
        full = m.name + '.' + name
        if full in self.modules:
            return self.modules[full]
        return None

    # -------------------------------------------------------------- names
    def load_name(self, st, fr, name):
        if fr.clsname and name.startswith('__') and not name.endswith('__'):
            name = '_' + fr.clsname.lstrip('_') + name
        f = fr
        first = True
        while f is not None:
            if f.isclass and not first:
                f = f.parent
                continue
            if f.locals is None or (name in f.locals):
                if f.globals and name in f.globals:
                    break
                v = st.get(f.oid).attrs.get(name)
                if v is not None:
                    if type(v) is Missing:
                        raise Unsupported(v.why)
                    if has_undef(v):
                        return self.strip_undef(st, v, name)
                    return v
                if f.locals is not None and not f.isclass:
                    self.raise_now(st, 'UnboundLocalError', const(name))
            if f.parent is None and f.locals is None:
                break
            first = False
            f = f.parent
        v = self.mod_attr(st, fr.module, name)
        if v is not None:
            if has_undef(v):
                return self.strip_undef(st, v, name)
            return v
        v = self.natives.builtin(self, name)
        if v is not None:
            return v
        if name in ('__name__', '__file__'):
            return const('')
        if hasattr(builtins, name):
            raise Unsupported('%s is not modelled' % name)
        self.raise_now(st, 'NameError', const(name))

    def strip_undef(self, st, v, name, exc='UnboundLocalError'):
        if v is UNDEF:
            self.raise_now(st, exc, const(name))
        for lf, c in leaves(v, st.guard):
            if lf is UNDEF:
                self.check(st, not_(c), exc, const(name))
                v = constrain(v, not_(c))
        return v

    def store_name(self, st, fr, name, v):
        if fr.clsname and name.startswith('__') and not name.endswith('__'):
            name = '_' + fr.clsname.lstrip('_') + name
        if name in fr.globals:
            self.set_attr_raw(st, fr.module.oid, name, v)
            self.log_store(('global', fr.module.name, name))
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                if f.locals is not None and name in f.locals and not f.isclass:
                    self.set_attr_raw(st, f.oid, name, v)
                    return
                f = f.parent
            raise Unsupported('nonlocal ' + name)
        self.set_attr_raw(st, fr.oid, name, v)

    # -------------------------------------------------------------- statements
    def exec_block(self, st, body, fr):
        for s in body:
            self.exec(st, s, fr)

    def exec(self, st, s, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported('analysis step budget exhausted')
        self.cur = (fr.module.path, s.lineno, fr.fn.qual if fr.fn else '<module>')
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s at %s:%d' % (type(s).__name__, fr.module.path, s.lineno))
        try:
            m(st, s, fr)
        except (Unsupported, TooBig) as e:
            if not hasattr(e, 'where'):
                e.where = [(os.path.basename(c[0]), c[1], q) for c, q in self.locstack if c] + [
                    (os.path.basename(fr.module.path), s.lineno, fr.fn.qual if fr.fn else '<module>')]
            raise

    def x_Expr(self, st, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(st, s.value, fr)

    def x_Pass(self, st, s, fr):
        pass

    def x_Assign(self, st, s, fr):
        v = self.ev(st, s.value, fr)
        for t in s.targets:
            self.assign(st, t, v, fr)

    def x_AnnAssign(self, st, s, fr):
        if s.value is not None:
            self.assign(st, s.target, self.ev(st, s.value, fr), fr)
        if fr.isclass and isinstance(s.target, ast.Name):
            ann = st.get(fr.oid).attrs.get('__annotations_order__', tup(()))
            self.set_attr_raw(st, fr.oid, '__annotations_order__', tup(ann.items + (const(s.target.id),)))

    def x_AugAssign(self, st, s, fr):
        op = BINOPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.load_name(st, fr, t.id)
            v = self.aug(st, op, old, self.ev(st, s.value, fr))
            self.store_name(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value, fr)
            name = self.mangle(fr, t.attr)
            old = self.get_attr(st, o, name)
            self.set_attr(st, o, name, self.aug(st, op, old, self.ev(st, s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value, fr)
            i = self.ev(st, t.slice, fr)
            old = self.getitem(st, o, i)
            self.setitem(st, o, i, self.aug(st, op, old, self.ev(st, s.value, fr)))
        else:
            raise Unsupported('augmented assignment target')

    def aug(self, st, op, a, b):
        if op == '+' and type(a) is R and self.native_kind(st, a) == 'list':
            self.natives.method(self, 'list', 'extend').fn(self, st, [a, b], {})
            return a
        if op == '|' and type(a) is R and self.native_kind(st, a) in ('set', 'dict'):
            self.natives.method(self, self.native_kind(st, a), 'update').fn(self, st, [a, b], {})
            return a
        return self.binop(st, op, a, b)

    def mangle(self, fr, name):
        if fr.clsname and name.startswith('__') and not name.endswith('__'):
            return '_' + fr.clsname.lstrip('_') + name
        return name

    def assign(self, st, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(st, t.value, fr)
            self.set_attr(st, o, self.mangle(fr, t.attr), v)
        elif isinstance(t, ast.Subscript):
            o = self.ev(st, t.value, fr)
            i = self.ev(st, t.slice, fr)
            self.setitem(st, o, i, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            items = self.unpack(st, v, None if star else len(t.elts))
            if star:
                k = star[0]
                after = len(t.elts) - k - 1
                if len(items) < len(t.elts) - 1:
                    self.raise_now(st, 'ValueError', const('not enough values to unpack'))
                mid = items[k:len(items) - after]
                parts = items[:k] + [self.new(st, self.ncls('list'), {}, tuple((TRUE, x) for x in mid))] + \
                    (items[len(items) - after:] if after else [])
                for e, x in zip(t.elts, parts):
                    self.assign(st, e.value if isinstance(e, ast.Starred) else e, x, fr)
            else:
                for e, x in zip(t.elts, items):
                    self.assign(st, e, x, fr)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def unpack(self, st, v, n):
        if type(v) is N:
            ls = leaves(v, st.guard)
            if all(type(l) is T for l, _ in ls):
                lens = set(len(l.items) for l, _ in ls)
                if len(lens) == 1:
                    k = lens.pop()
                    if n is not None and k != n:
                        self.raise_now(st, 'ValueError', const('unpack'))
                    v2 = v
                    for l, c in leaves(v):
                        if type(l) is not T or len(l.items) != k:
                            v2 = constrain(v2, not_(c))
                    return [map_leaves(v2, lambda l, i=i: l.items[i]) for i in range(k)]
            # sequences of references: unpack each alternative
            parts = []
            for l, c in ls:
                s2 = st.fork(c)
                parts.append((c, self.unpack(s2, l, n)))
            r = parts[0][1]
            for c, p in parts[1:]:
                if len(p) != len(r):
                    raise Unsupported('unpacking alternatives of different lengths')
                r = [ite(c, x, y) for x, y in zip(p, r)]
            return r
        if type(v) is X and v.ty == 'list' and n is not None:
            ln = term('app', ('len', v), 'int', 0)
            self.check(st, cmp_zero(padd(ln, const(-n)), '=='), 'ValueError', const('unpack'))
            return [self.natives.sym_elem(self, v, const(i)) for i in range(n)]
        items = self.iter_items(st, v)
        if any(g is not TRUE for g, _ in items):
            items = [(self.under(st, g), x) for g, x in items]
            items = [i for i in items if i[0] is not FALSE]
            if any(g is not TRUE for g, _ in items):
                if n is None:
                    raise Unsupported('unpacking a sequence of unknown length')
                lst = self.new(st, self.ncls('list'), {}, tuple(items))
                ln = self.length(st, lst)
                self.check(st, eq(ln, const(n)), 'ValueError', const('unpack'))
                return [self.getitem(st, lst, const(i)) for i in range(n)]
        if n is not None and len(items) != n:
            self.raise_now(st, 'ValueError', const('unpack'))
        return [x for _, x in items]

    def x_Delete(self, st, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                o = st.get(fr.oid)
                a = dict(o.attrs)
                a.pop(t.id, None)
                st.heap[fr.oid] = Rec(o.cls, a, o.items)
            elif isinstance(t, ast.Subscript):
                self.delitem(st, self.ev(st, t.value, fr), self.ev(st, t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.ev(st, t.value, fr)
                if type(o) is not R:
                    raise Unsupported('del attribute')
                r = st.get(o.oid)
                ca = self.class_attr(st, r.cls, self.mangle(fr, t.attr))
                if type(ca) is PropV:
                    if ca.fdel is None:
                        self.raise_now(st, 'AttributeError', const(t.attr))
                    self.call(st, ca.fdel, [o], {})
                    continue
                if type(ca) is R and self.descriptor(st, ca, '__delete__') is not None or \
                        self.find_user_method(r.cls, '__delattr__', st) is not None:
                    raise Unsupported('del of a managed attribute')
                a = dict(r.attrs)
                if a.pop(self.mangle(fr, t.attr), None) is None:
                    self.raise_now(st, 'AttributeError', const(t.attr))
                st.heap[o.oid] = Rec(r.cls, a, r.items)
            else:
                raise Unsupported('del')

    def branch(self, st, c, then, els):
        """run then(st)/els(st) under c / not c and merge into st"""
        pair = None
        if self.last_eq is not None:
            # where the branch asks whether two numbers are equal, either may stand for the other on one side
            e, x, y = self.last_eq
            if e is c or type(c) is N and e is not_(c):
                pair = (x, y, e is c)
            self.last_eq = None
        c = self.under(st, c)
        if c is TRUE:
            return then(st)
        if c is FALSE:
            return els(st)
        self.branches += 1
        s2 = st.fork(not_(c))
        st.guard = and_(st.guard, c)
        g1, g2 = st.guard, s2.guard
        d1 = d2 = False
        v1 = v2 = gap = None
        cur, depth = self.cur, len(self.sinks)
        try:
            v1 = then(st)
        except Dead:
            d1 = True
        except (Unsupported, TooBig) as e:
            if self.final_gap(e):
                raise
            del self.sinks[depth:]
            d1, gap = True, (g1, e)
        self.cur = cur
        try:
            v2 = els(s2)
        except Dead:
            d2 = True
        except (Unsupported, TooBig) as e:
            if d1 or self.final_gap(e):
                raise
            del self.sinks[depth:]
            d2, gap = True, (g2, e)
        if d1 and d2:
            if gap:
                raise gap[1]
            raise Dead()
        if gap:
            self.leave_gap(*gap)
        if d1:
            st.adopt(s2)
            return v2
        if d2:
            return v1
        self.eqpair = pair
        try:
            s3, v = self.merge2(st, v1, s2, v2, c=c)
        finally:
            self.eqpair = None
        st.adopt(s3)
        return v

    def final_gap(self, e):
        if type(e) is TooBig:
            self.bigs += 1
            if self.bigs > 40:
                return True
        return self.steps > self.maxsteps or self.loading

    def leave_gap(self, g, e):
        """the inputs under g are not followed any further: nothing is said about them"""
        self.dropped = or_(self.dropped, g)
        w = getattr(e, 'where', None)
        self.gaps.setdefault('%s%s' % (e, ' at %s' % (w[-1],) if w else ''), g)

    def x_If(self, st, s, fr):
        c = self.truth(st, self.ev(st, s.test, fr))
        self.branch(st, c, lambda t: self.exec_block(t, s.body, fr), lambda t: self.exec_block(t, s.orelse, fr))

    def x_Match(self, st, s, fr):
        v = self.ev(st, s.subject, fr)

        def go(t, i):
            if i == len(s.cases):
                return
            k = s.cases[i]

            def hit(u, binds):
                for n, x in binds:
                    self.store_name(u, fr, n, x)
                if k.guard is None:
                    self.exec_block(u, k.body, fr)
                    return
                self.branch(u, self.truth(u, self.ev(u, k.guard, fr)), lambda w: self.exec_block(w, k.body, fr),
                            lambda w: go(w, i + 1))
            c, binds = self.pattern(t, k.pattern, v, fr)
            self.branch(t, c, lambda u: hit(u, binds), lambda u: go(u, i + 1))
        go(st, 0)

    def pattern(self, st, p, v, fr):
        t = type(p)
        if t is ast.MatchValue:
            return self.equals(st, v, self.ev(st, p.value, fr)), []
        if t is ast.MatchSingleton:
            return self.identical(st, v, const(p.value)), []
        if t is ast.MatchAs:
            c, b = (TRUE, []) if p.pattern is None else self.pattern(st, p.pattern, v, fr)
            return c, b + ([(p.name, v)] if p.name else [])
        if t is ast.MatchOr:
            r = FALSE
            for q in p.patterns:
                c, b = self.pattern(st, q, v, fr)
                if b:
                    raise Unsupported('names bound in alternatives of a pattern')
                r = or_(r, c)
            return r, []
        if t is ast.MatchSequence:
            kind = type(v) is R and self.native_kind(st, v) == 'list'
            if type(v) is T:
                items = v.items
            elif kind and all(g is TRUE for g, _ in st.get(v.oid).items):
                items = [x for _, x in st.get(v.oid).items]
            elif type(v) in (C, E) or type(v) is X and v.ty not in ('any', 'list', 'tuple') or type(v) is R and not kind:
                return FALSE, []
            else:
                raise Unsupported('sequence pattern')
            if any(isinstance(q, ast.MatchStar) for q in p.patterns):
                raise Unsupported('star pattern')
            if len(items) != len(p.patterns):
                return FALSE, []
            c, b = TRUE, []
            for q, x in zip(p.patterns, items):
                c2, b2 = self.pattern(st, q, x, fr)
                c, b = and_(c, c2), b + b2
            return c, b
        if t is ast.MatchClass and not p.kwd_patterns:
            cls = self.ev(st, p.cls, fr)
            c = self.call(st, self.natives.builtin(self, 'isinstance'), [v, cls], {})
            if not p.patterns:
                return c, []
            if len(p.patterns) == 1 and cls.native in ('str', 'int', 'bytes', 'bool', 'float', 'list', 'tuple', 'dict', 'set'):
                c2, b = self.pattern(st, p.patterns[0], v, fr)
                return and_(c, c2), b
        raise Unsupported('pattern %s' % t.__name__)

    def x_While(self, st, s, fr):
        saved = fr.brk, fr.cont
        fr.brk, exits = [], []
        literal = isinstance(s.test, ast.Constant)
        nsym = 0
        it = 0
        alive = True
        try:
            while True:
                it += 1
                if it > 4000:
                    raise Unsupported('loop at %s:%d does not terminate in the analysis' % (fr.module.path, s.lineno))
                c = self.under(st, self.truth(st, self.ev(st, s.test, fr)))
                if c is FALSE:
                    break
                sym = False
                if c is not TRUE:
                    exits.append((st.fork(not_(c)), None))
                    sym = True
                if sym or nsym:
                    nsym += 1
                if nsym > self.K:
                    self.dropped = or_(self.dropped, and_(st.guard, c))
                    alive = False
                    break
                st.guard = and_(st.guard, c)
                fr.cont = []
                g0 = st.guard
                dead = False
                try:
                    self.exec_block(st, s.body, fr)
                except Dead:
                    dead = True
                outs = fr.cont
                if not dead:
                    outs = outs + [(st, None)]
                if not outs:
                    alive = False
                    break
                s2, _ = self.merge_all(outs)
                st.adopt(s2)
                if literal and st.guard is not g0:
                    nsym += 1
            brk = fr.brk
        finally:
            fr.brk, fr.cont = saved
        if alive:
            exits.append((st.fork(), None))
        if exits and s.orelse:
            s2, _ = self.merge_all(exits)
            exits = []
            try:
                self.exec_block(s2, s.orelse, fr)
                exits.append((s2, None))
            except Dead:
                pass
        outs = exits + brk
        if not outs:
            raise Dead()
        s2, _ = self.merge_all(outs)
        st.adopt(s2)

    def drive(self, st, v, body):
        """iterate v, running body(state, item).  body may raise Dead."""
        if type(v) is R:
            rec = st.get(v.oid)
            if rec.cls.native == 'generator':
                return self.drive_gen(st, v, body)
            if rec.cls.native in ('iterator',):
                src = rec.attrs.get('src')
                if src is not None and src is not NONE:
                    return self.drive_next(st, v, body)
                while True:
                    items = st.get(v.oid).items
                    if not items:
                        return
                    g, x = items[0]
                    self.set_items(st, v, items[1:])
                    self.guarded(st, g, x, body)
            if rec.cls.native == 'count':
                return self.drive_next(st, v, body)
            if self.find_user_method(rec.cls, '__iter__', st) is not None:
                it = self.call_method(st, v, '__iter__', [])
                if type(it) is R and self.find_user_method(st.get(it.oid).cls, '__next__', st) is not None:
                    return self.drive_next(st, it, body)
                if it is v:
                    raise Unsupported('object iterates over itself')
                return self.drive(st, it, body)
            if rec.cls.native is None and self.find_user_method(rec.cls, '__getitem__', st) is not None and \
                    self.native_kind(st, v) is None:
                return self.drive_next(st, v, body, legacy=True)
            if self.native_kind(st, v) == 'list':
                i = 0
                # live list: the body may append
                while True:
                    items = st.get(v.oid).items
                    if i >= len(items):
                        return
                    if i > 4000:
                        raise Unsupported('list grows without bound while iterated')
                    g, x = items[i]
                    self.guarded(st, g, x, body)
                    i += 1
        for g, x in self.iter_items(st, v):
            self.guarded(st, g, x, body)

    def guarded(self, st, g, x, body):
        g = self.under(st, g)
        if g is FALSE:
            return
        if g is TRUE:
            body(st, x)
            return
        self.branch(st, g, lambda t: body(t, x), lambda t: None)

    def drive_next(self, st, it, body, legacy=False):
        exits = []
        nsym = 0
        n = 0
        alive = True
        while True:
            n += 1
            if n > 4000:
                raise Unsupported('iteration does not terminate in the analysis')
            g0 = st.guard
            self.sinks.append([])
            dead = False
            x = None
            try:
                if legacy:
                    x = self.call_method(st, it, '__getitem__', [const(n - 1)])
                else:
                    x = self.next_item(st, it)
            except Dead:
                dead = True
            finally:
                caught = self.sinks.pop()
            stop = 'IndexError' if legacy else 'StopIteration'
            nex = 0
            for s, e in caught:
                if self.isinstance_exc(s, e, self.exc_class(stop)):
                    exits.append((s, None))
                    nex += 1
                else:
                    self.sinks[-1].append((s, e))
            if dead:
                alive = False
                break
            if nex:
                nsym += 1
                if nsym > self.K:
                    self.dropped = or_(self.dropped, st.guard)
                    alive = False
                    break
            try:
                body(st, x)
            except Dead:
                alive = False
                break
        if not exits:
            raise Dead()
        s2, _ = self.merge_all(exits)
        st.adopt(s2)

    def next_item(self, st, it):
        if type(it) is N:
            return self.with_leaves(st, it, self.next_item)
        if type(it) is R:
            rec = st.get(it.oid)
            if rec.cls.native == 'generator':
                if rec.attrs['state'] is const('fresh'):
                    items = self.settled(st, lambda s: tuple(self.iter_items(s, it)))
                    if items is None:
                        return self.first_of(st, it)
                    self.set_attr_raw(st, it.oid, 'state', const('listed'))
                    self.set_items(st, it, items)
                if st.get(it.oid).attrs['state'] is const('done'):
                    self.raise_now(st, 'StopIteration')
                if st.get(it.oid).attrs['state'] is not const('listed'):
                    raise Unsupported('a generator is consumed in parts')
                rec = st.get(it.oid)
            if rec.cls.native == 'count':
                v = rec.attrs['n']
                self.set_attr_raw(st, it.oid, 'n', self.binop(st, '+', v, rec.attrs['step']))
                return v
            if rec.cls.native in ('iterator', 'generator'):
                src = rec.attrs.get('src')
                if src is not None and src is not NONE:
                    return self.natives.src_next(self, st, it, src)
                items = rec.items
                while items:
                    g, x = items[0]
                    g = self.under(st, g)
                    if g is FALSE:
                        items = items[1:]
                        continue
                    if g is TRUE:
                        self.set_items(st, it, items[1:])
                        return x
                    rest = items[1:]

                    def yes(s):
                        self.set_items(s, it, rest)
                        return x

                    def no(s):
                        self.set_items(s, it, rest)
                        return self.next_item(s, it)
                    return self.branch(st, g, yes, no)
                self.set_items(st, it, ())
                self.raise_now(st, 'StopIteration')
            return self.call_method(st, it, '__next__', [])
        self.raise_now(st, 'TypeError', const('not an iterator'))

    def x_For(self, st, s, fr):
        it = self.ev(st, s.iter, fr)
        saved = fr.brk, fr.cont
        fr.brk = []
        fr.cont = None
        cnt = [0]

        def body(t, x):
            cnt[0] += 1
            outer = fr.cont
            fr.cont = []
            dead = False
            try:
                self.assign(t, s.target, x, fr)
                self.exec_block(t, s.body, fr)
            except Dead:
                dead = True
            outs = fr.cont
            fr.cont = outer
            if not outs and dead:
                raise Dead()
            if not dead:
                outs = outs + [(t, None)]
            s2, _ = self.merge_all(outs)
            t.adopt(s2)
        dead = False
        try:
            if type(it) is N:
                self.drive_alts(st, it, body)
            else:
                self.drive(st, it, body)
        except Dead:
            dead = True
        finally:
            brk = fr.brk
            fr.brk, fr.cont = saved
        if not dead and s.orelse:
            try:
                self.exec_block(st, s.orelse, fr)
            except Dead:
                dead = True
        outs = ([] if dead else [(st.fork(), None)]) + brk
        if not outs:
            raise Dead()
        s2, _ = self.merge_all(outs)
        st.adopt(s2)

    def drive_alts(self, st, v, body):
        if any(self.is_gen(st, l) for l, _ in leaves(v, st.guard)):
            self.with_leaves(st, v, lambda s, l: (self.drive(s, l, body), NONE)[1])
            return
        items = self.iter_items(st, v)
        for g, x in items:
            self.guarded(st, g, x, body)

    x_AsyncFor = None

    def x_Break(self, st, s, fr):
        fr.brk.append((st.fork(), None))
        raise Dead()

    def x_Continue(self, st, s, fr):
        fr.cont.append((st.fork(), None))
        raise Dead()

    def x_Return(self, st, s, fr):
        v = NONE if s.value is None else self.ev(st, s.value, fr)
        fr.returns.append((st.fork(), v))
        raise Dead()

    def x_Assert(self, st, s, fr):
        c = self.truth(st, self.ev(st, s.test, fr))
        self.check(st, c, 'AssertionError')

    def x_Raise(self, st, s, fr):
        if s.exc is None:
            f = fr
            while f is not None and not f.exc:
                f = f.parent
            if f is None:
                self.raise_now(st, 'RuntimeError', const('No active exception to reraise'))
            self.raise_val(st, f.exc[-1])
        v = self.ev(st, s.exc, fr)
        if s.cause is not None:
            self.ev(st, s.cause, fr)
        self.raise_val(st, v)

    def raise_val(self, st, v):
        def go(s, lf):
            if type(lf) is ClassV:
                lf = self.call(s, lf, [], {})
            if type(lf) is not R:
                self.raise_now(s, 'TypeError', const('exceptions must derive from BaseException'))
            self.raise_exc(s, lf)
        self.with_leaves(st, v, go)
        raise Dead()

    def cls_of(self, st, v):
        return self.natives.type_of(self, st, v)

    def isinstance_exc(self, st, e, cls):
        return cls in self.cls_of(st, e).mro

    def x_Try(self, st, s, fr):
        if s.finalbody:
            saved = fr.returns, fr.brk, fr.cont
            rets, brks, conts = [], [], []
            fr.returns = rets
            if saved[1] is not None:
                fr.brk = brks
            if saved[2] is not None:
                fr.cont = conts
            self.sinks.append([])
            dead = False
            try:
                self.try_inner(st, s, fr)
            except Dead:
                dead = True
            finally:
                caught = self.sinks.pop()
                fr.returns, fr.brk, fr.cont = saved
            for lst, dst in ((rets, fr.returns), (brks, fr.brk), (conts, fr.cont)):
                for t, v in lst:
                    try:
                        self.exec_block(t, s.finalbody, fr)
                        dst.append((t, v))
                    except Dead:
                        pass
            for t, e in caught:
                try:
                    self.exec_block(t, s.finalbody, fr)
                    self.sinks[-1].append((t, e))
                except Dead:
                    pass
            if dead:
                raise Dead()
            self.exec_block(st, s.finalbody, fr)
        else:
            self.try_inner(st, s, fr)

    def try_inner(self, st, s, fr):
        if not s.handlers:
            self.exec_block(st, s.body, fr)
            self.exec_block(st, s.orelse, fr)
            return
        self.sinks.append([])
        dead = False
        try:
            self.exec_block(st, s.body, fr)
        except Dead:
            dead = True
        finally:
            caught = self.sinks.pop()
        outs = []
        if not dead:
            try:
                self.exec_block(st, s.orelse, fr)
                outs.append((st.fork(), None))
            except Dead:
                pass
        groups = [[] for _ in s.handlers]
        for t, e in caught:
            if t.guard is FALSE:
                continue
            for i, h in enumerate(s.handlers):
                if h.type is None:
                    ok = True
                else:
                    hv = self.ev(t, h.type, fr)
                    cl = [c for c in (hv.items if type(hv) is T else (hv,))]
                    ok = any(type(c) is ClassV and self.isinstance_exc(t, e, c) for c in cl)
                if ok:
                    groups[i].append((t, e))
                    break
            else:
                self.sinks[-1].append((t, e))
        for h, g in zip(s.handlers, groups):
            if not g:
                continue
            t, e = self.merge_all(g)
            fr.exc.append(e)
            try:
                if h.name:
                    self.store_name(t, fr, h.name, e)
                self.exec_block(t, h.body, fr)
                outs.append((t, None))
            except Dead:
                pass
            finally:
                fr.exc.pop()
        if not outs:
            raise Dead()
        s2, _ = self.merge_all(outs)
        st.adopt(s2)

    x_TryStar = None

    def x_With(self, st, s, fr):
        self.with_items(st, list(s.items), s.body, fr)

    def with_items(self, st, items, body, fr):
        if not items:
            self.exec_block(st, body, fr)
            return
        it = items[0]
        cm = self.ev(st, it.context_expr, fr)
        if type(cm) is R and getattr(st.get(cm.oid).cls, 'name', '') == '_GeneratorContextManager':
            self.with_gen(st, st.get(cm.oid).attrs['gen'], items, body, fr)
            return
        v = self.call_method(st, cm, '__enter__', [])
        if it.optional_vars is not None:
            self.assign(st, it.optional_vars, v, fr)
        saved = fr.returns, fr.brk, fr.cont
        rets, brks, conts = [], [], []
        fr.returns = rets
        if saved[1] is not None:
            fr.brk = brks
        if saved[2] is not None:
            fr.cont = conts
        self.sinks.append([])
        dead = False
        try:
            self.with_items(st, items[1:], body, fr)
        except Dead:
            dead = True
        finally:
            caught = self.sinks.pop()
            fr.returns, fr.brk, fr.cont = saved
        for lst, dst in ((rets, fr.returns), (brks, fr.brk), (conts, fr.cont)):
            for t, x in lst:
                try:
                    self.call_method(t, cm, '__exit__', [NONE, NONE, NONE])
                    dst.append((t, x))
                except Dead:
                    pass
        outs = []
        if not dead:
            self.call_method(st, cm, '__exit__', [NONE, NONE, NONE])
            outs.append((st.fork(), None))
        for t, e in caught:
            try:
                r = self.call_method(t, cm, '__exit__', [self.cls_of(t, e), e, NONE])
                c = self.under(t, self.truth(t, r))
                if c is not TRUE:
                    self.sinks[-1].append((t.fork(not_(c)), e))
                if c is not FALSE:
                    outs.append((t.fork(c), None))
            except Dead:
                pass
        if not outs:
            raise Dead()
        s2, _ = self.merge_all(outs)
        st.adopt(s2)

    def with_gen(self, st, g, items, body, fr):
        """with <generator-based context manager>: the body runs at the yield"""
        if not self.is_gen(st, g) or st.get(g.oid).attrs['state'] != const('fresh'):
            raise Unsupported('this context manager is not a fresh generator')
        run, final = self.gens[g.oid]
        it = items[0]
        box = self.new(st, self.ncls('object'), {'how': const('stop'), 'val': NONE})
        cur = self.cur
        live = []

        def each(s, v):
            inner = self.cur
            self.cur = cur
            saved = fr.returns, fr.brk, fr.cont
            rets, brks, conts = [], [], []
            fr.returns = rets
            if saved[1] is not None:
                fr.brk = brks
            if saved[2] is not None:
                fr.cont = conts
            outs = []
            try:
                if it.optional_vars is not None:
                    self.assign(s, it.optional_vars, v, fr)
                self.with_items(s, items[1:], body, fr)
                self.set_attr_raw(s, box.oid, 'how', const('end'))
                outs.append((s.fork(), None))
            except Dead:
                pass
            finally:
                fr.returns, fr.brk, fr.cont = saved
                self.cur = inner
            for how, lst in (('ret', rets), ('brk', brks), ('cont', conts)):
                for t, x in lst:
                    t = t.fork()
                    self.set_attr_raw(t, box.oid, 'how', const(how))
                    self.set_attr_raw(t, box.oid, 'val', NONE if x is None else x)
                    outs.append((t, None))
            if not outs:
                raise Dead()
            s2, _ = self.merge_all(outs)
            s.adopt(s2)
        self.set_attr_raw(st, g.oid, 'state', const('running'))
        run(st, each)
        self.set_attr_raw(st, g.oid, 'state', const('done'))
        how, val = st.get(box.oid).attrs['how'], st.get(box.oid).attrs['val']
        for tag, dst in (('ret', fr.returns), ('brk', fr.brk), ('cont', fr.cont)):
            c = self.under(st, eq(how, const(tag)))
            if c is not FALSE:
                t = st.fork(c)
                dst.append((t, self.clean(t, val, TRUE) if tag == 'ret' else None))
        c = self.under(st, or_(eq(how, const('end')), eq(how, const('stop'))))
        if c is FALSE:
            raise Dead()
        st.adopt(st.fork(c))

    def x_Global(self, st, s, fr):
        pass

    x_Nonlocal = x_Global

    def x_Import(self, st, s, fr):
        for a in s.names:
            try:
                m = self.load_module(a.name)
            except Unsupported as e:
                if self.known(a.name):
                    raise
                self.store_name(st, fr, a.asname or a.name.split('.')[0], mk(Missing, why=str(e)))
                continue
            if a.asname:
                self.store_name(st, fr, a.asname, m)
            else:
                self.store_name(st, fr, a.name.split('.')[0], self.load_module(a.name.split('.')[0]))

    def x_ImportFrom(self, st, s, fr):
        if s.module == '__future__':
            return
        name = s.module or ''
        if s.level:
            base = fr.module.name.split('.')
            drop = s.level - (1 if fr.module.pkg else 0)
            base = base[:len(base) - drop] if drop else base
            name = '.'.join(base + ([name] if name else []))
        try:
            m = self.load_module(name)
        except Unsupported as e:
            if self.known(name) or any(a.name == '*' for a in s.names):
                raise
            for a in s.names:
                self.store_name(st, fr, a.asname or a.name, mk(Missing, why=str(e)))
            return
        for a in s.names:
            if a.name == '*':
                al = self.mod_attr(st, m, '__all__')
                if al is not None:
                    names = [to_py(x) for _, x in self.iter_items(st, al)]
                elif m.native is not None:
                    names = list(m.native)
                else:
                    names = [n for n in st.get(m.oid).attrs if not n.startswith('_')]
                for n in names:
                    v = self.mod_attr(st, m, n, True)
                    if v is not None:
                        self.store_name(st, fr, n, v)
            else:
                v = self.mod_attr(st, m, a.name, True)
                if v is None:
                    try:
                        v = self.load_module(name + '.' + a.name)
                    except Unsupported:
                        if m.native is not None or not self.known(name):
                            self.store_name(st, fr, a.asname or a.name, mk(Missing, why='%s.%s is not modelled' % (name, a.name)))
                            continue
                        self.raise_now(st, 'ImportError', const(a.name))
                self.store_name(st, fr, a.asname or a.name, v)

    # functions and classes ------------------------------------------------
    def make_func(self, st, node, fr, name):
        f = mk(FuncV, name=name, node=node, module=fr.module, clsname=fr.clsname)
        pre = ''
        if fr.isclass:
            pre = fr.owner + '.'
        elif fr.fn is not None:
            pre = fr.fn.qual + '.'
        f.qual = pre + name
        f.lex = fr
        a = node.args
        f.defaults = [self.ev(st, d, fr) for d in a.defaults]
        f.kwdefaults = [None if d is None else self.ev(st, d, fr) for d in a.kw_defaults]
        names, glob, nonl, gen, caps = assigned_names(node)
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            names.add(x.arg)
        if a.vararg:
            names.add(a.vararg.arg)
        if a.kwarg:
            names.add(a.kwarg.arg)
        f.locals, f.globals, f.nonlocals, f.isgen, f.captures = names, glob, nonl, gen, caps
        f.islambda = isinstance(node, ast.Lambda)
        f.oid = None
        return f

    def x_FunctionDef(self, st, s, fr):
        v = self.make_func(st, s, fr, s.name)
        for d in reversed(s.decorator_list):
            v = self.call(st, self.ev(st, d, fr), [v], {})
        self.store_name(st, fr, s.name, v)

    def x_ClassDef(self, st, s, fr):
        bases = []
        for b in s.bases:
            bv = self.ev(st, b, fr)
            if type(bv) is not ClassV:
                bv2 = self.natives.as_class(self, bv)
                if bv2 is None:
                    raise Unsupported('base class of %s' % s.name)
                bv = bv2
            bases.append(bv)
        ckw = {}
        for k in s.keywords:
            if k.arg == 'metaclass':
                mv = self.ev(st, k.value, fr)
                if type(mv) is ClassV and mv.name == 'EnumMeta':
                    bases.append(self.ncls('Enum'))
                elif type(mv) is not ClassV or mv.native is None or mv.native not in ('type', 'object'):
                    raise Unsupported('metaclass of %s' % s.name)
            elif k.arg is None:
                raise Unsupported('class keywords of %s' % s.name)
            else:
                ckw[k.arg] = self.ev(st, k.value, fr)
        oid = self.new(st, None, {}).oid
        cf = Frame(oid, fr, fr.module, fr.fn)
        cf.isclass = True
        cf.owner = (fr.owner + '.' if fr.isclass else '') + s.name
        cf.clsname = s.name
        self.exec_block(st, s.body, cf)
        ns = st.get(oid).attrs
        cls = self.make_class(st, s.name, bases, dict(ns), fr.module, node=s)
        for k, x in list(st.get(cls.oid).attrs.items()):
            if type(x) is R and st.get(x.oid).cls is not None:
                d = self.find_user_method(st.get(x.oid).cls, '__set_name__', st)
                if d is not None:
                    self.call(st, d, [x, cls, const(k)], {})
        for c in cls.mro[1:]:
            if c.native is None and c.oid is not None:
                d = st.get(c.oid).attrs.get('__init_subclass__')
                if d is not None:
                    self.call(st, d.func if type(d) is StaticV else d, [cls], ckw)
                    break
        v = cls
        for d in reversed(s.decorator_list):
            v = self.call(st, self.ev(st, d, fr), [v], {})
        self.store_name(st, fr, s.name, v)

    def make_class(self, st, name, bases, ns, module, node=None):
        if not bases:
            bases = [self.ncls('object')]
        cls = mk(ClassV, name=name, qual=name, bases=bases, module=module, node=node)
        cls.mro = [cls] + c3([list(b.mro) for b in bases] + [list(bases)])
        cls.native = None
        cls.is_enum = any(c.is_enum for c in cls.mro[1:])
        cls.is_int = any(c.is_int for c in cls.mro[1:])
        cls.fields = None
        for c in cls.mro[1:]:
            if c.fields is not None:
                cls.fields = c.fields
                break
        for f in ns.values():
            g = f
            if type(g) is StaticV:
                g = g.func
            if type(g) is PropV:
                for h in (g.fget, g.fset, g.fdel):
                    if type(h) is FuncV and h.owner is None:
                        h.owner = cls
                continue
            if type(g) is FuncV and g.owner is None:
                g.owner = cls
        if cls.is_enum:
            self.natives.build_enum(self, st, cls, ns)
        nt = [c for c in cls.mro[1:] if c.native == 'NamedTuple']
        if nt and cls.fields is None:
            order = ns.pop('__annotations_order__', tup(()))
            cls.fields = [x.v for x in order.items]
            ns['_fields'] = tup(order.items)
            ns['__nt_defaults__'] = tup(tup((x, ns[x.v])) for x in order.items if x.v in ns)
        cls.oid = self.new(st, None, ns).oid
        return cls

    def ncls(self, name):
        return self.natives.ncls(self, name)

    # -------------------------------------------------------------- expressions
    def ev(self, st, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s at %s:%d' % (type(e).__name__, fr.module.path, e.lineno))
        return m(st, e, fr)

    def e_Constant(self, st, e, fr):
        return const(e.value)

    def e_Name(self, st, e, fr):
        v = self.load_name(st, fr, e.id)
        return narrowed(v, st.guard) if type(v) is N and type(st.guard) is N else v

    def e_Attribute(self, st, e, fr):
        o = self.ev(st, e.value, fr)
        return self.get_attr(st, o, self.mangle(fr, e.attr))

    def e_Tuple(self, st, e, fr):
        return tup(self.elts(st, e.elts, fr))

    def elts(self, st, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                for g, v in self.iter_items(st, self.ev(st, x.value, fr)):
                    if g is not TRUE:
                        raise Unsupported('starred sequence of unknown length')
                    out.append(v)
            else:
                out.append(self.ev(st, x, fr))
        return out

    def e_List(self, st, e, fr):
        items = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                items += list(self.iter_items(st, self.ev(st, x.value, fr)))
            else:
                items.append((TRUE, self.ev(st, x, fr)))
        return self.new(st, self.ncls('list'), {}, tuple(items))

    def e_Set(self, st, e, fr):
        r = self.new(st, self.ncls('set'), {}, ())
        for v in self.elts(st, e.elts, fr):
            self.dict_set(st, r, v, NONE)
        return r

    def e_Dict(self, st, e, fr):
        r = self.new(st, self.ncls('dict'), {}, ())
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.ev(st, v, fr)
                self.natives.method(self, 'dict', 'update').fn(self, st, [r, d], {})
            else:
                kv = self.ev(st, k, fr)
                self.dict_set(st, r, kv, self.ev(st, v, fr))
        return r

    def e_JoinedStr(self, st, e, fr):
        out = EMPTY
        for p in e.values:
            if isinstance(p, ast.Constant):
                v = const(p.value)
            else:
                v = self.e_FormattedValue(st, p, fr)
            out = self.binop(st, '+', out, v)
        return out

    def e_FormattedValue(self, st, p, fr):
        v = self.ev(st, p.value, fr)
        spec = EMPTY
        if p.format_spec is not None:
            spec = self.ev(st, p.format_spec, fr)
        if p.conversion == 114:
            v = self.natives.to_repr(self, st, v)
        elif p.conversion == 115:
            v = self.natives.to_str(self, st, v)
        return self.natives.format_value(self, st, v, spec)

    def e_BinOp(self, st, e, fr):
        a = self.ev(st, e.left, fr)
        b = self.ev(st, e.right, fr)
        return self.binop(st, BINOPS[type(e.op)], a, b)

    def binop(self, st, op, a, b):
        if has_ref(a) or has_ref(b) or has_enumflag(a) or has_enumflag(b):
            return self.with_leaves(st, a, lambda s, x: self.with_leaves(s, b, lambda t, y: self.binop_ref(t, op, x, y)))
        if op == '%' and type(a) is not N and is_str(a):
            return self.natives.percent(self, st, a, b)
        return self.pure(st, lambda x, y: self.binop_leaf(op, x, y), (a, b))

    def binop_leaf(self, op, x, y):
        if x is UNDEF or y is UNDEF:
            return UNDEF
        r = binop(op, x, y)
        if r is None:
            raise Unsupported('operator %s on %s and %s' % (op, ty_of(x), ty_of(y)))
        return r

    def binop_ref(self, st, op, a, b):
        if type(a) is R or type(b) is R:
            if type(a) is R:
                m = self.find_user_method(st.get(a.oid).cls, '__%s__' % DUNDER[op], st)
                if m is not None:
                    return self.call_method(st, a, '__%s__' % DUNDER[op], [b])
            if type(b) is R:
                m = self.find_user_method(st.get(b.oid).cls, '__r%s__' % DUNDER[op], st)
                if m is not None:
                    return self.call_method(st, b, '__r%s__' % DUNDER[op], [a])
            return self.natives.ref_binop(self, st, op, a, b)
        if op == '%' and is_str(a):
            return self.natives.percent(self, st, a, b)
        return self.resolve(st, self.binop_leaf(op, a, b))

    def e_UnaryOp(self, st, e, fr):
        v = self.ev(st, e.operand, fr)
        if isinstance(e.op, ast.Not):
            return not_(self.truth(st, v))
        if isinstance(e.op, ast.USub):
            return self.pure(st, lambda x: self.binop_leaf('*', x, const(-1)) if ty_of(x) == 'int' else
                             (const(-x.v) if type(x) is C and isinstance(x.v, float) else app('neg', (x,), 'float')), (v,))
        if isinstance(e.op, ast.UAdd):
            return v
        # ~x == -x-1
        return self.pure(st, lambda x: padd(const(-1), x, -1), (v,))

    def e_BoolOp(self, st, e, fr):
        isand = isinstance(e.op, ast.And)

        def go(s, i):
            v = self.ev(s, e.values[i], fr)
            if i == len(e.values) - 1:
                return v
            c = self.under(s, self.truth(s, v))
            if c is TRUE:
                return go(s, i + 1) if isand else v
            if c is FALSE:
                return v if isand else go(s, i + 1)
            if isand:
                return self.branch(s, c, lambda t: go(t, i + 1), lambda t: v)
            return self.branch(s, c, lambda t: v, lambda t: go(t, i + 1))
        return go(st, 0)

    def e_IfExp(self, st, e, fr):
        c = self.truth(st, self.ev(st, e.test, fr))
        return self.branch(st, c, lambda t: self.ev(t, e.body, fr), lambda t: self.ev(t, e.orelse, fr))

    def e_NamedExpr(self, st, e, fr):
        v = self.ev(st, e.value, fr)
        f = fr
        while f.fn is not None and f.fn.name == '<comp>':
            f = f.parent
        self.store_name(st, f, e.target.id, v)
        return v

    def e_Compare(self, st, e, fr):
        left = self.ev(st, e.left, fr)

        def go(s, left, i):
            right = self.ev(s, e.comparators[i], fr)
            r = self.compare(s, e.ops[i], left, right)
            if i == len(e.ops) - 1:
                return r
            c = self.under(s, self.truth(s, r))
            return self.branch(s, c, lambda t: go(t, right, i + 1), lambda t: FALSE)
        return go(st, left, 0)

    def compare(self, st, op, a, b):
        t = type(op)
        if t is ast.Is:
            return self.identical(st, a, b)
        if t is ast.IsNot:
            return not_(self.identical(st, a, b))
        if t is ast.In:
            return self.contains(st, b, a)
        if t is ast.NotIn:
            return not_(self.contains(st, b, a))
        if t is ast.Eq:
            return self.equals(st, a, b)
        if t is ast.NotEq:
            if has_ref(a):
                def ne(s, x):
                    if type(x) is R and self.find_user_method(s.get(x.oid).cls, '__ne__', s) is not None:
                        return self.truth(s, self.call_method(s, x, '__ne__', [b]))
                    return not_(self.equals(s, x, b))
                return self.with_leaves(st, a, ne)
            return not_(self.equals(st, a, b))
        o = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}[t]
        if has_ref(a) or has_ref(b):
            def cmp(s, x):
                if type(x) is R:
                    return self.truth(s, self.call_method(s, x, CMPDUNDER[o], [b]))
                if type(b) is R and (type(x) is C and type(x.v) is int or type(x) is X and x.ty == 'int'):
                    m = CMPDUNDER[{'<': '>', '<=': '>=', '>': '<', '>=': '<='}[o]]
                    if self.find_user_method(s.get(b.oid).cls, m, s) is not None:
                        return self.truth(s, self.call_method(s, b, m, [x]))
                    if s.get(b.oid).cls.native is not None:
                        self.raise_now(s, 'TypeError', const('not ordered'))
                raise Unsupported('ordering of objects')
            return self.with_leaves(st, a, cmp)
        return self.pure(st, lambda x, y: UNDEF if (x is UNDEF or y is UNDEF) else lt_leaf(x, o, y), (a, b))

    def identical(self, st, a, b):
        def f(x, y):
            if x is y:
                return TRUE
            if type(x) is X and x.ty not in ('any', 'bool') or type(y) is X and y.ty not in ('any', 'bool'):
                if NONE in (x, y) or isinstance(x, (O, R)) or isinstance(y, (O, R)):
                    return FALSE
                return eq_leaf(x, y)
            if type(x) is X and x.ty == 'bool' and y in (TRUE, FALSE):
                return eq_leaf(x, y)
            if type(y) is X and y.ty == 'bool' and x in (TRUE, FALSE):
                return eq_leaf(x, y)
            if type(x) is X or type(y) is X:
                return bool_of_var(app('is', (x, y), 'bool'))
            return FALSE
        return apply(f, (a, b))

    def equals(self, st, a, b):
        if not has_ref(a) and not has_ref(b):
            r = apply(eq_leaf, (a, b))
            if type(r) is N and all(type(x) is X and x.ty == 'int' or type(x) is C and type(x.v) is int
                                    for v in (a, b) for x, _ in leaves(v)):
                self.last_eq = r, a, b
            return r
        if type(a) is T and type(b) is T:
            if len(a.items) != len(b.items):
                return FALSE
            r = TRUE
            for x, y in zip(a.items, b.items):
                r = and_(r, self.equals(st, x, y))
            return r
        return self.with_leaves(st, a, lambda s, x: self.with_leaves(s, b, lambda t, y: self.eq_ref(t, x, y)))

    def eq_ref(self, st, a, b):
        for x, y in ((a, b), (b, a)):
            if type(x) is R:
                m = self.find_user_method(st.get(x.oid).cls, '__eq__', st)
                if m is not None:
                    r = self.call_method(st, x, '__eq__', [y])
                    return self.truth(st, r)
        if a is b:
            return TRUE
        if type(a) is T and type(b) is T:
            return self.equals(st, a, b)
        if type(a) is R and type(b) is R:
            ka, kb = self.native_kind(st, a), self.native_kind(st, b)
            da, db = st.get(a.oid).cls.native == 'dictview', st.get(b.oid).cls.native == 'dictview'
            if da or db:
                if not (da or ka == 'set') or not (db or kb == 'set'):
                    return FALSE
                ns = self.ncls('set')
                return self.eq_ref(st, self.natives.nat_seq.c_set(self, st, ns, [a], {}), self.natives.nat_seq.c_set(self, st, ns, [b], {}))
            if ka == kb == 'list':
                xa, xb = self.live_items(st, a), self.live_items(st, b)
                if all(g is TRUE for g, _ in xa) and all(g is TRUE for g, _ in xb):
                    if len(xa) != len(xb):
                        return FALSE
                    r = TRUE
                    for (_, x), (_, y) in zip(xa, xb):
                        r = and_(r, self.equals(st, x, y))
                        if r is FALSE:
                            break
                    return r
                la, lb = self.length(st, a), self.length(st, b)
                r = eq(la, lb)
                for i in range(max(len(xa), len(xb))):
                    pres = lt_gt(la, i)
                    ea = self.natives.gseq_at(xa, i)
                    eb = self.natives.gseq_at(xb, i)
                    if ea is UNDEF or eb is UNDEF:
                        r = and_(r, not_(pres))
                    else:
                        r = and_(r, or_(not_(pres), self.equals(st, ea, eb)))
                return r
            if ka in ('dict', 'set') and ka == kb:
                da, db = st.get(a.oid).items, st.get(b.oid).items
                r = TRUE
                for one, other in ((da, b), (db, a)):
                    for g, k, v in one:
                        pres, val = self.dict_lookup(st, other, k)
                        ok = pres
                        if ka == 'dict' and pres is not FALSE:
                            ok = and_(pres, self.equals(st, v, val))
                        r = and_(r, or_(not_(g), ok))
                        if r is FALSE:
                            return r
                return r
        if type(a) is R and type(b) is R:
            fa, fb = st.get(a.oid), st.get(b.oid)
            if fa.cls.fields is not None and fb.cls.fields is not None:
                return self.equals(st, self.natives.nt_tuple(self, st, a), self.natives.nt_tuple(self, st, b))
        for x, y in ((a, b), (b, a)):
            if type(x) is R and type(y) is T and st.get(x.oid).cls.fields is not None:
                return self.equals(st, self.natives.nt_tuple(self, st, x), y)
            if type(x) is R and self.native_kind(st, x) == 'bytearray':
                return self.equals(st, st.get(x.oid).attrs['data'], y)
        if type(a) is R or type(b) is R:
            for x, y in ((a, b), (b, a)):
                if type(x) is R and self.native_kind(st, x) == 'list' and type(y) is X and y.ty in ('list', 'any'):
                    return bool_of_var(app('eq', (self.freeze(st, x), y), 'bool'))
            return FALSE
        return eq_leaf(a, b)

    def contains(self, st, cont, item):
        def go(s, c):
            t = type(c)
            if t is T:
                r = FALSE
                for x in c.items:
                    r = or_(r, self.equals(s, x, item))
                    if r is TRUE:
                        break
                return r
            if t is C and isinstance(c.v, (str, bytes)) or t is X and c.ty in ('str', 'bytes'):
                return self.pure(s, lambda x, y: self.natives.str_contains(self, x, y), (c, item))
            if t is ClassV and c.is_enum:
                r = FALSE
                for m in c.members:
                    r = or_(r, eq(m if type(item) is not N else m, item))
                return r
            if t is X and c.ty == 'list':
                return bool_of_var(app('in', (item, c), 'bool'))
            if t is R:
                rec = s.get(c.oid)
                if self.find_user_method(rec.cls, '__contains__', s) is not None:
                    return self.truth(s, self.call_method(s, c, '__contains__', [item]))
                k = self.native_kind(s, c)
                if k in ('dict', 'set'):
                    return self.dict_lookup(s, c, item)[0]
                if rec.cls.native == 'range':
                    a, b, d = (rec.attrs[n] for n in ('start', 'stop', 'step'))
                    if pconst(d) == 1:
                        return and_(self.pure(s, lambda x, y: lt_leaf(x, '<=', y), (a, item)),
                                    self.pure(s, lambda x, y: lt_leaf(x, '<', y), (item, b)))
                r = FALSE
                for g, x in self.iter_items(s, c):
                    r = or_(r, and_(g, self.equals(s, x, item)))
                    if r is TRUE:
                        break
                return r
            raise Unsupported('membership test in %r' % (c,))
        return self.with_leaves(st, cont, go)

    def truth(self, st, v):
        if v is TRUE or v is FALSE:
            return v
        if not has_ref(v):
            if is_bool(v):
                return v
            return self.pure(st, lambda l: UNDEF if l is UNDEF else truth_leaf(l), (v,))

        def go(s, l):
            if type(l) is R:
                rec = s.get(l.oid)
                if self.find_user_method(rec.cls, '__bool__', s) is not None:
                    return self.truth(s, self.call_method(s, l, '__bool__', []))
                if self.find_user_method(rec.cls, '__len__', s) is not None:
                    return self.truth(s, self.call_method(s, l, '__len__', []))
                k = self.native_kind(s, l)
                if k in ('list', 'dict', 'set'):
                    r = FALSE
                    for it in rec.items:
                        r = or_(r, it[0])
                    return r
                if k in ('range', 'bytearray', 'deque'):
                    return self.truth(s, self.length(s, l))
                if rec.cls.fields is not None:
                    return const(bool(rec.cls.fields))
                return TRUE
            return self.resolve(s, truth_leaf(l))
        if type(v) is N:
            # references are truthy unless containers: avoid forking when possible
            return self.with_leaves(st, v, go)
        return go(st, v)

    def e_Lambda(self, st, e, fr):
        return self.make_func(st, e, fr, '<lambda>')

    def e_Starred(self, st, e, fr):
        raise Unsupported('starred expression')

    def e_Await(self, st, e, fr):
        raise Unsupported('await')

    def comp(self, st, e, fr, emit, first=None):
        oid = self.new(st, None, {}).oid
        f = mk(FuncV, name='<comp>', qual=(fr.fn.qual if fr.fn else fr.module.name) + '.<comp>')
        cf = Frame(oid, fr, fr.module, f)
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        cf.locals = names
        cf.clsname = fr.clsname
        cf.owner = fr.owner
        cf.selfv = fr.selfv
        if fr.isclass:
            cf.parent = fr

        def go(s, i):
            if i == len(e.generators):
                emit(s, cf)
                return
            g = e.generators[i]
            it = first if i == 0 and first is not None else self.ev(s, g.iter, fr if i == 0 else cf)

            def body(t, x):
                self.assign(t, g.target, x, cf)

                def conds(u, j):
                    if j == len(g.ifs):
                        go(u, i + 1)
                        return
                    c = self.truth(u, self.ev(u, g.ifs[j], cf))
                    self.branch(u, c, lambda w: conds(w, j + 1), lambda w: None)
                conds(t, 0)
            self.drive_any(s, it, body)
        go(st, 0)
        if not any(isinstance(x, ast.Lambda) for x in ast.walk(e)):
            st.heap.pop(oid, None)

    def drive_any(self, st, it, body):
        if type(it) is N:
            self.drive_alts(st, it, body)
        else:
            self.drive(st, it, body)

    def e_ListComp(self, st, e, fr):
        r = self.new(st, self.ncls('list'), {}, ())

        def emit(s, cf):
            v = self.ev(s, e.elt, cf)
            self.set_items(s, r, s.get(r.oid).items + ((TRUE, v),))
        self.comp(st, e, fr, emit)
        return r

    def e_GeneratorExp(self, st, e, fr):
        first = self.ev(st, e.generators[0].iter, fr)

        def run(s, each):
            self.comp(s, e, fr, lambda t, cf: each(t, self.ev(t, e.elt, cf)), first)
        return self.new_gen(st, run)

    def e_SetComp(self, st, e, fr):
        r = self.new(st, self.ncls('set'), {}, ())
        self.comp(st, e, fr, lambda s, cf: self.dict_set(s, r, self.ev(s, e.elt, cf), NONE))
        return r

    def e_DictComp(self, st, e, fr):
        r = self.new(st, self.ncls('dict'), {}, ())

        def emit(s, cf):
            k = self.ev(s, e.key, cf)
            self.dict_set(s, r, k, self.ev(s, e.value, cf))
        self.comp(st, e, fr, emit)
        return r

    def e_Yield(self, st, e, fr):
        v = NONE if e.value is None else self.ev(st, e.value, fr)
        f = fr
        while f.yields is None:
            f = f.parent
        f.yields(st, v)
        return NONE

    def e_YieldFrom(self, st, e, fr):
        v = self.ev(st, e.value, fr)
        f = fr
        while f.yields is None:
            f = f.parent
        self.drive_any(st, v, lambda s, x: f.yields(s, x))
        return NONE

    # generators: the consumer's code is interpreted at each yield, in the state the generator is in there
    def new_gen(self, st, run, final=False):
        g = self.new(st, self.ncls('generator'), {'state': const('fresh')})
        self.gens[g.oid] = (run, final)
        self.gen_own.add(g.oid)
        return g

    def is_gen(self, st, v):
        return type(v) is R and st.get(v.oid).cls is not None and st.get(v.oid).cls.native == 'generator'

    def drive_gen(self, st, g, body):
        state = st.get(g.oid).attrs['state']
        if type(state) is not C or state.v == 'running':
            raise Unsupported('a generator is consumed in parts')
        if state.v == 'done':
            return
        if state.v == 'listed':
            while st.get(g.oid).items:
                c, x = st.get(g.oid).items[0]
                self.set_items(st, g, st.get(g.oid).items[1:])
                self.guarded(st, c, x, body)
            return
        run, final = self.gens[g.oid]
        self.set_attr_raw(st, g.oid, 'state', const('running'))
        mine, cur = self.sinks, self.cur
        theirs = list(mine)

        def each(s, v):
            inner = self.cur, self.sinks
            self.sinks, self.cur = mine, cur
            try:
                body(s, v)
            except Dead:
                if final:
                    raise Unsupported('a generator with clean-up code is abandoned')
                raise
            finally:
                self.cur, self.sinks = inner
        self.sinks = theirs
        try:
            run(st, each)
        finally:
            self.sinks, self.cur = mine, cur
        self.set_attr_raw(st, g.oid, 'state', const('done'))

    def first_of(self, st, g):
        """the next item of a generator that has not run yet"""
        got = []

        def one(s, x):
            got.append((s.fork(), x))
            raise Dead()
        alive = True
        try:
            self.drive_gen(st, g, one)
        except Dead:
            alive = False
        if alive:
            try:
                self.raise_now(st, 'StopIteration')
            except Dead:
                pass
        if not got:
            raise Dead()
        s2, v = self.merge_all(got)
        st.adopt(s2)
        return v

    def settled(self, st, fn):
        """fn(state) if it neither changes what was there nor raises; None otherwise (and st as before)"""
        s2 = st.fork()
        drop = self.dropped
        self.sinks.append([])
        v = None
        ok = True
        top = self.oid
        try:
            v = fn(s2)
        except Dead:
            ok = False
        except Unsupported:
            ok = False
        finally:
            out = self.sinks.pop()
        if ok and not out and self.dropped is drop:
            for k, r in s2.heap.items():
                if k <= top and k not in self.gen_own and r is not st.heap.get(k, st.base.get(k)):
                    ok = False
                    break
            if ok:
                st.adopt(s2)
                return v
        self.dropped = drop
        return None

    def e_Slice(self, st, e, fr):
        p = [NONE if x is None else self.ev(st, x, fr) for x in (e.lower, e.upper, e.step)]
        return self.new(st, self.ncls('slice'), {'start': p[0], 'stop': p[1], 'step': p[2]})

    def e_Subscript(self, st, e, fr):
        o = self.ev(st, e.value, fr)
        i = self.ev(st, e.slice, fr)
        return self.getitem(st, o, i)

    # -------------------------------------------------------------- calls
    def e_Call(self, st, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return mk(SuperV, cls=self.lex_class(fr), self=self.lex_self(st, fr))
        if isinstance(e.func, ast.Name) and e.func.id in ('locals', 'globals', 'vars') and not e.args:
            raise Unsupported(e.func.id + '()')
        f = self.ev(st, e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                sv = self.ev(st, a.value, fr)
                args += self.unpack(st, sv, None)
            else:
                args.append(self.ev(st, a, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(st, k.value, fr)
                for g, kk, vv in st.get(d.oid).items:
                    if g is not TRUE or type(kk) is not C:
                        raise Unsupported('** of a mapping that is not known')
                    kw[kk.v] = vv
            else:
                kw[k.arg] = self.ev(st, k.value, fr)
        self.cur = (fr.module.path, e.lineno, fr.fn.qual if fr.fn else '<module>')
        r = self.call(st, f, args, kw)
        self.cur = (fr.module.path, e.lineno, fr.fn.qual if fr.fn else '<module>')
        return r

    def lex_class(self, fr):
        f = fr
        while f is not None:
            if f.fn is not None and f.fn.owner is not None:
                return f.fn.owner
            f = f.parent
        raise Unsupported('super() outside a class')

    def lex_self(self, st, fr):
        f = fr
        while f is not None:
            if f.selfv is not None:
                return f.selfv
            f = f.parent
        raise Unsupported('super() without self')

    def call(self, st, f, args, kw):
        t = type(f)
        if t is FuncV:
            return self.call_func(st, f, args, kw)
        if t is Bound:
            return self.call(st, f.func, [f.self] + list(args), kw)
        if t is Native:
            if f.pure:
                if kw:
                    raise Unsupported('keyword arguments to %s' % f.name)
                return self.pure(st, f.fn, args)
            if f.name not in KEEPING:
                for i, x in enumerate(args):
                    if type(x) is N and split_refs(st, x):
                        args = list(args)
                        return self.with_leaves(st, x, lambda s, l: self.call(s, f, args[:i] + [l] + args[i + 1:], kw))
            return f.fn(self, st, args, kw)
        if t is ClassV:
            if f.native is not None and args and type(args[0]) is N and split_refs(st, args[0]):
                return self.with_leaves(st, args[0], lambda s, l: self.instantiate(s, f, [l] + list(args[1:]), kw))
            return self.instantiate(st, f, args, kw)
        if t is StaticV:
            return self.call(st, f.func, args, kw)
        if t is N:
            return self.with_leaves(st, f, lambda s, l: self.call(s, l, args, kw))
        if t is R:
            return self.call_method(st, f, '__call__', args, kw)
        if t is X and f.op == 'raise':
            self.resolve(st, f)
        if t is C or t is T or t is E:
            self.raise_now(st, 'TypeError', const('not callable'))
        if t is X and f.ty != 'any':
            self.raise_now(st, 'TypeError', const('not callable'))
        raise Unsupported('call of %r' % (f,))

    def call_func(self, st, f, args, kw):
        if self.role_hook is not None:
            r = self.role_hook(self, st, f, args, kw)
            if r is not None:
                return r
        return self.run_func(st, f, args, kw)

    def run_func(self, st, f, args, kw):
        self.depth += 1
        self.calls_seen += 1
        if self.depth > 90:
            self.depth -= 1
            raise Unsupported('recursion too deep in %s' % f.qual)
        self.funcs_seen[(f.module.path, f.qual)] = 1
        saved = self.cur
        self.locstack.append((saved, f.qual))
        try:
            vars_ = self.bind(st, f, args, kw)
            oid = self.new(st, None, vars_).oid
            fr = Frame(oid, f.lex, f.module, f)
            fr.locals, fr.globals, fr.nonlocals = f.locals, f.globals, f.nonlocals
            fr.clsname = f.clsname
            if args:
                fr.selfv = args[0]
            if f.isgen:
                self.gen_own.add(oid)
                return self.new_gen(st, lambda s, each: self.run_gen(s, f, fr, each), self.has_final(f.node))
            node = f.node
            if isinstance(node, ast.Lambda):
                v = self.ev(st, node.body, fr)
                st.heap.pop(oid, None)
                return v
            try:
                self.exec_block(st, node.body, fr)
                fr.returns.append((st.fork() if fr.returns else st, NONE))
            except Dead:
                pass
            if not fr.returns:
                raise Dead()
            s2, v = self.merge_all(fr.returns)
            st.adopt(s2)
            if not f.captures:
                st.heap.pop(oid, None)
            return v
        finally:
            self.depth -= 1
            self.cur = saved
            self.locstack.pop()

    def has_final(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Try) and n.finalbody or isinstance(n, ast.With):
                if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(n)):
                    return True
        return False

    def run_gen(self, st, f, fr, each):
        self.depth += 1
        if self.depth > 90:
            self.depth -= 1
            raise Unsupported('recursion too deep in %s' % f.qual)
        self.locstack.append((self.cur, f.qual))
        saved = fr.yields
        fr.yields = each
        try:
            try:
                self.exec_block(st, f.node.body, fr)
                fr.returns.append((st.fork() if fr.returns else st, NONE))
            except Dead:
                pass
            if not fr.returns:
                raise Dead()
            s2, v = self.merge_all(fr.returns)
            st.adopt(s2)
        finally:
            fr.yields = saved
            self.depth -= 1
            self.locstack.pop()

    def bind(self, st, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        kw = dict(kw)
        out = {}
        n = len(pos)
        for i, v in enumerate(args[:n]):
            out[pos[i]] = v
        if len(args) > n:
            if not a.vararg:
                self.raise_now(st, 'TypeError', const('%s() takes %d positional arguments' % (f.name, n)))
        if a.vararg:
            out[a.vararg.arg] = tup(args[n:])
        for k in list(kw):
            if k in pos and k not in [x.arg for x in a.posonlyargs]:
                if k in out:
                    self.raise_now(st, 'TypeError', const('multiple values for ' + k))
                out[k] = kw.pop(k)
        nd = len(f.defaults)
        for i, nm in enumerate(pos):
            if nm not in out:
                j = i - (n - nd)
                if j >= 0:
                    out[nm] = f.defaults[j]
                else:
                    self.raise_now(st, 'TypeError', const('missing argument ' + nm))
        for x, d in zip(a.kwonlyargs, f.kwdefaults):
            if x.arg in kw:
                out[x.arg] = kw.pop(x.arg)
            elif d is not None:
                out[x.arg] = d
            else:
                self.raise_now(st, 'TypeError', const('missing argument ' + x.arg))
        if a.kwarg:
            d = self.new(st, self.ncls('dict'), {}, tuple((TRUE, const(k), v) for k, v in kw.items()))
            out[a.kwarg.arg] = d
        elif kw:
            self.raise_now(st, 'TypeError', const('unexpected keyword ' + next(iter(kw))))
        return out

    def instantiate(self, st, cls, args, kw):
        if cls.is_enum and cls.members is not None:
            return self.natives.enum_call(self, st, cls, args, kw)
        new = self.find_user_method(cls, '__new__', st)
        if new is not None and cls.native is None:
            r = self.call(st, new.func if type(new) is StaticV else new, [cls] + list(args), kw)
            if type(r) is not R or st.get(r.oid).cls is not cls:
                return r
        else:
            r = self.natives.construct(self, st, cls, args, kw)
        if cls.native is None:
            init = self.class_attr(st, cls, '__init__')
            if init is not None and type(init) is FuncV:
                self.call(st, init, [r] + list(args), kw)
            elif init is not None:
                self.call(st, init, [r] + list(args), kw)
        return r

    def class_attr(self, st, cls, name, start=None):
        mro = cls.mro
        if start is not None:
            mro = mro[mro.index(start) + 1:]
        for c in mro:
            if c.oid is not None:
                v = st.get(c.oid).attrs.get(name)
                if v is not None:
                    return v
            if c.native is not None:
                m = self.natives.method(self, c.native, name)
                if m is not None:
                    return m
        return None

    def find_user_method(self, cls, name, st):
        for c in cls.mro:
            if c.native is None and c.oid is not None:
                v = st.get(c.oid).attrs.get(name)
                if v is not None:
                    return v
        return None

    def native_kind(self, st, r):
        """'list' / 'dict' / 'set' / ... container behaviour of a reference"""
        cls = st.get(r.oid).cls
        if cls is None:
            return None
        for c in cls.mro:
            if c.native in ('list', 'deque', 'dictview'):
                return 'list'
            if c.native in ('dict', 'OrderedDict', 'defaultdict', 'Counter'):
                return 'dict'
            if c.native in ('set', 'frozenset'):
                return 'set'
            if c.native and c.native != 'object':
                return c.native
        return None

    def call_method(self, st, o, name, args, kw=None):
        f = self.get_attr(st, o, name)
        return self.call(st, f, list(args), kw or {})

    # -------------------------------------------------------------- attributes
    def simple_attr(self, st, v, name):
        if type(v) is R:
            x = st.get(v.oid).attrs.get(name)
            if x is not None and not has_undef(x) and st.get(v.oid).cls is not None and st.get(v.oid).cls.native is None:
                ca = self.class_attr(st, st.get(v.oid).cls, name)
                if type(ca) is PropV:
                    return None
                return x
        return None

    REAL = {'IOBase': io.BytesIO, 'BytesIO': io.BytesIO, 'FileIO': io.BufferedReader, 'count': itertools.count, 'array': array.array,
            'iterator': type(iter([])), 'generator': type(x for x in ()), 'deque': collections.deque,
            'OrderedDict': collections.OrderedDict, 'defaultdict': collections.defaultdict, 'Counter': collections.Counter,
            'datetime': datetime.datetime, 'timedelta': datetime.timedelta, 'StructT': struct.Struct,
            'IPv4Address': ipaddress.IPv4Address, 'IPv6Address': ipaddress.IPv6Address, 'memoryview': memoryview}

    def real_attr(self, cls, name):
        """whether objects of a class of the standard library have an attribute this analysis has no model of"""
        for c in cls.mro:
            if not c.native or c.native == 'object':
                continue
            t = self.REAL.get(c.native) or getattr(builtins, c.native, None)
            if not isinstance(t, type):
                return True
            if hasattr(t, name):
                return True
        return False

    def get_attr(self, st, v, name, default=None):
        t = type(v)
        if t is N:
            ls = leaves(v, st.guard)
            if len(ls) == 1:
                return self.get_attr(st, ls[0][0], name, default)
            vals = [self.simple_attr(st, l, name) for l, _ in ls]
            if all(x is not None for x in vals):
                r = vals[0]
                for (l, c), x in list(zip(ls, vals))[1:]:
                    r = ite(c, x, r)
                return r
            if all(type(l) in (C, X) for l, _ in ls):
                tys = {ty_of(l) for l, _ in ls}
                if len(tys) == 1 and (next(iter(tys)), name) in self.natives.SIMPLE:
                    return bound(v, self.natives.METHODS[(next(iter(tys)), name)])
            return self.with_leaves(st, v, lambda s, l: self.get_attr(s, l, name, default))
        if t is R:
            rec = st.get(v.oid)
            cls = rec.cls
            if cls.native == 'dictview' and name not in ('__iter__', '__len__', '__contains__', '__reversed__', '__class__', 'isdisjoint'):
                if default is not None:
                    return default
                self.raise_now(st, 'AttributeError', const(name))
            if cls.native is None and self.find_user_method(cls, '__getattribute__', st) is not None:
                raise Unsupported('%s.__getattribute__ is not modelled' % cls.name)
            ca = self.class_attr(st, cls, name)
            if type(ca) is PropV:
                return self.or_default(st, default, lambda s: self.call(s, ca.fget, [v], {}))
            if type(ca) is R and self.descriptor(st, ca, '__set__') is not None:
                return self.or_default(st, default, lambda s: self.bind_attr(ca, v, cls, s))
            x = rec.attrs.get(name) if (cls.native is None or cls.native in ('object',) or name in
                                        self.natives.VISIBLE.get(cls.native, ())) else None
            if x is not None:
                if has_undef(x):
                    x = self.strip_undef(st, x, name, 'AttributeError')
                return x
            if ca is not None:
                return self.or_default(st, default, lambda s: self.bind_attr(ca, v, cls, s)) if type(ca) is R else \
                    self.bind_attr(ca, v, cls)
            if name == '__class__':
                return cls
            if name == '__dict__':
                return self.new(st, self.ncls('dict'), {'$owner': v}, tuple(
                    (TRUE, const(k), x) for k, x in rec.attrs.items() if not k.startswith('$')))
            if cls.fields is not None and name in ('_fields', '_asdict', '_replace'):
                return self.natives.nt_attr(self, st, v, name)
            ga = self.find_user_method(cls, '__getattr__', st)
            if ga is not None:
                return self.or_default(st, default, lambda s: self.call(s, ga, [v, const(name)], {}))
            if self.real_attr(cls, name):
                raise Unsupported('attribute %s of %s is not modelled' % (name, cls.name))
            if default is not None:
                return default
            self.raise_now(st, 'AttributeError', const(name))
        if t is Native:
            if name == 'from_iterable' and v.name == 'chain':
                from . import nat_mod
                return mk(Native, name='from_iterable', fn=nat_mod.chain_from)
            if name in ('__name__', '__qualname__'):
                return const(v.name)
            raise Unsupported('attribute %s of %s' % (name, v.name))
        if t is ModV:
            x = self.mod_attr(st, v, name)
            if x is None:
                if default is not None:
                    return default
                if v.native is not None or not self.known(v.name):
                    raise Unsupported('%s.%s is not modelled' % (v.name, name))
                self.raise_now(st, 'AttributeError', const(name))
            return x
        if t is ClassV:
            if v.is_enum and v.byname and name in v.byname:
                return v.byname[name]
            if name == '__name__' or name == '__qualname__':
                return const(v.name)
            if name == '__mro__':
                return tup(v.mro)
            if name == '__bases__':
                return tup(v.bases)
            if name == '__members__' and v.is_enum:
                return self.new(st, self.ncls('dict'), {}, tuple((TRUE, const(k), m) for k, m in v.byname.items()))
            if name == '__module__':
                return const(v.module.name if v.module else '')
            if name == '__dict__':
                rec = st.get(v.oid)
                return self.new(st, self.ncls('dict'), {}, tuple((TRUE, const(k), x) for k, x in rec.attrs.items()))
            x = self.class_attr(st, v, name)
            if x is not None:
                if type(x) is StaticV:
                    return bound(v, x.func) if x.kind == 'class' else x.func
                if type(x) is Native and name in ('fromkeys', 'from_bytes', 'fromhex', 'maketrans', '_make'):
                    return bound(v, x)
                return x
            x = self.natives.class_extra(self, st, v, name)
            if x is not None:
                return x
            if default is not None:
                return default
            self.raise_now(st, 'AttributeError', const(name))
        if t is SuperV:
            cls = self.cls_of(st, v.self) if type(v.self) is not ClassV else v.self
            x = self.class_attr(st, cls, name, start=v.cls)
            if x is None:
                if default is not None:
                    return default
                self.raise_now(st, 'AttributeError', const(name))
            if type(x) is PropV:
                return self.call(st, x.fget, [v.self], {})
            if type(x) is StaticV:
                return bound(v.self, x.func) if x.kind == 'class' else x.func
            if name == '__new__':
                return x
            return bound(v.self, x)
        if t is E:
            if name == 'name' or name == '_name_':
                return const(v.name)
            if name == 'value' or name == '_value_':
                return v.value
            if name == '__class__':
                return v.cls
            x = self.class_attr(st, v.cls, name)
            if x is not None:
                if type(x) is PropV:
                    return self.call(st, x.fget, [v], {})
                return self.bind_attr(x, v, v.cls)
            if v.cls.is_int:
                m = self.natives.method(self, 'int', name)
                if m is not None:
                    return bound(v.value, m)
            if default is not None:
                return default
            self.raise_now(st, 'AttributeError', const(name))
        if t is FuncV:
            if name == '__name__':
                return const(v.name)
            if name == '__doc__':
                return NONE
            if v.oid is not None:
                x = st.get(v.oid).attrs.get(name)
                if x is not None:
                    return x
            if name == '__annotations__':
                f = v.lex if isinstance(v.lex, Frame) else Frame(v.module.oid, None, v.module)
                aa = v.node.args
                return self.new(st, self.ncls('dict'), {}, tuple(
                    (TRUE, const(x.arg), self.ev(st, x.annotation, f)) for x in aa.posonlyargs + aa.args + aa.kwonlyargs
                    if x.annotation is not None))
            if default is not None:
                return default
            if name in ('__wrapped__', '__module__', '__qualname__'):
                return const(v.name)
            self.raise_now(st, 'AttributeError', const(name))
        if t is Bound and name == '__self__':
            return v.self
        if t is Bound and name in ('__name__', '__func__'):
            return const(getattr(v.func, 'name', '')) if name == '__name__' else v.func
        if t is PropV:
            if name == 'setter':
                return mk(Native, name='property.setter',
                          fn=lambda it, s, a, k: mk(PropV, fget=v.fget, fset=a[0], fdel=v.fdel))
            if name == 'getter':
                return mk(Native, name='property.getter',
                          fn=lambda it, s, a, k: mk(PropV, fget=a[0], fset=v.fset, fdel=v.fdel))
            if name == 'deleter':
                return mk(Native, name='property.deleter',
                          fn=lambda it, s, a, k: mk(PropV, fget=v.fget, fset=v.fset, fdel=a[0]))
            if name == 'fget':
                return v.fget
        if v is UNDEF:
            return UNDEF
        if t is X and v.op == 'raise':
            self.resolve(st, v)
        # scalars
        cls = self.cls_of(st, v)
        if name == '__class__':
            return cls
        x = self.natives.scalar_attr(self, st, v, name)
        if x is not None:
            return x
        for c in cls.mro:
            if c.native:
                m = self.natives.method(self, c.native, name)
                if m is not None:
                    return bound(v, m)
        if default is not None:
            return default
        if t is X and v.ty in ('any',):
            raise Unsupported('attribute %s of an unknown value' % name)
        if t is X and name in dir({'str': '', 'bytes': b'', 'int': 0, 'float': 0.0}.get(v.ty)) or \
                t is C and hasattr(v.v, name):
            raise Unsupported('method %s.%s is not modelled' % (ty_of(v), name))
        self.raise_now(st, 'AttributeError', const(name))

    def or_default(self, st, default, fn):
        """fn(st), with default instead of an AttributeError it raises (None: no default)"""
        if default is None:
            return fn(st)
        self.sinks.append([])
        outs = []
        try:
            v = fn(st)
            outs.append((st.fork(), v))
        except Dead:
            pass
        finally:
            caught = self.sinks.pop()
        ae = self.ncls('AttributeError')
        for t, e in caught:
            if ae in self.cls_of(t, e).mro:
                outs.append((t, default))
            else:
                self.sinks[-1].append((t, e))
        if not outs:
            raise Dead()
        s2, v = self.merge_all(outs)
        st.adopt(s2)
        return v

    def descriptor(self, st, x, name):
        c = st.get(x.oid).cls
        if c is None:
            return None
        if c.native == 'cached' and name == '__get__':
            return c
        return self.find_user_method(c, name, st)

    def bind_attr(self, ca, v, cls, st=None):
        t = type(ca)
        if t is R and st is not None:
            d = self.descriptor(st, ca, '__get__')
            if d is None:
                return ca
            if type(d) is ClassV:
                return bound(v, mk(Native, name='cached', fn=lambda it, s, a, k: self.call(s, ca, list(a), k)))
            return self.call(st, d, [ca, v, cls], {})
        if t is FuncV or t is Native:
            return bound(v, ca)
        if t is StaticV:
            return bound(cls, ca.func) if ca.kind == 'class' else ca.func
        return ca

    def set_attr(self, st, o, name, v):
        def go(s, l):
            if type(l) is R:
                rec = s.get(l.oid)
                ca = self.class_attr(s, rec.cls, name)
                if type(ca) is PropV:
                    if ca.fset is None:
                        self.raise_now(s, 'AttributeError', const(name))
                    self.call(s, ca.fset, [l, v], {})
                    return NONE
                if type(ca) is R:
                    d = self.descriptor(s, ca, '__set__')
                    if d is not None:
                        self.call(s, d, [ca, l, v], {})
                        return NONE
                sa = self.find_user_method(rec.cls, '__setattr__', s)
                if sa is not None:
                    self.call(s, sa, [l, const(name), v], {})
                    return NONE
                self.set_attr_raw(s, l.oid, name, v)
                self.log_store((rec.cls.name, name))
            elif type(l) is ClassV:
                self.set_attr_raw(s, l.oid, name, v)
                self.log_store((l.name, name))
            elif type(l) is ModV:
                self.set_attr_raw(s, l.oid, name, v)
            elif type(l) is FuncV:
                if l.oid is None:
                    l.oid = self.new(s, None, {}).oid
                self.set_attr_raw(s, l.oid, name, v)
            else:
                self.raise_now(s, 'AttributeError', const(name))
            return NONE
        self.with_leaves(st, o, go)

    # -------------------------------------------------------------- items
    def dict_lookup(self, st, d, key):
        """(presence condition, value) of key in dict/set reference d"""
        pres, val = FALSE, UNDEF
        for g, k, v in st.get(d.oid).items:
            if g is TRUE and k is key:
                e = TRUE
            elif type(k) is C and type(key) is C:
                e = const(k.v == key.v) if type(k.v) is not type(key.v) else FALSE
                if k is key:
                    e = TRUE
            else:
                e = self.equals(st, k, key)
            if e is FALSE:
                continue
            c = and_(g, e)
            pres = or_(pres, c)
            val = v if val is UNDEF else ite(c, v, val)
        return pres, val

    def dict_set(self, st, d, key, v):
        items = st.get(d.oid).items
        if type(key) is C and (type(key.v) is str):
            self.log_store(('key', key.v))
        elif type(key) is not C:
            self.log_store(('key', None))
        for i, (g, k, old) in enumerate(items):
            if g is TRUE and k is key:
                self.set_items(st, d, items[:i] + ((g, k, v),) + items[i + 1:])
                return
        if type(key) is R and self.find_user_method(st.get(key.oid).cls, '__hash__', st) is None and \
                self.native_kind(st, key) in ('list', 'dict', 'set'):
            self.raise_now(st, 'TypeError', const('unhashable'))
        out = []
        seen = FALSE
        for g, k, old in items:
            if type(k) is C and type(key) is C and type(k.v) is type(key.v) and k is not key:
                out.append((g, k, old))
                continue
            e = self.equals(st, k, key) if k is not key else TRUE
            if e is FALSE:
                out.append((g, k, old))
                continue
            c = and_(g, e)
            seen = or_(seen, c)
            out.append((g, k, self.merge_val(c, v, old)))
        ng = not_(seen)
        if ng is not FALSE:
            out.append((ng, key, v))
        self.set_items(st, d, tuple(out))

    def dict_del(self, st, d, key, must=True):
        pres, val = self.dict_lookup(st, d, key)
        if must:
            self.check(st, pres, 'KeyError', key)
        out = []
        for g, k, old in st.get(d.oid).items:
            e = self.equals(st, k, key)
            g2 = and_(g, not_(e))
            if g2 is not FALSE:
                out.append((g2, k, old))
        self.set_items(st, d, tuple(out))
        return pres, val

    def setitem(self, st, o, i, v):
        def go(s, l):
            if type(l) is R:
                rec = s.get(l.oid)
                um = self.find_user_method(rec.cls, '__setitem__', s)
                if um is not None:
                    self.call(s, um, [l, i, v], {})
                    return NONE
                k = self.native_kind(s, l)
                if k == 'dict':
                    self.dict_set(s, l, i, v)
                    return NONE
                if k == 'list':
                    self.natives.list_set(self, s, l, i, v)
                    return NONE
                if k == 'bytearray':
                    return self.natives.bytearray_set(self, s, l, i, v)
            self.raise_now(s, 'TypeError', const('item assignment'))
        self.with_leaves(st, o, go)

    def delitem(self, st, o, i):
        def go(s, l):
            if type(l) is R:
                um = self.find_user_method(s.get(l.oid).cls, '__delitem__', s)
                if um is not None:
                    self.call(s, um, [l, i], {})
                    return NONE
                k = self.native_kind(s, l)
                if k == 'dict':
                    self.dict_del(s, l, i)
                    return NONE
                if k == 'list':
                    self.natives.list_del(self, s, l, i)
                    return NONE
            raise Unsupported('del item')
        self.with_leaves(st, o, go)

    def getitem(self, st, o, i):
        if type(o) is N and all(type(l) in (X, C) for l, _ in leaves(o)):
            return self.natives.scalar_item(self, st, o, i)

        def go(s, l):
            t = type(l)
            if t is R:
                rec = s.get(l.oid)
                um = self.find_user_method(rec.cls, '__getitem__', s)
                if um is not None:
                    return self.call(s, um, [l, i], {})
                k = self.native_kind(s, l)
                if rec.cls.native == 'dictview':
                    self.raise_now(s, 'TypeError', const('not subscriptable'))
                if k == 'dict':
                    pres, val = self.dict_lookup(s, l, i)
                    miss = self.class_attr(s, rec.cls, '__missing__')
                    df = rec.attrs.get('default_factory')
                    if df is not None and df is not NONE:
                        def mkdef(u):
                            nv = self.call(u, df, [], {})
                            self.dict_set(u, l, i, nv)
                            return nv
                        return self.branch(s, pres, lambda u: val, mkdef)
                    if miss is not None:
                        return self.branch(s, pres, lambda u: val, lambda u: self.call(u, miss, [l, i], {}))
                    self.check(s, pres, 'KeyError', i)
                    return self.clean(s, val, pres)
                return self.natives.ref_item(self, s, l, i)
            if t is T:
                return self.natives.seq_item(self, s, l, i)
            if t is ClassV:
                if l.is_enum:
                    return self.natives.enum_byname(self, s, l, i)
                return l
            if t in (C, X):
                return self.natives.scalar_item(self, s, l, i)
            self.raise_now(s, 'TypeError', const('not subscriptable'))
        return self.with_leaves(st, o, go)

    def clean(self, st, v, c):
        """value v known to be meaningful only under c"""
        if type(v) is N and has_undef(v):
            return constrain(v, c)
        return v

    def length(self, st, v):
        return self.natives.length(self, st, v)

    def live_items(self, st, r):
        return tuple((g2, v) for g2, v in ((self.under(st, g), v) for g, v in st.get(r.oid).items) if g2 is not FALSE)

    # -------------------------------------------------------------- iteration
    def iter_items(self, st, v):
        """guarded elements of an iterable"""
        t = type(v)
        if t is N:
            out = []
            ls = leaves(v, st.guard)
            if len(ls) == 1:
                return self.iter_items(st, ls[0][0])
            seqs = [(c, self.iter_items(st, l)) for l, c in ls]
            # zip alternatives of equal shape
            items = ()
            first = True
            for c, s in seqs:
                s = tuple(s)
                if first:
                    items, first = s, False
                else:
                    items = self.merge_items(c, s, items)
            return list(items)
        if t is T:
            return [(TRUE, x) for x in v.items]
        if t is C and isinstance(v.v, str):
            return [(TRUE, const(ch)) for ch in v.v]
        if t is C and isinstance(v.v, bytes):
            return [(TRUE, const(b)) for b in v.v]
        if t is X and v.ty == 'bytes':
            n = pconst(blen(v))
            if n is None:
                raise Unsupported('iteration over bytes of unknown length')
            return [(TRUE, self.natives.byte_at(v, const(i))) for i in range(n)]
        if t is X and v.ty == 'list':
            return self.natives.sym_items(self, st, v)
        if t is X and v.ty == 'str':
            raise Unsupported('iteration over unknown text')
        if t is ClassV and v.is_enum:
            return [(TRUE, m) for m in v.members]
        if t is R:
            rec = st.get(v.oid)
            if rec.cls.fields is not None and rec.cls.native is None or rec.cls.native == 'namedtuple':
                if rec.cls.fields is not None:
                    return [(TRUE, rec.attrs[f]) for f in rec.cls.fields]
            if self.find_user_method(rec.cls, '__iter__', st) is None:
                k = self.native_kind(st, v)
                if k == 'list':
                    return list(rec.items)
                if k in ('dict', 'set'):
                    return [(g, kk) for g, kk, _ in rec.items]
                if k == 'range':
                    return self.natives.range_items(self, st, v)
                if k == 'iterator' and (rec.attrs.get('src') in (None, NONE)):
                    self.set_items(st, v, ())
                    return list(rec.items)
                if k == 'bytearray':
                    return self.iter_items(st, rec.attrs['data'])
                if k == 'array':
                    return self.iter_items(st, rec.attrs['list'])
            if self.find_user_method(rec.cls, '__iter__', st) is None and self.find_user_method(rec.cls, '__getitem__', st) is None \
                    and 'pos' in rec.attrs and 'content' in rec.attrs:
                raise Unsupported('iteration over %s' % rec.cls.name)
            tmp = self.new(st, self.ncls('list'), {}, ())

            def body(s, x):
                self.set_items(s, tmp, s.get(tmp.oid).items + ((TRUE, x),))
            self.drive(st, v, body)
            return list(st.get(tmp.oid).items)
        if t is X and v.op == 'raise':
            self.resolve(st, v)
        if t is C or t is E or t is X and v.ty in ('int', 'bool', 'float'):
            self.raise_now(st, 'TypeError', const('not iterable'))
        raise Unsupported('iteration over %r' % (v,))

    # -------------------------------------------------------------- freezing
    def freeze(self, st, v, depth=0, seen=()):
        """immutable structural image of a value in a state"""
        t = type(v)
        if depth > 12:
            return opaque('deep')
        if t is N:
            if not has_ref(v):
                return v
            return map_leaves(v, lambda l: self.freeze(st, l, depth, seen))
        if t is T:
            if not has_ref(v):
                return v
            return tup(self.freeze(st, i, depth + 1, seen) for i in v.items)
        if t is R:
            if v.oid in seen:
                return term('cycle', (len(seen) - seen.index(v.oid),), 'obj')
            seen = seen + (v.oid,)
            rec = st.get(v.oid)
            k = self.native_kind(st, v)
            if k == 'list':
                return term('flist', tuple((g, self.freeze(st, x, depth + 1, seen)) for g, x in rec.items), 'list')
            if k == 'dict':
                return term('fdict', tuple((g, self.freeze(st, kk, depth + 1, seen), self.freeze(st, x, depth + 1, seen))
                                           for g, kk, x in rec.items), 'dict')
            if k == 'set':
                return term('fset', tuple(sorted(((g, self.freeze(st, kk, depth + 1, seen)) for g, kk, _ in rec.items),
                                                 key=lambda p: p[1].id)), 'set')
            if k == 'bytearray':
                return rec.attrs['data']
            if k == 'range':
                return term('flist', tuple(self.iter_items(st, v)), 'list')
            if rec.cls.fields is not None:
                return tup(self.freeze(st, rec.attrs[f], depth + 1, seen) for f in rec.cls.fields)
            return term('fobj', (rec.cls.name, tuple(
                (n, self.freeze(st, x, depth + 1, seen)) for n, x in sorted(rec.attrs.items()))), 'obj')
        return v


def lt_gt(n, i):
    """length value n > i"""
    return apply(lambda l: cmp_zero(padd(l, const(-i)), '>'), (n,))


_hasop = {}


def has_op(v, op):
    if type(v) is X:
        return v.op == op
    if type(v) is not N:
        return False
    k = (v, op)
    r = _hasop.get(k)
    if r is None:
        r = any(has_op(chs[0], op) for _, chs in split_on(v.var, (v,)))
        _hasop[k] = r
    return r


def strip_op(v, op):
    bad = FALSE
    for lf, c in leaves(v):
        if type(lf) is X and lf.op == op:
            bad = or_(bad, c)
    return constrain(v, not_(bad))


_hasref = {}


# natives that store an argument as it is
KEEPING = frozenset(('append', 'insert', 'add', 'setdefault', 'setattr', '__setattr__', '__setitem__', 'appendleft', 'get', 'pop',
                     'isinstance', 'hasattr', 'getattr', 'type', 'print', 'field', 'warn'))


_optional = {}


def narrowed(v, guard):
    """a value that may be None, given what has been tested"""
    opt = _optional.get(v)
    if opt is None:
        opt = _optional[v] = nodes(v, 600) < 600 and any(lf is NONE for lf in tips(v))
    return constrain(v, guard) if opt and nodes(guard, 600) < 600 else v


_nodes = {}


def nodes(v, limit):
    n = _nodes.get(v)
    if n is None:
        seen = set()
        stack = [v]
        while stack and len(seen) < limit:
            x = stack.pop()
            if type(x) is N and x not in seen:
                seen.add(x)
                stack.extend(ch for _, ch in x.cases)
                if x.default is not None:
                    stack.append(x.default)
        n = _nodes[v] = len(seen)
    return n


def tips(v):
    seen = set()
    stack = [v]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen.add(x)
        if type(x) is N:
            stack.extend(ch for _, ch in x.cases)
            if x.default is not None:
                stack.append(x.default)
        else:
            yield x


def split_refs(st, v):
    """whether v stands for a few different containers"""
    if not has_ref(v):
        return False
    ls = leaves(v, st.guard)
    return len(ls) <= 8 and any(type(l) in (R, T) for l, _ in ls)


def has_ref(v):
    t = type(v)
    if t is R:
        return True
    if t is C or t is X or t is E:
        return False
    if t is T:
        r = _hasref.get(v)
        if r is None:
            r = any(has_ref(i) for i in v.items)
            _hasref[v] = r
        return r
    if t is N:
        r = _hasref.get(v)
        if r is None:
            r = any(has_ref(chs[0]) for _, chs in split_on(v.var, (v,)))
            _hasref[v] = r
        return r
    return False


def has_enumflag(v):
    return False


_isbool = {}


def is_bool(v):
    if v is TRUE or v is FALSE:
        return True
    if type(v) is N:
        r = _isbool.get(v)
        if r is None:
            r = all(is_bool(chs[0]) for _, chs in split_on(v.var, (v,)))
            _isbool[v] = r
        return r
    return False


def c3(seqs):
    res = []
    seqs = [list(s) for s in seqs if s]
    while seqs:
        for s in seqs:
            c = s[0]
            if not any(c in t[1:] for t in seqs):
                break
        else:
            raise Unsupported('inconsistent class hierarchy')
        res.append(c)
        for s in seqs:
            if s[0] is c:
                del s[0]
        seqs = [s for s in seqs if s]
    return res
