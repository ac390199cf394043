"""Containers: lists, dictionaries, sets, byte strings, ranges, slices."""
from .natives import *
from .natives import nmethod, native, ctor, ncls, METHODS, NOTIMPL
from . import natives as nv


def LEN(v):
    return term('app', ('len', v), 'int', 0)


def elem_ty(seq):
    if type(seq) is X and seq.op == 'app' and seq.args[0] in ('str.split', 'str.rsplit', 'str.splitlines'):
        return 'str'
    if type(seq) is X and seq.op in ('multisz',):
        return 'str'
    return 'any'


def strided(seq):
    """(sequence, first, step) of a slice from a fixed start to the end"""
    if type(seq) is X and seq.op == 'app' and seq.args[0] == 'slicestep':
        _, v, a, b, d = seq.args
        a, d = ZERO if a is NONE else a, const(1) if d is NONE else d
        if b is NONE and type(v) is X and ty_of(v) in ('list', 'any') and pconst(a) is not None and pconst(a) >= 0 and \
                pconst(d) is not None and pconst(d) > 0:
            return v, pconst(a), pconst(d)
    return None


def sym_elem(it, seq, idx):
    if type(seq) is X and seq.op == 'listslice':
        base, off, n = seq.args
        return sym_elem(it, base, padd(off, idx))
    r = strided(seq)
    if r is not None:
        return sym_elem(it, r[0], padd(const(r[1]), pmul(idx, const(r[2]))))
    return app('item', (seq, idx), elem_ty(seq))


def sym_items(it, st, seq):
    out = []
    if type(seq) is X and strided(seq) is not None:
        base, a, d = strided(seq)
        m = seq_len(base)
        for i in range(it.K):
            out.append((cmp_zero(padd(m, const(-a - d * i)), '>'), sym_elem(it, seq, const(i))))
        it.dropped = or_(it.dropped, and_(st.guard, cmp_zero(padd(m, const(-a - d * it.K)), '>')))
        return out
    n = LEN(seq)
    for i in range(it.K):
        out.append((cmp_zero(padd(n, const(-i)), '>'), sym_elem(it, seq, const(i))))
    it.dropped = or_(it.dropped, and_(st.guard, cmp_zero(padd(n, const(-it.K)), '>')))
    return out


def raw_items(it, st, v):
    if type(v) is R:
        rec = st.get(v.oid)
        if rec.cls.fields is not None and rec.items is None:
            return tuple((TRUE, rec.attrs[f]) for f in rec.cls.fields)
        if rec.items is not None:
            return tuple((e[0], e[1]) for e in rec.items)
    return tuple(it.iter_items(st, v))


def native_contains(it, st, c, x):
    if type(c) is R:
        k = it.native_kind(st, c)
        if k in ('dict', 'set'):
            return it.dict_lookup(st, c, x)[0]
        r = FALSE
        for g, y in raw_items(it, st, c):
            r = or_(r, and_(g, it.equals(st, y, x)))
        return r
    return it.contains(st, c, x)


# ------------------------------------------------------------------ length

def length(it, st, v):
    def go(s, l):
        t = type(l)
        if t is C and isinstance(l.v, (str, bytes)):
            return const(len(l.v))
        if t is T:
            return const(len(l.items))
        if t is X:
            if l.op == 'raise':
                it.resolve(s, l)
            if l.ty == 'bytes':
                return blen(l)
            if l.ty == 'str':
                return nv.nat_str.str_len(l)
            if l.ty in ('list', 'dict', 'any'):
                return seq_len(l)
        if t is ClassV and l.is_enum:
            return const(len(l.members))
        if t is R:
            rec = s.get(l.oid)
            if it.find_user_method(rec.cls, '__len__', s) is not None:
                return it.call_method(s, l, '__len__', [])
            if rec.cls.fields is not None:
                return const(len(rec.cls.fields))
            k = it.native_kind(s, l)
            if k in ('list', 'dict', 'set'):
                return items_len(rec.items)
            if k == 'bytearray':
                return blen_v(rec.attrs['data'])
            if k == 'memoryview':
                return blen_v(rec.attrs['data'])
            if k == 'range':
                a, b, d = (rec.attrs[n] for n in ('start', 'stop', 'step'))
                if pconst(d) == 1:
                    return it.pure(s, lambda x, y: ite(cmp_zero(padd(y, x, -1), '>'), padd(y, x, -1), ZERO), (a, b))
                if all(pconst(x) is not None for x in (a, b, d)):
                    return const(len(range(pconst(a), pconst(b), pconst(d))))
        if t is X and l.ty == 'undef':
            return l
        if t is R or t is X and l.ty == 'any':
            raise Unsupported('len of %r' % (l,))
        it.raise_now(s, 'TypeError', const('no len()'))
    if type(v) is N and not has_ref(v):
        return it.with_leaves(st, v, go)
    return it.with_leaves(st, v, go)


def seq_len(l):
    if l.op == 'listslice':
        return l.args[2]
    r = strided(l)
    if r is not None:
        n = padd(seq_len(r[0]), const(r[2] - 1 - r[1]))
        return apply(lambda x: ite(cmp_zero(x, '<'), ZERO, binop('//', x, const(r[2]))), (n,))
    return LEN(l)


def blen_v(v):
    return apply(blen, (v,))


def items_len(items):
    n = ZERO
    k = 0
    for e in items:
        if e[0] is TRUE:
            k += 1
        else:
            n = apply(lambda x, c: padd(x, const(1)) if c is TRUE else x, (n, e[0]))
    return apply(lambda x: padd(x, const(k)), (n,))


def gseq_at_p(items, i):
    """(value, presence) of the i-th present element"""
    items = list(items)
    if all(e[0] is TRUE for e in items[:i + 1]):
        if i < len(items):
            return items[i][1], TRUE
        return UNDEF, FALSE
    # cnt[k]: condition that exactly k elements precede
    cnt = [TRUE] + [FALSE] * i
    val, pres = UNDEF, FALSE
    for e in items:
        g, v = e[0], e[1]
        c = and_(cnt[i], g)
        if c is not FALSE:
            val = v if val is UNDEF else ite(c, v, val)
            pres = or_(pres, c)
        ng = not_(g)
        for k in range(i, -1, -1):
            cnt[k] = or_(and_(cnt[k], ng), and_(cnt[k - 1], g) if k else FALSE)
    return val, pres


def gseq_at(items, i):
    return gseq_at_p(items, i)[0]


# ------------------------------------------------------------------ bytes

def byte_at(v, i):
    return le_of(sub(v, i, const(1)), 1)


def to_bytes(it, st, v):
    """bytes value of a bytes-like or iterable of ints"""
    if type(v) is R:
        k = it.native_kind(st, v)
        if k in ('bytearray', 'memoryview'):
            return st.get(v.oid).attrs['data']
        items = it.iter_items(st, v)
        out = BEMPTY
        for g, x in items:
            if it.under(st, g) is not TRUE:
                raise Unsupported('bytes() of a sequence of unknown length')
            out = it.binop(st, '+', out, nv.nat_mod.pack_checked(it, st, x, 1, False, False, 'ValueError'))
        return out
    if type(v) is T:
        out = BEMPTY
        for x in v.items:
            out = it.binop(st, '+', out, nv.nat_mod.pack_checked(it, st, x, 1, False, False, 'ValueError'))
        return out
    return v


@ctor('bytes')
def c_bytes(it, st, cls, a, k):
    if not a:
        return BEMPTY
    v = a[0]
    if len(a) > 1 or 'encoding' in k:
        return it.call_method(st, v, 'encode', list(a[1:]), {n: x for n, x in k.items() if n in ('encoding', 'errors')})
    if type(v) is R and it.find_user_method(st.get(v.oid).cls, '__bytes__', st) is not None:
        return it.call_method(st, v, '__bytes__', [])
    if type(v) in (R, T):
        return to_bytes(it, st, v)

    def f(x):
        if pconst(x) is not None:
            n = pconst(x)
            return const(bytes(n)) if 0 <= n < 1 << 20 else raise_('ValueError')
        if ty_of(x) == 'bytes':
            return x
        if ty_of(x) == 'int':
            return ite(cmp_zero(x, '<'), raise_('ValueError'), zeros(x))
        return raise_('TypeError')
    return it.pure(st, f, [v])


@ctor('bytearray')
def c_bytearray(it, st, cls, a, k):
    return it.new(st, cls, {'data': c_bytes(it, st, None, a, k)})


@ctor('memoryview')
def c_memoryview(it, st, cls, a, k):
    return it.new(st, cls, {'data': to_bytes(it, st, a[0])})


nmethod('memoryview', 'tobytes')(lambda it, st, a, k: st.get(a[0].oid).attrs['data'])
nmethod('memoryview', 'release')(lambda it, st, a, k: NONE)
nmethod('memoryview', '__enter__')(lambda it, st, a, k: a[0])
nmethod('memoryview', '__exit__')(lambda it, st, a, k: NONE)


@nmethod('bytearray', 'extend')
def ba_extend(it, st, a, k):
    d = it.binop(st, '+', st.get(a[0].oid).attrs['data'], to_bytes(it, st, a[1]))
    it.set_attr_raw(st, a[0].oid, 'data', d)
    return NONE


@nmethod('bytearray', 'append')
def ba_append(it, st, a, k):
    b = nv.nat_mod.pack_checked(it, st, a[1], 1, False, False, 'ValueError')
    it.set_attr_raw(st, a[0].oid, 'data', it.binop(st, '+', st.get(a[0].oid).attrs['data'], b))
    return NONE


def bytearray_set(it, st, o, i, v):
    raise Unsupported('bytearray item assignment')


# ------------------------------------------------------------------ slices

def norm_slice(it, st, sl):
    r = st.get(sl.oid).attrs
    return r['start'], r['stop'], r['step']


def is_slice(st, i):
    return type(i) is R and st.get(i.oid).cls is not None and st.get(i.oid).cls.native == 'slice'


def idx_int(it, st, v):
    return v


def slice_bounds(n, start, stop):
    """(lo, length) value of a step-1 slice of a sequence of length leaf n; leaves only.
    Where the relation between a bound and the length is not decided the bound is taken to lie inside."""
    def clamp(x, dflt):
        if x is NONE:
            return dflt
        lo, hi = rng(x)
        if hi < 0:
            y = padd(n, x)
            return y if rng(y)[0] >= 0 or pconst(y) is None else ZERO
        if lo < 0 and pconst(x) is None:
            return None
        m = pmin(x, n)
        return x if m is None else m
    lo = clamp(start, ZERO)
    hi = clamp(stop, n)
    if lo is None or hi is None:
        return None
    d = padd(hi, lo, -1)
    if rng(d)[1] <= 0:
        return lo, ZERO
    return lo, d


def scalar_item(it, st, o, i):
    if is_slice(st, i):
        a, b, step = norm_slice(it, st, i)

        def f(v, a, b, step):
            if v is UNDEF or type(v) is X and v.op == 'raise':
                return v
            if type(v) is C and isinstance(v.v, (str, bytes)) and all(type(x) is C or pconst(x) is not None
                                                                     for x in (a, b, step)):
                return const(v.v[slice(*[to_py(x) for x in (a, b, step)])])
            t = ty_of(v)
            if t == 'bytes' and (step is NONE or pconst(step) == 1):
                if a is NONE:
                    a = ZERO
                if not has_len(v) and rng(a)[0] >= 0 and b is NONE:
                    return sub(v, a, None)
                r = slice_bounds(blen(v), a, b)
                if r is not None:
                    return sub(v, r[0], r[1])
            if t == 'bytes' and pconst(step) == -1 and a is NONE and b is NONE:
                n = pconst(blen(v))
                if n is not None and n <= 16:
                    return bcat([sub(v, const(n - 1 - j), const(1)) for j in range(n)])
            if t == 'str':
                return nv.nat_str.str_slice(v, a, b, step)
            if t in ('list', 'any') and type(v) is X:
                if step is NONE or pconst(step) == 1:
                    if rng(a if a is not NONE else ZERO)[0] >= 0 and b is NONE:
                        return term('listslice', (v, a if a is not NONE else ZERO,
                                                  padd(seq_len(v), a if a is not NONE else ZERO, -1)), t)
                return app('slicestep', (v, a, b, step), t)
            if t == 'bytes':
                return app('slicestep', (v, a, b, step), 'bytes')
            return raise_('TypeError')
        return it.pure(st, f, (o, a, b, step))

    def g(v, j):
        if v is UNDEF or type(v) is X and v.op == 'raise':
            return v
        t = ty_of(v)
        jc = pconst(j)
        if type(v) is C and isinstance(v.v, (str, bytes)):
            if jc is None:
                return app('index', (v, j), 'int' if t == 'bytes' else 'str')
            try:
                return const(v.v[jc])
            except IndexError:
                return raise_('IndexError')
        if t == 'bytes':
            n = blen(v)
            if rng(j)[1] < 0:
                j = padd(n, j)
            c = cmp_zero(padd(n, j, -1), '>')
            if pconst(n) is None or pconst(j) is None:
                # inside its window unless the relation is known
                if c is FALSE:
                    return raise_('IndexError')
                CTX[0].windows += 1
                return byte_at(v, j)
            if c is FALSE or pconst(j) < 0:
                return raise_('IndexError')
            return byte_at(v, j)
        if t == 'str':
            return nv.nat_str.char_at(v, j)
        if t in ('list', 'any') and type(v) is X:
            if rng(j)[1] < 0:
                j = padd(seq_len(v), j)
                ok = cmp_zero(j, '>=')
            else:
                ok = cmp_zero(padd(seq_len(v), j, -1), '>')
            if t == 'any':
                return app('item', (v, j), 'any')
            return ite(ok, sym_elem(it, v, j), raise_('IndexError'))
        return raise_('TypeError', const('not subscriptable'))
    if type(i) is R:
        return it.with_leaves(st, o, lambda s, l: it.raise_now(s, 'TypeError'))
    return it.pure(st, g, (o, i))


def pos_item(it, st, items, i, exc='IndexError'):
    """element of a guarded sequence at value i"""
    items = [(it.under(st, e[0]), e[1]) for e in items]
    items = [e for e in items if e[0] is not FALSE]
    plain = all(e[0] is TRUE for e in items)
    n = len(items)

    def f(j):
        if j is UNDEF:
            return UNDEF
        k = pconst(j)
        if k is not None:
            if plain:
                return items[k][1] if -n <= k < n else raise_(exc)
            if k >= 0:
                v, p = gseq_at_p(items, k)
            else:
                v, p = gseq_at_p(items[::-1], -k - 1)
            return ite(p, v, raise_(exc)) if p is not FALSE else raise_(exc)
        if not is_int_leaf(j):
            return raise_('TypeError')
        if not plain:
            raise Unsupported('symbolic index into a sequence of unknown length')
        r = raise_(exc)
        lo, hi = rng(j)
        for k in range(n):
            r = ite(eq_leaf(j, const(k)), items[k][1], r)
            if lo < 0:
                r = ite(eq_leaf(j, const(k - n)), items[k][1], r)
        return r
    return it.resolve(st, apply_ref(f, i))


def apply_ref(f, i):
    return apply(f, (i,))


def seq_item(it, st, t, i):
    """item / slice of a tuple"""
    if is_slice(st, i):
        a, b, s = (None if x is NONE else pconst(x) for x in norm_slice(it, st, i))
        return tup(t.items[slice(a, b, s)])
    return pos_item(it, st, [(TRUE, x) for x in t.items], i)


def ref_item(it, st, r, i):
    rec = st.get(r.oid)
    k = it.native_kind(st, r)
    if rec.cls.fields is not None:
        return seq_item(it, st, tup([rec.attrs[f] for f in rec.cls.fields]), i)
    if k == 'list':
        if is_slice(st, i):
            return list_slice(it, st, r, i)
        return pos_item(it, st, rec.items, i)
    if k in ('bytearray', 'memoryview'):
        return scalar_item(it, st, rec.attrs['data'], i)
    if k == 'range':
        a, b, d = (rec.attrs[n] for n in ('start', 'stop', 'step'))
        if is_slice(st, i):
            raise Unsupported('slice of a range')
        return pos_item(it, st, range_items(it, st, r), i)
    if rec.cls.native == 'BytesIO' or it.find_user_method(rec.cls, '__getitem__', st) is None:
        it.raise_now(st, 'TypeError', const('not subscriptable'))
    raise Unsupported('subscript of %s' % rec.cls.name)


def list_slice(it, st, r, i):
    a, b, s = norm_slice(it, st, i)
    items = st.get(r.oid).items
    step = 1 if s is NONE else pconst(s)
    if type(a) is N or type(b) is N or type(s) is N:
        return it.with_leaves(st, a, lambda u, x: it.with_leaves(u, b, lambda w, y: it.with_leaves(
            w, s, lambda q, z: list_slice(it, q, r, it.new(q, ncls(it, 'slice'), {'start': x, 'stop': y, 'step': z})))))
    if all(g is TRUE for g, _ in items):
        ca, cb = (None if x is NONE else pconst(x) for x in (a, b))
        if (a is NONE or ca is not None) and (b is NONE or cb is not None) and step is not None:
            out = items[slice(ca, cb, step)]
            return it.new(st, ncls(it, 'list'), {}, tuple(out))
        if step == 1 or s is NONE:
            # symbolic bounds: element k present iff start <= k < stop
            n = len(items)

            def bound_(x, dflt):
                if x is NONE:
                    return const(dflt)
                return apply(lambda l: ite(cmp_zero(l, '<'), apply(
                    lambda q: ite(cmp_zero(q, '<'), ZERO, q), (padd(l, const(n)),)), l), (x,))
            lo, hi = bound_(a, 0), bound_(b, n)
            out = []
            for k, (g, v) in enumerate(items):
                c = and_(apply(lambda l: cmp_zero(padd(l, const(-k)), '<='), (lo,)),
                         apply(lambda l: cmp_zero(padd(l, const(-k)), '>'), (hi,)))
                if c is not FALSE:
                    out.append((c, v))
            return it.new(st, ncls(it, 'list'), {}, tuple(out))
        if type(s) is X and a is NONE and b is NONE:
            raise Unsupported('list slice with symbolic step')
    ca = 0 if a is NONE else pconst(a)
    cb = None if b is NONE else pconst(b)
    if ca is not None and ca >= 0 and (b is NONE or cb is not None) and step is not None and step > 0 and \
            (cb is None or cb >= 0):
        live = it.live_items(st, r)
        out = []
        for j in range(ca, len(live) if cb is None else min(cb, len(live)), step):
            v, p = gseq_at_p(live, j)
            if p is not FALSE:
                out.append((p, constrain(v, p)))
        return it.new(st, ncls(it, 'list'), {}, tuple(out))
    if a is NONE and cb == -1 and (s is NONE or step == 1):
        live = it.live_items(st, r)
        out = []
        later = FALSE
        for g, v in reversed(live):
            c = and_(g, later)
            if c is not FALSE:
                out.append((c, v))
            later = or_(later, g)
        return it.new(st, ncls(it, 'list'), {}, tuple(reversed(out)))
    if a is NONE and b is NONE and step == -1:
        return it.new(st, ncls(it, 'list'), {}, tuple(reversed(items)))
    raise Unsupported('slice of a sequence of unknown length')


def list_set(it, st, r, i, v):
    items = st.get(r.oid).items
    if is_slice(st, i):
        a, b, s = norm_slice(it, st, i)
        if a is NONE and b is NONE:
            it.set_items(st, r, tuple(it.iter_items(st, v)))
            return
        ca, cb, cs = (None if x is NONE else pconst(x) for x in (a, b, s))
        if all(g is TRUE for g, _ in items) and (a is NONE or ca is not None) and (b is NONE or cb is not None):
            l = list(items)
            l[slice(ca, cb, cs)] = it.iter_items(st, v)
            it.set_items(st, r, tuple(l))
            return
        raise Unsupported('slice assignment')
    k = pconst(i)
    if k is None:
        if type(i) is N:
            it.with_leaves(st, i, lambda s, l: (list_set(it, s, r, l, v), NONE)[1])
            return
        if all(g is TRUE for g, _ in items):
            it.check(st, and_(cmp_zero(i, '>='), cmp_zero(padd(i, const(-len(items))), '<')), 'IndexError')
            it.set_items(st, r, tuple((g, it.merge_val(eq_leaf(i, const(j)), v, x)) for j, (g, x) in enumerate(items)))
            return
        raise Unsupported('assignment at an unknown position')
    live = it.live_items(st, r)
    if all(g is TRUE for g, _ in live):
        if not -len(live) <= k < len(live):
            it.raise_now(st, 'IndexError')
        k %= len(live) if live else 1
        it.set_items(st, r, live[:k] + ((TRUE, v),) + live[k + 1:])
        return
    if k < 0:
        raise Unsupported('assignment at an unknown position')
    out = []
    cnt = [TRUE] + [FALSE] * k
    pres = FALSE
    for g, x in live:
        c = and_(cnt[k], g)
        pres = or_(pres, c)
        out.append((g, x if c is FALSE else it.merge_val(c, v, x)))
        ng = not_(g)
        for j in range(k, -1, -1):
            cnt[j] = or_(and_(cnt[j], ng), and_(cnt[j - 1], g) if j else FALSE)
    it.check(st, pres, 'IndexError')
    it.set_items(st, r, tuple(out))


def list_del(it, st, r, i):
    items = it.live_items(st, r)
    if is_slice(st, i):
        a, b, s = (None if x is NONE else pconst(x) for x in norm_slice(it, st, i))
        l = list(items)
        if any(g is not TRUE for g, _ in l):
            raise Unsupported('del slice')
        del l[slice(a, b, s)]
        it.set_items(st, r, tuple(l))
        return
    list_pop(it, st, [r, i], {})


def nt_tuple(it, st, r):
    rec = st.get(r.oid)
    return tup([rec.attrs[f] for f in rec.cls.fields])


def nt_attr(it, st, r, name):
    rec = st.get(r.oid)
    if name == '_fields':
        return tup([const(f) for f in rec.cls.fields])
    if name == '_asdict':
        return mk(Native, name=name, fn=lambda it, s, a, k: it.new(s, ncls(it, 'dict'), {}, tuple(
            (TRUE, const(f), s.get(r.oid).attrs[f]) for f in rec.cls.fields)))

    def repl(it, s, a, k):
        d = dict(s.get(r.oid).attrs)
        for n, v in k.items():
            if n not in d:
                it.raise_now(s, 'ValueError')
            d[n] = v
        return it.new(s, rec.cls, d)
    return mk(Native, name=name, fn=repl)


def ref_binop(it, st, op, a, b):
    ka = it.native_kind(st, a) if type(a) is R else None
    kb = it.native_kind(st, b) if type(b) is R else None
    da = type(a) is R and st.get(a.oid).cls.native == 'dictview'
    db = type(b) is R and st.get(b.oid).cls.native == 'dictview'
    if op == '%' and type(a) is not R and is_str(a):
        return nv.nat_str.percent(it, st, a, b)
    if ka == 'bytearray' or kb == 'bytearray':
        va = st.get(a.oid).attrs['data'] if ka == 'bytearray' else a
        vb = st.get(b.oid).attrs['data'] if kb == 'bytearray' else b
        v = it.binop(st, op, va, vb)
        if ka == 'bytearray':
            return it.new(st, ncls(it, 'bytearray'), {'data': v})
        return v
    fa = type(a) is R and st.get(a.oid).cls.fields is not None
    fb = type(b) is R and st.get(b.oid).cls.fields is not None
    if fa or fb:
        return it.binop(st, op, nt_tuple(it, st, a) if fa else a, nt_tuple(it, st, b) if fb else b)
    if op == '+' and ka == kb == 'list' and not (da or db):
        return it.new(st, ncls(it, 'list'), {}, tuple(st.get(a.oid).items) + tuple(st.get(b.oid).items))
    if op == '+' and 'list' in (ka, kb) and type(a if ka is None else b) is X:
        out = []
        for x in (a, b):
            out += it.iter_items(st, x)
        return it.new(st, ncls(it, 'list'), {}, tuple(out))
    if op == '*' and 'list' in (ka, kb):
        l, n = (a, b) if ka == 'list' else (b, a)
        c = pconst(n) if type(n) is not R else None
        if c is None:
            raise Unsupported('list repeated an unknown number of times')
        return it.new(st, ncls(it, 'list'), {}, tuple(st.get(l.oid).items) * max(c, 0))
    if (da or db) and op in ('|', '&', '-', '^') and (da or ka == 'set'):
        return ref_binop(it, st, op, c_set(it, st, ncls(it, 'set'), [a], {}), c_set(it, st, ncls(it, 'set'), [b], {}))
    if ka == 'set' and kb == 'set':
        ia, ib = st.get(a.oid).items, st.get(b.oid).items
        r = it.new(st, ncls(it, 'set'), {}, ())
        if op == '|':
            it.set_items(st, r, ia)
            for g, k, v in ib:
                it.guarded(st, g, k, lambda s, x: it.dict_set(s, r, x, NONE))
            return r
        if op in ('&', '-'):
            out = []
            for g, k, v in ia:
                p = it.dict_lookup(st, b, k)[0]
                c = and_(g, p if op == '&' else not_(p))
                if c is not FALSE:
                    out.append((c, k, v))
            it.set_items(st, r, tuple(out))
            return r
        if op == '^':
            return ref_binop(it, st, '|', ref_binop(it, st, '-', a, b), ref_binop(it, st, '-', b, a))
    if op == '|' and ka == 'dict' and kb == 'dict':
        r = it.new(st, ncls(it, 'dict'), {}, st.get(a.oid).items)
        dict_update(it, st, [r, b], {})
        return r
    if ka in ('list', 'dict', 'set') or kb in ('list', 'dict', 'set') or ka is None or kb is None:
        it.raise_now(st, 'TypeError', const('unsupported operand'))
    raise Unsupported('operator %s on objects' % op)


# ------------------------------------------------------------------ ranges

@ctor('range')
def c_range(it, st, cls, a, k):
    a = list(a)
    if len(a) == 1:
        a = [ZERO, a[0], const(1)]
    if len(a) == 2:
        a.append(const(1))
    for x in a:
        if type(x) is C and not isinstance(x.v, int):
            it.raise_now(st, 'TypeError')
    return it.new(st, cls, {'start': a[0], 'stop': a[1], 'step': a[2]})


def range_items(it, st, r):
    a, b, d = (st.get(r.oid).attrs[n] for n in ('start', 'stop', 'step'))
    ca, cb, cd = pconst(a), pconst(b), pconst(d)
    if cd is None:
        raise Unsupported('range with an unknown step')
    if ca is not None and cb is not None:
        if len(range(ca, cb, cd)) > 20000:
            if getattr(it, 'cut_ranges', False):
                it.dropped = or_(it.dropped, st.guard)
                return [(TRUE, const(i)) for i in range(ca, cb, cd)[:it.K]]
            raise Unsupported('range too long')
        return [(TRUE, const(i)) for i in range(ca, cb, cd)]
    n = apply(lambda x, y: UNDEF if x is UNDEF or y is UNDEF else padd(y, x, -1) if cd > 0 else padd(x, y, -1), (b, a)) \
        if False else apply(lambda x, y: padd(y, x, -1) if cd > 0 else padd(x, y, -1), (a, b))
    out = []
    i = 0
    while True:
        g = it.under(st, apply(lambda l: cmp_zero(padd(l, const(-i * abs(cd))), '>'), (n,)))
        if g is FALSE:
            break
        if i >= it.K and (g is not TRUE or getattr(it, 'cut_ranges', False)):
            it.dropped = or_(it.dropped, and_(st.guard, g))
            break
        out.append((g, it.binop(st, '+', a, const(i * cd))))
        i += 1
        if i > 20000:
            raise Unsupported('range too long')
    return out


# ------------------------------------------------------------------ lists

@ctor('list')
def c_list(it, st, cls, a, k):
    return it.new(st, cls, {}, tuple(it.iter_items(st, a[0])) if a else ())


@nmethod('list', '__init__')
def list_init(it, st, a, k):
    it.set_items(st, a[0], tuple(it.iter_items(st, a[1])) if len(a) > 1 else ())
    return NONE


ctor('deque')(lambda it, st, cls, a, k: c_list(it, st, cls, a[:1], k))


@ctor('tuple')
def c_tuple(it, st, cls, a, k):
    if not a:
        return tup(())
    if type(a[0]) is T:
        return a[0]
    items = [(it.under(st, g), x) for g, x in it.iter_items(st, a[0])]
    items = [e for e in items if e[0] is not FALSE]
    if any(g is not TRUE for g, _ in items):
        raise Unsupported('tuple of unknown length')
    return tup([x for _, x in items])


@nmethod('list', 'append')
def list_append(it, st, a, k):
    if type(a[0]) is X:
        raise Unsupported('changing a list of texts read from the file')
    it.set_items(st, a[0], st.get(a[0].oid).items + ((TRUE, a[1]),))
    return NONE


@nmethod('list', 'extend')
def list_extend(it, st, a, k):
    it.set_items(st, a[0], st.get(a[0].oid).items + tuple(it.iter_items(st, a[1])))
    return NONE


nmethod('list', '__iadd__')(lambda it, st, a, k: (list_extend(it, st, a, k), a[0])[1])


@nmethod('list', 'insert')
def list_insert(it, st, a, k):
    items = st.get(a[0].oid).items
    i = pconst(a[1])
    if i is None or (i != 0 and any(g is not TRUE for g, _ in items)):
        raise Unsupported('insert at an unknown position')
    l = list(items)
    l.insert(i, (TRUE, a[2]))
    it.set_items(st, a[0], tuple(l))
    return NONE


@nmethod('deque', 'appendleft')
def deque_appendleft(it, st, a, k):
    return list_insert(it, st, [a[0], ZERO, a[1]], {})


@nmethod('list', 'pop')
def list_pop(it, st, a, k):
    i = a[1] if len(a) > 1 else const(-1)
    items = it.live_items(st, a[0])
    c = pconst(i)
    if c is None:
        raise Unsupported('pop at an unknown position')
    if all(g is TRUE for g, _ in items):
        if not -len(items) <= c < len(items):
            it.raise_now(st, 'IndexError', const('pop'))
        l = list(items)
        g, v = l.pop(c)
        it.set_items(st, a[0], tuple(l))
        return v
    rev = c < 0
    seq = list(items[::-1] if rev else items)
    k = -c - 1 if rev else c
    v, p = gseq_at_p(seq, k)
    it.check(st, p, 'IndexError', const('pop'))
    cnt = [TRUE] + [FALSE] * k
    out = []
    for g, x in seq:
        cc = and_(cnt[k], g)
        g2 = and_(g, not_(cc))
        if g2 is not FALSE:
            out.append((g2, x))
        ng = not_(g)
        for j in range(k, -1, -1):
            cnt[j] = or_(and_(cnt[j], ng), and_(cnt[j - 1], g) if j else FALSE)
    it.set_items(st, a[0], tuple(out[::-1] if rev else out))
    return it.clean(st, v, p)


@nmethod('deque', 'popleft')
def deque_popleft(it, st, a, k):
    return list_pop(it, st, [a[0], ZERO], {})


@nmethod('list', 'remove')
def list_remove(it, st, a, k):
    out = []
    found = FALSE
    for g, x in st.get(a[0].oid).items:
        e = and_(and_(g, it.equals(st, x, a[1])), not_(found))
        g2 = and_(g, not_(e))
        found = or_(found, e)
        if g2 is not FALSE:
            out.append((g2, x))
    it.check(st, found, 'ValueError', const('remove'))
    it.set_items(st, a[0], tuple(out))
    return NONE


@nmethod('list', 'index')
def list_index(it, st, a, k):
    found = FALSE
    pos = ZERO
    res = ZERO
    for g, x in (st.get(a[0].oid).items if type(a[0]) is R else [(TRUE, y) for y in a[0].items]):
        e = and_(and_(g, it.equals(st, x, a[1])), not_(found))
        res = ite(e, pos, res)
        found = or_(found, e)
        pos = apply(lambda p, c: padd(p, const(1)) if c is TRUE else p, (pos, g))
    it.check(st, found, 'ValueError', const('index'))
    return res


METHODS[('tuple', 'index')] = METHODS[('list', 'index')]


@nmethod('list', 'count')
def list_count(it, st, a, k):
    n = ZERO
    for g, x in it.iter_items(st, a[0]):
        n = apply(lambda p, c: padd(p, const(1)) if c is TRUE else p, (n, and_(g, it.equals(st, x, a[1]))))
    return n


METHODS[('tuple', 'count')] = METHODS[('list', 'count')]


def bubble(it, st, items, op):
    """stable sort of items (presence, value, key) whose order is not known: neighbours exchanged where they have to be"""
    for end in range(len(items) - 1, 0, -1):
        for i in range(end):
            (g, x, kx), (h, y, ky) = items[i:i + 2]
            c = it.pure(st, lambda p, q: UNDEF if p is UNDEF or q is UNDEF else lt_leaf(p, op, q), (kx, ky))
            c = and_(h, or_(not_(g), c))
            items[i:i + 2] = [(ite(c, h, g), ite(c, y, x), ite(c, ky, kx)), (ite(c, g, h), ite(c, x, y), ite(c, kx, ky))]
    return tuple((g, x) for g, x, _ in items if g is not FALSE)


@nmethod('list', 'sort')
def list_sort(it, st, a, k):
    items = it.live_items(st, a[0])
    key = k.get('key')
    rev = k.get('reverse', FALSE)
    if rev not in (TRUE, FALSE):
        raise Unsupported('sort with unknown direction')
    ks = []
    for g, x in items:
        ks.append(x if key is None or key is NONE else it.call(st, key, [x], {}))
    if len(items) <= 1:
        return NONE
    if not all(is_const(x) for x in ks) and all(type(x) is T and x.items and is_const(x.items[0]) for x in ks):
        # pairs whose first parts already decide the order
        lead = [x.items[0] for x in ks]
        if len({id(x) for x in lead}) == len(lead) and len({x.v for x in lead if type(x) is C}) == len(lead):
            ks = lead
    if not all(is_const(x) for x in ks):
        if len(items) > 6 or any(has_ref(x) for x in ks):
            raise Unsupported('sort by an unknown key')
        it.set_items(st, a[0], bubble(it, st, [(g, x, kx) for (g, x), kx in zip(items, ks)], '>' if rev is FALSE else '<'))
        return NONE
    try:
        order = sorted(range(len(items)), key=lambda i: to_py(ks[i]), reverse=rev is TRUE)
    except TypeError:
        it.raise_now(st, 'TypeError')
    it.set_items(st, a[0], tuple(items[i] for i in order))
    return NONE


@nmethod('list', 'reverse')
def list_reverse(it, st, a, k):
    it.set_items(st, a[0], tuple(reversed(st.get(a[0].oid).items)))
    return NONE


@nmethod('list', 'copy')
def list_copy(it, st, a, k):
    return it.new(st, ncls(it, 'list'), {}, st.get(a[0].oid).items)


@nmethod('list', 'clear')
def list_clear(it, st, a, k):
    it.set_items(st, a[0], ())
    return NONE


@nmethod('list', '__getitem__')
def list_getitem(it, st, a, k):
    if is_slice(st, a[1]):
        return list_slice(it, st, a[0], a[1])
    return pos_item(it, st, st.get(a[0].oid).items, a[1])


@nmethod('list', '__setitem__')
def list_setitem(it, st, a, k):
    list_set(it, st, a[0], a[1], a[2])
    return NONE


# ------------------------------------------------------------------ dictionaries and sets

def fill_dict(it, st, r, a, k):
    if a:
        src = a[0]
        dict_update(it, st, [r, src], {})
    for n, v in k.items():
        it.dict_set(st, r, const(n), v)


@ctor('dict')
def c_dict(it, st, cls, a, k):
    r = it.new(st, cls, {}, ())
    fill_dict(it, st, r, a, k)
    return r


@ctor('OrderedDict')
def c_odict(it, st, cls, a, k):
    return c_dict(it, st, cls, a, k)


@ctor('Counter')
def c_counter(it, st, cls, a, k):
    r = it.new(st, cls, {'default_factory': NONE}, ())

    def one(s, x):
        pres, val = it.dict_lookup(s, r, x)
        it.dict_set(s, r, x, it.binop(s, '+', ite(pres, val, ZERO) if pres is not FALSE else ZERO, const(1)))
    if a:
        it.drive_any(st, a[0], one)
    return r


nmethod('Counter', '__missing__')(lambda it, st, a, k: ZERO)


@ctor('defaultdict')
def c_defaultdict(it, st, cls, a, k):
    r = it.new(st, cls, {'default_factory': a[0] if a else NONE}, ())
    fill_dict(it, st, r, a[1:], k)
    return r


@nmethod('dict', '__init__')
def dict_init(it, st, a, k):
    fill_dict(it, st, a[0], a[1:], k)
    return NONE


@nmethod('set', '__init__')
def set_init(it, st, a, k):
    if len(a) > 1:
        set_update(it, st, a, k)
    return NONE


def c_set(it, st, cls, a, k):
    r = it.new(st, cls, {}, ())
    if a:
        set_update(it, st, [r, a[0]], {})
    return r


ctor('set')(c_set)
ctor('frozenset')(c_set)


@nmethod('set', 'update')
def set_update(it, st, a, k):
    for src in a[1:]:
        it.drive_any(st, src, lambda s, x: it.dict_set(s, a[0], x, NONE))
    return NONE


@nmethod('set', 'add')
def set_add(it, st, a, k):
    it.dict_set(st, a[0], a[1], NONE)
    return NONE


@nmethod('set', 'discard')
def set_discard(it, st, a, k):
    it.dict_del(st, a[0], a[1], must=False)
    return NONE


@nmethod('set', 'remove')
def set_remove(it, st, a, k):
    it.dict_del(st, a[0], a[1])
    return NONE


for _n, _o in (('union', '|'), ('intersection', '&'), ('difference', '-')):
    nmethod('set', _n)(lambda it, st, a, k, _o=_o: ref_binop(it, st, _o, a[0], a[1] if type(a[1]) is R and it.native_kind(
        st, a[1]) == 'set' else c_set(it, st, ncls(it, 'set'), [a[1]], {})))


@nmethod('set', 'issubset')
def set_issubset(it, st, a, k):
    r = TRUE
    for g, x, _ in st.get(a[0].oid).items:
        r = and_(r, or_(not_(g), it.contains(st, a[1], x)))
    return r


nmethod('set', '__le__')(set_issubset)


@nmethod('set', 'issuperset', '__ge__')
def set_issuperset(it, st, a, k):
    r = TRUE
    for g, x in it.iter_items(st, a[1]):
        r = and_(r, or_(not_(g), it.contains(st, a[0], x)))
    return r


nmethod('set', '__lt__')(lambda it, st, a, k: and_(set_issubset(it, st, a, k), not_(it.equals(st, a[0], a[1]))))
nmethod('set', '__gt__')(lambda it, st, a, k: and_(set_issuperset(it, st, a, k), not_(it.equals(st, a[0], a[1]))))


def set_inplace(op):
    def f(it, st, a, k):
        o = a[1] if type(a[1]) is R and it.native_kind(st, a[1]) == 'set' else c_set(it, st, ncls(it, 'set'), [a[1]], {})
        r = ref_binop(it, st, op, a[0], o)
        it.set_items(st, a[0], st.get(r.oid).items)
        return NONE
    return f


nmethod('set', 'difference_update')(set_inplace('-'))
nmethod('set', 'intersection_update')(set_inplace('&'))
nmethod('set', 'symmetric_difference_update')(set_inplace('^'))
nmethod('set', 'symmetric_difference')(lambda it, st, a, k: ref_binop(it, st, '^', a[0], c_set(it, st, ncls(it, 'set'), [a[1]], {})))


@nmethod('set', 'isdisjoint')
def set_isdisjoint(it, st, a, k):
    r = TRUE
    for g, x, _ in st.get(a[0].oid).items:
        r = and_(r, or_(not_(g), not_(it.contains(st, a[1], x))))
    return r


@nmethod('dict', 'update')
def dict_update(it, st, a, k):
    d = a[0]
    for src in a[1:]:
        if type(src) is R and it.native_kind(st, src) == 'dict' and \
                it.find_user_method(st.get(src.oid).cls, '__getitem__', st) is None:
            for g, kk, v in st.get(src.oid).items:
                it.guarded(st, g, tup((kk, v)), lambda s, p: setpair(it, s, d, p))
        elif type(src) is N:
            it.with_leaves(st, src, lambda s, l: dict_update(it, s, [d, l], {}))
        else:
            it.drive_any(st, src, lambda s, p: setpair(it, s, d, p))
    for n, v in k.items():
        it.setitem(st, d, const(n), v)
    return NONE


def setpair(it, s, d, p):
    kk, v = it.unpack(s, p, 2)
    um = it.find_user_method(s.get(d.oid).cls, '__setitem__', s)
    it.dict_set(s, d, kk, v)


@nmethod('dict', 'get')
def dict_get(it, st, a, k):
    dflt = a[2] if len(a) > 2 else k.get('default', NONE)
    pres, val = it.dict_lookup(st, a[0], a[1])
    if pres is FALSE:
        return dflt
    return ite(pres, val, dflt)


@nmethod('dict', 'items')
def dict_items(it, st, a, k):
    return it.new(st, ncls(it, 'dictview'), {}, tuple((g, tup((kk, v))) for g, kk, v in st.get(a[0].oid).items))


@nmethod('dict', 'keys')
def dict_keys(it, st, a, k):
    return it.new(st, ncls(it, 'dictview'), {}, tuple((g, kk) for g, kk, v in st.get(a[0].oid).items))


@nmethod('dict', 'values')
def dict_values(it, st, a, k):
    return it.new(st, ncls(it, 'dictview'), {}, tuple((g, v) for g, kk, v in st.get(a[0].oid).items))


@nmethod('dict', 'copy', '__copy__')
def dict_copy(it, st, a, k):
    r = st.get(a[0].oid)
    cls = r.cls if r.cls.native else ncls(it, 'dict')
    return it.new(st, cls, dict(r.attrs) if r.cls.native else {}, r.items)


METHODS[('set', 'copy')] = METHODS[('dict', 'copy')]


@nmethod('dict', 'clear')
def dict_clear(it, st, a, k):
    it.set_items(st, a[0], ())
    return NONE


METHODS[('set', 'clear')] = METHODS[('dict', 'clear')]


@nmethod('dict', 'pop')
def dict_pop(it, st, a, k):
    if len(a) > 2:
        pres, val = it.dict_del(st, a[0], a[1], must=False)
        return a[2] if pres is FALSE else ite(pres, val, a[2])
    pres, val = it.dict_del(st, a[0], a[1])
    return it.clean(st, val, pres)


@nmethod('dict', 'popitem')
def dict_popitem(it, st, a, k):
    items = it.live_items2(st, a[0]) if hasattr(it, 'live_items2') else st.get(a[0].oid).items
    if not items:
        it.raise_now(st, 'KeyError')
    if any(e[0] is not TRUE for e in items):
        raise Unsupported('popitem')
    e = items[-1]
    it.set_items(st, a[0], items[:-1])
    return tup((e[1], e[2]))


@nmethod('dict', 'setdefault')
def dict_setdefault(it, st, a, k):
    dflt = a[2] if len(a) > 2 else NONE
    pres, val = it.dict_lookup(st, a[0], a[1])

    def miss(s):
        it.dict_set(s, a[0], a[1], dflt)
        return dflt
    return it.branch(st, pres, lambda s: it.clean(s, val, pres), miss)


@nmethod('OrderedDict', 'move_to_end')
def od_move(it, st, a, k):
    last = a[2] if len(a) > 2 else k.get('last', TRUE)
    items = st.get(a[0].oid).items
    hit = [e for e in items if e[1] is a[1]]
    rest = tuple(e for e in items if e[1] is not a[1])
    if not hit:
        pres, val = it.dict_del(st, a[0], a[1])
        hit = [(TRUE, a[1], val)]
        rest = st.get(a[0].oid).items
    else:
        it.check(st, hit[0][0], 'KeyError', a[1])
    it.set_items(st, a[0], rest + tuple(hit) if last is TRUE else tuple(hit) + rest)
    return NONE


@nmethod('dict', '__getitem__')
def dict_getitem(it, st, a, k):
    pres, val = it.dict_lookup(st, a[0], a[1])
    it.check(st, pres, 'KeyError', a[1])
    return it.clean(st, val, pres)


@nmethod('dict', '__setitem__')
def dict_setitem(it, st, a, k):
    it.dict_set(st, a[0], a[1], a[2])
    return NONE


@nmethod('dict', '__delitem__')
def dict_delitem(it, st, a, k):
    it.dict_del(st, a[0], a[1])
    return NONE


@nmethod('dict', 'fromkeys')
def dict_fromkeys(it, st, a, k):
    cls = a[0] if type(a[0]) is ClassV else ncls(it, 'dict')
    v = a[2] if len(a) > 2 else NONE
    r = it.new(st, cls, {}, ())
    it.drive_any(st, a[1], lambda s, x: it.dict_set(s, r, x, v))
    return r


nmethod('iterator', '__iter__')(lambda it, st, a, k: a[0])
nmethod('iterator', '__next__')(lambda it, st, a, k: it.next_item(st, a[0]))
nmethod('iterator', 'close')(lambda it, st, a, k: NONE)
nmethod('generator', '__iter__')(lambda it, st, a, k: a[0])
nmethod('generator', '__next__')(lambda it, st, a, k: it.next_item(st, a[0]))
nmethod('count', '__iter__')(lambda it, st, a, k: a[0])
nmethod('slice', 'indices')(lambda it, st, a, k: slice_indices(it, st, a))


def slice_indices(it, st, a):
    s, e, d = norm_slice(it, st, a[0])
    n = pconst(a[1])
    vals = [None if x is NONE else pconst(x) for x in (s, e, d)]
    if n is None or any(v is None and x is not NONE for v, x in zip(vals, (s, e, d))):
        raise Unsupported('slice.indices of unknown values')
    return tup([const(x) for x in slice(*vals).indices(n)])
