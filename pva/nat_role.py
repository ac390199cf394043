"""The string primitives as analyser operations, and recognition of the functions that implement them."""
import ast
from .interp import *
from .ops import *
from .vals import *
from . import prims
from .natives import native


def utf16z(b):
    if b is UNDEF:
        return UNDEF
    if type(b) is C:
        return const(prims.utf16z(b.v))
    return app('utf16z', (b,), 'str')


def zlen(b):
    if b is UNDEF:
        return UNDEF
    if type(b) is C:
        return const(prims.zlen(b.v))
    return term('app', ('zlen', b), 'int', 0)


def multisz(b):
    if b is UNDEF:
        return UNDEF
    return term('multisz', (b,), 'list')


def mlen(b):
    if b is UNDEF:
        return UNDEF
    if type(b) is C:
        return const(prims.mlen(b.v))
    return term('app', ('mlen', b), 'int', 0)


for _n, _f in (('zlen', zlen), ('mlen', mlen)):
    native('_pva_' + _n)(lambda it, st, a, k, _f=_f: it.pure(st, _f, (a[0],)))


def spelled(it, b):
    """are strings of this size followed byte by byte instead of being summarised?"""
    lim = getattr(it, 'spell', 0)
    if not lim or type(b) is N or b is UNDEF or not has_len(b):
        return False
    n = pconst(blen(b))
    return n is not None and n <= lim


@native('_pva_utf16z')
def n_utf16z(it, st, a, k):
    if spelled(it, a[0]):
        return it.call(st, it.spell_fns['utf16'], [a[0]], {})
    return it.pure(st, utf16z, (a[0],))


def mk_multisz(it, st, b):
    def f(s, l):
        if type(l) is C:
            return it.new(s, it.ncls('list'), {}, tuple((TRUE, const(x)) for x in prims.multisz(l.v)))
        return multisz(l)
    if spelled(it, b):
        return it.call(st, it.spell_fns['multisz'], [b], {})
    return it.with_leaves(st, b, f)


native('_pva_multisz')(lambda it, st, a, k: mk_multisz(it, st, a[0]))


def string_at(it, st, role, s, size):
    """apply a recognised string reader to stream record s; size None: up to the terminator"""
    if type(s) is N:
        return it.with_leaves(st, s, lambda u, l: string_at(it, u, role, l, size))
    if type(size) is N:
        return it.with_leaves(st, size, lambda u, l: string_at(it, u, role, s, l))
    if size is not None and pconst(size) == -1:
        size = None
    r = st.get(s.oid).attrs
    c, p = r['content'], r['pos']
    b = it.pure(st, lambda c, p, n: UNDEF if UNDEF in (c, p, n) else sub(c, p, None if n is NONE else n),
                (c, p, NONE if size is None else size))
    if size is None:
        p2 = apply(lambda p, b: UNDEF if UNDEF in (p, b) else padd(p, (zlen if role == 'utf16' else mlen)(b)), (p, b))
    else:
        p2 = it.binop(st, '+', p, size)
    it.set_attr_raw(st, s.oid, 'pos', p2)
    if role == 'utf16':
        return it.pure(st, utf16z, (b,))
    return mk_multisz(it, st, b)
