"""Library modules: struct, io, datetime, ipaddress, collections, ..."""
import datetime as _dt
import re as _re

from .natives import *
from .natives import nmethod, native, ctor, ncls, METHODS, BUILTINS, CONSTRUCT, PARENTS
from . import natives as nv


def fnat(name, fn):
    return mk(Native, name=name, fn=fn)


# ------------------------------------------------------------------ struct

SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, '?': 1, 'c': 1, 'x': 1,
         'f': 4, 'd': 8, 'n': 8, 'N': 8, 's': 1, 'p': 1, 'P': 8}
NATIVE_SIZES = dict(SIZES, l=8, L=8)


def parse_fmt(f):
    """(fields, size, big); fields: (offset, kind, size)"""
    order = '@'
    s = f.replace(' ', '')
    if s[:1] in '@=<>!' and s:
        order, s = s[0], s[1:]
    sizes = NATIVE_SIZES if order == '@' else SIZES
    big = order in '>!'
    off = 0
    out = []
    for cnt, ch in _re.findall(r'(\d*)([a-zA-Z?])', s):
        if ch not in sizes:
            raise Unsupported('struct format ' + f)
        n = int(cnt) if cnt else 1
        sz = sizes[ch]
        if order == '@' and ch not in 'sxcbB?p':
            off = (off + sz - 1) // sz * sz
        if ch in 'sp':
            out.append((off, 's', n))
            off += n
            continue
        for _ in range(n):
            if ch != 'x':
                out.append((off, ch, sz))
            off += sz
    return out, off, big


def fmt_of(it, st, v):
    if type(v) is C:
        return v.v.decode() if isinstance(v.v, bytes) else v.v
    raise Unsupported('struct format is not known')


def unpack_from(it, st, fields, big, data, base):
    out = []
    for off, ch, n in fields:
        def f(b, o):
            if b is UNDEF:
                return UNDEF
            p = sub(b, padd(o, const(off)), const(n))
            if ch == 's':
                return p
            if ch == 'c':
                return p
            if ch == '?':
                return not_(eq_leaf(le_of(p, 1), ZERO))
            if ch in 'fd':
                return app('unpack' + ch, (p,), 'float')
            return le_of(p, n, ch.islower(), big)
        out.append(it.pure(st, f, (data, base)))
    return tup(out)


def counted(f):
    """a format like '<%dI' % n: (fields before, their size, big, n, code, size of one)"""
    if type(f) is not X or f.op != 'scat' or len(f.args) < 2:
        raise Unsupported('struct format is not known')
    p = f.args
    if len(p) == 2 and type(p[0]) is C and type(p[1]) is X and p[1].op == 'app' and p[1].args[0] == 'strmul' and \
            type(p[1].args[1]) is C and p[1].args[1].v != 's':
        p = (p[0], term('fmt', ('', p[1].args[2]), 'str'), p[1].args[1])         # 'I' * n
    head, n, tail = (p[0].v, p[1], p[2:]) if type(p[0]) is C else ('@', p[0], p[1:])
    if type(n) is not X or n.op != 'fmt' or n.args[0] not in ('', 'd') or len(tail) != 1 or type(tail[0]) is not C or \
            len(tail[0].v) != 1 or tail[0].v not in SIZES or head[-1:].isdigit() or tail[0].v in 'xcp':
        raise Unsupported('struct format is not known')
    order = head[:1] if head[:1] in '@=<>!' and head else '@'
    code = tail[0].v
    if order == '@' and code not in 'sbB' and len(head) > 1:
        raise Unsupported('struct format is not known')
    fields, size, big = parse_fmt(head)
    return fields, size, big, n.args[1], code, (NATIVE_SIZES if order == '@' else SIZES)[code]


def counted_size(f):
    _, size, _, n, _, sz = counted(f)
    return padd(pmul(n, const(sz)), const(size))


def counted_unpack(it, st, f, data, base):
    fields, size, big, n, code, sz = counted(f)
    head = unpack_from(it, st, fields, big, data, base)
    if code == 's':
        return tup(head.items + (it.pure(st, lambda b, o, n: sub(b, padd(o, const(size)), n), (data, base, n)),))
    out = [(TRUE, x) for x in head.items]
    for i in range(it.K):
        g = cmp_zero(padd(n, const(-i)), '>')
        if g is FALSE:
            break
        out.append((g, unpack_from(it, st, [(size + i * sz, code, sz)], big, data, base).items[0]))
    it.dropped = or_(it.dropped, and_(st.guard, cmp_zero(padd(n, const(-it.K)), '>')))
    return it.new(st, ncls(it, 'list'), {}, tuple(out))


def bytes_arg(it, st, v):
    if type(v) is R:
        return nv.nat_seq.to_bytes(it, st, v)
    if type(v) is N and has_ref(v):
        return it.with_leaves(st, v, lambda s, l: bytes_arg(it, s, l))
    return v


def struct_unpack(it, st, f, data):
    if type(f) is N:
        return it.with_leaves(st, f, lambda s, l: struct_unpack(it, s, l, data))
    if type(f) is X:
        size = counted_size(f)
    else:
        fields, size, big = parse_fmt(fmt_of(it, st, f))
        size = const(size)
    data = bytes_arg(it, st, data)
    for lf, c in leaves(data, st.guard):
        if ty_of(lf) != 'bytes' and lf is not UNDEF:
            it.check(st, not_(c), 'TypeError', const('a bytes-like object is required'))
            data = constrain(data, not_(c))
    ok = apply(lambda b: TRUE if b is UNDEF or not has_len(b) else cmp_zero(padd(blen(b), size, -1), '=='), (data,))
    it.check(st, ok, 'struct.error', const('unpack requires a buffer of the size of the format'))
    data = constrain(data, ok)
    if type(f) is X:
        return counted_unpack(it, st, f, data, ZERO)
    return unpack_from(it, st, fields, big, data, ZERO)


def in_range_check(it, st, v, lo, hi, exc):
    def f(x):
        if x is UNDEF:
            return TRUE
        if type(x) is X and x.ty == 'any':
            return bool_of_var(app('fits', (x, const(lo), const(hi)), 'bool'))
        if not is_int_leaf(x):
            return TRUE
        a, b = rng(x)
        if lo <= a and b <= hi:
            return TRUE
        if b < lo or a > hi:
            return FALSE
        return and_(cmp_zero(padd(x, const(-lo)), '>='), cmp_zero(padd(x, const(-hi)), '<='))
    it.check(st, apply(f, (v,)), exc)


def identity(v, guard):
    """the number that v is, if v is that number in every case that can arise"""
    if type(v) is not N or not v.num:
        return v
    for lf, c in leaves(v, guard):
        k = lf.value.v if type(lf) is E else lf.v if type(lf) is C and isinstance(lf.v, int) else None
        if lf is not v.var and (k is None or and_(and_(guard, c), not_(num_in(v.var, k, k))) is not FALSE):
            return v
    return v.var


def pack_checked(it, st, v, n, signed, big, exc):
    v = identity(v, st.guard)
    lo, hi = (-(256 ** n) // 2, 256 ** n // 2 - 1) if signed else (0, 256 ** n - 1)
    if has_ref(v):
        it.raise_now(st, exc)
    for lf, c in leaves(v, st.guard):
        if not is_int_leaf(lf) and not (type(lf) is X and lf.ty in ('any', 'undef')):
            it.check(st, not_(c), exc)
            v = constrain(v, not_(c))
    in_range_check(it, st, v, lo, hi, exc)

    def f(x):
        if x is UNDEF:
            return UNDEF
        if type(x) is X and x.ty == 'any':
            return app('packany', (x, const(n), const(signed), const(big)), 'bytes')
        c = pconst(x)
        if c is not None and not lo <= c <= hi:
            return UNDEF
        return pack_le(x, n, signed, big)
    return map_leaves(v, f)


def struct_pack(it, st, f, args):
    fields, size, big = parse_fmt(fmt_of(it, st, f))
    if len(fields) != len(args):
        it.raise_now(st, 'struct.error')
    out = BEMPTY
    pos = 0
    for (off, ch, n), v in zip(fields, args):
        if off > pos:
            out = it.binop(st, '+', out, const(bytes(off - pos)))
        if ch in 'sc':
            def g(b):
                if type(b) is C:
                    return const(b.v[:n].ljust(n, b'\0'))
                if pconst(blen(b)) == n:
                    return b
                return app('packs', (b, const(n)), 'bytes')
            x = it.pure(st, g, [v])
        elif ch == '?':
            x = ite(it.truth(st, v), const(b'\1'), const(b'\0'))
        elif ch in 'fd':
            x = map_leaves(v, lambda b: app('pack' + ch, (b,), 'bytes'))
        else:
            x = pack_checked(it, st, v, n, ch.islower(), big, 'struct.error')
        out = it.binop(st, '+', out, x)
        pos = off + n
    if pos < size:
        out = it.binop(st, '+', out, const(bytes(size - pos)))
    return out


@ctor('StructT')
def c_struct(it, st, cls, a, k):
    f = fmt_of(it, st, a[0])
    return it.new(st, cls, {'format': const(f), 'size': const(parse_fmt(f)[1])})


nmethod('StructT', 'unpack')(lambda it, st, a, k: struct_unpack(it, st, st.get(a[0].oid).attrs['format'], a[1]))
nmethod('StructT', 'pack')(lambda it, st, a, k: struct_pack(it, st, st.get(a[0].oid).attrs['format'], a[1:]))


def struct_unpack_from(it, st, f, data, off):
    if type(f) is N:
        return it.with_leaves(st, f, lambda s, l: struct_unpack_from(it, s, l, data, off))
    if type(f) is X:
        size = counted_size(f)
    else:
        fields, size, big = parse_fmt(fmt_of(it, st, f))
        size = const(size)
    data = bytes_arg(it, st, data)
    ok = apply(lambda b, o: cmp_zero(padd(padd(blen(b), o, -1), size, -1), '>='), (data, off))
    u = it.under(st, ok)
    if u is FALSE:
        it.raise_now(st, 'struct.error')
    elif u is not TRUE:
        CTX[0].windows += 1
    if type(f) is X:
        return counted_unpack(it, st, f, data, off)
    return unpack_from(it, st, fields, big, data, off)


nmethod('StructT', 'unpack_from')(lambda it, st, a, k: struct_unpack_from(
    it, st, st.get(a[0].oid).attrs['format'], a[1], a[2] if len(a) > 2 else k.get('offset', ZERO)))


def struct_iter(it, st, f, data):
    fields, size, big = parse_fmt(fmt_of(it, st, f))
    data = bytes_arg(it, st, data)
    n = pconst(blen(data)) if type(data) is not N else None
    if n is None:
        raise Unsupported('iter_unpack of unknown length')
    if size == 0 or n % size:
        it.raise_now(st, 'struct.error')
    return it.new(st, ncls(it, 'iterator'), {}, tuple(
        (TRUE, unpack_from(it, st, fields, big, data, const(o))) for o in range(0, n, size)))


nmethod('StructT', 'iter_unpack')(lambda it, st, a, k: struct_iter(it, st, st.get(a[0].oid).attrs['format'], a[1]))


def struct_module(it):
    return {
        'unpack': fnat('unpack', lambda it, st, a, k: struct_unpack(it, st, a[0], a[1])),
        'unpack_from': fnat('unpack_from', lambda it, st, a, k: struct_unpack_from(
            it, st, a[0], a[1], a[2] if len(a) > 2 else k.get('offset', ZERO))),
        'pack': fnat('pack', lambda it, st, a, k: struct_pack(it, st, a[0], a[1:])),
        'iter_unpack': fnat('iter_unpack', lambda it, st, a, k: struct_iter(it, st, a[0], a[1])),
        'calcsize': fnat('calcsize', lambda it, st, a, k: it.with_leaves(
            st, a[0], lambda s, f: counted_size(f) if type(f) is X else const(parse_fmt(fmt_of(it, s, f))[1]))),
        'Struct': ncls(it, 'StructT'),
        'error': ncls(it, 'struct.error'),
    }


# ------------------------------------------------------------------ streams

@ctor('BytesIO')
def c_bytesio(it, st, cls, a, k):
    v = a[0] if a else k.get('initial_bytes', BEMPTY)
    v = bytes_arg(it, st, v)
    v = ite_none(v)
    return it.new(st, cls, {'content': v, 'pos': ZERO, 'closed': FALSE})


def ite_none(v):
    return map_leaves(v, lambda l: BEMPTY if l is NONE else l)


def content_len(c):
    return blen(c)


def take(c, p, n):
    """(bytes, new position) of read(n) at p; n None: everything"""
    if c is UNDEF or p is UNDEF:
        return UNDEF, UNDEF
    if n is None:
        b = sub(c, p, None)
        return b, padd(p, blen(b))
    b = sub(c, p, n)
    return b, padd(p, blen(b))


def stream_read(it, st, s, n):
    r = st.get(s.oid).attrs
    c, p = r['content'], r['pos']
    if n is None or n is NONE or pconst(n) is not None and pconst(n) < 0:
        b = it.pure(st, lambda c, p: take(c, p, None)[0], (c, p))
        p2 = apply(lambda c, p: take(c, p, None)[1], (c, p))
    else:
        def ok(x):
            return x is UNDEF or is_int_leaf(x)
        for lf, cc in leaves(n, st.guard):
            if lf is NONE or (type(lf) is C and isinstance(lf.v, int) and lf.v < 0):
                # branch on the sentinel
                return it.branch(st, cc, lambda t: stream_read(it, t, s, None),
                                 lambda t: stream_read(it, t, s, constrain(n, not_(cc))))
            if not ok(lf):
                it.check(st, not_(cc), 'TypeError', const('argument should be integer or None'))
                n = constrain(n, not_(cc))
        lo = min(rng(l)[0] for l, _ in leaves(n, st.guard) if is_int_leaf(l))
        if lo < 0:
            neg = apply(lambda l: UNDEF if l is UNDEF else cmp_zero(l, '<'), (n,))
            neg = it.under(st, neg)
            if neg is not FALSE:
                return it.branch(st, neg, lambda t: stream_read(it, t, s, None),
                                 lambda t: read_n(it, t, s, n))
        return read_n(it, st, s, n)
    it.set_attr_raw(st, s.oid, 'pos', p2)
    return b


def read_n(it, st, s, n):
    r = st.get(s.oid).attrs
    c, p = r['content'], r['pos']
    b = it.pure(st, lambda c, p, n: take(c, p, n)[0], (c, p, n))
    p2 = apply(lambda c, p, n: take(c, p, n)[1], (c, p, n))
    it.set_attr_raw(st, s.oid, 'pos', p2)
    return b


def check_open(it, st, s):
    cl = st.get(s.oid).attrs.get('closed', FALSE)
    it.check(st, not_(cl), 'ValueError', const('I/O operation on closed file.'))


@nmethod('IOBase', 'read', 'read1')
def io_read(it, st, a, k):
    check_open(it, st, a[0])
    return stream_read(it, st, a[0], a[1] if len(a) > 1 else k.get('size', NONE))


@nmethod('IOBase', 'readinto', 'readinto1')
def io_readinto(it, st, a, k):
    check_open(it, st, a[0])
    if type(a[1]) is not R or it.native_kind(st, a[1]) != 'bytearray':
        raise Unsupported('readinto')
    old = st.get(a[1].oid).attrs['data']
    n = apply(blen, (old,))
    b = stream_read(it, st, a[0], n)
    m = apply(blen, (b,))
    rest = it.pure(st, lambda o, x: sub(o, x, None), (old, m))
    it.set_attr_raw(st, a[1].oid, 'data', it.binop(st, '+', b, rest))
    return m


@nmethod('IOBase', 'seek')
def io_seek(it, st, a, k):
    check_open(it, st, a[0])
    s, off = a[0], a[1]
    wh = a[2] if len(a) > 2 else k.get('whence', ZERO)
    w = pconst(wh)
    if w is None:
        raise Unsupported('seek with unknown whence')
    if has_ref(off) or any(not is_int_leaf(l) and l is not UNDEF for l, _ in leaves(off, st.guard)):
        it.raise_now(st, 'TypeError')
    off = map_leaves(off, lambda l: l if is_int_leaf(l) else UNDEF)      # others are excluded on this path
    r = st.get(s.oid).attrs
    if w == 0:
        if min(rng(l)[0] for l, _ in leaves(off, st.guard) if l is not UNDEF) < 0:
            neg = it.under(st, apply(lambda l: UNDEF if l is UNDEF else cmp_zero(l, '<'), (off,)))
            it.check(st, not_(neg), 'ValueError', const('negative seek value'))
        p = off
    elif w == 1:
        p = it.binop(st, '+', r['pos'], off)
        p = map_leaves(p, lambda l: ZERO if type(l) is C and l.v < 0 else l)
    else:
        p = it.binop(st, '+', apply(content_len, (r['content'],)), off)
    it.set_attr_raw(st, s.oid, 'pos', p)
    return p


@nmethod('IOBase', 'tell')
def io_tell(it, st, a, k):
    check_open(it, st, a[0])
    return st.get(a[0].oid).attrs['pos']


@nmethod('BytesIO', 'getvalue')
def io_getvalue(it, st, a, k):
    return st.get(a[0].oid).attrs['content']


@nmethod('IOBase', 'write')
def io_write(it, st, a, k):
    check_open(it, st, a[0])
    s = a[0]
    data = bytes_arg(it, st, a[1])
    r = st.get(s.oid).attrs
    c, p = r['content'], r['pos']

    def fin(t, cl):
        def go(t2, pl):
            def w(t3, dl):
                if ty_of(dl) != 'bytes':
                    it.raise_now(t3, 'TypeError', const('a bytes-like object is required'))
                n, L = blen(dl), blen(cl)
                d = padd(L, pl, -1)
                if pconst(d) == 0:
                    nc = bcat([cl, dl])
                else:
                    head = sub(cl, ZERO, pl)
                    rest = padd(d, n, -1)
                    if pconst(d) is not None and pconst(d) < 0:
                        nc = bcat([cl, const(bytes(-pconst(d))), dl])
                    elif rng(rest)[1] <= 0:
                        nc = bcat([head, dl])
                    else:
                        nc = bcat([head, dl, sub(cl, padd(pl, n), None)])
                it.set_attr_raw(t3, s.oid, 'content', nc)
                it.set_attr_raw(t3, s.oid, 'pos', padd(pl, n))
                return n
            return it.with_leaves(t2, data, w)
        return it.with_leaves(t, p, go)
    return it.with_leaves(st, c, fin)


@nmethod('IOBase', 'close')
def io_close(it, st, a, k):
    it.set_attr_raw(st, a[0].oid, 'closed', TRUE)
    return NONE


nmethod('IOBase', '__enter__')(lambda it, st, a, k: a[0])
nmethod('IOBase', '__exit__')(io_close)
nmethod('IOBase', 'flush')(lambda it, st, a, k: NONE)
for _n in ('readable', 'seekable', 'writable'):
    nmethod('IOBase', _n)(lambda it, st, a, k: TRUE)


@nmethod('BytesIO', 'truncate')
def io_truncate(it, st, a, k):
    r = st.get(a[0].oid).attrs
    n = a[1] if len(a) > 1 else r['pos']
    it.set_attr_raw(st, a[0].oid, 'content', it.pure(st, lambda c, n: sub(c, ZERO, n), (r['content'], n)))
    return n


OPENED = 'opened files'


def open_file(it, st, a, k):
    mode = a[1] if len(a) > 1 else k.get('mode', const('r'))
    m = to_py(mode)
    path = a[0]
    content = root('file')
    r = it.new(st, ncls(it, 'File'), {'content': content if 'w' not in m else BEMPTY, 'pos': ZERO, 'closed': FALSE,
                                      'name': path, 'mode': mode})
    it.opened = getattr(it, 'opened', [])
    it.opened.append(r)
    if 'b' not in m:
        raise Unsupported('text mode file')
    return r


# ------------------------------------------------------------------ datetime

def dt_module(it):
    dt = ncls(it, 'datetime')
    td = ncls(it, 'timedelta')
    utc = term('app', ('tz', const('utc')), 'tzinfo')
    tz = mk(ModV, name='datetime.timezone', native={'utc': utc})
    return {'datetime': dt, 'timedelta': td, 'timezone': tz, 'date': ncls(it, 'date'), 'UTC': utc,
            'tzinfo': ncls(it, 'tzinfo')}


@ctor('datetime')
def c_datetime(it, st, cls, a, k):
    a = list(a)
    names = ('year', 'month', 'day', 'hour', 'minute', 'second', 'microsecond', 'tzinfo')
    d = dict(zip(names, a))
    d.update(k)
    tz = d.pop('tzinfo', NONE)
    if set(d) <= set(names) and all(pconst(v) is not None for v in d.values()) and (tz is NONE or ops.is_app(tz, 'tz')):
        try:
            x = _dt.datetime(**{n: pconst(v) for n, v in d.items()}) - _dt.datetime(1970, 1, 1)
        except (ValueError, TypeError):
            it.raise_now(st, 'ValueError')
        return ops.moment(const((x.days * 86400 + x.seconds) * 1000000 + x.microseconds), 'utc' if tz is NONE else 'aware')
    return it.pure(st, lambda *x: app('datetime', x + tuple(), 'datetime'), a + [
        tup((const(n), v)) for n, v in sorted(k.items())])


UNIT = {'days': 86400000000, 'seconds': 1000000, 'microseconds': 1, 'milliseconds': 1000, 'minutes': 60000000,
        'hours': 3600000000, 'weeks': 7 * 86400000000}


@ctor('timedelta')
def c_timedelta(it, st, cls, a, k):
    names = ['days', 'seconds', 'microseconds', 'milliseconds', 'minutes', 'hours', 'weeks']
    d = dict(zip(names, a))
    d.update(k)
    keys = sorted(d)

    def f(*x):
        us = ZERO
        for n, v in zip(keys, x):
            y = pmul(v, const(UNIT[n])) if is_int_leaf(v) and n in UNIT else None
            us = None if us is None or y is None else padd(us, y)
        if us is not None:
            return app('span', (us,), 'timedelta')
        return app('timedelta', (const(','.join(keys)),) + x, 'timedelta')
    return it.pure(st, f, [d[n] for n in keys])


def cls_fn(cls, name, fn):
    METHODS[(cls, name)] = fnat('%s.%s' % (cls, name), fn)


def strip_cls(a):
    return list(a[1:]) if a and type(a[0]) is ClassV else list(a)


def fromts(name):
    def fn(it, st, a, k):
        a = strip_cls(a)
        args = a + [k[n] for n in sorted(k)]
        nm = name
        if name == 'fromtimestamp' and len(args) == 2 and args[1] is NONE:
            args = args[:1]

        def f(x, *tz):
            us = pmul(x, const(1000000)) if is_int_leaf(x) else None
            if us is not None and (not tz or nm == 'fromtimestamp' and ops.is_app(tz[0], 'tz')):
                return ops.moment(us, 'aware' if tz else 'utc' if nm == 'utcfromtimestamp' else 'local')
            return app(nm, (x,) + tz, 'datetime')
        return it.pure(st, f, args)
    return fn


for _n in ('utcfromtimestamp', 'fromtimestamp'):
    cls_fn('datetime', _n, fromts(_n))
cls_fn('datetime', 'now', lambda it, st, a, k: app('now', (), 'datetime'))
cls_fn('datetime', 'utcnow', lambda it, st, a, k: app('utcnow', (), 'datetime'))


@nmethod('datetime', 'strftime')
def dt_strftime(it, st, a, k):
    return it.pure(st, lambda d, f: app('strftime', (d, f), 'str'), a[:2])


@nmethod('datetime', 'replace')
def dt_replace(it, st, a, k):
    keys = sorted(k)
    if keys == ['tzinfo'] and ops.is_app(a[0], 'moment') and a[0].args[2].v in ('utc', 'aware') and (
            k['tzinfo'] is NONE or ops.is_app(k['tzinfo'], 'tz')):
        return ops.moment(a[0].args[1], 'utc' if k['tzinfo'] is NONE else 'aware')
    return it.pure(st, lambda d, *x: app('dt.replace', (d, const(','.join(keys))) + x, 'datetime'),
                   [a[0]] + [k[n] for n in keys])


nmethod('datetime', 'isoformat')(lambda it, st, a, k: it.pure(st, lambda d: app('dt.isoformat', (d,), 'str'), a[:1]))
nmethod('datetime', 'timestamp')(lambda it, st, a, k: it.pure(st, lambda d: app('dt.timestamp', (d,), 'float'), a[:1]))
nmethod('datetime', 'astimezone')(lambda it, st, a, k: it.pure(st, lambda *d: app('dt.astimezone', d, 'datetime'), a))
nmethod('timedelta', 'total_seconds')(lambda it, st, a, k: it.pure(
    st, lambda d: app('dt.total_seconds', (d,), 'float'), a[:1]))


# ------------------------------------------------------------------ ipaddress

def ip_ctor(ty, n):
    def fn(it, st, cls, a, k):
        def f(x):
            t = ty_of(x)
            if x is UNDEF:
                return UNDEF
            if t == 'bytes':
                L = pconst(blen(x)) if has_len(x) else None
                if L is not None and L != n:
                    return raise_('AddressValueError')
                return term('app', (ty, x), ty)
            if t == 'int' and type(x) is X and x.op == 'app' and x.args[0] == 'int_be':
                return term('app', (ty, x.args[1]), ty)
            if t == 'int':
                c = pconst(x)
                if c is not None:
                    return term('app', (ty, const(c.to_bytes(n, 'big'))), ty)
                return term('app', (ty, app('pack_be', (x, const(n), FALSE), 'bytes')), ty)
            raise Unsupported('address from text')
        return it.pure(st, f, a[:1])
    return fn


CONSTRUCT['IPv4Address'] = ip_ctor('ipv4', 4)
CONSTRUCT['IPv6Address'] = ip_ctor('ipv6', 16)


def be16(b, i):
    return le_of(sub(b, const(2 * i), const(2)), 2, big=True)


def ip_attr(it, st, v, name):
    b = v.args[1]
    if name == 'packed':
        return b
    if v.ty == 'ipv6' and name == 'exploded':
        parts = []
        for i in range(8):
            if i:
                parts.append(const(':'))
            parts.append(fmt_int(be16(b, i), '04x'))
        return scat(parts)
    if v.ty == 'ipv4' and name in ('exploded', 'compressed'):
        return nv.nat_str.to_str(it, st, v)
    if name == 'compressed':
        return app('str', (v,), 'str')
    if name in ('version',):
        return const(4 if v.ty == 'ipv4' else 6)
    if name in ('is_loopback', 'is_private', 'is_unspecified', 'is_multicast'):
        return bool_of_var(app('ip.' + name, (v,), 'bool'))
    return None


def ip_address(it, st, a, k):
    def f(x):
        n = pconst(blen(x)) if ty_of(x) == 'bytes' else None
        if n == 4:
            return term('app', ('ipv4', x), 'ipv4')
        if n == 16:
            return term('app', ('ipv6', x), 'ipv6')
        raise Unsupported('ip_address')
    return it.pure(st, f, a[:1])


def inet_ntop(it, st, a, k):
    def f(fam, x):
        if pconst(fam) == 2:
            return nv.nat_str.to_str(it, st, term('app', ('ipv4', x), 'ipv4'))
        return app('str', (term('app', ('ipv6', x), 'ipv6'),), 'str')
    return it.pure(st, f, a[:2])


# ------------------------------------------------------------------ collections, functools, itertools

def namedtuple(it, st, a, k):
    name = to_py(a[0])
    f = a[1]
    if type(f) is C:
        fields = f.v.replace(',', ' ').split()
    else:
        fields = [to_py(x) for _, x in it.iter_items(st, f)]
    ns = {'_fields': tup([const(x) for x in fields])}
    d = k.get('defaults')
    if d is not None and d is not NONE:
        vals = [x for _, x in it.iter_items(st, d)]
        ns['__nt_defaults__'] = tup([tup((const(n), v)) for n, v in zip(fields[-len(vals):], vals)]) if vals else tup(())
    cls = it.make_class(st, name, [ncls(it, 'namedtuple')], ns, None)
    cls.fields = fields
    return cls


@nmethod('namedtuple', '_make')
def nt_make(it, st, a, k):
    return it.instantiate(st, a[0], it.unpack(st, a[1], None), {})


def partial_call(it, st, a, k):
    r = st.get(a[0].oid).attrs
    kw = dict(r['kw_'])
    kw.update(k)
    return it.call(st, r['func'], list(r['args'].items) + list(a[1:]), kw)


METHODS[('partial', '__call__')] = fnat('partial.__call__', partial_call)


class KW(dict):
    """keyword record that the merge treats as one opaque value"""
    id = 0


def partial(it, st, a, k):
    if k:
        f, pre = a[0], list(a[1:])
        kw = dict(k)

        def call(it, s, aa, kk):
            d = dict(kw)
            d.update(kk)
            return it.call(s, f, pre + list(aa), d)
        return fnat('partial', call)
    f, pre = a[0], list(a[1:])
    return fnat('partial', lambda it, s, aa, kk: it.call(s, f, pre + list(aa), kk))


def cached(it, st, a, k):
    """functools.lru_cache / cache: a memo table in the heap"""
    if not a or (type(a[0]) not in (FuncV,)):
        return fnat('lru_cache', lambda it, s, aa, kk: cached(it, s, aa, {}))
    table = it.new(st, ncls(it, 'dict'), {}, ())
    return it.new(st, ncls(it, 'cached'), {'fn_': a[0], 'table_': table})


@nmethod('cached', '__call__')
def cached_call(it, st, a, k):
    r = st.get(a[0].oid).attrs
    if k:
        return it.call(st, r['fn_'], list(a[1:]), k)
    key = tup(a[1:])
    for x in a[1:]:
        nv.hash_value(it, st, x)
    pres, val = it.dict_lookup(st, r['table_'], key)

    def miss(s):
        v = it.call(s, r['fn_'], list(a[1:]), {})
        it.dict_set(s, r['table_'], key, v)
        return v
    return it.branch(st, pres, lambda s: it.clean(s, val, pres), miss)


nmethod('cached', 'cache_clear')(lambda it, st, a, k: (it.set_items(st, st.get(a[0].oid).attrs['table_'], ()), NONE)[1])


def reduce_(it, st, a, k):
    items = it.iter_items(st, a[1])
    if len(a) > 2:
        acc = a[2]
    else:
        if not items:
            it.raise_now(st, 'TypeError')
        acc = items[0][1]
        if items[0][0] is not TRUE:
            raise Unsupported('reduce over a sequence of unknown length')
        items = items[1:]
    box = [acc]
    tmp = it.new(st, ncls(it, 'object'), {'v': acc})

    def body(s, x):
        it.set_attr_raw(s, tmp.oid, 'v', it.call(s, a[0], [s.get(tmp.oid).attrs['v'], x], {}))
    for g, x in items:
        it.guarded(st, g, x, body)
    return st.get(tmp.oid).attrs['v']


def wraps(it, st, a, k):
    def wrap(it, s, aa, kk):
        f = aa[0]
        if type(f) is FuncV and type(a[0]) is FuncV:
            g = mk(FuncV, **{n: getattr(f, n) for n in FuncV.__slots__})
            g.name = a[0].name
            return g
        return f
    return fnat('wraps', wrap)


def total_ordering(it, st, a, k):
    return a[0]


def count(it, st, a, k):
    return it.new(st, ncls(it, 'count'), {'n': a[0] if a else k.get('start', ZERO),
                                          'step': a[1] if len(a) > 1 else k.get('step', const(1))})


def islice(it, st, a, k):
    src = a[0]
    if it.is_gen(st, src):
        b = list(a[1:])
        if len(b) == 1:
            b = [NONE, b[0], NONE]
        b += [NONE] * (3 - len(b))
        return nv.lazy(it, st, 'islice', src, ZERO if b[0] is NONE else b[0], b[1], const(1) if b[2] is NONE else b[2])
    if len(a) == 2 and nv.is_lazy(st, src):
        if pconst(a[1]) is None:
            raise Unsupported('islice')
        return it.new(st, ncls(it, 'iterator'), {'src': tup((const('slice'), src)), 'left': a[1]}, ())
    lst = it.new(st, ncls(it, 'list'), {}, ())
    items = None
    if type(src) is R and st.get(src.oid).cls.native == 'iterator' and len(a) == 2:
        n = pconst(a[1])
        items = st.get(src.oid).items
        if n is not None and all(g is TRUE for g, _ in items[:n]):
            it.set_items(st, src, items[n:])
            return it.new(st, ncls(it, 'iterator'), {}, items[:n])
    it.set_items(st, lst, tuple(it.iter_items(st, src)))
    args = list(a[1:])
    if len(args) == 1:
        args = [NONE, args[0], NONE]
    while len(args) < 3:
        args.append(NONE)
    sl = it.new(st, ncls(it, 'slice'), {'start': args[0], 'stop': args[1], 'step': args[2]})
    r = nv.nat_seq.list_slice(it, st, lst, sl)
    return it.new(st, ncls(it, 'iterator'), {}, st.get(r.oid).items)


def chain(it, st, a, k):
    if any(it.is_gen(st, x) for x in a):
        return nv.lazy(it, st, 'chain', tup(a))
    out = []
    for x in a:
        out += it.iter_items(st, x)
    return it.new(st, ncls(it, 'iterator'), {}, tuple(out))


def chain_from(it, st, a, k):
    if it.is_gen(st, a[0]):
        return nv.lazy(it, st, 'chain', a[0])
    return chain(it, st, [x for _, x in it.iter_items(st, a[0])], {})


def repeat(it, st, a, k):
    if len(a) == 1:
        return nv.lazy(it, st, 'repeat', a[0])
    if pconst(a[1]) is None:
        raise Unsupported('repeat')
    return it.new(st, ncls(it, 'iterator'), {}, tuple((TRUE, a[0]) for _ in range(pconst(a[1]))))


def zip_longest(it, st, a, k):
    fill = k.get('fillvalue', NONE)
    seqs = [it.iter_items(st, x) for x in a]
    if any(g is not TRUE for s in seqs for g, _ in s):
        raise Unsupported('zip_longest')
    n = max(len(s) for s in seqs)
    return it.new(st, ncls(it, 'iterator'), {}, tuple(
        (TRUE, tup([s[i][1] if i < len(s) else fill for s in seqs])) for i in range(n)))


def takewhile(it, st, a, k):
    v = None if it.is_gen(st, a[1]) else it.settled(st, lambda s: takewhile_list(it, s, a, k))
    return nv.lazy(it, st, 'takewhile', a[0], a[1]) if v is None else v


def takewhile_list(it, st, a, k):
    out = it.new(st, ncls(it, 'list'), {}, ())
    alive = TRUE
    for g, x in it.iter_items(st, a[1]):
        c = it.truth(st, it.call(st, a[0], [x], {}))
        alive = and_(alive, or_(not_(g), c))
        gg = and_(g, alive)
        if gg is not FALSE:
            it.set_items(st, out, st.get(out.oid).items + ((gg, x),))
    return it.new(st, ncls(it, 'iterator'), {}, st.get(out.oid).items)


def opfn(op):
    return lambda it, st, a, k: it.binop(st, op, a[0], a[1])


def attrgetter(it, st, a, k):
    names = [x.v for x in a]

    def call(it, s, aa, kk):
        out = []
        for n in names:
            v = aa[0]
            for p in n.split('.'):
                v = it.get_attr(s, v, p)
            out.append(v)
        return out[0] if len(out) == 1 else tup(out)
    return fnat('attrgetter', call)


def itemgetter(it, st, a, k):
    keys = list(a)

    def call(it, s, aa, kk):
        out = [it.getitem(s, aa[0], x) for x in keys]
        return out[0] if len(out) == 1 else tup(out)
    return fnat('itemgetter', call)


def methodcaller(it, st, a, k):
    return fnat('methodcaller', lambda it, s, aa, kk: it.call_method(s, aa[0], a[0].v, list(a[1:]), k))


def copy_copy(it, st, a, k):
    def go(s, l):
        if type(l) is R:
            r = s.get(l.oid)
            if it.find_user_method(r.cls, '__copy__', s) is not None:
                return it.call_method(s, l, '__copy__', [])
            return it.new(s, r.cls, dict(r.attrs), r.items)
        return l
    return it.with_leaves(st, a[0], go)


def copy_deep(it, st, a, k):
    memo = {}

    def rec(v):
        if type(v) is R:
            if v.oid in memo:
                return memo[v.oid]
            r = st.get(v.oid)
            if r.cls is None:
                return v
            n = it.new(st, r.cls, {}, None)
            memo[v.oid] = n
            attrs = {kk: rec(x) for kk, x in r.attrs.items()}
            items = None if r.items is None else tuple(tuple([e[0]] + [rec(y) for y in e[1:]]) for e in r.items)
            st.heap[n.oid] = Rec(r.cls, attrs, items)
            return n
        if type(v) is T and has_ref(v):
            return tup([rec(x) for x in v.items])
        if type(v) is N and has_ref(v):
            return map_leaves(v, rec)
        return v
    return rec(a[0])


def warn(it, st, a, k):
    return NONE


def auto(it, st, a, k):
    return term('auto', (), 'any')


def unique(it, st, a, k):
    return a[0]


class _Any(dict):
    """module whose every attribute is an inert typing marker"""

    def get(self, k, d=None):
        if k.startswith('__'):
            return d
        if k not in self:
            self[k] = mk(ClassV, name=k, qual=k, bases=[], mro=None, native='Generic', is_enum=False, is_int=False)
            self[k].mro = [self[k]]
        return self[k]


def typing_module(it):
    def nt(it, st, a, k):
        fields = [x.items[0] for _, x in it.iter_items(st, a[1])]
        return namedtuple(it, st, [a[0], tup(fields)], {})
    m = _Any()
    m['NamedTuple'] = ncls(it, 'NamedTuple')
    m['TYPE_CHECKING'] = FALSE
    m['cast'] = fnat('cast', lambda it, st, a, k: a[1])
    m['overload'] = fnat('overload', lambda it, st, a, k: a[0])
    m['no_type_check'] = m['overload']
    m['TypeVar'] = fnat('TypeVar', lambda it, st, a, k: NONE)
    m['Generic'] = ncls(it, 'Generic')
    return m


def logger(it):
    f = fnat('log', warn)
    lm = mk(ModV, name='logger', native={n: f for n in ('debug', 'info', 'warning', 'error', 'exception', 'critical',
                                                       'log', 'setLevel', 'addHandler')})
    d = dict(lm.native)
    d['getLogger'] = fnat('getLogger', lambda it, st, a, k: lm)
    d['NullHandler'] = fnat('NullHandler', lambda it, st, a, k: NONE)
    for n, v in (('DEBUG', 10), ('INFO', 20), ('WARNING', 30), ('ERROR', 40)):
        d[n] = const(v)
    return d


def hexlify(it, st, a, k):
    def f(b):
        import binascii
        if type(b) is C:
            return const(binascii.hexlify(b.v))
        return app('hexb', (b,), 'bytes')

    def chk(s, l):
        if ty_of(l) != 'bytes' and not (type(l) is X and l.ty in ('any', 'undef')):
            it.raise_now(s, 'TypeError', const('a bytes-like object is required'))
        return f(l)
    return it.with_leaves(st, bytes_arg(it, st, a[0]), chk)


def suppress(it, st, a, k):
    raise Unsupported('contextlib.suppress')


SUPPRESS_SRC = '''
class suppress(object):
    def __init__(self, *excs):
        self._excs = excs
    def __enter__(self):
        return None
    def __exit__(self, t, v, tb):
        return t is not None and issubclass(t, self._excs)

class closing(object):
    def __init__(self, thing):
        self.thing = thing
    def __enter__(self):
        return self.thing
    def __exit__(self, t, v, tb):
        self.thing.close()

class _GeneratorContextManager(object):
    def __init__(self, gen):
        self.gen = gen

def contextmanager(f):
    def make(*args, **kwargs):
        return _GeneratorContextManager(f(*args, **kwargs))
    return make

class _Dispatcher(object):
    def __init__(self, func):
        self.func = func
        self.registry = {}
        self.__name__ = func.__name__
    def dispatch(self, cls):
        for c in cls.__mro__:
            if c in self.registry:
                return self.registry[c]
        return self.func
    def register(self, cls, func=None):
        if func is None:
            if not isinstance(cls, type):
                func = cls
                for cls in func.__annotations__.values():
                    break
                self.registry[cls] = func
                return func
            return lambda f: self.register(cls, f)
        self.registry[cls] = func
        return func
    def __call__(self, *args, **kwargs):
        return self.dispatch(type(args[0]))(*args, **kwargs)

class cached_property(object):
    def __init__(self, func):
        self.func = func
        self.attrname = None
    def __set_name__(self, owner, name):
        self.attrname = name
    def __get__(self, instance, owner=None):
        if instance is None:
            return self
        val = self.func(instance)
        setattr(instance, self.attrname, val)
        return val

class nullcontext(object):
    def __init__(self, enter_result=None):
        self.enter_result = enter_result
    def __enter__(self):
        return self.enter_result
    def __exit__(self, t, v, tb):
        return None
'''


def rounding(n, x):
    import math
    if type(x) is C:
        return const(getattr(math, n)(x.v))
    if ty_of(x) == 'int':
        return x
    return app(n, (x,), 'int')


def pysrc(it, name):
    m = it.modules.get('<helpers>') or src_module(it, '<helpers>', SUPPRESS_SRC)
    return it.init_state.get(m.oid).attrs[name]



def dc_field(it, st, a, k):
    r = it.new(st, ncls(it, 'dcfield'), dict(k))
    return r


def dataclass(it, st, a, k):
    """dataclasses.dataclass: the methods it would generate, as source, interpreted in the module of the class"""
    if not a:
        return fnat('dataclass', lambda it, s, aa, kk: dataclass(it, s, aa, k))
    cls = a[0]
    opt = {n: pconst(v) for n, v in k.items()}
    fields = {}
    for c in reversed(cls.mro):
        if c.native is not None or c.oid is None:
            continue
        at = st.get(c.oid).attrs
        if c is not cls:
            for x in at.get('__dc_fields__', tup(())).items:
                fields[x.items[0].v] = x
            continue
        for n in at.get('__annotations_order__', tup(())).items:
            d = at.get(n.v)
            f = {'init': True, 'repr': True, 'compare': True, 'default': None, 'default_factory': None, 'hash': None,
                 'kw_only': opt.get('kw_only', False)}
            if type(d) is R and st.get(d.oid).cls is not None and st.get(d.oid).cls.native == 'dcfield':
                for kk, v in st.get(d.oid).attrs.items():
                    f[kk] = v if kk in ('default', 'default_factory') else pconst(v)
                rec = st.get(c.oid)
                at2 = dict(rec.attrs)
                at2.pop(n.v)
                if f['default'] is not None:
                    at2[n.v] = f['default']
                st.heap[c.oid] = Rec(rec.cls, at2, rec.items)
            elif d is not None:
                f['default'] = d
            fields[n.v] = tup((n, mk(Native, name='dcf', fn=f)))
    it.set_attr_raw(st, cls.oid, '__dc_fields__', tup(tuple(fields.values())))
    fs = [(n, x.items[1].fn) for n, x in fields.items()]
    ns = {}
    params, body, kwp = [], [], []
    put = 'object.__setattr__(self, %r, %s)' if opt.get('frozen') else 'self.%s = %s'
    for n, f in fs:
        if f['default'] is not None:
            ns['_pva_d_' + n] = f['default']
        if f['default_factory'] is not None:
            ns['_pva_f_' + n] = f['default_factory']
        if not f['init']:
            if f['default_factory'] is not None:
                body.append(put % (n, '_pva_f_%s()' % n))
            continue
        val = n
        if f['default'] is not None:
            p = '%s=_pva_d_%s' % (n, n)
        elif f['default_factory'] is not None:
            ns['_pva_none_'] = mk(Native, name='HAS_DEFAULT_FACTORY', fn=None)
            p = '%s=_pva_none_' % n
            val = '_pva_f_%s() if %s is _pva_none_ else %s' % (n, n, n)
        else:
            p = n
        (kwp if f['kw_only'] else params).append(p)
        body.append(put % (n, val))
    have = st.get(cls.oid).attrs
    if any('__post_init__' in st.get(c.oid).attrs for c in cls.mro if c.native is None and c.oid is not None):
        body.append('self.__post_init__()')
    src = []
    if opt.get('init', True):
        src.append('def __init__(%s):\n    %s\n' % (', '.join(['self'] + params + (['*'] + kwp if kwp else [])), '\n    '.join(body or ['pass'])))
    if opt.get('repr', True) and '__repr__' not in have:
        src.append('def __repr__(self):\n    return %r + "(" + ", ".join([%s]) + ")"\n' % (
            cls.name, ', '.join('%r + repr(self.%s)' % (n + '=', n) for n, f in fs if f['repr'])))
    cmp_ = [n for n, f in fs if f['compare']]
    t = lambda o: '(' + ''.join('%s.%s, ' % (o, n) for n in cmp_) + ')'
    if opt.get('eq', True) and '__eq__' not in have:
        src.append('def __eq__(self, other):\n    if other.__class__ is self.__class__:\n        return %s == %s\n    return NotImplemented\n' % (t('self'), t('other')))
    if opt.get('order'):
        for nm, o in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            src.append('def __%s__(self, other):\n    if other.__class__ is self.__class__:\n        return %s %s %s\n    return NotImplemented\n' % (nm, t('self'), o, t('other')))
    eq, frozen = opt.get('eq', True), opt.get('frozen', False)
    if opt.get('unsafe_hash') or eq and frozen:
        src.append('def __hash__(self):\n    return hash(%s)\n' % t('self'))
    if frozen:
        src.append('def __setattr__(self, name, value):\n    raise AttributeError(name)\n')
        src.append('def __delattr__(self, name):\n    raise AttributeError(name)\n')
    m = mk(ModV, name='<dataclass %s>' % cls.name, path='<dataclass %s>' % cls.name, pkg=False)
    m.oid = it.new(st, None, dict(ns, __name__=const(cls.name))).oid
    it.exec_block(st, ast.parse('\n'.join(src) or 'pass').body, Frame(m.oid, None, m))
    for n, v in st.get(m.oid).attrs.items():
        if type(v) is FuncV:
            v.owner = cls
            it.set_attr_raw(st, cls.oid, n, v)
    if eq and not frozen and not opt.get('unsafe_hash') and '__hash__' not in have:
        it.set_attr_raw(st, cls.oid, '__hash__', NONE)
    return cls


def dc_names(it, st, c):
    c = c if type(c) is ClassV else st.get(c.oid).cls
    f = it.class_attr(st, c, '__dc_fields__')
    if f is None:
        it.raise_now(st, 'TypeError')
    return [x.items[0] for x in f.items]


def dc_asdict(it, st, a, k):
    def conv(s, v):
        if type(v) is R and st.get(v.oid).cls is not None and it.class_attr(s, st.get(v.oid).cls, '__dc_fields__') is not None:
            return it.new(s, ncls(it, 'dict'), {}, tuple((TRUE, n, conv(s, it.get_attr(s, v, n.v))) for n in dc_names(it, s, v)))
        return copy_deep(it, s, [v], {})
    return conv(st, a[0])


def dc_replace(it, st, a, k):
    kw = {n.v: it.get_attr(st, a[0], n.v) for n in dc_names(it, st, a[0])}
    kw.update(k)
    return it.call(st, st.get(a[0].oid).cls, [], kw)


def native_module(it, name):
    b = None
    if name == 'struct':
        b = struct_module(it)
    elif name == 'io':
        b = {'BytesIO': ncls(it, 'BytesIO'), 'SEEK_SET': ZERO, 'SEEK_CUR': const(1), 'SEEK_END': const(2),
             'IOBase': ncls(it, 'IOBase'), 'RawIOBase': ncls(it, 'IOBase'), 'BufferedIOBase': ncls(it, 'IOBase'),
             'UnsupportedOperation': ncls(it, 'UnsupportedOperation'), 'open': BUILTINS['open'],
             'DEFAULT_BUFFER_SIZE': const(8192)}
    elif name == 'os':
        b = {'SEEK_SET': ZERO, 'SEEK_CUR': const(1), 'SEEK_END': const(2), 'linesep': const('\n'),
             'PathLike': ncls(it, 'object')}
    elif name == 'collections':
        b = {n: ncls(it, n) for n in ('OrderedDict', 'defaultdict', 'Counter', 'deque')}
        b['namedtuple'] = fnat('namedtuple', namedtuple)
        b['abc'] = mk(ModV, name='collections.abc', native={n: ncls(it, n) for n in (
            'Mapping', 'Sequence', 'Iterable', 'Callable')})
    elif name == 'collections.abc':
        b = {n: ncls(it, n) for n in ('Mapping', 'Sequence', 'Iterable', 'Callable')}
    elif name == 'enum':
        b = {'Enum': ncls(it, 'Enum'), 'IntEnum': ncls(it, 'IntEnum'), 'auto': fnat('auto', auto),
             'unique': fnat('unique', unique), 'EnumMeta': ncls(it, 'type')}
    elif name == 'datetime':
        b = dt_module(it)
    elif name == 'ipaddress':
        b = {'IPv4Address': ncls(it, 'IPv4Address'), 'IPv6Address': ncls(it, 'IPv6Address'),
             'ip_address': fnat('ip_address', ip_address), 'AddressValueError': ncls(it, 'AddressValueError')}
    elif name == 'socket':
        b = {'AF_INET': const(2), 'AF_INET6': const(10), 'inet_ntop': fnat('inet_ntop', inet_ntop),
             'inet_ntoa': fnat('inet_ntoa', lambda it, st, a, k: inet_ntop(it, st, [const(2), a[0]], {}))}
    elif name == 'binascii':
        b = {'hexlify': fnat('hexlify', hexlify), 'b2a_hex': fnat('hexlify', hexlify),
             'Error': ncls(it, 'binascii.Error')}
    elif name == 'functools':
        b = {'partial': fnat('partial', partial), 'lru_cache': fnat('lru_cache', cached), 'cache': fnat('cache', cached),
             'reduce': fnat('reduce', reduce_), 'wraps': fnat('wraps', wraps),
             'total_ordering': fnat('total_ordering', total_ordering),
             'cached_property': pysrc(it, 'cached_property'), 'singledispatch': pysrc(it, '_Dispatcher')}
    elif name == 'dataclasses':
        b = {'dataclass': fnat('dataclass', dataclass), 'field': fnat('field', dc_field),
             'asdict': fnat('asdict', dc_asdict), 'replace': fnat('replace', dc_replace),
             'astuple': fnat('astuple', lambda it, st, a, k: tup(tuple(it.get_attr(st, a[0], n.v) for n in dc_names(it, st, a[0])))),
             'is_dataclass': fnat('is_dataclass', lambda it, st, a, k: const(it.class_attr(
                 st, a[0] if type(a[0]) is ClassV else st.get(a[0].oid).cls, '__dc_fields__') is not None))}
    elif name == 'itertools':
        def lz(nm, *more):
            def f(it, st, a, k):
                return nv.lazy(it, st, nm, *(list(a) + list(more)[len(a):] if len(a) < len(more) else list(a)))
            return fnat(nm, f)
        b = {'count': fnat('count', count), 'islice': fnat('islice', islice), 'chain': mk(
            Native, name='chain', fn=chain), 'repeat': fnat('repeat', repeat),
            'dropwhile': lz('dropwhile'), 'filterfalse': lz('filterfalse'), 'compress': lz('compress'),
            'pairwise': lz('pairwise'), 'cycle': lz('cycle'), 'groupby': lz('groupby', NONE, NONE),
            'accumulate': fnat('accumulate', lambda it, st, a, k: nv.lazy(
                it, st, 'accumulate', a[0], a[1] if len(a) > 1 and a[1] is not NONE else fnat('add', opfn('+')), k.get('initial', NONE))),
            'product': fnat('product', lambda it, st, a, k: nv.lazy(it, st, 'product', tup(
                list(a) * (pconst(k['repeat']) if 'repeat' in k else 1)))),
            'zip_longest': fnat('zip_longest', zip_longest), 'takewhile': fnat('takewhile', takewhile),
            'starmap': fnat('starmap', lambda it, st, a, k: nv.BUILTINS['map'].fn(
                it, st, [fnat('star', lambda it, s, aa, kk: it.call(s, a[0], it.unpack(s, aa[0], None), {})), a[1]], {}))}
    elif name == 'operator':
        b = {n: fnat(n, opfn(o)) for o, n in DUNDER.items()}
        b['and_'], b['or_'] = b.pop('and'), b.pop('or')
        b['attrgetter'] = fnat('attrgetter', attrgetter)
        b['itemgetter'] = fnat('itemgetter', itemgetter)
        b['methodcaller'] = fnat('methodcaller', methodcaller)
        b['eq'] = fnat('eq', lambda it, st, a, k: it.equals(st, a[0], a[1]))
        b['getitem'] = fnat('getitem', lambda it, st, a, k: it.getitem(st, a[0], a[1]))
    elif name == 'typing':
        b = typing_module(it)
    elif name == 'copy':
        b = {'copy': fnat('copy', copy_copy), 'deepcopy': fnat('deepcopy', copy_deep)}
    elif name == 'abc':
        b = {'ABC': ncls(it, 'ABC'), 'ABCMeta': ncls(it, 'type'),
             'abstractmethod': fnat('abstractmethod', lambda it, st, a, k: a[0])}
    elif name == 'warnings':
        b = {'warn': fnat('warn', warn), 'filterwarnings': fnat('warn', warn)}
    elif name == 'logging':
        b = logger(it)
    elif name == 'sys':
        b = {'version_info': tup([const(3), const(12), const(0)]), 'byteorder': const('little'),
             'maxsize': const(2 ** 63 - 1), 'modules': NONE}
    elif name == 'codecs':
        b = {'BOM_UTF16_LE': const(b'\xff\xfe'),
             'decode': fnat('decode', lambda it, st, a, k: nv.METHODS[('bytes', 'decode')].fn(it, st, a, k)),
             'encode': fnat('encode', lambda it, st, a, k: nv.METHODS[('str', 'encode')].fn(it, st, a, k))}
    elif name == 'math':
        b = {'inf': const(float('inf')), 'pi': const(3.141592653589793),
             'floor': fnat('floor', lambda it, st, a, k: it.pure(st, lambda x: rounding('floor', x), a)),
             'ceil': fnat('ceil', lambda it, st, a, k: it.pure(st, lambda x: rounding('ceil', x), a))}
    elif name == 'types':
        b = {'SimpleNamespace': ncls(it, 'SimpleNamespace'),
             'MappingProxyType': fnat('MappingProxyType', lambda it, st, a, k: a[0])}
    elif name == 'string':
        import string
        b = {n: const(getattr(string, n)) for n in ('digits', 'hexdigits', 'ascii_letters', 'printable', 'punctuation')}
    elif name == '__future__':
        b = {}
    elif name == 'contextlib':
        return src_module(it, name, SUPPRESS_SRC)
    elif name == 'numbers':
        b = {'Number': ncls(it, 'Number'), 'Integral': ncls(it, 'int')}
    if b is None:
        return None
    return mk(ModV, name=name, native=b)


@ctor('SimpleNamespace')
def c_sns(it, st, cls, a, k):
    r = it.new(st, cls, dict(k))
    return r


def src_module(it, name, src):
    m = mk(ModV, name=name, path='<%s>' % name, pkg=False)
    st = it.init_state
    m.oid = it.new(st, None, {'__name__': const(name)}).oid
    it.modules[name] = m
    saved = it.cur, it.sinks
    it.sinks = [[]]
    try:
        it.exec_block(st, ast.parse(src).body, Frame(m.oid, None, m))
    finally:
        it.cur, it.sinks = saved
    return m


import ast    # noqa: E402
