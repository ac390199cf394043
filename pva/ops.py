"""Pure leaf operations of the value domain: byte strings, integers, text."""
from .vals import *
from . import vals as _v

NONEK = None


class Ctx(object):
    """context of one analysis run: facts fixed about the inputs"""

    def __init__(self):
        self.bytes = {}       # (content id, base id) -> {const offset: byte}
        self.hits = set()     # facts consulted
        self.labels = {}      # (content id, base id, const) -> label
        self.pins = {}        # content -> [(base term, {const offset: byte})]
        self.bits = {}        # (content id, base id) -> {(const offset, bit): bool}
        self.bitpins = {}     # content -> [(base term, {(const offset, bit): bool})]
        self.rootlen = {}     # root term -> length value
        self.windows = 0      # reads assumed to lie inside their window
        self.eof_reads = 0

    def fork(self):
        c = Ctx()
        c.bytes = {k: dict(d) for k, d in self.bytes.items()}
        for content, lst in self.pins.items():
            c.pins[content] = [(base, c.bytes[(content.id, base.id)]) for base, _ in lst]
        c.bits = {k: dict(d) for k, d in self.bits.items()}
        for content, lst in self.bitpins.items():
            c.bitpins[content] = [(base, c.bits[(content.id, base.id)]) for base, _ in lst]
        c.labels = dict(self.labels)
        c.rootlen = dict(self.rootlen)
        return c


CTX = [Ctx()]


def split_off(off):
    p = poly_of(off)
    c, ts = p
    return mk_poly(0, ts), c


def known_byte(content, off):
    base, c = split_off(off)
    d = CTX[0].bytes.get((content.id, base.id))
    if not d:
        return None
    r = d.get(c)
    if r is not None:
        lab = CTX[0].labels.get((content.id, base.id, c))
        if lab is not None:
            CTX[0].hits.add(lab)
    return r


HOOK_BYTE[0] = known_byte


def assume_bytes(content, off, data, label=None):
    base, c = split_off(off)
    d = CTX[0].bytes.get((content.id, base.id))
    if d is None:
        d = CTX[0].bytes[(content.id, base.id)] = {}
        CTX[0].pins.setdefault(content, []).append((base, d))
    for i, b in enumerate(data):
        d[c + i] = b
        if label is not None:
            CTX[0].labels[(content.id, base.id, c + i)] = label


def known_bit(content, off, k):
    if not CTX[0].bits:
        return None
    base, c = split_off(off)
    d = CTX[0].bits.get((content.id, base.id))
    return d.get((c, k)) if d else None


HOOK_BIT[0] = known_bit


def assume_bit(content, off, k, val):
    base, c = split_off(off)
    key = (content.id, base.id)
    d = CTX[0].bits.get(key)
    if d is None:
        d = CTX[0].bits[key] = {}
        CTX[0].bitpins.setdefault(content, []).append((base, d))
    d[(c, k)] = val


def raise_(cls, *args):
    return term('raise', (cls,) + args, 'raise')


# ------------------------------------------------------------------ bytes

def root(name, length=None):
    r = term('root', (name,), 'bytes')
    if length is not None:
        CTX[0].rootlen[r] = length
    return r


def zeros(n):
    """that many zero bytes; none if negative"""
    if type(n) is C:
        return const(b'\0' * int(n.v))
    return ite(cmp_zero(n, '<'), const(b''), app('zeros', (n,), 'bytes'))


def blen(b):
    t = type(b)
    if t is X and b.op == 'app' and b.args[0] == 'zeros':
        return b.args[1]
    if t is C:
        return const(len(b.v))
    if b.op == 'slice':
        if b.args[2] is not None:
            return b.args[2]
        return app('len', (b,), 'int') if False else term('app', ('len', b), 'int', 0)
    if b.op == 'bcat':
        r = ZERO
        for p in b.args:
            r = padd(r, blen(p))
        return r
    if b.op == 'packle':
        return const(b.args[1])
    if b.op == 'root' and b in CTX[0].rootlen:
        return CTX[0].rootlen[b]
    return term('app', ('len', b), 'int', 0)


def has_len(b):
    if type(b) is C:
        return True
    if b.op == 'slice':
        return b.args[2] is not None
    if b.op == 'root':
        return b in CTX[0].rootlen
    return True


def bcat(parts):
    out = []
    for p in parts:
        if type(p) is X and p.op == 'bcat':
            sub = p.args
        else:
            sub = (p,)
        for q in sub:
            if type(q) is C and len(q.v) == 0:
                continue
            if out and type(q) is C and type(out[-1]) is C:
                out[-1] = const(out[-1].v + q.v)
                continue
            if out and type(q) is X and q.op == 'slice' and type(out[-1]) is X and out[-1].op == 'slice':
                a = out[-1]
                if a.args[0] is q.args[0] and a.args[2] is not None and padd(a.args[1], a.args[2]) is q.args[1]:
                    out[-1] = mk_slice(a.args[0], a.args[1], None if q.args[2] is None else padd(a.args[2], q.args[2]))
                    continue
            out.append(q)
    if not out:
        return BEMPTY
    if len(out) == 1:
        return out[0]
    return term('bcat', tuple(out), 'bytes')


def mk_slice(content, off, n):
    """content: a root-like bytes term; in bounds assumed"""
    if n is not None and type(n) is C:
        if n.v <= 0:
            return BEMPTY
        if n.v <= 64:
            bs = [known_byte(content, padd(off, const(i))) for i in range(n.v)]
            if all(b is not None for b in bs):
                return const(bytes(bs))
    if n is not None and off is ZERO and content in CTX[0].rootlen and CTX[0].rootlen[content] is n:
        return content
    return term('slice', (content, off, n), 'bytes')


def pconst(v):
    """constant value of an int leaf or None"""
    if type(v) is C and isinstance(v.v, int):
        return int(v.v)
    if type(v) is E:
        return v.value.v
    return None


def pmin(a, b):
    d = padd(a, b, -1)
    k = pconst(d) if d is not None else None
    if k is None:
        if d is not None:
            lo, hi = rng(d)
            if hi <= 0:
                return a
            if lo >= 0:
                return b
        return None
    return a if k <= 0 else b


def sub(b, off, n):
    """bytes [off, off+n) of leaf b (n None: to the end)"""
    if type(b) is C:
        o, k = pconst(off), (None if n is None else pconst(n))
        if o is not None and (n is None or k is not None):
            return const(b.v[o:] if n is None else b.v[o:o + k])
        return term('slice', (b, off, n), 'bytes')
    # clip to the window
    if has_len(b):
        L = blen(b)
        av = padd(L, off, -1)
        if n is None:
            n = av
        else:
            m = pmin(n, av)
            if m is None:
                CTX[0].windows += 1
            else:
                if m is not n:
                    CTX[0].eof_reads += 1
                n = m
        if pconst(n) is not None and pconst(n) <= 0:
            return BEMPTY
    if off is ZERO and b.op not in ('slice', 'root') and (n is None or n is blen(b)):
        return b
    if b.op == 'slice':
        c, o, _ = b.args
        if type(c) is not C:
            return mk_slice(c, padd(o, off), n)
        return term('slice', (c, padd(o, off), n), 'bytes')
    if b.op == 'bcat':
        pos = ZERO
        parts = list(b.args)
        if n is not None and n is padd(blen(b), off, -1):
            n = None
        for i, p in enumerate(parts):
            rel = pconst(padd(off, pos, -1))
            if rel is None:
                pos = padd(pos, blen(p))
                continue
            pl = pconst(blen(p))
            if rel == 0 or (rel > 0 and pl is not None and rel < pl):
                out = []
                rest = n
                first = const(rel)
                j = i
                while j < len(parts):
                    q = parts[j]
                    ql = padd(blen(q), first, -1)
                    if rest is None:
                        out.append(sub(q, first, None))
                    else:
                        d = padd(rest, ql, -1)
                        k = pconst(d)
                        if k is None:
                            lo, hi = rng(d)
                            if hi <= 0:
                                k = 0
                            elif lo >= 0:
                                k = 1
                            else:
                                done = span(parts, j, first, rest)
                                return bcat(out + done) if done is not None else term('slice', (b, off, n), 'bytes')
                        if k < 0 or k == 0:
                            out.append(sub(q, first, rest))
                            return bcat(out)
                        out.append(sub(q, first, ql))
                        rest = d
                    first = ZERO
                    j += 1
                else:
                    return bcat(out)
                break
            pos = padd(pos, blen(p))
        return term('slice', (b, off, n), 'bytes')
    return mk_slice(b, off, n)


def span(parts, j, first, n):
    """n bytes from offset first of part j on, if their end lies at a known offset of a later part"""
    out = []
    for q in parts[j:]:
        k = pconst(n)
        if k is not None and k >= 0:
            ql = pconst(padd(blen(q), first, -1))
            if k == 0:
                return out
            if ql is not None and k <= ql:
                return out + [sub(q, first, n)]
        ql = padd(blen(q), first, -1)
        out.append(sub(q, first, ql))
        n = padd(n, ql, -1)
        first = ZERO
    return out if pconst(n) == 0 else None


def mk_le(content, off, n, signed=False):
    """little-endian integer read from n bytes of a root-like content"""
    if type(content) is not C:
        bs = [known_byte(content, padd(off, const(i))) for i in range(n)]
        if all(b is not None for b in bs):
            return const(int.from_bytes(bytes(bs), 'little', signed=signed))
    lo, hi = (-(256 ** n) // 2, 256 ** n // 2 - 1) if signed else (0, 256 ** n - 1)
    if n == 0:
        return ZERO
    if CTX[0].bits and type(content) is not C and not signed and n <= 8 and any(
            known_bit(content, padd(off, const(i)), k) is not None for i in range(n) for k in range(8)):
        return from_bits(as_bits(term('le', (content, off, n, signed), 'int', lo, hi)))
    return term('le', (content, off, n, signed), 'int', lo, hi)


def le_of(b, n, signed=False, big=False):
    """integer held in the bytes leaf b of length n"""
    if type(b) is C:
        return const(int.from_bytes(b.v, 'big' if big else 'little', signed=signed))
    if big and n > 1:
        if n <= 8 and b.op == 'slice' and not signed and type(b.args[0]) is not C:
            bits = []
            for i in reversed(range(n)):
                bits += as_bits(mk_le(b.args[0], padd(b.args[1], const(i)), 1))
            return from_bits(bits)
        if n <= 8 and b.op == 'bcat' and not signed:
            bits = []
            pos = []
            for p in b.args:
                L = pconst(blen(p))
                if L is None:
                    break
                for i in range(L):
                    x = as_bits(le_of(sub(p, const(i), const(1)), 1), 8)
                    if x is None:
                        break
                    pos.append(x)
            else:
                if len(pos) == n:
                    for x in reversed(pos):
                        bits += x
                    return from_bits(bits)
        return app('int_be%s' % ('s' if signed else ''), (b,), 'int')
    if b.op == 'slice' and type(b.args[0]) is not C:
        return mk_le(b.args[0], b.args[1], n, signed)
    if b.op == 'packle' and b.args[1] == n and b.args[2] == signed:
        return b.args[0]
    if b.op in ('root', 'sym'):
        return mk_le(b, ZERO, n, signed)
    if b.op == 'bcat' and n <= 8 and not signed:
        bits = []
        ok = True
        for p in b.args:
            L = pconst(blen(p))
            if L is None:
                ok = False
                break
            x = as_bits(le_of(p, L), 8 * L)
            if x is None:
                ok = False
                break
            bits += x
        if ok:
            return from_bits(bits)
    return app('int_le%d%s' % (n, 's' if signed else ''), (b,), 'int')


def pack_le(v, n, signed=False, big=False):
    c = pconst(v)
    if c is not None:
        return const(int(c).to_bytes(n, 'big' if big else 'little', signed=signed))
    if v.op == 'le' and v.args[2] == n and v.args[3] == signed and not big:
        return mk_slice(v.args[0], v.args[1], const(n))
    if big and n > 1:
        return app('pack_be', (v, const(n), const(signed)), 'bytes')
    return term('packle', (v, n, signed), 'bytes')


# ------------------------------------------------------------------ strings

def scat(parts):
    out = []
    for p in parts:
        sub_ = p.args if type(p) is X and p.op == 'scat' else (p,)
        for q in sub_:
            if q is EMPTY:
                continue
            if out and type(q) is C and type(out[-1]) is C:
                out[-1] = const(out[-1].v + q.v)
            else:
                out.append(q)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return term('scat', tuple(out), 'str')


def fmt_int(v, spec):
    c = pconst(v)
    if spec == 'd':
        spec = ''
    if c is not None:
        return const(format(c, spec))
    if spec in ('#x', '#o', '#b') and type(v) is X and v.lo >= 0:
        return scat([const('0' + spec[1]), fmt_int(v, spec[1])])
    return term('fmt', (spec, v), 'str')


def is_str(v):
    return (type(v) is C and isinstance(v.v, str)) or (type(v) is X and v.ty == 'str')


def is_bytes(v):
    return (type(v) is C and isinstance(v.v, bytes)) or (type(v) is X and v.ty == 'bytes')


def is_const(v):
    if type(v) is C:
        return True
    if type(v) is T:
        return all(is_const(i) for i in v.items)
    return type(v) is E


def to_py(v):
    if type(v) is C:
        return v.v
    if type(v) is T:
        return tuple(to_py(i) for i in v.items)
    if type(v) is E:
        return to_py(v.value)
    raise TypeError('not constant: %r' % (v,))


def from_py(o):
    if isinstance(o, tuple):
        return tup(from_py(i) for i in o)
    if o is None or isinstance(o, (bool, int, str, bytes, float, type(Ellipsis))):
        return const(o)
    raise TypeError('cannot lift %r' % (type(o),))


# join of a guarded sequence
def join(sep, items):
    """sep const str; items: tuple of (guard, str value)"""
    its = []
    for g, v in items:
        if g is FALSE:
            continue
        its.append((g, v))
    if all(g is TRUE and type(v) is not N for g, v in its) and type(sep) in (C, X):
        out = []
        for i, (g, v) in enumerate(its):
            if i:
                out.append(sep)
            out.append(v)
        return scat(out)
    return term('join', (sep, tuple(its)), 'str')


# ------------------------------------------------------------------ equality

def ty_of(v):
    t = type(v)
    if t is C:
        if v.v is None:
            return 'none'
        return {bool: 'int', int: 'int', str: 'str', bytes: 'bytes', float: 'float'}.get(type(v.v), 'other')
    if t is E:
        return 'int' if v.cls.is_int else 'enum'
    if t is T:
        return 'tuple'
    if t is X:
        return 'int' if v.ty == 'bool' else v.ty
    if t is R:
        return 'ref'
    return 'obj'


def eq_leaf(a, b):
    """boolean value graph of a == b for scalar leaves (no heap objects)"""
    if a is b:
        if type(a) is C and isinstance(a.v, float) and a.v != a.v:
            return FALSE
        return TRUE
    ta, tb = ty_of(a), ty_of(b)
    if type(a) is C and type(b) is C:
        try:
            return const(a.v == b.v)
        except Exception:
            return FALSE
    if type(a) is T and type(b) is T:
        if len(a.items) != len(b.items):
            return FALSE
        r = TRUE
        for x, y in zip(a.items, b.items):
            r = and_(r, eq(x, y))
            if r is FALSE:
                return r
        return r
    if ta == 'int' and tb == 'int':
        for x, y in ((a, b), (b, a)):
            c = pconst(y)
            if c is not None and type(x) is X:
                if x.op == 'bits':
                    return bits_in(x, c, c) if 0 <= c < (1 << len(x.args)) else FALSE
        if (type(a) is X and a.op == 'bits') or (type(b) is X and b.op == 'bits'):
            xa, xb = as_bits(a), as_bits(b)
            if xa is not None and xb is not None:
                w = max(len(xa), len(xb))
                xa += [FALSE] * (w - len(xa))
                xb += [FALSE] * (w - len(xb))
                r = TRUE
                for p, q in zip(xa, xb):
                    r = and_(r, ite(p, q, not_(q)))
                    if r is FALSE:
                        break
                return r
        d = padd(a, b, -1)
        return cmp_zero(d, '==')
    if ta == 'int' and tb == 'float' or ta == 'float' and tb == 'int' or (ta == tb == 'float'):
        return bool_of_var(term('app', ('eq',) + tuple(sorted((a, b), key=lambda v: v.id)), 'bool'))
    known = ('int', 'str', 'bytes', 'none', 'tuple', 'float', 'ref', 'obj', 'enum', 'datetime', 'list', 'dict')
    if ta in known and tb in known and ta != tb:
        return FALSE
    if ta == tb == 'enum':
        return FALSE
    if 'obj' in (ta, tb) or 'ref' in (ta, tb):
        return FALSE
    for x, y in ((a, b), (b, a)):
        if type(y) is C and type(x) is X:
            return eq_xc(x, y)
    x, y = sorted((a, b), key=lambda v: v.id)
    return bool_of_var(term('app', ('eq', x, y), 'bool'))


def eq_xc(x, c):
    """term == constant for text/bytes terms"""
    if x.ty == 'str' and isinstance(c.v, str):
        s = c.v
        if x.op == 'scat':
            parts = list(x.args)
            if type(parts[0]) is C:
                if not s.startswith(parts[0].v):
                    return FALSE
                s = s[len(parts[0].v):]
                parts = parts[1:]
            if parts and type(parts[-1]) is C:
                if not s.endswith(parts[-1].v):
                    return FALSE
                s = s[:len(s) - len(parts[-1].v)]
                parts = parts[:-1]
            if len(parts) == 1:
                return eq_leaf(parts[0], const(s))
            if s == '':
                r = TRUE
                for p in parts:
                    r = and_(r, eq(p, EMPTY))
                return r
            if all(type(p) is X and p.op == 'fmt' for p in parts if type(p) is not C) and \
                    sum(len(p.v) if type(p) is C else 1 for p in parts) > len(s):
                return FALSE
        elif x.op == 'fmt':
            spec, v = x.args
            if s == '':
                return FALSE
            try:
                if spec in ('', 'd', ','):
                    k = int(s.replace(',', ''), 10)
                elif spec in ('x', 'X', '#x'):
                    k = int(s, 16)
                else:
                    raise KeyError
                if format(k, spec) != s:
                    return FALSE
                return eq_leaf(v, const(k))
            except ValueError:
                return FALSE
            except KeyError:
                pass
        elif x.op == 'join':
            sep, items = x.args
            if s == '' and all(type(v) is C and v.v for g, v in items):
                r = FALSE
                for g, v in items:
                    r = or_(r, g)
                return not_(r)
            if type(sep) is C and all(type(v) is C for g, v in items) and len(items) <= 40:
                return join_eq(sep.v, items, s)
        if x.op == 'app' and x.args[0] in ('str.upper',) and s != s.upper():
            return FALSE
    if x.ty == 'bytes' and isinstance(c.v, bytes):
        L = pconst(blen(x)) if has_len(x) else None
        if L is not None and L != len(c.v):
            return FALSE
        if x.op == 'slice' and L is not None and L <= 8:
            # consult known bytes
            for i in range(L):
                k = known_byte(x.args[0], padd(x.args[1], const(i))) if type(x.args[0]) is not C else None
                if k is not None and k != c.v[i]:
                    return FALSE
            if L in (1, 2, 4, 8):
                return cmp_zero(padd(le_of(x, L), const(int.from_bytes(c.v, 'little')), -1), '==')
        if c.v == b'' and x.op == 'bcat':
            r = TRUE
            for p in x.args:
                r = and_(r, eq(p, c))
            return r
        if c.v == b'' and has_len(x):
            return cmp_zero(blen(x), '==')
    if x.ty in ('str', 'bytes', 'any', 'datetime', 'list', 'dict'):
        if x.ty in ('datetime', 'list', 'dict') or (x.ty == 'str' and not isinstance(c.v, str)) or \
                (x.ty == 'bytes' and not isinstance(c.v, bytes)):
            return FALSE
        return mk_sym(x, [(c, TRUE)], FALSE)
    return bool_of_var(term('app', ('eq', x, c), 'bool'))


def join_eq(sep, items, s):
    """condition under which sep.join(present items) == s (dynamic programme)"""
    memo = {}

    def rec(i, pos, first):
        k = (i, pos, first)
        if k in memo:
            return memo[k]
        if i == len(items):
            r = const(pos == len(s))
        else:
            g, v = items[i]
            r = and_(not_(g), rec(i + 1, pos, first))
            t = v.v if first else sep + v.v
            if s.startswith(t, pos):
                r = or_(r, and_(g, rec(i + 1, pos + len(t), False)))
        memo[k] = r
        return r
    return rec(0, 0, True)


def eq(a, b):
    return apply(eq_leaf, (a, b))


def lt_leaf(a, op, b):
    if type(a) is C and type(b) is C:
        try:
            return const({'<': a.v < b.v, '<=': a.v <= b.v, '>': a.v > b.v, '>=': a.v >= b.v}[op])
        except TypeError:
            return raise_('TypeError', const('unorderable'))
    if is_int_leaf(a) and is_int_leaf(b):
        for x, y, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            c = pconst(y)
            if type(x) is X and x.op == 'bits' and c is not None:
                if o == '<':
                    return num_in(x, NEG, c - 1) if c > 0 else FALSE
                if o == '<=':
                    return num_in(x, NEG, c) if c >= 0 else FALSE
                if o == '>':
                    return num_in(x, c + 1, POS) if c >= 0 else TRUE
                return num_in(x, c, POS) if c > 0 else TRUE
        return cmp_zero(padd(a, b, -1), op)
    if ty_of(a) == 'none' or ty_of(b) == 'none':
        return raise_('TypeError', const('unorderable'))
    if type(a) is T and type(b) is T and len(a.items) == len(b.items) and a.items:
        strict = op[0]
        res = const(len(op) == 2)
        for x, y in reversed(list(zip(a.items, b.items))):
            l = apply(lambda p, q: lt_leaf(p, strict, q), (x, y))
            res = or_(l, and_(eq(x, y), res))
        return res
    if op in ('>', '>='):
        a, b = b, a
        op = {'>': '<', '>=': '<='}[op]
    return bool_of_var(term('app', ('lt' if op == '<' else 'le', a, b), 'bool'))


# ------------------------------------------------------------------ arithmetic

def num_kind(v):
    return ty_of(v) in ('int', 'float')


def binop(op, a, b):
    ta, tb = ty_of(a), ty_of(b)
    if is_const(a) and is_const(b) and type(a) is not T and type(b) is not T:
        x, y = to_py(a), to_py(b)
        try:
            if op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            elif op == '//':
                r = x // y
            elif op == '/':
                r = x / y
            elif op == '%':
                if isinstance(x, (str, bytes)):
                    return None
                r = x % y
            elif op == '**':
                r = x ** y
            elif op == '<<':
                r = x << y
            elif op == '>>':
                r = x >> y
            elif op == '&':
                r = x & y
            elif op == '|':
                r = x | y
            elif op == '^':
                r = x ^ y
            else:
                return None
            return const(r)
        except TypeError as e:
            return raise_('TypeError', const(str(e)))
        except ZeroDivisionError:
            return raise_('ZeroDivisionError')
        except (ValueError, OverflowError) as e:
            return raise_(type(e).__name__, const(str(e)))
    if op == '+':
        if ta == 'int' and tb == 'int':
            return padd(a, b)
        if ta == 'str' and tb == 'str':
            return scat([a, b])
        if ta == 'bytes' and tb == 'bytes':
            return bcat([a, b])
        if ta == 'tuple' and tb == 'tuple':
            return tup(a.items + b.items)
    if op == '-' and ta == 'int' and tb == 'int':
        return padd(a, b, -1)
    if op == '*':
        if ta == 'int' and tb == 'int':
            r = pmul(a, b)
            if r is not None:
                return r
            return app('mul', sorted((a, b), key=lambda v: v.id), 'int')
        if ta == 'tuple' and pconst(b) is not None:
            return tup(a.items * pconst(b))
        if ta == 'str' and tb == 'int':
            return app('strmul', (a, b), 'str')
        if ta == 'bytes' and tb == 'int':
            if a is const(b'\0'):
                return zeros(b)
            return app('bytesmul', (a, b), 'bytes')
    if ta == 'int' and tb == 'int':
        c = pconst(b)
        if op in ('//', '%') and c is not None and c > 0:
            if c == 1:
                return a if op == '//' else ZERO
            if c & (c - 1) == 0 and rng(a)[0] >= 0:
                bits = as_bits(a)
                if bits is not None:
                    k = c.bit_length() - 1
                    return from_bits(bits[k:] if op == '//' else bits[:k])
            lo, hi = rng(a)
            if lo >= 0 and hi < c:
                return ZERO if op == '//' else a
            p = poly_of(a)
            if p is not None and all(k % c == 0 for k in p[1].values()):
                if op == '%':
                    return const(p[0] % c)
                return mk_poly(p[0] // c, {t: k // c for t, k in p[1].items()})
            r = divided(op, a, c, p)
            if r is not None:
                return r
            if op == '%':
                return term('app', ('mod', a, b), 'int', 0, c - 1)
            return term('app', ('fdiv', a, b), 'int', lo // c if lo != NEG else NEG, hi // c if hi != POS else POS)
        if op == '<<' and c is not None:
            return binop('*', a, const(1 << c))
        if op == '>>' and c is not None:
            bits = as_bits(a)
            if bits is not None:
                return from_bits(bits[c:])
            return binop('//', a, const(1 << c))
        if op in ('&', '|', '^'):
            if pconst(a) is not None and pconst(b) is None:
                a, b = b, a
            wa = as_bits(a)
            cb = pconst(b)
            if wa is not None and cb is not None and cb < 0:
                if op == '&':
                    wb = as_bits(b, len(wa))
                    return from_bits([x if y is TRUE else FALSE for x, y in zip(wa, wb)])
            wb = as_bits(b)
            if wa is not None and wb is not None:
                w = max(len(wa), len(wb))
                wa = wa + [FALSE] * (w - len(wa))
                wb = wb + [FALSE] * (w - len(wb))
                if op == '&':
                    r = [and_(x, y) for x, y in zip(wa, wb)]
                elif op == '|':
                    r = [or_(x, y) for x, y in zip(wa, wb)]
                else:
                    r = [ite(x, not_(y), y) for x, y in zip(wa, wb)]
                return from_bits(r)
            return app({'&': 'band', '|': 'bor', '^': 'bxor'}[op], (a, b), 'int')
        if op == '/':
            return app('truediv', (a, b), 'float')
        return app({'//': 'fdiv', '%': 'mod', '<<': 'shl', '>>': 'shr', '**': 'pow'}[op], (a, b), 'int')
    if ta in ('int', 'float') and tb in ('int', 'float'):
        return app({'+': 'fadd', '-': 'fsub', '*': 'fmul', '/': 'truediv', '//': 'fdiv', '%': 'mod',
                    '**': 'pow'}.get(op, op), (a, b), 'float')
    if ta == 'any' or tb == 'any':
        return app('dyn' + op, (a, b), 'any')
    if ta in ('datetime', 'timedelta') or tb in ('datetime', 'timedelta'):
        r = dt_binop(op, a, b)
        if r is not None:
            return r
        return app('dt' + op, (a, b), 'datetime' if ta == 'datetime' and tb == 'timedelta' or tb == 'datetime' and ta == 'timedelta' else 'timedelta')
    if ta in ('list', 'dict') or tb in ('list', 'dict'):
        return None
    return raise_('TypeError', const('unsupported operand %s for %s and %s' % (op, ta, tb)))


def divided(op, a, c, p):
    """normal forms of // and % by the constant c > 0"""
    if p is None:
        return None
    # multiples of c leave the division
    if p[0] // c or any(k % c == 0 for k in p[1].values()):
        rest = mk_poly(p[0] % c, {t: k for t, k in p[1].items() if k % c})
        out = mk_poly(p[0] // c, {t: k // c for t, k in p[1].items() if k % c == 0})
        r = binop(op, rest, const(c))
        return r if op == '%' else padd(out, r)
    if type(a) is X and a.op == 'app' and a.args[0] in ('fdiv', 'mod') and type(a.args[2]) is C and a.args[1].ty == 'int':
        f, x, m = a.args
        m = int(m.v)
        if m > 0 and f == 'fdiv' and op == '//':
            return binop('//', x, const(m * c))
        if m > 0 and f == 'mod' and m % c == 0:
            if op == '%':
                return binop('%', x, const(c))
            return padd(binop('//', x, const(c)), pmul(binop('//', x, const(m)), const(-(m // c))))
    return None


# dates: microseconds since 1970 in UTC ('utc'), shown in local time ('local') or carrying UTC ('aware')

def moment(us, mode):
    return app('moment', (us, const(mode)), 'datetime')


def is_app(v, name):
    return type(v) is X and v.op == 'app' and v.args[0] == name


def dt_binop(op, a, b):
    if op == '+' and is_app(a, 'span') and is_app(b, 'moment'):
        a, b = b, a
    if is_app(a, 'moment') and is_app(b, 'span') and op in '+-':
        us = padd(a.args[1], b.args[1], 1 if op == '+' else -1)
        if us is not None:
            return app('moment', (us, a.args[2]), 'datetime')
    if is_app(a, 'moment') and is_app(b, 'moment') and op == '-' and a.args[2] is b.args[2] and a.args[2].v != 'local':
        us = padd(a.args[1], b.args[1], -1)
        if us is not None:
            return app('span', (us,), 'timedelta')
    if is_app(a, 'span') and is_app(b, 'span') and op in '+-':
        us = padd(a.args[1], b.args[1], 1 if op == '+' else -1)
        if us is not None:
            return app('span', (us,), 'timedelta')
    if op == '*':
        if ty_of(a) == 'int':
            a, b = b, a
        if is_app(a, 'span') and ty_of(b) == 'int' and pmul(a.args[1], b) is not None:
            return app('span', (pmul(a.args[1], b),), 'timedelta')
    return None


def truth_leaf(v):
    t = type(v)
    if t is C:
        return const(bool(v.v))
    if t is E:
        return const(bool(to_py(v.value))) if v.cls.is_int else TRUE
    if t is T:
        return const(bool(v.items))
    if t is X:
        if v.ty == 'bool':
            return bool_of_var(v)
        if v.ty == 'int':
            return not_(eq_leaf(v, ZERO))
        if v.ty == 'str':
            return not_(eq_leaf(v, EMPTY))
        if v.ty == 'bytes':
            return not_(eq_leaf(v, BEMPTY))
        if v.ty == 'list':
            return not_(cmp_zero(term('app', ('len', v), 'int', 0), '=='))
        if v.ty in ('datetime',):
            return TRUE
        if v.ty == 'raise':
            return v
        return bool_of_var(app('truth', (v,), 'bool'))
    return TRUE
