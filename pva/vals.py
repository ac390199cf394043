"""Value domain of the analysis: hash-consed value graphs.

Every abstract value is an interned node, so structural equality of value
graphs is pointer equality.  Confluences are *gates*: decision nodes `N` over
a test term (interval tests on integers, constant tests on other terms), kept
in one global variable order, reduced, and hence canonical for a given set of
test terms.
"""
import itertools

_ids = itertools.count(1)


class V(object):
    __slots__ = ('id',)


class C(V):
    """constant (None, bool, int, str, bytes, float, Ellipsis)"""
    __slots__ = ('v',)

    def __repr__(self):
        return repr(self.v)


class T(V):
    """tuple"""
    __slots__ = ('items',)

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.items)) + ')'


class X(V):
    """symbolic term"""
    __slots__ = ('op', 'args', 'ty', 'lo', 'hi')

    def __repr__(self):
        return show(self)


class N(V):
    """gate: decision on the value of `var`"""
    __slots__ = ('var', 'num', 'cases', 'default')

    def __repr__(self):
        return show(self)


class R(V):
    """reference to a heap record"""
    __slots__ = ('oid',)

    def __repr__(self):
        return '<ref %d>' % self.oid


class E(V):
    """enumeration member"""
    __slots__ = ('cls', 'name', 'value')

    def __repr__(self):
        return '%s.%s' % (self.cls.name, self.name)


class O(V):
    """engine object with identity (function, class, module, native)"""
    __slots__ = ()


_cons = {}
_tup = {}
_terms = {}
_nodes = {}
_refs = {}

NEG = float('-inf')
POS = float('inf')


def const(v):
    k = (type(v), v)
    if type(v) is float:
        k = (float, repr(v))
    r = _cons.get(k)
    if r is None:
        r = C()
        r.id = next(_ids)
        r.v = v
        _cons[k] = r
    return r


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
EMPTY = const('')
BEMPTY = const(b'')
ZERO = const(0)


def tup(items):
    items = tuple(items)
    r = _tup.get(items)
    if r is None:
        r = T()
        r.id = next(_ids)
        r.items = items
        _tup[items] = r
    return r


def ref(oid):
    r = _refs.get(oid)
    if r is None:
        r = R()
        r.id = next(_ids)
        r.oid = oid
        _refs[oid] = r
    return r


def term(op, args, ty, lo=NEG, hi=POS):
    k = (op, args, ty)
    r = _terms.get(k)
    if r is None:
        r = X()
        r.id = next(_ids)
        r.op = op
        r.args = args
        r.ty = ty
        if ty == 'bool':
            lo, hi = 0, 1
        r.lo = lo
        r.hi = hi
        _terms[k] = r
    return r


def app(name, args, ty):
    return term('app', (name,) + tuple(args), ty)


UNDEF = term('undef', (), 'undef')


def opaque(why, *args):
    return term('opaque', (why,) + args, 'any')


# ---------------------------------------------------------------- gates

def level(v):
    return v.var.id if type(v) is N else POS


def _mk(var, num, cases, default):
    k = (var, cases, default)
    r = _nodes.get(k)
    if r is None:
        r = N()
        r.id = next(_ids)
        r.var = var
        r.num = num
        r.cases = cases
        r.default = default
        _nodes[k] = r
    return r


def mk_num(var, cases):
    """cases: list of (lo, child) ascending, covering from -inf."""
    out = []
    lo0, hi0 = var.lo, var.hi
    n = len(cases)
    for i, (lo, ch) in enumerate(cases):
        nxt = cases[i + 1][0] if i + 1 < n else POS
        if nxt <= lo0:
            continue
        if lo > hi0:
            break
        if not out:
            lo = NEG
        if out and out[-1][1] is ch:
            continue
        out.append((lo, ch))
    if len(out) == 1:
        return out[0][1]
    return _mk(var, True, tuple(out), None)


def mk_sym(var, cases, default):
    cs = [(k, ch) for k, ch in cases if ch is not default and not (ch is k and default is var)]
    if not cs:
        return default
    cs.sort(key=lambda p: p[0].id)
    return _mk(var, False, tuple(cs), default)


def _num_at(v, var, lo):
    if type(v) is not N or v.var is not var:
        return v
    r = v.cases[0][1]
    for l, ch in v.cases:
        if l <= lo:
            r = ch
        else:
            break
    return r


def _sym_at(v, var, key):
    if type(v) is not N or v.var is not var:
        return v
    for k, ch in v.cases:
        if k is key:
            return ch
    return v.default


def split_on(var, vs):
    """segments of `var` relevant for vs: list of (segment, cofactors).
    segment: lo (numeric) or const / None for default (symbolic)."""
    tops = [v for v in vs if type(v) is N and v.var is var]
    if tops[0].num:
        bps = sorted(set(lo for v in tops for lo, _ in v.cases))
        return [(lo, tuple(_num_at(v, var, lo) for v in vs)) for lo in bps]
    keys = {}
    for v in tops:
        for k, _ in v.cases:
            keys[k] = 1
    out = [(k, tuple(_sym_at(v, var, k) for v in vs)) for k in keys]
    out.append((None, tuple(_sym_at(v, var, None) for v in vs)))
    return out


def is_num_var(var):
    return var.ty in ('int', 'bool')


def build(var, segs):
    """node on var from [(segment, child)], children may test any variable."""
    m = min(level(ch) for _, ch in segs)
    if m > var.id:
        if is_num_var(var):
            return mk_num(var, segs)
        return mk_sym(var, [(k, c) for k, c in segs if k is not None],
                      [c for k, c in segs if k is None][0])
    if m == var.id:
        out = []
        if is_num_var(var):
            for i, (lo, ch) in enumerate(segs):
                nxt = segs[i + 1][0] if i + 1 < len(segs) else POS
                if type(ch) is N and ch.var is var:
                    for l, c2 in ch.cases:
                        j = [x for x, _ in ch.cases if x > l]
                        u = j[0] if j else POS
                        if u <= lo or l >= nxt:
                            continue
                        out.append((max(l, lo), c2))
                else:
                    out.append((lo, ch))
        else:
            dflt = [c for k, c in segs if k is None][0]
            given = {k: c for k, c in segs if k is not None}
            keys = dict(given)
            if type(dflt) is N and dflt.var is var:
                for k, _ in dflt.cases:
                    keys.setdefault(k, dflt)
            for k in keys:
                out.append((k, _sym_at(keys[k], var, k)))
            out.append((None, _sym_at(dflt, var, None)))
        return build(var, out)
    w = min((ch for _, ch in segs if type(ch) is N), key=lambda c: c.var.id).var
    parts = split_on(w, tuple(ch for _, ch in segs))
    return build(w, [(s, build(var, [(segs[i][0], chs[i]) for i in range(len(segs))]))
                     for s, chs in parts])


class TooBig(Exception):
    pass


LIMIT = [400000]


def apply(fn, vs):
    memo = {}
    cnt = [0]

    def rec(vs):
        tops = [v for v in vs if type(v) is N]
        if not tops:
            return fn(*vs)
        r = memo.get(vs)
        if r is not None:
            return r
        cnt[0] += 1
        if cnt[0] > 300000:
            raise TooBig('gate product too large')
        var = min(tops, key=lambda v: v.var.id).var
        r = build(var, [(s, rec(chs)) for s, chs in split_on(var, vs)])
        memo[vs] = r
        return r
    return rec(tuple(vs))


_ite = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    k = (c, a, b)
    r = _ite.get(k)
    if r is not None:
        return r
    if type(c) is not N:
        raise TypeError('ite on non-boolean %r' % (c,))
    var = min((v for v in k if type(v) is N), key=lambda v: v.var.id).var
    r = build(var, [(s, ite(*chs)) for s, chs in split_on(var, k)])
    _ite[k] = r
    return r


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return ite(a, b, FALSE)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return ite(a, TRUE, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    return ite(a, FALSE, TRUE)


_constrain = {}


def constrain(f, care):
    """simplify f using that `care` holds (sibling substitution)."""
    if care is TRUE or care is FALSE or type(f) is not N:
        return f
    k = (f, care)
    r = _constrain.get(k)
    if r is not None:
        return r
    var = min((f, care), key=level).var
    parts = split_on(var, k)
    live = [(s, chs) for s, chs in parts if chs[1] is not FALSE]
    if not live:
        r = f
    elif level(f) > var.id:
        # variable not in f: existentially drop it from care
        c = FALSE
        for _, chs in live:
            c = or_(c, chs[1])
        r = constrain(f, c)
    elif len(live) == 1:
        r = constrain(*live[0][1])
    else:
        vals = dict((s, constrain(*chs)) for s, chs in live)
        segs = []
        last = None
        pend = []
        if is_num_var(var):
            for s, chs in parts:
                if s in vals:
                    last = vals[s]
                    for p in pend:
                        segs.append((p, last))
                    pend = []
                    segs.append((s, last))
                elif last is not None:
                    segs.append((s, last))
                else:
                    pend.append(s)
        else:
            d = vals[None] if None in vals else next(iter(vals.values()))
            for s, chs in parts:
                segs.append((s, vals.get(s, d)))
        r = build(var, segs)
    _constrain[k] = r
    return r


def leaves(v, guard=TRUE):
    """list of (leaf, condition) with condition satisfiable under guard."""
    if type(v) is not N:
        return [(v, TRUE)]
    seen = {}
    order = []

    def collect(n):
        if type(n) is N:
            if n in done:
                return
            done.add(n)
            for _, chs in split_on(n.var, (n,)):
                collect(chs[0])
        elif n not in seen:
            seen[n] = 1
            order.append(n)
    done = set()
    collect(v)
    out = []
    for lf in order:
        c = select_cond(v, lf)
        if and_(guard, c) is not FALSE:
            out.append((lf, c))
    return out


def select_cond(v, leaf):
    memo = {}

    def rec(n):
        if type(n) is not N:
            return TRUE if n is leaf else FALSE
        r = memo.get(n)
        if r is None:
            r = build(n.var, [(s, rec(chs[0])) for s, chs in split_on(n.var, (n,))])
            memo[n] = r
        return r
    return rec(v)


def map_leaves(v, fn):
    if type(v) is not N:
        return fn(v)
    return apply(fn, (v,))


# ---------------------------------------------------------------- integers

def rng(v):
    t = type(v)
    if t is C:
        return (int(v.v), int(v.v))
    if t is E:
        return (v.value.v, v.value.v)
    return (v.lo, v.hi)


def mk_poly(c, terms):
    terms = {t: k for t, k in terms.items() if k != 0}
    if not terms:
        return const(c)
    if c == 0 and len(terms) == 1:
        (t, k), = terms.items()
        if k == 1:
            return t
    lo = hi = c
    for t, k in terms.items():
        a, b = t.lo, t.hi
        if k > 0:
            lo += k * a
            hi += k * b
        else:
            lo += k * b
            hi += k * a
    its = tuple(sorted(terms.items(), key=lambda p: p[0].id))
    return term('poly', (c, its), 'int', lo, hi)


def poly_of(v):
    """(const, {atom: coeff}) or None"""
    t = type(v)
    if t is C:
        if isinstance(v.v, int):
            return int(v.v), {}
        return None
    if t is E:
        return v.value.v, {}
    if t is X:
        if v.ty not in ('int', 'bool'):
            return None
        if v.op == 'poly':
            return v.args[0], dict(v.args[1])
        return 0, {v: 1}
    return None


def padd(a, b, k=1):
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return None
    d = dict(pa[1])
    for t, c in pb[1].items():
        d[t] = d.get(t, 0) + k * c
    return mk_poly(pa[0] + k * pb[0], d)


def pmul(a, b):
    pa, pb = poly_of(a), poly_of(b)
    if pa is None or pb is None:
        return None
    if pa[1] and pb[1]:
        return None
    if pa[1]:
        pa, pb = pb, pa
    k = pa[0]
    return mk_poly(k * pb[0], {t: k * c for t, c in pb[1].items()})


def is_int_leaf(v):
    t = type(v)
    if t is C:
        return isinstance(v.v, int)
    if t is E:
        return True
    return t is X and v.ty in ('int', 'bool')


def cmp_zero(p, op):
    """boolean value graph of  p <op> 0 for an integer leaf p."""
    if type(p) in (C, E):
        x = p.v if type(p) is C else p.value.v
        return const({'==': x == 0, '<': x < 0, '<=': x <= 0, '>': x > 0, '>=': x >= 0, '!=': x != 0}[op])
    if op == '!=':
        return not_(cmp_zero(p, '=='))
    c, ts = poly_of(p)
    if not ts:
        return cmp_zero(const(c), op)
    # normalise sign so that the first atom has positive coefficient
    first = min(ts, key=lambda t: t.id)
    if ts[first] < 0:
        c = -c
        ts = {t: -k for t, k in ts.items()}
        op = {'==': '==', '<': '>', '<=': '>=', '>': '<', '>=': '<='}[op]
    import math
    g = 0
    for k in ts.values():
        g = math.gcd(g, k)
    if g > 1:
        ts = {t: k // g for t, k in ts.items()}
    var = mk_poly(0, ts)
    # g*var + c op 0
    if op == '==':
        if c % g:
            return FALSE
        return num_in(var, -c // g, -c // g)
    if op == '<':      # g*var <= -c-1
        return num_in(var, NEG, (-c - 1) // g)
    if op == '<=':
        return num_in(var, NEG, (-c) // g)
    if op == '>':      # g*var >= -c+1
        return num_in(var, -((c - 1) // g), POS)
    if op == '>=':
        return num_in(var, -(c // g), POS)
    raise ValueError(op)


def num_in(var, lo, hi):
    if type(var) is C:
        return const(lo <= var.v <= hi)
    if var.op == 'bits':
        r = bits_in(var, lo, hi)
        if r is not None:
            return r
    if var.op == 'app' and var.args[0] == 'fdiv' and type(var.args[2]) is C and isinstance(var.args[2].v, int) and \
            var.args[2].v > 0 and type(var.args[1]) is X and var.args[1].ty == 'int':
        q, x = int(var.args[2].v), var.args[1]
        a = TRUE if lo == NEG else cmp_zero(padd(x, const(-lo * q)), '>=')
        b = TRUE if hi == POS else cmp_zero(padd(x, const(-(hi * q + q - 1))), '<=')
        return and_(a, b)
    cases = [(NEG, FALSE)]
    if lo == NEG:
        cases = [(NEG, TRUE)]
    else:
        cases.append((lo, TRUE))
    if hi != POS:
        cases.append((hi + 1, FALSE))
    return mk_num(var, cases)


def bits_in(v, lo, hi):
    bits = v.args
    n = len(bits)
    lo = max(lo, 0)
    hi = min(hi, (1 << n) - 1)
    if lo > hi:
        return FALSE
    if lo == 0 and hi == (1 << n) - 1:
        return TRUE
    if lo == hi:
        r = TRUE
        for i in range(n):
            r = and_(r, bits[i] if lo >> i & 1 else not_(bits[i]))
            if r is FALSE:
                return r
        return r
    if lo > 0 and hi == (1 << n) - 1:
        if lo == 1:
            return not_(bits_in(v, 0, 0))
        # v >= lo : compare from MSB
        ge = TRUE
        for i in range(n):
            if lo >> i & 1:
                ge = and_(bits[i], ge)
            else:
                ge = or_(bits[i], ge)
        return ge
    a = bits_in(v, lo, (1 << n) - 1)
    b = bits_in(v, 0, hi) if lo != 0 else None
    if lo == 0:
        if hi == 0:
            return None
        le = TRUE
        for i in range(n):
            nb = not_(bits[i])
            if hi >> i & 1:
                le = or_(nb, le)
            else:
                le = and_(nb, le)
        return le
    return and_(a, b)


def bit_var(content, off, k):
    # normalise: a bit of byte `off` of content
    return term('bit', (content, off, k), 'bool')


def bool_of_var(var):
    return mk_num(var, [(NEG, FALSE), (1, TRUE)])


def as_bits(v, width=None):
    """little-endian list of boolean value graphs, or None"""
    t = type(v)
    if t is E:
        v = v.value
        t = C
    if t is C:
        n = int(v.v)
        if n < 0:
            if width is None:
                return None
            return [const(bool(n >> i & 1)) for i in range(width)]
        w = max(n.bit_length(), width or 0)
        return [const(bool(n >> i & 1)) for i in range(w)]
    if t is not X:
        return None
    if v.op == 'bits':
        b = list(v.args)
    elif v.op == 'le' and not v.args[3]:
        content, off, n, _ = v.args
        b = []
        for i in range(n):
            o = padd(off, const(i))
            if o is None:
                return None
            by = HOOK_BYTE[0](content, o) if HOOK_BYTE[0] else None
            for k in range(8):
                if by is not None:
                    b.append(const(bool(by >> k & 1)))
                else:
                    kb = HOOK_BIT[0](content, o, k) if HOOK_BIT[0] else None
                    b.append(bool_of_var(bit_var(content, o, k)) if kb is None else const(kb))
    elif v.op == 'poly':
        c, ts = poly_of(v)
        if c != 0 or len(ts) != 1:
            return None
        (a, k), = ts.items()
        if k <= 0 or k & (k - 1):
            return None
        sub = as_bits(a)
        if sub is None:
            return None
        b = [FALSE] * (k.bit_length() - 1) + sub
    elif v.ty == 'bool':
        b = [bool_of_var(v)]
    elif v.ty == 'int' and v.lo >= 0 and v.hi != POS and v.op == 'sym':
        w = int(v.hi).bit_length()
        b = [bool_of_var(term('bit', (v, ZERO, k), 'bool')) for k in range(w)]
    else:
        return None
    if width is not None and len(b) < width:
        b += [FALSE] * (width - len(b))
    return b


HOOK_BYTE = [None]
HOOK_BIT = [None]


def from_bits(bits):
    bits = list(bits)
    while bits and bits[-1] is FALSE:
        bits.pop()
    if all(b is TRUE or b is FALSE for b in bits):
        return const(sum(1 << i for i, b in enumerate(bits) if b is TRUE))
    # whole-byte read?
    b0 = bits[0]
    if type(b0) is N and b0.var.op == 'bit' and b0 is bool_of_var(b0.var):
        content, off, k = b0.var.args
        if k == 0 and type(content) is X and content.ty == 'bytes':
            n = (len(bits) + 7) // 8
            full = bits + [FALSE] * (8 * n - len(bits))
            ok = True
            for i in range(8 * n):
                want = bool_of_var(bit_var(content, padd(off, const(i // 8)), i % 8))
                if full[i] is not want:
                    ok = False
                    break
            if ok:
                return term('le', (content, off, n, False), 'int', 0, 256 ** n - 1)
        elif k == 0:
            w = int(content.hi).bit_length() if content.hi != POS else None
            if w == len(bits) and all(
                    b is bool_of_var(term('bit', (content, ZERO, i), 'bool')) for i, b in enumerate(bits)):
                return content
    return term('bits', tuple(bits), 'int', 0, (1 << len(bits)) - 1)


# ---------------------------------------------------------------- printing

def show(v, depth=0):
    t = type(v)
    if depth > 7:
        return '...'
    if t is C:
        if isinstance(v.v, int) and not isinstance(v.v, bool) and abs(v.v) > 9:
            return hex(v.v)
        return repr(v.v)
    if t is T:
        return '(' + ', '.join(show(i, depth + 1) for i in v.items) + ')'
    if t is N:
        parts = []
        if v.num:
            n = len(v.cases)
            for i, (lo, ch) in enumerate(v.cases):
                hi = v.cases[i + 1][0] - 1 if i + 1 < n else POS
                parts.append('%s: %s' % (_iv(lo, hi), show(ch, depth + 1)))
        else:
            for k, ch in v.cases:
                parts.append('%s: %s' % (show(k, depth + 1), show(ch, depth + 1)))
            parts.append('else: %s' % show(v.default, depth + 1))
        if len(parts) > 6:
            parts = parts[:6] + ['...']
        return 'case %s {%s}' % (show(v.var, depth + 1), '; '.join(parts))
    if t is X:
        if v.op == 'le':
            c, o, n, s = v.args
            return '%s%d@%s[%s]' % ('s' if s else 'u', 8 * n, show(c, depth + 1), show(o, depth + 1))
        if v.op == 'root':
            return v.args[0]
        if v.op == 'sym':
            return '$' + v.args[0]
        if v.op == 'slice':
            c, o, n = v.args
            return '%s[%s:+%s]' % (show(c, depth + 1), show(o, depth + 1), show(n, depth + 1) if isinstance(n, V) else 'end')
        if v.op == 'bit':
            c, o, k = v.args
            return 'bit%d(%s[%s])' % (k, show(c, depth + 1), show(o, depth + 1))
        if v.op == 'bits':
            return 'bits<%d>#%d' % (len(v.args), v.id)
        if v.op == 'poly':
            c, ts = v.args
            s = ' + '.join(('%s' if k == 1 else '%d*%%s' % k) % show(t2, depth + 1) for t2, k in ts)
            return '(%s%s)' % (s, ' + %s' % (hex(c) if c > 9 else c) if c else '')
        if v.op == 'app':
            return '%s(%s)' % (v.args[0], ', '.join(show(a, depth + 1) if isinstance(a, V) else repr(a) for a in v.args[1:]))
        return '%s(%s)' % (v.op, ', '.join(_sh(a, depth + 1) for a in v.args))
    return repr(v)


def _sh(a, d):
    if isinstance(a, V):
        return show(a, d)
    if isinstance(a, tuple):
        s = ', '.join(_sh(x, d) for x in a[:6])
        return '(' + s + (', ...' if len(a) > 6 else '') + ')'
    return repr(a)


def _iv(lo, hi):
    if lo == hi:
        return hex(lo) if lo > 9 else str(lo)
    if lo == NEG:
        return '<=%s' % hi
    if hi == POS:
        return '>=%s' % lo
    return '%s..%s' % (lo, hi)
