"""Valuations of value graphs (random interpretation).

A valuation assigns bytes to the input contents and values to the symbolic
parameters, and evaluates the *terms of the analysis* under that assignment.
It never runs the analysed program: it is the decision procedure used to tell
two value graphs apart when they are not the same node.
"""
import datetime as _dt
import ipaddress
import random
import struct
import time
from .vals import *
from .ops import CTX
from . import prims, ops


class Skip(Exception):
    """this valuation cannot be completed (value outside the modelled range)"""


class Undecodable(Exception):
    """the bytes are no text of the encoding: the value cannot be had"""


class Unev(Exception):
    """a term has no evaluator"""


class Undef(object):
    def __repr__(self):
        return 'undefined'


UN = Undef()


class Raised(object):
    def __init__(self, cls):
        self.cls = cls

    def __eq__(self, o):
        return isinstance(o, Raised) and o.cls == self.cls

    def __hash__(self):
        return hash(self.cls)

    def __repr__(self):
        return 'raises ' + str(self.cls)


class View(object):
    """a window of an unbounded content"""

    def __init__(self, mem, off, n):
        self.mem, self.off, self.n = mem, off, n

    def bytes(self, cap=1 << 17):
        if self.n is None or self.n > cap:
            raise Skip('large window')
        return self.mem.read(self.off, self.n)

    def __repr__(self):
        return '<%s[%s:+%s]>' % (self.mem.name, self.off, self.n)

    def key(self):
        return ('view', self.mem.name, self.off, self.n)


POOL16 = 'abcXYZ019\\.: ,|-_\u00e9\u4e2d'


class Mem(object):
    def __init__(self, val, name, length=None, style='mix'):
        self.val, self.name, self.length = val, name, length
        self.b = {}
        self.bitfix = {}

    def byte(self, a):
        r = self.b.get(a)
        if r is None:
            rnd = self.val.rnd
            x = rnd.random()
            if x < 0.30 or (x < 0.75 and (a & 1)):
                r = 0
            elif x < 0.92:
                r = ord(rnd.choice('abcdXYZ0129\\.:'))
            else:
                r = rnd.randrange(256)
            self.b[a] = r
        if self.bitfix:
            for k in range(8):
                f = self.bitfix.get((a, k))
                if f is not None:
                    r = r | 1 << k if f else r & ~(1 << k)
        return r

    def read(self, off, n):
        if off < 0:
            raise Skip('negative offset')
        return bytes(self.byte(off + i) for i in range(n))

    def put(self, a, data):
        for i, x in enumerate(data):
            self.b.setdefault(a + i, x)

    def force(self, a, data):
        for i, x in enumerate(data):
            self.b[a + i] = x


def real(v):
    """materialise"""
    if type(v) is View:
        return v.bytes()
    return v


def num(v):
    if type(v) is E:
        return v.value.v
    return v


FAR = (0x1000000, 0x3000000, 0x10000000, 0x7f000000, 0xf0000000)


class Valuation(object):
    def __init__(self, seed, hints=None, want=None, ctx=None):
        self.rnd = random.Random(seed)
        self.hints = hints or {}
        self.want = want or {}
        self.ctx = ctx or CTX[0]
        self.memo = {}
        self.mems = {}
        self.trace = {}
        self.used = set()
        self.pinning = False

    # ---------------------------------------------------------------- memory
    def mem(self, content):
        m = self.mems.get(content)
        if m is None:
            L = None
            if content.op == 'root':
                if content in self.ctx.rootlen:
                    L = self.ev(self.ctx.rootlen[content])
                m = Mem(self, content.args[0], L)
            else:
                m = Mem(self, show(content)[:40], None)
            self.mems[content] = m
            pins = getattr(self.ctx, 'pins', {}).get(content, [])
            # constraints on byte fields asked for by the search, and a plausible placement of the structures
            later = []
            for t, v in list(self.want.items()):
                if t.op == 'le' and t.args[0] is content:
                    if type(t.args[1]) is C:
                        self.set_le(m, t, v)
                    else:
                        later.append((t, v))
            far = self.rnd.random() < 0.25      # structures far behind each other
            for off, n, base in getattr(self.ctx, 'layout', {}).get(content, []):
                a = num(self.ev(off))
                p = base + self.rnd.choice((0, 0, 16, 0x124, 0x300))
                if far and self.rnd.random() < 0.5:
                    p += self.rnd.choice(FAR) << (8 * self.rnd.randrange(0, n - 3))
                m.put(a, p.to_bytes(n, 'little'))
            for base, d in pins:
                b = self.ev(base)
                for o, x in d.items():
                    m.b[b + o] = x
            for t, v in later:
                self.set_le(m, t, v)
            for t, v in list(self.want.items()):
                if t.op == 'bit' and t.args[0] is content:
                    a = num(self.ev(t.args[1]))
                    cur = m.byte(a)
                    m.b[a] = cur | (1 << t.args[2]) if v else cur & ~(1 << t.args[2])
            held = {}
            for base, d in pins:
                b = self.ev(base)
                for o, x in d.items():
                    if held.setdefault(b + o, x) != x:
                        raise Skip('overlapping structures')
                    m.b[b + o] = x
            for base, d in self.ctx.bitpins.get(content, []):
                b = self.ev(base)
                for (o, k), x in d.items():
                    m.bitfix[(b + o, k)] = x
        return m

    def set_le(self, m, t, v):
        _, off, n, signed = t.args
        a = num(self.ev(off))
        lo, hi = (-(256 ** n) // 2, 256 ** n // 2 - 1) if signed else (0, 256 ** n - 1)
        v = int(min(max(v, lo), hi))
        m.put(a, v.to_bytes(n, 'little', signed=signed))

    def le(self, t):
        content, off, n, signed = t.args
        if type(content) is X and content.op in ('root',):
            a = num(self.ev(off))
            if a < 0:
                raise Skip('negative offset')
            m = self.mem(content)
            if m.length is not None and a + n > m.length:
                raise Skip('outside')
            if not any(a + i in m.b for i in range(n)):
                m.put(a, self.choose(t, n, signed).to_bytes(n, 'little', signed=signed))
            return int.from_bytes(m.read(a, n), 'little', signed=signed)
        b = self.sl(content, off, const(n))
        b = real(b)
        return int.from_bytes(b, 'little', signed=signed)

    def choose(self, t, n, signed):
        rnd = self.rnd
        lo, hi = (-(256 ** n) // 2, 256 ** n // 2 - 1) if signed else (0, 256 ** n - 1)
        role = self.hints.get(('role', t))
        if role == 'ptr':
            return rnd.randrange(1, 1 << (17 if n == 4 else 20)) << 12 if n >= 4 else rnd.randrange(256)
        if role == 'size':
            return min(hi, 2 * rnd.randrange(0, 40)) if rnd.random() < 0.9 else min(hi, rnd.randrange(0, 300))
        hs = self.hints.get(t)
        x = rnd.random()
        if hs and x < 0.7:
            v = rnd.choice(hs)
            if x < 0.15:
                v ^= 1 << rnd.randrange(8 * n)
            if lo <= v <= hi:
                return v
        if x < 0.85:
            return rnd.randrange(0, 12)
        return rnd.randrange(lo, hi + 1)

    def sl(self, content, off, n):
        o = num(self.ev(off))
        k = None if n is None else num(self.ev(n))
        if o < 0:
            raise Skip('negative offset')
        if k is not None and k < 0:
            k = 0
        if type(content) is X and content.op == 'root':
            m = self.mem(content)
            if m.length is not None:
                av = max(0, m.length - o)
                k = av if k is None else min(k, av)
            return View(m, o, k)
        b = self.ev(content)
        if type(b) is View:
            if b.n is None:
                return View(b.mem, b.off + o, k)
            av = max(0, b.n - o)
            return View(b.mem, b.off + o, av if k is None else min(k, av))
        return b[o:] if k is None else b[o:o + k]

    # ---------------------------------------------------------------- evaluation
    def ev(self, v):
        t = type(v)
        if t is C:
            return v.v
        if t is E:
            return v
        if t is T:
            return tuple(self.ev(i) for i in v.items)
        r = self.memo.get(v)
        if r is None:
            if t is N:
                while type(v) is N:
                    v = self.pick(v)
                return self.ev(v)
            if t is not X:
                return ('object', getattr(v, 'name', None) or getattr(v, 'qual', None) or v.id)
            r = self.evx(v)
            self.memo[v] = r
        return r

    def pick(self, v):
        try:
            x = self.ev(v.var)
        except Undecodable:
            raise Skip('no value')
        if v.num:
            x = num(x)
            if x is UN or isinstance(x, Raised):
                raise Skip('undefined test')
            r = v.cases[0][1]
            for l, ch in v.cases:
                if l <= x:
                    r = ch
                else:
                    break
            return r
        x = real(x)
        for k, ch in v.cases:
            kv = self.ev(k)
            if type(kv) == type(x) and kv == x:
                return ch
        return v.default

    def bytes_of(self, v):
        return real(self.ev(v))

    def evx(self, v):
        op = v.op
        a = v.args
        if op == 'le':
            return self.le(v)
        if op == 'bit':
            if type(a[0]) is X and a[0].ty == 'int':
                return bool(self.ev(a[0]) >> a[2] & 1)
            return bool(self.le_byte(a[0], a[1]) >> a[2] & 1)
        if op == 'bits':
            r = 0
            for i, b in enumerate(a):
                if self.ev(b):
                    r |= 1 << i
            return r
        if op == 'poly':
            r = a[0]
            for t, k in a[1]:
                r += k * num(self.ev(t))
            return r
        if op == 'slice':
            return self.sl(a[0], a[1], a[2])
        if op == 'root':
            m = self.mem(v)
            return View(m, 0, m.length)
        if op == 'bcat':
            return b''.join(self.bytes_of(p) for p in a)
        if op == 'scat':
            return ''.join(self.text(p) for p in a)
        if op == 'fmt':
            return format(num(self.ev(a[1])), a[0])
        if op == 'packle':
            x = num(self.ev(a[0]))
            try:
                return x.to_bytes(a[1], 'little', signed=a[2])
            except OverflowError:
                raise Skip('value does not fit')
        if op == 'join':
            return self.text(a[0]).join(self.text(x) for g, x in a[1] if self.ev(g))
        if op == 'sym':
            return self.sym(v)
        if op == 'undef':
            return UN
        if op == 'raised':
            return Raised(a[0])
        if op == 'raise':
            return Raised(a[0] if isinstance(a[0], str) else a[0].name)
        if op == 'flist':
            return ('list',) + tuple(self.fin(x) for g, x in a if self.ev(g))
        if op == 'fset':
            return ('set', frozenset(self.fin(x) for g, x in a if self.ev(g)))
        if op == 'fdict':
            d = {}
            for g, k, x in a:
                if self.ev(g):
                    d[self.fin(k)] = self.fin(x)
            return ('dict',) + tuple(d.items())
        if op == 'fobj':
            return ('obj', a[0]) + tuple((n, self.fin(x)) for n, x in a[1])
        if op == 'cycle':
            return ('cycle', a[0])
        if op == 'multisz':
            return ('list',) + tuple(prims.multisz(self.bytes_of(a[0])))
        if op == 'listslice':
            l = self.ev(a[0])[1:]
            o = num(self.ev(a[1]))
            n = None if a[2] is None else num(self.ev(a[2]))
            return ('list',) + tuple(l[o:] if n is None else l[o:o + n])
        if op == 'app':
            return self.app(v, a[0], a[1:])
        raise Unev(op)

    def le_byte(self, content, off):
        if type(content) is X and content.op == 'root':
            x = num(self.ev(off))
            if x < 0:
                raise Skip('negative offset')
            m = self.mem(content)
            if x not in m.b:
                hs = self.hints.get(('byte', content, off))
                if hs:
                    m.b[x] = self.rnd.choice(hs)
            return m.byte(x)
        b = real(self.sl(content, off, const(1)))
        if not b:
            raise Skip('outside')
        return b[0]

    def text(self, v):
        r = self.ev(v)
        if not isinstance(r, str):
            raise Skip('text expected')
        return r

    def fin(self, v):
        """hashable final form"""
        r = self.ev(v)
        return final(r)

    def sym(self, v):
        if v in self.want:
            return self.want[v]
        rnd = self.rnd
        hs = self.hints.get(v)
        if hs and rnd.random() < 0.6:
            h = rnd.choice(hs)
            if v.ty == 'int' and type(h) is int and rnd.random() < 0.3:
                f = h ^ 1 << rnd.randrange(rnd.choice((8, 32, 32, 64)))
                if v.lo <= f <= v.hi:
                    return f
            return h
        if v.ty == 'str':
            return rnd.choice(['', 'a', 'abc', 'Name', 'x\\y', '12', '007', 'C:\\dir\\f.txt', '\u00e9\u4e2d', 'a b', '64-bit',
                               '32-bit', 'Zz, :'])
        if v.ty == 'bytes':
            return bytes(rnd.randrange(256) for _ in range(rnd.choice([0, 1, 2, 3, 4, 7, 8])))
        if v.ty == 'bool':
            return rnd.random() < 0.5
        if v.ty == 'int':
            lo = v.lo if v.lo != NEG else -(1 << 34)
            hi = v.hi if v.hi != POS else 1 << 66
            x = rnd.random()
            if x < 0.5 and lo <= 0 <= hi:
                return int(min(hi, max(lo, rnd.randrange(-3, 2000))))
            if x < 0.8:
                return rnd.randrange(int(lo), int(min(hi, lo + (1 << 40))) + 1)
            return rnd.randrange(int(lo), int(hi) + 1)
        if v.ty == 'list':
            return ('list',) + tuple(rnd.choice(['a', 'b', 'k=v', '']) for _ in range(rnd.randrange(4)))
        raise Unev('sym ' + v.ty)

    def app(self, v, name, args):
        f = APPS.get(name)
        if f is not None:
            xs = [real(self.ev(x)) if isinstance(x, V) else x for x in args]
            for x in xs:
                if x is UN or isinstance(x, Raised):
                    raise Skip('undefined operand')
                if isinstance(x, tuple) and x[:1] in (('list',), ('dict',), ('set',)) and name not in STRUCTURED:
                    raise Skip('structure')
            try:
                return f(*[num(x) if name not in RAWAPPS else x for x in xs])
            except (Skip, Unev):
                raise
            except UnicodeDecodeError:
                if name == 'decode' and args[2].v == 'strict':
                    raise Undecodable()
                raise Skip('no value')
            except (OverflowError, ValueError, OSError, IndexError, ZeroDivisionError, struct.error, MemoryError,
                    UnicodeError):
                raise Skip('no value')
            except (TypeError, AttributeError, KeyError):
                raise Skip('no value')
        if name in ('zlen', 'mlen'):
            b = self.ev(args[0])
            if type(b) is View:
                n = 0
                lim = b.n if b.n is not None else 1 << 14
                data = b''
                step = 64
                while True:
                    data = b.mem.read(b.off, min(lim, len(data) + step))
                    k = getattr(prims, name)(data)
                    if k < len(data) or len(data) == lim:
                        return k
                    step *= 2
                    if step > 1 << 14:
                        raise Skip('unterminated')
            return getattr(prims, name)(b)
        if name == 'utf16z':
            b = self.ev(args[0])
            if type(b) is View and (b.n is None or b.n > 1 << 12):
                k = self.app(v, 'zlen', args)
                b = b.mem.read(b.off, min(k, b.n) if b.n is not None else k)
            return prims.utf16z(real(b))
        if name == 'len':
            b = self.ev(args[0])
            if type(b) is View:
                return b.n if b.n is not None else 1 << 24
            if isinstance(b, tuple) and b[:1] in (('list',), ('dict',)):
                return len(b) - 1
            if isinstance(b, tuple) and b[:1] == ('set',):
                return len(b[1])
            return len(b)
        if name == 'eq':
            x, y = self.ev(args[0]), self.ev(args[1])
            return final(x) == final(y)
        if name in ('is',):
            return final(self.ev(args[0])) == final(self.ev(args[1]))
        if name.startswith('str.') or name.startswith('bytes.'):
            xs = [real(self.ev(x)) for x in args]
            m = name.split('.')[1]
            if m in ('partition', 'rpartition'):
                return getattr(xs[0], m)(xs[1])[xs[2]]
            try:
                r = getattr(xs[0], m)(*[num(x) for x in xs[1:]])
            except Exception:
                raise Skip('no value')
            return ('list',) + tuple(r) if isinstance(r, list) else r
        if name.startswith('dyn') and name[3:] in BIN:
            x, y = [num(real(self.ev(z))) for z in args]
            try:
                return BIN[name[3:]](x, y)
            except Exception:
                raise Skip('no value')
        if name.startswith('int_le'):
            return int.from_bytes(self.bytes_of(args[0]), 'little', signed=name.endswith('s'))
        if name.startswith('int_be'):
            return int.from_bytes(self.bytes_of(args[0]), 'big', signed=name.endswith('s'))
        if name in ('unpackf', 'unpackd'):
            return struct.unpack('<' + name[-1], self.bytes_of(args[0]))[0]
        if name.startswith('ip.'):
            try:
                return bool(getattr(self.ev(args[0]), name[3:]))
            except Skip:
                raise
            except Exception:
                raise Skip('ip')
        if name.startswith('dt.') and len(args) == 1:
            d = self.ev(args[0])
            try:
                x = getattr(d, name[3:])
                return x() if callable(x) else x
            except Exception:
                raise Skip('date')
        raise Unev(name)


def final(r):
    t = type(r)
    if t is View:
        if r.n is not None and r.n <= 1 << 12:
            return ('bytes', r.bytes())
        return r.key()
    if t is bytes or t is bytearray:
        return ('bytes', bytes(r))
    if t is bool:
        return ('bool', r)
    if t is E:
        return ('enum', r.cls.name, r.name)
    if t is tuple:
        return tuple(x if isinstance(x, str) and i == 0 else final2(x) for i, x in enumerate(r))
    if t is float:
        return ('float', r)
    return r


def final2(x):
    return final(x) if type(x) is not tuple else tuple(final2(y) for y in x)


def _item(seq, i):
    if isinstance(seq, tuple) and seq[:1] == ('list',):
        seq = seq[1:]
    if isinstance(seq, tuple) and seq[:1] == ('dict',):
        return dict(seq[1:])[i]
    if isinstance(i, int) and i < 0:
        raise Skip('negative index')
    return seq[i]


def _pl(s):
    return s


def _td(keys, *vals):
    return _dt.timedelta(**dict(zip(keys.split(','), vals))) if keys else _dt.timedelta()


def _dtm(*x):
    kw = {}
    if x and isinstance(x[-1], tuple):
        kw = dict(x[-1])
        x = x[:-1]
    return _dt.datetime(*x, **kw)


def _local(x, tz=None):
    """local time: any fixed offset will do, as long as it is not UTC"""
    if tz is not None:
        return _dt.datetime.fromtimestamp(x, tz)
    return _utc(x) + _dt.timedelta(hours=5, minutes=30)


def _moment(us, mode):
    try:
        d = _dt.datetime(1970, 1, 1) + _dt.timedelta(microseconds=us)
    except OverflowError:
        raise Skip('outside the calendar')
    if mode == 'local':
        return d + _dt.timedelta(hours=5, minutes=30)
    return d.replace(tzinfo=_dt.timezone.utc) if mode == 'aware' else d


def _utc(x, *r):
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return _dt.datetime.utcfromtimestamp(x)


def _sub(s, a, b):
    return s[a:b]


def _contains(a, b):
    return b in a


def _in(item, c):
    if isinstance(c, tuple) and c[:1] == ('list',):
        return final(item) in [final(x) for x in c[1:]]
    if isinstance(c, tuple) and c[:1] == ('dict',):
        return final(item) in [k for k, _ in c[1:]]
    return item in c


def _isint(s, b):
    try:
        int(s, b if b else 10)
        return True
    except ValueError:
        return False


def _int(x, b=0):
    if isinstance(x, str):
        return int(x, b if b else 10)
    return int(x)


BIN = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b,
       '//': lambda a, b: a // b, '%': lambda a, b: a % b, '&': lambda a, b: a & b, '|': lambda a, b: a | b,
       '^': lambda a, b: a ^ b, '<<': lambda a, b: a << b, '>>': lambda a, b: a >> b}
RAWAPPS = {'in', 'item'}
STRUCTURED = {'repr', 'str', 'in', 'item', 'truth', 'strjoin', 'slicestep', 'eq', 'ne', 'percent'}


def _nullstrip(b, pad):
    u = len(pad)
    if u == 1:
        return b.rstrip(pad)
    end = len(b)
    tail = len(b) % u
    if tail and b[-tail:] == pad[:tail]:
        end -= tail
    while end - u >= 0 and b[end - u:end] == pad:
        end -= u
    return b[:end]


def _pshift(a, b):
    if b > 4096 or b < 0:
        raise Skip('shift')
    return a << b


def _ip6x(x):
    return ipaddress.IPv6Address(x)


PLAIN = (str, int, float, bool, _dt.datetime, _dt.timedelta, type(None))


def _format(fmt, args, kw):
    kw = dict(kw)
    if not all(isinstance(x, PLAIN) for x in list(args) + list(kw.values())):
        raise Skip('formatted object')
    return fmt.format(*args, **kw)


def plain(x):
    """the Python value a structure of plain values stands for"""
    if isinstance(x, tuple) and x[:1] == ('list',):
        return [plain(y) for y in x[1:]]
    if isinstance(x, tuple) and x[:1] == ('dict',):
        return {k: plain(y) for k, y in x[1:]}
    if isinstance(x, tuple) and x[:1] == ('bytes',) and len(x) == 2:
        return x[1]
    if isinstance(x, tuple) and x[:1] == ('bool',) and len(x) == 2:
        return x[1]
    if isinstance(x, tuple) and x and isinstance(x[0], str) and x[0] in ('set', 'obj', 'cycle', 'enum', 'float'):
        raise Skip('structure')
    return x


def _percent(fmt, arg):
    for x in arg if isinstance(arg, tuple) else (arg,):
        if not isinstance(x, PLAIN):
            raise Skip('formatted object')
    return fmt % arg


APPS = {
    'mul': lambda a, b: a * b, 'strmul': lambda a, b: a * min(b, 10000), 'bytesmul': lambda a, b: a * min(b, 10000),
    'mod': lambda a, b: a % b, 'fdiv': lambda a, b: a // b, 'band': lambda a, b: a & b, 'bor': lambda a, b: a | b,
    'bxor': lambda a, b: a ^ b, 'truediv': lambda a, b: a / b, 'shl': _pshift, 'shr': lambda a, b: a >> b,
    'pow': lambda a, b: a ** b if abs(b) < 1000 else 0, 'fadd': lambda a, b: a + b, 'fsub': lambda a, b: a - b,
    'fmul': lambda a, b: a * b, 'neg': lambda a: -a,
    'lt': lambda a, b: a < b, 'le': lambda a, b: a <= b,
    'dt+': lambda a, b: a + b, 'dt-': lambda a, b: a - b, 'dt*': lambda a, b: a * b, 'dt/': lambda a, b: a / b,
    'dt//': lambda a, b: a // b, 'dt%': lambda a, b: a % b,
    'pack_be': lambda x, n, s: x.to_bytes(n, 'big', signed=s),
    'truth': lambda x: bool(x[1:]) if isinstance(x, tuple) and x[:1] in (('list',), ('dict',)) else bool(x),
    'in': _in, 'item': _item, 'substr': _sub, 'char': lambda s, i: s[i], 'index': lambda s, i: s[i],
    'slicestep': lambda s, a, b, c: ('list',) + s[1:][a:b:c] if isinstance(s, tuple) else s[a:b:c], 'contains': _contains,
    'str': lambda x: str(plain(x)), 'repr': lambda x: repr(plain(x)), 'strfmt': lambda x, s: format(x, s),
    'strftime': lambda d, f: d.strftime(f), 'format': _format, 'percent': _percent,
    'strjoin': lambda s, l: s.join(l[1:]),
    'decode': lambda b, enc, err: b.decode(enc, err), 'encode': lambda s, enc: s.encode(enc),
    'hexs': lambda b: b.hex(), 'hexb': lambda b: b.hex().encode(), 'hexsep': lambda b, s: b.hex(s),
    'fromhex': lambda s: bytes.fromhex(s), 'isint': _isint, 'int': _int, 'float': lambda x: float(x),
    'abs': lambda x: abs(x), 'round': lambda x, *n: round(x, *n), 'chr': lambda x: chr(x), 'ord': lambda s: ord(s),
    'hash': lambda x: hash(x), 'bit_length': lambda x: x.bit_length(), 'zeros': lambda n: bytes(min(n, 10000)),
    'int_from': lambda b, o, s: int.from_bytes(b, o, signed=bool(s)),
    'fits': lambda x, lo, hi: isinstance(x, int) and lo <= x <= hi,
    'packany': lambda x, n, s, big: x.to_bytes(n, 'big' if big else 'little', signed=s),
    'packs': lambda b, n: b[:n].ljust(n, b'\0'), 'nullstrip': _nullstrip,
    'moment': _moment, 'span': lambda us: _dt.timedelta(microseconds=us), 'datetime': _dtm, 'timedelta': _td, 'utcfromtimestamp': _utc,
    'fromtimestamp': _local, 'tz': lambda x: _dt.timezone.utc,
    'dt.replace': lambda d, keys, *v: d.replace(**dict(zip(keys.split(','), v))) if keys else d,
    'dt.astimezone': lambda d, *tz: d.astimezone(*tz),
    'ipv4': lambda x: ipaddress.IPv4Address(x), 'ipv6': _ip6x,
    'floor': lambda x: __import__('math').floor(x), 'ceil': lambda x: __import__('math').ceil(x),
}

# ---------------------------------------------------------------- collecting facts about graphs

def children(v):
    t = type(v)
    if t is N:
        yield v.var
        for _, ch in v.cases:
            yield ch
        if v.default is not None:
            yield v.default
        if not v.num:
            for k, _ in v.cases:
                yield k
    elif t is T:
        for x in v.items:
            yield x
    elif t is X:
        st = [v.args]
        while st:
            a = st.pop()
            for x in a:
                if isinstance(x, V):
                    yield x
                elif type(x) is tuple:
                    st.append(x)


def walk(roots):
    seen = set()
    stack = [r for r in roots if isinstance(r, V)]
    while stack:
        v = stack.pop()
        if v in seen:
            continue
        seen.add(v)
        yield v
        stack.extend(children(v))


def atoms_of(v):
    p = poly_of(v) if type(v) in (X, C, E) else None
    return p[1] if p else {}


def collect_hints(roots):
    h = {}

    def size_atoms(n):
        for a in atoms_of(n):
            if a.op == 'le':
                h.setdefault(('role', a), 'size')
            elif a.op == 'bits':
                offs = {}
                for b in a.args:
                    for w in walk([b]):
                        if type(w) is X and w.op == 'bit' and type(w.args[0]) is X and w.args[0].ty == 'bytes':
                            offs.setdefault((w.args[0], w.args[1]), 1)
                order = sorted(offs, key=lambda p: ops.split_off(p[1])[1])
                for i, k in enumerate(order):
                    h.setdefault(('byte',) + k, list(range(0, 14)) if i == 0 else [0, 0, 128])
            elif a.op == 'app' and a.args[0] in ('fdiv', 'mod', 'mul'):
                size_atoms(a.args[1])
    vs = list(walk(roots))
    for v in vs:
        if type(v) is X and v.op in ('le', 'slice', 'bit'):
            if isinstance(v.args[1], V) and type(v.args[0]) is X and v.args[0].ty == 'bytes':
                for a in atoms_of(v.args[1]):
                    if a.op == 'le' and a.args[2] >= 4:
                        h[('role', a)] = 'ptr'
    for v in vs:
        if type(v) is X and v.op == 'slice' and isinstance(v.args[2], V):
            size_atoms(v.args[2])
            for a in atoms_of(v.args[1]):
                if a.op in ('bits',):
                    size_atoms(a)
        if type(v) is N and v.num:
            bps = [lo for lo, _ in v.cases[1:]]
            ats = atoms_of(v.var)
            if len(ats) == 1:
                (a, k), = ats.items()
                c = poly_of(v.var)[0]
                tgt = h.setdefault(a, [])
                if len(tgt) < 3000:
                    for b in bps:
                        x = (b - c) // k if k else 0
                        tgt.extend((int(x), int(x) - 1))
                if a.op == 'app' and a.args[0] in ('fdiv', 'mod') and isinstance(a.args[1], X):
                    q = num(a.args[2].v) if type(a.args[2]) is C else 1
                    t2 = h.setdefault(a.args[1], [])
                    for b in bps:
                        t2.extend((int(b) * q if a.args[0] == 'fdiv' else int(b), ))
        if type(v) is N and not v.num and type(v.var) is X and v.var.op == 'sym':
            h.setdefault(v.var, []).extend(k.v for k, _ in v.cases if type(k) is C)
        if type(v) is X and v.op == 'app' and v.args[0] in ('contains', 'str.startswith', 'str.endswith', 'eq'):
            for s in v.args[1:]:
                for c in v.args[1:]:
                    if type(s) is X and s.op == 'sym' and type(c) is C:
                        h.setdefault(s, []).append(c.v)
                    if type(s) is X and s.op == 'sym' and s.ty == 'str' and type(c) is C and isinstance(c.v, str):
                        h[s].extend(['q' + c.v, c.v + 'q', 'q' + c.v + 'r'])
    return h


# ---------------------------------------------------------------- looking for a difference

def subpairs(a, b):
    if type(a) is T and type(b) is T and len(a.items) == len(b.items):
        return [(x, y) for x, y in zip(a.items, b.items) if x is not y]
    if type(a) is X and type(b) is X and a.op == b.op and a.op not in ('le', 'bit', 'slice', 'poly', 'bits'):
        out = []

        def zipa(p, q):
            if isinstance(p, V) and isinstance(q, V):
                if p is not q:
                    out.append((p, q))
            elif type(p) is tuple and type(q) is tuple and len(p) == len(q):
                for x, y in zip(p, q):
                    zipa(x, y)
        if len(a.args) == len(b.args):
            zipa(a.args, b.args)
        return out
    return []


def way(g, goal, rnd, budget=300):
    """constraints under which the graph has the given outcome"""
    n = [0]

    def go(g):
        if g is goal:
            return []
        if type(g) is not N:
            return None
        n[0] += 1
        if n[0] > budget:
            return None
        ks = [k for k, _ in g.cases]
        opts = [(i, ch) for i, (k, ch) in enumerate(g.cases)]
        if g.default is not None:
            opts.append((None, g.default))
        rnd.shuffle(opts)
        for i, ch in opts:
            r = go(ch)
            if r is not None:
                if g.num:
                    step = (g.var, ks[i], ks[i + 1] - 1 if i + 1 < len(ks) else POS)
                else:
                    step = (g.var, None if i is None else ks[i], ks)
                return [step] + r
        return None
    return go(g)


def diff_paths(a, b, rnd, limit=60, budget=4000):
    """yield constraint lists leading to leaf pairs that are different nodes"""
    seen = set()
    n = [0]
    found = [0]

    def go(a, b, path):
        if a is b or found[0] >= limit:
            return
        k = (a, b)
        if k in seen:
            return
        seen.add(k)
        n[0] += 1
        if n[0] > budget:
            return
        if type(a) is not N and type(b) is not N:
            if type(a) is X and type(b) is X and a.op == b.op and a.op in ('flist', 'fset', 'fdict') and len(a.args) == len(b.args):
                for p, q in zip(a.args, b.args):
                    if p[0] is q[0]:
                        more = way(p[0], TRUE, rnd)
                        if more is None:
                            continue
                        for x, y in zip(p[1:], q[1:]):
                            yield from go(x, y, path + more)
                    else:
                        yield from go(p[0], q[0], path)
                        other = [x for x in p[1:] + q[1:] if isinstance(x, V)]
                        if any(x is not y for x, y in zip(p[1:], q[1:])):
                            more = way(p[0], TRUE, rnd)
                            if more is not None and other:
                                found[0] += 1
                                yield path + more, (p[1], q[1])
                return
            sp = subpairs(a, b)
            if sp and any(type(x) is N or type(y) is N or subpairs(x, y) for x, y in sp):
                for x, y in sp:
                    yield from go(x, y, path)
            else:
                found[0] += 1
                yield list(path), (a, b)
            return
        var = min((v for v in (a, b) if type(v) is N), key=lambda v: v.var.id).var
        from .vals import split_on
        segs = split_on(var, (a, b))
        idx = list(range(len(segs)))
        rnd.shuffle(idx)
        for i in idx:
            s, (x, y) = segs[i]
            if is_num_var(var):
                hi = segs[i + 1][0] - 1 if i + 1 < len(segs) else POS
                path.append((var, s, hi))
            else:
                path.append((var, s, [k for k, _ in segs if k is not None]))
            yield from go(x, y, path)
            path.pop()
    yield from go(a, b, [])


def pick_in(lo, hi, rnd):
    if hi < lo:
        raise Skip('empty')
    if lo == NEG and hi == POS:
        return rnd.randrange(0, 50)
    if lo == NEG:
        return hi - rnd.choice([0, 0, 1, 5]) if hi != POS else 0
    if hi == POS:
        return lo + rnd.choice([0, 0, 1, 7])
    x = rnd.random()
    if x < 0.4:
        return lo
    if x < 0.6:
        return hi
    return rnd.randrange(int(lo), int(hi) + 1)


TEXTS = [' ', '   ', '\t', '0', '4294967295', '4294967296', '3000000000', '65536', 'C:\\dir\\\\', 'C:\\d\\', '\\\\srv\\sh\\', '  a b  ', ' a', 'a  ', 'A_b-C.D', 'x.TMP', 'x\ty\n', '0', '-7', '0x1F', 'aa', 'a;b;;c', '',
         'a\\\\b', '"q" \'r\'', '\u00e9 \u0130\u4e2d', 'a' * 70, '%TEMP%\\{x}', 'http://h:80/p?q=1', 'n=v=w', '10.0.0.1', '::1']


def near(c):
    """texts close to a constant"""
    return [c, 'q' + c, c + 'q', 'q' + c + 'r', c + c, 'q' + c + c, c + c + 'q', c.upper(), c.lower(), c[:-1], c[1:], 'q' + c + 'q' + c,
            c + 'q' + c, ' ' + c, c + ' ']


def extreme(n, signed, rnd):
    """a value of a n-byte field at which widths, signs and roundings show"""
    top = 1 << (8 * n - 1)
    v = rnd.choice([0, 1, 2, 3, 5, 7, 9, 10, 16, 17, 127, 128, 255, 256, top, top - 1, top + 1, 2 * top - 1, 2 * top - 2, top | top >> 1,
                    rnd.randrange(2 * top), rnd.randrange(2 * top), (1 << rnd.randrange(8 * n)) + rnd.randrange(-1, 2)])
    v %= 2 * top
    return v - 2 * top if signed and v >= top else v


def to_want(path, rnd, hints, extra=()):
    want, wantb = {}, []
    dom, mods, polys, soft, spelt, bitwise = {}, {}, [], {}, {}, {}

    def pinned(var, lo, hi):
        if var.op in ('le', 'sym'):
            for off, n, base in getattr(CTX[0], 'layout', {}).get(var.args[0], []):
                if off is var.args[1] and lo <= base and base + 0x300 <= hi:
                    return True

    def solve(var, lo, hi):
        """make integer term var fall in [lo, hi]"""
        lo, hi = max(lo, var.lo), min(hi, var.hi)
        if var.op in ('le', 'sym'):
            if pinned(var, lo, hi):
                return
            a, b = dom.get(var, (NEG, POS))
            dom[var] = (max(a, lo), min(b, hi))
            return
        if var.op == 'bit':
            t = var.args[0]
            if type(t) is X and t.ty == 'int' and t.op in ('le', 'sym'):
                bitwise.setdefault(t, {})[var.args[2]] = lo >= 1
                dom.setdefault(t, (t.lo, t.hi))
                return
            want[var] = bool(lo >= 1)
            return
        if var.op == 'bits':
            x = pick_in(lo, hi, rnd)
            for i, b in enumerate(var.args):
                if type(b) is N and type(b.var) is X and b.var.op == 'bit' and b is bool_of_var(b.var):
                    want[b.var] = bool(x >> i & 1)
            return
        if var.op == 'poly':
            c, ts = poly_of(var)
            if len(ts) == 1:
                (t, k), = ts.items()
                x, y = lo - c, hi - c
                if k < 0:
                    x, y, k = -y, -x, -k
                solve(t, x if x in (NEG, POS) else -(-x // k), y if y in (NEG, POS) else y // k)
            else:
                polys.append((var, lo, hi))
            return
        if var.op == 'app':
            f = var.args[0]
            if f == 'fdiv' and type(var.args[2]) is C and isinstance(var.args[1], X) and num(var.args[2].v) > 0:
                q = num(var.args[2].v)
                solve(var.args[1], lo if lo == NEG else lo * q, hi if hi == POS else hi * q + q - 1)
            elif f == 'mod' and type(var.args[2]) is C and isinstance(var.args[1], X) and num(var.args[2].v) > 0:
                q = num(var.args[2].v)
                x = var.args[1]
                c, ts = poly_of(x)
                if len(ts) == 1 and list(ts.values()) == [1] and list(ts)[0].op in ('le', 'sym'):
                    t = list(ts)[0]
                    mods.setdefault(t, []).append((q, c, lo, hi))
                    dom.setdefault(t, (t.lo, t.hi))
                else:
                    r = pick_in(lo, hi, rnd)
                    y = rnd.choice((rnd.randrange(0, 1000), rnd.randrange(0, 12), 0)) * q + r
                    solve(x, y, y)
            elif f == 'len' and isinstance(var.args[1], X) and var.args[1].op == 'sym' and var.args[1].ty == 'str':
                want[var.args[1]] = 'abcdefgh'[:pick_in(max(0, lo), min(hi, 8), rnd)]
            elif f == 'int' and isinstance(var.args[1], X) and var.args[1].ty == 'str':
                a, b = spelt.get(var.args[1], (NEG, POS))
                a, b = spelt[var.args[1]] = max(a, lo), min(b, hi)
                if a <= b:
                    setstr(var.args[1], str(pick_in(max(a, 0) if b >= 0 else a, b, rnd)))
            elif var.ty == 'bool':
                flag(var, lo >= 1)

    def settle(t):
        """pick a value of a field within what the path asks of it"""
        if t in want:
            return
        lo, hi = dom[t]
        if hi < lo:
            raise Skip('empty')
        for k in range(200):
            x = rnd.random()
            if t in soft and k < 20:
                v = soft[t]()
            elif x < 0.3 and hints.get(t):
                v = rnd.choice(hints[t])
            elif x < 0.5 and hints.get(('role', t)) == 'size':
                v = rnd.randrange(0, 80)
            elif x < 0.6 and hints.get(('role', t)) == 'ptr':
                v = rnd.randrange(1, 1 << 16) << 12
            else:
                v = pick_in(lo, hi, rnd)
            if t in mods and k > 60:
                q, c, a, b = mods[t][0]
                v += (rnd.randrange(int(max(a, 0)), int(min(b, q - 1)) + 1) - (v + c)) % q
            if type(v) is not int and type(v) is not bool:
                continue
            for b, on in bitwise.get(t, {}).items():
                v = v | 1 << b if on else v & ~(1 << b)
            if lo <= v <= hi and all(a <= (v + c) % q <= b for q, c, a, b in mods.get(t, ())):
                want[t] = int(v)
                return
        if t in bitwise:
            raise Skip('empty')
        want[t] = int(pick_in(lo, hi, rnd))

    def mix(var, lo, hi):
        """make a sum of several fields fall in [lo, hi]"""
        c, ts = poly_of(var)
        free = [(t, k) for t, k in ts.items() if t not in want]
        if any(t.op not in ('le', 'sym') or t.ty != 'int' for t, _ in free):
            return
        base = c
        for t, k in ts.items():
            if t in want:
                if not isinstance(want[t], int):
                    raise Skip('no')
                base += k * want[t]
        if not free:
            return
        for again in range(30):
            rnd.shuffle(free)
            if again < 10:
                free.sort(key=lambda p: hints.get(('role', p[0])) == 'ptr')
            rest, got = base, {}
            for t, k in free[:-1]:
                a, b = dom.get(t, (t.lo, t.hi))
                r = hints.get(('role', t))
                v = rnd.randrange(1, 1 << 16) << 12 if r == 'ptr' else rnd.choice(hints.get(t) or (0,)) if rnd.random() < 0.3 else \
                    rnd.randrange(0, rnd.choice((4, 20, 100, 400)))
                if type(v) is not int:
                    v = 0
                got[t] = v = int(min(max(v, a), b))
                rest += k * v
            t, k = free[-1]
            a, b = dom.get(t, (t.lo, t.hi))
            x, y = lo - rest, hi - rest
            if k < 0:
                x, y, k = -y, -x, -k
            x = max(a, x if x in (NEG, POS) else -(-x // k))
            y = min(b, y if y in (NEG, POS) else y // k)
            if x > y:
                continue
            for q in range(20):
                v = rnd.randrange(0, 400) if q < 10 and rnd.random() < 0.5 else pick_in(x, y, rnd)
                if x <= v <= y and all(m <= (v + z) % w <= n for w, z, m, n in mods.get(t, ())):
                    got[t] = int(v)
                    want.update(got)
                    return
        raise Skip('empty')

    def flag(var, on):
        f = var.args[0]
        if f in ('contains', 'str.startswith', 'str.endswith') and isinstance(var.args[1], X) and \
                type(var.args[2]) is C and isinstance(var.args[2].v, str):
            setstr(var.args[1], {'contains': 'q%sr', 'str.startswith': '%sr', 'str.endswith': 'q%s'}[f] % var.args[2].v
                   if on else 'zz')
        elif f == 'eq' and isinstance(var.args[1], X):
            x, y = var.args[1], var.args[2]
            if on and isinstance(y, X) and x.op == 'sym' and y.op == 'sym':
                want[x] = want.get(y, 'abc' if x.ty == 'str' else 7)
                want[y] = want[x]
            elif on and isinstance(y, X) and x.op == y.op == 'slice' and x.args[2] is not None and y.args[2] is not None:
                wantb.append((x.args[0], x.args[1], y))
            elif on and x.op == 'slice' and type(y) is C and isinstance(y.v, bytes):
                wantb.append((x.args[0], x.args[1], y.v))

    def setstr(var, s):
        if var.op == 'sym':
            want[var] = s
            return
        if var.op == 'app' and var.args[0] == 'substr' and isinstance(var.args[1], X):
            lo, hi = var.args[2:4]
            if lo is ZERO or lo is NONE:
                setstr(var.args[1], s + 'ab' if hi is not NONE and rnd.random() < 0.5 else s)
            return
        if var.op == 'app' and var.args[0] in ('utf16z', 'decode') and text_slice(var) is not None:
            content, off, n = text_slice(var).args
            try:
                data = s.encode('utf-16-le' if var.args[0] == 'utf16z' or '16' in str(var.args[2:3]) else 'latin-1')
            except UnicodeError:
                return
            if n is None:
                wantb.append((content, off, data + b'\0\0'))
            else:
                solve(n, len(data), len(data)) if isinstance(n, X) else None
                wantb.append((content, off, data if not (type(n) is C and n.v > len(data)) else data + b'\0\0'))

    for var, s, ext in path:
        if is_num_var(var):
            solve(var, s, ext)
        elif s is not None:
            if type(s) is C and isinstance(s.v, str):
                setstr(var, s.v)
            elif type(s) is C and isinstance(s.v, bytes) and var.op == 'slice':
                wantb.append((var.args[0], var.args[1], s.v))
                if isinstance(var.args[2], X):
                    solve(var.args[2], len(s.v), len(s.v))
            elif var.op == 'sym' and type(s) is C:
                want[var] = s.v
        else:
            if var.op == 'sym' and var.ty == 'str' and rnd.random() < 0.5:
                want.setdefault(var, 'other%d' % rnd.randrange(9))
    for kind, t, v in extra:
        if kind == 'num':
            soft[t] = v
            dom.setdefault(t, (t.lo, t.hi))
        elif kind == 'bit':
            want.setdefault(t, v)
        elif t not in want:
            setstr(t, v)
    mixed = {t for var, _, _ in polys for t in poly_of(var)[1]}
    for t in list(dom):
        if t not in mixed or t in soft and rnd.random() < 0.5:
            settle(t)
    for var, lo, hi in polys:
        mix(var, lo, hi)
    for t in list(dom):
        settle(t)
    for content, off, data in wantb:
        if not isinstance(data, bytes):
            continue
        for t in [t for t in want if type(t) is X and t.op == 'le' and t.args[0] is content]:
            # a number read where a text is asked for
            d = ops.pconst(ops.binop('-', t.args[1], off))
            if d is not None and 0 <= d <= len(data) - t.args[2]:
                n = int.from_bytes(data[d:d + t.args[2]], 'little', signed=bool(t.args[3]))
                lo, hi = dom.get(t, (None, None))
                if lo is not None and lo <= n <= hi:
                    want[t] = n
    return want, wantb


def text_slice(v):
    """the slice that a text is decoded from"""
    b = v.args[1]
    if type(b) is X and b.op == 'app' and b.args[0] == 'nullstrip':
        b = b.args[1]
    return b if type(b) is X and b.op == 'slice' else None


def sources(x, y, limit=600):
    """input fields, flags and texts the two terms are computed from, and the constants they are compared with; those of only one of
    the two come first"""
    def of(r):
        out, consts = {}, {}
        n = 0
        for v in walk([r]):
            n += 1
            if n > limit:
                break
            if type(v) is X:
                if v.op in ('le', 'bit') or v.op == 'sym' and v.ty in ('int', 'str', 'bool'):
                    out[v] = 1
                elif v.op == 'app' and v.args[0] in ('utf16z', 'decode') and text_slice(v) is not None:
                    out[v] = 1
                if v.op == 'app' and str(v.args[0]).startswith('str.') or v.op == 'app' and v.args[0] in ('contains', 'eq', 'in', 'isint'):
                    for c in v.args[1:]:
                        if type(c) is C and isinstance(c.v, str):
                            consts[c.v] = 1
            if type(v) is N and not v.num:
                for k, _ in v.cases[:8]:
                    if type(k) is C and isinstance(k.v, str):
                        consts[k.v] = 1
        return out, consts
    (ox, cx), (oy, cy) = of(x), of(y)
    only = [v for v in list(ox) + list(oy) if (v in ox) != (v in oy)]
    both = [v for v in ox if v in oy]
    cs = list(dict(cx, **cy))
    return only, both, cs


def stress(only, both, consts, rnd, hints):
    """values for the sources of a differing pair"""
    texts = TEXTS + [t for c in consts[:20] for t in near(c)]
    mode = rnd.random()
    out = []
    pick = only + both if mode < 0.5 or not only else only
    if len(pick) > 4:
        pick = rnd.sample(pick, rnd.choice((2, 4, len(pick))))
    for v in pick:
        if v.op == 'bit':
            if rnd.random() < 0.5:
                out.append(('bit', v, rnd.random() < 0.5))
        elif v.ty == 'str':
            out.append(('str', v, rnd.choice(texts)))
        elif v.ty == 'bool':
            out.append(('bit', v, rnd.random() < 0.5))
        elif v.op == 'le':
            role = hints.get(('role', v))
            if role == 'ptr':
                continue
            n, sg = v.args[2], v.args[3]
            if role == 'size' and rnd.random() < 0.8:
                out.append(('num', v, lambda: rnd.randrange(0, 90)))
            else:
                out.append(('num', v, lambda n=n, sg=sg: extreme(n, sg, rnd)))
        elif v.op == 'sym':
            out.append(('num', v, lambda: extreme(rnd.choice((1, 2, 4, 8)), rnd.random() < 0.3 and v.lo < 0, rnd)))
    if rnd.random() < 0.35:
        # two values that differ just a little
        alike = [v for v in only + both if v.ty == 'str' and v.op != 'le']
        ints = [v for v in only + both if v.op == 'sym' and v.ty == 'int']
        if len(alike) > 1 and (len(ints) < 2 or rnd.random() < 0.5):
            a, b = rnd.sample(alike, 2)
            t = rnd.choice(texts + ['C:\\Dir\\File.dll', 'Some Text 1'])
            out[:0] = [('str', a, t), ('str', b, variant(t, rnd))]
        elif len(ints) > 1:
            a, b = rnd.sample(ints, 2)
            n = extreme(rnd.choice((1, 2, 4, 8)), False, rnd)
            m = rnd.choice((n + 1, n - 1, n ^ (1 << rnd.randrange(64)), n & 0xffffffff, n & 0xffff, n + (1 << 32)))
            out += [('num', a, lambda: n), ('num', b, lambda: m)]
    return out


def variant(t, rnd):
    """a text that careless comparisons take for t"""
    return rnd.choice((t.upper(), t.lower(), t.swapcase(), t.title(), t.strip(), ' ' + t, t + ' ', t + '\x00', t[:-1], t[1:], t + 'q', t[::-1],
                       t.replace('\\', '/'), t.replace(' ', ''), t.split('\\')[-1], t + '\\'))


def make(seed, hints, ctx, want=None, wantb=None):
    v = Valuation(seed, hints, want, ctx)
    v.wantb = wantb or []
    # strings asked for: place them first
    try:
        for content, off, data in v.wantb:
            if type(content) is X and content.op == 'root':
                if type(data) is X:
                    if type(data.args[0]) is not X or data.args[0].op != 'root':
                        continue
                    m, a = v.mem(data.args[0]), num(v.ev(data.args[1]))
                    k, b = num(v.ev(data.args[2])), num(v.ev(off))
                    if k > 4096:
                        continue
                    # the two parts hold the same bytes
                    m2 = v.mem(content)
                    for i in range(k):
                        if b + i in m2.b:
                            m.b.setdefault(a + i, m2.b[b + i])
                    data = m.read(a, k)
                v.mem(content).put(num(v.ev(off)), data)
    except (Unev, RecursionError):
        raise Skip('no')
    return v


def value(v, x):
    try:
        return final(v.ev(x))
    except Undecodable:
        return ('undecodable',)


class Diff(object):
    def __init__(self, a, b, val):
        self.a, self.b, self.val = a, b, val


def distinguish(a, b, ctx=None, tries=120, seed=1, ignore=None, rounds=150, patience=5):
    """a valuation under which the two graphs have different values, or None.
    ignore(va, vb): outcomes that do not count"""
    ctx = ctx or CTX[0]
    if a is b:
        return None, 0
    rnd = random.Random(seed)
    hints = collect_hints([a, b])
    done = 0
    unev = None

    def attempt(want, wantb, sd):
        nonlocal done, unev
        try:
            v = make(sd, hints, ctx, want, wantb)
            x = value(v, a)
            y = value(v, b)
        except Skip:
            return None
        except Unev as e:
            unev = str(e)
            return None
        except RecursionError:
            return None
        done += 1
        if x != y and not (ignore and ignore(x, y)):
            # unaffected by interpretation slack: undefined parts do not count
            if x is UN or y is UN:
                return None
            return Diff(x, y, v)
        return None
    sd = seed * 1000003
    for path, leaf in diff_paths(a, b, rnd):
        for r in range(3):
            sd += 1
            try:
                want, wantb = to_want(path, rnd, hints)
            except Skip:
                continue
            d = attempt(want, wantb, sd)
            if d is not None:
                d.path = path
                return d, done
    for i in range(tries):
        sd += 1
        d = attempt(None, None, sd)
        if d is not None:
            return d, done
    # nothing yet: values chosen for the fields on which the differing parts depend
    srcs = {}
    end = time.process_time() + patience
    again = 0
    while again < rounds and time.process_time() < end:
        again += 1
        for path, leaf in diff_paths(a, b, rnd, limit=40):
            if time.process_time() >= end:
                break
            if leaf not in srcs:
                srcs[leaf] = sources(*leaf)
            src = srcs[leaf]
            if not src[0] and not src[1] and path:
                # two constants: what decides between them
                key = path[-1][0], path[0][0]
                if key not in srcs:
                    srcs[key] = sources(*key)
                src = srcs[key]
            for r in range(6):
                sd += 1
                try:
                    want, wantb = to_want(path, rnd, hints, stress(*src, rnd, hints))
                except Skip:
                    continue
                d = attempt(want, wantb, sd)
                if d is not None:
                    d.path = path
                    return d, done
    return None, done if done else -1
