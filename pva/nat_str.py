"""Text and byte-string methods, formatting."""
import codecs
import string as _string

from .natives import *
from .natives import nmethod, native, ctor, ncls, METHODS
from . import natives as nv


def fixed(l):
    """length of a padded number that cannot overflow its width"""
    if l.op == 'fmt' and len(l.args[0]) == 3 and l.args[0][0] == '0' and l.args[0][1].isdigit() and l.args[0][2] in 'xX':
        lo, hi = rng(l.args[1])
        n = int(l.args[0][1])
        if lo >= 0 and hi < 16 ** n:
            return n
    return None


def cut(parts, k):
    """(first k characters, the others) where the cut falls between two parts"""
    head = []
    parts = list(parts)
    while parts and k > 0:
        p = parts[0]
        n = len(p.v) if type(p) is C else fixed(p)
        if n is None:
            return None
        if n > k:
            if type(p) is not C:
                return None
            head.append(const(p.v[:k]))
            parts[0] = const(p.v[k:])
            return head, parts
        head.append(p)
        parts.pop(0)
        k -= n
    return head, parts


def hex_text(b, sep='', case='x'):
    """two digits a byte"""
    n = pconst(blen(b)) if has_len(b) else None
    if n is None or n > 64 or type(b) is C:
        return None
    parts = []
    for i in range(n):
        if i and sep:
            parts.append(const(sep))
        parts.append(fmt_int(nv.nat_seq.byte_at(b, const(i)), '02' + case))
    return scat(parts)


def str_len(l):
    if type(l) is C:
        return const(len(l.v))
    if l.op == 'scat':
        r = ZERO
        for p in l.args:
            r = padd(r, str_len(p))
        return r
    if fixed(l) is not None:
        return const(fixed(l))
    if l.op == 'app' and l.args[0] == 'hexs':
        return padd(blen(l.args[1]), blen(l.args[1]))
    return term('app', ('len', l), 'int', 0)


def str_slice(v, a, b, step):
    if step is not NONE and pconst(step) != 1:
        return app('slicestep', (v, a, b, step), 'str')
    if a is NONE or pconst(a) == 0:
        if b is NONE:
            return v
        a = ZERO
    if type(v) is X and v.op == 'scat' and pconst(a) is not None and pconst(a) >= 0 and b is NONE:
        parts = list(v.args)
        k = pconst(a)
        while parts and k > 0 and type(parts[0]) is C:
            n = len(parts[0].v)
            if k >= n:
                k -= n
                parts.pop(0)
            else:
                parts[0] = const(parts[0].v[k:])
                k = 0
        if k == 0:
            return scat(parts)
    if type(v) is X and v.op == 'scat' and pconst(a) == 0 and b is not NONE and pconst(b) is not None and pconst(b) < 0:
        parts = list(v.args)
        k = -pconst(b)
        while parts and k > 0 and type(parts[-1]) is C:
            n = len(parts[-1].v)
            if k >= n:
                k -= n
                parts.pop()
            else:
                parts[-1] = const(parts[-1].v[:n - k])
                k = 0
        if k == 0:
            return scat(parts)
    if type(v) is X and v.op == 'scat' and pconst(a) == 0 and b is not NONE and pconst(b) is not None and \
            type(v.args[0]) is C and len(v.args[0].v) >= pconst(b) > 0:
        return const(v.args[0].v[:pconst(b)])
    if type(v) is X and v.op in ('scat', 'fmt') and pconst(a) is not None and pconst(a) >= 0 and \
            (b is NONE or pconst(b) is not None and pconst(b) >= 0):
        r = cut(v.args if v.op == 'scat' else (v,), pconst(a))
        if r is not None:
            if b is NONE:
                return scat(r[1])
            r = cut(r[1], max(0, pconst(b) - pconst(a)))
            if r is not None:
                return scat(r[0])
    return app('substr', (v, a, b), 'str')


def char_at(v, j):
    c = pconst(j)
    if type(v) is X and v.op == 'scat' and c is not None:
        p = v.args[-1] if c < 0 else v.args[0]
        if type(p) is C and (len(p.v) > c if c >= 0 else len(p.v) >= -c):
            return const(p.v[c])
    if rng(j)[0] >= 0:
        ok = apply(lambda n: cmp_zero(padd(n, j, -1), '>'), (str_len(v),))
        if c == 0:
            ok = not_(eq_leaf(v, EMPTY))
    else:
        ok = not_(eq_leaf(v, EMPTY)) if c == -1 else apply(lambda n: cmp_zero(padd(n, j), '>='), (str_len(v),))
    return ite(ok, app('char', (v, j), 'str'), raise_('IndexError'))


def unenum(v):
    return map_leaves(v, lambda l: l.value if type(l) is E and l.cls.is_int else l)


def str_contains(it, x, y):
    if x is UNDEF or y is UNDEF:
        return UNDEF
    if type(x) is C and type(y) is C:
        try:
            return const(y.v in x.v)
        except TypeError:
            return raise_('TypeError')
    if ty_of(x) == 'bytes' and ty_of(y) == 'int':
        return bool_of_var(app('contains', (x, y), 'bool'))
    if ty_of(x) != ty_of(y):
        return raise_('TypeError')
    if type(y) is C and not y.v:
        return TRUE
    if type(x) is X and x.op == 'scat' and type(y) is C:
        for p in x.args:
            if type(p) is C and y.v in p.v:
                return TRUE
        if len(y.v) == 1:
            r = FALSE
            for p in x.args:
                r = or_(r, str_contains(it, p, y))
            return r
    if type(x) is X and x.op == 'fmt' and type(y) is C:
        spec, v = x.args
        alphabet = '-0123456789' + {'x': 'abcdef', 'X': 'ABCDEF', ',': ',', 'b': '', 'o': ''}.get(spec[-1:], '') + \
            ('xXob' if '#' in spec else '')
        if any(ch not in alphabet for ch in y.v):
            return FALSE
    return bool_of_var(app('contains', (x, y), 'bool'))


# ------------------------------------------------------------------ conversion to text

def bool_text(v):
    return const('True') if v is TRUE else const('False')


def to_str(it, st, v):
    def go(s, l):
        t = type(l)
        if t is C:
            if isinstance(l.v, str):
                return l
            return const(str(l.v))
        if t is E:
            m = it.find_user_method(l.cls, '__str__', s)
            if m is not None:
                return it.call(s, m, [l], {})
            if l.cls.is_int:
                return const(str(l.value.v))
            return const('%s.%s' % (l.cls.name, l.name))
        if t is X:
            if l.ty == 'str':
                return l
            if l.ty == 'int':
                return fmt_int(l, '')
            if l.ty == 'undef':
                return l
            if l.op == 'raise':
                it.resolve(s, l)
            if l.ty == 'ipv4':
                b = l.args[1]
                parts = []
                for i in range(4):
                    if i:
                        parts.append(const('.'))
                    parts.append(fmt_int(le_of(sub(b, const(i), const(1)), 1), ''))
                return scat(parts)
            return app('str', (l,), 'str')
        if t is R:
            cls = s.get(l.oid).cls
            m = it.find_user_method(cls, '__str__', s)
            if m is not None:
                return it.call(s, m, [l], {})
            if cls.native is not None and 'BaseException' in nv.mro_names(cls.native) or \
                    any(c.native == 'BaseException' for c in cls.mro):
                a = s.get(l.oid).attrs.get('args')
                if type(a) is T and len(a.items) == 1:
                    return to_str(it, s, a.items[0])
                if type(a) is T and not a.items:
                    return EMPTY
            return to_repr(it, s, l)
        return to_repr(it, s, l)
    return it.with_leaves(st, v, go) if has_ref(v) else leafwise(it, st, v, go)


def leafwise(it, st, v, go):
    if type(v) is not N:
        return go(st, v)
    if any(type(l) is X and l.op == 'raise' for l, _ in leaves(v)):
        v = it.resolve(st, v)
    if any(type(l) is E for l, _ in leaves(v)):
        return it.with_leaves(st, v, go)
    return map_leaves(v, lambda l: go(st, l))


def to_repr(it, st, v):
    def go(s, l):
        t = type(l)
        if t is C:
            return const(repr(l.v))
        if t is E:
            m = it.find_user_method(l.cls, '__repr__', s)
            if m is not None:
                return it.call(s, m, [l], {})
            return const('<%s.%s: %r>' % (l.cls.name, l.name, to_py(l.value)))
        if t is X:
            if l.ty == 'int':
                return fmt_int(l, '')
            if l.ty == 'undef':
                return l
            return app('repr', (l,), 'str')
        if t is T:
            parts = [const('(')]
            for i, x in enumerate(l.items):
                if i:
                    parts.append(const(', '))
                parts.append(to_repr(it, s, x))
            parts.append(const(',)' if len(l.items) == 1 else ')'))
            r = EMPTY
            for p in parts:
                r = it.binop(s, '+', r, p)
            return r
        if t is R:
            cls = s.get(l.oid).cls
            m = it.find_user_method(cls, '__repr__', s)
            if m is not None:
                return it.call(s, m, [l], {})
            return app('repr', (it.freeze(s, l),), 'str')
        if t is ClassV:
            return const("<class '%s'>" % l.name)
        return app('repr', (l,), 'str')
    return it.with_leaves(st, v, go) if has_ref(v) or type(v) is T else leafwise(it, st, v, go)


def format_value(it, st, v, spec):
    if type(spec) is not C:
        def dyn(s, sp):
            if type(sp) is not C:
                raise Unsupported('format specification is not known')
            return format_value(it, s, v, sp)
        if type(spec) is N:
            return it.with_leaves(st, spec, dyn)
        return fmt_dynamic(it, st, v, spec)
    sp = spec.v
    if sp == '':
        def go0(s, l):
            if type(l) is R:
                m = it.find_user_method(s.get(l.oid).cls, '__format__', s)
                if m is not None:
                    return it.call(s, m, [l, spec], {})
            if type(l) is E:
                m = it.find_user_method(l.cls, '__format__', s)
                if m is not None:
                    return it.call(s, m, [l, spec], {})
            return to_str(it, s, l)
        return it.with_leaves(st, v, go0) if has_ref(v) else leafwise(it, st, v, go0)

    def go(s, l):
        t = type(l)
        if t is E and l.cls.is_int:
            l, t = l.value, C
        if t is C:
            try:
                return const(format(l.v, sp))
            except (ValueError, TypeError) as e:
                it.raise_now(s, type(e).__name__)
        if t is X:
            if l.ty == 'int':
                try:
                    format(1, sp)
                except ValueError:
                    it.raise_now(s, 'ValueError')
                return fmt_int(l, norm_spec(sp))
            if l.ty == 'undef':
                return l
            if l.ty == 'str':
                try:
                    format('', sp)
                except ValueError:
                    it.raise_now(s, 'ValueError')
                if sp == 's':
                    return l
                return app('strfmt', (l, spec), 'str')
            if l.ty == 'datetime':
                return app('strftime', (l, spec), 'str')
            return app('format', (l, spec), 'str')
        if t is R:
            m = it.find_user_method(s.get(l.oid).cls, '__format__', s)
            if m is not None:
                return it.call(s, m, [l, spec], {})
        it.raise_now(s, 'TypeError', const('unsupported format string'))
    return it.with_leaves(st, v, go) if has_ref(v) else leafwise(it, st, v, go)


def norm_spec(sp):
    if sp == 'd':
        return ''
    if len(sp) > 1 and sp[-1] == 'd':
        return sp[:-1]
    return sp


def fmt_dynamic(it, st, v, spec):
    raise Unsupported('format specification is not known')


def do_format(it, st, fmt, args, kw):
    if type(fmt) is N:
        return it.with_leaves(st, fmt, lambda s, l: do_format(it, s, l, args, kw))
    if type(fmt) is X:
        return format_template(it, st, fmt, args, kw)
    out = EMPTY
    auto = [0]

    def field(s, name):
        import re
        m = re.match(r'^([^.\[]*)(.*)$', name, re.S)
        head, rest = m.groups()
        if head == '':
            head = str(auto[0])
            auto[0] += 1
        if head.isdigit():
            if int(head) >= len(args):
                it.raise_now(s, 'IndexError', const('format'))
            v = args[int(head)]
        else:
            if head not in kw:
                it.raise_now(s, 'KeyError', const(head))
            v = kw[head]
        for p in re.findall(r'\.([^.\[]+)|\[([^\]]+)\]', rest):
            if p[0]:
                v = it.get_attr(s, v, p[0])
            else:
                v = it.getitem(s, v, const(int(p[1]) if p[1].isdigit() else p[1]))
        return v

    def expand(f, depth=0):
        out = EMPTY
        try:
            parts = list(_string.Formatter().parse(f))
        except ValueError as e:
            it.raise_now(st, 'ValueError', const(str(e)))
        for lit, name, spec, conv in parts:
            out = it.binop(st, '+', out, const(lit))
            if name is None:
                continue
            v = field(st, name)
            if conv == 'r':
                v = to_repr(it, st, v)
            elif conv == 's':
                v = to_str(it, st, v)
            sp = expand(spec, depth + 1) if spec else EMPTY
            out = it.binop(st, '+', out, format_value(it, st, v, sp))
        return out
    return expand(fmt.v)


def format_template(it, st, fmt, args, kw):
    """a template that is itself computed (e.g. strftime output)"""
    return app('format', (fmt, tup([it.freeze(st, a) for a in args]),
                          tup([tup((const(k), it.freeze(st, v))) for k, v in sorted(kw.items())])), 'str')


def percent(it, st, a, b):
    import re
    if type(a) is not C:
        if type(a) is N:
            return it.with_leaves(st, a, lambda s, l: percent(it, s, l, b))
        return app('percent', (a, it.freeze(st, b)), 'str')
    f = a.v
    pos = 0
    out = EMPTY
    idx = 0
    if type(b) is N and any(type(l) is T for l, _ in leaves(b)):
        return it.with_leaves(st, b, lambda s, l: percent(it, s, a, l))
    args = list(b.items) if type(b) is T else [b]
    for m in re.finditer(r'%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([a-zA-Z%])', f):
        out = it.binop(st, '+', out, const(f[pos:m.start()]))
        pos = m.end()
        name, flags, width, prec, ty = m.groups()
        if ty == '%':
            out = it.binop(st, '+', out, const('%'))
            continue
        if width == '*':
            raise Unsupported('%* width')
        if name is not None:
            v = it.getitem(st, b, const(name))
        else:
            if idx >= len(args):
                it.raise_now(st, 'TypeError', const('not enough arguments for format string'))
            v = args[idx]
            idx += 1
        if ty == 's':
            v = to_str(it, st, v)
        elif ty == 'r':
            v = to_repr(it, st, v)
        elif ty in 'dixXobu':
            def chk(s, l):
                if ty_of(l) not in ('int', 'any', 'undef', 'float'):
                    it.raise_now(s, 'TypeError', const('%d format: a number is required'))
                return l.value if type(l) is E else l
            v = it.with_leaves(st, v, chk)
        else:
            raise Unsupported('%%%s formatting' % ty)
        spec = ''
        if ty in 'dixXobu':
            if '-' in flags:
                spec += '<'
            if '+' in flags:
                spec += '+'
            elif ' ' in flags:
                spec += ' '
            if '#' in flags:
                spec += '#'
            if '0' in flags and width and '-' not in flags:
                spec += '0'
            if prec:
                if width or flags:
                    raise Unsupported('% precision with width')
                spec += '0' + prec
            spec += width or ''
            spec += {'d': '', 'i': '', 'u': ''}.get(ty, ty)
        else:
            if width:
                spec = ('<' if '-' in flags else '>') + width
            if prec:
                spec += '.' + prec
        out = it.binop(st, '+', out, format_value(it, st, v, const(spec)))
    if name_free(f) and type(b) is T and idx < len(args):
        it.raise_now(st, 'TypeError', const('not all arguments converted'))
    return it.binop(st, '+', out, const(f[pos:]))


def name_free(f):
    return '%(' not in f


@ctor('str')
def c_str(it, st, cls, a, k):
    if not a:
        return EMPTY
    if len(a) > 1 or 'encoding' in k:
        return it.call_method(st, a[0], 'decode', list(a[1:]), k)
    return to_str(it, st, a[0])


# ------------------------------------------------------------------ methods

def simple(cls, name, ty, pyname=None):
    """method on text: exact on constants, uninterpreted otherwise"""
    pyname = pyname or name
    nv.SIMPLE.add((cls, name))

    def fn(it, st, a, k):
        args = list(a)
        for n, v in k.items():
            args.append(v)
        if any(has_ref(x) for x in args):
            raise Unsupported('%s.%s with an object argument' % (cls, name))

        def f(*xs):
            if any(x is UNDEF for x in xs):
                return UNDEF
            for x in xs:
                if type(x) is X and x.op == 'raise':
                    return x
            if all(is_const(x) for x in xs):
                try:
                    r = getattr(to_py(xs[0]), pyname)(*[to_py(x) for x in xs[1:]])
                except Exception as e:
                    return raise_(type(e).__name__)
                if isinstance(r, (list,)):
                    raise Unsupported('list result')
                return from_py(r)
            r = special(cls, name, xs)
            if r is not None:
                return r
            x = app('%s.%s' % (cls, name), xs, ty)
            if ty == 'bool':
                return bool_of_var(x)
            return x
        return it.pure(st, f, args)
    nmethod(cls, name)(fn)


def special(cls, name, xs):
    x = xs[0]
    if name in ('startswith', 'endswith') and type(x) is X and len(xs) == 2:
        p = xs[1]
        if type(p) is T:
            r = FALSE
            for q in p.items:
                y = special(cls, name, (x, q))
                r = or_(r, y if y is not None else bool_of_var(app('%s.%s' % (cls, name), (x, q), 'bool')))
            return r
        if type(p) is C:
            if not p.v:
                return TRUE
            if x.op == 'scat':
                q = x.args[0 if name == 'startswith' else -1]
                if type(q) is C:
                    if len(q.v) >= len(p.v):
                        return const(getattr(q.v, name)(p.v))
                    if name == 'startswith' and not p.v.startswith(q.v) or \
                            name == 'endswith' and not p.v.endswith(q.v):
                        return FALSE
            if cls == 'bytes' and name == 'startswith' and x.op in ('slice', 'bcat', 'root'):
                return eq_leaf(sub(x, ZERO, const(len(p.v))), p)
            if cls == 'str' and len(p.v) == 1 and p.v != '' and name == 'endswith':
                pass
    if name == 'upper' and x.op == 'fmt' and x.args[0] and x.args[0][-1] == 'x':
        if '#' not in x.args[0]:
            return fmt_int(x.args[1], x.args[0][:-1] + 'X')
    if name == 'upper' and x.op == 'scat' and len(xs) == 1:
        parts = [const(p.v.upper()) if type(p) is C else special(cls, name, (p,)) for p in x.args]
        if all(p is not None for p in parts):
            return scat(parts)
    if name == 'upper' and x.op == 'fmt' and x.args[0] and x.args[0][-1] == 'X' and '#' not in x.args[0]:
        return x
    if name == 'lower' and x.op == 'fmt' and x.args[0] in ('', 'x', '08x', '02x', '04x', ','):
        return x
    if name in ('strip',) and x.op == 'fmt' and len(xs) == 1:
        return x
    if name == 'replace' and x.op == 'scat' and type(xs[1]) is C and type(xs[2]) is C and len(xs[1].v) == 1 and len(xs) == 3:
        out = []
        for p in x.args:
            if type(p) is C:
                out.append(const(p.v.replace(xs[1].v, xs[2].v)))
            else:
                y = special(cls, name, (p,) + tuple(xs[1:]))
                out.append(y if y is not None else app('str.replace', (p,) + tuple(xs[1:]), 'str'))
        return scat(out)
    if name == 'replace' and x.op == 'fmt' and type(xs[1]) is C and type(xs[2]) is C and len(xs) == 3:
        if str_contains(None, x, xs[1]) is FALSE:
            return x
        if x.args[0] == ',' and xs[1].v == ',' and xs[2].v == '':
            return fmt_int(x.args[1], '')
    if name == 'zfill' and x.op == 'fmt' and x.args[0] in ('', 'x', 'X', 'b') and pconst(xs[1]) is not None and \
            rng(x.args[1])[0] >= 0:
        return fmt_int(x.args[1], '0%d%s' % (pconst(xs[1]), x.args[0]))
    if name == 'isdigit' and x.op == 'fmt' and x.args[0] == '' and rng(x.args[1])[0] >= 0:
        return TRUE
    return None


for _n in ('upper', 'lower', 'strip', 'lstrip', 'rstrip', 'capitalize', 'title', 'swapcase', 'casefold', 'replace',
           'zfill', 'ljust', 'rjust', 'center', 'expandtabs', 'translate', 'removeprefix', 'removesuffix'):
    simple('str', _n, 'str')
for _n in ('isdigit', 'isdecimal', 'isnumeric', 'isalpha', 'isalnum', 'isspace', 'isupper', 'islower', 'isidentifier',
           'isprintable', 'isascii', 'startswith', 'endswith', 'istitle'):
    simple('str', _n, 'bool')
for _n in ('find', 'rfind', 'count'):
    simple('str', _n, 'int')
    simple('bytes', _n, 'int')
for _n in ('strip', 'lstrip', 'rstrip', 'replace', 'ljust', 'rjust', 'upper', 'lower', 'removeprefix', 'removesuffix'):
    simple('bytes', _n, 'bytes')
for _n in ('startswith', 'endswith', 'isdigit'):
    simple('bytes', _n, 'bool')


def index_by(kind, find):
    def f(it, st, a, k):
        v = METHODS[(kind, find)].fn(it, st, a, k)
        it.check(st, apply(lambda l: cmp_zero(l, '>='), (v,)), 'ValueError')
        return v
    return f


for _k in ('str', 'bytes'):
    nmethod(_k, 'index')(index_by(_k, 'find'))
    nmethod(_k, 'rindex')(index_by(_k, 'rfind'))


@nmethod('str', 'format')
def str_format(it, st, a, k):
    return do_format(it, st, a[0], a[1:], k)


@nmethod('str', 'format_map')
def str_format_map(it, st, a, k):
    kw = {e[1].v: e[2] for e in st.get(a[1].oid).items if type(e[1]) is C}
    return do_format(it, st, a[0], [], kw)


nmethod('str', '__str__')(lambda it, st, a, k: a[0])
nmethod('str', '__format__')(lambda it, st, a, k: format_value(it, st, a[0], a[1]))
nmethod('str', '__mod__')(lambda it, st, a, k: percent(it, st, a[0], a[1]))


def split_leaf(it, s, l, sep, maxsplit, name):
    """list of pieces of a leaf, or None"""
    if type(l) is C and (sep is NONE or type(sep) is C):
        r = getattr(l.v, name)(to_py(sep), pconst(maxsplit)) if name != 'splitlines' else l.v.splitlines()
        return [const(x) for x in r]
    if type(l) is X and l.op == 'scat' and type(sep) is C and len(sep.v) == 1 and pconst(maxsplit) == -1:
        pieces = [[]]
        for p in l.args:
            if type(p) is C:
                bits = p.v.split(sep.v)
                pieces[-1].append(const(bits[0]))
                for b in bits[1:]:
                    pieces.append([const(b)])
            elif str_contains(it, p, sep) is FALSE:
                pieces[-1].append(p)
            else:
                return None
        return [scat(p) for p in pieces]
    if type(l) is X and l.op == 'fmt' and type(sep) is C and str_contains(it, l, sep) is FALSE:
        return [l]
    return None


def mksplit(name, cls):
    def fn(it, st, a, k):
        sep = a[1] if len(a) > 1 else k.get('sep', NONE)
        mx = a[2] if len(a) > 2 else k.get('maxsplit', const(-1))
        if name == 'splitlines':
            sep, mx = NONE, const(-1)

        def go(s, l):
            p = split_leaf(it, s, l, sep, mx, name)
            if p is not None:
                return it.new(s, ncls(it, 'list'), {}, tuple((TRUE, x) for x in p))
            if type(l) is X and l.ty == cls:
                if name == 'splitlines':
                    return app('str.splitlines', (l,), 'list')
                return app('str.' + name if cls == 'str' else 'bytes.' + name,
                           (l, sep) + (() if pconst(mx) == -1 else (mx,)), 'list')
            it.raise_now(s, 'TypeError')
        return it.with_leaves(st, a[0], go)
    nmethod(cls, name)(fn)


for _n in ('split', 'rsplit', 'splitlines'):
    mksplit(_n, 'str')
    mksplit(_n, 'bytes')


def mkpartition(name, cls):
    def fn(it, st, a, k):
        def f(x, s):
            if type(x) is C and type(s) is C:
                return tup([const(p) for p in getattr(x.v, name)(s.v)])
            return tup([app('%s.%s' % (cls, name), (x, s, const(i)), cls) for i in range(3)])
        return it.pure(st, f, a[:2])
    nmethod(cls, name)(fn)


for _c in ('str', 'bytes'):
    mkpartition('partition', _c)
    mkpartition('rpartition', _c)


@nmethod('str', 'join')
def str_join(it, st, a, k):
    sep = a[0]
    if type(sep) is N:
        return it.with_leaves(st, sep, lambda s, l: str_join(it, s, [l, a[1]], {}))

    def go(s, l):
        if type(l) is X and l.ty == 'list':
            return app('strjoin', (sep, l), 'str')
        items = [(it.under(s, g), x) for g, x in it.iter_items(s, l)]
        items = tuple(e for e in items if e[0] is not FALSE)
        for g, x in items:
            for lf, c in leaves(x, s.guard):
                if not is_str(lf) and ty_of(lf) not in ('undef', 'any'):
                    it.check(s, not_(and_(g, c)), 'TypeError', const('sequence item: expected str instance'))
        if all(g is TRUE for g, _ in items):
            r = EMPTY
            for i, (g, x) in enumerate(items):
                if i:
                    r = it.binop(s, '+', r, sep)
                r = it.binop(s, '+', r, x)
            return r
        return join_v(sep, items)
    return it.with_leaves(st, a[1], go)


def join_v(sep, items):
    return join(sep, items)


@nmethod('bytes', 'join')
def bytes_join(it, st, a, k):
    def go(u, l):
        sep = a[0]
        r, some = BEMPTY, FALSE
        for g, x in it.iter_items(u, l):
            g = it.under(u, g)
            if g is FALSE:
                continue
            w = u if g is TRUE else u.fork(g)
            if type(x) is R:
                x = nv.nat_seq.to_bytes(it, w, x)
            if g is not TRUE:
                x = constrain(x, g)
            more = r
            if some is not FALSE and pconst(blen_of(sep)) != 0:
                more = it.merge_val(some, it.binop(w, '+', r, sep), r) if some is not TRUE else it.binop(w, '+', r, sep)
            more = it.binop(w, '+', more, x)
            r = more if g is TRUE else it.merge_val(g, more, r)
            some = or_(some, g)
        return r
    return it.with_leaves(st, a[1], go)


def blen_of(v):
    return blen(v) if type(v) is not N else const(1)


def codec(it, st, v):
    if type(v) is not C:
        raise Unsupported('unknown codec')
    try:
        return codecs.lookup(v.v).name
    except LookupError:
        it.raise_now(st, 'LookupError', v)


@nmethod('bytes', 'decode')
def bytes_decode(it, st, a, k):
    enc = codec(it, st, a[1] if len(a) > 1 else k.get('encoding', const('utf-8')))
    err = a[2] if len(a) > 2 else k.get('errors', const('strict'))
    if type(err) is not C:
        raise Unsupported('decode errors')

    def f(b):
        if b is UNDEF:
            return UNDEF
        if type(b) is C:
            try:
                return const(b.v.decode(enc, err.v))
            except UnicodeDecodeError:
                return raise_('UnicodeDecodeError')
        if type(b) is X and b.op == 'app' and b.args[0] == 'hexb':
            return hex_text(b.args[1]) or app('hexs', b.args[1:], 'str')
        if type(b) is X and b.op == 'app' and b.args[0] == 'encode' and b.args[2].v == enc:
            return b.args[1]
        return app('decode', (b, const(enc), err), 'str')
    v = a[0]
    if type(v) is R:
        v = nv.nat_seq.to_bytes(it, st, v)
    return it.pure(st, f, [v])


METHODS[('bytearray', 'decode')] = METHODS[('bytes', 'decode')]


@nmethod('str', 'encode')
def str_encode(it, st, a, k):
    enc = codec(it, st, a[1] if len(a) > 1 else k.get('encoding', const('utf-8')))
    err = a[2] if len(a) > 2 else k.get('errors', const('strict'))

    def f(s):
        if s is UNDEF:
            return UNDEF
        if type(s) is C:
            try:
                return const(s.v.encode(enc, err.v))
            except UnicodeEncodeError:
                return raise_('UnicodeEncodeError')
        if s.op == 'scat':
            return bcat([f(p) for p in s.args])
        return app('encode', (s, const(enc)), 'bytes')
    return it.pure(st, f, a[:1])


@nmethod('bytes', 'hex')
def bytes_hex(it, st, a, k):
    if len(a) > 1:
        def g(b, s):
            if type(b) is C:
                return const(b.v.hex(s.v))
            if type(s) is C and hex_text(b) is not None:
                return hex_text(b, s.v)
            return app('hexsep', (b, s), 'str')
        return it.pure(st, g, a[:2])

    def f(b):
        if type(b) is C:
            return const(b.v.hex())
        return hex_text(b) or app('hexs', (b,), 'str')
    v = a[0]
    if type(v) is R:
        v = nv.nat_seq.to_bytes(it, st, v)
    return it.pure(st, f, [v])


METHODS[('bytearray', 'hex')] = METHODS[('bytes', 'hex')]


@nmethod('bytes', 'fromhex')
def bytes_fromhex(it, st, a, k):
    v = a[-1]
    return it.pure(st, lambda s: const(bytes.fromhex(s.v)) if type(s) is C else app('fromhex', (s,), 'bytes'), [v])


@nmethod('bytes', '__bytes__')
def bytes_bytes(it, st, a, k):
    return a[0]


nmethod('str', 'maketrans')(lambda it, st, a, k: (_ for _ in ()).throw(Unsupported('maketrans')))
