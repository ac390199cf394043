"""Models of the Python builtins and library modules the analysed code uses.

This module holds the registry (classes, builtins); containers, text and
library modules live in nat_seq, nat_str and nat_mod."""
from .interp import *
from .ops import *
from . import ops
from .vals import *
from .interp import _ids_

CLASSES = {}
METHODS = {}
SIMPLE = set()        # methods that take merged scalars as they are
BUILTINS = {}
MODULES = {}
PARENTS = {'PvaUnspec': 'Exception', 
    'object': None, 'int': 'object', 'bool': 'int', 'str': 'object', 'bytes': 'object', 'float': 'object',
    'tuple': 'object', 'list': 'object', 'dict': 'object', 'set': 'object', 'frozenset': 'set',
    'OrderedDict': 'dict', 'defaultdict': 'dict', 'Counter': 'dict', 'deque': 'list', 'iterator': 'object', 'generator': 'object', 'dictview': 'list',
    'count': 'object', 'range': 'object', 'slice': 'object', 'bytearray': 'object', 'array': 'object',
    'NamedTuple': 'tuple', 'namedtuple': 'tuple', 'BytesIO': 'IOBase', 'File': 'IOBase', 'IOBase': 'object',
    'StringIO': 'IOBase', 'Enum': 'object', 'NoneType': 'object', 'function': 'object', 'type': 'object',
    'module': 'object', 'memoryview': 'object', 'datetime': 'object', 'timedelta': 'object', 'tzinfo': 'object',
    'ellipsis': 'object', 'property': 'object', 'IPv4Address': 'object', 'IPv6Address': 'object', 'StructT': 'object',
    'cached': 'object', 'partial': 'object', 'NotImplementedType': 'object', 'ABC': 'object', 'Generic': 'object',
    'SimpleNamespace': 'object', 'complex': 'object', 'date': 'object', 'opaque': 'object',
    'Mapping': 'object', 'Sequence': 'object', 'Iterable': 'object', 'Callable': 'object', 'Number': 'object',
    'nullcontext': 'object', 'dcfield': 'object',
    'BaseException': 'object', 'Exception': 'BaseException', 'StopIteration': 'Exception',
    'GeneratorExit': 'BaseException', 'KeyboardInterrupt': 'BaseException', 'SystemExit': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError', 'OverflowError': 'ArithmeticError',
    'AssertionError': 'Exception', 'AttributeError': 'Exception', 'BufferError': 'Exception', 'EOFError': 'Exception',
    'ImportError': 'Exception', 'ModuleNotFoundError': 'ImportError', 'LookupError': 'Exception',
    'IndexError': 'LookupError', 'KeyError': 'LookupError', 'MemoryError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'OSError': 'Exception', 'FileNotFoundError': 'OSError',
    'PermissionError': 'OSError', 'UnsupportedOperation': 'OSError', 'ReferenceError': 'Exception',
    'RuntimeError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RecursionError': 'RuntimeError', 'SyntaxError': 'Exception',
    'SystemError': 'Exception', 'TypeError': 'Exception', 'ValueError': 'Exception', 'UnicodeError': 'ValueError',
    'UnicodeDecodeError': 'UnicodeError', 'UnicodeEncodeError': 'UnicodeError', 'Warning': 'Exception',
    'DeprecationWarning': 'Warning', 'UserWarning': 'Warning', 'RuntimeWarning': 'Warning', 'struct.error': 'Exception',
    'binascii.Error': 'ValueError', 'AddressValueError': 'ValueError',
}
VISIBLE = {'slice': ('start', 'stop', 'step'), 'range': ('start', 'stop', 'step'), 'StopIteration': ('value', 'args'),
           'StructT': ('size', 'format'), 'File': ('closed', 'name', 'mode'), 'BytesIO': ('closed',),
           'partial': ('func', 'args'), 'defaultdict': ('default_factory',), 'SimpleNamespace': ()}
for _n, _p in PARENTS.items():
    k, seen = _n, ()
    while k:
        if k == 'BaseException':
            VISIBLE.setdefault(_n, ('args',))
        k = PARENTS[k]


def setup(it, st):
    it.classes_native = {}
    for m in (nat_seq, nat_str, nat_mod):
        pass


def ncls(it, name):
    d = it.classes_native
    c = d.get(name)
    if c is None:
        if name == 'IntEnum':
            c = mk(ClassV, name=name, qual=name, bases=[ncls(it, 'int'), ncls(it, 'Enum')], native='IntEnum',
                   is_enum=True, is_int=True)
            c.mro = [c, ncls(it, 'int'), ncls(it, 'Enum'), ncls(it, 'object')]
        elif name in ('Flag', 'IntFlag', 'StrEnum'):
            raise Unsupported('enum.%s is not modelled' % name)
        else:
            if name not in PARENTS:
                raise Unsupported('class %s is not modelled' % name)
            p = PARENTS[name]
            c = mk(ClassV, name=name.split('.')[-1], qual=name, bases=[] if p is None else [ncls(it, p)], native=name,
                   is_enum=name == 'Enum', is_int=False)
            c.mro = [c] + ([] if p is None else list(ncls(it, p).mro))
        d[name] = c
    return c


def exc_class(it, name):
    return ncls(it, name)


def native(name):
    def deco(fn):
        BUILTINS[name] = mk(Native, name=name, fn=fn)
        return fn
    return deco


def nmethod(cls, *names):
    def deco(fn):
        for n in names:
            METHODS[(cls, n)] = mk(Native, name='%s.%s' % (cls, n), fn=fn)
        return fn
    return deco


def method(it, cls, name):
    return METHODS.get((cls, name))


TYPE_NAMES = ('object int bool str bytes float tuple list dict set frozenset bytearray range slice type property '
              'memoryview complex').split()


def builtin(it, name):
    b = BUILTINS.get(name)
    if b is not None:
        return b
    if name in PARENTS and (name in TYPE_NAMES or 'BaseException' in mro_names(name)):
        return ncls(it, name)
    if name in ('IOError', 'EnvironmentError'):
        return ncls(it, 'OSError')
    if name == 'NotImplemented':
        return NOTIMPL
    if name == 'Ellipsis':
        return const(Ellipsis)
    if name == '__debug__':
        return TRUE
    return None


NOTIMPL = term('notimplemented', (), 'notimplemented')


def mro_names(n):
    out = []
    while n:
        out.append(n)
        n = PARENTS[n]
    return out


TYMAP = {'int': 'int', 'bool': 'bool', 'str': 'str', 'bytes': 'bytes', 'float': 'float', 'list': 'list', 'dict': 'dict',
         'datetime': 'datetime', 'timedelta': 'timedelta', 'ipv4': 'IPv4Address', 'ipv6': 'IPv6Address', 'set': 'set',
         'tzinfo': 'tzinfo', 'notimplemented': 'NotImplementedType', 'tuple': 'tuple'}


def type_of(it, st, v):
    t = type(v)
    if t is C:
        x = v.v
        if x is None:
            return ncls(it, 'NoneType')
        if x is Ellipsis:
            return ncls(it, 'ellipsis')
        return ncls(it, type(x).__name__)
    if t is T:
        return ncls(it, 'tuple')
    if t is E:
        return v.cls
    if t is R:
        return st.get(v.oid).cls
    if t is X:
        n = TYMAP.get(v.ty)
        if n is None:
            raise Unsupported('type of %r' % (v,))
        return ncls(it, n)
    if t is ClassV:
        return ncls(it, 'type')
    if t is ModV:
        return ncls(it, 'module')
    if t is PropV:
        return ncls(it, 'property')
    return ncls(it, 'function')


def as_class(it, v):
    """base-class expression that is not a class value"""
    if type(v) is T:
        return None
    if type(v) is Native and v.name in ('namedtuple',):
        return None
    return None


def class_extra(it, st, cls, name):
    if name == '__doc__':
        return NONE
    if cls.is_enum and cls.members is not None:
        if name == '_value2member_map_':
            return it.new(st, ncls(it, 'dict'), {}, tuple((TRUE, m.value, m) for m in cls.members))
        if name == '_member_map_':
            return it.new(st, ncls(it, 'dict'), {}, tuple((TRUE, const(k), m) for k, m in cls.byname.items()))
        if name == '_member_names_':
            return it.new(st, ncls(it, 'list'), {}, tuple((TRUE, const(m.name)) for m in cls.members))
    if cls.is_int and name in ('__contains__',):
        return None
    if name == '__subclasses__':
        raise Unsupported('__subclasses__')
    return None


# ------------------------------------------------------------------ enums

def build_enum(it, st, cls, ns):
    members, byname = [], {}
    isstr = any(c.native == 'str' for c in cls.mro)
    last = 0
    for k, v in list(ns.items()):
        if k.startswith('__') and k.endswith('__') or type(v) in (FuncV, StaticV, PropV, Native, ClassV, Bound):
            continue
        if k in ('_ignore_', '_order_') or k.startswith('_%s__' % cls.name):
            continue
        if type(v) is X and v.op == 'auto':
            v = const(last + 1)
        if cls.is_int and type(v) is T and len(v.items) == 1:
            v = v.items[0]
        init = it.find_user_method(cls, '__new__', st)
        if init is not None:
            raise Unsupported('enumeration with __new__')
        if type(v) in (N, R):
            raise Unsupported('enumeration value of %s.%s' % (cls.name, k))
        if type(v) is E and v.cls.is_int:
            v = v.value
        if type(v) is C and isinstance(v.v, int):
            last = v.v
        if cls.is_int and pconst(v) is None:
            raise Unsupported('enumeration value of %s.%s' % (cls.name, k))
        for m in members:
            if m.value is v or (type(m.value) is C and type(v) is C and m.value.v == v.v):
                byname[k] = m
                break
        else:
            e = E()
            e.id = next(_ids_)
            e.cls, e.name, e.value = cls, k, v
            members.append(e)
            byname[k] = e
        del ns[k]
    if members:
        cls.members, cls.byname = members, byname
    else:
        cls.members = None


def enum_of_leaf(cls, v, miss):
    """member of cls whose value equals leaf v"""
    if type(v) is E and v.cls is cls:
        return v
    if type(v) is T or type(v) in (O, R, ClassV, FuncV):
        for m in cls.members:
            if m.value is v:
                return m
        return miss
    if type(v) is X and v.ty in ('int',) and v.op not in ('bits',) and cls.members and \
            all(pconst(m.value) is not None for m in cls.members):
        ms = sorted(cls.members, key=lambda m: pconst(m.value))
        cases = [(NEG, miss)]
        for i, m in enumerate(ms):
            k = pconst(m.value)
            cases.append((k, m))
            if not (i + 1 < len(ms) and pconst(ms[i + 1].value) == k + 1):
                cases.append((k + 1, miss))
        if v.op == 'poly':
            r = miss
            for m in reversed(ms):
                r = ite(eq_leaf(v, m.value), m, r)
            return r
        out, prev = [], None
        for lo, ch in cases:
            if out and out[-1][0] == lo:
                out[-1] = (lo, ch)
            else:
                out.append((lo, ch))
        return mk_num(v, out)
    r = miss
    for m in reversed(cls.members):
        c = eq_leaf(v, m.value)
        r = ite(c, m, r)
    return r


def enum_call(it, st, cls, args, kw):
    if kw or len(args) != 1:
        raise Unsupported('functional enumeration')
    v = args[0]
    miss = it.find_user_method(cls, '_missing_', st)
    if has_ref(v):
        raise Unsupported('enumeration lookup of an object')
    if miss is None:
        return it.pure(st, lambda l: UNDEF if l is UNDEF else enum_of_leaf(cls, l, raise_('ValueError')), (v,))
    MISS = term('undef', ('miss',), 'undef')
    r = apply(lambda l: enum_of_leaf(cls, l, MISS), (v,))
    c = FALSE
    for lf, cc in leaves(r):
        if lf is MISS:
            c = cc

    def call_missing(s):
        f = miss.func if type(miss) is StaticV else miss
        x = it.call(s, f, [cls, v], {})

        def fin(t, l):
            if type(l) is E and l.cls is cls:
                return l
            it.raise_now(t, 'ValueError')
        return it.with_leaves(s, x, fin)
    if c is FALSE:
        return r
    return it.branch(st, c, call_missing, lambda s: constrain(r, not_(c)))


def enum_byname(it, st, cls, key):
    def f(k):
        if type(k) is C:
            m = cls.byname.get(k.v) if isinstance(k.v, str) else None
            return m if m is not None else raise_('KeyError', k)
        if type(k) is X and k.ty == 'str':
            r = raise_('KeyError', k)
            for n, m in reversed(list(cls.byname.items())):
                r = ite(eq_leaf(k, const(n)), m, r)
            return r
        if type(k) is X and k.ty == 'any':
            raise Unsupported('enumeration name lookup')
        return raise_('KeyError', k)
    return it.pure(st, f, (key,))


# ------------------------------------------------------------------ construct objects

def init_args(args):
    return {'args': tup(args)}


def construct(it, st, cls, args, kw):
    """allocate an instance (native classes: fully initialised)"""
    args = list(args)
    nat = None
    for c in cls.mro:
        if c.native and c.native != 'object':
            nat = c.native
            break
    user = cls.native is None
    if cls.fields is not None:
        vals = {}
        names = list(cls.fields)
        defaults = {}
        d = it.class_attr(st, cls, '__nt_defaults__')
        if d is not None:
            defaults = {p.items[0].v: p.items[1] for p in d.items}
        if len(args) > len(names):
            it.raise_now(st, 'TypeError', const('too many arguments'))
        for n, v in zip(names, args):
            vals[n] = v
        for k, v in kw.items():
            if k not in names or k in vals:
                it.raise_now(st, 'TypeError', const('unexpected ' + k))
            vals[k] = v
        for n in names:
            if n not in vals:
                if n in defaults:
                    vals[n] = defaults[n]
                else:
                    it.raise_now(st, 'TypeError', const('missing ' + n))
        return it.new(st, cls, vals)
    excs = nat is not None and 'BaseException' in mro_names(nat)
    if excs:
        return it.new(st, cls, {'args': tup(args)})
    if user and nat in ('list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'deque', 'Counter'):
        r = it.new(st, cls, {}, ())
        if it.find_user_method(cls, '__init__', st) is None:
            return r
        return r
    if nat in CONSTRUCT and not user:
        return CONSTRUCT[nat](it, st, cls, args, kw)
    if nat in ('int', 'str', 'bytes', 'float', 'tuple', 'bool', 'BytesIO', 'type') and user:
        raise Unsupported('subclass of %s' % nat)
    if nat is None or nat in ('ABC', 'Generic', 'Mapping', 'Sequence', 'IOBase', 'Iterable'):
        if not user and cls.native == 'object':
            return it.new(st, cls, {})
        return it.new(st, cls, {})
    raise Unsupported('instantiation of %s' % cls.name)


CONSTRUCT = {}


def ctor(name):
    def deco(fn):
        CONSTRUCT[name] = fn
        return fn
    return deco


nmethod('object', '__init__')(lambda it, st, a, k: NONE)


@nmethod('object', '__init_subclass__')
def obj_init_sub(it, st, a, k):
    return NONE


@nmethod('object', '__new__')
def obj_new(it, st, a, k):
    return construct(it, st, a[0], a[1:] if a[0].fields is not None else [], k if a[0].fields is not None else {})


nmethod('tuple', '__new__')(obj_new)


@nmethod('object', '__setattr__')
def obj_setattr(it, st, a, k):
    n = a[1]
    if type(n) is not C:
        raise Unsupported('setattr with unknown name')
    it.set_attr_raw(st, a[0].oid, n.v, a[2])
    it.log_store((st.get(a[0].oid).cls.name, n.v))
    return NONE


@nmethod('object', '__getattribute__')
def obj_getattribute(it, st, a, k):
    x = st.get(a[0].oid).attrs.get(a[1].v)
    if x is None:
        it.raise_now(st, 'AttributeError', a[1])
    return x


@nmethod('object', '__eq__')
def obj_eq(it, st, a, k):
    return const(a[0] is a[1])


@nmethod('object', '__ne__')
def obj_ne(it, st, a, k):
    return not_(it.equals(st, a[0], a[1]))


@nmethod('object', '__hash__')
def obj_hash(it, st, a, k):
    return hash_value(it, st, a[0])


@nmethod('object', '__repr__')
def obj_repr(it, st, a, k):
    return nat_str.to_repr(it, st, a[0])


@nmethod('object', '__str__')
def obj_str(it, st, a, k):
    return nat_str.to_str(it, st, a[0])


@nmethod('object', '__format__')
def obj_format(it, st, a, k):
    return nat_str.format_value(it, st, a[0], a[1])


@nmethod('BaseException', '__init__')
def exc_init(it, st, a, k):
    it.set_attr_raw(st, a[0].oid, 'args', tup(a[1:]))
    return NONE


@nmethod('BaseException', 'with_traceback')
def exc_tb(it, st, a, k):
    return a[0]


nmethod('BaseException', 'add_note')(lambda it, st, a, k: NONE)


# ------------------------------------------------------------------ builtin functions

@native('isinstance')
def b_isinstance(it, st, a, k):
    v, cl = a
    flat = []

    def add(c):
        if type(c) is T:
            for x in c.items:
                add(x)
        elif type(c) is ClassV:
            flat.append(c)
        elif type(c) is N:
            raise Unsupported('isinstance with unknown class')
        else:
            raise Unsupported('isinstance with %r' % (c,))
    add(cl)

    def f(l):
        if l is UNDEF:
            return UNDEF
        if type(l) is X and l.ty == 'any':
            return bool_of_var(app('isinstance', (l, tup([const(c.name) for c in flat])), 'bool'))
        t = type_of(it, st, l)
        for c in flat:
            if c in t.mro:
                return TRUE
            if c.native == 'Callable' and type(l) in (FuncV, Bound, Native, ClassV):
                return TRUE
            if c.native == 'Mapping' and ncls(it, 'dict') in t.mro:
                return TRUE
            if c.native == 'Sequence' and any(ncls(it, x) in t.mro for x in ('list', 'tuple', 'str', 'bytes', 'range')):
                return TRUE
            if c.native == 'Iterable' and any(ncls(it, x) in t.mro for x in
                                              ('list', 'tuple', 'str', 'bytes', 'range', 'dict', 'set', 'iterator', 'generator')):
                return TRUE
            if c.native == 'Number' and any(ncls(it, x) in t.mro for x in ('int', 'float')):
                return TRUE
        return FALSE
    return map_leaves(v, f)


@native('issubclass')
def b_issubclass(it, st, a, k):
    cl = a[1].items if type(a[1]) is T else (a[1],)
    if type(a[0]) is not ClassV:
        it.raise_now(st, 'TypeError')
    return const(any(c in a[0].mro for c in cl))


@native('hasattr')
def b_hasattr(it, st, a, k):
    name = a[1]
    if type(name) is not C:
        raise Unsupported('hasattr with unknown name')

    def go(s, l):
        if type(l) is X and l.ty == 'any':
            return bool_of_var(app('hasattr', (l, name), 'bool'))
        it.sinks.append([])
        try:
            it.get_attr(s, l, name.v)
            ok = TRUE
        except Dead:
            ok = FALSE
        except Unsupported:
            if type(l) in (X, C):
                py = {'str': '', 'bytes': b'', 'int': 0, 'float': 0.0}.get(ty_of(l))
                ok = const(hasattr(py, name.v))
            else:
                raise
        finally:
            it.sinks.pop()
        return ok
    return it.with_leaves(st, a[0], go)


@native('getattr')
def b_getattr(it, st, a, k):
    def go(s, n):
        if type(n) is not C or not isinstance(n.v, str):
            raise Unsupported('getattr with unknown name')
        if len(a) > 2:
            return it.get_attr(s, a[0], n.v, default=a[2])
        return it.get_attr(s, a[0], n.v)
    return it.with_leaves(st, a[1], go)


@native('setattr')
def b_setattr(it, st, a, k):
    def go(s, n):
        if type(n) is not C:
            raise Unsupported('setattr with unknown name')
        it.set_attr(s, a[0], n.v, a[2])
        return NONE
    return it.with_leaves(st, a[1], go)


@native('delattr')
def b_delattr(it, st, a, k):
    r = st.get(a[0].oid)
    d = dict(r.attrs)
    if d.pop(a[1].v, None) is None:
        it.raise_now(st, 'AttributeError', a[1])
    st.heap[a[0].oid] = Rec(r.cls, d, r.items)
    return NONE


@native('_pva_nullstrip')
def nullstrip(it, st, a, k):
    """bytes without the trailing NUL units (construct.NullStripped); used by the construct stand-in only"""
    pad = a[1].v
    u = len(pad)

    def f(b):
        if b is UNDEF:
            return UNDEF
        if type(b) is C:
            d = b.v
            if u == 1:
                return const(d.rstrip(pad))
            end = len(d)
            tail = len(d) % u
            if tail and d[-tail:] == pad[:tail]:
                end -= tail
            while end - u >= 0 and d[end - u:end] == pad:
                end -= u
            return const(d[:end])
        if type(b) is X and b.op == 'bcat' and type(b.args[-1]) is C and set(b.args[-1].v) <= {0} \
                and len(b.args[-1].v) % u == 0:
            return f(ops.bcat(b.args[:-1]))
        if type(b) is X and b.op == 'bcat' and u == 2 and len(b.args) == 2 and type(b.args[0]) is X and b.args[0].op == 'app' and \
                b.args[0].args[0] == 'encode' and type(b.args[1]) is X and b.args[1].op == 'app' and b.args[1].args[0] == 'zeros':
            return f(b.args[0])
        if type(b) is X and b.op == 'app' and b.args[0] == 'encode' and not_nul(b.args[1]):
            return b
        return app('nullstrip', (b, const(pad)), 'bytes')
    return it.pure(st, f, (a[0],))


def not_nul(s):
    """no trailing NUL: symbolic argument strings are assumed free of NUL characters"""
    return type(s) is X and s.op in ('sym', 'app', 'scat') or type(s) is C and not s.v.endswith('\0')


@native('callable')
def b_callable(it, st, a, k):
    def f(l):
        if type(l) in (FuncV, Bound, Native, ClassV):
            return TRUE
        if type(l) is R:
            return const(it.find_user_method(st.get(l.oid).cls, '__call__', st) is not None or
                         st.get(l.oid).cls.native in ('cached', 'partial'))
        if type(l) is X and l.ty == 'any':
            raise Unsupported('callable(unknown)')
        return FALSE
    return map_leaves(a[0], f)


@native('id')
def b_id(it, st, a, k):
    return map_leaves(a[0], lambda l: const(l.id))


@native('len')
def b_len(it, st, a, k):
    return it.length(st, a[0])


@native('print')
def b_print(it, st, a, k):
    return NONE


@native('iter')
def b_iter(it, st, a, k):
    if len(a) == 2:
        r = it.new(st, ncls(it, 'iterator'), {'src': tup((const('sentinel'), a[0], a[1]))}, ())
        return r

    def go(s, l):
        if type(l) is R:
            rec = s.get(l.oid)
            if rec.cls.native in ('iterator', 'count', 'generator'):
                return l
            if it.find_user_method(rec.cls, '__iter__', s) is not None:
                return it.call_method(s, l, '__iter__', [])
        return it.new(s, ncls(it, 'iterator'), {}, tuple(it.iter_items(s, l)))
    return it.with_leaves(st, a[0], go)


@native('next')
def b_next(it, st, a, k):
    if len(a) == 1:
        return it.next_item(st, a[0])
    it.sinks.append([])
    v, dead = None, False
    s0 = st.fork()
    try:
        v = it.next_item(s0, a[0])
    except Dead:
        dead = True
    finally:
        caught = it.sinks.pop()
    outs = [] if dead else [(s0, v)]
    for s, e in caught:
        if it.isinstance_exc(s, e, ncls(it, 'StopIteration')):
            outs.append((s, a[1]))
        else:
            it.sinks[-1].append((s, e))
    s2, v = it.merge_all(outs)
    st.adopt(s2)
    return v


def src_next(it, st, ref_, src):
    kind = src.items[0].v
    if kind == 'sentinel':
        v = it.call(st, src.items[1], [], {})
        c = it.equals(st, v, src.items[2])
        it.check(st, not_(c), 'StopIteration')
        return it.clean(st, v, not_(c))
    if kind == 'zip':
        out = [it.next_item(st, x) for x in src.items[1].items]
        return tup(out)
    if kind == 'map':
        out = [it.next_item(st, x) for x in src.items[2].items]
        return it.call(st, src.items[1], out, {})
    if kind == 'slice':
        r = st.get(ref_.oid)
        n = r.attrs['left']
        if pconst(n) == 0:
            it.raise_now(st, 'StopIteration')
        v = it.next_item(st, src.items[1])
        it.set_attr_raw(st, ref_.oid, 'left', padd(n, const(-1)))
        return v
    raise Unsupported('iterator ' + kind)


def is_lazy(st, v):
    return type(v) is R and st.get(v.oid).cls is not None and (
        st.get(v.oid).cls.native == 'count' or
        (st.get(v.oid).cls.native == 'iterator' and st.get(v.oid).attrs.get('src') not in (None, NONE)))


LAZY_SRC = '''
def enumerate(xs, n):
    for x in xs:
        yield (n, x)
        n += 1

def map(f, xs):
    for x in xs:
        yield f(x)

def mapn(f, xs):
    for x in xs:
        yield f(*x)

def filter(f, xs):
    for x in xs:
        if (x if f is None else f(x)):
            yield x

def filterfalse(f, xs):
    for x in xs:
        if not (x if f is None else f(x)):
            yield x

def zip(before, xs, after):
    row = []
    for o in before:
        row.append(next(o, zip))
        if row[-1] is zip:
            return
    for x in xs:
        row.append(x)
        for o in after:
            row.append(next(o, zip))
            if row[-1] is zip:
                return
        yield tuple(row)
        row = []
        for o in before:
            row.append(next(o, zip))
            if row[-1] is zip:
                return

def islice(xs, start, stop, step):
    if stop is not None and stop <= 0:
        return
    i = 0
    for x in xs:
        if i >= start and (i - start) % step == 0:
            yield x
        i += 1
        if stop is not None and i >= stop:
            return

def takewhile(f, xs):
    for x in xs:
        if not f(x):
            return
        yield x

def dropwhile(f, xs):
    on = False
    for x in xs:
        if not on and not f(x):
            on = True
        if on:
            yield x

def chain(xss):
    for xs in xss:
        for x in xs:
            yield x

def accumulate(xs, f, start):
    have = start is not None
    v = start
    if have:
        yield v
    for x in xs:
        v = f(v, x) if have else x
        have = True
        yield v

def compress(xs, ys):
    for x, y in __builtin_zip(xs, ys):
        if y:
            yield x

def pairwise(xs):
    have = False
    for x in xs:
        if have:
            yield (last, x)
        last = x
        have = True

def repeat(x):
    while True:
        yield x

def cycle(xs):
    seen = list(xs)
    while seen:
        for x in seen:
            yield x

def groupby(xs, f):
    group = None
    for x in xs:
        k = x if f is None else f(x)
        if group is not None and key == k:
            group.append(x)
        else:
            if group is not None:
                yield (key, group)
            key = k
            group = [x]
    if group is not None:
        yield (key, group)

def product(xss):
    out = [()]
    for xs in xss:
        out = [o + (x,) for o in out for x in xs]
    return out

def any(xs):
    for x in xs:
        if x:
            return True
    return False

def all(xs):
    for x in xs:
        if not x:
            return False
    return True
'''.replace('__builtin_zip', 'pairs')


def lazy(it, st, name, *args):
    from . import nat_mod
    m = it.modules.get('<lazy>')
    if m is None:
        m = nat_mod.src_module(it, '<lazy>', LAZY_SRC)
        it.set_attr_raw(it.init_state, m.oid, 'pairs', BUILTINS['zip'])
        if it.init_state.heap is not it.base:
            it.base.update(it.init_state.heap)
            it.init_state.heap = it.base
    return it.call(st, it.mod_attr(st, m, name), list(args), {})


@native('enumerate')
def b_enumerate(it, st, a, k):
    if it.is_gen(st, a[0]):
        return lazy(it, st, 'enumerate', a[0], a[1] if len(a) > 1 else k.get('start', ZERO))
    start = a[1] if len(a) > 1 else k.get('start', ZERO)
    if is_lazy(st, a[0]):
        cnt = it.new(st, ncls(it, 'count'), {'n': start, 'step': const(1)})
        return it.new(st, ncls(it, 'iterator'), {'src': tup((const('zip'), tup((cnt, a[0]))))}, ())
    items = it.iter_items(st, a[0])
    out = []
    n = start
    for g, x in items:
        out.append((g, tup((n, x)) if True else None))
        n = it.binop(st, '+', n, ite(it.under(st, g), const(1), ZERO))
    return it.new(st, ncls(it, 'iterator'), {}, tuple(out))


@native('zip')
def b_zip(it, st, a, k):
    gens = [i for i, x in enumerate(a) if it.is_gen(st, x)]
    if gens and (len(gens) > 1 or len(a) > 1):
        same = len(gens) > 1 and all(a[i] is a[gens[0]] for i in gens)
        if len(gens) > 1 or same:
            v = it.settled(st, lambda s: b_iter(it, s, [it.new(s, ncls(it, 'list'), {}, tuple(it.iter_items(s, a[gens[0]])))], {})) \
                if same else it.settled(st, lambda s: zip_lists(it, s, a))
            if v is None:
                raise Unsupported('zip of several generators')
            if not same:
                return v
            a = [v if i in gens else x for i, x in enumerate(a)]
        else:
            i = gens[0]
            its = [x if i == j else b_iter(it, st, [x], {}) for j, x in enumerate(a)]
            return lazy(it, st, 'zip', tup(its[:i]), its[i], tup(its[i + 1:]))
    return zip_lists(it, st, a)


def zip_lists(it, st, a):
    if any(is_lazy(st, x) for x in a):
        its = [x if is_lazy(st, x) else b_iter(it, st, [x], {}) for x in a]
        return it.new(st, ncls(it, 'iterator'), {'src': tup((const('zip'), tup(its)))}, ())
    if len(a) >= 2 and all(x is a[0] for x in a) and type(a[0]) is R and st.get(a[0].oid).cls.native == 'iterator':
        n = len(a)
        items = it.iter_items(st, a[0])
        if all(g is TRUE for g, _ in items):
            xs = [x for _, x in items]
            return it.new(st, ncls(it, 'iterator'), {}, tuple(
                (TRUE, tup(xs[i:i + n])) for i in range(0, len(xs) - n + 1, n)))
        out = []
        for i in range(0, len(items) - n + 1, n):
            vs = [nat_seq.gseq_at_p(items, i + j) for j in range(n)]
            c = it.under(st, vs[-1][1])
            if c is not FALSE:
                out.append((c, tup(it.clean(st, v, c) for v, _ in vs)))
        return it.new(st, ncls(it, 'iterator'), {}, tuple(out))
    seqs = [it.iter_items(st, x) for x in a]
    out = []
    if all(all(it.under(st, g) is TRUE for g, _ in s) for s in seqs):
        for row in zip(*seqs):
            out.append((TRUE, tup([x for _, x in row])))
    else:
        n = max((len(s) for s in seqs), default=0)
        for i in range(n):
            g = TRUE
            vals = []
            for s in seqs:
                v, p = gseq_at_p(s, i)
                g = and_(g, p)
                vals.append(v)
            if g is not FALSE:
                out.append((g, tup([constrain(v, g) for v in vals])))
    return it.new(st, ncls(it, 'iterator'), {}, tuple(out))


@native('map')
def b_map(it, st, a, k):
    if any(is_lazy(st, x) for x in a[1:]):
        its = [x if is_lazy(st, x) else b_iter(it, st, [x], {}) for x in a[1:]]
        return it.new(st, ncls(it, 'iterator'), {'src': tup((const('map'), a[0], tup(its)))}, ())
    src = a[1] if len(a) == 2 else b_zip(it, st, a[1:], {})
    if it.is_gen(st, src):
        return lazy(it, st, 'map' if len(a) == 2 else 'mapn', a[0], src)
    v = it.settled(st, lambda s: map_list(it, s, a, src))
    return lazy(it, st, 'map' if len(a) == 2 else 'mapn', a[0], src) if v is None else v


def map_list(it, st, a, src):
    tmp = it.new(st, ncls(it, 'list'), {}, ())

    def body(s, x):
        args = [x] if len(a) == 2 else list(x.items)
        v = it.call(s, a[0], args, {})
        it.set_items(s, tmp, s.get(tmp.oid).items + ((TRUE, v),))
    it.drive_any(st, src, body)
    return it.new(st, ncls(it, 'iterator'), {}, st.get(tmp.oid).items)


@native('filter')
def b_filter(it, st, a, k):
    v = None if it.is_gen(st, a[1]) else it.settled(st, lambda s: filter_list(it, s, a))
    return lazy(it, st, 'filter', a[0], a[1]) if v is None else v


def filter_list(it, st, a):
    tmp = it.new(st, ncls(it, 'list'), {}, ())

    def body(s, x):
        c = it.truth(s, x if a[0] is NONE else it.call(s, a[0], [x], {}))

        def add(t):
            it.set_items(t, tmp, t.get(tmp.oid).items + ((TRUE, x),))
        it.branch(s, c, add, lambda t: None)
    it.drive_any(st, a[1], body)
    return it.new(st, ncls(it, 'iterator'), {}, st.get(tmp.oid).items)


@native('reversed')
def b_reversed(it, st, a, k):
    return it.new(st, ncls(it, 'iterator'), {}, tuple(reversed(it.iter_items(st, a[0]))))


@native('any')
def b_any(it, st, a, k):
    if it.is_gen(st, a[0]):
        v = it.settled(st, lambda s: any_of(it, s, a))
        return lazy(it, st, 'any', a[0]) if v is None else v
    return any_of(it, st, a)


def any_of(it, st, a):
    r = FALSE
    for g, x in it.iter_items(st, a[0]):
        r = or_(r, and_(g, it.truth(st, x)))
    return r


@native('all')
def b_all(it, st, a, k):
    if it.is_gen(st, a[0]):
        v = it.settled(st, lambda s: all_of(it, s, a))
        return lazy(it, st, 'all', a[0]) if v is None else v
    return all_of(it, st, a)


def all_of(it, st, a):
    r = TRUE
    for g, x in it.iter_items(st, a[0]):
        r = and_(r, or_(not_(g), it.truth(st, x)))
    return r


@native('sum')
def b_sum(it, st, a, k):
    r = a[1] if len(a) > 1 else k.get('start', ZERO)
    for g, x in it.iter_items(st, a[0]):
        g = it.under(st, g)
        n = it.binop(st, '+', r, x)
        r = n if g is TRUE else ite(g, n, r)
    return r


def minmax(op):
    def fn(it, st, a, k):
        key = k.get('key')
        items = it.iter_items(st, a[0]) if len(a) == 1 else [(TRUE, x) for x in a]
        if not items:
            if 'default' in k:
                return k['default']
            it.raise_now(st, 'ValueError', const('empty'))
        best, bk, have = None, None, FALSE
        for g, x in items:
            g = it.under(st, g)
            if g is FALSE:
                continue
            kx = x if key is None or key is NONE else it.call(st, key, [x], {})
            if best is None:
                best, bk, have = x, kx, g
                continue
            c = it.pure(st, lambda p, q: UNDEF if p is UNDEF or q is UNDEF else lt_leaf(p, op, q), (kx, bk))
            c = and_(g, or_(c, not_(have)))
            best, bk = ite(c, x, best), ite(c, kx, bk)
            have = or_(have, g)
        if have is not TRUE:
            if 'default' in k:
                return ite(have, best, k['default'])
            it.check(st, have, 'ValueError', const('empty'))
        return best
    return fn


native('min')(minmax('<'))
native('max')(minmax('>'))


@native('sorted')
def b_sorted(it, st, a, k):
    r = it.new(st, ncls(it, 'list'), {}, tuple(it.iter_items(st, a[0])))
    nat_seq.list_sort(it, st, [r], k)
    return r


@native('abs')
def b_abs(it, st, a, k):
    def f(x):
        if type(x) is C:
            return const(abs(x.v))
        if ty_of(x) == 'int':
            return ite(cmp_zero(x, '<'), padd(ZERO, x, -1), x)
        return app('abs', (x,), ty_of(x))
    return it.pure(st, f, a)


@native('divmod')
def b_divmod(it, st, a, k):
    return tup((it.binop(st, '//', a[0], a[1]), it.binop(st, '%', a[0], a[1])))


@native('pow')
def b_pow(it, st, a, k):
    return it.binop(st, '**', a[0], a[1])


@native('round')
def b_round(it, st, a, k):
    def f(x, *n):
        if type(x) is C and all(type(m) is C for m in n):
            return const(round(x.v, *[m.v for m in n]))
        if ty_of(x) == 'int' and not n:
            return x
        return app('round', (x,) + n, 'float' if n else 'int')
    return it.pure(st, f, a)


@native('chr')
def b_chr(it, st, a, k):
    return it.pure(st, lambda x: const(chr(pconst(x))) if pconst(x) is not None else app('chr', (x,), 'str'), a)


@native('ord')
def b_ord(it, st, a, k):
    def f(x):
        if type(x) is C:
            return const(ord(x.v))
        if ty_of(x) == 'bytes':
            return le_of(x, 1)
        return app('ord', (x,), 'int')
    return it.pure(st, f, a)


@native('hex')
def b_hex(it, st, a, k):
    return it.pure(st, lambda x: fmt_int(x, '#x'), a)


@native('bin')
def b_bin(it, st, a, k):
    return it.pure(st, lambda x: fmt_int(x, '#b'), a)


@native('oct')
def b_oct(it, st, a, k):
    return it.pure(st, lambda x: fmt_int(x, '#o'), a)


def hash_value(it, st, v):
    def go(s, l):
        if type(l) is R:
            cls = s.get(l.oid).cls
            h = it.find_user_method(cls, '__hash__', s)
            if h is not None and h is not NONE:
                return it.call(s, h, [l], {})
            if h is NONE or it.find_user_method(cls, '__eq__', s) is not None:
                # a class that defines __eq__ without __hash__ is unhashable
                for c in cls.mro:
                    if c.oid is not None and c.native is None:
                        at = s.get(c.oid).attrs
                        if '__hash__' in at and at['__hash__'] is not NONE:
                            break
                        if '__eq__' in at or at.get('__hash__') is NONE:
                            it.raise_now(s, 'TypeError', const('unhashable'))
            if it.native_kind(s, l) in ('list', 'dict', 'set', 'bytearray') and cls.fields is None:
                it.raise_now(s, 'TypeError', const('unhashable'))
            return app('hash', (it.freeze(s, l),), 'int')
        if type(l) is T:
            parts = []
            for x in l.items:
                parts.append(hash_value(it, s, x) if has_ref(x) else x)
            return app('hash', (tup(parts),), 'int')
        if type(l) is X and l.ty in ('list', 'dict'):
            it.raise_now(s, 'TypeError', const('unhashable'))
        return app('hash', (l,), 'int')
    return it.with_leaves(st, v, go)


@native('hash')
def b_hash(it, st, a, k):
    v = a[0]
    if not has_ref(v):
        if type(v) is T:
            return app('hash', (v,), 'int')
        return app('hash', (v,), 'int')
    return hash_value(it, st, v)


@native('vars')
def b_vars(it, st, a, k):
    return it.get_attr(st, a[0], '__dict__')


@native('dir')
def b_dir(it, st, a, k):
    raise Unsupported('dir()')


@native('open')
def b_open(it, st, a, k):
    return nat_mod.open_file(it, st, a, k)


@native('staticmethod')
def b_static(it, st, a, k):
    return mk(StaticV, func=a[0], kind='static')


@native('classmethod')
def b_classm(it, st, a, k):
    return mk(StaticV, func=a[0], kind='class')


@native('super')
def b_super(it, st, a, k):
    return mk(SuperV, cls=a[0], self=a[1])


@native('repr')
def b_repr(it, st, a, k):
    return nat_str.to_repr(it, st, a[0])


@native('format')
def b_format(it, st, a, k):
    return nat_str.format_value(it, st, a[0], a[1] if len(a) > 1 else EMPTY)


@native('exec')
def b_exec(it, st, a, k):
    raise Unsupported('exec')


BUILTINS['eval'] = BUILTINS['exec']
BUILTINS['compile'] = BUILTINS['exec']
BUILTINS['__import__'] = BUILTINS['exec']


@ctor('property')
def c_property(it, st, cls, a, k):
    g = a[0] if a else k.get('fget')
    s = a[1] if len(a) > 1 else k.get('fset')
    return mk(PropV, fget=g, fset=None if s is NONE else s, fdel=None)


@ctor('type')
def c_type(it, st, cls, a, k):
    if len(a) == 1:
        def go(l):
            if l is UNDEF:
                return UNDEF
            return type_of(it, st, l)
        return map_leaves(a[0], go)
    name, bases, ns = a
    d = {}
    for g, kk, v in st.get(ns.oid).items:
        if g is not TRUE or type(kk) is not C:
            raise Unsupported('dynamic class body')
        d[kk.v] = v
    return it.make_class(st, name.v, list(bases.items), d, None)


@ctor('object')
def c_object(it, st, cls, a, k):
    return it.new(st, cls, {})


@ctor('slice')
def c_slice(it, st, cls, a, k):
    a = list(a)
    if len(a) == 1:
        a = [NONE, a[0], NONE]
    while len(a) < 3:
        a.append(NONE)
    return it.new(st, cls, {'start': a[0], 'stop': a[1], 'step': a[2]})


@ctor('bool')
def c_bool(it, st, cls, a, k):
    return it.truth(st, a[0]) if a else FALSE


@ctor('float')
def c_float(it, st, cls, a, k):
    def f(x):
        if type(x) is C:
            try:
                return const(float(x.v))
            except ValueError:
                return raise_('ValueError')
            except TypeError:
                return raise_('TypeError')
        if ty_of(x) == 'float':
            return x
        if type(x) is E:
            return const(float(x.value.v))
        return app('float', (x,), 'float')
    return it.pure(st, f, a or [ZERO])


@ctor('int')
def c_int(it, st, cls, a, k):
    base = pconst(a[1]) if len(a) > 1 else (pconst(k['base']) if 'base' in k else None)
    if len(a) > 1 and base is None:
        raise Unsupported('int() with an unknown base')

    def f(x):
        if x is UNDEF:
            return UNDEF
        if type(x) is C:
            try:
                return const(int(x.v) if base is None else int(x.v, base))
            except ValueError:
                return raise_('ValueError')
            except TypeError:
                return raise_('TypeError')
        if type(x) is E:
            return x.value if x.cls.is_int else raise_('TypeError')
        t = ty_of(x)
        if t == 'int':
            return x
        if t == 'str':
            if x.op == 'fmt':
                spec, v = x.args
                if base in (None, 10) and spec in ('', 'd') or base == 16 and spec in ('x', 'X', '#x', '02x', '04x',
                                                                                       '08x', '02X', '04X', '08X'):
                    return v
                if base in (None, 10) and spec and spec[0] == '0' and spec[-1] == 'd' and rng(v)[0] >= 0:
                    return v
            b = const(10 if base is None else base)
            return ite(bool_of_var(app('isint', (x, b), 'bool')), app('int', (x, b), 'int'), raise_('ValueError'))
        if t == 'float':
            return app('int', (x, const(0)), 'int')
        if t == 'any':
            return app('int', (x, const(0)), 'int')
        if t in ('ipv4', 'ipv6'):
            return le_of(x.args[1], 4 if t == 'ipv4' else 16, big=True)
        return raise_('TypeError')
    if not a:
        return ZERO
    if has_ref(a[0]):
        return it.call_method(st, a[0], '__int__', [])
    return nat_mod.identity(it.pure(st, f, a[:1]), st.guard)


@nmethod('int', 'from_bytes')
def int_from_bytes(it, st, a, k):
    a = list(a)
    if type(a[0]) is ClassV:
        a = a[1:]
    order = a[1] if len(a) > 1 else k.get('byteorder', const('big'))
    signed = k.get('signed', FALSE)
    if signed not in (TRUE, FALSE) or type(order) is not C:
        raise Unsupported('int.from_bytes with unknown options')

    def f(b):
        if type(b) is C:
            return const(int.from_bytes(b.v, order.v, signed=signed is TRUE))
        if ty_of(b) != 'bytes':
            raise Unsupported('int.from_bytes')
        n = pconst(blen(b))
        if n is None:
            return app('int_from', (b, order, signed), 'int')
        return le_of(b, n, signed is TRUE, order.v == 'big')
    v = a[0]
    if type(v) is R:
        v = nat_seq.to_bytes(it, st, v)
    return it.pure(st, f, [v])


@nmethod('int', 'to_bytes')
def int_to_bytes(it, st, a, k):
    n = a[1] if len(a) > 1 else k.get('length', const(1))
    order = a[2] if len(a) > 2 else k.get('byteorder', const('big'))
    signed = k.get('signed', FALSE) is TRUE
    if pconst(n) is None:
        raise Unsupported('to_bytes with unknown length')
    return nat_mod.pack_checked(it, st, a[0], pconst(n), signed, order.v == 'big', 'OverflowError')


@nmethod('int', 'bit_length')
def int_bitlen(it, st, a, k):
    return it.pure(st, lambda x: const(pconst(x).bit_length()) if pconst(x) is not None else
                   app('bit_length', (x,), 'int'), a[:1])


nmethod('int', '__int__', '__index__', '__pos__')(lambda it, st, a, k: a[0])
nmethod('int', '__format__')(lambda it, st, a, k: nat_str.format_value(it, st, a[0], a[1]))
nmethod('int', '__str__', '__repr__')(lambda it, st, a, k: nat_str.to_str(it, st, nat_str.unenum(a[0])))
nmethod('int', '__eq__')(lambda it, st, a, k: it.equals(st, a[0], a[1]))
nmethod('int', '__hash__')(lambda it, st, a, k: b_hash(it, st, a[:1], {}))
nmethod('str', '__hash__')(lambda it, st, a, k: b_hash(it, st, a[:1], {}))
for _c in ('str', 'bytes', 'list', 'dict', 'tuple'):
    nmethod(_c, '__len__')(lambda it, st, a, k: it.length(st, a[0]))
    nmethod(_c, '__eq__')(lambda it, st, a, k: it.equals(st, a[0], a[1]))
    nmethod(_c, '__contains__')(lambda it, st, a, k: nat_seq.native_contains(it, st, a[0], a[1]))
    nmethod(_c, '__iter__')(lambda it, st, a, k: it.new(st, ncls(it, 'iterator'), {}, nat_seq.raw_items(it, st, a[0])))
for _op, _m in DUNDER.items():
    for _c in ('int', 'str', 'float', 'bytes'):
        nmethod(_c, '__%s__' % _m)(lambda it, st, a, k, _op=_op: it.binop(st, _op, a[0], a[1]))


def scalar_attr(it, st, v, name):
    if type(v) is X:
        if v.ty in ('ipv4', 'ipv6'):
            return nat_mod.ip_attr(it, st, v, name)
        if v.ty in ('datetime', 'timedelta') and name in ('year', 'month', 'day', 'hour', 'minute', 'second',
                                                          'microsecond', 'days', 'seconds', 'microseconds'):
            return app('dt.' + name, (v,), 'int')
    if ty_of(v) == 'int' and name in ('numerator', 'real'):
        return v
    return None


from . import nat_seq, nat_str, nat_mod, nat_role    # noqa: E402
from .nat_seq import (sym_elem, sym_items, list_set, list_del, bytearray_set, scalar_item, ref_item,  # noqa: E402
                      seq_item, length, byte_at, range_items, gseq_at, gseq_at_p, nt_tuple, nt_attr, ref_binop)
from .nat_str import to_repr, to_str, format_value, percent, str_contains    # noqa: E402
from .nat_mod import native_module    # noqa: E402
