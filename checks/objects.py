"""Obligations about the objects handed out: comparison, hashing, dates."""
from pva.frame import *
from checks.csvcol import num, text
from checks.events import make

ME = 'checks.objects'
LOGS, CONF = 'procmon_parser.logs', 'procmon_parser.configuration'
KINDS = {
    'Module': (LOGS, [('base_address', 'n'), ('size', 'n'), ('path', 's'), ('version', 's'), ('company', 's'), ('description', 's'),
                      ('timestamp', 'n')]),
    'Process': (LOGS, [('pid', 'n'), ('parent_pid', 'n'), ('authentication_id', 'n'), ('session', 'n'), ('virtualized', 'n'),
                       ('is_process_64bit', 'b'), ('integrity', 's'), ('user', 's'), ('process_name', 's'), ('image_path', 's'),
                       ('command_line', 's'), ('company', 's'), ('version', 's'), ('description', 's'), ('start_time', 'n'),
                       ('end_time', 'n'), ('modules', 'm')]),
    'Event': (LOGS, [('process', 'p'), ('tid', 'n'), ('event_class', 'ec'), ('operation', 's'), ('duration', 'n'), ('date_filetime', 'n'),
                     ('result', 'n'), ('stacktrace', 'l'), ('category', 's'), ('path', 's'), ('details', 'd')]),
    'Rule': (CONF, [('column', 'col'), ('relation', 'rel'), ('value', 's'), ('action', 'act')]),
}
ENUMS = {'ec': ('procmon_parser.consts', 'EventClass', 0, 5), 'col': (CONF, 'Column', 40052, 40058), 'rel': (CONF, 'RuleRelation', 0, 7),
         'act': (CONF, 'RuleAction', 0, 1)}


def sym(name, lo, hi):
    return term('sym', (name,), 'int', lo, hi)


def val(S, st, kind, name):
    it = S.it
    if kind == 'n':
        return num(name, 1 << 64)
    if kind == 's':
        return text(name)
    if kind == 'b':
        return ite(cmp_zero(sym(name, 0, 1), '=='), FALSE, TRUE)
    if kind in ENUMS:
        mod, cls, lo, hi = ENUMS[kind]
        return it.call(st, S.attr(mod, cls), [sym(name, lo, hi)], {})
    if kind == 'm':
        return it.call(st, S.attr('ref.probe', 'listof'), [tup([it.call(st, S.attr(LOGS, 'Module'), [num(name), num(name + ' size'), text(name + ' path')], {})])], {})
    if kind == 'p':
        return it.call(st, S.attr(LOGS, 'Process'), [num(name), num(name + ' parent')], {})
    if kind == 'l':
        return it.call(st, S.attr('ref.probe', 'listof'), [tup([num(name), num(name + ' next')])], {})
    if kind == 'd':
        return it.call(st, S.attr('ref.probe', 'mapping'), [tup([tup((const('key'), FALSE, text(name)))])], {})
    raise KeyError(kind)


def object_(S, st, kind, other=(), prefix='other '):
    """an object of symbolic values; those in other are different symbols"""
    mod, fields = KINDS[kind]
    kw = {}
    for n, k in fields:
        kw[n] = val(S, st, k, (prefix if n in other else '') + n)
    return S.it.call(st, S.attr(mod, kind), [], kw)


def agree(S, st, kind, other):
    """do the values of the two objects agree?"""
    from pva import ops
    c = TRUE
    names = dict(KINDS[kind][1])
    for n in other:
        k = names[n]
        if k == 'm':
            pairs = [(num(n), num('other ' + n)), (num(n + ' size'), num('other %s size' % n)), (text(n + ' path'), text('other %s path' % n))]
        elif k == 'p':
            pairs = [(num(n), num('other ' + n)), (num(n + ' parent'), num('other %s parent' % n))]
        elif k == 'l':
            pairs = [(num(n), num('other ' + n)), (num(n + ' next'), num('other %s next' % n))]
        elif k in ENUMS or k == 'b':
            lo, hi = ENUMS[k][2:] if k != 'b' else (0, 1)
            same = FALSE
            for i in range(lo, hi + 1):
                same = or_(same, and_(num_in(sym(n, lo, hi), i, i), num_in(sym('other ' + n, lo, hi), i, i)))
            c = and_(c, same)
            continue
        elif k == 'n':
            pairs = [(num(n, 1 << 64), num('other ' + n, 1 << 64))]
        else:
            pairs = [(text(n), text('other ' + n))]
        for a, b in pairs:
            c = and_(c, ops.eq(a, b))
    return c


def ask(S, name, *make):
    fn = S.attr('ref.probe', name)
    return S.run(S.state(), lambda s: S.it.call(s, fn, [m(s) for m in make], {}))


def compare(r, kind, other):
    """two objects that may differ in the named values"""
    S = session()
    r.use(S)
    a = lambda s: object_(S, s, kind)                                  # noqa: E731
    b = lambda s: object_(S, s, kind, other)                           # noqa: E731
    # values that the constructor refuses
    mask = FALSE
    for g, _, _ in S.run(S.state(), b).exits:
        mask = or_(mask, g)
    x = ask(S, 'same', a, b)
    want = agree(S, x.state, kind, other)
    w = '%s.__eq__' % kind
    both(r, S, 'equal when %s agree' % ', '.join(other or ('all',)), x, want, w)
    both(r, S, 'other way round', ask(S, 'same', b, a), want, w)
    both(r, S, 'unequal otherwise', ask(S, 'differ', a, b), not_(want), '%s.__ne__' % kind)


def both(r, S, ob, x, want, where):
    mask = x.dropped
    for g, c, _ in x.exits:
        if c == 'ValueError':
            mask = or_(mask, g)
    r.equal(ob, slot(S, x, None, mask), want if mask is FALSE else ite(mask, UNDEF, want), where)


def hashing(r, kind):
    """objects of the same values"""
    S = session()
    r.use(S)
    a = lambda s: object_(S, s, kind)                                  # noqa: E731
    x = ask(S, 'hashed', a)
    y = ask(S, 'hashed', lambda s: (object_(S, s, kind, [n for n, _ in KINDS[kind][1]]), object_(S, s, kind))[1])
    r.equal('equal hashes of equal values', slot(S, x, None), slot(S, y, None), '%s.__hash__' % kind)
    z = S.run(S.state(), lambda s: S.it.call(s, S.attr('ref.probe', 'kept'), [object_(S, s, kind), object_(S, s, kind)], {}))
    r.equal('found again in a mapping', slot(S, z, None), const('found'), '%s.__hash__, %s.__eq__' % (kind, kind))
    # an object that was something else before
    for n, k in KINDS[kind][1]:
        def later(s):
            o = object_(S, s, kind, (n,))
            S.it.call(s, S.attr('ref.probe', 'hashed'), [o], {})
            S.it.call(s, S.attr('ref.probe', 'changed'), [o, const(n), val(S, s, k, n)], {})
            return o
        x = S.run(S.state(), lambda s: S.it.call(s, S.attr('ref.probe', 'same'), [later(s), object_(S, s, kind)], {}))
        r.equal('equal once %s is' % n, slot(S, x, None), TRUE, '%s.__eq__' % kind)
        x = S.run(S.state(), lambda s: S.it.call(s, S.attr('ref.probe', 'hashed'), [later(s)], {}))
        r.equal('hashes alike once %s is' % n, slot(S, x, None), slot(S, y, None), '%s.__hash__' % kind)


def strange(r, kind):
    """comparison with anything else"""
    S = session()
    r.use(S)
    others = {'None': lambda s: NONE, 'a number': lambda s: num('n'), 'a text': lambda s: text('t'), 'a tuple': lambda s: tup((num('n'),)),
              'a list': lambda s: val(S, s, 'l', 'x'), 'a mapping': lambda s: val(S, s, 'd', 'x')}
    for k in KINDS:
        if k != kind:
            others['a ' + k] = lambda s, k=k: object_(S, s, k)
    for what, m in others.items():
        x = ask(S, 'same', lambda s: object_(S, s, kind), m)
        both(r, S, 'not equal to ' + what, x, FALSE, '%s.__eq__' % kind)
        x = ask(S, 'differ', lambda s: object_(S, s, kind), m)
        both(r, S, 'different from ' + what, x, TRUE, '%s.__ne__' % kind)


def dates(r, form, is_utc):
    S = session()
    r.use(S)
    t = {'none': NONE, 'zero': ZERO, 'any': sym('time', 0, 2650467743999999999), 'early': sym('time', 0, 116444736000000000 - 1),
         'whole': pmul(sym('seconds', 0, 265046774399), const(10000000))}[form]
    kw = {'default': {}, 'utc': {'is_utc': TRUE}, 'local': {'is_utc': FALSE}}

    def go(s):
        e = S.it.call(s, S.attr(LOGS, 'Event'), [], {'event_class': const(1), 'date_filetime': t})
        fn = S.it.get_attr(s, e, 'date')
        if is_utc.startswith('position'):
            return S.it.call(s, fn, [TRUE if is_utc.endswith('utc') else FALSE], {})
        return S.it.call(s, fn, [], kw[is_utc])
    x = S.run(S.state(), go)
    y = S.run(S.state(), lambda s: S.it.call(s, S.attr('ref.probe', 'date_model'), [t, FALSE if is_utc.endswith('local') else TRUE], {}))
    r.equal('date of %s' % form, slot(S, x, None), slot(S, y, None), 'Event.date')


def read_dates(r, pv, cls, op, utc):
    """the date of an event of a log"""
    L = make(pv, cls=cls, op=op, asc=1 if cls in (2, 3) else None, sub=0 if cls == 3 else None, extra=0)
    S = L.S
    r.use(S)
    L.open()
    o = L.event(1)
    m = L.refevent(1)
    mask = or_(unspecified(m), or_(o.dropped, m.dropped))
    for g, _, _ in o.exits:
        mask = or_(mask, g)
    for g, _, _ in m.exits:
        mask = or_(mask, g)

    def at_(out, fn):
        st = out.state.fork()
        st.guard = TRUE
        return S.run(st, lambda s: fn(s, out.value))
    x = at_(o, lambda s, v: S.it.call(s, S.it.get_attr(s, v, 'date'), [], {'is_utc': const_bool(utc)}))
    y = at_(m, lambda s, v: S.it.call(s, S.attr('ref.probe', 'date_model'), [S.it.get_attr(s, v, 'date'), const_bool(utc)], {}))
    r.equal('date of an event read', slot(S, x, None, mask), slot(S, y, None, mask), 'Event.date')


def j_eq(t):
    out = []
    for kind, (_, fields) in KINDS.items():
        names = [n for n, _ in fields]
        out.append((ME, 'compare', dict(kind=kind, other=())))
        out += [(ME, 'compare', dict(kind=kind, other=(n,))) for n in names]
        pairs = [(names[i], names[j]) for i in range(len(names)) for j in range(i)]
        out += [(ME, 'compare', dict(kind=kind, other=p)) for p in (pairs if t else pairs[::7])]
        out.append((ME, 'hashing', dict(kind=kind)))
        out.append((ME, 'strange', dict(kind=kind)))
    return out


def j_date(t):
    out = [(ME, 'dates', dict(form=f, is_utc=u)) for f in ('none', 'zero', 'any', 'early', 'whole')
           for u in ('default', 'utc', 'local', 'position utc', 'position local')]
    for pv in (8, 4):
        for cls, op in ((1, 3), (2, 2), (3, 22), (4, 0), (5, 1)):
            out += [(ME, 'read_dates', dict(pv=pv, cls=cls, op=op, utc=u)) for u in (True, False)]
    return out
