"""Obligations about the log as a whole: header, refusal, tables, access protocol."""
from pva.frame import *
from checks import events as EVT

ME = 'checks.container'


def widen(S, o, mask=FALSE, kinds=False):
    return slot(S, o, None, mask, exc=(lambda c: c) if kinds else (lambda c: 'error'))


def prim(S):
    return lambda name, *a: S.run(S.state(), lambda s: S.it.call(s, S.attr('ref.probe', name), list(a), {}))


def on(S, o, name, *args):
    """run a probe on the value of outcome o, in the state it was left in"""
    st = o.state.fork()
    st.guard = TRUE
    fn = S.attr('ref.probe', name)
    return S.run(st, lambda s: S.it.call(s, fn, [o.value] + list(args), {}))


def seq(*ns):
    return tup(const(n) for n in ns)


# ---------------------------------------------------------------- header

def header(r, pv):
    L = Log(pv=pv, S=session(), strings=1, processes=0, hosts=0, ports=0, events=0)
    S = L.S
    r.use(S)
    o = S.run(S.state(), lambda s: S.it.call(s, S.attr('procmon_parser', 'PMLStreamReader'), [S.bytesio(s, L.f)], {}))
    m = L.refcall('ref.pml', 'header', L.f)
    st = o.state.fork()
    st.guard = TRUE
    h = S.run(st, lambda s: S.it.get_attr(s, o.value, 'header'))
    ms = m.state
    for name in read_names(S, 'HEADER'):
        x = S.run(h.state.fork(), lambda s: S.it.get_attr(s, h.value, name))
        y = S.run(ms.fork(), lambda s: S.it.getitem(s, m.value, const(name)))
        r.equal('header ' + name, slot(S, x, None), slot(S, y, None), lambda a, b, d: ', '.join(locate(S.it, [('Header', name)])))


def read_names(S, name):
    v = S.attr('ref.probe', name)
    return [i.v for i in v.items]


def system(r, pv, major=10, minor=0):
    L = Log(pv=pv, S=session(), strings=1, processes=0, hosts=0, ports=0, events=0)
    S = L.S
    r.use(S)
    if major is not None:
        L.fix(0x274, le(4, major) + le(4, minor))
    o = L.open()
    x = S.run(o.state.fork(), lambda s: S.it.call(s, S.it.get_attr(s, o.value, 'system_details'), [], {}))
    y = L.refcall('ref.probe', 'model_system', L.f)
    mask = or_(x.dropped, y.dropped)
    for g, _, _ in y.exits:        # versions without a name
        mask = or_(mask, g)
    if o.state.guard is not TRUE:
        mask = or_(mask, not_(o.state.guard))
    r.equal('system details', widen(S, x, mask), widen(S, y, mask),
            lambda a, b, d: 'system_details: ' + ', '.join(locate(S.it, [('key', k.v) for k in canon.differing_keys(a, b) or [] if type(k) is C])))
    n = S.run(o.state.fork(), lambda s: S.it.call(s, S.attr('ref.probe', 'length'), [o.value], {}))
    r.equal('len', widen(S, n, not_(o.state.guard)), ite(o.state.guard, ZERO, UNDEF))


def refusal(r, pv, fixed):
    """which headers are refused, and how"""
    S = session()
    L = Log(pv=pv, S=S, strings=0, processes=0, hosts=0, ports=0, events=0, free=tuple(fixed))
    r.use(S)
    for cls in ('ProcmonLogsReader', 'PMLStreamReader'):
        o = S.run(S.state(), lambda s: S.it.call(s, S.attr('procmon_parser', cls), [S.bytesio(s, L.f)], {}))
        m = L.refcall('ref.pml', 'refused', L.f)
        x = ite(o.state.guard, NONE, UNDEF) if o.value is not None else UNDEF
        for g, c, _ in o.exits:
            x = ite(g, const(c), x)
        y = widen(S, m)
        r.equal('%s refuses exactly the bad headers' % cls, x, y,
                lambda a, b, d: '; '.join('%s raised at %s' % (k, ', '.join('%s:%d' % (rel(c[0]), c[1]) for c in v))
                                          for k, v in S.it.raise_log.items()))


def missing(r, pv, field):
    """a log without one of its tables"""
    for cls in ('ProcmonLogsReader', 'PMLStreamReader'):
        S = session()
        L = Log(pv=pv, S=S, strings=0, processes=0, hosts=0, ports=0, events=0, zero=field, free=('magic',))
        r.use(S)
        S.it.cut_ranges = True
        o = S.run(S.state(), lambda s: S.it.call(s, S.attr('procmon_parser', cls), [S.bytesio(s, L.f)], {}))
        x = const('goes on')
        for g, c, _ in o.exits:
            x = ite(g, const(c), x)
        r.equal('%s refuses a log whose offset at 0x%x is zero' % (cls, field), x, const('PMLError'), 'Header')


def short(r, size):
    """a file too short to hold a signature"""
    S = session()
    r.use(S)
    b = mk_slice(root('file'), ZERO, const(size)) if size else BEMPTY
    o = S.run(S.state(), lambda s: S.it.call(s, S.attr('procmon_parser', 'ProcmonLogsReader'), [S.bytesio(s, b)], {}))
    x = ite(o.state.guard, const('accepted'), UNDEF) if o.value is not None else UNDEF
    for g, c, _ in o.exits:
        x = ite(g, const(c), x)
    r.equal('a file of %d bytes is refused' % size, x, const('PMLError'), 'Header')


# ---------------------------------------------------------------- tables

def tables(r, pv, processes, strings, modules, shift):
    L = Log(pv=pv, S=session(), strings=strings, processes=processes, hosts=0, ports=0, events=0, modules=modules, shift=shift)
    S = L.S
    r.use(S)
    o = L.open()
    x = on(S, o, 'processes')
    y = L.refcall('ref.probe', 'model_processes', L.f, const(pv))
    mask = or_(x.dropped, y.dropped)
    if o.state.guard is not TRUE:
        mask = or_(mask, not_(o.state.guard))
    r.equal('processes()', widen(S, x, mask), widen(S, y, mask),
            lambda a, b, d: 'Process/Module built at %s' % ', '.join(locate(S.it, [('Process', 'pid'), ('Module', 'size')])[:4]))


def indexes(r, pv, strings, modules, which):
    """references to texts by any index: the text of that number, and no log at all where there is none"""
    L = Log(pv=pv, S=session(), strings=strings, processes=1, hosts=0, ports=0, events=0, modules=modules)
    S = L.S
    r.use(S)
    p = L.proc[0]
    at_ = at(p, 0x38 + 4 * which) if which < 8 else at(p, 0x64 + pv + 2 * pv + 4 + 4 * (which - 8))
    L.release(at_, 4)
    o = L.open()
    y = L.refcall('ref.probe', 'model_processes', L.f, const(pv))
    x = on(S, o, 'processes')
    v = widen(S, x, x.dropped)
    for g, _, _ in o.exits:
        v = ite(g, term('raised', ('error',), 'raised'), v)
    bad = L.refcall('ref.pml', 'refused', L.f)
    mask = or_(or_(x.dropped, y.dropped), or_(o.dropped, not_(S.it.identical(bad.state, bad.value, NONE))))
    r.equal('processes() or refusal', ite(mask, UNDEF, v), widen(S, y, mask),
            lambda a, b, d: 'text references at %s' % ', '.join(locate(S.it, [('Process', 'pid'), ('Module', 'size')])[:4]))


# ---------------------------------------------------------------- access protocol

SHAPES = {'profiling': dict(cls=4, op=1), 'thread': dict(cls=1, op=3), 'regquery': dict(cls=2, op=5, asc=1, extra=0),
          'regvalue': dict(cls=2, op=4, asc=0), 'regkey': dict(cls=2, op=3, asc=0), 'regset': dict(cls=2, op=8, asc=1),
          'regopen': dict(cls=2, op=0, asc=1), 'close': dict(cls=3, op=22, sub=0, asc=1), 'read': dict(cls=3, op=23, sub=0, asc=0),
          'create': dict(cls=3, op=20, sub=0, asc=0, sid=1), 'map': dict(cls=3, op=19, sub=0, asc=1),
          'dir': dict(cls=3, op=32, sub=1, asc=1, dircls=12), 'notify': dict(cls=3, op=32, sub=2, asc=1),
          'ioctl': dict(cls=3, op=33, sub=0, asc=1), 'setinfo': dict(cls=3, op=26, sub=13, asc=0), 'net': dict(cls=5, op=1),
          'odd operation': dict(cls=2, op=300), 'odd class': dict(cls=9, op=1), 'odd profiling': dict(cls=4, op=77),
          'start': dict(cls=1, op=7), 'exit': dict(cls=1, op=2), 'load': dict(cls=1, op=5), 'rename': dict(cls=2, op=14, asc=1)}


def shaped(pv, names, depth=1, **kw):
    L = Log(pv=pv, S=session(), events=len(names), **kw)
    for i, n in enumerate(names):
        EVT.shape(L, i, depth=depth, **SHAPES[n])
    return L


def ready(r, L, wrap=None):
    o = L.open(wrap=wrap)
    r.use(L.S)
    o.state = o.state.fork()
    o.state.guard = TRUE
    return o


def cmp(r, S, ob, x, y, where='', also=FALSE):
    mask = or_(or_(x.dropped, y.dropped), also)
    r.equal(ob, widen(S, x, mask, True), widen(S, y, mask, True), where)


def history(r, pv, names, depth=1, details=None, stack=None):
    """reading one event leaves no trace on the reading of another"""
    L = shaped(pv, names, depth)
    S = L.S
    r.use(S)
    o = L.open(stack, details)
    o.state = o.state.fork()
    o.state.guard = TRUE
    i, j = const(0), const(1)
    fresh = {k: on(S, o, 'read', const(k)) for k in (0, 1)}
    bad = FALSE
    for k in (0, 1):
        for g, _, _ in fresh[k].exits:
            bad = or_(bad, g)
        bad = or_(bad, fresh[k].dropped)
    w = 'event reading: shared state written by %s' % ', '.join(shared(S.it)[:6])
    cmp(r, S, 'second event after the first (details changed by the caller)', on(S, o, 'then', i, j), fresh[1], w, bad)
    cmp(r, S, 'first event after the second', on(S, o, 'then', j, i), fresh[0], w, bad)
    cmp(r, S, 'the same event again', on(S, o, 'again', i), fresh[0], w, bad)
    cmp(r, S, 'an event outlives the next one', on(S, o, 'outlives', i, j), fresh[0], w, bad)
    # wherever the caller's other uses left the file position
    st = o.state.fork()
    move(S, st, o)
    cmp(r, S, 'any file position', S.run(st, lambda s: S.it.call(s, S.attr('ref.probe', 'read'), [o.value, j], {})), fresh[1], w, bad)


def shared(it):
    """statements that write to what outlives a call: objects of the modules first, else any store"""
    found = {'shared': [], 'global': [], '': []}
    for k, v in it.store_log.items():
        if k[0] not in ('key', 'Event'):
            for cur in v:
                p = rel(cur[0])
                if not p.startswith('..') and not os.path.isabs(p) and 'init' not in cur[2] and '<module>' not in cur[2]:
                    found[k[0] if k[0] in found else ''].append('%s:%d (%s)' % (p, cur[1], cur[2]))
    return sorted(set(found['shared'] + found['global'] or found['']))


def move(S, st, o):
    """put the file the reader was given at an unknown position"""
    for oid in list(st.heap) + list(st.base):
        rec = st.get(oid)
        if getattr(rec.cls, 'native', None) == 'BytesIO' and rec.attrs.get('content') is root('file'):
            S.it.set_attr_raw(st, oid, 'pos', term('sym', ('file position',), 'int', 0))


def protocol(r, pv, n):
    """indexing, slicing, length and iteration over n events"""
    names = ['thread', 'read', 'profiling', 'regset'][:n]
    L = shaped(pv, names)
    S = L.S
    o = ready(r, L)
    w = ', '.join('%s' % f for f in ('ProcmonLogsReader.__getitem__', '__next__', '__len__'))
    ev = [on(S, o, 'read', const(i)) for i in range(n)]
    bad = FALSE
    for e in ev:
        for g, _, _ in e.exits:
            bad = or_(bad, g)
        bad = or_(bad, e.dropped)
    views = [ite(e.state.guard, S.it.freeze(e.state, e.value), UNDEF) for e in ev]

    def expect(ob, x, want, also=FALSE):
        mask = or_(or_(x.dropped, bad), also)
        v = widen(S, x, mask, True)
        y = ite(mask, UNDEF, want) if mask is not FALSE else want
        r.equal(ob, v, y, w)

    def lst(items):
        return term('flist', tuple((TRUE, i) for i in items), 'list')
    expect('len', on(S, o, 'length'), const(n))
    for i in range(-n, 0):
        expect('index %d' % i, on(S, o, 'read', const(i)), views[i])
    for i in (n, n + 5, -n - 1):
        expect('index %d' % i, on(S, o, 'kind', const(i)), const('IndexError'))
    for bad_index in (const('0'), NONE, tup((ZERO,)), const(1.0)):
        expect('index %s' % show(bad_index), on(S, o, 'kind', bad_index), const('TypeError'))
    bounds = [None] + list(range(-n - 1, n + 2))
    steps = (None, 1, 2, -1)
    for a in bounds:
        for b in bounds:
            for c in steps if THOROUGH_OR(n) else (None, -1):
                expect('slice %s:%s:%s' % (a, b, c), on(S, o, 'read_slice', cst(a), cst(b), cst(c)), lst(views[a:b:c]))
    expect('iteration', on(S, o, 'take', const(n + 2)), lst(views + [const('StopIteration')] * 2))
    expect('for loop', on(S, o, 'loop'), lst(views))
    for k in range(n + 1):
        expect('for loop after %d steps' % k, on(S, o, 'loop_after', const(k)), lst(views[k:]))
    for k in range(n):
        expect('for loop with lookups', on(S, o, 'loop_with_lookups', const(k)), lst(views))
    refused = FALSE
    for g, _, _ in L.opened.exits:
        refused = or_(refused, g)
    expect('two readers', on2(S, L, o, 'loop'), lst(views), refused)


def on2(S, L, o, name):
    """a second reader on the same file, after the first one was used up"""
    p = on(S, o, 'loop')
    st = p.state.fork()
    st.guard = TRUE
    fn = S.attr('ref.probe', name)

    def go(s):
        rd = S.it.call(s, S.attr('procmon_parser', 'ProcmonLogsReader'), [S.bytesio(s, L.f)], {})
        return S.it.call(s, fn, [rd], {})
    return S.run(st, go)


def THOROUGH_OR(n):
    from pva import frame
    return frame.THOROUGH or n <= 2


def cst(a):
    return NONE if a is None else const(a)


def read_all(r, pv, n, mode, names=None):
    """the helper returns every event of the file, in order, and releases what it opened"""
    names = names or ['thread', 'read', 'profiling', 'regset'][:n]
    L = shaped(pv, names)
    S = L.S
    o = ready(r, L, 'FileLike' if mode == 'file-like object' else None)
    want = on(S, o, 'loop')
    fn = S.attr('procmon_parser', 'read_all_events_from_pml')
    view = S.attr('ref.probe', 'whole')
    st = S.state()
    S.it.opened = []
    if mode == 'path':
        arg = const('log.pml')
    elif mode == 'path in bytes':
        arg = const(b'log.pml')
    elif mode == 'path object':
        arg = S.it.call(st, S.attr('ref.probe', 'PathObject'), [const('log.pml')], {})
    else:
        arg = S.bytesio(st, L.f)
        S.it.opened.append(arg)
        if mode == 'file-like object':
            arg = S.it.call(st, S.attr('ref.probe', 'FileLike'), [arg], {})
    path = mode.startswith('path')
    y = S.run(st, lambda s: S.it.call(s, fn, [arg], {}))
    # a log of which an event cannot be read is not handed out as if it were complete
    fails = FALSE
    for g, _, _ in want.exits:
        fails = or_(fails, g)
    got = ite(y.state.guard, const('returned'), UNDEF) if y.value is not None else UNDEF
    for g, _, _ in y.exits:
        got = ite(g, const('raised'), got)
    if fails is not FALSE:
        off = or_(or_(want.dropped, y.dropped), not_(fails))
        r.equal('fails where an event cannot be read', ite(off, UNDEF, got), ite(off, UNDEF, const('raised')), 'read_all_events_from_pml')
    if y.value is not None:
        x = S.run(y.state.fork(), lambda s: S.it.call(s, view, [y.value], {}))
        also = or_(y.dropped, not_(y.state.guard))
        for g, _, _ in want.exits:
            also = or_(also, g)
        cmp(r, S, 'all events in order', x, want, 'read_all_events_from_pml', also)
    files = list(S.it.opened)
    ends = [(s, 'returning') for s in [y.state] if y.value is not None] + [(s, 'failing') for s in y.exit_states]
    if path:
        r.equal('one file is opened', const(len(files)), const(1), 'read_all_events_from_pml')
    for s, how in ends:
        for f in files:
            if f.oid not in s.heap and f.oid not in s.base:
                continue
            closed = s.get(f.oid).attrs.get('closed', FALSE)
            r.equal('%s after %s' % ('opened file closed' if path else "caller's file open", how),
                    ite(s.guard, closed, UNDEF), ite(s.guard, TRUE if path else FALSE, UNDEF),
                    'read_all_events_from_pml')
    if path:
        for f in files:
            m = y.state.get(f.oid).attrs.get('mode') if y.value is not None else None
            if m is not None:
                r.equal('opened for reading only', m, const('rb'), 'read_all_events_from_pml')


# ---------------------------------------------------------------- contexts

def j_header(t):
    out = [(ME, 'header', dict(pv=pv)) for pv in (8, 4)]
    for pv in (8, 4):
        for v in ((6, 0), (6, 1), (6, 2), (6, 3), (10, 0)):
            out.append((ME, 'system', dict(pv=pv, major=v[0], minor=v[1])))
    return out


def j_refusal(t):
    out = []
    for pv in (8, 4):
        for f in ((), ('magic',), ('version',), ('magic', 'version')):
            out.append((ME, 'refusal', dict(pv=pv, fixed=f)))
    out += [(ME, 'missing', dict(pv=pv, field=f)) for pv in (8, 4) for f in (0x240, 0x248, 0x250, 0x258, 0x260, 0x3a0)]
    return out + [(ME, 'short', dict(size=n)) for n in range(0, 4)]


def j_tables(t):
    out = []
    for pv in (8, 4):
        for n, s, m, sh in ((1, 9, 0, 0), (1, 9, 0, 1), (1, 9, 1, 0), (1, 9, 2, 3), (2, 9, 1, 0), (3, 9, 0, 5), (0, 2, 0, 0), (1, 1, 1, 0)) + (
                ((2, 12, 3, 2), (4, 10, 1, 3), (1, 20, 5, 7)) if t else ()):
            out.append((ME, 'tables', dict(pv=pv, processes=n, strings=s, modules=m, shift=sh)))
        out += [(ME, 'indexes', dict(pv=pv, strings=s, modules=1, which=k)) for s in ((1, 3, 8) if t else (3,)) for k in range(12)]
    return out


def j_history(t):
    out = []
    names = sorted(SHAPES)
    for pv in (8, 4):
        for a in names:
            for b in names:
                if a <= b and (t or a == b or b in ('thread', 'regvalue', 'dir') or a in ('create',)):
                    out.append((ME, 'history', dict(pv=pv, names=(a, b))))
    return out


def j_protocol(t):
    return [(ME, 'protocol', dict(pv=pv, n=n)) for pv in (8, 4) for n in ((0, 1, 2, 3, 4) if t else (0, 1, 2, 3))]


def j_read_all(t):
    return [(ME, 'read_all', dict(pv=pv, n=n, mode=m)) for pv in (8, 4) for n in (0, 1, 3) for m in ('path', 'object')] + [
        (ME, 'read_all', dict(pv=pv, n=1, mode=m)) for pv in (8, 4) for m in ('path in bytes', 'path object', 'file-like object')] + [
        (ME, 'read_all', dict(pv=pv, n=len(b), mode=m, names=b)) for pv in (8, 4) for m in ('path', 'object')
        for b in (['thread', 'odd operation'], ['odd operation', 'read'], ['thread', 'odd class', 'read'], ['odd profiling'])]
