"""Obligations about how text in the log is read."""
from pva.frame import *
from pva import roles
from checks.events import shape, where_slot, MODEL
from checks.container import on, widen

ME = 'checks.text'
FILE = 'procmon_parser/stream_helper.py'


def reader(r, mod, name, role, params, opt, lead, line, t):
    """a string reader against the rule of its encoding, all contents of each size"""
    S = Session(K=14 if t else 10)
    S.mod('procmon_parser')
    r.use(S)
    for L, size in roles.contexts(role, params, opt):
        for L, size in ((L, size),):
            what = '%s of %d bytes, size %s, at %d' % (name, L, size, lead)
            try:
                got = roles.outcome(S, mod, name, role, L, size, lead)
            except (Unsupported, TooBig) as e:
                r.add(what, 'undecided', cut(e, 200))
                continue
            for label, a, b in got:
                r.equal('%s: %s' % (what, label), a, b, '%s:%d (%s)' % (mod.replace('.', '/') + '.py', line, name))


def spelled(S, n):
    S.it.spell = n
    S.it.spell_fns = {k: S.attr('ref.strings', k) for k in ('utf16', 'multisz')}
    S.it.K = max(S.it.K, n // 2 + 2)


def table(r, pv, n):
    """strings of the string table, byte by byte"""
    S = session()
    spelled(S, 8)
    L = Log(pv=pv, S=S, strings=2, processes=1, hosts=0, ports=0, events=0, modules=1)
    for i in range(2):
        L.fix(padd(L.ST, L.u(at(L.ST, 4 + 4 * i), 4)), le(4, n if i == 0 else 2))
    r.use(S)
    o = L.open()
    x = on(S, o, 'processes')
    y = L.refcall('ref.probe', 'model_processes', L.f, const(pv))
    mask = or_(x.dropped, y.dropped)
    if o.state.guard is not TRUE:
        mask = or_(mask, not_(o.state.guard))
    r.equal('texts of processes and modules', widen(S, x, mask), widen(S, y, mask), FILE)


PLACES = {}


def place(name, slots, **ctx):
    def f(g):
        PLACES[name] = (slots, ctx, g)
        return g
    return f


UNI = lambda n: le(2, n)                # noqa: E731
ASC = lambda n: le(2, 0x8000 | n)       # noqa: E731


@place('process path', ('path',), cls=1, op=0)
def _(L, D, n):
    L.fix(at(D, 0x2e), UNI(n) + ASC(1))


@place('command line', ('details',), cls=1, op=1)
def _(L, D, n):
    L.fix(at(D, 0x2e), ASC(2) + UNI(n))


@place('image path', ('path',), cls=1, op=5)
def _(L, D, n):
    L.fix(at(D, L.pv + 4), UNI(n))


@place('start command line', ('details',), cls=1, op=7)
def _(L, D, n):
    L.fix(at(D, 4), UNI(n) + ASC(1) + le(4, 0))


@place('current directory', ('details',), cls=1, op=7)
def _(L, D, n):
    L.fix(at(D, 4), ASC(1) + UNI(n) + le(4, 0))


@place('environment', ('details',), cls=1, op=7)
def _(L, D, n):
    L.fix(at(D, 4), ASC(1) + ASC(1) + le(4, n))


@place('registry path', ('path',), cls=2, op=2)
def _(L, D, n):
    L.fix(D, UNI(n))


@place('value path', ('path',), cls=2, op=5, extra=0)
def _(L, D, n):
    L.fix(D, UNI(n))


@place('file path', ('path',), cls=3, op=22, sub=0)
def _(L, D, n):
    L.fix(at(D, 4 + 0x14 + 5 * L.pv), UNI(n))


def spot(r, place, pv, n):
    """a text of an event, byte by byte"""
    slots, ctx, g = PLACES[place]
    S = session()
    spelled(S, 8)
    L = Log(pv=pv, S=S, hosts=0, ports=0)
    D = shape(L, 1, **ctx)
    g(L, D, n)
    compare(r, L, slots)


def compare(r, L, slots):
    S = L.S
    r.use(S)
    L.open()
    o = L.event(1)
    m = L.refevent(1)
    mask = or_(unspecified(m), or_(o.dropped, m.dropped))
    for name in slots:
        r.equal(name, slot(S, o, name, mask), slot(S, m, MODEL[name], mask), where_slot(S.it, name))


def pairs(r, pv, n):
    """the name and value list of a network event"""
    S = session()
    spelled(S, 8)
    L = Log(pv=pv, S=S, hosts=0, ports=0)
    shape(L, 1, cls=5, op=3, size=44 + n)
    compare(r, L, ('details',))


def value(r, pv, kind, n, full):
    """text values of the registry"""
    S = session()
    spelled(S, 12)
    L = Log(pv=pv, S=S, hosts=0, ports=0)
    D = shape(L, 1, cls=2, op=5, asc=1, extra=400, size=60)
    L.fix(D, ASC(3))
    L.fix(at(D, 8), le(4, 1 if full else 2))
    X = at(L.E, 402)
    L.fix(at(X, 4), le(4, kind))
    if full:       # offset of the data, its length, length of the name
        L.fix(at(X, 8), le(4, 26) + le(4, n) + le(4, 6))
        L.fix(at(L.E, 400), le(2, 26 + n))
    else:
        L.fix(at(X, 8), le(4, n))
        L.fix(at(L.E, 400), le(2, 12 + n))
    compare(r, L, ('details', 'path'))


def j_text(t):
    out = []
    for (mod, name), (role, v, d, n, line) in sorted(ROLES.items()):
        for m, nm, params, opt, ln in roles.candidates():
            if (m, nm) == (mod, name):
                for lead in (0, 2, 5) if t else (0, 3):
                    out.append((ME, 'reader', dict(mod=mod, name=name, role=role, params=params, opt=opt, lead=lead, line=line, t=t)))
    for pv in (8, 4):
        out += [(ME, 'table', dict(pv=pv, n=n)) for n in (0, 2, 4, 6, 8)]
        out += [(ME, 'spot', dict(place=p, pv=pv, n=n)) for p in sorted(PLACES) for n in ((0, 1, 2, 3, 4) if t else (0, 1, 3))]
        out += [(ME, 'pairs', dict(pv=pv, n=n)) for n in ((0, 2, 4, 6, 8) if t else (0, 4, 8))]
        out += [(ME, 'value', dict(pv=pv, kind=k, n=n, full=a)) for k in (1, 2, 7) for n in (0, 2, 4, 6, 8) for a in (0, 1)]
    return out
