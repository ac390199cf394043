"""Contexts for analysing the log reader: what is fixed about the file, and the entry points in each."""
from .drive import *
from . import natives
from .natives import native

native('_pva_unspec_error')(lambda it, st, a, k: it.new(st, it.ncls('PvaUnspec'), {'args': tup(())}))


def le(n, v):
    return v.to_bytes(n, 'little')


def at(base, k):
    return padd(base, const(k)) if not isinstance(base, int) else const(base + k)


SLOTS = (('tid', 'tid'), ('event_class', 'cls'), ('operation', 'operation'), ('duration', 'duration'),
         ('date_filetime', 'date'), ('result', 'result'), ('stacktrace', 'stack'), ('category', 'category'),
         ('path', 'path'), ('details', 'details'))


class Log(object):
    """a session about one symbolic log file"""

    def __init__(self, pv=8, events=2, strings=3, processes=1, hosts=1, ports=1, K=None, fix_ids=True, S=None, modules=0, shift=0, free=(), zero=None):
        self.S = S or Session()
        self.it = self.S.it
        if K:
            self.it.K = K
        self.pv = pv
        self.f = f = root('file')
        u = self.u
        if 'magic' not in free:
            self.fix(0, b'PML_')
        if 'version' not in free:
            self.fix(4, le(4, 9))
        self.fix(8, le(4, 1 if pv == 8 else 0))
        self.fix(0x234, le(4, events))
        self.ctx = ops.CTX[0]
        self.ctx.layout = {f: []}
        for i, o in enumerate((0x240, 0x248, 0x250, 0x258, 0x260, 0x3a0)):
            self.place(o, 8, 0x10000 * (i + 1))
        self.A, self.P, self.ST, self.H = u(0x248, 8), u(0x250, 8), u(0x258, 8), u(0x3a0, 8)
        if zero is not None:
            # nothing is there to be described
            self.fix(zero, le(8, 0))
            for o, n in ((0x250, processes), (0x258, strings), (0x3a0, hosts)):
                if o != zero:
                    self.fix(u(o, 8), le(4, n))
                    if o == 0x3a0:
                        self.fix(at(u(o, 8), 4), le(4, ports))
            return
        self.fix(self.ST, le(4, strings))
        for i in range(strings):
            self.place(at(self.ST, 4 + 4 * i), 4, 0x1000 * (i + 1))
            self.place(at(padd(self.ST, u(at(self.ST, 4 + 4 * i), 4)), 0), 4, 8)
        for i in range(processes):
            self.place(at(self.P, 4 + 4 * processes + 4 * i), 4, 0x1000 * (i + 1))
        for i in range(events):
            self.place(at(self.A, 5 * i), 4, 0x100000 + 0x10000 * i)
        self.fix(self.P, le(4, processes))
        self.fix(self.H, le(4, hosts))
        h = at(self.H, 4)
        for _ in range(hosts):
            h = padd(at(h, 20), u(at(h, 16), 4))
        self.fix(h, le(4, ports))
        self.proc = []
        for i in range(processes):
            p = padd(self.P, u(at(self.P, 4 + 4 * processes + 4 * i), 4))
            self.proc.append(p)
            if fix_ids:
                self.fix(p, le(4, 7 + i))
                for k in range(8):
                    self.fix(at(p, 0x38 + 4 * k), le(4, (k + i + shift) % strings))
                self.fix(at(p, 0x60 + pv), le(4, modules))
                for m in range(modules):
                    b = 0x64 + pv + m * (2 * pv + 0x30) + 2 * pv + 4
                    for k in range(4):
                        self.fix(at(p, b + 4 * k), le(4, (k + m + i + shift) % strings))

    def place(self, off, n, base):
        """where concrete samples put what the field at off points to (no part of any obligation)"""
        self.ctx.layout[self.f].append((const(off) if isinstance(off, int) else off, n, base))

    def u(self, off, n):
        return mk_le(self.f, off if not isinstance(off, int) else const(off), n)

    def fix(self, off, data):
        assume_bytes(self.f, const(off) if isinstance(off, int) else off, data)

    def release(self, off, n):
        """leave open again what was fixed"""
        base, c = ops.split_off(off)
        d = ops.CTX[0].bytes[(self.f.id, base.id)]
        for i in range(n):
            del d[c + i]

    def fix_event(self, i, cls=None, op=None, depth=0, extra=None, size=None, proc=7):
        """fix the shape of event i; returns its detail base"""
        self.E = E = self.u(at(self.A, 5 * i), 4)
        if proc is not None:
            self.fix(E, le(4, proc))
        if cls is not None:
            self.fix(at(E, 8), le(4, cls))
        if op is not None:
            self.fix(at(E, 12), le(2, op))
        if depth is not None:
            self.fix(at(E, 40), le(2, depth))
        if extra is not None:
            self.fix(at(E, 48), le(4, extra))
        if size is not None:
            self.fix(at(E, 44), le(4, size))
        self.D = at(E, 52 + self.pv * (depth or 0))
        return self.D

    # ------------------------------------------------------------ running
    def open(self, stack=None, details=None, wrap=None):
        """abstract construction of the reader"""
        S, it = self.S, self.it
        S.mod('procmon_parser')
        kw = {}
        if stack is not None:
            kw['should_get_stacktrace'] = const_bool(stack)
        if details is not None:
            kw['should_get_details'] = const_bool(details)

        def go(s):
            f = S.bytesio(s, self.f)
            if wrap:
                f = it.call(s, S.attr('ref.probe', wrap), [f], {})
            return it.call(s, S.attr('procmon_parser', 'ProcmonLogsReader'), [f], dict(kw))
        o = S.run(S.state(), go)
        self.opened = o
        return o

    def event(self, i, reader=None):
        """abstract reading of event i (a term or a python int)"""
        o = reader or self.opened
        if o.value is None:
            raise Unsupported('reader never constructed')
        st = o.state.fork()
        st.guard = TRUE
        return self.S.run(st, lambda s: self.it.getitem(s, o.value, const(i) if isinstance(i, int) else i))

    def refevent(self, i, stack=True, details=True, exact=False):
        S, it = self.S, self.it
        fn = S.attr('ref.events', 'event')
        return S.run(S.state(), lambda s: it.call(s, fn, [self.f, const(i) if isinstance(i, int) else i, const(self.pv),
                                                          const_bool(stack), const_bool(details), const_bool(exact)], {}))

    def refcall(self, mod, name, *args):
        S, it = self.S, self.it
        fn = S.attr(mod, name)
        return S.run(S.state(), lambda s: it.call(s, fn, list(args), {}))


def const_bool(b):
    return TRUE if b else FALSE


def unspecified(o):
    """guard under which the reference leaves the outcome open"""
    g = FALSE
    for c, cls, _ in o.exits:
        if cls == 'PvaUnspec':
            g = or_(g, c)
    return g


def slot(S, o, name, mask=FALSE, norm=None, exc=lambda c: 'error'):
    """value graph of one attribute of the outcome (None: the value itself)"""
    it = S.it
    v = UNDEF
    if o.value is not None:
        st = o.state
        w = it.get_attr(st, o.value, name) if name else o.value
        v = it.freeze(st, w)
        if norm:
            v = norm(v)
        if st.guard is not TRUE:
            v = ite(st.guard, v, UNDEF)
    for g, cls, _ in o.exits:
        v = ite(g, UNDEF if cls == 'PvaUnspec' else term('raised', (exc(cls),), 'raised'), v)
    if mask is not FALSE:
        v = ite(mask, UNDEF, v)
    return v


def numeric(v):
    """enumeration members as numbers"""
    return apply(lambda l: l.value if type(l) is E else l, (v,))
