"""Obligations about one event of a log: the reader's event against the reference model, slot by slot."""
from pva.frame import *
from ref import tables as T      # plain data, used to enumerate contexts

MODEL = dict((a, b) for a, b in SLOTS)
KEYS = {'details': 'details', 'path': 'path', 'category': 'category', 'operation': 'operation'}


def where_slot(it, name):
    def f(a, b, d):
        keys = [('Event', name)]
        if name == 'details':
            try:
                ks = canon.differing_keys(a, b)
            except Exception:
                ks = None
            if ks:
                got = [('key', k.v) for k in ks if type(k) is C]
                w = locate(it, got)
                names = ', '.join(repr(k.v) for k in ks[:6] if type(k) is C)
                if w:
                    return 'column Detail, entry %s: %s' % (names, ', '.join(w[:6]))
                return 'column Detail, entry %s' % names
            keys = [('key', None)] + keys
        w = locate(it, keys)
        return '%s: %s' % (name, ', '.join(w[:6]))
    return f


def shape(L, i, cls=None, op=None, sub=None, asc=None, depth=0, extra=None, size=None, dircls=None, sid=None, regvalue=None):
    """fix the shape of event i"""
    pv = L.pv
    D = L.fix_event(i, cls, op, depth=depth, extra=extra, size=size)
    if regvalue is not None:
        # a value queried with its partial information, in a record of a given length
        kind, room = regvalue
        L.fix(at(D, 12 if op == 6 else 8), le(4, 2))
        X = padd(L.E, L.u(at(L.E, 48), 4))
        L.fix(X, le(2, 12 + room))
        L.fix(at(X, 2 + 4), le(4, kind))
    if cls == 3:
        if sub is not None:
            L.fix(D, bytes([sub]))
        info = at(D, 4 + 0x14 + 5 * pv)
        if asc is not None:
            assume_bit(L.f, at(info, 1), 7, bool(asc))
        if dircls is not None:
            L.fix(at(D, 4 + 12 + 2 * pv), le(4, dircls))
        if sid is not None:
            # revision byte of the impersonation SID
            after = padd(at(info, 4), L.refcall('ref.base', 'dsize', L.u(info, 2)).value)
            L.fix(at(after, 8), bytes([sid] if isinstance(sid, int) else sid))
    if cls == 2 and asc is not None:
        assume_bit(L.f, at(D, 1), 7, bool(asc))
    return D


LOGKW = ('processes', 'hosts', 'ports', 'strings', 'events')


def make(pv, **kw):
    L = Log(pv=pv, S=session(), **{k: kw.pop(k) for k in LOGKW if k in kw})
    shape(L, 1, **kw)
    return L


def event(r, slots, stack=True, details=True, exact=False, **ctx):
    """code against model in one context"""
    L = make(**ctx)
    S = L.S
    r.use(S)
    o = L.open(stack, details)
    if o.value is None:
        r.add('reader is constructed', 'undecided', 'no analysed path constructs a reader')
        return
    o = L.event(1)
    m = L.refevent(1, stack, details, exact)
    mask = or_(unspecified(m), or_(o.dropped, m.dropped))
    for name in slots:
        nrm = numeric if name == 'event_class' else None
        r.equal(name, slot(S, o, name, mask, nrm), slot(S, m, MODEL[name], mask, nrm), where_slot(S.it, name))


def masks(r, keys, exact=False, **ctx):
    """single entries of the detail column"""
    L = make(**ctx)
    S = L.S
    r.use(S)
    o = L.open(True, True)
    if o.value is None:
        r.add('reader is constructed', 'undecided', 'no analysed path constructs a reader')
        return
    o = L.event(1)
    m = L.refevent(1, True, True, exact)
    mask = or_(unspecified(m), or_(o.dropped, m.dropped))
    a, b = slot(S, o, 'details', mask), slot(S, m, 'details', mask)
    x, y = canon.dict_view(a), canon.dict_view(b)
    if x is None or y is None:
        r.add('detail entries', 'undecided', 'the entries are not statically known')
        return
    for k in keys:
        c = const(k)
        r.equal('entry %s' % k, x[1].get(c, canon.ABSENT), y[1].get(c, canon.ABSENT),
                lambda a, b, d, k=k: 'column Detail, entry %s: %s' % (k, ', '.join(locate(S.it, [('key', k)])[:6])))


# ---------------------------------------------------------------- which contexts

EV = 'checks.events'
FS_OPS = sorted(T.ENUM_FilesystemOperation)
SUBS = {25: T.ENUM_FilesystemQueryInformationOperation, 26: T.ENUM_FilesystemSetInformationOperation,
        30: T.ENUM_FilesystemQueryVolumeInformationOperation, 31: T.ENUM_FilesystemSetVolumeInformationOperation,
        32: T.ENUM_FilesysemDirectoryControlOperation, 37: T.ENUM_FilesystemLockUnlockOperation,
        47: T.ENUM_FilesystemPnpOperation}


def ev(slots, **kw):
    return (EV, 'event', dict(slots=tuple(slots), **kw))


def widths(**kw):
    """every combination of pointer size and string encoding"""
    return [dict(kw, pv=pv, asc=asc) for pv in (8, 4) for asc in (0, 1)]


def pvs(**kw):
    return [dict(kw, pv=pv) for pv in (8, 4)]


PAYLOAD = ('category', 'details')
ALL4 = ('operation', 'path', 'category', 'details')


def j_common(t):
    s = ('tid', 'event_class', 'duration', 'date_filetime', 'result', 'stacktrace')
    out = []
    for pv in (8, 4):
        for cls, op, sub in ((1, 3, None), (2, 2, None), (3, 22, 0), (4, 1, None), (5, 3, None), (1, 9, None),
                             (3, 20, 0), (2, 5, None), (1, 5, None), (4, 0, None)):
            asc = 0 if cls in (2, 3) else None
            out += [ev(s, pv=pv, cls=cls, op=op, sub=sub, asc=asc, depth=d) for d in (range(0, 8) if t else (0, 1, 3))]
            out.append(ev(s, pv=pv, cls=cls, op=op, sub=sub, asc=asc, depth=2, stack=False))
    out += [(EV, 'event_process', dict(pv=pv, nproc=n)) for pv in (8, 4) for n in ((1, 2, 3) if t else (1, 2))]
    out += [(EV, 'stack_any', dict(pv=pv)) for pv in (8, 4)]
    return out


def j_window(t):
    out = []
    ops = [(2, 3, None), (2, 5, None), (2, 0, None), (3, 20, 0), (3, 23, 0), (1, 3, None), (5, 2, None), (2, 4, None), (3, 19, 0)]
    for cls, op, sub in ops:
        for pv in (8, 4):
            for d in ((0, 1, 2, 5) if t else (0, 2)):
                for stack in (True, False):
                    for extra in (None, 0):
                        out.append(ev(ALL4, pv=pv, cls=cls, op=op, sub=sub, asc=1 if cls in (2, 3) else None, depth=d,
                                      extra=extra, stack=stack, sid=1 if op == 20 and cls == 3 else None))
    return out + many_frames()


def j_options(t):
    out = []
    for kw in pvs():
        for cls, op, sub in [(1, o, None) for o in range(10)] + [(2, o, None) for o in range(18)] + [
                (3, o, 0) for o in FS_OPS] + [(3, 32, 2), (3, 26, 13), (5, 1, None), (4, 0, None)]:
            k = dict(kw, cls=cls, op=op, sub=sub, asc=0 if cls in (2, 3) else None)
            if cls == 3 and op == 20:
                k['sid'] = 1
            out.append((EV, 'options', dict(k, depth=1)))
    return out + many_frames()


def many_frames():
    """frames that are skipped are skipped however many there are"""
    out = []
    for pv in (8, 4):
        for d in (64, 0x1fff, 0x2001, 0x7fff, 0x8001, 0xffff):
            out.append(ev(('tid', 'result') + ALL4, pv=pv, cls=2, op=3, sub=None, asc=1, depth=d, extra=None, stack=False))
    return out


def j_fs_names(t):
    out = []
    for kw in widths(cls=3):
        for op in FS_OPS:
            if op in SUBS:
                subs = [0, 200] + (sorted(SUBS[op]) if t or kw['asc'] == 0 else sorted(SUBS[op])[:2])
                if kw['pv'] == 4 and not t:
                    subs = subs[:4]
            else:
                subs = [0, 1]
            for sub in subs:
                k = dict(kw, op=op, sub=sub)
                if op == 32 and sub == 1:
                    k['dircls'] = 50
                out.append(ev(('operation', 'path'), **k))
    return out


def j_create(t):
    out = []
    for kw in widths(cls=3, op=20):
        for sid in (1, 2, 0, (1, 0), (1, 5), (1, 15), (1, 16)):
            for sub in (0, 3) if t else (0,):
                out.append(ev(PAYLOAD, sub=sub, sid=sid, **kw))
        out.append(ev(PAYLOAD, sub=0, sid=1, extra=0, **kw))
    return out


def j_rw(t):
    return [ev(PAYLOAD, sub=s, extra=e, **kw) for op in (23, 24) for kw in widths(cls=3, op=op) for e in (None, 0)
            for s in ((0, 2) if t else (0,))]


def j_dir(t):
    out = []
    for kw in widths(cls=3, op=32):
        for c in (1, 2, 3, 12, 37, 38, 50, 60, 4, 9) if t or kw['asc'] == 0 else (1, 12, 37, 60):
            out.append(ev(ALL4, sub=1, dircls=c, **kw))
        out.append(ev(ALL4, sub=1, dircls=37, extra=0, **kw))
        out.append(ev(PAYLOAD, sub=1, extra=0, **kw))       # any information class
        out.append(ev(PAYLOAD, sub=2, **kw))
        out.append(ev(PAYLOAD, sub=0, **kw))
    return out


def j_ioctl(t):
    return [ev(PAYLOAD, sub=s, **kw) for op in (33, 34) for kw in widths(cls=3, op=op) for s in ((0, 7) if t else (0,))]


def j_meta(t):
    out = []
    for kw in widths(cls=3):
        for op, sub in ((19, 0), (26, 13), (25, 59), (25, 51), (25, 5), (26, 10), (30, 1), (47, 0), (37, 1), (21, 0), (22, 0)):
            out.append(ev(PAYLOAD, op=op, sub=sub, **kw))
        if t:
            for op in FS_OPS:
                if op not in (20, 23, 24, 32, 33, 34):
                    for sub in sorted(SUBS.get(op, {0: 0})):
                        out.append(ev(PAYLOAD, op=op, sub=sub, **kw))
    return out


def j_reg_open(t):
    return [ev(ALL4, op=op, extra=e, **kw) for op in (0, 1) for e in (None, 0) for kw in widths(cls=2)]


def j_reg_key(t):
    return [ev(ALL4, op=op, extra=e, **kw) for op in (3, 7) for e in (None, 0) for kw in widths(cls=2)]


def j_reg_value(t):
    return [ev(ALL4, op=op, extra=e, **kw) for op in (5, 6) for e in (None, 0) for kw in widths(cls=2)] + [
        ev(ALL4, op=op, regvalue=(kind, room), exact=True, pv=pv, cls=2, asc=1) for pv in (8, 4) for op in (5, 6) for kind, rooms in (
            (4, (0, 1, 2, 3, 4, 6)), (11, (0, 4, 7, 8, 9)), (1, (0, 2, 4)), (2, (0, 6)), (0, (0, 4)), (99, (4,)))
        for room in rooms]


def j_reg_rest(t):
    return [ev(ALL4, op=op, **kw) for op in (2, 4, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17) for kw in widths(cls=2)]


def j_process(t):
    return [ev(ALL4, op=op, **kw) for op in range(0, 10) for kw in pvs(cls=1)]


def j_network(t):
    out = []
    for hosts, ports in ((0, 0), (1, 1), (2, 1), (1, 2)) + (((2, 2), (3, 1)) if t else ()):
        for op in (1, 2) + ((0, 3, 4, 5, 6, 7, 8, 9) if t or (hosts, ports) == (0, 0) else ()):
            out += [ev(ALL4, op=op, hosts=hosts, ports=ports, **kw) for kw in pvs(cls=5)]
    return out


def j_unknown(t):
    """codes that have no name"""
    out = []
    for kw in widths():
        for pv in (kw['pv'],):
            out += [ev(ALL4, cls=3, op=op, sub=s, **kw) for op in sorted(SUBS) for s in (200, 255)]
            out += [ev(ALL4, cls=3, op=32, sub=1, dircls=c, **kw) for c in (0, 99, 0xffffffff)]
            out += [ev(ALL4, cls=3, op=op, sub=0, sid=(2 if op == 20 else None), **kw) for op in (19, 20, 23, 33, 34)]
            out += [ev(ALL4, cls=2, op=op, **kw) for op in (0, 3, 4, 5, 6, 7, 8)]
    return out


def j_dispatch(t):
    """every operation code of every class"""
    out = []
    n = {1: 10, 2: 18, 3: 51, 4: 3, 5: 10}
    for pv in (8, 4):
        for cls in range(0, 8):
            for op in range(0, n.get(cls, 3) + 3):
                out.append(ev(('event_class', 'operation', 'result', 'duration'), pv=pv, cls=cls, op=op,
                              sub=0 if cls == 3 else None, asc=0 if cls in (2, 3) else None, details=False))
            # codes of which only a part looks known
            for op in (0xff, 0x100, 0x101, 0x103, 0x116, 0x117, 0x8001, 0xffff):
                out.append(ev(('event_class', 'operation', 'result', 'duration'), pv=pv, cls=cls, op=op, details=False))
        for cls in (0x7f, 0xff, 0x100, 0x101, 0x203, 0x10001, 0x10003, 0x80000002, 0xffffffff):
            for op in (0, 1, 20):
                out.append(ev(('event_class', 'operation', 'result', 'duration'), pv=pv, cls=cls, op=op, details=False))
    return out


# ---------------------------------------------------------------- further obligations

def event_process(r, pv, nproc):
    """the process of an event is the process table entry its index names"""
    L = Log(pv=pv, S=session(), processes=nproc)
    S = L.S
    r.use(S)
    L.fix_event(1, 4, 1, depth=0, extra=0, proc=None)
    o = L.open()
    o = L.event(1)
    m = L.refcall('ref.pml', 'event_process', L.f, const(1), const(pv))
    mask = or_(unspecified(m), or_(o.dropped, m.dropped))
    x = proc_view(S, o, mask)
    y = slot(S, m, None, mask)
    r.equal('process named by the index', x, y, where_slot(S.it, 'process'))


PROC = ('pid', 'parent_pid', 'authentication_id', 'session', 'start_time', 'end_time', 'virtualized', 'is_process_64bit',
        'integrity', 'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description')


def proc_view(S, o, mask):
    it = S.it
    st = o.state
    v = UNDEF
    if o.value is not None:
        p = it.get_attr(st, o.value, 'process')
        v = tup(it.freeze(st, it.get_attr(st, p, a)) for a in PROC)
        if st.guard is not TRUE:
            v = ite(st.guard, v, UNDEF)
    for g, cls, _ in o.exits:
        v = ite(g, term('raised', ('error',), 'raised'), v)
    return ite(mask, UNDEF, v) if mask is not FALSE else v


def stack_any(r, pv):
    """any number of frames up to the loop bound"""
    L = Log(pv=pv, S=session())
    S = L.S
    r.use(S)
    L.fix_event(1, 4, 1, depth=None)
    L.open()
    o = L.event(1)
    m = L.refevent(1)
    mask = or_(unspecified(m), or_(o.dropped, m.dropped))
    for name in ('stacktrace', 'tid', 'result'):
        r.equal(name, slot(S, o, name, mask), slot(S, m, MODEL[name], mask), where_slot(S.it, name))


def options(r, **ctx):
    """turning an option off changes nothing but what the option is about"""
    L = make(**ctx)
    S = L.S
    r.use(S)
    L.open(None, None)
    o = L.event(1)
    if ctx['depth']:
        L.open(False, None)
        p = L.event(1)
        mask = or_(o.dropped, p.dropped)
        for name, _ in SLOTS:
            if name != 'stacktrace':
                r.equal('without stack traces: ' + name, slot(S, p, name, mask), slot(S, o, name, mask), where_slot(S.it, name))
        r.equal('without stack traces: no frames', slot(S, p, 'stacktrace', mask), slot_empty(S, p, mask))
    L.open(True, None)
    p = L.event(1)
    mask = or_(o.dropped, p.dropped)
    for name, _ in SLOTS:
        r.equal('options on are the default: ' + name, slot(S, p, name, mask), slot(S, o, name, mask), where_slot(S.it, name))
    L.open(None, False)
    p = L.event(1)
    # events whose details cannot be read have no details-on outcome to compare with
    mask = or_(o.dropped, p.dropped)
    for g, _, _ in o.exits:
        mask = or_(mask, g)
    for name in ('tid', 'event_class', 'operation', 'duration', 'date_filetime', 'result', 'stacktrace', 'path'):
        r.equal('without details: ' + name, slot(S, p, name, mask), slot(S, o, name, mask), where_slot(S.it, name))


def slot_empty(S, o, mask):
    v = UNDEF
    if o.value is not None:
        v = term('flist', (), 'list')
        if o.state.guard is not TRUE:
            v = ite(o.state.guard, v, UNDEF)
    for g, cls, _ in o.exits:
        v = ite(g, term('raised', ('error',), 'raised'), v)
    return ite(mask, UNDEF, v) if mask is not FALSE else v


MASKED = [(dict(cls=2, op=0), ('Desired Access', 'Granted Access', 'Disposition')), (dict(cls=2, op=1), ('Desired Access', 'Granted Access', 'Disposition')),
          (dict(cls=3, op=20, sub=0, sid=1), ('Desired Access', 'Disposition', 'Options', 'Attributes', 'ShareMode', 'OpenResult')),
          (dict(cls=3, op=20, sub=0, sid=1, extra=0), ('Desired Access', 'Options', 'Attributes', 'ShareMode')),
          (dict(cls=3, op=23, sub=0), ('I/O Flags', 'Priority')), (dict(cls=3, op=24, sub=0), ('I/O Flags', 'Priority')),
          (dict(cls=3, op=32, sub=2), ('Filter',)), (dict(cls=3, op=19, sub=0), ('SyncType', 'PageProtection'))]


def j_masks(t):
    return [(EV, 'masks', dict(c, keys=keys, pv=pv, asc=asc)) for c, keys in MASKED for pv in (8, 4) for asc in ((0, 1) if t else (0,))]
