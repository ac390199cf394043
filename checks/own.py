"""Obligations about what the caller owns: results, configurations, streams; and the text forms of records."""
from pva.frame import *
from checks import container as CT
from checks import objects as OBJ
from checks import pmc as PM
from checks.csvcol import num, text

ME = 'checks.own'
PR = 'ref.probe'
LOGS, CONF, PUB = 'procmon_parser.logs', 'procmon_parser.configuration', 'procmon_parser'


def failing(*outs):
    bad = FALSE
    for o in outs:
        bad = or_(bad, o.dropped)
        for g, _, _ in o.exits:
            bad = or_(bad, g)
    return bad


def results(r, pv, names, depth=1, stack=None, details=None):
    """what the caller does to what it was handed never shows in later results"""
    L = CT.shaped(pv, names, depth, modules=1, strings=2)
    S = L.S
    r.use(S)
    o = L.open(stack, details)
    o.state = o.state.fork()
    o.state.guard = TRUE
    w = 'reader: shared state written by %s' % ', '.join(CT.shared(S.it)[:6])
    fresh = [CT.on(S, o, 'read', const(k)) for k in range(len(names))]
    bad = failing(*fresh)
    for k in range(len(names)):
        CT.cmp(r, S, 'event %d again, its first copy changed' % k, CT.on(S, o, 'again_spoiled', const(k)), fresh[k], w, bad)
    every = CT.on(S, o, 'loop')
    bad = or_(bad, failing(every))
    CT.cmp(r, S, 'slice again, the first copies changed', CT.on(S, o, 'slices_spoiled'), every, w, bad)
    procs = CT.on(S, o, 'processes')
    CT.cmp(r, S, 'processes again, the list changed', CT.on(S, o, 'listed_spoiled'), procs, w, failing(procs))
    summ = CT.on(S, o, 'summary')
    CT.cmp(r, S, 'system details again, the mapping changed', CT.on(S, o, 'summary_spoiled'), summ, w, failing(summ))
    refused = failing(L.opened)

    def second(name):
        st = o.state.fork()
        st.guard = TRUE

        def go(s):
            kw = {k: TRUE if v else FALSE for k, v in (('should_get_stacktrace', stack), ('should_get_details', details)) if v is not None}
            rd = S.it.call(s, S.attr(PUB, 'ProcmonLogsReader'), [S.bytesio(s, L.f)], kw)
            return S.it.call(s, S.attr(PR, name), [o.value, rd], {})
        return S.run(st, go)
    CT.cmp(r, S, "another reader's events, these changed", second('other_events'), every, w, or_(bad, refused))
    CT.cmp(r, S, "another reader's processes, these changed", second('other_processes'), procs, w, or_(failing(procs), refused))


def configs(r, names, n):
    """loading again gives what the file holds, whatever was done to the first result"""
    S = session()
    r.use(S)
    f = PM.file_of(names, n)
    x = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'loaded_spoiled'), [S.attr(PUB, 'loads_configuration'), f], {}))
    y = PM.run(S, lambda s: PM.loaded(S, s, f))
    PM.both(r, 'loaded again, the first result changed', S, x, y, PM.LOADS)


def defaults(r, kind):
    mod, fields = OBJ.KINDS[kind] if kind in OBJ.KINDS else (CONF, [(k, '') for k in PM.FIELDS + PM.FIELDS8 + ('face_name',)])
    S = session()
    r.use(S)
    names = tup([const(f) for f, _ in fields])
    x = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'default_spoiled'), [S.attr(mod, kind), names], {}))
    y = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'default'), [S.attr(mod, kind), names], {}))
    PM.both(r, '%s made without arguments, another one changed' % kind, S, x, y, '%s.__init__' % kind)


def writing(r, names, n, part='column'):
    """writing changes nothing and can be repeated"""
    S = session()
    r.use(S)
    D = S.attr(PUB, 'dumps_configuration')
    made = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'config_view'), [PM.config(S, s, names, n, part)], {}))
    once = PM.run(S, lambda s: S.it.call(s, D, [PM.config(S, s, names, n, part)], {}))
    bad = failing(once)
    x = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'written_then'), [D, PM.config(S, s, names, n, part)], {}))
    PM.both(r, 'configuration after it was written', S, x, made, PM.DUMPS, bad)
    x = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'written_twice'), [D, PM.config(S, s, names, n, part)], {}))
    PM.both(r, 'bytes written the second time', S, x, once, PM.DUMPS, bad)


def stream_ok(r, ob, st, ref, content=None):
    a = st.get(ref.oid).attrs
    r.equal('%s: stream left open' % ob, ite(st.guard, a.get('closed', FALSE), FALSE), FALSE, ob)
    if content is not None:
        r.equal('%s: stream contents kept' % ob, ite(st.guard, a['content'], content), content, ob)


def streams(r, pv, names):
    """a reader only reads the stream it was given"""
    L = CT.shaped(pv, names)
    S = L.S
    r.use(S)
    st = S.state()
    io = S.bytesio(st, L.f)
    o = S.run(st, lambda s: S.it.call(s, S.attr(PUB, 'ProcmonLogsReader'), [io], {}))
    if o.value is None:
        r.add('reader is constructed', 'undecided', 'no analysed path constructs a reader')
        return
    for s in o.exit_states:
        if io.oid in s.heap or io.oid in s.base:
            stream_ok(r, 'ProcmonLogsReader (refusing)', s, io, L.f)
    stream_ok(r, 'ProcmonLogsReader', o.state, io, L.f)
    o.state = o.state.fork()
    o.state.guard = TRUE
    for name, args in (('loop', ()), ('read_slice', (NONE, NONE, const(-1))), ('processes', ()), ('summary', ()), ('length', ())):
        x = CT.on(S, o, name, *args)
        if x.value is not None:
            stream_ok(r, name, x.state, io, L.f)
        for s in x.exit_states:
            stream_ok(r, name + ' (failing)', s, io, L.f)
    # the reader is no longer needed
    st = o.state.fork()
    for oid in list(st.heap) + [k for k in st.base if k not in st.heap]:
        rec = st.get(oid)
        if isinstance(rec.cls, ClassV) and S.it.find_user_method(rec.cls, '__del__', st) is not None:
            x = S.run(st, lambda s: S.it.call_method(s, ref(oid), '__del__', []))
            for s in ([x.state] if x.value is not None else []) + list(x.exit_states):
                stream_ok(r, 'reader dropped', s, io, L.f)


def config_streams(r, names, n, part='column'):
    """the configuration functions leave the stream open"""
    S = session()
    r.use(S)
    f = PM.file_of(names, n)
    st = S.state()
    io = S.bytesio(st, f)
    o = S.run(st, lambda s: S.it.call(s, S.attr(PUB, 'load_configuration'), [io], {}))
    for s in ([o.state] if o.value is not None else []) + list(o.exit_states):
        stream_ok(r, 'load_configuration', s, io, f)
    st = S.state()
    io2 = S.bytesio(st, BEMPTY)
    o = S.run(st, lambda s: S.it.call(s, S.attr(PUB, 'dump_configuration'), [PM.config(S, s, names, n, part), io2], {}))
    for s in ([o.state] if o.value is not None else []) + list(o.exit_states):
        stream_ok(r, 'dump_configuration', s, io2)


def refused_streams(r, name, n, field):
    """a configuration that is refused leaves the stream open all the same"""
    S = session()
    r.use(S)
    d, ln = PM.data(name, n)
    v = num('stored ' + field) if field != 'header size' else const(20)
    f = bcat(PM.rec(name, d, ln, **{{'record size': 'size', 'header size': 'header', 'data size': 'data'}[field]: v}))
    st = S.state()
    io = S.bytesio(st, f)
    o = S.run(st, lambda s: S.it.call(s, S.attr(PUB, 'load_configuration'), [io], {}))
    for s in ([o.state] if o.value is not None else []) + list(o.exit_states):
        stream_ok(r, 'load_configuration, %s that may be wrong' % field, s, io, f)


def spelled(r, kind, how):
    S = session()
    r.use(S)
    where = '%s.__%s__' % (kind, how)

    def made(s):
        o = OBJ.object_(S, s, kind)
        return o
    x = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'spell'), [made(s), const(how)], {}))
    y = PM.run(S, lambda s: S.it.call(s, S.attr(PR, 'spell_model'), [made(s), const(kind), const(how)], {}))
    PM.both(r, '%s of %s' % (how, kind), S, x, y, where)


# ---------------------------------------------------------------- contexts

MIX = (('thread',), ('regset', 'profiling'), ('read', 'start'), ('dir',), ('create', 'net'))


def j_results(t):
    out = [(ME, 'results', dict(pv=pv, names=m)) for pv in (8, 4) for m in (MIX if not t else MIX + tuple((n,) for n in sorted(CT.SHAPES)))]
    for pv in (8, 4):
        out += [(ME, 'results', dict(pv=pv, names=m, **k)) for m in (('thread', 'regset'), ('read', 'start'), ('odd profiling', 'profiling'))
                for k in (dict(depth=0), dict(stack=False), dict(details=False))]
        out += [(ME, 'results', dict(pv=pv, names=m)) for m in (('setinfo',), ('notify',), ('ioctl', 'map'), ('regquery', 'regkey'))]
    for names in (('HighlightFG',), ('SourcePath',), ('FilterRules',), ('HighlightRules',), ('LogFont',), ('BoookmarkFont',), ('Columns',), ('ColumnMap',), ('Other',),
                  ('Columns', 'HighlightFG')):
        for n in (0, 1, 2) if names[0] in PM.RULES + ('Columns', 'ColumnMap') else (1,):
            out.append((ME, 'configs', dict(names=names, n=n)))
    return out + [(ME, 'defaults', dict(kind=k)) for k in ('Rule', 'Module', 'Process', 'Font')]


def j_writing(t):
    return PM.over('writing', t, names=PM.KNOWN + ('Other',), me=ME)


def j_streams(t):
    out = [(ME, 'streams', dict(pv=pv, names=m)) for pv in (8, 4) for m in MIX]
    out += [(ME, 'refused_streams', dict(name=m, n=1, field=f)) for m in ('HighlightFG', 'SourcePath', 'FilterRules', 'Columns', 'LogFont')
            for f in ('record size', 'header size', 'data size') if f != 'data size' or m not in ('SourcePath', 'Columns')]
    return out + PM.over('config_streams', t, names=('HighlightFG', 'SourcePath', 'FilterRules', 'Columns', 'ColumnMap', 'LogFont', 'Other'), me=ME)


def j_spelled(t):
    return [(ME, 'spelled', dict(kind=k, how=h)) for k in ('Rule', 'Module', 'Process', 'Event') for h in ('str', 'repr')]
