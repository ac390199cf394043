"""Obligations about the CSV view of an event."""
from pva.frame import *
from ref import tables as T

ME = 'checks.csvcol'
U32, U64 = (1 << 32) - 1, (1 << 64) - 1


def num(name, hi=U32, lo=0):
    return term('sym', (name,), 'int', lo, hi)


def text(name):
    return term('sym', (name,), 'str')


def build(S, st, cls, operation, details, first='none', virtualized=None, bits=None):
    it = S.it
    mod = S.attr
    proc = dict(pid=num('pid'), parent_pid=num('parent pid'), authentication_id=num('authentication id', U64),
                session=num('session'), virtualized=num('virtualized') if virtualized is None else virtualized,
                is_process_64bit=term('sym', ('64-bit process',), 'bool'),
                integrity=text('integrity'), user=text('user'), process_name=text('process name'),
                image_path=text('image path'), command_line=text('command line'), company=text('company'),
                version=text('version'), description=text('description'))
    proc['is_process_64bit'] = num('64-bit process') if bits == 'num' else bool_of_var(proc['is_process_64bit'])
    p = it.call(st, mod('procmon_parser.logs', 'Process'), [], proc)
    d = it.call(st, mod('ref.probe', 'mapping'), [details], {})
    ec = it.call(st, mod('procmon_parser.consts', 'EventClass'), [const(cls)], {})
    e = it.call(st, mod('procmon_parser.logs', 'Event'), [], dict(
        process=p, tid=num('tid'), event_class=ec, operation=const(operation), duration=num('duration', 10 ** 15),
        date_filetime=num('date', 150000000000000000, 116444736000000000),
        result=num('result'), stacktrace=it.call(st, mod('ref.probe', 'listof'), [tup((num('frame', U64),))], {}),
        category=text('category'), path=text('path'), details=d))
    return e


def run_event(S, fn, cls, operation, details, **kw):
    """one outcome: fn(state, event)"""
    def go(s):
        return fn(s, build(S, s, cls, operation, details, **kw))
    return S.run(S.state(), go)


NAMES = sorted(set(T.TABLE_ColumnToOriginalName.values()))


def columns(r, cls, operation, first, pick, virtualized=None, bits=None):
    S = session()
    r.use(S)
    it = S.it
    det = tup(())
    fv = {'none': NONE, 'given': num('first date', 150000000000000000, 116444736000000000), 'zero': ZERO}[first]
    v = {None: None, 'True': TRUE, 'False': FALSE}[virtualized]

    def code(s, e):
        return it.call(s, it.get_attr(s, e, 'get_compatible_csv_info'), [fv] if first != 'none' else [], {})
    o = run_event(S, code, cls, operation, det, virtualized=v, bits=bits)
    late = FALSE
    if first == 'given':
        late = S.run(S.state(), lambda s: it.call(s, S.attr('ref.probe', 'less'), [
            num('date', 150000000000000000, 116444736000000000), fv], {})).value
    if pick == 'keys':
        st = o.state.fork()
        k = S.run(st, lambda s: it.call(s, S.attr('ref.probe', 'sorted_keys'), [o.value], {}))
        r.equal('the columns of the record', slot(S, k, None), term('flist', tuple((TRUE, const(n)) for n in NAMES), 'list'),
                'Event.get_compatible_csv_info')
        return
    for name in pick:
        st = o.state.fork()
        st.guard = TRUE
        x = S.run(st, lambda s: it.call(s, S.attr('ref.probe', 'entry'), [o.value, const(name)], {}))
        for g, c, a in o.exits:
            x.exits.append((g, c, a))
        y = run_event(S, lambda s, e: it.call(s, S.attr('ref.csv', 'column'), [const(name), e, const(cls), fv], {}), cls, operation, det,
                      virtualized=v, bits=bits)
        mask = or_(or_(x.dropped, y.dropped), late if name == 'Relative Time' else FALSE)
        if o.state is not None and o.state.guard is not TRUE:
            pass
        r.equal('column ' + name, slot(S, x, None, mask), slot(S, y, None, mask), 'Event.get_compatible_csv_info: ' + name)


SHAPES = {
    'load': (1, 'Load_Image', [('Image Base', 'u64'), ('Image Size', 'u32')]),
    'thread exit': (1, 'Thread_Exit', [('Thread ID', 'u32'), ('User Time', 'dur'), ('Kernel Time', 'dur')]),
    'start': (1, 'Process_Start', [('Parent PID', 'u32'), ('Command line', 's'), ('Current directory', 's'), ('Environment', 'list2')]),
    'start none': (1, 'Process_Start', [('Parent PID', 'u32'), ('Command line', 's'), ('Current directory', 's'), ('Environment', 'list0')]),
    'thread': (1, 'Thread_Create', [('Thread ID', 'u32')]),
    'create': (1, 'Process_Create', [('PID', 'u32'), ('Command line', 's')]),
    'nothing': (3, 'CloseFile', []),
    'read': (3, 'ReadFile', [('Offset', 's64'), ('Length', 'u32'), ('I/O Flags', 's'), ('Priority', 's')]),
    'createfile': (3, 'CreateFile', [('Desired Access', 's'), ('Disposition', 's'), ('Options', 's'), ('Attributes', 's'), ('ShareMode', 's'),
                                     ('AllocationSize', 'u32'), ('Impersonating', 's'), ('OpenResult', 's')]),
    'createfile n/a': (3, 'CreateFile', [('Desired Access', 's'), ('AllocationSize', 's'), ('OpenResult', 's')]),
    'directory': (3, 'QueryDirectory', [('Filter', 's'), ('FileInformationClass', 's'), ('1', 's'), ('2', 's')]),
    'control': (3, 'FileSystemControl', [('Control', 's'), ('Offset', 's64'), ('Length', 'u64')]),
    'pipe': (3, 'FileSystemControl', [('Control', 's'), ('WriteLength', 'u32'), ('ReadLength', 'u32')]),
    'delete': (3, 'SetDispositionInformationFile', [('Delete', 's')]),
    'open': (2, 'RegOpenKey', [('Desired Access', 's'), ('Granted Access', 's'), ('Disposition', 's')]),
    'query name': (2, 'RegQueryKey', [('Query', 'Name'), ('Name', 's')]),
    'query basic': (2, 'RegQueryKey', [('Query', 'Basic'), ('LastWriteTime', 'date'), ('TitleIndex', 'u32'), ('Name', 's')]),
    'query any': (2, 'RegQueryKey', [('Query', 's'), ('Name', 's')]),
    'query full': (2, 'RegQueryKey', [('Query', 'Full'), ('LastWriteTime', 'date'), ('TitleIndex', 'u32'), ('ClassOffset', 'u32'),
                                      ('ClassLength', 'u32'), ('SubKeys', 'u32'), ('MaxNameLen', 'u32'), ('MaxClassLen', 'u32'),
                                      ('Values', 'u32'), ('MaxValueNameLen', 'u32'), ('MaxValueDataLen', 'u32')]),
    'query tags': (2, 'RegQueryKey', [('Query', 'HandleTags'), ('HandleTags', 'u32')]),
    'query flags': (2, 'RegQueryKey', [('Query', 'Flags'), ('UserFlags', 'u32')]),
    'query length': (2, 'RegQueryKey', [('Query', 's'), ('Length', 'u32')]),
    'enum key': (2, 'RegEnumKey', [('Index', 'u32'), ('LastWriteTime', 'date'), ('TitleIndex', 'u32'), ('Name', 's')]),
    'enum key length': (2, 'RegEnumKey', [('Index', 'u32'), ('Length', 'u32')]),
    'value sz': (2, 'RegQueryValue', [('Name', 's'), ('Type', 'REG_SZ'), ('Length', 'u32'), ('Data', 's')]),
    'value dword': (2, 'RegQueryValue', [('Type', 'REG_DWORD'), ('Length', 'u32'), ('Data', 'u32')]),
    'value qword': (2, 'RegEnumValue', [('Index', 'u32'), ('Name', 's'), ('Type', 'REG_QWORD'), ('Length', 'u32'), ('Data', 'u64')]),
    'value binary': (2, 'RegQueryValue', [('Type', 'REG_BINARY'), ('Length', 'u32'), ('Data', 'bytes3')]),
    'value binary kilobyte': (2, 'RegQueryValue', [('Type', 'REG_BINARY'), ('Length', 'u32'), ('Data', 'known 1025')]),
    'value binary long': (2, 'RegQueryValue', [('Type', 'REG_BINARY'), ('Length', 'u32'), ('Data', 'known 5000')]),
    'value binary very long': (2, 'RegEnumValue', [('Index', 'u32'), ('Name', 's'), ('Type', 'REG_BINARY'), ('Length', 'u32'), ('Data', 'known 16385')]),
    'value multi many': (2, 'RegQueryValue', [('Type', 'REG_MULTI_SZ'), ('Length', 'u32'), ('Data', 'list70')]),
    'value text long': (2, 'RegQueryValue', [('Name', 's'), ('Type', 'REG_SZ'), ('Length', 'u32'), ('Data', 'text 70000')]),
    'set info never': (2, 'RegSetInfoKey', [('KeySetInformationClass', 's'), ('Length', 'u32'), ('LastWriteTime', 'no date')]),
    'query never': (2, 'RegQueryKey', [('Query', 'Basic'), ('LastWriteTime', 'no date'), ('TitleIndex', 'zero'), ('Name', 'empty')]),
    'value zero': (2, 'RegQueryValue', [('Name', 'empty'), ('Type', 'REG_DWORD'), ('Length', 'zero'), ('Data', 'zero')]),
    'value empty': (2, 'RegSetValue', [('Type', 'REG_SZ'), ('Length', 'zero'), ('Data', 'empty')]),
    'value binary none': (2, 'RegSetValue', [('Type', 'REG_BINARY'), ('Length', 'u32'), ('Data', 'bytes0')]),
    'value multi': (2, 'RegEnumValue', [('Index', 'u32'), ('Name', 's'), ('Type', 'REG_MULTI_SZ'), ('Length', 'u32'), ('Data', 'list2')]),
    'value typed': (2, 'RegQueryValue', [('Type', 's')]),
    'set value': (2, 'RegSetValue', [('Type', 'REG_EXPAND_SZ'), ('Length', 'u32'), ('Data', 's')]),
    'set dword': (2, 'RegSetValue', [('Type', 'REG_DWORD'), ('Length', 'u32'), ('Data', 'u32')]),
    'set multi': (2, 'RegSetValue', [('Type', 'REG_MULTI_SZ'), ('Length', 'u32'), ('Data', 'list1')]),
    'set info time': (2, 'RegSetInfoKey', [('KeySetInformationClass', 's'), ('Length', 'u32'), ('LastWriteTime', 'date')]),
    'set info flags': (2, 'RegSetInfoKey', [('KeySetInformationClass', 's'), ('Length', 'u32'), ('Wow64Flags', 'u32')]),
    'set info tags': (2, 'RegSetInfoKey', [('KeySetInformationClass', 's'), ('Length', 'u32'), ('HandleTags', 'u32')]),
    'load key': (2, 'RegLoadKey', [('Hive Path', 's')]),
    'rename': (2, 'RegRenameKey', [('New Name', 's')]),
    'network': (5, 'TCP Send', [('Length', 'u32'), ('startime', 's'), ('endtime', 's')]),
}


def value(k, kind):
    n = 'detail ' + k
    if kind == 's':
        return text(n)
    if kind in ('u32', 'u64', 'dur', 'date', 's64'):
        lo = {'s64': -(1 << 63), 'date': 116444736000000000}.get(kind, 0)
        return num(n, {'u32': U32, 'u64': U64, 'dur': 10 ** 15, 'date': 150000000000000000, 's64': (1 << 63) - 1}[kind], lo)
    if kind in ('no date', 'zero'):
        return ZERO
    if kind == 'empty':
        return const('')
    if kind.startswith('text '):           # a long text, known
        return const('ab \\x' * (int(kind[5:]) // 5))
    if kind.startswith('known '):          # known bytes, many
        return const(bytes(i * 37 % 256 for i in range(int(kind[6:]))))
    if kind.startswith('list'):
        return ('list', tup(text('%s %d' % (n, i)) for i in range(int(kind[4:]))))
    if kind.startswith('bytes'):
        m = int(kind[5:])
        return mk_slice(root(n), ZERO, const(m)) if m else BEMPTY
    return const(kind)


def detail_pairs(spec):
    out = []
    for k, kind in spec:
        v = value(k, kind)
        out.append(tup((const(k), TRUE if type(v) is tuple else FALSE, v[1] if type(v) is tuple else v)))
    return tup(out)


def detail(r, name):
    cls, operation, spec = SHAPES[name]
    S = session()
    r.use(S)
    it = S.it
    pairs = detail_pairs(spec)

    def code(s, e):
        return it.call(s, S.attr('ref.probe', 'detail_column'), [e], {})
    x = run_event(S, code, cls, operation, pairs)
    y = run_event(S, lambda s, e: it.call(s, S.attr('ref.csv', 'detail'), [e, const(cls)], {}), cls, operation, pairs)
    mask = or_(x.dropped, y.dropped)
    r.equal('Detail of %s' % name, slot(S, x, None, mask), slot(S, y, None, mask), 'Event: Detail column of ' + operation)


def pure(r, name, first):
    """making the record leaves the event, its details and its process as they were, and gives the same record again"""
    cls, operation, spec = SHAPES[name]
    S = session()
    r.use(S)
    it = S.it
    fv = {'none': NONE, 'given': num('first date', 150000000000000000, 116444736000000000)}[first]
    e0 = run_event(S, lambda s, e: e, cls, operation, detail_pairs(spec))
    before = it.freeze(e0.state, e0.value)
    st = e0.state.fork()
    one = S.run(st, lambda s: it.call(s, it.get_attr(s, e0.value, 'get_compatible_csv_info'), [fv], {}))
    if one.value is None:
        r.add('record', 'undecided', 'never returns')
        return
    g = one.state.guard
    after = it.freeze(one.state, e0.value)
    w = '; '.join(sorted({'%s:%d (%s)' % (rel(c[0]), c[1], c[2]) for k, v in it.store_log.items() if k[0] == 'key' for c in v
                          if not os.path.isabs(rel(c[0]))})[:4])
    mask = or_(one.dropped, not_(g))
    m = lambda v: ite(mask, UNDEF, v) if mask is not FALSE else v
    r.equal('event unchanged', m(after), m(before), w)
    rec = it.freeze(one.state, one.value)
    two = S.run(one.state.fork(), lambda s: it.call(s, it.get_attr(s, e0.value, 'get_compatible_csv_info'), [fv], {}))
    if two.value is None:
        r.add('second record', 'undecided', 'never returns')
        return
    mask = or_(mask, or_(two.dropped, not_(two.state.guard)))
    r.equal('same record again', m(it.freeze(two.state, two.value)), m(rec), w)


def j_columns(t):
    out = []
    rest = [n for n in NAMES if n != 'Detail']
    for cls, op in ((1, 'Process_Create'), (1, 'Thread_Exit'), (2, 'RegOpenKey'), (3, 'CreateFile'), (3, 'QueryOpen'),
                    (3, 'SetInformation <Unknown>'), (4, 'Thread_Profiling'), (5, 'TCP Send'), (3, 'A_B'), (3, '<Unknown>'), (3, '<Unknown> x'), (2, '')):
        for first in ('none', 'given', 'zero'):
            for i in range(0, len(rest), 7):
                out.append((ME, 'columns', dict(cls=cls, operation=op, first=first, pick=tuple(rest[i:i + 7]))))
    out.append((ME, 'columns', dict(cls=1, operation='Process_Exit', first='none', pick='keys')))
    for v in ('True', 'False'):
        out.append((ME, 'columns', dict(cls=1, operation='Process_Exit', first='none', pick=('Virtualized',), virtualized=v)))
    out.append((ME, 'columns', dict(cls=1, operation='Process_Exit', first='none', pick=('Architecture', 'PID'), bits='num')))
    return out


def j_detail(t):
    return [(ME, 'detail', dict(name=n)) for n in sorted(SHAPES)]


def j_pure(t):
    return [(ME, 'pure', dict(name=n, first=f)) for n in sorted(SHAPES) for f in ('none', 'given')]
