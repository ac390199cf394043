"""Obligations about configurations: what is written, what is read, and the rules in them."""
from pva.frame import *
from checks.csvcol import num, text
from ref import tables as T

ME = 'checks.pmc'
NUMBERS = ('ColumnCount', 'HighlightFG', 'HighlightBG', 'AdvancedMode', 'Autoscroll', 'HistoryDepth', 'Profiling',
           'DestructiveFilter', 'AlwaysOnTop', 'ResolveAddresses')
TEXTS = ('DbgHelpPath', 'Logfile', 'SourcePath', 'SymbolPath')
RULES = ('FilterRules', 'HighlightRules')
FONTS = ('LogFont', 'BoookmarkFont')
KNOWN = NUMBERS + TEXTS + RULES + FONTS + ('Columns', 'ColumnMap')
FIELDS = ('height', 'width', 'escapement', 'orientation', 'weight')
FIELDS8 = ('italic', 'underline', 'strikeout', 'char_set', 'out_precision', 'clip_precision', 'quality', 'pitch_and_family')
WIDEST = (1 << 32) - 4096        # longest data of which record sizes are still numbers of four bytes
OTHER = ('Other', 'highlightfg', 'X', 'Columns2')
NAMELESS = ('',)


def blob(name):
    return term('sym', (name,), 'bytes')


# ---------------------------------------------------------------- values of options

def listof(S, st, items):
    return S.it.call(st, S.attr('ref.probe', 'listof'), [tup(items)], {})


def rule(S, st, tag, part):
    """a rule with any text, and any of the named part"""
    it = S.it
    mod = 'procmon_parser.configuration'
    c = it.call(st, S.attr(mod, 'Column'), [num('column ' + tag) if part == 'column' else const(40052)], {})
    r = it.call(st, S.attr(mod, 'RuleRelation'), [num('relation ' + tag) if part == 'relation' else const(6)], {})
    a = it.call(st, S.attr(mod, 'RuleAction'), [num('action ' + tag) if part == 'action' else ZERO], {})
    return it.call(st, S.attr(mod, 'Rule'), [c, r, text('value ' + tag), a], {})


def font(S, st):
    kw = {f: num(f) for f in FIELDS}
    kw.update({f: num(f, 255) for f in FIELDS8})
    kw['face_name'] = text('face name')
    return S.it.call(st, S.attr('procmon_parser.configuration', 'Font'), [], kw)


def value(S, st, name, n, tag='', part='column'):
    """a symbolic value of the option; n: length of lists; part: what varies in rules"""
    if name in NUMBERS:
        return num('number' + tag, 1 << 32, -1)
    if name in TEXTS:
        return text('text' + tag)
    if name in FONTS:
        return font(S, st)
    if name == 'Columns':
        return listof(S, st, [num('width %d%s' % (i, tag), 65536, -1) for i in range(n)])
    if name == 'ColumnMap':
        return listof(S, st, [S.it.call(st, S.attr('procmon_parser.configuration', 'Column'), [num('column %d%s' % (i, tag))], {})
                              for i in range(n)])
    if name in RULES:
        return listof(S, st, [rule(S, st, '%d%s' % (i, tag), part) for i in range(n)])
    return blob('data' + tag)


def config(S, st, names, n, part='column'):
    """names: option names, or symbolic ones"""
    items = []
    for i, k in enumerate(names):
        items.append(tup((const(k) if isinstance(k, str) else k, FALSE, value(S, st, k, n, '' if i == 0 else ' %d' % i, part))))
    return S.it.call(st, S.attr('ref.probe', 'mapping'), [tup(items)], {})


def run(S, go):
    return S.run(S.state(), go)


def both(r, ob, S, x, y, where, also=FALSE):
    """y's failures to build its argument are shared; the rest must agree"""
    mask = or_(or_(x.dropped, y.dropped), also)
    r.equal(ob, slot(S, x, None, mask), slot(S, y, None, mask), where)


PUB = 'procmon_parser'
DUMPS = 'configuration_format.py: dump_configuration and the structs it uses'
LOADS = 'configuration_format.py: load_configuration and the structs it uses'


def build(r, names, n, part='column'):
    """the bytes written for these options"""
    S = session()
    r.use(S)
    x = run(S, lambda s: S.it.call(s, S.attr(PUB, 'dumps_configuration'), [config(S, s, names, n, part)], {}))
    y = run(S, lambda s: S.it.call(s, S.attr('ref.pmc', 'dumps'), [config(S, s, names, n, part)], {}))
    both(r, 'bytes written', S, x, y, DUMPS)


# ---------------------------------------------------------------- files

def le4(v):
    if isinstance(v, int):
        return const(v.to_bytes(4, 'little'))
    return const(v.v.to_bytes(4, 'little')) if type(v) is C else term('packle', (v, 4, False), 'bytes')


def zs(n):
    return n.encode('utf-16-le') + b'\0\0'


def rec(name, d, n, size=None, header=16, named=None, data=None):
    """parts of a record whose data d has n bytes"""
    nm = zs(name) if name else b''
    nh = 16 + len(nm)
    n = const(n) if isinstance(n, int) else n
    return [le4(padd(n, const(nh)) if size is None else size), le4(header), le4(nh if named is None else named),
            le4(n if data is None else data), const(nm), d]


def rule_data(tag, n):
    """bytes of a rule list of n rules with symbolic contents, and their length"""
    parts = [const(b'\1' + n.to_bytes(4, 'little'))]
    total = const(5)
    for i in range(n):
        d = root('rule %d%s' % (i, tag))
        k = num('length of value %d%s' % (i, tag), 4096)
        parts += [mk_slice(d, ZERO, const(9)), le4(k), mk_slice(root('text %d%s' % (i, tag)), ZERO, k), mk_slice(d, const(9), const(8))]
        total = padd(padd(total, k), const(21))
    return bcat(parts), total


def data(name, n, tag=''):
    """symbolic data of an option and its length"""
    d = root('data' + tag)
    if name in RULES:
        return rule_data(tag, n)
    if name in NUMBERS:
        k = const(4)
    elif name in FONTS:
        k = const(92)
    elif name == 'Columns':
        k = const(2 * n)
    elif name == 'ColumnMap':
        k = const(4 * n)
    else:
        k = num('data length' + tag, WIDEST)
    return mk_slice(d, ZERO, k), k


def file_of(names, n):
    parts = []
    for i, k in enumerate(names):
        d, ln = data(k, n, '' if i == 0 else ' %d' % i)
        parts += rec(k, d, ln)
    return bcat(parts)


def loaded(S, s, f, form='loads', lead=None):
    if form == 'loads':
        c = S.it.call(s, S.attr(PUB, 'loads_configuration'), [f], {})
    else:
        st = S.it.call(s, S.attr('ref.probe', 'stream_at'), [f, const(lead or 0)], {})
        c = S.it.call(s, S.attr(PUB, 'load_configuration'), [st], {})
    return S.it.call(s, S.attr('ref.probe', 'config_view'), [c], {})


def parse(r, names, n):
    S = session()
    r.use(S)
    f = file_of(names, n)
    x = run(S, lambda s: loaded(S, s, f))
    y = run(S, lambda s: S.it.call(s, S.attr('ref.pmc', 'loads'), [f, const(len(names))], {}))
    mask = FALSE
    if 'ColumnMap' in names:        # columns without a name: not decided what they mean
        for g, c, _ in y.exits:
            if c == 'KeyError':
                mask = or_(mask, g)
    both(r, 'options read', S, x, y, LOADS, mask)


def trip(r, names, n, part='column'):
    """what was written is read back"""
    S = session()
    r.use(S)

    def there(s):
        c = config(S, s, names, n, part)
        b = S.it.call(s, S.attr(PUB, 'dumps_configuration'), [c], {})
        return loaded(S, s, b)
    x = run(S, there)
    y = run(S, lambda s: S.it.call(s, S.attr('ref.probe', 'config_view'), [config(S, s, names, n, part)], {}))
    mask = FALSE                     # values that cannot be written
    for g, _, _ in x.exits:
        mask = or_(mask, g)
    m = run(S, lambda s: S.it.call(s, S.attr('ref.pmc', 'dumps'), [config(S, s, names, n, part)], {}))
    ok = TRUE
    for g, _, _ in m.exits:
        ok = and_(ok, not_(g))
    r.equal('everything the format can hold is read back', ite(and_(mask, ok), const('refused'), const('')), const(''), DUMPS)
    both(r, 'options read back', S, x, y, 'configuration_format.py: the structs of the record', mask)


def sizes(r, name, n, field, wrong=None):
    """records whose size fields contradict each other"""
    S = session()
    r.use(S)
    d, ln = data(name, n)
    good = const(16) if field == 'header size' else padd(ln, const(16 + len(zs(name))))
    if field == 'header size':
        v = const(wrong)
    else:
        v = num('stored ' + field)
    f = bcat(rec(name, d, ln, **{{'record size': 'size', 'header size': 'header', 'data size': 'data'}[field]: v}))
    x = run(S, lambda s: loaded(S, s, f))
    if field == 'data size':
        good = ln
    y = run(S, lambda s: loaded(S, s, bcat(rec(name, d, ln))))
    bad = not_(eq_num(v, good))
    mask = or_(x.dropped, y.dropped)
    for g, _, _ in y.exits:
        mask = or_(mask, g)
    a = slot(S, x, None, mask)
    b = ite(bad, term('raised', ('error',), 'raised'), slot(S, y, None))
    r.equal('contradicting %s is refused' % field, a, ite(mask, UNDEF, b) if mask is not FALSE else b, LOADS)


def eq_num(a, b):
    from pva import ops
    return ops.eq(a, b)


def other(r, name, size=None):
    """an option nobody knows"""
    S = session()
    r.use(S)
    if size is None:
        ln = num('data length', WIDEST)
        d = mk_slice(root('data'), ZERO, ln)
    else:
        ln = const(size + 48)
        d = bcat([mk_slice(root('data'), ZERO, const(size)), const(b'\0' * 48)])
    f = bcat(rec(name, d, ln))
    x = run(S, lambda s: loaded(S, s, f))
    r.equal('read as its bytes', slot(S, x, None), term('flist', ((TRUE, tup((const(name), d))),), 'list'), LOADS)

    def back(s):
        c = S.it.call(s, S.attr(PUB, 'loads_configuration'), [f], {})
        return S.it.call(s, S.attr(PUB, 'dumps_configuration'), [c], {})
    z = run(S, back)
    r.equal('written back as it was read', slot(S, z, None), f, DUMPS)


def fonts(r, name):
    """every field of a font, one by one"""
    S = session()
    r.use(S)
    d = root('data')
    f = bcat(rec(name, mk_slice(d, ZERO, const(92)), 92))

    def at(s, i):
        c = S.it.call(s, S.attr(PUB, 'loads_configuration'), [f], {})
        v = S.it.getitem(s, c, const(name))
        return S.it.get_attr(s, v, i)
    off = 0
    for k in FIELDS + FIELDS8:
        w = 4 if k in FIELDS else 1
        x = run(S, lambda s: at(s, k))
        y = run(S, lambda s: S.it.call(s, S.attr('ref.pmc', 'le'), [mk_slice(d, const(off), const(w))], {}))
        skip = FALSE
        for g, _, _ in x.exits:      # a face name that is no text
            skip = or_(skip, g)
        both(r, '%s read' % k, S, x, y, LOADS, skip)
        off += w
    x = run(S, lambda s: at(s, 'face_name'))
    y = run(S, lambda s: S.it.call(s, S.attr('ref.pmc', 'padded'), [mk_slice(d, const(28), const(64))], {}))
    both(r, 'face_name read', S, x, y, LOADS)
    start = 16 + len(zs(name))
    z = run(S, lambda s: S.it.call(s, S.attr(PUB, 'dumps_configuration'), [config(S, s, (name,), 0)], {}))
    m = run(S, lambda s: S.it.call(s, S.attr('ref.pmc', 'dumps'), [config(S, s, (name,), 0)], {}))
    off = start
    for k in FIELDS + FIELDS8 + ('face_name',):
        w = 4 if k in FIELDS else 1 if k in FIELDS8 else 64
        part = lambda o: o if o.value is None else S.run(
            o.state.fork(), lambda s: S.it.call(s, S.attr('ref.probe', 'window'), [o.value, const(off), const(w)], {}))
        both(r, '%s written' % k, S, part(z), part(m), DUMPS)
        off += w


WIDTH = dict({f: 1 for f in FIELDS8}, Columns=2)


def types(r, name, kind, what=None):
    """values of another kind are refused"""
    S = session()
    r.use(S)
    st = S.state()

    def ranged(s, how):
        lo, hi = (-(1 << 40), -1) if how == 'below' else (256 ** WIDTH.get(what or name, 4), 1 << 40)
        return num('number', hi, lo)

    def val(s):
        if kind in ('below', 'above'):
            if name in FONTS:
                v = font(S, s)
                S.it.set_attr(s, v, what, ranged(s, kind))
                return v
            return listof(S, s, [ranged(s, kind)]) if name == 'Columns' else ranged(s, kind)
        if name in FONTS and what:
            v = font(S, s)
            S.it.set_attr(s, v, what, {'none': NONE, 'text': text('text'), 'number': num('number'), 'bytes': blob('bytes')}[kind])
            return v
        return {'none': lambda: NONE, 'number': lambda: num('number'), 'text': lambda: text('text'), 'bytes': lambda: blob('bytes'),
                'list': lambda: listof(S, s, [text('text')]), 'tuple': lambda: tup((num('number'), text('text')))}[kind]()
    x = run(S, lambda s: S.it.call(s, S.attr(PUB, 'dumps_configuration'), [S.it.call(s, S.attr('ref.probe', 'mapping'), [
        tup((tup((const(name), FALSE, val(s))),))], {})], {}))
    empty = FALSE
    if kind in ('text', 'bytes'):    # nothing there
        empty = FALSE
    r.equal('%s for %s' % (kind, name + (what and ' ' + what or '')), slot(S, x, None, or_(x.dropped, empty)),
            ite(or_(x.dropped, empty), UNDEF, term('raised', ('error',), 'raised')), DUMPS)


def forms(r, names, n, part='column'):
    """streams and bytes"""
    S = session()
    r.use(S)
    f = file_of(names, n)
    x = run(S, lambda s: loaded(S, s, f))
    for lead in (0, 7):
        g = bcat([const(b'\xee' * lead), f])
        z = run(S, lambda s: loaded(S, s, g, 'load', lead))
        both(r, 'load from a stream at %d' % lead, S, z, x, LOADS)
    y = run(S, lambda s: S.it.call(s, S.attr(PUB, 'dumps_configuration'), [config(S, s, names, n, part)], {}))
    for lead in (b'', b'earlier'):
        def dumped(s):
            c = config(S, s, names, n, part)
            return S.it.call(s, S.attr('ref.probe', 'dumped'), [S.attr(PUB, 'dump_configuration'), c, const(lead)], {})
        z = run(S, dumped)
        e = FALSE
        for g, _, _ in y.exits:
            e = or_(e, g)
        both(r, 'dump to a stream holding %d bytes' % len(lead), S, z, y, DUMPS)


# ---------------------------------------------------------------- rules

PARTS = {'column': ('ENUM_Column', 'Column'), 'relation': ('ENUM_RuleRelation', 'RuleRelation'), 'action': ('ENUM_RuleAction', 'RuleAction')}


def rules(r, part, kind):
    """how one part of a rule may be given"""
    S = session()
    r.use(S)
    table, enum = PARTS[part]

    def made(s, v):
        o = S.it.call(s, S.attr('procmon_parser.configuration', 'Rule'), [], {part: v})
        return S.it.call(s, S.attr('ref.probe', 'rule_view'), [o], {})

    def want(s, v):
        return S.it.call(s, S.attr('ref.pmc', 'rule_from'), [const(part), S.attr('ref.tables', table), v], {})
    if kind == 'member':
        for code in getattr(T, table):
            x = run(S, lambda s: made(s, S.it.call(s, S.attr('procmon_parser.configuration', enum), [const(code)], {})))
            y = run(S, lambda s: want(s, const(code)))
            both(r, 'member %d' % code, S, x, y, 'Rule.__init__')
        return
    v = {'code': lambda: num('code'), 'name': lambda: text('name'), 'none': lambda: NONE, 'bytes': lambda: blob('bytes'),
         'tuple': lambda: tup((ZERO,))}[kind]()
    if kind == 'name':
        for name in getattr(T, table).values():
            for form in (name, name.lower(), name.capitalize(), name.swapcase(), name[:1] + name[1:].lower()):
                x = run(S, lambda s: made(s, const(form)))
                y = run(S, lambda s: want(s, const(name)))
                both(r, 'name %s' % form, S, x, y, 'Rule.__init__')
        for form in ('', 'nonsense', ' PID', 'IS ', 'PID.'):
            x = run(S, lambda s: made(s, const(form)))
            r.equal('name %r' % form, slot(S, x, None), term('raised', ('error',), 'raised'), 'Rule.__init__')
    x = run(S, lambda s: made(s, v))
    if kind in ('code', 'name'):
        y = run(S, lambda s: want(s, v))
        both(r, 'any %s' % kind, S, x, y, 'Rule.__init__')
    else:
        r.equal('%s refused' % kind, slot(S, x, None), term('raised', ('error',), 'raised'), 'Rule.__init__')


def rule_value(r, kind):
    S = session()
    r.use(S)
    v = {'text': lambda: text('value'), 'number': lambda: num('value'), 'none': lambda: NONE, 'bytes': lambda: blob('value'),
         'tuple': lambda: tup((text('value'),))}[kind]()

    def made(s):
        o = S.it.call(s, S.attr('procmon_parser.configuration', 'Rule'), [], {'value': v})
        return S.it.call(s, S.attr('ref.probe', 'rule_view'), [o], {})
    x = run(S, made)
    want = tup((const('ARCHITECTURE'), const('IS'), const('INCLUDE'), v)) if kind == 'text' else term('raised', ('error',), 'raised')
    r.equal('value given as %s' % kind, slot(S, x, None), want, 'Rule.__init__')


# ---------------------------------------------------------------- jobs

def lengths(name, t):
    if name == 'Columns':
        return (0, 1, 2, 3) + ((5, 27) if t else ())
    if name == 'ColumnMap':
        return (0, 1, 2) + ((3,) if t else ())
    if name in RULES:
        return (0, 1, 2) + ((3,) if t else ())
    return (0,)


MIXES = (('HighlightFG', 'Other'), ('Columns', 'ColumnCount', 'DbgHelpPath'), ('SymbolPath', 'Logfile'), ('FilterRules', 'HighlightRules'),
         ('LogFont', 'HighlightBG'), ('Other', 'FilterRules', 'Autoscroll'))


def over(fn, t, names=KNOWN + OTHER, mixes=MIXES, me=ME):
    out = []
    for k in names:
        for n in lengths(k, t):
            out.append((me, fn, dict(names=(k,), n=n)))
            if k in RULES and n and fn != 'parse':
                out += [(me, fn, dict(names=(k,), n=n, part=p)) for p in ('relation', 'action')]
    return out + [(me, fn, dict(names=m, n=1)) for m in mixes]


def j_build(t):
    return over('build', t)


def j_parse(t):
    return over('parse', t, mixes=MIXES + (('HighlightFG', 'Other', 'HighlightFG'),) + tuple((k, 'Profiling') for k in KNOWN + ('Other',))) + [(ME, 'parse', dict(names=(), n=0))] + [
        (ME, 'parse', dict(names=n, n=1)) for n in (NAMELESS, NAMELESS + ('HighlightFG',), ('Other',) + NAMELESS + ('Columns',))]


def j_trip(t):
    return over('trip', t) + [(ME, 'trip', dict(names=(), n=0))]


def j_sizes(t):
    out = [(ME, 'sizes', dict(name=k, n=1, field='record size')) for k in KNOWN + OTHER]
    out += [(ME, 'sizes', dict(name=k, n=1, field='data size')) for k in NUMBERS + FONTS + RULES]
    return out + [(ME, 'sizes', dict(name=k, n=1, field='header size', wrong=w)) for k in KNOWN + OTHER
                  for w in ((0, 15, 17, 32) if not t else (0, 1, 4, 8, 12, 14, 15, 17, 18, 20, 32, 255, 65536, 0xffffffff))]


def j_unknown(t):
    return [(ME, 'other', dict(name=k)) for k in OTHER + ('Font', 'columns', 'FilterRules2', 'Z' * 40)] + [
        (ME, 'other', dict(name='Other', size=n)) for n in (0xff, 0xfff, 0x7fff, 0xffff)]


def j_font(t):
    return [(ME, 'fonts', dict(name=k)) for k in FONTS]


def j_types(t):
    out = []
    for k in KNOWN:
        kinds = {'none', 'number', 'text', 'bytes', 'list', 'tuple'}
        if k in NUMBERS:
            kinds -= {'number'}
        elif k in TEXTS:
            kinds -= {'text'}
        elif k in RULES or k in ('Columns', 'ColumnMap'):
            kinds = {'none', 'number'} | ({'list'} if k != 'ColumnMap' else set())
        for kind in sorted(kinds):
            out.append((ME, 'types', dict(name=k, kind=kind)))
        if k in NUMBERS or k == 'Columns':
            out += [(ME, 'types', dict(name=k, kind=w)) for w in ('below', 'above')]
        if k in FONTS:
            for f in FIELDS + FIELDS8:
                out += [(ME, 'types', dict(name=k, kind=w, what=f)) for w in ('below', 'above', 'none', 'text', 'bytes')]
            out += [(ME, 'types', dict(name=k, kind=w, what='face_name')) for w in ('none', 'number', 'bytes')]
    return out


def j_forms(t):
    return over('forms', t, names=('HighlightFG', 'SourcePath', 'FilterRules', 'Columns', 'Other', 'LogFont'))


def j_rules(t):
    out = [(ME, 'rules', dict(part=p, kind=k)) for p in PARTS for k in ('member', 'code', 'name', 'none', 'bytes', 'tuple')]
    return out + [(ME, 'rule_value', dict(kind=k)) for k in ('text', 'number', 'none', 'bytes', 'tuple')]
