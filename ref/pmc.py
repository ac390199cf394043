"""Reference model of the configuration format: what a file of records looks like, and what a file says."""
from ref import tables as T


COLUMNS = T.ENUM_Column
RELATIONS = T.ENUM_RuleRelation
ACTIONS = T.ENUM_RuleAction


def u32(v):
    return v.to_bytes(4, 'little')


def u16(v):
    return v.to_bytes(2, 'little')


def zstr(s):
    return s.encode('utf-16-le') + b'\0\0' if s != '' else b''


NUMBERS = ('ColumnCount', 'HighlightFG', 'HighlightBG', 'AdvancedMode', 'Autoscroll', 'HistoryDepth', 'Profiling',
           'DestructiveFilter', 'AlwaysOnTop', 'ResolveAddresses')
FONT = ('height', 'width', 'escapement', 'orientation', 'weight')
FONT8 = ('italic', 'underline', 'strikeout', 'char_set', 'out_precision', 'clip_precision', 'quality', 'pitch_and_family')


def number_of(column, value):
    """the numeric reading of a rule value"""
    if value.isdigit():
        try:
            n = int(value)
        except ValueError:
            n = 0
        if n <= 0xffffffff:
            return n
    if column == 40088:
        return 32 if '32' in value else 64
    return 0


def rule_bytes(rule):
    text = zstr(rule.value)
    return (u32(int(rule.column)) + u32(int(rule.relation)) + bytes([int(rule.action)]) + u32(len(text)) + text +
            u32(number_of(int(rule.column), rule.value)) + u32(0))


def data_bytes(name, data):
    if name in NUMBERS:
        return u32(data)
    if name == 'Columns':
        return b''.join([u16(w) for w in data])
    if name == 'ColumnMap':
        return b''.join([u32(int(c)) for c in data])
    if name == 'DbgHelpPath' or name == 'Logfile':
        return data.encode('utf-16-le') if data != '' else b''
    if name == 'SourcePath' or name == 'SymbolPath':
        return zstr(data)
    if name == 'LogFont' or name == 'BoookmarkFont':
        face = data.face_name.encode('utf-16-le') if data.face_name != '' else b''
        if len(face) > 64:
            raise ValueError(face)
        return (b''.join([u32(getattr(data, a)) for a in FONT]) + bytes([getattr(data, a) for a in FONT8]) +
                face + b'\0' * (64 - len(face)))
    if name == 'FilterRules' or name == 'HighlightRules':
        return b'\1' + u32(len(data)) + b''.join([rule_bytes(r) for r in data])
    return data


def record_bytes(name, data):
    n = zstr(name)
    body = data_bytes(name, data)
    return u32(16 + len(n) + len(body)) + u32(16) + u32(16 + len(n)) + u32(len(body)) + n + body


def dumps(records):
    return b''.join([record_bytes(k, records[k]) for k in records])


# ---------------------------------------------------------------- reading

def padded(data):
    return _pva_nullstrip(data, b'\0\0').decode('utf-16-le')


def le(b):
    return int.from_bytes(b, 'little')


def rules_of(d):
    if d[0:1] != b'\1':
        raise ValueError(d)
    out = []
    p = 5
    for _ in range(le(d[1:5])):
        n = le(d[p + 9:p + 13])
        out.append((COLUMNS[le(d[p:p + 4])], RELATIONS[le(d[p + 4:p + 8])], ACTIONS[le(d[p + 8:p + 9])], padded(d[p + 13:p + 13 + n])))
        p += 13 + n + 8
    return out


def font_of(d):
    out = [le(d[4 * i:4 * i + 4]) for i in range(5)] + [le(d[20 + i:21 + i]) for i in range(8)]
    return tuple(out + [padded(d[28:92])])


def value_of(name, d):
    """what the data of an option means"""
    if name in NUMBERS:
        return le(d[0:4])
    if name == 'Columns':
        return [le(d[2 * i:2 * i + 2]) for i in range(len(d) // 2)]
    if name == 'ColumnMap':
        return [COLUMNS[le(d[4 * i:4 * i + 4])] for i in range(len(d) // 4)]
    if name in ('DbgHelpPath', 'Logfile', 'SourcePath', 'SymbolPath'):
        return padded(d)
    if name == 'LogFont' or name == 'BoookmarkFont':
        return font_of(d)
    if name == 'FilterRules' or name == 'HighlightRules':
        return rules_of(d)
    return d


def record(f, p):
    """(name, value, position behind the record)"""
    size, header, named, n = [le(f[p + 4 * i:p + 4 * i + 4]) for i in range(4)]
    if header != 16:
        raise ValueError(header)
    name = padded(f[p + 16:p + named])
    value = value_of(name, f[p + named:p + named + n])
    if size != named + n:
        raise RuntimeError(size)
    return name, value, p + named + n


def loads(f, count):
    """the (name, value) pairs of the first count records"""
    out = {}
    p = 0
    for _ in range(count):
        name, value, p = record(f, p)
        out[name] = value
    return [(k, out[k]) for k in out]


DEFAULTS = ('ARCHITECTURE', 'IS', 'INCLUDE', '64-bit')


def rule_from(part, table, given):
    """view of the rule that has the named part given and the rest by default"""
    name = None
    if isinstance(given, str):
        for code in table:
            if table[code] == given.upper():
                name = table[code]
    elif given in table:
        name = table[given]
    if name is None:
        raise ValueError(given)
    return (name if part == 'column' else DEFAULTS[0], name if part == 'relation' else DEFAULTS[1],
            name if part == 'action' else DEFAULTS[2], DEFAULTS[3])
