"""Observations of the library's objects, and what the model says they must be."""
import io
from ref.base import *
from ref import pml
from ref.csv import moment, time_of_day

HEADER = ('version', 'is_64bit', 'computer_name', 'system_root', 'number_of_events', 'events_offset',
          'events_offsets_array_offset', 'process_table_offset', 'strings_table_offset', 'icon_table_offset',
          'windows_major_number', 'windows_minor_number', 'windows_build_number',
          'windows_build_number_after_decimal_point', 'service_pack_name', 'number_of_logical_processors',
          'ram_memory_size', 'header_size', 'hosts_and_ports_tables_offset')
MODULE = ('base_address', 'size', 'path', 'version', 'company', 'description', 'timestamp')


def module_view(m):
    return tuple([getattr(m, a) for a in MODULE])


def process_view(p):
    return tuple([getattr(p, a) for a in pml.PROC] + [[module_view(m) for m in p.modules]])


def processes(reader):
    return [process_view(p) for p in reader.processes()]


def model_processes(f, pv):
    out = []
    for _, p in pml.processes(f, pv):
        mods = [tuple([m[a] for a in MODULE]) for m in p['modules']]
        out.append(tuple([p[a] for a in pml.PROC] + [mods]))
    return out


OS_NAMES = {(6, 0): 'Windows Vista', (6, 1): 'Windows 7', (6, 2): 'Windows 8', (6, 3): 'Windows 8.1', (10, 0): 'Windows 10'}


def model_system(f):
    h = pml.header(f)
    name = OS_NAMES[(h['windows_major_number'], h['windows_minor_number'])]
    if h['service_pack_name'] != '':
        name = name + ', ' + h['service_pack_name']
    return {
        'Computer Name': h['computer_name'],
        'Operating System': name + ' (build ' + str(h['windows_build_number']) + '.' +
                            str(h['windows_build_number_after_decimal_point']) + ')',
        'System Root': h['system_root'],
        'Logical Processors': h['number_of_logical_processors'],
        'Memory (RAM)': '{} GB'.format((h['ram_memory_size'] / (1024.0 ** 3)) // 0.01 / 100),
        'System Type': '64-bit' if h['is_64bit'] != 0 else '32-bit',
    }


def event_view(e):
    return (e.tid, e.event_class, e.operation, e.duration, e.date_filetime, e.result, e.stacktrace, e.category, e.path,
            e.details, e.process.pid, e.process.image_path)


def read(reader, i):
    return event_view(reader[i])


def read_slice(reader, a, b, c):
    return [event_view(e) for e in reader[a:b:c]]


def outcome(f, *a):
    """result, or the kind of failure"""
    try:
        return f(*a)
    except IndexError:
        return 'IndexError'
    except TypeError:
        return 'TypeError'
    except StopIteration:
        return 'StopIteration'


def take(reader, n):
    """n steps of the iteration protocol"""
    out = []
    for _ in range(n):
        out.append(outcome(step, reader))
    return out


def step(reader):
    return event_view(next(reader))


LIMIT = 8


def loop(reader):
    out = []
    for e in reader:
        out.append(event_view(e))
        if len(out) >= LIMIT:
            break
    return out


def loop_after(reader, n):
    """n explicit steps, then a loop over the rest"""
    for _ in range(n):
        next(reader)
    return loop(reader)


def loop_with_lookups(reader, k):
    """the loop with a random access in its body"""
    out = []
    for e in reader:
        reader[k]
        out.append(event_view(e))
        if len(out) >= LIMIT:
            break
    return out


def pick(reader, idx):
    return [event_view(reader[i]) for i in idx]


def then(reader, i, j):
    """event j after event i was read, and its details changed by the caller"""
    e = reader[i]
    e.details['changed by the caller'] = 1
    e.path = 'changed'
    e.stacktrace.append(1)
    return event_view(reader[j])


def again(reader, i):
    reader[i]
    return event_view(reader[i])


def outlives(reader, i, j):
    """event i looked at after event j was read"""
    e = reader[i]
    reader[j]
    return event_view(e)


class PathObject(object):
    """names a file, as path objects do"""

    def __init__(self, name):
        self.name = name

    def __fspath__(self):
        return self.name


class FileLike(object):
    """an open file of the caller's own making"""

    def __init__(self, f):
        self.f = f

    def read(self, size=-1):
        return self.f.read(size)

    def seek(self, offset, whence=0):
        return self.f.seek(offset, whence)

    def tell(self):
        return self.f.tell()

    def close(self):
        self.f.close()


def whole(events):
    return [event_view(e) for e in events]


def length(reader):
    return len(reader)


def kind(reader, i):
    """how an index is refused"""
    try:
        reader[i]
    except IndexError:
        return 'IndexError'
    except TypeError:
        return 'TypeError'
    return 'an event'


def mapping(pairs):
    from collections import OrderedDict
    d = OrderedDict()
    for k, is_list, v in pairs:
        d[k] = list(v) if is_list else v
    return d


def listof(items):
    return list(items)


def entry(record, name):
    return record[name]


def sorted_keys(record):
    return sorted(record.keys())


def detail_column(e):
    return e.get_compatible_csv_info()['Detail']


def less(a, b):
    return a < b


# ---------------------------------------------------------------- configurations

FONT_FIELDS = ('height', 'width', 'escapement', 'orientation', 'weight', 'italic', 'underline', 'strikeout', 'char_set',
               'out_precision', 'clip_precision', 'quality', 'pitch_and_family', 'face_name')


def rule_view(r):
    return (r.column.name, r.relation.name, r.action.name, r.value)


def font_view(v):
    return tuple([getattr(v, a) for a in FONT_FIELDS])


def config_view(c):
    """(option, value) pairs in order, values by what they hold"""
    out = []
    for name, v in c.items():
        if name in ('FilterRules', 'HighlightRules'):
            v = [rule_view(r) for r in v]
        elif name in ('LogFont', 'BoookmarkFont'):
            v = font_view(v)
        elif name == 'ColumnMap':
            v = [x.name for x in v]
        elif name == 'Columns':
            v = [x for x in v]
        out.append((name, v))
    return out


def stream_at(data, pos):
    f = io.BytesIO(data)
    f.read(pos)
    return f


def dumped(dump, c, earlier):
    """what dump adds to a stream that holds earlier, which has to stay"""
    f = io.BytesIO()
    f.write(earlier)
    dump(c, f)
    out = f.getvalue()
    if out[:len(earlier)] != earlier or f.tell() != len(out):
        raise RuntimeError(out)
    return out[len(earlier):]


def window(b, o, n):
    return b[o:o + n]


# ---------------------------------------------------------------- comparison, dates

def same(a, b):
    return a == b


def differ(a, b):
    return a != b


def hashed(a):
    return hash(a)


def kept(a, b):
    """is b found again when a was put into a mapping?"""
    return {a: 'found'}.get(b, 'not there')


def changed(a, name, v):
    setattr(a, name, v)
    return a


def date_model(t, is_utc):
    import datetime
    if t is None:
        return None
    s = (t - 116444736000000000) // 10000000
    d = datetime.datetime.utcfromtimestamp(s) if is_utc else datetime.datetime.fromtimestamp(s)
    return d + datetime.timedelta(microseconds=(t % 10000000) // 10)


# ---------------------------------------------------------------- what belongs to the caller

def spoil_event(e):
    for k, v in list(e.details.items()):
        if isinstance(v, list):
            if k not in ('Environment', 'Data'):       # lists of texts are values of their own in the analysis
                v.append(None)
        elif isinstance(v, dict):
            v['changed by the caller'] = 1
    e.details['changed by the caller'] = 1
    e.path = 'changed'
    e.category = 'changed'
    e.tid = 0
    e.stacktrace.append(1)


def again_spoiled(reader, i):
    """the event read once more, after the caller changed the first copy"""
    spoil_event(reader[i])
    return event_view(reader[i])


def slices_spoiled(reader):
    a = reader[:]
    for e in a:
        spoil_event(e)
    a.append(None)
    return [event_view(e) for e in reader[:]]


def listed_spoiled(reader):
    reader.processes().clear()
    reader.processes().append(None)
    return [process_view(p) for p in reader.processes()]


def summary(reader):
    return reader.system_details()


def summary_spoiled(reader):
    reader.system_details()['Computer Name'] = 'changed'
    reader.system_details().clear()
    return reader.system_details()


def spoil_processes(reader):
    for p in reader.processes():
        p.user = 'changed'
        p.pid = 0
        p.modules.append(None)
        for m in p.modules[:-1]:
            m.path = 'changed'


def other_view(other):
    return [process_view(p) for p in other.processes()]


def other_events(reader, other):
    for e in reader[:]:
        spoil_event(e)
    spoil_processes(reader)
    return [event_view(e) for e in other[:]]


def other_processes(reader, other):
    spoil_processes(reader)
    return other_view(other)


def loaded_spoiled(loads, data):
    c = loads(data)
    for name in list(c.keys()):
        v = c[name]
        if name in ('FilterRules', 'HighlightRules'):
            for r in v:
                r.value = 'changed'
            v.append(None)
        elif name in ('LogFont', 'BoookmarkFont'):
            v.height = 0
            v.face_name = 'changed'
        elif name in ('Columns', 'ColumnMap'):
            v.append(None)
        c[name] = None
    c['changed'] = 1
    return config_view(loads(data))


def written_twice(dumps, c):
    dumps(c)
    return dumps(c)


def written_then(dumps, c):
    """the configuration as it is after it was written"""
    dumps(c)
    return config_view(c)


def attrs_view(o, names):
    return tuple([getattr(o, n) for n in names])


def default_spoiled(cls, names):
    """values of a second object made without arguments, after the lists of the first were changed"""
    first = cls()
    for n in names:
        v = getattr(first, n)
        if isinstance(v, list):
            v.append(None)
        elif isinstance(v, dict):
            v['changed'] = None
    return attrs_view(cls(), names)


def default(cls, names):
    return attrs_view(cls(), names)


def spell(o, how):
    return repr(o) if how == 'repr' else str(o)


def spell_model(o, kind, how):
    """the documented text forms"""
    if kind == 'Rule':
        if how == 'repr':
            return 'Rule(Column.' + o.column.name + ', Relation.' + o.relation.name + ', "' + o.value + '", Action.' + o.action.name + ')'
        return 'If ' + o.column.name.capitalize() + ' ' + o.relation.name.lower() + ' "' + o.value + '", then ' + o.action.name.capitalize()
    if kind == 'Module':
        if how == 'repr':
            return 'Module(' + str(o.base_address) + ', ' + str(o.size) + ', "' + o.path + '", "' + o.version + '", "' + o.company + \
                '", "' + o.description + '", ' + str(o.timestamp) + ')'
        return '"' + o.path + '", address=0x' + format(o.base_address, 'x') + ', size=0x' + format(o.size, 'x')
    if kind == 'Process':
        if how == 'repr':
            return 'Process(' + str(o.pid) + ', ' + str(o.parent_pid) + ', ' + str(o.authentication_id) + ', ' + str(o.session) + ', ' + \
                str(o.virtualized) + ', "' + str(o.is_process_64bit) + '", "' + o.integrity + '", "' + o.user + '", "' + o.process_name + \
                '", "' + o.image_path + '", "' + o.command_line + '", "' + o.company + '", "' + o.version + '", "' + o.description + '")'
        return '"' + o.image_path + '", ' + str(o.pid)
    if how == 'repr':
        return 'Event(' + spell_model(o.process, 'Process', 'str') + ', ' + str(o.tid) + ', "' + o.event_class.name + '", "' + o.operation + \
            '", ' + str(o.duration) + ', ' + str(o.date_filetime) + ', ' + str(o.result) + ', "' + o.category + '", "' + o.path + '", ' + \
            str(o.details) + ')'
    if kind == 'Event':
        day = moment(o.date_filetime).strftime('%m/%d/%Y ').lstrip('0').replace('/0', '/')
        return 'Process Name=' + str(o.process.process_name) + ', Pid=' + str(o.process.pid) + ', Operation=' + o.operation + ', Path="' + \
            o.path + '", Time=' + day + time_of_day(o.date_filetime)
    return None
