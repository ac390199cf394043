"""Reference model of the CSV export: every column of an event, by its Procmon name."""
import datetime
from ref import tables as T

EPOCH = 116444736000000000
SECOND = 10000000


def message(code):
    if code in T.TABLE_ErrorCodeMessages:
        return T.TABLE_ErrorCodeMessages[code]
    return '0x{:X}'.format(code)


def moment(t):
    return datetime.datetime.utcfromtimestamp((t - EPOCH) // SECOND)


def time_of_day(t):
    return moment(t).strftime('%I:%M:%S.{:07d} %p').lstrip('0').format(t % SECOND)


def date_and_time(t):
    d = moment(t)
    return d.strftime('%m/%d/%Y ').lstrip('0').replace('/0', '/') + d.strftime('%I:%M:%S %p').lstrip('0')


def relative(dt):
    s = dt // SECOND
    return '{:02d}:{:02d}:{:02d}.{:07d}'.format(s // 3600, (s // 60) % 60, s % 60, dt % SECOND)


def seconds(dt):
    return '{}.{:07d}'.format(dt // SECOND, dt % SECOND)


def truth(v):
    if v == 0:
        return 'False'
    if v == 1:
        return 'True'
    return 'n/a'


CLASS_NAMES = {0: 'Unknown', 1: 'Process', 2: 'Registry', 3: 'File System', 4: 'Profiling', 5: 'Network'}


def column(name, e, cls, first):
    p = e.process
    if name == 'Date & Time':
        return date_and_time(e.date_filetime)
    if name == 'Time of Day':
        return time_of_day(e.date_filetime)
    if name == 'Process Name':
        return p.process_name
    if name == 'PID':
        return str(p.pid)
    if name == 'Operation':
        if '<Unknown>' in e.operation:
            return '<Unknown>'
        return e.operation.replace('_', ' ') if cls == 1 else e.operation
    if name == 'Result':
        return message(e.result)
    if name == 'Sequence':
        return 'n/a'
    if name == 'Company':
        return p.company
    if name == 'Description':
        return p.description
    if name == 'Command Line':
        return p.command_line
    if name == 'User':
        return p.user
    if name == 'Image Path':
        return p.image_path
    if name == 'Session':
        return str(p.session)
    if name == 'Path':
        return e.path
    if name == 'TID':
        return str(e.tid)
    if name == 'Relative Time':
        return relative(e.date_filetime - (first if first else e.date_filetime))
    if name == 'Duration':
        return seconds(e.duration) if message(e.result) != '' else ''
    if name == 'Version':
        return p.version
    if name == 'Event Class':
        return CLASS_NAMES[cls]
    if name == 'Authentication ID':
        return '{:08x}:{:08x}'.format(p.authentication_id >> 32, p.authentication_id & 0xffffffff)
    if name == 'Virtualized':
        return truth(p.virtualized)
    if name == 'Integrity':
        return p.integrity
    if name == 'Category':
        return e.category
    if name == 'Parent PID':
        return str(p.parent_pid)
    if name == 'Architecture':
        return '64-bit' if p.is_process_64bit else '32-bit'
    if name == 'Completion Time':
        return time_of_day(e.date_filetime + e.duration) if message(e.result) != '' else ''
    return None


HIDDEN = ('TitleIndex', 'MaxNameLen', 'MaxValueNameLen', 'MaxValueDataLen', 'ClassOffset', 'ClassLength', 'MaxClassLen')


def detail(e, cls):
    """the Detail column"""
    if not e.details:
        return ''
    out = []
    d = e.details
    for k in d:
        v = d[k]
        if e.operation == 'Load_Image' and k in ('Image Base', 'Image Size'):
            v = '0x{:x}'.format(v)
        elif e.operation == 'Thread_Exit' and k in ('User Time', 'Kernel Time'):
            v = seconds(v)
        elif e.operation == 'Process_Start' and k == 'Environment':
            v = '\n;\t' + '\n;\t'.join(v)
        elif cls == 2:
            v = registry_value(e, d, k, v)
            if v is None:
                continue
        elif cls == 3 and k in ('AllocationSize', 'Offset', 'Length') and type(v) == int:
            v = '{:,}'.format(v)
        out.append('{}: {}'.format(k, v))
    return ', '.join(out)


def registry_value(e, d, k, v):
    """text of one entry, None if it is not shown"""
    if k in ('Length', 'SubKeys', 'Values', 'Index'):
        return '{:,}'.format(v)
    if k in ('HandleTags', 'UserFlags', 'Wow64Flags'):
        return '0x{:x}'.format(v)
    if k in HIDDEN:
        return None
    if k == 'LastWriteTime':
        return date_and_time_long(v) if e.operation == 'RegSetInfoKey' else None
    if k == 'Name' and (e.operation == 'RegQueryValue' or e.operation == 'RegQueryKey' and d['Query'] == 'Name'):
        return None
    if k == 'Data':
        kind = d['Type'] if 'Type' in d else ''
        if kind == 'REG_BINARY':
            return ' '.join(['{:02X}'.format(b) for b in v])
        if kind == 'REG_QWORD':
            return ''
        if kind == 'REG_MULTI_SZ':
            return ', '.join(v)
        if isinstance(v, str):
            return '\n;'.join(v.split('\r\n'))
    return v


def date_and_time_long(t):
    return date_and_time(t)
