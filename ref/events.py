"""Reference model of one event: everything the log says about it, as functions of the file's bytes."""
from ref.base import *
from ref import pml
from ref import tables as T

OPERATIONS = {1: T.ENUM_ProcessOperation, 2: T.ENUM_RegistryOperation, 3: T.ENUM_FilesystemOperation,
              4: T.ENUM_ProfilingOperation, 5: T.ENUM_NetworkOperation}

SUB_OPERATIONS = {30: T.ENUM_FilesystemQueryVolumeInformationOperation,
                  31: T.ENUM_FilesystemSetVolumeInformationOperation,
                  25: T.ENUM_FilesystemQueryInformationOperation,
                  26: T.ENUM_FilesystemSetInformationOperation,
                  32: T.ENUM_FilesysemDirectoryControlOperation,
                  47: T.ENUM_FilesystemPnpOperation,
                  37: T.ENUM_FilesystemLockUnlockOperation}


class Ev(object):
    """one event under construction: f file, E start of the event, pv pointer size"""

    def __init__(self, f, E, pv, want_stack, want_details, exact):
        self.f = f
        self.exact = exact          # False: data cut by the end of its record is left unspecified
        self.E = E
        self.pv = pv
        self.want_details = want_details
        self.tid = u32(f, E + 4)
        self.cls = u32(f, E + 8)
        self.op = u16(f, E + 12)
        self.duration = u64(f, E + 0x14)
        self.date = u64(f, E + 0x1c)
        self.result = u32(f, E + 0x24)
        depth = u16(f, E + 0x28)
        self.D = E + 0x34 + pv * depth
        self.dlen = u32(f, E + 0x2c)
        self.stack = []
        if want_stack:
            for i in range(depth):
                self.stack.append(ptr(f, E + 0x34 + pv * i, pv))
        xo = u32(f, E + 0x30)
        self.has_extra = xo > 0
        if self.has_extra and xo < 0x34 + pv * depth + self.dlen:
            raise _pva_unspec_error()
        self.X = E + xo + 2
        self.xlen = u16(f, E + xo) if self.has_extra else 0
        self.path = ''
        self.category = ''
        self.details = {}
        self.operation = OPERATIONS[self.cls][self.op]


def clip(ev, n, room):
    """n bytes, cut to the room left in the record"""
    if n <= room:
        return n
    if not ev.exact:
        raise _pva_unspec_error()
    return room if room > 0 else 0


def event(f, i, pv, want_stack, want_details, exact):
    ev = Ev(f, pml.event_offset(f, i), pv, want_stack, want_details, exact)
    if ev.cls == 1:
        process_event(ev)
    elif ev.cls == 2:
        registry_event(ev)
    elif ev.cls == 3:
        file_event(ev)
    elif ev.cls == 5:
        network_event(ev)
    return ev


# ------------------------------------------------------------------ process and thread

def process_event(ev):
    f, D, d = ev.f, ev.D, ev.details
    if ev.op in (0, 1):
        d['PID'] = u32(f, D + 4)
        path, cmd = u16(f, D + 0x2e), u16(f, D + 0x30)
        o = D + 0x34 + u8(f, D + 0x2c) + u8(f, D + 0x2d)
        ev.path = dtext(f, o, path)
        d['Command line'] = dtext(f, o + dsize(path), cmd)
    elif ev.op in (2, 8):
        d['Exit Status'] = u32(f, D)
        d['User Time'] = u64(f, D + 12)
        d['Kernel Time'] = u64(f, D + 4)
        d['Private Bytes'] = u64(f, D + 36)
        d['Peak Private Bytes'] = u64(f, D + 44)
        d['Working Set'] = u64(f, D + 20)
        d['Peak Working Set'] = u64(f, D + 28)
    elif ev.op == 3:
        d['Thread ID'] = u32(f, D)
    elif ev.op == 4:
        d['Thread ID'] = ev.tid
        d['User Time'] = u64(f, D + 12)
        d['Kernel Time'] = u64(f, D + 4)
    elif ev.op == 5:
        d['Image Base'] = ptr(f, D, ev.pv)
        d['Image Size'] = u32(f, D + ev.pv)
        ev.path = dtext(f, D + ev.pv + 8, u16(f, D + ev.pv + 4))
    elif ev.op == 7:
        d['Parent PID'] = u32(f, D)
        cmd, cwd, n = u16(f, D + 4), u16(f, D + 6), u32(f, D + 8)
        o = D + 12
        d['Command line'] = dtext(f, o, cmd)
        d['Current directory'] = dtext(f, o + dsize(cmd), cwd)
        d['Environment'] = texts(f, o + dsize(cmd) + dsize(cwd), 2 * n)


# ------------------------------------------------------------------ network

def network_event(ev):
    f, D, d = ev.f, ev.D, ev.details
    flags = u16(f, D)
    is_tcp = flags & 4 != 0
    ev.operation = ('TCP ' if is_tcp else 'UDP ') + ev.operation
    d['Length'] = u32(f, D + 4)
    hosts, ports = pml.hosts_and_ports(f)
    ends = []
    for k in (0, 1):
        ends.append(pml.host_name(hosts, f[D + 8 + 16 * k:D + 24 + 16 * k], flags & (1 << k) != 0) + ':' +
                    pml.port_name(ports, u16(f, D + 40 + 2 * k), is_tcp))
    ev.path = ends[0] + ' -> ' + ends[1]
    pairs = texts(f, D + 44, ev.dlen - 44)
    for i in range(len(pairs) // 2):
        d[pairs[2 * i]] = pairs[2 * i + 1]


# ------------------------------------------------------------------ registry

def registry_data(ev, o, end, kind, n):
    f = ev.f
    if kind == 'REG_DWORD':
        return u32(f, o) if not ev.exact or end - o >= 4 else ''      # the record does not hold all of it
    if kind == 'REG_QWORD':
        return u64(f, o) if not ev.exact or end - o >= 8 else ''
    if kind == 'REG_SZ' or kind == 'REG_EXPAND_SZ':
        return text(f, o, end - o)
    if kind == 'REG_BINARY':
        return f[o:o + clip(ev, n, end - o)]
    if kind == 'REG_MULTI_SZ':
        return texts(f, o, clip(ev, n, end - o))
    return ''


def reg_type(v):
    return name_or(T.ENUM_RegistryTypes, v, unknown(v))


def registry_event(ev):
    f, D, d, op = ev.f, ev.D, ev.details, ev.op
    info = u16(f, D)
    if op in (12, 14):
        path_at = D + 4
    elif op in (0, 1):
        path_at = D + 8
    elif op in (3, 5):
        path_at = D + 12
    elif op in (6, 7, 8, 4):
        path_at = D + 16
    else:
        path_at = D + 2
    ev.path = dtext(f, path_at, info)
    after = path_at + dsize(info)
    if not ev.want_details:
        return
    if op in (0, 1):
        registry_open(ev, u32(f, D + 4))
    elif op == 3:
        ev.category = 'Read'
        cls = u32(f, D + 8)
        d['Query'] = name_or(T.ENUM_RegistryKeyInformationClass, cls, unknown(cls))
        registry_key(ev, cls, u32(f, D + 4))
    elif op == 7:
        ev.category = 'Read'
        d['Index'] = u32(f, D + 8)
        registry_key(ev, u32(f, D + 12), u32(f, D + 4))
    elif op == 5:
        ev.category = 'Read'
        registry_value(ev, u32(f, D + 8), u32(f, D + 4))
    elif op == 6:
        ev.category = 'Read'
        d['Index'] = u32(f, D + 8)
        registry_value(ev, u32(f, D + 12), u32(f, D + 4))
    elif op == 4:
        ev.category = 'Write'
        kind = reg_type(u32(f, D + 4))
        n = min(u32(f, D + 8), u32(f, D + 12))
        d['Type'] = kind
        d['Length'] = u32(f, D + 8)
        if n > 0 and 'Unknown' not in kind:
            d['Data'] = registry_data(ev, after, D + ev.dlen, kind, n)
    elif op == 8:
        ev.category = 'Write Metadata'
        cls = u32(f, D + 4)
        n = u16(f, D + 12)
        d['KeySetInformationClass'] = name_or(T.TABLE_RegistryKeySetInformationClass, cls, unknown(cls))
        d['Length'] = n
        if n > 0:
            if cls == 0:
                d['LastWriteTime'] = u64(f, after)
            elif cls == 1:
                d['Wow64Flags'] = u32(f, after)
            elif cls == 5:
                d['HandleTags'] = u32(f, after)
    elif op in (9, 10):
        ev.category = 'Write'
    elif op == 12:
        d['Hive Path'] = dtext(f, after, u16(f, D + 2))
    elif op == 14:
        ev.category = 'Write'
        d['New Name'] = dtext(f, after, u16(f, D + 2))
    elif op == 15:
        ev.category = 'Read'
    elif op == 16:
        ev.category = 'Write Metadata'
    elif op == 17:
        ev.category = 'Read Metadata'


def registry_open(ev, access):
    f, X, d = ev.f, ev.X, ev.details
    ev.category = 'Read'
    if access == 0:
        return
    d['Desired Access'] = registry_access(access)
    if not ev.has_extra:
        return
    if d['Desired Access'] == 'Maximum Allowed':
        d['Granted Access'] = registry_access(u32(f, X))
    disposition = u32(f, X + 4)
    if disposition == 1:
        d['Disposition'] = 'REG_CREATED_NEW_KEY'
        ev.category = 'Write'
    elif disposition == 2:
        d['Disposition'] = 'REG_OPENED_EXISTING_KEY'


def registry_key(ev, cls, length):
    f, X, d = ev.f, ev.X, ev.details
    if not ev.has_extra:
        d['Length'] = length
        return
    if cls == 0:
        d['LastWriteTime'] = u64(f, X)
        d['TitleIndex'] = u32(f, X + 8)
        d['Name'] = text(f, X + 16, u32(f, X + 12))
    elif cls == 1:
        d['LastWriteTime'] = u64(f, X)
        d['TitleIndex'] = u32(f, X + 8)
        d['ClassOffset'] = u32(f, X + 12)
        d['ClassLength'] = u32(f, X + 16)
        d['Name'] = text(f, X + 24, u32(f, X + 20))
    elif cls == 2:
        d['LastWriteTime'] = u64(f, X)
        o = X + 8
        for key in ('TitleIndex', 'ClassOffset', 'ClassLength', 'SubKeys', 'MaxNameLen', 'MaxClassLen', 'Values',
                    'MaxValueNameLen', 'MaxValueDataLen'):
            d[key] = u32(f, o)
            o += 4
    elif cls == 3:
        d['Name'] = text(f, X + 4, u32(f, X))
    elif cls == 4:
        d['LastWriteTime'] = u64(f, X)
        o = X + 8
        for key in ('TitleIndex', 'SubKeys', 'MaxNameLen', 'Values', 'MaxValueNameLen', 'MaxValueDataLen'):
            d[key] = u32(f, o)
            o += 4
    elif cls == 5:
        d['UserFlags'] = u32(f, X)
    elif cls == 7:
        d['HandleTags'] = u32(f, X)


def registry_value(ev, cls, length):
    f, X, d = ev.f, ev.X, ev.details
    if not ev.has_extra:
        d['Length'] = length
        return
    kind = reg_type(u32(f, X + 4))
    if cls == 1:
        n = u32(f, X + 12)
        d['Name'] = text(f, X + 20, u32(f, X + 16))
        data = X + u32(f, X + 8)
    elif cls == 2:
        n = u32(f, X + 8)
        data = X + 12
    else:
        d['Type'] = kind
        return
    d['Type'] = kind
    d['Length'] = n
    if n > 0:
        d['Data'] = registry_data(ev, data, X + ev.xlen, kind, n)


# ------------------------------------------------------------------ file system

def sid_text(b):
    """textual form of a security identifier held in b"""
    if b[0] != 1:
        return ''
    n = b[1]
    if len(b) - 8 != 4 * n:
        return ''
    s = 'S-1-' + str(int.from_bytes(b[2:8], 'big'))
    for i in range(n):
        s += '-' + str(int.from_bytes(b[8 + 4 * i:12 + 4 * i], 'little'))
    return s


def file_event(ev):
    f, D, d, pv = ev.f, ev.D, ev.details, ev.pv
    sub = u8(f, D)
    if sub != 0 and ev.op in SUB_OPERATIONS:
        ev.operation = name_or(SUB_OPERATIONS[ev.op], sub, ev.operation + ' <Unknown>')
    P = D + 4 + 0xc                     # operation parameters
    info = u16(f, D + 4 + 0x14 + 5 * pv)
    path_at = D + 8 + 0x14 + 5 * pv
    ev.path = dtext(f, path_at, info)
    after = path_at + dsize(info)
    if not ev.want_details:
        return
    w = pv // 4                         # parameters are pointer aligned
    name = ev.operation
    if name == 'CreateFile':
        file_create(ev, P, after)
    elif name == 'ReadFile' or name == 'WriteFile':
        ev.category = 'Read' if name == 'ReadFile' else 'Write'
        flags = u32(f, D + 8)
        d['Offset'] = s64(f, P + 8 * w)
        d['Length'] = u32(f, ev.X) if ev.has_extra else u32(f, P)
        if flags & 0xe000ff != 0:
            d['I/O Flags'] = io_flags(flags & 0xe000ff)
        prio = flags >> 17 & 7
        if prio != 0:
            d['Priority'] = name_or(T.TABLE_FilesystemPriority, prio, '0x' + format(prio, 'x'))
    elif name == 'FileSystemControl' or name == 'DeviceIoControl':
        file_control(ev, P, after, name)
    elif name == 'QueryDirectory':
        file_directory(ev, u32(f, P + 8 * w), after)
    elif name == 'NotifyChangeDirectory':
        ev.category = 'Read Metadata'
        d['Filter'] = notify_flags(u32(f, P + 4 * w))
    elif name == 'QueryIdInformation' or name == 'QueryRemoteProtocolInformation':
        ev.category = 'Read Metadata'
    elif name == 'SetDispositionInformationFile':
        if u8(f, after) != 0:
            d['Delete'] = 'True'
            ev.category = 'Write'
        else:
            d['Delete'] = 'False'
    elif name == 'CreateFileMapping':
        sync, prot = u32(f, P), u32(f, P + 4)
        d['SyncType'] = name_or(T.TABLE_FileSystemCreateFileMappingSyncType, sync, 'Unknown: 0x' + format(sync, 'x'))
        page = None
        for bit, pname in ((2, 'PAGE_READONLY'), (4, 'PAGE_READWRITE'), (8, 'PAGE_WRITECOPY'),
                           (0x10, 'PAGE_EXECUTE'), (0x20, 'PAGE_EXECUTE_READ'), (0x40, 'PAGE_EXECUTE_READWRITE')):
            if page is None and prot & bit:
                page = pname
        if page is not None:
            d['PageProtection'] = page + '|PAGE_NOCACHE' if prot & 0x200 else page


def file_create(ev, P, after):
    f, d, pv = ev.f, ev.details, ev.pv
    w = pv // 4
    d['Desired Access'] = file_access(u32(f, after))
    sid = u8(f, after + 4)
    opts = u32(f, P + 4 * w)
    disposition = opts >> 24
    disp_name = name_or(T.ENUM_FilesystemDisposition, disposition, '<unknown>')
    d['Disposition'] = disp_name
    d['Options'] = create_options(opts & 0xffffff)
    d['Attributes'] = create_attributes(u16(f, P + 8 * w))
    d['ShareMode'] = share_mode(u16(f, P + 8 * w + 2))
    d['AllocationSize'] = u32(f, P + 20 * w) if disposition in (0, 2, 3, 5) else 'n/a'
    if sid != 0:
        d['Impersonating'] = sid_text(f[after + 8:after + 8 + sid])
    res = None
    if ev.has_extra:
        res = u32(f, ev.X)
        d['OpenResult'] = name_or(T.ENUM_FilesystemOpenResult, res, '<unknown>')
    if res in (0, 2, 3):
        ev.category = 'Write'
    elif res in (1, 4, 5):
        pass
    elif disp_name != 'Open' and disp_name != '<unknown>':
        ev.category = 'Write'


CONTROL_CATEGORY = {}
for _c, _names in (
        ('Read', 'FSCTL_OFFLOAD_READ FSCTL_GET_REPARSE_POINT FSCTL_READ_RAW_ENCRYPTED'),
        ('Write', 'FSCTL_OFFLOAD_WRITE FSCTL_MOVE_FILE FSCTL_DELETE_REPARSE_POINT FSCTL_WRITE_RAW_ENCRYPTED '
                  'FSCTL_PIPE_TRANSCEIVE FSCTL_PIPE_INTERNAL_TRANSCEIVE'),
        ('Write Metadata', 'FSCTL_SET_COMPRESSION FSCTL_WRITE_PROPERTY_DATA FSCTL_SET_OBJECT_ID '
                           'FSCTL_DELETE_OBJECT_ID FSCTL_SET_REPARSE_POINT FSCTL_SET_SPARSE FSCTL_SET_ENCRYPTION '
                           'FSCTL_CREATE_USN_JOURNAL FSCTL_WRITE_USN_CLOSE_RECORD FSCTL_EXTEND_VOLUME '
                           'FSCTL_DELETE_USN_JOURNAL'),
        ('Read Metadata', 'FSCTL_QUERY_RETRIEVAL_POINTERS FSCTL_GET_COMPRESSION FSCTL_QUERY_FAT_BPB '
                          'FSCTL_FILESYSTEM_GET_STATISTICS FSCTL_GET_NTFS_VOLUME_DATA FSCTL_GET_NTFS_FILE_RECORD '
                          'FSCTL_GET_VOLUME_BITMAP FSCTL_GET_RETRIEVAL_POINTERS FSCTL_IS_VOLUME_DIRTY '
                          'FSCTL_READ_PROPERTY_DATA FSCTL_FIND_FILES_BY_SID FSCTL_GET_OBJECT_ID '
                          'FSCTL_READ_USN_JOURNAL FSCTL_SET_OBJECT_ID_EXTENDED FSCTL_CREATE_OR_GET_OBJECT_ID '
                          'FSCTL_READ_FILE_USN_DATA FSCTL_QUERY_USN_JOURNAL')):
    for _n in _names.split():
        CONTROL_CATEGORY[_n] = _c
CODES = {}
for _k, _n in T.TABLE_IoctlConsts.items():
    if _n in CONTROL_CATEGORY:
        CODES[_k] = CONTROL_CATEGORY[_n]
NAMED = {}
for _k, _n in T.TABLE_IoctlConsts.items():
    if _n in ('FSCTL_PIPE_INTERNAL_WRITE', 'FSCTL_OFFLOAD_READ', 'FSCTL_OFFLOAD_WRITE', 'FSCTL_PIPE_INTERNAL_READ',
              'FSCTL_PIPE_TRANSCEIVE', 'FSCTL_PIPE_INTERNAL_TRANSCEIVE'):
        NAMED[_k] = _n


def file_control(ev, P, after, name):
    f, d, w = ev.f, ev.details, ev.pv // 4
    out_len, in_len, code = u32(f, P - 4), u32(f, P), u32(f, P + 8 * w)
    # the two lengths precede the control code: the first is what is written, the second what is read
    d['Control'] = ioctl_name(code)
    ev.category = name_or(CODES, code, '')
    if name != 'FileSystemControl':
        return
    what = name_or(NAMED, code, '')
    if what == 'FSCTL_PIPE_INTERNAL_WRITE':
        d['Length'] = out_len
    elif what == 'FSCTL_OFFLOAD_READ':
        d['Offset'] = s64(f, after + 8)
        d['Length'] = u64(f, after + 16)
    elif what == 'FSCTL_OFFLOAD_WRITE':
        d['Offset'] = s64(f, after)
        d['Length'] = u64(f, after + 8)
    elif what == 'FSCTL_PIPE_INTERNAL_READ':
        d['Length'] = in_len
    elif what == 'FSCTL_PIPE_TRANSCEIVE' or what == 'FSCTL_PIPE_INTERNAL_TRANSCEIVE':
        d['WriteLength'] = out_len
        d['ReadLength'] = in_len


# offset of the name inside one directory entry, and of its length, by information class
DIRECTORY_ENTRY = {1: 64, 2: 68, 3: 94, 12: 12, 37: 104, 38: 76}


def file_directory(ev, cls, after):
    f, d = ev.f, ev.details
    ev.category = 'Read Metadata'
    info = u16(f, after)
    pattern = dtext(f, after + 2, info)
    if pattern != '':
        ev.path = ev.path + ('' if ev.path.endswith('\\') else '\\') + pattern
        d['Filter'] = pattern
    d['FileInformationClass'] = name_or(T.ENUM_FileInformationClass, cls, unknown(cls))
    if not ev.has_extra or cls not in DIRECTORY_ENTRY:
        return
    name_at = DIRECTORY_ENTRY[cls]
    size_at = 8 if cls == 12 else 60
    i = 1 if pattern != '' else 0
    rel = 0
    while True:
        o = ev.X + rel
        d[str(i)] = text(f, o + name_at, clip(ev, u32(f, o + size_at), ev.X + ev.xlen - o - name_at))
        step = u32(f, o)
        if step == 0 or rel + step > ev.xlen:
            break
        rel += step
        i += 1
