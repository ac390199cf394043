"""Reading primitives of the reference model: plain functions over the bytes of the log."""
from ref import tables as T


def u8(f, o):
    return int.from_bytes(f[o:o + 1], 'little')


def u16(f, o):
    return int.from_bytes(f[o:o + 2], 'little')


def u32(f, o):
    return int.from_bytes(f[o:o + 4], 'little')


def u64(f, o):
    return int.from_bytes(f[o:o + 8], 'little')


def s64(f, o):
    return int.from_bytes(f[o:o + 8], 'little', signed=True)


def ptr(f, o, pv):
    return u64(f, o) if pv == 8 else u32(f, o)


def text(f, o, n):
    """UTF-16 text of at most n bytes, up to its terminator"""
    return _pva_utf16z(f[o:o + n])


def texts(f, o, n):
    """list of NUL-terminated UTF-16 strings in n bytes"""
    return _pva_multisz(f[o:o + n])


def dsize(info):
    """bytes occupied by a detail string described by info"""
    n = info & 0x7fff
    return n if info & 0x8000 else 2 * n


def dtext(f, o, info):
    n = info & 0x7fff
    if info & 0x8000:
        return f[o:o + n].decode('ascii')
    return text(f, o, 2 * n)


def mask_names(mask, table, sep):
    names = []
    for value, name in table.items():
        if mask & value == value:
            names.append(name)
            mask = mask & (0xffffffff ^ value)
    return sep.join(names)


def access_names(mask, generic, table):
    for bit, full in zip((31, 30, 29, 28), generic):
        if mask >> bit & 1:
            mask = mask | full
    s = mask_names(mask, table, ', ')
    if s == '':
        return 'None 0x' + format(mask, 'x')
    return s


def registry_access(mask):
    return access_names(mask, T.LIST_REGISTRY_ACCESS_MASK_MAPPING, T.TABLE_REGISTRY_ACCESS_MASK_STRINGS)


def file_access(mask):
    return access_names(mask, T.LIST_FILESYSTEM_ACCESS_MASK_MAPPING, T.TABLE_FILESYSTEM_ACCESS_MASK_STRINGS)


def create_options(mask):
    return mask_names(mask, T.TABLE_FILESYSTEM_CREATE_OPTIONS, ', ')


def create_attributes(mask):
    return 'n/a' if mask == 0 else mask_names(mask, T.TABLE_FilesystemCreateAttributes, '')


def share_mode(mask):
    return 'None' if mask == 0 else mask_names(mask, T.TABLE_FilesystemCreateShareMode, ', ')


def io_flags(mask):
    return mask_names(mask, T.TABLE_FilesystemIoFlags, ', ')


def notify_flags(mask):
    return mask_names(mask, T.TABLE_FilesystemNotifyChangeFlags, ', ')


def name_or(table, value, default):
    return table[value] if value in table else default


def ioctl_name(code):
    if code in T.TABLE_IoctlConsts:
        return T.TABLE_IoctlConsts[code]
    return '0x' + format(code, 'x') + ' (Device:0x' + format(code >> 16, 'x') + ' Function:' + str(
        code >> 2 & 0xfff) + ' Method: ' + str(code & 3) + ')'


def unknown(value):
    return '<Unknown: ' + str(value) + '>'
