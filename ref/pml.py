"""Reference model of the PML container: header, tables, lookup rules."""
from ref.base import *


def header(f):
    """every field of the header, by meaning"""
    return {
        'version': u32(f, 4),
        'is_64bit': u32(f, 8),
        'computer_name': text(f, 0xc, 0x20),
        'system_root': text(f, 0x2c, 0x208),
        'number_of_events': u32(f, 0x234),
        'events_offset': u64(f, 0x240),
        'events_offsets_array_offset': u64(f, 0x248),
        'process_table_offset': u64(f, 0x250),
        'strings_table_offset': u64(f, 0x258),
        'icon_table_offset': u64(f, 0x260),
        'windows_major_number': u32(f, 0x274),
        'windows_minor_number': u32(f, 0x278),
        'windows_build_number': u32(f, 0x27c),
        'windows_build_number_after_decimal_point': u32(f, 0x280),
        'service_pack_name': text(f, 0x284, 0x32),
        'number_of_logical_processors': u32(f, 0x38c),
        'ram_memory_size': u64(f, 0x390),
        'header_size': u64(f, 0x398),
        'hosts_and_ports_tables_offset': u64(f, 0x3a0),
    }


def refused(f):
    """None if the header is acceptable, else the kind of refusal"""
    if f[0:4] != b'PML_':
        return 'PMLError'
    if u32(f, 4) != 9:
        return 'NotImplementedError'
    for o in (0x240, 0x248, 0x250, 0x258, 0x260):
        if u64(f, o) == 0:
            return 'PMLError'
    if u64(f, 0x398) != 0x3a8 or u64(f, 0x3a0) == 0:
        return 'PMLError'
    return None


def event_offset(f, i):
    return u32(f, u64(f, 0x248) + 5 * i)


def strings(f):
    s = u64(f, 0x258)
    out = []
    for i in range(u32(f, s)):
        p = s + u32(f, s + 4 + 4 * i)
        out.append(text(f, p + 4, u32(f, p)))
    return out


def module(f, o, pv, strs):
    b = o + pv
    return {
        'base_address': ptr(f, b, pv),
        'size': u32(f, b + pv),
        'path': strs[u32(f, b + pv + 4)],
        'version': strs[u32(f, b + pv + 8)],
        'company': strs[u32(f, b + pv + 12)],
        'description': strs[u32(f, b + pv + 16)],
        'timestamp': u32(f, b + pv + 20),
    }


def process(f, p, pv, strs):
    mods = []
    for k in range(u32(f, p + 0x60 + pv)):
        mods.append(module(f, p + 0x64 + pv + k * (2 * pv + 0x30), pv, strs))
    return u32(f, p), {
        'pid': u32(f, p + 4),
        'parent_pid': u32(f, p + 8),
        'authentication_id': u64(f, p + 0x10),
        'session': u32(f, p + 0x18),
        'start_time': u64(f, p + 0x20),
        'end_time': u64(f, p + 0x28),
        'virtualized': u32(f, p + 0x30),
        'is_process_64bit': u32(f, p + 0x34) != 0,
        'integrity': strs[u32(f, p + 0x38)],
        'user': strs[u32(f, p + 0x3c)],
        'process_name': strs[u32(f, p + 0x40)],
        'image_path': strs[u32(f, p + 0x44)],
        'command_line': strs[u32(f, p + 0x48)],
        'company': strs[u32(f, p + 0x4c)],
        'version': strs[u32(f, p + 0x50)],
        'description': strs[u32(f, p + 0x54)],
        'modules': mods,
    }


def processes(f, pv):
    p = u64(f, 0x250)
    n = u32(f, p)
    strs = strings(f)
    out = []
    for i in range(n):
        out.append(process(f, p + u32(f, p + 4 + 4 * n + 4 * i), pv, strs))
    return out


def hosts_and_ports(f):
    """([(address, name)], [((port, is tcp), name)])"""
    o = u64(f, 0x3a0)
    n = u32(f, o)
    o += 4
    hosts = []
    for _ in range(n):
        size = u32(f, o + 16)
        hosts.append((f[o:o + 16], text(f, o + 20, size)))
        o += 20 + size
    n = u32(f, o)
    o += 4
    ports = []
    for _ in range(n):
        size = u32(f, o + 4)
        ports.append(((u16(f, o), u16(f, o + 2) != 0), text(f, o + 8, size)))
        o += 8 + size
    return hosts, ports


def host_name(hosts, addr, is_v4):
    name = ''
    for a, n in hosts:
        if a == addr:
            name = n
    if name != '':
        return name
    if is_v4:
        return '.'.join([str(u8(addr, i)) for i in range(4)])
    return ':'.join([format(int.from_bytes(addr[2 * i:2 * i + 2], 'big'), 'x') for i in range(8)])


def port_name(ports, port, is_tcp):
    name = str(port)
    for (p, t), n in ports:
        if p == port and t == is_tcp:
            name = n
    return name


PROC = ('pid', 'parent_pid', 'authentication_id', 'session', 'start_time', 'end_time', 'virtualized', 'is_process_64bit',
        'integrity', 'user', 'process_name', 'image_path', 'command_line', 'company', 'version', 'description')


def event_process(f, i, pv):
    """the process of event i: the last table entry that carries its index"""
    want = u32(f, event_offset(f, i))
    out = None
    for idx, p in processes(f, pv):
        if idx == want:
            out = tuple([p[a] for a in PROC])
    if out is None:
        raise KeyError(want)
    return out
