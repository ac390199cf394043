"""String primitives of the PML format as functions of a byte string (used by the analyser on constants,
by the valuation of terms, and by the reference model when it is run under CPython)."""


def _units(b):
    return [b[i:i + 2] for i in range(0, len(b), 2)]


def utf16z(b):
    """UTF-16LE text up to the first NUL unit (or the end)"""
    out = b""
    for u in _units(b):
        if u == b"\0\0":
            break
        out += u
    return out.decode("utf-16-le", "replace")


def zlen(b):
    """bytes consumed by a NUL terminated string, terminator included"""
    n = 0
    for u in _units(b):
        n += len(u)
        if u == b"\0\0":
            break
    return n


def _multi(b):
    out, cur, done, n = [], b"", False, 0
    for u in _units(b):
        n += len(u)
        if u == b"\0\0":
            if done:
                break
            done = True
            out.append(cur.decode("utf-16-le", "replace"))
            cur = b""
        else:
            done = False
            cur += u
    if cur:
        out.append(cur.decode("utf-16-le", "replace"))
    return out, n


def multisz(b):
    """strings of a double-NUL terminated list"""
    return _multi(b)[0]


def mlen(b):
    return _multi(b)[1]
