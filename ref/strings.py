"""What the string readers must return, and how many bytes they must consume."""


def utf16(b):
    out = b""
    for i in range(0, len(b), 2):
        u = b[i:i + 2]
        if u == b"\0\0":
            break
        out += u
    return out.decode("utf-16-le", "replace")


def multisz(b):
    out = []
    cur = b""
    done = False
    for i in range(0, len(b), 2):
        u = b[i:i + 2]
        if u == b"\0\0":
            if done:
                break
            done = True
            out.append(cur.decode("utf-16-le", "replace"))
            cur = b""
        else:
            done = False
            cur += u
    if cur:
        out.append(cur.decode("utf-16-le", "replace"))
    return out
