"""Stand-in for the parts of `six` a Python 3 run uses (read by the analyser, never imported)."""
PY2 = False
PY3 = True
PY34 = True
string_types = (str,)
integer_types = (int,)
class_types = (type,)
text_type = str
binary_type = bytes
MAXSIZE = 9223372036854775807


def b(s):
    return s.encode("latin-1")


def u(s):
    return s


def ensure_str(s, encoding='utf-8', errors='strict'):
    if isinstance(s, bytes):
        return s.decode(encoding, errors)
    return s


def ensure_text(s, encoding='utf-8', errors='strict'):
    if isinstance(s, bytes):
        return s.decode(encoding, errors)
    return s


def ensure_binary(s, encoding='utf-8', errors='strict'):
    if isinstance(s, str):
        return s.encode(encoding, errors)
    return s


def iteritems(d, **kw):
    return iter(d.items(**kw))


def itervalues(d, **kw):
    return iter(d.values(**kw))


def iterkeys(d, **kw):
    return iter(d.keys(**kw))


def add_metaclass(metaclass):
    def wrapper(cls):
        return cls
    return wrapper


def python_2_unicode_compatible(klass):
    return klass
