"""Analysable stand-in for the third-party library `construct` (2.10.x, MIT licence).

The analyser never executes construct; it interprets this file abstractly whenever the code under
analysis imports construct.  The classes keep the parse/build behaviour of construct 2.10.70 (the
method bodies follow its source); code generation, sizeof, reports and error texts are left out.
`_pva_nullstrip` is a primitive of the analyser: bytes with the trailing NUL units removed.
"""
import io
import itertools
import struct


class ConstructError(Exception):
    def __init__(self, message='', path=None):
        super().__init__(message)
        self.path = path


class SizeofError(ConstructError):
    pass


class AdaptationError(ConstructError):
    pass


class ValidationError(ConstructError):
    pass


class StreamError(ConstructError):
    pass


class FormatFieldError(ConstructError):
    pass


class IntegerError(ConstructError):
    pass


class StringError(ConstructError):
    pass


class MappingError(ConstructError):
    pass


class RangeError(ConstructError):
    pass


class RepeatError(ConstructError):
    pass


class ConstError(ConstructError):
    pass


class IndexFieldError(ConstructError):
    pass


class CheckError(ConstructError):
    pass


class ExplicitError(ConstructError):
    pass


class NamedTupleError(ConstructError):
    pass


class TimestampError(ConstructError):
    pass


class UnionError(ConstructError):
    pass


class SelectError(ConstructError):
    pass


class SwitchError(ConstructError):
    pass


class StopFieldError(ConstructError):
    pass


class PaddingError(ConstructError):
    pass


class TerminatedError(ConstructError):
    pass


class RawCopyError(ConstructError):
    pass


class RotationError(ConstructError):
    pass


class ChecksumError(ConstructError):
    pass


class CancelParsing(ConstructError):
    pass


class CipherError(ConstructError):
    pass


def singleton(arg):
    return arg()


def stream_read(stream, length, path):
    if length < 0:
        raise StreamError()
    try:
        data = stream.read(length)
    except Exception:
        raise StreamError()
    if len(data) != length:
        raise StreamError()
    return data


def stream_read_entire(stream, path):
    try:
        return stream.read()
    except Exception:
        raise StreamError()


def stream_write(stream, data, length, path):
    if not isinstance(data, bytes):
        raise StringError()
    if length < 0:
        raise StreamError()
    if len(data) != length:
        raise StreamError()
    try:
        written = stream.write(data)
    except Exception:
        raise StreamError()
    if written != length:
        raise StreamError()


def stream_seek(stream, offset, whence, path):
    try:
        return stream.seek(offset, whence)
    except Exception:
        raise StreamError()


def stream_tell(stream, path):
    try:
        return stream.tell()
    except Exception:
        raise StreamError()


class Container(dict):
    def __getattr__(self, name):
        try:
            return self[name]
        except KeyError:
            raise AttributeError(name)

    def __setattr__(self, name, value):
        self[name] = value

    def __delattr__(self, name):
        try:
            del self[name]
        except KeyError:
            raise AttributeError(name)

    def copy(self):
        return Container(self)


class ListContainer(list):
    pass


class Construct(object):
    def __init__(self):
        self.name = None
        self.docs = ""
        self.flagbuildnone = False
        self.parsed = None

    def parse(self, data, **contextkw):
        return self.parse_stream(io.BytesIO(data), **contextkw)

    def parse_stream(self, stream, **contextkw):
        context = Container(**contextkw)
        context._parsing = True
        context._building = False
        context._sizing = False
        context._params = context
        try:
            return self._parsereport(stream, context, "(parsing)")
        except CancelParsing:
            pass

    def parse_file(self, filename, **contextkw):
        with open(filename, 'rb') as f:
            return self.parse_stream(f, **contextkw)

    def _parsereport(self, stream, context, path):
        obj = self._parse(stream, context, path)
        if self.parsed is not None:
            self.parsed(obj, context)
        return obj

    def _parse(self, stream, context, path):
        raise NotImplementedError

    def build(self, obj, **contextkw):
        stream = io.BytesIO()
        self.build_stream(obj, stream, **contextkw)
        return stream.getvalue()

    def build_stream(self, obj, stream, **contextkw):
        context = Container(**contextkw)
        context._parsing = False
        context._building = True
        context._sizing = False
        context._params = context
        self._build(obj, stream, context, "(building)")

    def build_file(self, obj, filename, **contextkw):
        with open(filename, 'w+b') as f:
            self.build_stream(obj, f, **contextkw)

    def _build(self, obj, stream, context, path):
        raise NotImplementedError

    def __rtruediv__(self, name):
        return Renamed(self, newname=name)

    __rdiv__ = __rtruediv__

    def __mul__(self, other):
        if isinstance(other, str):
            return Renamed(self, newdocs=other)
        if callable(other):
            return Renamed(self, newparsed=other)
        raise ConstructError()

    def __rmul__(self, other):
        if isinstance(other, str):
            return Renamed(self, newdocs=other)
        if callable(other):
            return Renamed(self, newparsed=other)
        raise ConstructError()

    def __add__(self, other):
        lhs = self.subcons if isinstance(self, Struct) else [self]
        rhs = other.subcons if isinstance(other, Struct) else [other]
        return Struct(*(lhs + rhs))

    def __getitem__(self, count):
        return Array(count, self)


def evaluate(param, context):
    return param(context) if callable(param) else param


class Subconstruct(Construct):

    def __init__(self, subcon):
        if not isinstance(subcon, Construct):
            raise TypeError('subcon should be a Construct field')
        super().__init__()
        self.subcon = subcon
        self.flagbuildnone = subcon.flagbuildnone

    def _parse(self, stream, context, path):
        return self.subcon._parsereport(stream, context, path)

    def _build(self, obj, stream, context, path):
        return self.subcon._build(obj, stream, context, path)


class Adapter(Subconstruct):

    def _parse(self, stream, context, path):
        obj = self.subcon._parsereport(stream, context, path)
        return self._decode(obj, context, path)

    def _build(self, obj, stream, context, path):
        obj2 = self._encode(obj, context, path)
        buildret = self.subcon._build(obj2, stream, context, path)
        return obj

    def _decode(self, obj, context, path):
        raise NotImplementedError

    def _encode(self, obj, context, path):
        raise NotImplementedError


class SymmetricAdapter(Adapter):

    def _encode(self, obj, context, path):
        return self._decode(obj, context, path)


class Validator(SymmetricAdapter):

    def _decode(self, obj, context, path):
        if not self._validate(obj, context, path):
            raise ValidationError()
        return obj

    def _validate(self, obj, context, path):
        raise NotImplementedError


class Bytes(Construct):

    def __init__(self, length):
        super().__init__()
        self.length = length

    def _parse(self, stream, context, path):
        length = self.length(context) if callable(self.length) else self.length
        return stream_read(stream, length, path)

    def _build(self, obj, stream, context, path):
        length = self.length(context) if callable(self.length) else self.length
        data = obj.to_bytes(length, 'big') if isinstance(obj, int) else obj
        data = bytes(data) if type(data) is bytearray else data
        stream_write(stream, data, length, path)
        return data


@singleton
class GreedyBytes(Construct):

    def _parse(self, stream, context, path):
        return stream_read_entire(stream, path)

    def _build(self, obj, stream, context, path):
        data = bytes(obj) if type(obj) is bytearray else obj
        stream_write(stream, data, len(data), path)
        return data


class FormatField(Construct):

    def __init__(self, endianity, format):
        super().__init__()
        self.fmtstr = endianity + format
        self.length = struct.calcsize(endianity + format)

    def _parse(self, stream, context, path):
        data = stream_read(stream, self.length, path)
        try:
            return struct.unpack(self.fmtstr, data)[0]
        except Exception:
            raise FormatFieldError()

    def _build(self, obj, stream, context, path):
        try:
            data = struct.pack(self.fmtstr, obj)
        except Exception:
            raise FormatFieldError()
        stream_write(stream, data, self.length, path)
        return obj


Int8ub = FormatField('>', 'B')
Int8sb = FormatField('>', 'b')
Int16ub = FormatField('>', 'H')
Int16sb = FormatField('>', 'h')
Int32ub = FormatField('>', 'L')
Int32sb = FormatField('>', 'l')
Int64ub = FormatField('>', 'Q')
Int64sb = FormatField('>', 'q')
Int8ul = FormatField('<', 'B')
Int8sl = FormatField('<', 'b')
Int16ul = FormatField('<', 'H')
Int16sl = FormatField('<', 'h')
Int32ul = FormatField('<', 'L')
Int32sl = FormatField('<', 'l')
Int64ul = FormatField('<', 'Q')
Int64sl = FormatField('<', 'q')
Int8un = FormatField('<', 'B')
Int8sn = FormatField('<', 'b')
Int16un = FormatField('<', 'H')
Int16sn = FormatField('<', 'h')
Int32un = FormatField('<', 'L')
Int32sn = FormatField('<', 'l')
Int64un = FormatField('<', 'Q')
Int64sn = FormatField('<', 'q')
Byte = Int8ub
Short = Int16ub
Int = Int32ub
Long = Int64ub


def encodingunit(encoding):
    encoding = encoding.replace("-", "_").lower()
    if encoding in ('ascii', 'utf8', 'utf_8', 'u8'):
        return bytes(1)
    if encoding in ('utf16', 'utf_16', 'u16', 'utf_16_be', 'utf_16_le'):
        return bytes(2)
    if encoding in ('utf32', 'utf_32', 'u32', 'utf_32_be', 'utf_32_le'):
        return bytes(4)
    raise StringError()


class EnumInteger(int):
    pass


class Enum(Adapter):

    def __init__(self, subcon, *merge, **mapping):
        super().__init__(subcon)
        for enum in merge:
            for enumentry in enum:
                mapping[enumentry.name] = enumentry.value
        self.encmapping = {k: v for k, v in mapping.items()}
        self.decmapping = {v: k for k, v in mapping.items()}

    def _decode(self, obj, context, path):
        try:
            return self.decmapping[obj]
        except KeyError:
            return obj

    def _encode(self, obj, context, path):
        try:
            if isinstance(obj, int):
                return obj
            return self.encmapping[obj]
        except KeyError:
            raise MappingError()


class StringEncoded(Adapter):

    def __init__(self, subcon, encoding):
        super().__init__(subcon)
        if not encoding:
            raise StringError()
        self.encoding = encoding

    def _decode(self, obj, context, path):
        try:
            return obj.decode(self.encoding)
        except:
            raise StringError()

    def _encode(self, obj, context, path):
        if not isinstance(obj, str):
            raise StringError()
        if obj == u'':
            return b''
        try:
            return obj.encode(self.encoding)
        except:
            raise StringError()


def PaddedString(length, encoding):
    macro = StringEncoded(FixedSized(length, NullStripped(GreedyBytes, pad=encodingunit(encoding))), encoding)
    return macro


def PascalString(lengthfield, encoding):
    macro = StringEncoded(Prefixed(lengthfield, GreedyBytes), encoding)
    return macro


def CString(encoding):
    macro = StringEncoded(NullTerminated(GreedyBytes, term=encodingunit(encoding)), encoding)
    return macro


def GreedyString(encoding):
    macro = StringEncoded(GreedyBytes, encoding)
    return macro


class Mapping(Adapter):

    def __init__(self, subcon, mapping):
        super().__init__(subcon)
        self.decmapping = {v: k for k, v in mapping.items()}
        self.encmapping = mapping

    def _decode(self, obj, context, path):
        try:
            return self.decmapping[obj]
        except (KeyError, TypeError):
            raise MappingError()

    def _encode(self, obj, context, path):
        try:
            return self.encmapping[obj]
        except (KeyError, TypeError):
            raise MappingError()


class Struct(Construct):

    def __init__(self, *subcons, **subconskw):
        super().__init__()
        self.subcons = list(subcons) + list((k / v for k, v in subconskw.items()))
        self._subcons = Container(((sc.name, sc) for sc in self.subcons if sc.name))
        self.flagbuildnone = all((sc.flagbuildnone for sc in self.subcons))

    def __getattr__(self, name):
        if name in self._subcons:
            return self._subcons[name]
        raise AttributeError

    def _parse(self, stream, context, path):
        obj = Container()
        obj._io = stream
        context = Container(_=context, _params=context._params, _root=None, _parsing=context._parsing, _building=context._building, _sizing=context._sizing, _subcons=self._subcons, _io=stream, _index=context.get('_index', None))
        context._root = context._.get('_root', context)
        for sc in self.subcons:
            try:
                subobj = sc._parsereport(stream, context, path)
                if sc.name:
                    obj[sc.name] = subobj
                    context[sc.name] = subobj
            except StopFieldError:
                break
        return obj

    def _build(self, obj, stream, context, path):
        if obj is None:
            obj = Container()
        context = Container(_=context, _params=context._params, _root=None, _parsing=context._parsing, _building=context._building, _sizing=context._sizing, _subcons=self._subcons, _io=stream, _index=context.get('_index', None))
        context._root = context._.get('_root', context)
        context.update(obj)
        for sc in self.subcons:
            try:
                if sc.flagbuildnone:
                    subobj = obj.get(sc.name, None)
                else:
                    subobj = obj[sc.name]
                if sc.name:
                    context[sc.name] = subobj
                buildret = sc._build(subobj, stream, context, path)
                if sc.name:
                    context[sc.name] = buildret
            except StopFieldError:
                break
        return context


class Sequence(Construct):

    def __init__(self, *subcons, **subconskw):
        super().__init__()
        self.subcons = list(subcons) + list((k / v for k, v in subconskw.items()))
        self._subcons = Container(((sc.name, sc) for sc in self.subcons if sc.name))
        self.flagbuildnone = all((sc.flagbuildnone for sc in self.subcons))

    def __getattr__(self, name):
        if name in self._subcons:
            return self._subcons[name]
        raise AttributeError

    def _parse(self, stream, context, path):
        obj = ListContainer()
        context = Container(_=context, _params=context._params, _root=None, _parsing=context._parsing, _building=context._building, _sizing=context._sizing, _subcons=self._subcons, _io=stream, _index=context.get('_index', None))
        context._root = context._.get('_root', context)
        for sc in self.subcons:
            try:
                subobj = sc._parsereport(stream, context, path)
                obj.append(subobj)
                if sc.name:
                    context[sc.name] = subobj
            except StopFieldError:
                break
        return obj

    def _build(self, obj, stream, context, path):
        if obj is None:
            obj = ListContainer([None for sc in self.subcons])
        context = Container(_=context, _params=context._params, _root=None, _parsing=context._parsing, _building=context._building, _sizing=context._sizing, _subcons=self._subcons, _io=stream, _index=context.get('_index', None))
        context._root = context._.get('_root', context)
        objiter = iter(obj)
        retlist = ListContainer()
        for i, sc in enumerate(self.subcons):
            try:
                subobj = next(objiter)
                if sc.name:
                    context[sc.name] = subobj
                buildret = sc._build(subobj, stream, context, path)
                retlist.append(buildret)
                if sc.name:
                    context[sc.name] = buildret
            except StopFieldError:
                break
        return retlist


class Array(Subconstruct):

    def __init__(self, count, subcon, discard=False):
        super().__init__(subcon)
        self.count = count
        self.discard = discard

    def _parse(self, stream, context, path):
        count = evaluate(self.count, context)
        if not 0 <= count:
            raise RangeError()
        discard = self.discard
        obj = ListContainer()
        for i in range(count):
            context._index = i
            e = self.subcon._parsereport(stream, context, path)
            if not discard:
                obj.append(e)
        return obj

    def _build(self, obj, stream, context, path):
        count = evaluate(self.count, context)
        if not 0 <= count:
            raise RangeError()
        if not len(obj) == count:
            raise RangeError()
        discard = self.discard
        retlist = ListContainer()
        for i, e in enumerate(obj):
            context._index = i
            buildret = self.subcon._build(e, stream, context, path)
            if not discard:
                retlist.append(buildret)
        return retlist


class GreedyRange(Subconstruct):

    def __init__(self, subcon, discard=False):
        super().__init__(subcon)
        self.discard = discard

    def _parse(self, stream, context, path):
        discard = self.discard
        obj = ListContainer()
        try:
            for i in itertools.count():
                context._index = i
                fallback = stream_tell(stream, path)
                e = self.subcon._parsereport(stream, context, path)
                if not discard:
                    obj.append(e)
        except StopFieldError:
            pass
        except ExplicitError:
            raise
        except Exception:
            stream_seek(stream, fallback, 0, path)
        return obj

    def _build(self, obj, stream, context, path):
        discard = self.discard
        try:
            retlist = ListContainer()
            for i, e in enumerate(obj):
                context._index = i
                buildret = self.subcon._build(e, stream, context, path)
                if not discard:
                    retlist.append(buildret)
            return retlist
        except StopFieldError:
            pass


class RepeatUntil(Subconstruct):

    def __init__(self, predicate, subcon, discard=False):
        super().__init__(subcon)
        self.predicate = predicate
        self.discard = discard

    def _parse(self, stream, context, path):
        predicate = self.predicate
        discard = self.discard
        if not callable(predicate):
            predicate = lambda _1, _2, _3: predicate
        obj = ListContainer()
        for i in itertools.count():
            context._index = i
            e = self.subcon._parsereport(stream, context, path)
            if not discard:
                obj.append(e)
            if predicate(e, obj, context):
                return obj

    def _build(self, obj, stream, context, path):
        predicate = self.predicate
        discard = self.discard
        if not callable(predicate):
            predicate = lambda _1, _2, _3: predicate
        partiallist = ListContainer()
        retlist = ListContainer()
        for i, e in enumerate(obj):
            context._index = i
            buildret = self.subcon._build(e, stream, context, path)
            if not discard:
                retlist.append(buildret)
                partiallist.append(buildret)
            if predicate(e, partiallist, context):
                break
        else:
            raise RepeatError()
        return retlist


class Renamed(Subconstruct):

    def __init__(self, subcon, newname=None, newdocs=None, newparsed=None):
        super().__init__(subcon)
        self.name = newname if newname else subcon.name
        self.docs = newdocs if newdocs else subcon.docs
        self.parsed = newparsed if newparsed else subcon.parsed

    def __getattr__(self, name):
        return getattr(self.subcon, name)

    def _parse(self, stream, context, path):
        pass
        return self.subcon._parsereport(stream, context, path)

    def _build(self, obj, stream, context, path):
        pass
        return self.subcon._build(obj, stream, context, path)


class Const(Subconstruct):

    def __init__(self, value, subcon=None):
        if subcon is None:
            if not isinstance(value, bytes):
                raise StringError()
            subcon = Bytes(len(value))
        super().__init__(subcon)
        self.value = value
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        obj = self.subcon._parsereport(stream, context, path)
        if not obj == self.value:
            raise ConstError()
        return obj

    def _build(self, obj, stream, context, path):
        if obj not in (None, self.value):
            raise ConstError()
        return self.subcon._build(self.value, stream, context, path)


class Computed(Construct):

    def __init__(self, func):
        super().__init__()
        self.func = func
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        return self.func(context) if callable(self.func) else self.func

    def _build(self, obj, stream, context, path):
        return self.func(context) if callable(self.func) else self.func


@singleton
class Index(Construct):

    def __init__(self):
        super().__init__()
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        return context.get('_index', None)

    def _build(self, obj, stream, context, path):
        return context.get('_index', None)


class Rebuild(Subconstruct):

    def __init__(self, subcon, func):
        super().__init__(subcon)
        self.func = func
        self.flagbuildnone = True

    def _build(self, obj, stream, context, path):
        obj = evaluate(self.func, context)
        return self.subcon._build(obj, stream, context, path)


class Default(Subconstruct):

    def __init__(self, subcon, value):
        super().__init__(subcon)
        self.value = value
        self.flagbuildnone = True

    def _build(self, obj, stream, context, path):
        obj = evaluate(self.value, context) if obj is None else obj
        return self.subcon._build(obj, stream, context, path)


class Check(Construct):

    def __init__(self, func):
        super().__init__()
        self.func = func
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        passed = evaluate(self.func, context)
        if not passed:
            raise CheckError()

    def _build(self, obj, stream, context, path):
        passed = evaluate(self.func, context)
        if not passed:
            raise CheckError()


@singleton
class Error(Construct):

    def __init__(self):
        super().__init__()
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        raise ExplicitError()

    def _build(self, obj, stream, context, path):
        raise ExplicitError()


class Select(Construct):

    def __init__(self, *subcons, **subconskw):
        super().__init__()
        self.subcons = list(subcons) + list((k / v for k, v in subconskw.items()))
        self.flagbuildnone = any((sc.flagbuildnone for sc in self.subcons))

    def _parse(self, stream, context, path):
        for sc in self.subcons:
            fallback = stream_tell(stream, path)
            try:
                obj = sc._parsereport(stream, context, path)
            except ExplicitError:
                raise
            except Exception:
                stream_seek(stream, fallback, 0, path)
            else:
                return obj
        raise SelectError()

    def _build(self, obj, stream, context, path):
        for sc in self.subcons:
            try:
                data = sc.build(obj, **context)
            except ExplicitError:
                raise
            except Exception:
                pass
            else:
                stream_write(stream, data, len(data), path)
                return obj
        raise SelectError()


def Optional(subcon):
    return Select(subcon, Pass)


def If(condfunc, subcon):
    macro = IfThenElse(condfunc, subcon, Pass)
    return macro


class IfThenElse(Construct):

    def __init__(self, condfunc, thensubcon, elsesubcon):
        super().__init__()
        self.condfunc = condfunc
        self.thensubcon = thensubcon
        self.elsesubcon = elsesubcon
        self.flagbuildnone = thensubcon.flagbuildnone and elsesubcon.flagbuildnone

    def _parse(self, stream, context, path):
        condfunc = evaluate(self.condfunc, context)
        sc = self.thensubcon if condfunc else self.elsesubcon
        return sc._parsereport(stream, context, path)

    def _build(self, obj, stream, context, path):
        condfunc = evaluate(self.condfunc, context)
        sc = self.thensubcon if condfunc else self.elsesubcon
        return sc._build(obj, stream, context, path)


class Switch(Construct):

    def __init__(self, keyfunc, cases, default=None):
        if default is None:
            default = Pass
        super().__init__()
        self.keyfunc = keyfunc
        self.cases = cases
        self.default = default
        allcases = list(cases.values()) + [default]
        self.flagbuildnone = all((sc.flagbuildnone for sc in allcases))

    def _parse(self, stream, context, path):
        keyfunc = evaluate(self.keyfunc, context)
        sc = self.cases.get(keyfunc, self.default)
        return sc._parsereport(stream, context, path)

    def _build(self, obj, stream, context, path):
        keyfunc = evaluate(self.keyfunc, context)
        sc = self.cases.get(keyfunc, self.default)
        return sc._build(obj, stream, context, path)


class StopIf(Construct):

    def __init__(self, condfunc):
        super().__init__()
        self.condfunc = condfunc
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        condfunc = evaluate(self.condfunc, context)
        if condfunc:
            raise StopFieldError()

    def _build(self, obj, stream, context, path):
        condfunc = evaluate(self.condfunc, context)
        if condfunc:
            raise StopFieldError()


def Padding(length, pattern=b'\x00'):
    macro = Padded(length, Pass, pattern=pattern)
    return macro


class Padded(Subconstruct):

    def __init__(self, length, subcon, pattern=b'\x00'):
        if not isinstance(pattern, bytes) or len(pattern) != 1:
            raise PaddingError()
        super().__init__(subcon)
        self.length = length
        self.pattern = pattern

    def _parse(self, stream, context, path):
        length = evaluate(self.length, context)
        if length < 0:
            raise PaddingError()
        position1 = stream_tell(stream, path)
        obj = self.subcon._parsereport(stream, context, path)
        position2 = stream_tell(stream, path)
        pad = length - (position2 - position1)
        if pad < 0:
            raise PaddingError()
        stream_read(stream, pad, path)
        return obj

    def _build(self, obj, stream, context, path):
        length = evaluate(self.length, context)
        if length < 0:
            raise PaddingError()
        position1 = stream_tell(stream, path)
        buildret = self.subcon._build(obj, stream, context, path)
        position2 = stream_tell(stream, path)
        pad = length - (position2 - position1)
        if pad < 0:
            raise PaddingError()
        stream_write(stream, self.pattern * pad, pad, path)
        return buildret


class Pointer(Subconstruct):

    def __init__(self, offset, subcon, stream=None):
        super().__init__(subcon)
        self.offset = offset
        self.stream = stream

    def _parse(self, stream, context, path):
        offset = evaluate(self.offset, context)
        stream = evaluate(self.stream, context) or stream
        fallback = stream_tell(stream, path)
        stream_seek(stream, offset, 2 if offset < 0 else 0, path)
        obj = self.subcon._parsereport(stream, context, path)
        stream_seek(stream, fallback, 0, path)
        return obj

    def _build(self, obj, stream, context, path):
        offset = evaluate(self.offset, context)
        stream = evaluate(self.stream, context) or stream
        fallback = stream_tell(stream, path)
        stream_seek(stream, offset, 2 if offset < 0 else 0, path)
        buildret = self.subcon._build(obj, stream, context, path)
        stream_seek(stream, fallback, 0, path)
        return buildret


class Peek(Subconstruct):

    def __init__(self, subcon):
        super().__init__(subcon)
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        fallback = stream_tell(stream, path)
        try:
            return self.subcon._parsereport(stream, context, path)
        except ExplicitError:
            raise
        except ConstructError:
            pass
        finally:
            stream_seek(stream, fallback, 0, path)

    def _build(self, obj, stream, context, path):
        return obj


class Seek(Construct):

    def __init__(self, at, whence=0):
        super().__init__()
        self.at = at
        self.whence = whence
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        at = evaluate(self.at, context)
        whence = evaluate(self.whence, context)
        return stream_seek(stream, at, whence, path)

    def _build(self, obj, stream, context, path):
        at = evaluate(self.at, context)
        whence = evaluate(self.whence, context)
        return stream_seek(stream, at, whence, path)


@singleton
class Tell(Construct):

    def __init__(self):
        super().__init__()
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        return stream_tell(stream, path)

    def _build(self, obj, stream, context, path):
        return stream_tell(stream, path)


@singleton
class Pass(Construct):

    def __init__(self):
        super().__init__()
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        return None

    def _build(self, obj, stream, context, path):
        return obj


@singleton
class Terminated(Construct):

    def __init__(self):
        super().__init__()
        self.flagbuildnone = True

    def _parse(self, stream, context, path):
        if stream.read(1):
            raise TerminatedError()

    def _build(self, obj, stream, context, path):
        return obj


class Prefixed(Subconstruct):

    def __init__(self, lengthfield, subcon, includelength=False):
        super().__init__(subcon)
        self.lengthfield = lengthfield
        self.includelength = includelength

    def _parse(self, stream, context, path):
        length = self.lengthfield._parsereport(stream, context, path)
        if self.includelength:
            length -= self.lengthfield._sizeof(context, path)
        substream = io.BytesIO(stream_read(stream, length, path))
        return self.subcon._parsereport(substream, context, path)

    def _build(self, obj, stream, context, path):
        stream2 = io.BytesIO()
        buildret = self.subcon._build(obj, stream2, context, path)
        data = stream2.getvalue()
        length = len(data)
        if self.includelength:
            length += self.lengthfield._sizeof(context, path)
        self.lengthfield._build(length, stream, context, path)
        stream_write(stream, data, len(data), path)
        return buildret


def PrefixedArray(countfield, subcon):
    macro = FocusedSeq('items', 'count' / Rebuild(countfield, len_(this.items)), 'items' / subcon[this.count])

    def _actualsize(self, stream, context, path):
        position1 = stream_tell(stream, path)
        count = countfield._parse(stream, context, path)
        position2 = stream_tell(stream, path)
        return position2 - position1 + count * subcon._sizeof(context, path)
    macro._actualsize = _actualsize
    return macro


class FixedSized(Subconstruct):

    def __init__(self, length, subcon):
        super().__init__(subcon)
        self.length = length

    def _parse(self, stream, context, path):
        length = evaluate(self.length, context)
        if length < 0:
            raise PaddingError()
        substream = io.BytesIO(stream_read(stream, length, path))
        return self.subcon._parsereport(substream, context, path)

    def _build(self, obj, stream, context, path):
        length = evaluate(self.length, context)
        if length < 0:
            raise PaddingError()
        stream2 = io.BytesIO()
        buildret = self.subcon._build(obj, stream2, context, path)
        data = stream2.getvalue()
        pad = length - len(data)
        if pad < 0:
            raise PaddingError()
        stream_write(stream, data, len(data), path)
        stream_write(stream, bytes(pad), pad, path)
        return buildret


class NullTerminated(Subconstruct):

    def __init__(self, subcon, term=b'\x00', include=False, consume=True, require=True):
        super().__init__(subcon)
        self.term = term
        self.include = include
        self.consume = consume
        self.require = require

    def _parse(self, stream, context, path):
        term = self.term
        unit = len(term)
        if unit < 1:
            raise PaddingError()
        data = b''
        offset = stream_tell(stream, path)
        while True:
            try:
                b = stream_read(stream, unit, path)
            except StreamError:
                if self.require:
                    raise
                else:
                    break
            if b == term:
                if self.include:
                    data += b
                if not self.consume:
                    stream_seek(stream, -unit, 1, path)
                break
            data += b
        substream = io.BytesIO(data)
        return self.subcon._parsereport(substream, context, path)

    def _build(self, obj, stream, context, path):
        buildret = self.subcon._build(obj, stream, context, path)
        stream_write(stream, self.term, len(self.term), path)
        return buildret


class ExprAdapter(Adapter):

    def __init__(self, subcon, decoder, encoder):
        super().__init__(subcon)
        self._decode = lambda obj, ctx, path: decoder(obj, ctx)
        self._encode = lambda obj, ctx, path: encoder(obj, ctx)


class NullStripped(Subconstruct):

    def __init__(self, subcon, pad=b'\x00'):
        super().__init__(subcon)
        self.pad = pad

    def _parse(self, stream, context, path):
        data = stream_read_entire(stream, path)
        data = _pva_nullstrip(data, self.pad)
        return self.subcon._parsereport(io.BytesIO(data), context, path)

    def _build(self, obj, stream, context, path):
        return self.subcon._build(obj, stream, context, path)


class Flag_(Construct):

    def _parse(self, stream, context, path):
        return stream_read(stream, 1, path) != b"\x00"

    def _build(self, obj, stream, context, path):
        stream_write(stream, b"\x01" if obj else b"\x00", 1, path)
        return obj


Flag = Flag_()


class _This(object):
    """`this`: only attribute paths are supported"""

    def __init__(self, names=()):
        self.__names = names

    def __getattr__(self, name):
        return _This(self.__names + (name,))

    def __getitem__(self, name):
        return _This(self.__names + (name,))

    def __call__(self, ctx):
        for n in self.__names:
            ctx = ctx[n]
        return ctx


this = _This()
