"""Dynamic messages over a FileDescriptorSet, with the behaviour of the Python
protobuf runtime (presence, defaults, containers, wire format)."""
import struct
from google.protobuf.message import Message, DecodeError
from google.protobuf.descriptor import (Descriptor, EnumDescriptor, EnumValueDescriptor, FieldDescriptor as FD,
                                        FileDescriptor, OneofDescriptor)


def varint(b, i):
    r = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise DecodeError('varint')
        c = b[i]
        i += 1
        r |= (c & 127) << s
        if c < 128:
            return r & ((1 << 64) - 1), i
        s += 7


def records(b):
    """(number, wire type, value) of a serialised message."""
    i = 0
    while i < len(b):
        t, i = varint(b, i)
        n, w = t >> 3, t & 7
        if n == 0 or n >= 1 << 29:
            raise DecodeError('tag')
        if w == 0:
            v, i = varint(b, i)
        elif w == 1:
            v = b[i:i + 8]
            i += 8
        elif w == 5:
            v = b[i:i + 4]
            i += 4
        elif w == 2:
            l, i = varint(b, i)
            v = b[i:i + l]
            i += l
        else:
            raise DecodeError('wire type %d' % w)
        if i > len(b):
            raise DecodeError('truncated')
        yield n, w, v


def flat(b):
    d = {}
    for n, _, v in records(b):
        d.setdefault(n, []).append(v)
    return d


def i32(v):
    v &= 0xffffffff
    return v - (1 << 32) if v >> 31 else v


def i64(v):
    v &= (1 << 64) - 1
    return v - (1 << 64) if v >> 63 else v


WIRE = {1: 1, 2: 5, 3: 0, 4: 0, 5: 0, 6: 1, 7: 5, 8: 0, 9: 2, 11: 2, 12: 2, 13: 0, 14: 0, 15: 5, 16: 1, 17: 0, 18: 0}
FMT = {1: '<d', 2: '<f', 6: '<Q', 7: '<I', 15: '<i', 16: '<q'}


def scalar(t, v):
    if t in FMT:
        return struct.unpack(FMT[t], v)[0]
    if t == 3:
        return i64(v)
    if t == 5 or t == 14:
        return i32(v)
    if t == 13:
        return v & 0xffffffff
    if t == 17:
        v &= 0xffffffff
        return (v >> 1) ^ -(v & 1)
    if t == 18:
        return (v >> 1) ^ -(v & 1)
    if t == 8:
        return v != 0
    if t == 9:
        try:
            return bytes(v).decode('utf-8')
        except UnicodeDecodeError:
            raise DecodeError('UTF-8')
    if t == 12:
        return bytes(v)
    return v


def zero(f):
    t = f.type
    if t in (1, 2):
        return 0.0
    if t == 8:
        return False
    if t == 9:
        return ''
    if t == 12:
        return b''
    if t == 14:
        return f.enum_type.values[0].number
    return 0


depth = 0


class Pool(object):
    def __init__(self, fds):
        self.msgs, self.enums, self.exts, self.pending = {}, {}, {}, []
        for raw in flat(fds).get(1, []):
            self.file(raw)
        for f, raw in self.pending:
            self.link(f, raw)
        for f in self.exts_all:
            self.exts.setdefault(f.containing_type.full_name, {})[f.number] = f

    exts_all = None

    def s(self, d, n, default=''):
        return d[n][-1].decode('utf-8') if n in d else default

    def opt(self, d, raw, kind):
        d._raw = raw
        d._kind = 'google.protobuf.' + kind
        d.has_options = raw is not None
        d._opt = self.options

    def options(self, d):
        if d._options is None:
            c = self.cls(d._kind)
            d._options = c() if d._raw is None else c.FromString(d._raw)
        return d._options

    def file(self, raw):
        if self.exts_all is None:
            self.exts_all = []
        d = flat(raw)
        f = FileDescriptor()
        f.name, f.package, f.syntax = self.s(d, 1), self.s(d, 2), self.s(d, 12, 'proto2')
        self.opt(f, d[8][-1] if 8 in d else None, 'FileOptions')
        pre = f.package + '.' if f.package else ''
        f.message_types_by_name = {}
        for m in d.get(4, []):
            x = self.message(m, f, pre, None)
            f.message_types_by_name[x.name] = x
        f.enum_types_by_name = {}
        for e in d.get(5, []):
            x = self.enum(e, f, pre, None)
            f.enum_types_by_name[x.name] = x
        for e in d.get(7, []):
            self.ext(e, f, pre, None)

    def ext(self, raw, file, pre, scope):
        f = self.field(raw, file, pre, None)
        f.is_extension, f.extension_scope = True, scope
        self.exts_all.append(f)

    def message(self, raw, file, pre, parent):
        d = flat(raw)
        m = Descriptor()
        m.name = self.s(d, 1)
        m.full_name = pre + m.name
        m.file, m.containing_type = file, parent
        self.msgs[m.full_name] = m
        self.opt(m, d[7][-1] if 7 in d else None, 'MessageOptions')
        sub = m.full_name + '.'
        m.oneofs = []
        for o in d.get(8, []):
            x = OneofDescriptor()
            od = flat(o)
            x.name = self.s(od, 1)
            x.full_name = sub + x.name
            x.index, x.containing_type, x.fields = len(m.oneofs), m, []
            self.opt(x, od[2][-1] if 2 in od else None, 'OneofOptions')
            m.oneofs.append(x)
        m.fields = []
        for r in d.get(2, []):
            f = self.field(r, file, sub, m)
            f.index = len(m.fields)
            m.fields.append(f)
            if f._oneof is not None:
                f.containing_oneof = m.oneofs[f._oneof]
                f.containing_oneof.fields.append(f)
        m.fields_by_name = dict((f.name, f) for f in m.fields)
        m.fields_by_camelcase_name = dict((f.camelcase_name, f) for f in m.fields)
        m._num = dict((f.number, f) for f in m.fields)
        m.nested_types = [self.message(x, file, sub, m) for x in d.get(3, [])]
        m.enum_types = [self.enum(x, file, sub, m) for x in d.get(4, [])]
        m.extensions = []
        m.is_extendable = 5 in d
        for x in d.get(6, []):
            self.ext(x, file, sub, m)
        m._concrete_class = None
        return m

    def enum(self, raw, file, pre, parent):
        d = flat(raw)
        e = EnumDescriptor()
        e.name = self.s(d, 1)
        e.full_name = pre + e.name
        e.file, e.containing_type, e.values = file, parent, []
        self.opt(e, d[3][-1] if 3 in d else None, 'EnumOptions')
        for r in d.get(2, []):
            v, vd = EnumValueDescriptor(), flat(r)
            v.name, v.number, v.index, v.type = self.s(vd, 1), i32(vd[2][-1]) if 2 in vd else 0, len(e.values), e
            self.opt(v, vd[3][-1] if 3 in vd else None, 'EnumValueOptions')
            e.values.append(v)
        self.enums[e.full_name] = e
        return e

    def field(self, raw, file, pre, parent):
        d = flat(raw)
        f = FD()
        f.name = self.s(d, 1)
        f.full_name = pre + f.name
        f.number, f.label, f.type = d[3][-1], d[4][-1], d[5][-1]
        f.file, f.containing_type = file, parent
        f.json_name = f.camelcase_name = self.s(d, 10, f.name)
        f._oneof = d[9][-1] if 9 in d else None
        f._proto3opt = bool(d.get(17, [0])[-1])
        f.has_default_value = 7 in d
        f.index = 0
        self.opt(f, d[8][-1] if 8 in d else None, 'FieldOptions')
        self.pending.append((f, d))
        return f

    def link(self, f, d):
        tn = self.s(d, 6)[1:]
        if f.type in (10, 11):
            f.message_type = self.msgs[tn]
        if f.type == 14:
            f.enum_type = self.enums[tn]
        if f.is_extension or f.containing_type is None:
            f.containing_type = self.msgs[self.s(d, 2)[1:]]
        f.has_presence = f.label != 3 and (f.message_type is not None or f.file.syntax != 'proto3' or f._oneof is not None)
        f._map = f.label == 3 and f.message_type is not None and f.message_type._raw is not None and 7 in flat(f.message_type._raw)
        f.default_value = None
        if f.label == 3:
            f.default_value = []
        elif f.message_type is None:
            f.default_value = zero(f)
            if 7 in d:
                s = self.s(d, 7)
                if f.type in (1, 2):
                    f.default_value = float(s)
                elif f.type == 8:
                    f.default_value = s == 'true'
                elif f.type == 9:
                    f.default_value = s
                elif f.type == 12:
                    f.default_value = s.encode('latin-1').decode('unicode-escape').encode('latin-1')
                elif f.type == 14:
                    f.default_value = f.enum_type.values_by_name[s].number
                else:
                    f.default_value = int(s)

    def cls(self, full):
        m = self.msgs[full]
        if m._concrete_class is None:
            m._concrete_class = type(m.name, (Dyn,), {'DESCRIPTOR': m, '_pool': self, '__slots__': (), '__module__': m.file.name[:-6].replace('/', '.') + '_pb2'})
        return m._concrete_class


class RepeatedScalar(list):
    __hash__ = None


class RepeatedComposite(list):
    __hash__ = None

    def add(self, **k):
        m = self._new()
        for a, b in k.items():
            setattr(m, a, b)
        self.append(m)
        return m


class MapContainer(dict):
    __hash__ = None
    _make = None

    def __missing__(self, k):
        v = self[k] = self._make()
        return v

    def get_or_create(self, k):
        return self[k]


class Dyn(Message):
    __slots__ = ('_f', '_parent', '_unknown', '__weakref__')

    def __init__(self, **kw):
        object.__setattr__(self, '_f', {})
        object.__setattr__(self, '_parent', None)
        object.__setattr__(self, '_unknown', [])
        for k, v in kw.items():
            if isinstance(v, Message):
                getattr(self, k).CopyFrom(v)
            elif isinstance(v, list):
                getattr(self, k).extend(v)
            else:
                setattr(self, k, v)

    @classmethod
    def FromString(cls, b):
        m = cls()
        m.MergeFromString(b)
        return m

    def ParseFromString(self, b):
        self.Clear()
        return self.MergeFromString(b)

    def _touch(self):
        p = self._parent
        if p is not None:
            object.__setattr__(self, '_parent', None)
            m, f = p
            m._drop_oneof(f)
            m._f[f] = self
            m._touch()

    def _drop_oneof(self, f):
        if f.containing_oneof is not None:
            for g in f.containing_oneof.fields:
                if g is not f:
                    self._f.pop(g, None)

    def _field(self, name):
        f = self.DESCRIPTOR.fields_by_name.get(name)
        if f is None:
            raise ValueError('Protocol message %s has no "%s" field.' % (self.DESCRIPTOR.name, name))
        return f

    def __getattr__(self, name):
        f = self.DESCRIPTOR.fields_by_name.get(name)
        if f is None:
            raise AttributeError("'%s' object has no attribute '%s'" % (self.DESCRIPTOR.name, name))
        return self._get(f)

    def _get(self, f):
        v = self._f.get(f)
        if v is not None:
            return v
        if f._map:
            v = MapContainer()
            vt = f.message_type.fields_by_name['value']
            if vt.message_type is not None:
                v._make = self._pool.cls(vt.message_type.full_name)
            else:
                v._make = lambda: zero(vt)
            self._f[f] = v
            return v
        if f.label == 3:
            v = RepeatedScalar() if f.message_type is None else RepeatedComposite()
            if f.message_type is not None:
                v._new = self._pool.cls(f.message_type.full_name)
            self._f[f] = v
            return v
        if f.message_type is not None:
            v = self._pool.cls(f.message_type.full_name)()
            object.__setattr__(v, '_parent', (self, f))
            return v
        return f.default_value

    def __setattr__(self, name, v):
        f = self.DESCRIPTOR.fields_by_name.get(name)
        if f is None:
            raise AttributeError('Assignment not allowed (no field "%s" in protocol message object).' % name)
        if f.label == 3 or f.message_type is not None:
            raise AttributeError('Assignment not allowed to repeated or message field "%s" in protocol message object.' % name)
        if f.type == 2:
            v = struct.unpack('<f', struct.pack('<f', v))[0]
        self._drop_oneof(f)
        self._f[f] = v
        self._touch()

    def _set(self, f):
        if f not in self._f:
            return False
        v = self._f[f]
        if f.label == 3:
            return len(v) > 0
        if f.has_presence:
            return True
        return v != zero(f) or (f.type in (1, 2) and str(v) == '-0.0')

    def HasField(self, name):
        for o in self.DESCRIPTOR.oneofs:
            if o.name == name:
                return any(self._set(f) for f in o.fields)
        f = self._field(name)
        if not f.has_presence:
            raise ValueError('Field %s.%s does not have presence.' % (self.DESCRIPTOR.full_name, name))
        return f in self._f

    def WhichOneof(self, name):
        for o in self.DESCRIPTOR.oneofs:
            if o.name == name:
                for f in o.fields:
                    if self._set(f):
                        return f.name
                return None
        raise ValueError(name)

    def ListFields(self):
        return sorted(((f, v) for f, v in list(self._f.items()) if self._set(f)), key=lambda x: x[0].number)

    def HasExtension(self, f):
        return f in self._f

    @property
    def Extensions(self):
        m = self

        class E(object):
            def __getitem__(self, f):
                return m._get(f)

            def __contains__(self, f):
                return f in m._f
        return E()

    def ClearField(self, name):
        self._f.pop(self._field(name), None)

    def Clear(self):
        self._f.clear()

    def CopyFrom(self, o):
        if o is not self:
            self.Clear()
            self.MergeFromString(o.SerializeToString())

    def MergeFrom(self, o):
        self.MergeFromString(o.SerializeToString())

    def IsInitialized(self):
        return True

    def ByteSize(self):
        return len(self.SerializeToString())

    def __eq__(self, o):
        return isinstance(o, Dyn) and self.DESCRIPTOR is o.DESCRIPTOR and self.SerializeToString() == o.SerializeToString()

    def __ne__(self, o):
        return not self == o

    __hash__ = Message.__hash__

    def __deepcopy__(self, memo=None):
        return type(self).FromString(self.SerializeToString())

    # wire format

    def MergeFromString(self, b):
        global depth
        depth += 1
        try:
            if depth > 100:
                raise DecodeError('nested too deeply')
            return self._merge(b)
        finally:
            depth -= 1

    def _merge(self, b):
        self._touch()
        m = self.DESCRIPTOR
        exts = self._pool.exts.get(m.full_name, {})
        for n, w, v in records(b):
            f = m._num.get(n) or exts.get(n)
            if f is None or f.type == 10:
                self._unknown.append((n, w, v))
                continue
            if f.label == 3 and w == 2 and WIRE[f.type] != 2:
                c, i = self._get(f), 0
                while i < len(v):
                    if WIRE[f.type] == 0:
                        x, i = varint(v, i)
                    else:
                        k = 8 if WIRE[f.type] == 1 else 4
                        x = v[i:i + k]
                        if len(x) < k:
                            raise DecodeError('packed')
                        i += k
                    x = scalar(f.type, x)
                    if not self._closed(f, x):
                        c.append(x)
                continue
            if w != WIRE[f.type]:
                self._unknown.append((n, w, v))
                continue
            if f._map:
                e = self._pool.cls(f.message_type.full_name).FromString(v)
                kf, vf = f.message_type.fields_by_name['key'], f.message_type.fields_by_name['value']
                val = e._f.get(vf)
                if val is None:
                    val = self._pool.cls(vf.message_type.full_name)() if vf.message_type is not None else zero(vf)
                if e._unknown and vf.enum_type is not None and vf.enum_type.is_closed:
                    self._unknown.append((n, w, v))
                    continue
                dict.__setitem__(self._get(f), e._f.get(kf, zero(kf)), val)
                continue
            if f.message_type is not None:
                if f.label == 3:
                    self._get(f).append(self._pool.cls(f.message_type.full_name).FromString(v))
                else:
                    self._get(f).MergeFromString(v)
                continue
            x = scalar(f.type, v)
            if self._closed(f, x):
                self._unknown.append((n, w, v))
                continue
            if f.label == 3:
                self._get(f).append(x)
            else:
                self._drop_oneof(f)
                self._f[f] = x
        return len(b)

    @staticmethod
    def _closed(f, x):
        return f.enum_type is not None and f.enum_type.is_closed and x not in f.enum_type.values_by_number

    def SerializeToString(self, deterministic=None):
        out = bytearray()

        def vi(v):
            v &= (1 << 64) - 1
            while v > 127:
                out.append(v & 127 | 128)
                v >>= 7
            out.append(v)

        def one(f, x):
            t = f.type
            vi(f.number << 3 | WIRE[t])
            if t in FMT:
                out.extend(struct.pack(FMT[t], x))
            elif t == 17 or t == 18:
                vi(x << 1 if x >= 0 else (-x << 1) - 1)
            elif WIRE[t] == 0:
                vi(int(x))
            else:
                b = x.SerializeToString() if t == 11 else x.encode('utf-8', 'surrogatepass') if t == 9 else x
                vi(len(b))
                out.extend(b)
        for f, v in self.ListFields():
            if f._map:
                for k in sorted(v, key=repr):
                    e = self._pool.cls(f.message_type.full_name)()
                    e._f[f.message_type.fields_by_name['key']] = k
                    e._f[f.message_type.fields_by_name['value']] = v[k]
                    one(f, e)
            elif f.label == 3:
                for x in v:
                    one(f, x)
            else:
                one(f, v)
        return bytes(out)

    SerializePartialToString = SerializeToString

    def __str__(self):
        out = []

        def one(f, x):
            n = '[%s]' % f.full_name if f.is_extension else f.name
            if f.message_type is not None:
                out.append('%s {\n%s}\n' % (n, ''.join('  ' + l + '\n' for l in str(x).splitlines())))
            elif f.enum_type is not None:
                ev = f.enum_type.values_by_number.get(x)
                out.append('%s: %s\n' % (n, ev.name if ev else x))
            elif f.type in (9, 12):
                b = x.encode('utf-8') if f.type == 9 else x
                out.append('%s: "%s"\n' % (n, ''.join(chr(c) if 32 <= c < 127 and c not in (34, 92) else '\\%03o' % c for c in b)))
            else:
                out.append('%s: %s\n' % (n, str(x).lower() if f.type == 8 else x))
        for f, v in self.ListFields():
            if f._map:
                for k in v:
                    out.append('%s {\n  key: %s\n}\n' % (f.name, k))
            elif f.label == 3:
                for x in v:
                    one(f, x)
            else:
                one(f, v)
        return ''.join(out)

    __repr__ = __str__
