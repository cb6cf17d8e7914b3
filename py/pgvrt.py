"""A stand-in for the Python protobuf runtime: descriptors out of a
FileDescriptorSet, and messages with the parts of its interface that a
validator uses."""
import struct

MSG, GROUP, ENUM = 11, 10, 14


class DecodeError(Exception):
    pass


def varint(b, i):
    v = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise DecodeError("varint")
        c = b[i]
        i += 1
        v |= (c & 127) << s
        if c < 128:
            return v & (1 << 64) - 1, i
        s += 7


def fields(b):
    """(number, wire type, value) of an encoded message."""
    i = 0
    while i < len(b):
        k, i = varint(b, i)
        n, w = k >> 3, k & 7
        if w == 0:
            v, i = varint(b, i)
        elif w == 1:
            v, i = b[i:i + 8], i + 8
        elif w == 5:
            v, i = b[i:i + 4], i + 4
        elif w == 2:
            l, i = varint(b, i)
            v, i = b[i:i + l], i + l
        else:
            raise DecodeError("wire type")
        if i > len(b) or n == 0:
            raise DecodeError("truncated")
        yield n, w, v


def signed(v, bits):
    v &= (1 << bits) - 1
    return v - (1 << bits) if v >> bits - 1 else v


def zigzag(v):
    return v >> 1 ^ -(v & 1)


# type number -> (wire type, from wire, default)
SCALARS = {
    1: (1, lambda v: struct.unpack("<d", v)[0], 0.0), 2: (5, lambda v: struct.unpack("<f", v)[0], 0.0), 3: (0, lambda v: signed(v, 64), 0), 4: (0, lambda v: v, 0), 5: (0, lambda v: signed(v, 32), 0),
    6: (1, lambda v: struct.unpack("<Q", v)[0], 0), 7: (5, lambda v: struct.unpack("<I", v)[0], 0), 8: (0, lambda v: v != 0, False), 9: (2, lambda v: bytes(v).decode("utf-8"), ""), 12: (2, bytes, b""),
    13: (0, lambda v: v & 0xffffffff, 0), 14: (0, lambda v: signed(v, 32), 0), 15: (5, lambda v: struct.unpack("<i", v)[0], 0), 16: (1, lambda v: struct.unpack("<q", v)[0], 0),
    17: (0, lambda v: zigzag(v & 0xffffffff), 0), 18: (0, zigzag, 0),
}


class Desc:
    def __init__(self, **kw):
        self.__dict__.update(kw)

    def GetOptions(self):
        if self.__dict__.get("_opts") is None:
            self._opts = Options(self._pool, self._optname, self._raw)
        return self._opts


class Options:
    """The options of something: the extensions that are set."""

    def __init__(self, pool, kind, raw):
        self._set = []
        chunks = {}
        for n, w, v in fields(raw):
            chunks.setdefault(n, []).append((w, v))
        for n in sorted(chunks):
            x = pool.extensions.get((kind, n))
            if x is None:
                continue
            if x.type == MSG:
                v = Message(x.message_type)
                for w, c in chunks[n]:
                    v.MergeFromString(c)
            else:
                v = SCALARS[x.type][1](chunks[n][-1][1])
            self._set.append((x, v))

    def ListFields(self):
        return list(self._set)

    def __str__(self):
        return "".join("[%s]: %s\n" % (x.full_name, v) for x, v in self._set)


class Pool:
    def __init__(self, raw):
        self.messages, self.enums, self.extensions = {}, {}, {}
        todo = []
        for n, _, f in fields(raw):
            if n == 1:
                todo.append(self.file(f))
        for fds in todo:
            for fd in fds:
                self.link(fd)

    def file(self, raw):
        d = {}
        for n, _, v in fields(raw):
            d.setdefault(n, []).append(v)
        pkg = d.get(2, [b""])[0].decode()
        syntax = d.get(12, [b"proto2"])[0].decode()
        name = d[1][0].decode()
        out = []
        file = Desc(name=name, package=pkg, syntax=syntax)
        for m in d.get(4, []):
            self.message(m, pkg, file, out)
        for e in d.get(5, []):
            self.enum(e, pkg)
        for x in d.get(7, []):
            self.extension(x, pkg, file, out)
        return out

    def extension(self, raw, scope, file, out):
        x = self.field(raw, scope, file, None)
        x.is_extension = True
        out.append(x)

    def enum(self, raw, scope):
        d = {}
        for n, _, v in fields(raw):
            d.setdefault(n, []).append(v)
        name = d[1][0].decode()
        full = (scope + "." if scope else "") + name
        vals = []
        for v in d.get(2, []):
            x = {n: y for n, _, y in fields(v)}
            vals.append(Desc(name=x[1].decode(), number=signed(x.get(2, 0), 32), index=len(vals)))
        byn = {}
        for v in vals:
            byn.setdefault(v.number, v)
        self.enums[full] = Desc(name=name, full_name=full, values=vals, values_by_number=byn, values_by_name={v.name: v for v in vals})

    def field(self, raw, scope, file, parent):
        d = {}
        for n, _, v in fields(raw):
            d[n] = v
        name = d[1].decode()
        f = Desc(name=name, full_name=(scope + "." if scope else "") + name, number=d.get(3, 0), label=d.get(4, 1), type=d.get(5, 0), _typename=d.get(6, b"").decode().lstrip("."), _extendee=d.get(2, b"").decode().lstrip("."),
                 containing_type=parent, _oneof=d.get(9), containing_oneof=None, _raw=d.get(8, b""), _optname="google.protobuf.FieldOptions", _pool=self, file=file, message_type=None, enum_type=None, is_extension=False,
                 has_options=8 in d, _proto3opt=bool(d.get(17)), json_name=d.get(10, b"").decode(), _default=d.get(7), camelcase_name=d.get(10, b"").decode())
        f.has_presence = f.label != 3 and (f.type in (MSG, GROUP) or f._oneof is not None or file.syntax != "proto3")
        return f

    def message(self, raw, scope, file, out):
        d = {}
        for n, _, v in fields(raw):
            d.setdefault(n, []).append(v)
        name = d[1][0].decode()
        full = (scope + "." if scope else "") + name
        opts = d.get(7, [b""])
        m = Desc(name=name, full_name=full, file=file, _raw=b"".join(opts), _optname="google.protobuf.MessageOptions", _pool=self, oneofs=[], fields=[], has_options=bool(opts[0]), nested_types=[], enum_types=[], containing_type=None)
        for o in d.get(8, []):
            x = {n: v for n, _, v in fields(o)}
            m.oneofs.append(Desc(name=x[1].decode(), full_name=full + "." + x[1].decode(), fields=[], containing_type=m, _raw=x.get(2, b""), _optname="google.protobuf.OneofOptions", _pool=self, has_options=2 in x, index=len(m.oneofs)))
        for f in d.get(2, []):
            fd = self.field(f, full, file, m)
            fd.index = len(m.fields)
            m.fields.append(fd)
            out.append(fd)
            if fd._oneof is not None:
                fd.containing_oneof = m.oneofs[fd._oneof]
                fd.containing_oneof.fields.append(fd)
        m.fields_by_name = {f.name: f for f in m.fields}
        m.fields_by_number = {f.number: f for f in m.fields}
        m.oneofs_by_name = {o.name: o for o in m.oneofs}
        m.map_entry = any(n == 7 and v for o in opts for n, _, v in fields(o))
        self.messages[full] = m
        for n in d.get(3, []):
            self.message(n, full, file, out)
        for e in d.get(4, []):
            self.enum(e, full)
        for x in d.get(6, []):
            self.extension(x, full, file, out)

    def link(self, f):
        if f.type in (MSG, GROUP):
            f.message_type = self.messages[f._typename]
        elif f.type == ENUM:
            f.enum_type = self.enums[f._typename]
        f.default_value = None
        if f.label == 3:
            f.default_value = []
        elif f.type == ENUM:
            f.default_value = f.enum_type.values[0].number if f.file.syntax != "proto3" else 0
        elif f.type in SCALARS:
            f.default_value = SCALARS[f.type][2]
            if f._default is not None:
                t = f._default.decode()
                f.default_value = t if f.type == 9 else f._default if f.type == 12 else t == "true" if f.type == 8 else float(t) if f.type in (1, 2) else int(t)
        if f.is_extension:
            self.extensions[(f._extendee, f.number)] = f


class Message:
    def __init__(self, desc, parent=None, slot=None):
        o = object.__setattr__
        o(self, "DESCRIPTOR", desc)
        o(self, "_v", {})
        o(self, "_kids", {})
        o(self, "_parent", parent)
        o(self, "_slot", slot)

    def _touch(self):
        if self._parent is not None and self._slot is not None:
            p, f = self._parent, self._slot
            object.__setattr__(self, "_parent", None)
            p._put(f, self)

    def _put(self, f, v):
        if f.containing_oneof is not None:
            for g in f.containing_oneof.fields:
                if g is not f:
                    self._v.pop(g.name, None)
        self._v[f.name] = v
        self._touch()

    def __getattr__(self, name):
        f = self.DESCRIPTOR.fields_by_name.get(name)
        if f is None:
            raise AttributeError(name)
        if name in self._v:
            return self._v[name]
        if f.label == 3:
            v = {} if f.type == MSG and f.message_type.map_entry else []
            self._v[name] = v
            return v
        if f.type == MSG:
            if name not in self._kids:
                self._kids[name] = Message(f.message_type, self, f)
            return self._kids[name]
        return f.default_value

    def __setattr__(self, name, v):
        f = self.DESCRIPTOR.fields_by_name.get(name)
        if f is None or f.label == 3 or f.type == MSG:
            raise AttributeError("cannot assign " + name)
        if f.type == 9 and not isinstance(v, (str, bytes)) or f.type == 12 and not isinstance(v, bytes):
            raise TypeError(name)
        self._put(f, v)

    def HasField(self, name):
        o = self.DESCRIPTOR.oneofs_by_name.get(name)
        if o is not None:
            return any(f.name in self._v for f in o.fields)
        f = self.DESCRIPTOR.fields_by_name.get(name)
        if f is None or not f.has_presence:
            raise ValueError("no presence: " + name)
        return name in self._v

    def WhichOneof(self, name):
        for f in self.DESCRIPTOR.oneofs_by_name[name].fields:
            if f.name in self._v:
                return f.name
        return None

    def ListFields(self):
        out = []
        for f in sorted(self.DESCRIPTOR.fields, key=lambda f: f.number):
            if f.name in self._v:
                v = self._v[f.name]
                if (f.label == 3 and not v) or (not f.has_presence and f.label != 3 and not v):
                    continue
                out.append((f, v))
        return out

    def __eq__(self, o):
        return isinstance(o, Message) and self.DESCRIPTOR is o.DESCRIPTOR and self.ListFields() == o.ListFields()

    def __hash__(self):
        raise TypeError("unhashable object")

    def __str__(self):
        out = []
        for f, v in self.ListFields():
            for x in (v if isinstance(v, list) else [v]):
                out.append("%s {\n%s}\n" % (f.name, x) if isinstance(x, (Message, dict)) else "%s: %r\n" % (f.name, x))
        return "".join(out)

    __repr__ = __str__

    def ParseFromString(self, b):
        self._v.clear()
        self.MergeFromString(b)

    def MergeFromString(self, b):
        for n, w, v in fields(b):
            f = self.DESCRIPTOR.fields_by_number.get(n)
            if f is None:
                continue
            if f.type == MSG:
                if w != 2:
                    continue
                if f.label != 3:
                    old = self._v.get(f.name)
                    m = old if old is not None else Message(f.message_type)
                    m.MergeFromString(v)
                    self._put(f, m)
                elif f.message_type.map_entry:
                    e = Message(f.message_type)
                    e.MergeFromString(v)
                    getattr(self, f.name)[e.key] = e.value
                else:
                    m = Message(f.message_type)
                    m.MergeFromString(v)
                    getattr(self, f.name).append(m)
                continue
            wt, conv, _ = SCALARS[f.type]
            try:
                if f.label != 3:
                    if w == wt:
                        self._put(f, conv(v))
                elif w == wt:
                    getattr(self, f.name).append(conv(v))
                elif w == 2:
                    i, l = 0, getattr(self, f.name)
                    while i < len(v):
                        if wt == 0:
                            x, i = varint(v, i)
                        else:
                            k = 8 if wt == 1 else 4
                            x, i = v[i:i + k], i + k
                        l.append(conv(x))
            except (UnicodeDecodeError, struct.error) as e:
                raise DecodeError(str(e))
