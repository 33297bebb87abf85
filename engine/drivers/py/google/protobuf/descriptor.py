"""Descriptors with the attributes of google.protobuf.descriptor."""


class Error(Exception):
    pass


class _Base(object):
    has_options = False
    _options = None

    def GetOptions(self):
        return self._opt(self)


class FieldDescriptor(_Base):
    (TYPE_DOUBLE, TYPE_FLOAT, TYPE_INT64, TYPE_UINT64, TYPE_INT32, TYPE_FIXED64, TYPE_FIXED32, TYPE_BOOL, TYPE_STRING,
     TYPE_GROUP, TYPE_MESSAGE, TYPE_BYTES, TYPE_UINT32, TYPE_ENUM, TYPE_SFIXED32, TYPE_SFIXED64, TYPE_SINT32, TYPE_SINT64) = range(1, 19)
    MAX_TYPE = 18
    (CPPTYPE_INT32, CPPTYPE_INT64, CPPTYPE_UINT32, CPPTYPE_UINT64, CPPTYPE_DOUBLE, CPPTYPE_FLOAT, CPPTYPE_BOOL,
     CPPTYPE_ENUM, CPPTYPE_STRING, CPPTYPE_MESSAGE) = range(1, 11)
    MAX_CPPTYPE = 10
    LABEL_OPTIONAL, LABEL_REQUIRED, LABEL_REPEATED = 1, 2, 3
    _CPP = {1: 5, 2: 6, 3: 2, 4: 4, 5: 1, 6: 4, 7: 3, 8: 7, 9: 9, 10: 10, 11: 10, 12: 9, 13: 3, 14: 8, 15: 1, 16: 2, 17: 1, 18: 2}
    message_type = enum_type = containing_type = containing_oneof = extension_scope = None
    is_extension = False

    @property
    def cpp_type(self):
        return self._CPP[self.type]

    @property
    def is_repeated(self):
        return self.label == 3

    @property
    def is_required(self):
        return self.label == 2

    @property
    def is_packed(self):
        return self.label == 3 and self.type not in (9, 10, 11, 12) and self.file.syntax == 'proto3'


class Descriptor(_Base):
    containing_type = None
    is_extendable = False

    @property
    def fields_by_number(self):
        return dict((f.number, f) for f in self.fields)

    @property
    def oneofs_by_name(self):
        return dict((o.name, o) for o in self.oneofs)

    @property
    def nested_types_by_name(self):
        return dict((o.name, o) for o in self.nested_types)

    @property
    def enum_types_by_name(self):
        return dict((o.name, o) for o in self.enum_types)

    @property
    def enum_values_by_name(self):
        return dict((v.name, v) for e in self.enum_types for v in e.values)


class OneofDescriptor(_Base):
    pass


class EnumDescriptor(_Base):
    containing_type = None

    @property
    def values_by_number(self):
        d = {}
        for v in self.values:
            d.setdefault(v.number, v)
        return d

    @property
    def values_by_name(self):
        return dict((v.name, v) for v in self.values)

    @property
    def is_closed(self):
        return self.file.syntax != 'proto3'


class EnumValueDescriptor(_Base):
    pass


class FileDescriptor(_Base):
    pass
