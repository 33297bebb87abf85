class Error(Exception):
    pass


class DecodeError(Error):
    pass


class EncodeError(Error):
    pass


class Message(object):
    __slots__ = ()
    DESCRIPTOR = None

    def __hash__(self):
        raise TypeError('unhashable object')
