"""A small CBOR encoder of its own (the library's codec is under test)."""
import struct


def head(mt, n, width=None):
    if width is None:
        width = 0 if n < 24 else 1 if n < 256 else 2 if n < 65536 else 4 if n < 1 << 32 else 8
    if width == 0:
        return bytes([mt << 5 | n])
    return bytes([mt << 5 | {1: 24, 2: 25, 4: 26, 8: 27}[width]]) + n.to_bytes(width, 'big')


class Raw(bytes):
    """Bytes spliced in as they are."""


class Pairs(list):
    """A map given as a list of pairs (any order, duplicates possible)."""


class Wide:
    """A value whose length or number is encoded in a wider form than needed."""
    def __init__(self, v, width):
        self.v, self.width = v, width


def enc(v, width=None):
    if isinstance(v, Raw):
        return bytes(v)
    if isinstance(v, Wide):
        return enc(v.v, v.width)
    if v is None:
        return b'\xf6'
    if v is True:
        return b'\xf5'
    if v is False:
        return b'\xf4'
    if isinstance(v, int):
        if -(1 << 64) <= v < 0:
            return head(1, -1 - v, width)
        if 0 <= v < 1 << 64:
            return head(0, v, width)
        n = v if v > 0 else -1 - v
        b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
        return (b'\xc2' if v > 0 else b'\xc3') + enc(b)
    if isinstance(v, float):
        if width == 4:
            return b'\xfa' + struct.pack('>f', v)
        if width == 2:
            return b'\xf9' + struct.pack('>e', v)
        return b'\xfb' + struct.pack('>d', v)
    if isinstance(v, (bytes, bytearray)):
        return head(2, len(v), width) + bytes(v)
    if isinstance(v, str):
        b = v.encode('utf-8', 'surrogatepass')
        return head(3, len(b), width) + b
    if isinstance(v, Pairs):
        return head(5, len(v), width) + b''.join(enc(a) + enc(b) for a, b in v)
    if isinstance(v, dict):
        return head(5, len(v), width) + b''.join(enc(a) + enc(b) for a, b in v.items())
    if isinstance(v, (list, tuple)):
        return head(4, len(v), width) + b''.join(enc(x) for x in v)
    raise TypeError(type(v))
