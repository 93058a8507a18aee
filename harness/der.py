"""DER building blocks for the Android key description."""


def length(n):
    if n < 128:
        return bytes([n])
    b = n.to_bytes((n.bit_length() + 7) // 8, 'big')
    return bytes([128 | len(b)]) + b


def tlv(tag, content):
    return bytes([tag]) + length(len(content)) + content


def integer(n):
    k = max(1, (n.bit_length() + 8) // 8) if n >= 0 else max(1, ((n + 1).bit_length() + 8) // 8)
    return tlv(2, n.to_bytes(k, 'big', signed=True))


def enumerated(n):
    return tlv(10, bytes([n]))


def octets(b):
    return tlv(4, b)


def null():
    return b'\x05\x00'


def boolean(v):
    return tlv(1, b'\xff' if v else b'\x00')


def seq(*parts):
    return tlv(48, b''.join(parts))


def setof(*parts):
    return tlv(49, b''.join(sorted(parts)))


def explicit(n, content):
    """Context-specific constructed tag n."""
    if n < 31:
        return tlv(0xA0 | n, content)
    b, m = [], n
    while True:
        b.append(m & 127)
        m >>= 7
        if not m:
            break
    t = bytes([x | 128 for x in reversed(b[1:])] + [b[0]])
    return b'\xbf' + t + length(len(content)) + content
