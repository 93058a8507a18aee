"""Tagged encoding of Python values, shared with spec/Bytes.tla (VNone ... VMap)."""
import struct
from enum import Enum

from cryptography.hazmat.primitives.serialization import Encoding
from cryptography.x509 import Certificate


def mag(n):
    n = abs(n)
    return list(n.to_bytes((n.bit_length() + 7) // 8, 'big'))


def t_int(n):
    return {'t': 'int', 'neg': n < 0, 'mag': mag(n)}


def t_text(s):
    return {'t': 'text', 'u': list(s.encode('utf-8', 'surrogatepass'))}


def t_bytes(b):
    return {'t': 'bytes', 'b': list(b)}


NONE = {'t': 'none'}


def public_attrs(o):
    if hasattr(o, '__dict__'):
        d = dict(vars(o))
    else:
        d = {}
    for k in type(o).__mro__:
        for s in getattr(k, '__slots__', ()) if isinstance(getattr(k, '__slots__', ()), (tuple, list)) else ():
            if hasattr(o, s):
                d.setdefault(s, getattr(o, s))
    return {k: v for k, v in d.items() if not k.startswith('_')}


def enc(v, depth=0):
    if depth > 60:
        return {'t': 'deep'}
    if v is None:
        return NONE
    if isinstance(v, Enum):
        return {'t': 'enum', 'e': type(v).__qualname__, 'n': v.name}
    if isinstance(v, bool):
        return {'t': 'bool', 'v': v}
    if type(v) is int:
        return t_int(v)
    if type(v) is float:
        return {'t': 'float', 'f': list(struct.pack('>d', v))}
    if type(v) in (bytes, bytearray, memoryview):
        return t_bytes(bytes(v))
    if type(v) is str:
        return t_text(v)
    if isinstance(v, tuple) and hasattr(v, '_fields'):
        return {'t': 'obj', 'c': type(v).__name__,
                'f': {k: enc(getattr(v, k), depth + 1) for k in v._fields}}
    if type(v) in (list, tuple):
        return {'t': 'list', 'l': [enc(x, depth + 1) for x in v]}
    if type(v) is dict:
        return {'t': 'map', 'm': [[enc(k, depth + 1), enc(x, depth + 1)] for k, x in v.items()]}
    if type(v) in (set, frozenset):
        return {'t': 'set', 'l': sorted((repr(enc(x, depth + 1)) for x in v))}
    if isinstance(v, Certificate):
        return {'t': 'cert', 'b': list(v.public_bytes(Encoding.DER))}
    if type(v).__module__.startswith('webauthn_rp.'):
        return {'t': 'obj', 'c': type(v).__name__,
                'f': {k: enc(x, depth + 1) for k, x in public_attrs(v).items()}}
    return {'t': 'other', 'c': type(v).__name__}


def dec(t):
    """Python value of a tagged value coming from the specification (no objects)."""
    k = t['t']
    if k == 'none':
        return None
    if k == 'bool':
        return t['v']
    if k == 'int':
        n = int.from_bytes(bytes(t['mag']), 'big')
        return -n if t['neg'] else n
    if k == 'float':
        return struct.unpack('>d', bytes(t['f']))[0]
    if k == 'bytes':
        return bytes(t['b'])
    if k == 'text':
        return bytes(t['u']).decode('utf-8', 'surrogatepass')
    if k == 'list':
        return [dec(x) for x in t['l']]
    if k == 'map':
        return {dec(a): dec(b) for a, b in t['m']}
    raise ValueError(k)
