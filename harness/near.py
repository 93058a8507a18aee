"""Values that are nearly another one: what a sloppy comparison would take for equal."""
import base64
import hashlib
import unicodedata
from urllib.parse import quote


TYPES = ['payment.get', 'payment.create', 'webauthn.delete', 'webauthn.update', 'webauthn.store', 'webauthn.assert', 'webauthn.register', 'webauthn.sign', 'public-key', 'get', 'create',
         'navigator.id.getAssertion', 'navigator.id.finishEnrollment', 'webauthn.get.v2', 'webauthn.get,webauthn.create', 'webauthn.create webauthn.get', 'fido2.get', 'credential.get',
         'webauthn', 'webauthn.', '.get', '.create', 'webauthn.getwebauthn.create', 'webauthn.isUserVerifyingPlatformAuthenticatorAvailable', 'webauthn-get', 'webauthn/get', 'webauthn:get']


def nbytes(r, b):
    """Bytes near b; now and then b itself."""
    n = len(b)
    i = r.randrange(n) if n else 0
    k = r.choice([1, 1, 2, 4, 8, 16])
    cut = r.choice([4, 8, 16, 20, 32, 64, 128, 255, 256])
    ways = [
        lambda: b,
        lambda: b[:i] + bytes([b[i] ^ (1 << r.randrange(8))]) + b[i + 1:] if n else b'\0',
        lambda: b[:i] + bytes([b[i] ^ 0x20]) + b[i + 1:] if n else b' ',
        lambda: b[:-k], lambda: b[k:],
        lambda: b + r.choice([b'\0', b' ', b'\n', b'=', b'/', b'.', b'\xff', r.randbytes(1)]) * r.choice([1, 1, 2, 3]),
        lambda: r.choice([b'\0', b' ', b'0', b'\xff', r.randbytes(1)]) * r.choice([1, 1, 2, 3]) + b,
        lambda: b.rstrip(b'\0') + b'\0' * r.choice([0, 1, 2]),
        lambda: b'\0' * r.choice([0, 1, 2]) + b.lstrip(b'\0'),
        lambda: b.strip(), lambda: b.lower(), lambda: b.upper(), lambda: b.swapcase(),
        lambda: b[::-1], lambda: b + b, lambda: b'',
        lambda: bytes(sorted(b)),
        lambda: b[1:] + b[:1],
        lambda: b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:],
        lambda: b[:i] + b[i + 1:],
        lambda: b[:i] + b[i:i + 1] + b[i:],
        lambda: b[:cut], lambda: b[-cut:], lambda: b[:cut] + r.randbytes(max(0, n - cut)), lambda: r.randbytes(max(0, n - cut)) + b[-cut:],
        lambda: b[:i] + r.randbytes(n - i),
        lambda: r.randbytes(i) + b[i:],
        lambda: base64.urlsafe_b64encode(b).rstrip(b'='), lambda: b.hex().encode(), lambda: hashlib.sha256(b).digest(),
        lambda: b.decode('latin-1').encode('utf-8'),
        lambda: b.decode('utf-8', 'ignore').encode(),
        lambda: bytes(255 - x for x in b),
        lambda: b.split(b'\0')[0],
        lambda: b.replace(b'+', b'-').replace(b'/', b'_'),
    ]
    return r.choice(ways)()


def ntext(r, s):
    """Text near s; now and then s itself."""
    n = len(s)
    i = r.randrange(n) if n else 0
    k = r.choice([1, 1, 2, 4, 8])
    ways = [
        lambda: s,
        lambda: s.upper(), lambda: s.lower(), lambda: s.swapcase(), lambda: s.casefold(), lambda: s.title(),
        lambda: s[:i] + s[i:i + 1].swapcase() + s[i + 1:],
        lambda: s[:-k], lambda: s[k:], lambda: s[:i] + s[i + 1:], lambda: s[:i] + s[i:i + 1] + s[i:],
        lambda: s[:i] + r.choice('aA0-_=.\0 ') + s[i + 1:],
        lambda: s + r.choice([' ', '\n', '\t', '=', '==', '.', '/', '\0', '\u200b', 'a', '0', ',']),
        lambda: r.choice([' ', '\n', '\ufeff', '.', '0', 'a', '\0']) + s,
        lambda: s.rstrip('='), lambda: s.strip(), lambda: s[::-1], lambda: s + s, lambda: '',
        lambda: s[:i] + s[i + 1:i + 2] + s[i:i + 1] + s[i + 2:],
        lambda: unicodedata.normalize(r.choice(['NFC', 'NFD', 'NFKC', 'NFKD']), s),
        lambda: unicodedata.normalize('NFKC', s + r.choice(['\u017f', '\u212a', 'e\u0301'])),
        lambda: s.replace('-', '_'), lambda: s.replace('_', '-').replace('+', '-').replace('/', '_'), lambda: s.replace('-', ''), lambda: s.replace('.', ''),
        lambda: quote(s, safe=''), lambda: s[:i] + '%%%02x' % (ord(s[i]) & 255) + s[i + 1:] if n else '%00',
        lambda: s.split('.')[0], lambda: s.split('.')[-1], lambda: 'webauthn.' + s, lambda: s[:i] + '*' + s[i + 1:],
        lambda: base64.urlsafe_b64encode(s.encode('utf-8', 'replace')).decode().rstrip('='),
        lambda: s.encode('ascii', 'ignore').decode(),
    ]
    return r.choice(ways)()


def nport(r, scheme, p):
    """p a port or None."""
    d = {'http': 80, 'https': 443}[scheme]
    q = d if p is None else p
    return r.choice([p, None, d, 80, 443, 523 - d, q + 1, q - 1, q * 10, int(str(q)[::-1]), q % 10000, q + 65536, q ^ 1, q // 10, 8443, 0])


def nhost(r, h):
    if h[:1] == '[':
        i = r.randrange(1, len(h) - 1)
        return r.choice([h, h[:i] + r.choice('012abf') + h[i + 1:] if h[i] not in ':.' else h, '[::1]', '[::2]', h[:-1] + '1]', h[1:-1], h[1:-1].partition(':')[0], h + 'x', '[::%s]' % h[1:-1].rpartition(':')[2],
                         h + '@evil', 'evil@' + h, h + ':443@[::3]', h.upper()])
    return r.choice([lambda: h, lambda: h + '.', lambda: h + '@evil', lambda: 'evil@' + h, lambda: h + ':%d@evil' % r.choice([80, 443, 8443]), lambda: h + ':x@evil', lambda: 'evil:443@' + h, lambda: '[' + h + ']',
                     lambda: h + '%40evil', lambda: h + '@' + h, lambda: h + ':1', lambda: h.rstrip('.'), lambda: 'www.' + h, lambda: 'sub.' + h, lambda: 'x' + h, lambda: h + '.evil', lambda: h + 'x', lambda: h[1:], lambda: h[:-1],
                     lambda: h.partition('.')[2] or h, lambda: h.replace('-', ''), lambda: h.replace('.', '-'), lambda: h.replace('_', '-'), lambda: '.'.join(h.split('.')[::-1]),
                     lambda: '.' + h, lambda: h[:8], lambda: h + h, lambda: h.replace('www.', ''), lambda: '%61' + h[1:],
                     lambda: h + '%2e', lambda: h.replace('.', '..', 1), lambda: '0' + h, lambda: h.replace('a', 'b', 1), lambda: h.translate({ord('o'): '0', ord('l'): '1'})])()


def unorigin(o):
    scheme, _, rest = o.partition('://')
    h, _, p = rest.rpartition(':') if ':' in rest.rpartition(']')[2] else (rest, '', '')
    return scheme, h, int(p) if p.isdigit() else None


def origin(scheme, host, port):
    return '%s://%s%s' % (scheme, host, '' if port is None else ':%d' % port)


def norigin(r, o):
    """An origin near o, one component at a time or two."""
    s, h, p = unorigin(o)
    if s not in ('http', 'https'):
        return ntext(r, o)
    for _ in range(r.choice([1, 1, 1, 2])):
        c = r.random()
        if c < .2:
            s = {'http': 'https', 'https': 'http'}[s]
        elif c < .6:
            h = nhost(r, h)
        elif c < .9:
            p = nport(r, s, p)
        else:
            return ntext(r, origin(s, h, p))
    return origin(s, h, p)


def value(r, v):
    """A value of maps, lists, texts, bytes and numbers with one leaf or key near the old one."""
    if isinstance(v, bool):
        return r.choice([not v, v, None, int(v)])
    if v is None:
        return r.choice([None, False, 0, '', b'', [], {}])
    if isinstance(v, int):
        return r.choice([v + 1, v - 1, -v, -1 - v, v ^ 1, v + 256, v - 256, v * 2, v * 10, v + 2**16, v + 2**32, v & 255, float(v), str(v), bool(v)])
    if isinstance(v, float):
        return r.choice([v + 1, -v, v * 2, v / 2, round(v) if abs(v) < 1e15 else 0, float(int(v)) if abs(v) < 1e15 else v, str(v)])
    if isinstance(v, str):
        return r.choice([lambda: ntext(r, v)] * 6 + [lambda: v.encode('utf-8', 'replace'), lambda: [v]])()
    if isinstance(v, bytes):
        return r.choice([lambda: nbytes(r, v)] * 6 + [lambda: v.decode('latin-1'), lambda: [v]])()
    if isinstance(v, list):
        l = list(v)
        i = r.randrange(len(l) + 1)
        k = r.randrange(6)
        if i < len(l) and k < 3:
            l[i] = value(r, l[i])
        elif i < len(l) and k == 3:
            l.insert(i, l[i])
        elif i < len(l) and k == 4:
            del l[i]
        else:
            l.insert(i, r.choice([None, 0, True, '', b'', [], {}] + (l[:1] or [''])))
        return l
    if isinstance(v, dict) and v:
        k = r.choice(list(v))
        named = [a for a in v if isinstance(v[a], str)]
        if named and r.random() < .4:
            k = r.choice(named)
        if r.random() < .2:
            n = value(r, k)
            try:
                return {(n if a is k else a): x for a, x in v.items()}
            except TypeError:
                return v
        return {a: value(r, x) if a is k else x for a, x in v.items()}
    return v


def plain(v):
    """Only maps, lists, texts, bytes, numbers, truth values and none?"""
    if isinstance(v, dict):
        return type(v) is dict and all(plain(k) and plain(x) for k, x in v.items())
    return all(plain(x) for x in v) if type(v) is list else v is None or type(v) in (bool, int, float, str, bytes)
